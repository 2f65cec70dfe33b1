"""Build the observation harness from /repo's current tree and feed texts to it.

A record that makes the process die or stall is reported as {"st": "crash"} / {"st": "hang"}: what the
code under test does is data here, never an error of the check.
"""
import json, os, subprocess, threading, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class ToolError(Exception):
    pass


class Unreadable(ToolError):
    """a specification gives no meaning to something in its input"""


def cargo_env(target, extra=None):
    env = dict(os.environ)
    env.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=target,
               CARGO_INCREMENTAL="0")
    env.update(extra or {})
    return env


def build(crate="harness", binary="dv", rustflags="", args=()):
    target = os.path.join(ROOT, "target", crate)
    os.makedirs(target, exist_ok=True)
    extra = {"RUSTFLAGS": rustflags + " -Awarnings"}
    p = subprocess.run(["cargo", "build", "--offline", "-q"] + list(args), cwd=os.path.join(ROOT, crate),
                       env=cargo_env(target, extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build against /repo:\n" + p.stdout[-4000:])
    return os.path.join(target, "debug", binary)


HEADER = {}


def _run_batch(binary, recs, per_record=20.0):
    """recs: list of (id, kind, what, text) -> dict id -> result"""
    out = {}
    todo = list(recs)
    while todo:
        payload = b""
        chunks = []
        for i, k, w, t in todo:
            b = t.encode("utf-8")
            chunks.append(("%s %s %s %d\n" % (i, k, w, len(b))).encode() + b + b"\n")
        payload = b"".join(chunks)
        env = dict(os.environ, NO_COLOR="1")
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        last = {"id": None, "t": time.time()}
        lines = []

        def rd_out():
            for ln in p.stdout:
                lines.append(ln)

        def rd_err():
            for ln in p.stderr:
                if ln.startswith(b"start "):
                    last["id"] = ln[6:].strip().decode()
                    last["t"] = time.time()

        def wr():
            try:
                p.stdin.write(payload)
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass

        ths = [threading.Thread(target=f, daemon=True) for f in (rd_out, rd_err, wr)]
        for t in ths:
            t.start()
        hung = False
        while True:
            try:
                p.wait(timeout=0.2 if len(todo) < 50 else 0.5)
                break
            except subprocess.TimeoutExpired:
                if time.time() - last["t"] > per_record:
                    hung = True
                    p.kill()
                    p.wait()
                    break
        for t in ths:
            t.join(timeout=5)
        done = set()
        for n, ln in enumerate(lines):
            try:
                r = json.loads(ln)
            except ValueError:
                continue
            if n == 0 and "names" in r:
                HEADER["names"] = r["names"]
                continue
            out[r["id"]] = r
            done.add(r["id"])
        rest = [r for r in todo if r[0] not in done]
        if not rest:
            break
        if p.returncode == 0 and not hung:
            raise ToolError("harness lost records: %r" % [r[0] for r in rest[:5]])
        bad = last["id"] if last["id"] is not None and last["id"] not in done else rest[0][0]
        out[bad] = {"id": bad, "st": "hang" if hung else "crash", "rc": p.returncode}
        todo = [r for r in rest if r[0] != bad]
    return out


def observe(binary, recs, jobs=8):
    recs = list(recs)
    if not recs:
        return {}
    if os.environ.get("DV_DUMP"):        # keep what was sent, to measure later what the texts are sensitive to
        with open(os.environ["DV_DUMP"], "a") as f:
            for r in recs:
                f.write(json.dumps([os.path.basename(binary)] + list(r[1:])) + "\n")
    n = max(1, min(jobs, (len(recs) + 49) // 50))
    parts = [recs[i::n] for i in range(n)]
    res = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda p: _run_batch(binary, p), parts):
            res.update(r)
    return res
