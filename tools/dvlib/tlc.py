"""Run TLC on a specification of /verif/spec, in a scratch metadir, and collect what it printed."""
import json, os, re, shutil, subprocess, tempfile, time

from .observe import ROOT, ToolError, Unreadable

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(ROOT, "spec")


class Run:
    def __init__(self):
        self.recs, self.states, self.distinct, self.wall, self.out, self.rc = [], 0, 0, 0.0, "", 0


def work(name):
    d = os.path.join(ROOT, "work", name)
    os.makedirs(d, exist_ok=True)
    return d


def tlc(module, cfg=None, env=None, workers=8, heap="6g", timeout=840, args=(), fp=None, keep=False):
    """TLC on module.tla; '@@'-prefixed printed strings are decoded JSON records in .recs"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work("tlc"))
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
           "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-checkpoint", "0",
           "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s ran out of time" % module)
    finally:
        if not keep:
            shutil.rmtree(meta, ignore_errors=True)
    r = Run()
    r.wall = time.time() - t0
    r.rc = p.returncode
    if os.environ.get("DV_TIME"):
        print("   [%s %.1fs]" % (module, r.wall), flush=True)
    r.out = p.stdout.decode("utf-8", "replace")
    for ln in r.out.split("\n"):
        if ln.startswith('"@@'):
            r.recs.append(json.loads(json.loads(ln)[2:]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    if p.returncode != 0 or not m:
        tail = "\n".join(l[:2000] for l in r.out.split("\n") if not l.startswith('"@@'))
        bad = re.search(r"evaluating the nested|Attempted to", r.out) and not re.search(r"StackOverflow|OutOfMemory", r.out)
        raise (Unreadable if bad else ToolError)("TLC on %s failed (rc %d):\n%s" % (module, p.returncode, tail[-1800:]))
    return r


def reading(go, cases, bad, what):
    """go(cases); when the specification has no meaning for one of them, which one is found and given to bad(case, message)"""
    try:
        return go(cases)
    except Unreadable as e:
        if bad is None:
            raise
        part, last = cases, e
        while len(part) > 1:
            half = part[:len(part) // 2]
            try:
                go(half)
                part = part[len(part) // 2:]
            except Unreadable as e2:
                part, last = half, e2
        try:
            go(part)
        except Unreadable as e3:
            bad(part[0], str(e3)[-600:])
            return None
        raise ToolError("%s: no case fails alone\n%s" % (what, last))


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        json.dump(obj, f, ensure_ascii=False)
    return path


def text_case(cid, kind, text, **kw):
    d = {"id": cid, "kind": kind, "s": text, "cps": [ord(c) for c in text], "bytes": len(text.encode("utf-8"))}
    d.update(kw)
    return d
