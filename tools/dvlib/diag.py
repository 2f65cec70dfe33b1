"""Reading rendered diagnostics, and the message templates they are made from."""
import os, re

from . import engine as en
from . import observe as ob
from .engine import Case

LOCALES = os.path.join("data", "locales", "en-US")


def templates(name):
    """key -> (regular expression that reads the details off an instance, names of the details)"""
    out, cur = {}, None
    for ln in open(os.path.join(en.REPO, LOCALES, name), encoding="utf-8"):
        ln = ln.rstrip("\n")
        m = re.match(r"^([A-Za-z][\w-]*)\s*=\s?(.*)$", ln)
        if m:
            cur = m.group(1)
            out[cur] = m.group(2).rstrip()
        elif cur and ln[:1] == " " and ln.strip():
            out[cur] += "\n" + ln.strip()
        elif not ln.strip().startswith("#") and ln.strip():
            cur = None
    res = {}
    for k, t in out.items():
        rx, names = "", []
        for part in re.split(r"(\{\s*\$\w+\s*\}|\{\s*\"[^\"]*\"\s*\})", t):
            v = re.match(r"\{\s*\$(\w+)\s*\}", part)
            q = re.match(r"\{\s*\"([^\"]*)\"\s*\}", part)
            if v:
                if v.group(1) in names:
                    rx += "(?P=%s)" % v.group(1)
                else:
                    names.append(v.group(1))
                    rx += "(?P<%s>.*)" % v.group(1)
            else:
                rx += re.escape(q.group(1) if q else part)
        res[k] = (re.compile(r"\A" + rx.rstrip() + r"\s*\Z", re.S), names)
    return res


HEAD = re.compile(r"\Aerror\[([^\]\n]*)\]: (.*?)\n(?:\s*--> (.*?):(\d+):(\d+)\n)(.*)\Z", re.S)
LINE = re.compile(r"^\s*(\d+)\s*\| ?(.*)$", re.S)


def cps(s):
    return [ord(c) for c in s]


def read(shown):
    """rendered diagnostic -> dict, or None when it has no head with a position"""
    m = HEAD.match(shown)
    if not m:
        return None
    code, head, where, line, col, rest = m.groups()
    lines, notes, traces = [], [], []
    for ln in rest.split("\n"):
        k = LINE.match(ln)
        n = re.match(r"^(note|help): (.*)$", ln, re.S)
        t = re.match(r"^\s*Location: (.*):(\d+):(\d+)$", ln, re.S)
        if t:
            traces.append({"where": t.group(1), "line": int(t.group(2)), "col": int(t.group(3)), "shown": []})
        elif k:
            (traces[-1]["shown"] if traces else lines).append({"n": int(k.group(1)), "x": cps(k.group(2))})
        elif n:
            notes.append({"k": n.group(1), "text": n.group(2)})
    return {"code": code, "head": head, "where": where, "line": int(line), "col": int(col), "shown": lines, "notes": notes, "traces": traces}


def instance(tm, text):
    for k, (rx, names) in tm.items():
        m = rx.match(text)
        if m:
            return k, m.groupdict()
    return None, {}


def case_of(chk, c, r, msgs, notes, path=""):
    """the DiceDiag case of a rejected text, or None after reporting what cannot be read"""
    shown = r["err"].get("shown")
    if shown is None:
        chk.violation(c, "rendering the diagnostic panics", None, r["err"])
        return None
    d = read(shown)
    if d is None:
        chk.violation(c, "the diagnostic shows no code, message and position", None, shown[:400])
        return None
    if d["code"] != r["err"]["code"]:
        chk.violation(c, "another code is shown", r["err"]["code"], shown[:300])
        return None
    if d["code"] not in msgs:
        chk.violation(c, "the code has no documented message", None, shown[:300])
        return None
    m = msgs[d["code"]][0].match(d["head"])
    if not d["head"].strip() or "{$" in d["head"] or not m:
        chk.violation(c, "the message is empty or unfinished", None, shown[:300])
        return None
    v = m.groupdict()
    ns = []
    for n in d["notes"]:
        k, nv = instance(notes, n["text"])
        ns.append({"k": n["k"], "id": k or ("?" + n["text"][:80]), "v": nv.get("kind", "")})
    want = "error[%s]: %s\n" % (d["code"], d["head"])
    again = r["err"]["debug"].startswith(want) and ("%s:%d:%d" % (d["where"], d["line"], d["col"])) in r["err"]["debug"]
    return dict(en.text_case("", c.kind, c.text), path=path,
                real={"code": d["code"], "line": d["line"], "col": d["col"], "where": d["where"], "shown": d["shown"],
                      "vars": {k: x for k, x in v.items()} or {"none": ""}, "exp": v.get("expected", "").split(", "),
                      "seq": cps(v.get("sequence", "")), "notes": ns, "again": again})


def generated(path):
    """the error codes and notes of the current tree, as a Rust file for the harness; False if they cannot be read"""
    base = os.path.join(en.REPO, "dice-core", "src", "error")
    try:
        codes = re.findall(r"pub (?:static|const) (\w+): ErrorCode\b", open(os.path.join(base, "codes.rs"), encoding="utf-8").read())
        notes = re.findall(r"pub (?:static|const) (\w+): ContextMsgId\b", open(os.path.join(base, "context.rs"), encoding="utf-8").read())
    except OSError:
        return False
    if not codes:
        return False
    with open(path, "w", encoding="utf-8") as f:
        f.write("use dice_core::error::codes as c;\nuse dice_core::error::context as x;\n")
        f.write("pub fn codes() -> Vec<(&'static str, dice_core::error::codes::ErrorCode)> {\n  vec![\n")
        f.write("".join('    ("%s", c::%s),\n' % (k, k) for k in codes))
        f.write("]\n}\npub fn notes() -> Vec<(&'static str, dice_core::error::context::ContextMsgId)> {\n  vec![\n")
        f.write("".join('    ("%s", x::%s),\n' % (k, k) for k in notes))
        f.write("]\n}\n")
    return True


def harness():
    """the harness with the catalogue, or None when the tree's errors cannot be listed this way"""
    gen = os.path.join(en.work("gen"), "codes_gen.rs")
    if not generated(gen):
        return None
    os.environ["DV_CODES"] = gen
    try:
        return ob.build(args=["--features", "diag"])
    except ob.ToolError:
        return None
