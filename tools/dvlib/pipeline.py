"""Texts -> specification's verdict and tree, real compiler's result, machine runs."""
import json, os, re

from . import observe as ob
from .tlc import tlc, reading, write_json, text_case, work
from .observe import ToolError

_BIN = {}


FEATURES = []        # extra features of the harness the running check needs


def harness():
    if "dv" not in _BIN:
        _BIN["dv"] = ob.build(args=["--features", ",".join(FEATURES)] if FEATURES else [])
    return _BIN["dv"]


def lexharness():
    if "lx" not in _BIN:
        _BIN["lx"] = ob.build("harness-lex", "dvlex", "--cfg dice_verif")
    return _BIN["lx"]


def front(items, name="front", tree=True, stats=None, workers=8):
    """items: [(id, kind, text)] -> {id: spec verdict}"""
    cases = [text_case(i, k, t, tree=tree) for i, k, t in items]
    f = write_json(os.path.join(work(name), "front.json"), cases)
    r = tlc("DiceFront", env={"DICE_CASES": f}, workers=workers)
    if stats is not None:
        stats.add(r)
    out = {x["id"]: x for x in r.recs}
    if len(out) != len(cases):
        raise ToolError("front: %d verdicts for %d texts" % (len(out), len(cases)))
    return out


def compile_all(items, what="code"):
    """items: [(id, kind, text)] -> {id: result of the real compiler}"""
    idx = {str(n): it for n, it in enumerate(items)}
    res = ob.observe(harness(), [(n, it[1], what, it[2]) for n, it in idx.items()])
    return {it[0]: res[n] for n, it in idx.items()}


def flatten(unit, rows=False):
    """nested unit JSON -> list of units, functions referring to units by 1-based index"""
    units = []

    def go(u):
        me = len(units)
        units.append(None)
        cs = []
        for c in u["consts"]:
            if c["k"] == "fn":
                cs.append({"k": "fn", "unit": go(c["unit"])})
            else:
                cs.append({k: v for k, v in c.items()})
        units[me] = {"code": u["bytes"], "slots": u["slots"], "ups": u["ups"], "consts": cs}
        if rows:
            units[me]["rows"] = u.get("rows", [])
            units[me]["name"] = u["name"]
        return me + 1

    go(unit)
    return units


def program(unit, kind, mods=None, off=0):
    """mods: {path: unit} compiled modules it may import; off: number of units of the prelude, which come first"""
    units = flatten(unit)
    mm = {}
    for p, u in (mods or {}).items():
        base = len(units)
        fl = flatten(u)
        for x in fl:
            for c in x["consts"]:
                if c["k"] == "fn":
                    c["unit"] += base
        mm[p] = base + 1 + off
        units += fl
    if off:
        for x in units:
            for c in x["consts"]:
                if c["k"] == "fn":
                    c["unit"] += off
    return {"units": units, "main": 1 + off, "kind": kind, "mods": mm or {"": 0}}


def ops_table():
    harness()
    if "names" not in ob.HEADER:
        compile_all([("h", "s", "1")])
    return [n[0] if n[0] else "?" for n in ob.HEADER["names"]]


def run_vm(cases, prelude=None, name="run", stats=None, workers=8, timeout=800, bad=None):
    """cases: [{id, kind, P, tree, trees, maxBits}] -> list of verdict records"""
    if not cases:
        return []

    def go(part):
        data = {"ops": ops_table(), "prelude": [prelude] if prelude else [], "cases": part}
        return tlc("DiceRun", env={"DICE_DATA": write_json(os.path.join(work(name), "run.json"), data)}, workers=workers, timeout=timeout)
    r = reading(go, cases, bad, "run")
    if r is None:
        return None
    if stats is not None:
        stats.add(r)
    return r.recs


_ROW = re.compile(r"^\s*(\d+) \| (?:([0-9A-Fa-f]{2}) \| )?(\S+)\s*\|(.*)$")
_HEAD = re.compile(r"^Function: \"?([^\"]*)\"?$")
_NUM = re.compile(r"(\w+)=(-?\d+)")


def listing(text):
    """the implementation's listing -> sections of rows [at, op, name, nums]"""
    secs, head = [], ""
    for ln in text.split("\n"):
        h = _HEAD.match(ln)
        if h:
            head = h.group(1)
            continue
        if ln.strip() == "Code":
            secs.append({"name": head, "rows": []})
            head = ""
            continue
        m = _ROW.match(ln)
        if m and secs:
            nums = []
            for k, v in _NUM.findall(m.group(4)):
                nums += [1, int(v)] if k == "parent_local" else [0, int(v)] if k == "upvalue" else [int(v)]
            secs[-1]["rows"].append({"at": int(m.group(1)), "op": int(m.group(2), 16) if m.group(2) else -1, "name": m.group(3), "nums": nums})
    return secs


def check_code(cases, name="code", stats=None, workers=8, timeout=800, bad=None):
    """cases: [(id, real unit JSON, listing text or None)] -> {id: verdict of DiceCode}"""
    if not cases:
        return {}
    ops = ops_table()

    def go(part):
        data = {"ops": ops, "cases": [{"id": i, "units": flatten(u, True), "lists": listing(d) if d is not None else []} for i, u, d in part]}
        return tlc("DiceCode", env={"DICE_DATA": write_json(os.path.join(work(name), "code.json"), data)}, workers=workers, timeout=timeout)
    r = reading(go, cases, bad, "code")
    if r is None:
        return {}
    if stats is not None:
        stats.add(r)
    out = {x["id"]: x for x in r.recs}
    if len(out) != len(cases):
        raise ToolError("code: %d verdicts for %d programs" % (len(out), len(cases)))
    return out


class Stats:
    def __init__(self):
        self.states = self.distinct = 0
        self.runs = 0

    def add(self, r):
        self.states += r.states
        self.distinct += r.distinct
        self.runs += 1
