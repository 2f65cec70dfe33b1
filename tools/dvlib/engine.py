"""The parts every check is made of: cases, judgements against the specification, evidence, exit code."""
import hashlib, json, os, sys, time

from . import pipeline as pl
from .observe import ROOT, ToolError
from .tlc import tlc, reading, write_json, work, text_case

REPO = os.environ.get("DICE_REPO", "/repo")
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Case:
    """A text to be compiled (kind s = script, m = module), with the modules it may import."""
    __slots__ = ("text", "kind", "mods", "tag", "bits", "fuel")

    def __init__(self, text, kind="s", mods=None, tag="", bits=3, fuel=1500):
        self.text, self.kind, self.mods, self.tag, self.bits, self.fuel = text, kind, dict(mods or {}), tag, bits, fuel

    def key(self):
        return hashlib.sha1(json.dumps([self.text, self.kind, sorted(self.mods.items())]).encode()).hexdigest()[:12]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.stats = pl.Stats()
        self.viol, self.known_hit = [], []
        self.counts = {}
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.level = "model_checking"
        self.exhaustive = None
        self.known = self._load_known()
        self.traces = 0
        self.seen = set()

    quick = property(lambda s: s.tier == "quick")

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def left(self, budget=None):
        return (budget or (840 if not self.quick else 120)) - (time.time() - self.t0)

    def _load_known(self):
        out = {}
        if os.path.exists(KNOWN):
            for ln in open(KNOWN, encoding="utf-8"):
                p = ln.split()
                if len(p) >= 3 and p[0] == "known:" and p[1] == "property=" + self.pid:
                    out[p[2]] = ln.strip().split(None, 3)[-1]
        return out

    def sample(self, case, extra=None):
        if len(self.samples) < 6:
            d = {"text": case.text[:400], "kind": case.kind}
            if case.mods:
                d["mods"] = {k: v[:200] for k, v in case.mods.items()}
            if case.tag:
                d["tag"] = case.tag
            if extra:
                d.update(extra)
            self.samples.append(d)

    def violation(self, case, what, spec=None, real=None):
        k = case.key()
        if k in self.known:
            if k not in self.known_hit:
                self.known_hit.append(k)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
            return
        if (k, what) in self.seen:
            return
        self.seen.add((k, what))
        d = os.path.join(work("replay"), self.pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (k, len(self.viol)))
        rec = {"property": self.pid, "what": what, "key": k, "text": case.text, "kind": case.kind, "mods": case.mods,
               "tag": case.tag, "bits": case.bits, "spec": spec, "real": real}
        self.viol.append((path, rec))
        if len(self.viol) <= 40:
            write_json(path, rec)

    def finish(self):
        cov = {"states": self.stats.distinct, "transitions": self.stats.states,
               "traces_validated_against_impl": self.traces, "samples": self.samples or [{"note": "no sample"}],
               "tlc_runs": self.stats.runs}
        cov.update(self.counts)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        if self.notes:
            cov["explanation"] = " ".join(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        write_json(os.path.join(ROOT, "evidence", self.pid + ".json"), ev)
        for path, rec in self.viol[:8]:
            print("  %s: %s" % (rec["what"], json.dumps(rec["text"][:300])))
            for side in ("spec", "real"):
                if rec[side] is not None:
                    print("     %s: %s" % (side, json.dumps(rec[side])[:400]))
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.viol[0][0]))
            return 1
        print("ok property=%s %s" % (self.pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
        return 0


# ------------------------------------------------------------------ judging

def dedup(cases):
    seen, out = set(), []
    for c in cases:
        k = (c.text, c.kind, tuple(sorted(c.mods.items())))
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


PRELUDE = os.path.join(ROOT, "spec", "prelude.dm")     # reference prelude, for programs that need Result or ranges
OWN_PRELUDE = os.path.join("data", "scripts", "prelude.dm")


def accept(chk, cases, codes=True, what="code", tree=True, judge=True):
    """Specification's verdict and the real compiler's outcome for every case and module.

    Returns a list of (case, front verdict, real result, {path: (verdict, real)}) in order; disagreements about
    acceptance, or about the rule that is broken, are violations when judge is set."""
    items, ref = [], []
    pos = {}

    def add(kind, text):
        k = (kind, text)
        if k not in pos:
            pos[k] = str(len(items))
            items.append((pos[k], kind, text))
        return pos[k]

    for c in cases:
        ref.append((add(c.kind, c.text), {p: add("m", t) for p, t in c.mods.items()}))
    fr = pl.front(items, tree=tree, stats=chk.stats)
    co = pl.compile_all(items, what=what)
    out = []
    for c, (i, ms) in zip(cases, ref):
        f, r = fr[i], co[i]
        chk.count("evaluations")
        out.append((c, f, r, {p: (fr[j], co[j]) for p, j in ms.items()}))
        if judge:
            judge_accept(chk, c, f, r, codes)
            for p, j in ms.items():
                judge_accept(chk, Case(c.mods[p], "m", tag="module " + p), fr[j], co[j], codes)
    return out


def outcome(r):
    if r.get("st") == "ok":
        return "accepted"
    if r.get("st") == "err":
        return "rejected with %s" % r["err"].get("code")
    return r.get("st", "?")


def judge_accept(chk, c, f, r, codes=True):
    want = "accepted" if f["ok"] else "rejected with one of %s" % sorted({e["code"] for e in f["errs"]})
    st = r.get("st")
    if st not in ("ok", "err"):
        chk.violation(c, "the compiler does not answer", want, r.get("panic", st))
        return False
    if f["ok"] != (st == "ok"):
        chk.violation(c, "acceptance differs", want, outcome(r) + (": " + r["err"].get("shown", "")[:300] if st == "err" else ""))
        return False
    if not f["ok"] and codes and r["err"].get("code") not in {e["code"] for e in f["errs"]}:
        chk.violation(c, "another rule is reported", want, outcome(r))
        return False
    return True


_PRE = {}


def prelude_of(chk, path):
    if path not in _PRE:
        text = open(path, encoding="utf-8").read()
        fr = pl.front([("p", "m", text)], name="prelude", stats=chk.stats)["p"]
        co = pl.compile_all([("p", "m", text)])["p"]
        _PRE[path] = (text, fr, co)
    return _PRE[path]


def run(chk, cases, prelude=PRELUDE, codes=True, judge=True, batch=400, stop=25, what="code"):
    """Execute the accepted cases on the machine, in every environment, and compare with their meaning."""
    got = accept(chk, cases, codes=codes, judge=judge, what=what)
    pre, off = None, 0
    ref = None
    if isinstance(prelude, tuple):          # the machine runs the first, the meaning is given by the second
        prelude, ref = prelude
    if prelude:
        text, f, r = prelude_of(chk, prelude)
        pc = Case(text, "m", tag="prelude")
        if not judge_accept(chk, pc, f, r) or not f["ok"]:
            return got
        P = pl.program(r["unit"], "m")
        pre, off = {"P": P, "tree": prelude_of(chk, ref)[1]["ast"] if ref else f["ast"]}, len(P["units"])
    todo, byid = [], {}
    for n, (c, f, r, ms) in enumerate(got):
        if not f["ok"] or r.get("st") != "ok" or any(not a["ok"] or b.get("st") != "ok" for a, b in ms.values()):
            continue
        P = pl.program(r["unit"], c.kind, {p: b["unit"] for p, (a, b) in ms.items()} or None, off=off)
        trees = {p: a["ast"] for p, (a, b) in ms.items()} or {"": 0}
        byid[str(n)] = c
        todo.append({"id": str(n), "kind": c.kind, "P": P, "tree": f["ast"], "trees": trees, "maxBits": c.bits, "fuel": c.fuel})
    for k in range(0, len(todo), batch):
        part = todo[k:k + batch]
        seen = set()
        vs = pl.run_vm(part, pre, stats=chk.stats, bad=lambda x, e: chk.violation(byid[x["id"]], "the machine has no next state", None, e))
        if vs is None:
            continue
        for v in vs:
            if v["id"] == "prelude":
                chk.violation(Case(prelude_of(chk, prelude)[0], "m", tag="prelude"), "the prelude does not run", "runs", v.get("why"))
                return got
            seen.add(v["id"])
            c = byid[v["id"]]
            chk.traces += 1
            chk.count("runs_" + v["sem"])
            chk.count("instructions", v["n"])
            if v["ok"]:
                chk.sample(c, {"answers": v["bits"], "instructions": v["n"], "outcome": v["sem"]})
            else:
                chk.violation(c, "another behaviour", v.get("should"), dict(v.get("does") or {}, answers=v.get("bitv")))
        missing = [x["id"] for x in part if x["id"] not in seen]
        if missing:
            raise ToolError("no verdict for %d programs, e.g. %s" % (len(missing), byid[missing[0]].text[:300]))
        if len(chk.viol) > stop or chk.left() < 0:
            break
    chk.count("programs_run", len(todo))
    return got


def code(chk, got, fields=("form", "flow", "reads"), batch=300, min_ok=True):
    """DiceCode on the compiled form of every accepted case of accept()/run() (made with rows, dis)."""
    todo, byid = [], {}
    for n, (c, f, r, ms) in enumerate(got):
        for m, (kind_c, rr) in enumerate([(c, r)] + [(Case(c.mods[p], "m"), b) for p, (a, b) in ms.items()]):
            if rr.get("st") == "ok":
                i = "%d.%d" % (n, m)
                byid[i] = kind_c
                if rr.get("dispanic") and "list" in fields:
                    chk.violation(kind_c, "printing the listing panics")
                todo.append((i, rr["unit"], rr.get("dis") if "list" in fields else None))
    for k in range(0, len(todo), batch):
        for i, v in pl.check_code(todo[k:k + batch], stats=chk.stats, bad=lambda x, e: chk.violation(byid[x[0]], "code: unreadable", None, e)).items():
            chk.traces += 1
            chk.count("units", v["units"])
            chk.count("instructions_checked", v["n"])
            chk.sample(byid[i], {"units": v["units"], "instructions": v["n"]})
            for fld in fields:
                if v[fld]:
                    chk.violation(byid[i], "code: " + fld, None, v[fld][:4])
    chk.count("programs_checked", len(todo))


def families(chk, names, n=1, quick=None):
    """texts of the named families of DiceFam"""
    f = write_json(os.path.join(work("fam"), "fam.json"), {"fams": list(names), "n": n})
    r = tlc("DiceFam", env={"DICE_FAM": f})
    chk.stats.add(r)
    recs = sorted(r.recs, key=lambda x: (x["f"], x["t"]))
    return [Case(x["t"], x["k"], {m["p"]: m["t"] for m in x["m"]}, x["f"], x["b"]) for x in recs]


def sizes(chk, kinds, ns, deep=None):
    """programs of each kind and size, written by DiceSize; deep: the sizes of the kinds that nest"""
    jobs = [(k, n) for k in kinds for n in ((deep if deep is not None and k in NESTED else ns))]
    f = write_json(os.path.join(work("size"), "size.json"), [{"id": str(i), "kind": k, "n": n} for i, (k, n) in enumerate(jobs)])
    r = tlc("DiceSize", env={"DICE_SIZE": f})
    chk.stats.add(r)
    recs = sorted(r.recs, key=lambda x: int(x["id"]))
    return [Case(x["t"], x["k"], {m["p"]: m["t"] for m in x["m"]}, "size %s %d" % jobs[int(x["id"])], 3, 1500 + 150 * jobs[int(x["id"])][1]) for x in recs]


NESTED = {"parens", "lparens", "unary", "objnest", "listnest", "callnest", "pending", "shadow", "deep", "deepown", "nestcap", "nest", "nestwhile", "ifnest", "handnest", "curried", "pipes", "pendarg", "inherit",
          "elseif", "chain", "chainfn", "recur", "mutual"}


def pick(chk, cases, n, salt=""):
    """a reproducible sample of at most n cases"""
    if len(cases) <= n:
        return list(cases)
    return sorted(cases, key=lambda c: hashlib.sha1(("%d%s" % (chk.seed, salt) + c.key()).encode()).digest())[:n]


def random_programs(chk, count, sz=90, n=4, profile="all", bits=3, start=1):
    prof = json.load(open(os.path.join(ROOT, "tools", "profiles.json")))
    w = {k: v + prof["emph"].get(profile, {}).get(k, []) for k, v in prof["all"].items()}
    f = write_json(os.path.join(work("gen"), "gen.json"),
                   {"seed": chk.seed, "from": start, "to": start + count - 1, "w": w, "sz": sz, "n": n})
    r = tlc("DiceGenRand", env={"DICE_GEN": f})
    chk.stats.add(r)
    return [Case(x["s"], "s", tag="random %s #%d" % (profile, x["i"]), bits=bits) for x in sorted(r.recs, key=lambda x: x["i"])]


def soup(chk, jobs):
    """jobs: [dict(pieces, n, pre, post, sep, min)] -> texts; every sequence of pieces, enumerated by DiceSoup"""
    full = [dict({"pre": "", "post": "", "sep": " ", "min": 1}, **j) for j in jobs]
    f = write_json(os.path.join(work("soup"), "soup.json"), {"jobs": full})
    r = tlc("DiceSoup", env={"DICE_SOUP": f})
    chk.stats.add(r)
    return sorted({x["t"] for x in r.recs})


def sample_texts(chk, texts, n, salt=""):
    texts = sorted(set(texts))
    if len(texts) <= n:
        return texts
    return sorted(texts, key=lambda t: hashlib.sha1(("%d%s%s" % (chk.seed, salt, t)).encode()).digest())[:n]


# specifications that judge what the implementation gave
OF_REAL = {"DiceTree", "DiceSpan", "DiceTok", "DiceLines", "DiceDiag", "DiceCatalog", "DiceTotal"}


def judge(chk, module, cases, batch=4000, extra=None):
    """run a judging specification over a batch of cases [{id, ...}]; yields its verdict records"""
    out = []
    for k in range(0, len(cases), batch):
        part = cases[k:k + batch]

        def go(some):
            return tlc(module, env={"DICE_CASES": write_json(os.path.join(work("judge"), module + ".json"), some if extra is None else dict(extra, cases=some))})
        r = reading(go, part, (lambda x, e: chk.violation(Case(x.get("s") or "".join(chr(z) for z in x.get("cps", [])), tag=str(x["id"])), "nothing the specification allows", None, e)) if module in OF_REAL else None, module)
        if r is None:
            continue
        chk.stats.add(r)
        if len({x["id"] for x in r.recs}) != len(part):
            raise ToolError("%s: %d verdicts for %d cases" % (module, len(r.recs), len(part)))
        out += r.recs
    return out


def plain(u):
    """a compiled unit without what may differ between compilations of the same program (generated names)"""
    return {"b": u["bytes"], "s": u["slots"], "u": u["ups"],
            "c": [plain(c["unit"]) if c["k"] == "fn" else c for c in u["consts"]]}


def result_of(r):
    """what a compilation gave, without positions: code, or rule and message"""
    if r.get("st") == "ok":
        return ["ok", plain(r["unit"])]
    if r.get("st") == "err":
        return ["err", r["err"].get("code"), r["err"].get("shown", "").split("\n")[0]]
    return [r.get("st")]


def corpus(chk, fams, per, rand=0, sz=80, n=2):
    """a reproducible mixture of family and random programs"""
    cs = en_fams(chk, fams, per, n)
    if rand:
        cs += random_programs(chk, rand, sz=sz)
    return cs


def en_fams(chk, fams, per, n=2):
    by = {}
    for c in dedup(families(chk, fams, n)):
        by.setdefault(c.tag, []).append(c)
    return [c for f in fams for c in pick(chk, by.get(f, []), per)]


ALL_FAMS = ["exitloop", "exitfn", "clos", "closkinds", "scope", "mut", "mutself", "mutimport", "mutplace", "mutfirst", "kw", "dup2", "dupin", "dup3",
            "hoist", "paramdup", "classes", "supers", "selfshadow", "malformed", "classmisc", "typed", "typedis", "typedmisc", "typeshadow", "anyshadow", "calls", "callmisc", "arity", "logic", "ifs", "null",
            "nullmisc", "errprop", "or", "ormisc", "loop", "loopnest", "loopmisc", "exprs", "exprmix", "literals", "places", "structs", "ovl", "ovlmisc",
            "modrun", "import", "exportbad", "imppath", "cap", "nullseq", "nullerr", "nullin", "exitwide", "litpairs", "logicover", "declseq"]


def numbers(chk, salt, n):
    out = []
    k = 0
    while len(out) < n:
        out += list(hashlib.sha256(("%d %s %d" % (chk.seed, salt, k)).encode()).digest())
        k += 1
    return out[:n]
