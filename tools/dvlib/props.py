"""What each check explores and what it judges.  One function per property."""
from . import engine as en
from . import pipeline as pl
from .engine import Case


FLAT, DEEP = list(range(3, 18)) + [20, 24, 31, 32, 33, 34, 48, 63, 64, 65, 66, 90], list(range(3, 18)) + [20, 24, 31, 32, 33]


SIZED = ("sum parens lparens unary list object objnest listnest string callnest pipes stmts pend pendarg pending vars varsfn muts shadow again blocks blockval destr fnsvars "
         "caps capsrev shared deep deepown each eachfor blockcap nestcap argcap iters ranges items nest nestwhile seq breaks elseif ifnest returns ands ors coals chain chainfn "
         "props propexp handlers handnest params paramsm typed typedbad typedret fwd fwdblk recur mutual calls curried methods fields inherit classes opchain exports modules").split()


FAR = [2, 62, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 200, 236]


def sized_cases(chk, kinds):
    far = en.sizes(chk, ["far", "farfn"], FAR if chk.quick else list(range(1, 234, 3)) + FAR) if "far" in kinds else []
    chk.count("programs_with_many_slots", len(far))
    return far + flat_cases(chk, [k for k in kinds if k != "far"])


def flat_cases(chk, kinds):
    cs = en.sizes(chk, kinds, FLAT if chk.quick else sorted({1, 2} | set(FLAT) | set(range(18, 91))), DEEP if chk.quick else list(range(1, 38)))
    chk.count("programs_of_every_size", len(cs))
    return cs


def runtime(chk, fams, profile, quick=60, thorough=900, prelude=en.PRELUDE, codes=True, rand=(120, 2500), sz=80, bits=3, sized="", step=(40, 1500)):
    """families: [(name, quick cases, thorough cases or None for all, n)]; programs of every size of the kinds sized;
    programs one step away in meaning from some of these; then random programs, while time lasts"""
    todo = sized_cases(chk, sized.split()) if sized else []
    for f in fams:
        name, q, t = f[:3]
        n = f[3] if len(f) > 3 else 2
        n = n if isinstance(n, int) else chk.n(*n)
        cases = en.dedup(en.families(chk, [name], n))
        lim = chk.n(q, t)
        chk.count("family_" + name, len(cases) if lim is None else min(lim, len(cases)))
        todo += cases if lim is None else en.pick(chk, cases, lim)
    near = [c for c in todo if len(c.text) < 700]
    near = steps(chk, en.pick(chk, near, chk.n(*step)), 2 if chk.quick else 3) if near else []
    chk.count("programs_a_step_away", len(near))
    en.run(chk, todo + near, prelude=prelude, codes=codes)
    total, start = chk.n(*rand), 1
    while total > 0 and not chk.viol and chk.left(quick if chk.quick else thorough) > 0:
        k = min(400, total)
        cs = en.random_programs(chk, k, sz=sz, profile=profile, bits=bits, start=start)
        chk.count("random_programs", len(cs))
        en.run(chk, cs, prelude=prelude, codes=codes)
        total -= k
        start += k


def p04(chk):
    runtime(chk, [("exprs", 300, None), ("exprmix", 60, None), ("literals", 340, None), ("litpairs", 250, None), ("places", 340, None), ("structs", 60, None),
                  ("typedis", 150, None)], "expr",
            sized="sum parens lparens unary list object objnest listnest string callnest pipes stmts pend pendarg pending")


def p05(chk):
    runtime(chk, [("scope", 300, None, (2, 4)), ("declseq", 250, None)], "scope", rand=(150, 2500),
            sized="far vars varsfn shadow again blocks blockval destr fnsvars nest")


def p06(chk):
    runtime(chk, [("mut", 700, None), ("mutself", 288, None), ("mutimport", 180, None), ("mutplace", 164, None), ("mutfirst", 60, None)],
            "scope", rand=(60, 1500),
            sized="muts destr shared")


def p07(chk):
    runtime(chk, [("clos", 468, None), ("closkinds", 30, None), ("cap", 400, 9000)], "clos", rand=(80, 2000),
            sized="far caps capsrev shared deep deepown each eachfor blockcap nestcap argcap")


def p08(chk):
    runtime(chk, [("loop", 250, None), ("loopnest", 60, None), ("loopmisc", 40, None), ("exitloop", 200, None), ("exitloop2", 150, 4000), ("exitwide", 80, None)],
            "loops", rand=(80, 2000),
            sized="far iters ranges items nest nestwhile seq breaks pending")


def p09(chk):
    runtime(chk, [("logic", 152, None), ("logicover", 120, None), ("ifs", 250, None), ("null", 300, None), ("null3", 200, 6000), ("nullmisc", 150, None), ("nullseq", 300, None), ("nullerr", 150, None), ("nullin", 160, None)], "null", rand=(80, 2000),
            sized="elseif ifnest ands ors coals chain chainfn")


def p10(chk):
    runtime(chk, [("errprop", 700, None), ("or", 320, None), ("ormisc", 30, None), ("nullerr", 120, None), ("exitwide", 50, None)], "err", rand=(80, 2000),
            sized="props propexp handlers handnest")


def p11(chk):
    runtime(chk, [("kw", 900, None), ("kw2", 500, 8000), ("kw3", 0, 8000), ("exportbad", 306, None)], "exits", rand=(40, 1000))


def p12(chk):
    runtime(chk, [("dup2", 500, None), ("dupin", 400, None), ("dup3", 420, None), ("hoist", 500, None), ("paramdup", 117, None)], "calls", rand=(40, 1000),
            sized="fwd fwdblk classes mutual")


def p13(chk):
    runtime(chk, [("classes", 500, None), ("malformed", 222, None), ("classmisc", 40, None), ("arity", 150, None), ("supers", 220, None), ("selfshadow", 150, None), ("anyshadow", 70, None), ("nullseq", 120, None)], "class", rand=(100, 2000),
            sized="paramsm methods fields inherit classes")


def p14(chk):
    runtime(chk, [("modrun", 270, None), ("import", 396, None), ("exportbad", 200, None), ("imppath", 250, None)], "all", rand=(0, 0),
            sized="exports modules")


def p15(chk):
    runtime(chk, [("typed", 800, None), ("typedis", 150, None), ("typedmisc", 40, None), ("typeshadow", 180, None)], "calls", rand=(40, 1000),
            sized="typed typedbad typedret")


def p23(chk):
    runtime(chk, [("ovl", 546, None), ("ovlmisc", 140, None)], "class", rand=(60, 1500),
            sized="opchain")


def p24(chk):
    runtime(chk, [("calls", 150, None), ("callmisc", 40, None), ("arity", 450, None), ("exitfn", 250, None), ("exitwide", 80, None)], "calls", rand=(120, 2500),
            sized="params paramsm returns recur mutual calls curried")


ALPHA19 = ["a", "\n", "\r", "\u00e9", "\u20ac", "\U0001F600"]


def p19(chk):
    texts = [""] + en.soup(chk, [{"pieces": ALPHA19, "n": chk.n(4, 6), "sep": ""}])
    words = ["ab", "\n", "\r\n", "x\u00e9y", "\u20ac\u20ac", "\U0001F600", "\U0001F468\u200D\U0001F469", "\u0301", "\uFFFD\uFEFF", "\t", "\u2028", "\x0b\x0c", "\x7f\x80", "\u07ff\u0800", "\uffff\U00010000"]
    longer = en.soup(chk, [{"pieces": words, "n": 3, "min": 2, "sep": "", "pre": p, "post": q} for p, q in (("", ""), ("\u20aca\n", "\n\U0001F600z"), ("\n\n", "\n\n"))])
    texts += en.sample_texts(chk, longer, chk.n(2500, 12000))
    # long lines, many lines, long texts: past the sizes of bytes and of pairs of bytes
    wide = ["\u00e9", "\u20ac", "\U0001F600"]
    texts += ["ab\n" * 300, "\n" * 270 + "\u20acx", "x\u00e9" * 140, "a" * 300 + "\U0001F600z", "".join(w * 90 for w in wide), ("%s%s%s\n" % tuple(wide)) * 90, "\r\n" * 140 + "a",
              "y" * 250 + "\n" + "\u20ac" * 90 + "\n" + "z" * 300, ("a" * 63 + "\U0001F600\n") * 12, ("\u00e9" * 70 + "\n") * 5, "a\n" * 128 + "\u00e9\n" * 130]
    texts += ["x" * 65530 + "\n" + "\u20ac\U0001F600b\nccc", ("a" * 4095 + "\n") * 17 + "\u00e9z"] + ([] if chk.quick else ["\u20ac" * 22000 + "\nx", ("\u00e9" * 999 + "\n") * 40, "ab\n" * 1400])
    items = [(str(n), "s", t) for n, t in enumerate(texts)]
    res = pl.compile_all(items, what="lines")
    cases = []
    for i, k, t in items:
        chk.count("evaluations")
        r = res[i]
        if "pos" not in r:
            chk.violation(Case(t), "the line index cannot be built", None, r.get("linespanic", r.get("st")))
            continue
        cases.append({"id": i, "cps": [ord(c) for c in t], "pos": r["pos"], "spans": r["spans"]})
    for v in en.judge(chk, "DiceLines", cases):
        c = Case(texts[int(v["id"])])
        chk.traces += 1
        chk.count("positions_and_spans", v["n"])
        if v["pos"] or v["spans"]:
            chk.violation(c, "lines and columns differ", None, {"pos": v["pos"][:3], "spans": v["spans"][:3]})
        else:
            chk.sample(c, {"judged": v["n"]})
    chk.notes.append("All texts over {a, LF, CR, 2-, 3- and 4-byte characters} up to the bound, every character boundary, every non-empty range.")


CHARS17 = list("a_10.=<>!?|&+-/*\"\\#: \n") + ["\r", "\u00e9", "n"]
WORDS17 = ["or", "orx", "fn", "fnn", "if", "ify", "is", "in", "import", "async", "await1", "do", "dox", "null", "nul", "_", "x1", "1", "12.5", "1.", ".5", "1..2", "1...2", "..=", "..", ".", "->", "-=", "-", "=>", "==", "=", "===",
           "??", "?", "!!", "!=", "!", "!!!", "|>", "|", "||", "&&", "&", "//", "//c", "//\n", "//\r", "// x\r", "\r", "/", "/=", "\"a\"", "\"\\n\"", "\"\\\"\"", "\"\\q\"", "\"", "\"\\", "\\a\\", "\\", "\n", " ", "\t", "\u20ac", "\U0001F600", "@", "'", ";", "^", "~", "$", "`", "%", "{", "}", "0x1f", "1e5", "1_000", "A", "Z9", "\x00", "\u00a0", "\x0b", "\x0c"]
TRIVIA17 = ["", "// x\r", "//\r\r//\r", " ", "\n", "\t", "\r\n", " \n ", "//\n", "// c\n", "//\r\n", "// \"x { \u00e9\U0001F600 \n", "\n//x\n//y\n", "\x0c", "    ", "////\n", "//fn let }\n", "// \\ \r// \" \n", "\r"]
# text before the text of interest: past the sizes of a byte in lines, columns and offsets
LONGPRE = ["\n" * 300, "// " + "\u20ac" * 150 + "\n", "let q = 1\n" * 110, "let s = \"" + "\u00e9\U0001F600 " * 60 + "\" ", "let q = 1 " * 30, "\r\n  " * 98]
TAILS17 = ["", "//", "// end", " \n", "\n//\n", "// \u20ac"]


def p17(chk):
    lx = pl.lexharness()
    from . import observe as ob
    jobs = [{"pieces": CHARS17, "n": 3, "sep": ""}, {"pieces": WORDS17, "n": 2, "sep": ""}]
    texts = [""] + en.soup(chk, jobs)
    longer = en.soup(chk, [{"pieces": WORDS17, "n": 3, "min": 3, "sep": ""}]) + (en.soup(chk, [{"pieces": CHARS17, "n": 4, "min": 4, "sep": ""}]) if not chk.quick else [])
    texts += en.sample_texts(chk, longer, chk.n(6000, 200000))
    # longer texts over the few characters that matter inside each kind of token
    near = [en.soup(chk, [dict({"n": 6, "min": 4, "sep": ""}, **j)]) for j in (
        {"pieces": ['"', "\\", "n", ",", "/"], "pre": '"'}, {"pieces": ["\\", "a", "\u20ac", '"', "\n"], "pre": "\\"}, {"pieces": ["/", "\n", "\r", '"', "1"], "pre": "//"},
        {"pieces": ["1", "0", ".", "_", "a"], "pre": "1"}, {"pieces": ["=", "<", ">", "!", "."]}, {"pieces": ["|", ">", "?", "-", "="]}, {"pieces": ["o", "r", "i", "s", "n", "_"], "n": 5})]
    for w in ("a", "1", "_a1", "a1", "\u00e9", "=", "|", " ", "\\n", "if", "0.", "//"):
        texts += ["%s%s%s x" % (a, w * m, z) for m in (85, 130, 257, 300) for a, z in (("", ""), ('"', '"'), ("\\", "\\"), ("// ", "\n"), ("1.", ""), ("a", ""))]
    texts += [p + t for p in LONGPRE for t in WORDS17]
    for k, ts in enumerate(near):
        texts += en.sample_texts(chk, ts, chk.n(1200, 20000), "near%d" % k)
    progs = en.corpus(chk, en.ALL_FAMS, chk.n(4, 40), chk.n(40, 300))
    texts += sorted({c.text for c in progs})
    res = ob.observe(lx, [(str(n), "s", "lex", t) for n, t in enumerate(texts)])
    cases = []
    for n, t in enumerate(texts):
        chk.count("evaluations")
        r = res[str(n)]
        cases.append(dict(en.text_case(str(n), "s", t), toks=r.get("toks", []), err=r.get("err") or (r["st"] if "st" in r else "")))
    for v in en.judge(chk, "DiceTok", cases, batch=30000):
        chk.traces += 1
        chk.count("tokens", v["n"])
        c = Case(texts[int(v["id"])])
        if not v["ok"]:
            chk.violation(c, "tokens differ", [v["want"], v["err"]], [cases[int(v["id"])]["toks"], cases[int(v["id"])]["err"]])
    # layout
    pairs = [(n, c, t) for n, (c, t) in enumerate(layouts(chk, [c for c in progs if c.text.strip()]))]
    items = []
    for n, c, t in pairs:
        items += [("a%d" % n, c.kind, c.text), ("b%d" % n, c.kind, t)]
    co = pl.compile_all(items)
    for n, c, t in pairs:
        chk.count("layout_variants")
        a, b = en.result_of(co["a%d" % n]), en.result_of(co["b%d" % n])
        chk.sample(c, {"variant": t[:400]})
        if a != b:
            chk.violation(Case(t, c.kind, tag="layout of " + c.tag), "layout changes the result", {"as written": c.text, "gives": str(a)[:300]}, str(b)[:300])


BINOPS = ["|>", "??", "..", "..=", "||", "&&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%"]
ASGOPS = ["=", "+=", "-=", "*=", "/="]
POST = ["is A", "is A?", "?", "!!", ".m", "?.m", "[1]", "(1)", "()", "or e { 2 }"]
TOKENS = ["a", "1", "2.5", '"s"', "\\\\z\\\\", "true", "null", "(", ")", "[", "]", "{", "}", "#", ",", ":", ".", "..", "=", "+=", "+", "-", "*", "!", "!!", "?", "??", "|", "|>", "->", "=>", "&&", "==", "<", "is", "or",
          "let", "mut", "fn", "op", "class", "if", "else", "while", "loop", "for", "in", "break", "continue", "return", "import", "export", "from", "as", "super", "self", "new", "async", "@"]
MORETOKENS = ["..=", "%", "/", "!=", ">", ">=", "<=", "*=", "/=", "-=", "||", "false", "await", "yield", "do", "const", "match", "enum", "trait", "type", "try", "when", "default", "switch", '"\\\\q"', "99999999999999999999"]
SLOTS20 = [("", ""), ("", " a"), ("a ", ""), ("fn ", ""), ("fn f", ""), ("fn f(", ""), ("fn f(a", ""), ("fn f(a: ", ""), ("fn f(a) ", ""), ("fn f(a) -> ", ""), ("let ", ""), ("let mut ", ""), ("let x ", ""), ("let { ", ""),
           ("class ", ""), ("class A ", ""), ("class A: ", ""), ("class A { ", " }"), ("class A { fn ", " }"), ("op ", ""), ("op + ", ""), ("import ", ""), ("import { ", ""), ("import { a ", ""), ("import \"m\" ", ""), ("import \"m\" as ", ""),
           ("export ", ""), ("a.", ""), ("a?.", ""), ("[a ", ""), ("(a ", ""), ("f(a ", ""), ("f[a ", ""), ("#{ ", ""), ("#{ a ", ""), ("#{ a: ", ""), ("if ", ""), ("if a ", ""), ("if a { b } else ", ""), ("while a ", ""), ("for ", ""), ("for x ", ""),
           ("for x in a ", ""), ("loop ", ""), ("|", ""), ("|a ", ""), ("|a| ", ""), ("a or |", ""), ("a or |e", ""), ("super", ""), ("super.", ""), ("super[", ""), ("super[A", ""), ("super[A]", ""), ("a is ", ""), ("- ", ""), ("a + ", ""), ("a = ", "")]


def tree_texts(chk):
    ops = BINOPS + ASGOPS
    ex = [{"pieces": ["%s %s" % (o, v)for v in ("x",)], "n": 1} for o in ()]
    out = set()
    jobs = []
    two = ["a %s b" % o for o in ops] + ["a " + p for p in POST] + ["- a", "! a", "a"]
    rest = ["%s c" % o for o in ops] + POST
    jobs.append({"pieces": rest, "n": 2, "sep": " ", "pre": "a ", "post": ""})
    jobs.append({"pieces": rest, "n": 2, "sep": " ", "pre": "- a ", "post": ""})
    jobs.append({"pieces": rest, "n": 1, "sep": " ", "pre": "! a ", "post": " - ! b"})
    jobs.append({"pieces": rest, "n": 2, "sep": " ", "pre": "let x = a ", "post": "\nb"})
    jobs.append({"pieces": rest, "n": 1, "sep": " ", "pre": "(a ", "post": ") * b"})
    jobs.append({"pieces": rest, "n": 1, "sep": " ", "pre": "a * (b ", "post": ")"})
    jobs.append({"pieces": rest, "n": 1, "sep": " ", "pre": "a.b[c ", "post": "] = d"})
    jobs.append({"pieces": rest, "n": 1, "sep": " ", "pre": "[a ", "post": ", - b]"})
    jobs.append({"pieces": rest, "n": 1, "sep": " ", "pre": "fn f() { return a ", "post": " }"})
    jobs.append({"pieces": rest, "n": 1, "sep": " ", "pre": "|x| a ", "post": " - b"})
    jobs.append({"pieces": rest, "n": 1, "sep": " ", "pre": "if a ", "post": " { 1 } else if b { 2 }"})
    jobs.append({"pieces": rest, "n": 1, "sep": " ", "pre": "for i in a ", "post": " { 1 }"})
    exact = en.soup(chk, jobs)
    triples = en.soup(chk, [{"pieces": rest, "n": 3, "min": 3, "sep": " ", "pre": "a ", "post": ""}])
    tj = [{"pieces": TOKENS, "n": 2, "pre": p, "post": q} for p, q in
          (("", ""), ("a ", " b"), ("fn f(", ") { 1 }"), ("class A { ", " }"), ("{ ", " }"), ("let ", " = 1"), ("import ", " \"m\""), ("if a ", ""), ("[", "]"), ("#{ ", " }"), ("f(", ")"), ("for ", " { }"), ("a.", ""), ("|", "| 1"), ("export ", ""), ("op ", "(a, b) { 1 }"), ("class A : ", " { }"), ("super", ""), ("fn f() -> ", " { }"), ("while ", " { 1 }"), ("return ", ""))]
    toks = en.soup(chk, tj)
    deep = en.soup(chk, [{"pieces": TOKENS, "n": 3, "min": 3}])
    return exact, triples, toks, deep


def mutants(chk, cases, per):
    """single-token deletions, duplications, swaps and replacements of real programs, made by DiceMutate"""
    inp = [dict(en.text_case(str(n), c.kind, c.text), r=en.numbers(chk, "mut%d" % n, 3 * per)) for n, c in enumerate(cases)]
    out = []
    for v in en.judge(chk, "DiceMutate", inp, extra={"tokens": TOKENS, "per": per, "all": 0}):
        out += v["ts"]
    return out


def steps(chk, cases, per):
    """programs one step away in meaning from others (DiceMutate): names that collide, other operators, exchanged parts"""
    inp = [dict(en.text_case(str(n), c.kind, c.text), r=en.numbers(chk, "step%d" % n, 3 * per)) for n, c in enumerate(cases)]
    out = []
    for v in en.judge(chk, "DiceMutate", inp, extra={"tokens": TOKENS, "per": per, "all": 3}):
        c = cases[int(v["id"])]
        out += [Case(t, c.kind, c.mods, c.tag + " mutated", c.bits) for t in v["ts"] if t != c.text]
    return en.dedup(out)


# one text per construct of the language, in its fullest form
FORMS18 = ["fn f(a: A, b: B?, c) -> C? { a, }", "let mut x = 1", "let { a, b } = c", "let x", "class A : B { fn new(self, a) { super(a, 1) self.b = a } fn m(self) { super.m(a, 2) } }",
           "class A { fn s(a) { 1 } op +(self, b) { 2 } }", "op #(a, b) -> C { a }", "op ..=(a, b) { a }", "class A { op [](self, i) { i } op []=(self, i, v) { v } op !(self) { 1 } }",
           "if a { 1 } else if b { 2 } else { 3 }", "while a { break }", "loop { continue }", "for i in a .. b { i }", "return a", "import { a, b } from \"m\"", "import a from \"m\"", "import a, { b } from \"m\"",
           "import \"m\"", "import { a } from \"m\"", "export fn f() { 1 }", "export class A { }", "export let a = 1", "export a", "|a, b: B| a + b", "|a| -> B { a }", "|| 1", "[a, 1, b]", "#{ a: 1, \"b\": 2, 3: c }",
           "a or e { b }", "a is B?", "a?.b?.c", "a?[1]", "a?(1)", "a.b[c](d, e).f = g", "a += b ?? c", "!a && - b || c", "super[A].m(1, 2)", "super.m", "super(a, b)", "(a)", "a |> b(1) |> c", "a!!.b!!", "{ a\nb }", "\\2d6\\", "1.5 ..= 2",
           "x = y = z", "fn f() { return }\nf()", "async fn f() { 1 }", "a as b", "a.b.c = d", "f(a, g(b), c)", "a[b][c] += d"]
SLOTS18 = [("f(a", "b)"), ("super(a", "b)"), ("super[", "].m()"), ("super.", "(1)"), ("[a", "b]"), ("#{ a: 1", "b: 2 }"), ("#{ a", "1 }"), ("import { a", "b } from \"m\""), ("import a", "\"m\""), ("import", ""), ("fn f(a", "b) { 1 }"),
           ("|a", "b| 1"), ("a[1", "]"), ("a.m(1", "2)"), ("class A { fn m(self) { 1 }", "fn n(self) { 2 } }"), ("if a { 1 }", "{ 2 }"), ("if a { 1 } else", "{ 2 }"), ("a or", "{ 2 }"), ("a or e", "{ 2 }"), ("a is", ""), ("fn f(a:", ") { 1 }"),
           ("fn f() ->", "{ 1 }"), ("class", "{ }"), ("class A :", "{ }"), ("let", "= 1"), ("let {", "} = a"), ("let x", ""), ("let x =", ""), ("export", ""), ("op", "(a, b) { 1 }"), ("class A { op", "(self, b) { 1 } }"), ("for", "in a { 1 }"),
           ("for i", "a { 1 }"), ("for i in", "{ 1 }"), ("while", "{ 1 }"), ("loop", "{ 1 }"), ("return", "a"), ("a.", "b"), ("a?", "b"), ("(a", "b)"), ("{ a", "b }"), ("a", "b"), ("", "")]


# every form of expression, for every place that can hold one
EXPRS18 = ["x %s y" % o for o in ("+", "*", "==", "<", "&&", "||", "??", "..", "..=", "|>", "=", "+=", "/=")] + \
          ["x is Y", "x is Y?", "x or e { y }", "-x", "!x", "x.y", "x?.y", "x!!", "x(y)", "x[y]", "x.y = z", "x[y] -= z", "(x)", "{ x }", "{ }", "[x]", "#{ }", "#{ k: x }", "|x| y", "|x| -> Y { y }", "|| x", "if x { y }",
           "if x { y } else { z }", "while x { y }", "loop { y }", "for i in x { y }", "return x", "return", "break", "continue", "super.x", "super[X].y(1)", "super(x)", "self", "null", "()", "1", "2.5", '"s"', "\\z\\", "fn g() { 1 }",
           "let x = y", "class X { }", "export x", "import { x } from \"m\"", "x = |y| y ?? z", "x |> y |> z", "-x.y!!", "!x is Y", "x + y * z == w && v"]
# tokens a text seldom holds
RARE01 = ['""', "\\\\", '"\u00e9"', '" "', '"."', "0", "0.0", "00", "0x", "0x0", "_", '"\\u{0}"', '"\\""', "''"]


def neighbours(chk, texts, everything=False, tokens=None):
    """every text one token away from a short text: dropped, doubled, swapped; or also replaced and inserted"""
    inp = [dict(en.text_case(str(n), "s", t), r=[0]) for n, t in enumerate(texts)]
    out = set()
    for v in en.judge(chk, "DiceMutate", inp, extra={"tokens": tokens or TOKENS, "per": 0, "all": 2 if everything else 1}):
        out |= set(v["ts"])
    return out


def texts18(chk, scale=1.0):
    n = lambda q, t: max(1, int(chk.n(q, t) * scale))
    exact, triples, toks, deep = tree_texts(chk)
    texts = set(en.sample_texts(chk, exact, n(1500, 10**6))) | set(en.sample_texts(chk, triples, n(800, 12000))) | \
        set(en.sample_texts(chk, toks, n(6000, 10**6))) | set(en.sample_texts(chk, deep, n(3000, 60000)))
    progs = en.corpus(chk, en.ALL_FAMS, n(6, 150), n(40, 600), sz=60)
    progs.append(Case(open(en.PRELUDE, encoding="utf-8").read(), "m"))
    texts |= {c.text for c in progs}
    small = [c for c in progs if len(c.text) < 350]
    texts |= set(mutants(chk, en.pick(chk, small, n(150, 1500)), chk.n(8, 20)))
    texts |= set(FORMS18) | neighbours(chk, FORMS18) | set(en.sample_texts(chk, neighbours(chk, FORMS18, True), n(4000, 10**6)))
    texts |= {"%s%s %s %s" % (p, m, x, q) for p, q in SLOTS18 for x in EXPRS18 for m in ("", ",")} if not chk.quick else \
        {"%s %s %s" % (p, x, q) for p, q in SLOTS18 for x in EXPRS18} | {"%s, %s %s" % (p, x, q) for p, q in SLOTS18[:14] for x in EXPRS18}
    texts |= {"%s %s %s" % (p, x[1:], q) for p, q in SLOTS18 + [("class A : a", "{ }"), ("if a", "{ 1 }"), ("while a", "{ 1 }"), ("for i in a", "{ 1 }"), ("let x = a", ""), ("return a", "")] for x in EXPRS18 if x[:2] == "x "}
    texts |= set(en.sample_texts(chk, sorted({"%s %s %s" % (p, x, q) for p, q in SLOTS18 for x in FORMS18}), n(1600, 10**6)))
    texts |= set(en.sample_texts(chk, sorted({x + j + y for x in FORMS18 for y in FORMS18 for j in ("\n", " ")}), n(500, 10**6)))
    texts |= set(en.soup(chk, [{"pieces": TOKENS, "n": 1, "pre": p + " ", "post": " " + q} for p, q in SLOTS18]))
    texts |= set(en.sample_texts(chk, en.soup(chk, [{"pieces": TOKENS, "n": 2, "min": 2, "pre": p + " ", "post": " " + q} for p, q in SLOTS18]), n(3000, 120000)))
    return texts, progs


def p18(chk):
    pl.FEATURES[:] = ["ast"]
    sized = {c.text for c in en.sizes(chk, SIZED, [7, 33] if chk.quick else [2, 9, 20, 48, 64, 90], [9, 16] if chk.quick else [3, 8, 12, 20])}
    judge_trees(chk, sorted(texts18(chk)[0] | sized))


def layouts(chk, cases, salt="layout"):
    """each case with other spaces, comments and line breaks between its tokens, made by DiceLayout -> [(case, text)]"""
    inp = [dict(en.text_case(str(n), c.kind, c.text), r=en.numbers(chk, "%s%d" % (salt, n), 40)) for n, c in enumerate(cases)]
    var = {v["id"]: v for v in en.judge(chk, "DiceLayout", inp, extra={"trivia": TRIVIA17, "tails": TAILS17})}
    return [(c, var[str(n)]["t"]) for n, c in enumerate(cases) if var[str(n)]["ok"]]


def p26(chk):
    pl.FEATURES[:] = ["ast"]
    texts, progs = texts18(chk, 0.5)
    forms = [Case(t) for t in FORMS18] + en.corpus(chk, en.ALL_FAMS, chk.n(12, 150), chk.n(60, 600), sz=80)
    texts |= {c.text for c in forms} | {c.text for c in en.sizes(chk, SIZED, [6] if chk.quick else [2, 9, 20, 33, 64], [11] if chk.quick else [3, 8, 16, 20])}
    texts |= {p + t for p in LONGPRE for t in FORMS18[chk.seed % 3::3]}
    for k in range(chk.n(3, 12)):
        texts |= {t for c, t in layouts(chk, [c for c in forms if c.text.strip()], "span%d" % k)}
    texts = sorted(texts)
    items = [(str(n), "s", t) for n, t in enumerate(texts)]
    res = pl.compile_all(items, what="ast")
    chk.count("evaluations", len(items))
    cases = [dict(en.text_case(i, k, t), real=[res[i]["ast"]]) for i, k, t in items if "ast" in res[i]]
    for v in en.judge(chk, "DiceSpan", cases, batch=4000):
        c = Case(texts[int(v["id"])])
        if not v["same"]:
            chk.count("another_tree")        # judged by P18
            continue
        chk.traces += 1
        chk.count("tokens", v["n"])
        b = c.text.encode()
        cut = lambda r: [r, b[r[0]:r[1]].decode("utf-8", "replace")]
        if v["bad"]:
            chk.violation(c, "a part of the tree points at other text", [[d["k"], cut(d["want"])] for d in v["bad"][:4]], [[d["k"], cut(d["got"])] for d in v["bad"][:4]])
        else:
            chk.sample(c)


def judge_trees(chk, texts):
    items = [(str(n), "s", t) for n, t in enumerate(texts)]
    res = pl.compile_all(items, what="ast")
    cases = []
    for i, k, t in items:
        chk.count("evaluations")
        r = res[i]
        if "ast" not in r and "asterr" not in r:
            chk.violation(Case(t), "the parser does not answer", None, r.get("astpanic", r.get("st")))
            continue
        cases.append(dict(en.text_case(i, k, t), real=[r["ast"]] if "ast" in r else []))
    for v in en.judge(chk, "DiceTree", cases, batch=6000):
        c = Case(texts[int(v["id"])])
        chk.traces += 1
        chk.count("accepted" if v["acc"] else "rejected")
        chk.count("tokens", v["n"])
        if not v["ok"]:
            chk.violation(c, "another tree" if v["acc"] else "text outside the grammar is accepted", v["want"], v.get("got", "accepted"))
        elif v["acc"]:
            chk.sample(c)


def p20(chk):
    from . import diag, observe as ob
    msgs, notes = diag.templates("errors.ftl"), diag.templates("error-notes.ftl")
    progs = en.corpus(chk, en.ALL_FAMS, chk.n(25, 400))
    small = [c for c in progs if len(c.text) < 300]
    progs += [Case(t) for t in mutants(chk, en.pick(chk, small, chk.n(150, 900)), chk.n(6, 14))]
    tj = [{"pieces": TOKENS, "n": 2, "pre": p, "post": q} for p, q in (("", ""), ("fn f(", ") { 1 }"), ("class A { ", " }"), ("import ", " \"m\""), ("[", "]"), ("op ", "(a, b) { 1 }"), ("let x = ", ""))]
    progs += [Case(t) for t in en.sample_texts(chk, en.soup(chk, tj), chk.n(900, 12000))]
    progs += [Case(t) for t in en.soup(chk, [{"pieces": TOKENS + MORETOKENS, "n": 1, "pre": p, "post": q} for p, q in SLOTS20])]   # every token at every place a construct expects something
    progs += [Case(p + q, k) for p in ("", "\u20ac\U0001F600", "\n\n  ", "let x = [1,\n") for q in BAD20 for k in "sm"]
    progs += [Case(p + q, tag="long") for p in LONGPRE for q in BAD20]
    progs += [Case("\n" * k + q, tag="long") for k in (7, 8, 9, 97, 98, 99, 998, 999, 1003) for q in BAD20 if k < 100 or "\n" in q or q in ("x", "let")]
    progs += [Case("\n" * k + q, tag="long") for k in (9998, 9999, 10005) for q in ("fn f(a,\na) {\n1\n}", "let")]
    # shift the text: other lines before and after, several characters wide
    cases = []
    for n, c in enumerate(en.dedup(progs)):
        r = en.numbers(chk, "d20%d" % n, 6)
        pre = "".join(PRE20[x % len(PRE20)] for x in r[:r[3] % 3])
        post = POST20[r[4] % len(POST20)]
        cases.append(Case(pre + c.text + post, c.kind, tag=c.tag))
    paths = ["", "", "a/b.dm", "m\u20ac.dm"]
    items = [(str(n), c.kind, c.text) for n, c in enumerate(cases)]
    idx = {str(n): paths[n % 4] for n in range(len(cases))}
    res = ob.observe(pl.harness(), [(i, k, "code" + (",path=" + idx[i] if idx[i] else ""), t) for i, k, t in items])
    todo = []
    for n, c in enumerate(cases):
        chk.count("evaluations")
        r = res[str(n)]
        if r.get("st") != "err":
            continue
        d = diag.case_of(chk, c, r, msgs, notes, idx[str(n)])
        if d:
            d["id"] = str(n)
            todo.append(d)
    for v in en.judge(chk, "DiceDiag", todo, batch=4000):
        c = cases[int(v["id"])]
        if not v["known"]:
            chk.count("rejected_for_another_reason")     # that a correct text is rejected is judged by other properties
            if v["other"]:
                chk.violation(c, "the diagnostic names another error", v["other"], res[v["id"]]["err"]["shown"][:500])
            continue
        chk.traces += 1
        chk.count("diagnostics_" + v["code"])
        if v["bad"]:
            chk.violation(c, "the diagnostic misleads: " + ", ".join(v["bad"]), v["spec"], res[v["id"]]["err"]["shown"][:500])
        elif v["known"]:
            chk.sample(c, {"shown": res[v["id"]]["err"]["shown"][:300]})
    catalog(chk)


def catalog(chk):
    from . import diag, observe as ob
    hb = diag.harness()
    if hb is None:
        chk.notes.append("The list of error codes could not be read from the tree; only diagnostics of real texts were judged.")
        return
    texts = ["a", "ab\ncd", "\n", "a\n\nb\n", "\u20ac\n\U0001F600 x\ny", "\t a\n  b  \nc", "1\r\n2\r\n3", "x\n" * 12 + "last"]
    recs, meta = [("cat", "s", "catalog", "")], {}
    for t in texts:
        bs = sorted({len(t[:i].encode()) for i in range(len(t) + 1)})
        spans = [(a, b) for a in bs for b in bs if a < b]
        for n, (a, b) in enumerate(spans):
            i = "p%d" % len(meta)
            r = en.numbers(chk, "place%s" % i, 4)
            sp = [(a, b)] + [spans[x % len(spans)] for x in r[1:1 + r[0] % 4]]
            meta[i] = (t, sp)
            recs.append((i, "s", "diag=" + "/".join("%d-%d" % x for x in sp), t))
    res = ob.observe(hb, recs)
    cat = res.pop("cat")
    if cat.get("st") != "ok":
        chk.violation(Case("", tag="catalogue of codes"), "rendering an error panics", None, cat)
        return
    import re
    rows, ns = [], []
    for x in cat["codes"]:
        m = re.match(r"\Aerror\[([^\]\n]*)\]: (.*?)\n", x["shown"], re.S)
        rows.append({"name": x["name"], "code": x["code"], "label": m.group(1) if m else "", "head": m.group(2).strip() if m else ""})
    for x in cat["notes"]:
        m = re.search(r"^(note|help): (.*)$", x["shown"], re.M)
        ns.append({"name": x["name"], "k": x["k"], "label": m.group(1) if m else "", "text": m.group(2).strip() if m else ""})
    cases = [{"id": "cat", "what": "codes", "codes": rows, "notes": ns}]
    for i, (t, sp) in meta.items():
        d = diag.read(res[i].get("shown", ""))
        if d is None:
            chk.violation(Case(t, tag="error at %s" % sp), "rendering an error with a position fails", None, str(res[i])[:300])
            continue
        pl_ = [{"line": d["line"], "col": d["col"], "shown": d["shown"]}] + [{"line": x["line"], "col": x["col"], "shown": x["shown"]} for x in d["traces"]]
        cases.append({"id": i, "what": "place", "cps": [ord(c) for c in t], "spans": [list(x) for x in sp], "places": pl_})
    chk.count("codes", len(rows))
    for v in en.judge(chk, "DiceCatalog", cases):
        chk.traces += 1
        chk.count("catalogue_cases")
        if not v["ok"]:
            t, sp = meta.get(v["id"], ("", "catalogue of codes"))
            chk.violation(Case(t, tag=str(sp)), "error catalogue or rendering", None, v["bad"][:6])


ODD01 = ["\x00", "\x01", "\x7f", "\u0080", "\u00a0", "\u00e9", "\u200b", "\u2028", "\u20ac", "\ufeff", "\uffff", "\U0001F600", "\U0010FFFF", "\x1b", "\u0301", "\u202e", "\x0b", "\x85"]
NEST01 = [("(", "1", ")"), ("[", "1", "]"), ("{", "1", "}"), ("#{ a: ", "1", " }"), ("!", "true", ""), ("-", "1", ""), ("|x| ", "1", ""), ("if true { ", "1", " } else { 2 }"), ("while more() { ", "1", " }"), ("fn f() { ", "1", " }"), ("f(", "1", ")"), ("a[", "1", "]"), ("class A { fn m(self) { ", "1", " } }"),
          ("let a = ", "1", ""), ("1 + ", "1", ""), ("a.b", "", ""), ("a ?? ", "1", ""), ("a || ", "1", ""), ("return ", "1", ""), ("for i in ", "x", " { 1 }"), ("loop { ", "break", " }"), ("a = ", "1", ""), ("a |> ", "f", ""), ("export ", "a", ""), ("x or e { ", "1", " }"), ("1 is ", "A", ""), ("", "", "a?."), ("a", "", "!!"), ("a", "", "(1)"), ("super.", "a", "")]


def p01(chk):
    texts = set(ODD01)
    texts |= set(en.sample_texts(chk, en.soup(chk, [{"pieces": CHARS17, "n": 3, "sep": ""}]), chk.n(6000, 10**6)))
    texts |= set(en.sample_texts(chk, en.soup(chk, [{"pieces": ODD01 + list("a\"\\/1.|{ \n"), "n": 3, "sep": ""}]), chk.n(4000, 10**6)))
    exact, triples, toks, deep = tree_texts(chk)
    texts |= set(en.sample_texts(chk, exact, chk.n(1500, 10**6))) | set(en.sample_texts(chk, triples, chk.n(500, 12000))) | \
        set(en.sample_texts(chk, toks, chk.n(12000, 10**6))) | set(en.sample_texts(chk, deep, chk.n(9000, 10**6)))
    progs = en.corpus(chk, en.ALL_FAMS + ["kw2"], chk.n(30, 400), chk.n(60, 1500), sz=90)
    progs.append(Case(open(en.PRELUDE, encoding="utf-8").read(), "m"))
    texts |= {c.text for c in progs}
    muts = mutants(chk, en.pick(chk, progs, chk.n(1800, 6000)), chk.n(10, 24))
    texts |= set(muts)
    texts |= neighbours(chk, FORMS18, True, RARE01) | set(en.sample_texts(chk, sorted(neighbours(chk, FORMS18, True)), chk.n(6000, 10**6)))
    texts |= {"%s %s %s" % (p, x, q) for p, q in SLOTS18 for x in FORMS18 + EXPRS18}
    # a second change to changed texts, and characters the language has no use for
    texts |= set(mutants(chk, [Case(t) for t in en.sample_texts(chk, muts, chk.n(2500, 8000))], chk.n(6, 12)))
    for n, c in enumerate(en.pick(chk, progs, chk.n(500, 5000), "cut")):
        r = en.numbers(chk, "cut%d" % n, 8)
        for j in range(3):
            k = (r[2 * j] * 256 + r[2 * j + 1]) % (len(c.text) + 1)
            texts.add(c.text[:k])
            texts.add(c.text[:k] + ODD01[r[6] % len(ODD01)] + c.text[k:])
        texts.add(c.text[(r[7] * 7) % (len(c.text) + 1):])
    for a, m, z in NEST01:
        for d in (2, 3, 8, 30, 60):
            texts.add(a * d + m + z * d)
            texts.add("fn q(self, a) { " + a * d + m + z * d + " }")
            texts.add("class Q : A { fn new(self, a) { super() " + a * d + m + z * d + " } }")
            texts.add(a * d + m + z * (d - 1))
    for k in (1, 9, 10, 17, 18, 19, 20, 25, 60, 400):
        texts |= {"9" * k, "0" * k, "1" * k + ".5", "1." + "9" * k, "0." + "0" * k + "1", "-" + "9" * k, "a" * k, '"' + "x" * k + '"', "//" * k, "_" * k}
    texts |= {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "1.7976931348623157", "1" + "0" * 309 + ".0"}
    texts = sorted(texts)
    items = [("%s%d" % (k, n), k, t) for n, t in enumerate(texts) for k in "sm"]
    chk.count("texts", len(texts))
    res = pl.compile_all(items, what="verdict")
    cases, where = [], {}
    for i, k, t in items:
        chk.count("evaluations")
        r = res[i]
        where[i] = (k, t, r)
        cases.append({"id": i, "st": r.get("st", "none"), "code": r.get("err", {}).get("code", "") or ""})
    for v in en.judge(chk, "DiceTotal", cases, batch=60000):
        chk.traces += 1
        k, t, r = where[v["id"]]
        chk.count("ended_" + r.get("st", "none"))
        if not v["ok"]:
            chk.violation(Case(t, k), "no program and no diagnostic", "a program or a diagnostic", r.get("panic") or r.get("err") or r.get("st"))
        elif len(t) > 20:
            chk.sample(Case(t, k), {"ended": r["st"]})


LIM16 = {"consts": ["consts", "constsfn", "constsmix", "constskeys", "constsfns"],
         "locals": ["locals", "localsfn", "localsblk", "localsfor", "localsrng", "localsor", "localscap", "localsdes", "localsmeth"],
         "params": ["params", "paramsafn", "paramsmeth", "paramsall"],
         "args": ["args", "argsmeth", "argsnew", "argssup", "argschain"],
         "list": ["list", "listlast"], "ups": ["ups", "upswrite"],
         "jump": ["jif", "jthen", "jelse", "jelif", "jwhile", "jloop", "jfor", "jrange", "jcont", "jbreak", "jand", "jor", "jcoal", "jnull", "jorelse"]}
ENDLESS16 = {"blocks": "locals", "fns": "locals"}


def limit_texts(chk, jobs):
    """jobs: [(kind, n, base)] -> {job: text}"""
    inp = [{"id": str(i), "kind": k, "n": n, "base": b} for i, (k, n, b) in enumerate(jobs)]
    f = en.write_json(en.os.path.join(en.work("lim"), "lim.json"), inp)
    r = en.tlc("DiceLimGen", env={"DICE_LIM": f})
    chk.stats.add(r)
    return {jobs[int(x["id"])]: x["t"] for x in r.recs}


def units_of(u):
    yield u
    for c in u["consts"]:
        if c["k"] == "fn":
            yield from units_of(c["unit"])


def usage(res, n, unit):
    us = list(units_of(unit))
    if res == "consts":
        return max(len(u["consts"]) for u in us)
    if res == "locals":
        return max(u["slots"] for u in us)
    if res == "ups":
        return max(u["ups"] for u in us)
    if res == "jump":
        ds = [r["to"] - r["at"] - 3 for u in us for r in u["rows"] if r["to"] >= 0]     # a signed 16-bit distance
        return max([d if d >= 0 else -d - 1 for d in ds] or [0])
    return n


def p16(chk):
    res_of = {k: r for r, ks in LIM16.items() for k in ks}
    res_of.update(ENDLESS16)
    jobs = []
    for k, r in res_of.items():
        if k in ENDLESS16:
            jobs += [(k, n, 0) for n in (1, 2, 3, 4)]
        elif r == "jump":
            jobs += [(k, 0, 1), (k, 0, 11), (k, 40, 11), (k, 900, 700)]
        else:
            # every size around the capacity, a few small ones, one far beyond
            lo = 246 if r != "ups" else 250
            jobs += [(k, n, 0) for n in ([2, 30, 130] if r != "ups" else [230]) + list(range(lo, 261)) + [300]]
    texts = limit_texts(chk, jobs)
    real = {}

    def observe(js):
        items = [("%s %d %d" % j, "s", texts[j]) for j in js]
        got = pl.compile_all(items, what="code,rows")
        for j in js:
            chk.count("evaluations")
            real[j] = got["%s %d %d" % j]

    observe(jobs)
    more, growth, bases = [], {}, {}
    for k in LIM16["jump"]:
        probe = [real[j] for j in ((k, 0, 1), (k, 0, 11), (k, 40, 11))]
        if all(x.get("st") == "ok" for x in probe):
            u0, u1, u2 = [usage("jump", 0, x["unit"]) for x in probe]
            chunk, growth[k] = max(1, (u1 - u0) // 10), max(1, -(-(u2 - u1) // 40))
            bases[k] = max(1, (32767 - 300 - u0) // chunk)
            left = 32767 - u0 - chunk * (bases[k] - 1)
            nb = max(0, left // growth[k])
            more += [(k, n, bases[k]) for n in sorted({0, 40} | set(range(max(0, nb - 4), nb + 5)))]
        else:
            chk.violation(Case(texts[(k, 0, 1)], tag=k), "a small program is rejected", "accepted", [en.outcome(x) for x in probe])
    more = [j for j in more if j not in texts]
    texts.update(limit_texts(chk, more))
    observe(more)
    hist, runs = [], []
    for k, r in res_of.items():
        js = sorted([j for j in real if j[0] == k], key=lambda j: (j[2], j[1]))
        sizes, ok = [], []
        for j in js:
            x = real[j]
            if x.get("st") not in ("ok", "err"):
                chk.violation(Case(texts[j], tag="%s %d" % j[:2]), "the compiler does not answer", None, x.get("panic", x.get("st")))
                continue
            good = x["st"] == "ok"
            if j[2] == bases.get(k, 0):
                sizes.append({"n": j[1], "ok": good, "code": "" if good else x["err"]["code"], "use": usage(r, j[1], x["unit"]) if good else 0})
            if good:
                ok.append(j)
            elif r == "jump" and j[2] == 700 and x["err"]["code"] != "E2104":
                chk.violation(Case(texts[j], tag=k), "rejected with another code", "E2104", en.outcome(x))
            if r == "jump" and j[2] == 700 and good:
                chk.violation(Case(texts[j], tag=k), "accepted far beyond the capacity", "E2104", "accepted")
        hist.append({"id": k, "res": r, "growth": growth.get(k, 1), "endless": k in ENDLESS16, "sizes": sizes})
        big = [j for j in ok if j[2] == bases.get(k, 0)]
        chosen = big[-2:] if r != "jump" else big[-1:]
        runs += chosen + [j for j in ok if j not in chosen][:1 if chk.quick else 3]
    cap_viol = {}
    for v in en.judge(chk, "DiceLimits", hist):
        chk.count("resources_judged")
        if not v["ok"]:
            h = next(x for x in hist if x["id"] == v["id"])
            j = [j for j in real if j[0] == v["id"]][-1]
            chk.violation(Case(texts[j], tag="size history of " + v["id"]), "capacity: " + "; ".join(v["bad"])[:400], None, h["sizes"][-20:])
    cases = [Case(texts[j], tag="%s %d" % j[:2], bits=2, fuel=30000) for j in runs]
    got = en.run(chk, cases, judge=False, what="code,rows", batch=40)
    for c, f, r, ms in got:
        if r.get("st") == "ok" and not f["ok"]:
            chk.violation(c, "acceptance differs", f["errs"], "accepted")
    en.code(chk, got, batch=40)


def code_cases(chk, per, rand):
    cs = en.corpus(chk, en.ALL_FAMS + ["exitloop2", "null3"], chk.n(*per))
    for n, prof in enumerate(("exits", "clos", "loops", "null", "err", "calls", "class", "expr", "scope")):
        cs += en.random_programs(chk, max(1, chk.n(*rand) // 9), sz=100, profile=prof, start=1 + 1000 * n)
    cs.append(Case(open(en.PRELUDE, encoding="utf-8").read(), "m", tag="reference prelude"))
    cs.append(Case(open(en.os.path.join(en.REPO, en.OWN_PRELUDE), encoding="utf-8").read(), "m", tag="shipped prelude"))
    return en.dedup(cs)


def code_check(chk, fields, per=(30, 400), rand=(270, 3600)):
    cases = code_cases(chk, per, rand)
    more = en.sizes(chk, SIZED, [4, 9, 17, 33, 65] if chk.quick else FLAT, [5, 17, 32] if chk.quick else DEEP)
    chk.count("programs_of_every_size", len(more))
    cases += more
    jobs = [(k, n, 0) for k, n in (("consts", 250), ("locals", 250), ("args", 255), ("list", 255), ("upswrite", 255), ("params", 255))] + [("jfor", 60, 300), ("jnull", 5, 200)]
    cases += [Case(t, tag="%s %d" % j[:2]) for j, t in limit_texts(chk, jobs).items()]
    got = []
    items = [(str(n), c.kind, c.text) for n, c in enumerate(cases)]
    mods = {}
    for c in cases:
        for p, t in c.mods.items():
            mods.setdefault(t, "m%d" % len(mods))
    items += [(i, "m", t) for t, i in mods.items()]
    co = pl.compile_all(items, what="code,rows,dis" if "list" in fields else "code,rows")
    chk.count("evaluations", len(items))
    got = [(c, None, co[str(n)], {}) for n, c in enumerate(cases)] + [(Case(t, "m"), None, co[i], {}) for t, i in mods.items()]
    en.code(chk, got, fields)


def p02(chk):
    code_check(chk, ("flow",))


def p03(chk):
    code_check(chk, ("form", "reads"))


def p21(chk):
    code_check(chk, ("list",), per=(20, 300), rand=(180, 2700))


# texts that end in every way a compilation can: accepted (with every kind of declaration), and rejected half way
POOL22 = [("s", "let mut a = 1\nlet f = || { a += 1 a }\nf()"), ("s", "fn f(a, b) { for i in 0..a { if b { return i } } b }\nf(1, true)"),
          ("m", "export class A { fn new(self, x) { self.x = x } fn m(self) { self.x } op +(self, o) { self.x } }\nexport let z = A(2).m()"),
          ("s", "class A { fn m(self) { fn g() { let q = 1\nloop { break break2 } } g() } }"),
          ("s", "let a = 1\n{ let b = a\na = b }"), ("s", "fn f() { let x = 1 (|| { x } "), ("s", "let s = \"abc\\q\""),
          ("m", "{ export let q = 1 }"), ("s", "1 + @ 2"), ("s", "{ { { let z = \"deep\" z!! } } }")]


def p22(chk):
    from . import observe as ob
    import hashlib, json
    hb = pl.harness()
    extra = en.corpus(chk, en.ALL_FAMS, 1, chk.n(20, 120)) + [Case(t, k) for k, t in POOL22]
    # walks also repeat texts with the other kind: the kind must matter, and only as it should
    pool2 = [(c.kind, c.text) for c in extra] + [("m" if c.kind == "s" else "s", c.text) for c in extra[::2] + extra[-len(POOL22):]]
    pool2 += [("s", "let a = %d\na" % i) for i in (1, 2, 3)] + [("s", "let b = 1\na"), ("s", "let b = 1\nb"), ("m", "let b = 1\nb"), ("m", "export let b = 1"), ("s", "export let b = 1"), ("s", ""), ("m", ""), ("s", "\n")]
    # some texts come from one and the same file
    pool2 = [(k + (" same.dm" if n % 5 == 0 else ""), t) for n, (k, t) in enumerate(pool2)]
    # rejected texts: single-token damage to programs, and words in any order
    hurt = mutants(chk, extra[::3], chk.n(2, 8))
    pool2 += [("s", t) for t in en.sample_texts(chk, hurt, chk.n(120, 1500))]
    pool2 += [("s", t) for t in en.sample_texts(chk, en.soup(chk, [{"pieces": WORDS17, "n": 2, "sep": " "}]), chk.n(120, 1500))]
    pool = POOL22 + [("s", POOL22[2][1]), ("m", POOL22[0][1])]

    def res_key(r):
        if r.get("st") == "ok":
            return "ok " + hashlib.sha1(json.dumps(en.plain(r["unit"]), sort_keys=True).encode()).hexdigest()[:16]
        if r.get("st") == "err":
            return "err " + str(r["err"].get("code")) + " " + hashlib.sha1((r["err"].get("shown") or "").encode()).hexdigest()[:16]
        return str(r.get("st"))

    jobs = list(pool) + pool2
    store = {}

    def session(seq):
        out = ob._run_batch(hb, [(str(n), jobs[j][0][0], "code,path=same.dm" if len(jobs[j][0]) > 1 else "code", jobs[j][1]) for n, j in enumerate(seq)])
        keys = []
        for n, j in enumerate(seq):
            k = res_key(out[str(n)])
            store.setdefault((j, k), out[str(n)])
            keys.append(k)
        return keys

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        fresh = [x[0] for x in ex.map(lambda j: session([j]), range(len(jobs)))]
        # every history of the given length over the pool (model's own enumeration)
        ln = chk.n(3, 4)
        f = en.write_json(en.os.path.join(en.work("session"), "gen.json"), {"mode": "gen", "pool": len(pool), "len": ln})
        r = en.tlc("DiceSession", env={"DICE_SESSION": f})
        chk.stats.add(r)
        hs = sorted(x["h"] for x in r.recs)
        seqs = [[j - 1 for j in h] for h in hs]
        if len(seqs) > 2500:
            seqs = [s for n, s in enumerate(seqs) if n % (len(seqs) // 2500) == chk.seed % (len(seqs) // 2500)]
        for w in range(chk.n(48, 400)):
            n = 120 if w >= 8 else chk.n(1500, 12000)
            r = en.numbers(chk, "walk%d" % w, 2 * n)
            seqs.append([len(pool) + (r[2 * i] * 256 + r[2 * i + 1]) % len(pool2) for i in range(n)])
        seqs += [[j] * 6 for j in range(len(jobs))]
        got = list(ex.map(session, seqs))
    # equivalent code counts as the same result
    differ = sorted({(j, k) for s, g in zip(seqs, got) for j, k in zip(s, g) if k != fresh[j] and k.startswith("ok ") and fresh[j].startswith("ok ")})[:200]
    if differ:
        cases = [{"id": str(n), "units": pl.flatten(store[(j, fresh[j])]["unit"]), "other": pl.flatten(store[(j, k)]["unit"])} for n, (j, k) in enumerate(differ)]
        f = en.write_json(en.os.path.join(en.work("session"), "equiv.json"), {"ops": pl.ops_table(), "cases": cases})
        r = en.tlc("DiceEquiv", env={"DICE_DATA": f})
        chk.stats.add(r)
        same = {differ[int(x["id"])] for x in r.recs if x["ok"]}
        got = [[fresh[j] if (j, k) in same else k for j, k in zip(s, g)] for s, g in zip(seqs, got)]
    f = en.write_json(en.os.path.join(en.work("session"), "judge.json"),
                      {"mode": "judge", "fresh": fresh, "histories": [{"id": str(n), "jobs": [j + 1 for j in s], "got": g} for n, (s, g) in enumerate(zip(seqs, got))]})
    r = en.tlc("DiceSession", env={"DICE_SESSION": f})
    chk.stats.add(r)
    if len(r.recs) != len(seqs):
        raise en.ToolError("DiceSession: %d verdicts for %d histories" % (len(r.recs), len(seqs)))
    for v in r.recs:
        chk.traces += 1
        chk.count("compilations", v["n"])
        s = seqs[int(v["id"])]
        if not v["ok"]:
            i = v["at"] - 1
            j = s[i]
            chk.violation(Case(jobs[j][1], jobs[j][0][0], tag="after " + json.dumps([jobs[x] for x in s[:i]])[:1500]), "the result depends on earlier compilations",
                          en.outcome(store[(j, fresh[j])]) + " " + store[(j, fresh[j])].get("err", {}).get("shown", "")[:200],
                          en.outcome(store[(j, got[int(v["id"])][i])]) + " " + store[(j, got[int(v["id"])][i])].get("err", {}).get("shown", "")[:200])
        else:
            chk.sample(Case(jobs[s[0]][1], jobs[s[0]][0][0]), {"history": s[:8]})
    chk.count("histories", len(seqs))


def p25(chk):
    own = en.os.path.join(en.REPO, en.OWN_PRELUDE)
    runtime(chk, [("prel", 550, None), ("prelres", 260, None), ("errprop", 60, None), ("or", 60, None), ("ormisc", 30, None), ("loop", 60, None)], "err",
            prelude=(own, en.PRELUDE), rand=(40, 1000))


BAD20 = ['"a\\q"', '"\\', '99999999999999999999', '"\u00e9\\\n"', 'async', 'x', 'f(1', 'f(a,', 'let', '"abc', '@', '\u20ac', 'export let a = 1', '{ export fn g() { 1 } }', 'import from "m"', 'return 1', 'break', 'continue', 'a!!', 'super.x', 'super()',
         'class A { fn new() { } }', 'class A { fn new(self)\n -> Int { } }', 'class A { op +(a) { 1 } }', 'class A : Any { fn new(self) {\n 1\n} }', 'class A { fn new(self) {\nreturn\n1\n} }', 'class A { fn m(self:\nInt) { 1 } }', 'fn f(a,\na) {\n1\n}', 'fn f() { 1 }\nfn f() { 1 }',
         'class A { }\nclass A {\n}', 'let a = 1\n(|| {\na = 2 })', 'u =\n2', 'g()\nfn g() { 1 }', '|a, a| 1', 'fn f() { super.x }', 'for i in 0..1 { i = 1 }', 'let { a, b } = #{ }\na = 1', 'fn f() {\nfn g() { 1 }\nlet g = 2\n}', 'import { z } from "m"\nz = 1']
PRE20 = ["// \u20ac\n", "let pq = 1\n", "\n", "\r\n", "\"\U0001F600\" ", "\t"]
POST20 = ["", "\n", "\n// end", "\n\n", "  ", " // \u00e9"]


CHECKS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "p" and k[1:].isdigit()}
