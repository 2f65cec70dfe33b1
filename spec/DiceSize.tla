------------------------------ MODULE DiceSize -----------------------------
(* Programs of every size in one dimension: how many of something there are, *)
(* or how deep it is nested.  What a program means does not depend on the    *)
(* size, so a defect that needs a certain size (a power of two, a second     *)
(* byte, a reused slot) shows as a difference between the compiled code's    *)
(* behaviour and the meaning.                                                *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Json, IOUtils

Input == JsonDeserialize(IOEnv.DICE_SIZE)     \* sequence of [id, kind, n]

S(i) == ToString(i)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s ELSE LET h == Rep(s, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN s ELSE "")
Cat(n, f(_), sep) == FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE sep) \o f(i), "", [i \in 1..n |-> i])
Down(n, f(_), sep) == Cat(n, LAMBDA i : f(n + 1 - i), sep)
NL == "\n"
Lines(n, f(_)) == Cat(n, f, NL) \o NL
Bool(p) == IF p THEN "true" ELSE "false"
Ty(i) == CASE i % 4 = 0 -> "Int" [] i % 4 = 1 -> "String" [] i % 4 = 2 -> "Any?" [] OTHER -> "Bool"
Val(i) == CASE i % 4 = 0 -> S(i) [] i % 4 = 1 -> "\"s" \o S(i) \o "\"" [] i % 4 = 2 -> "null" [] OTHER -> Bool(i % 8 = 3)

Sc(t) == [t |-> t, k |-> "s", m |-> <<>>]
Pm(t, m) == [t |-> t, k |-> "s", m |-> m]

Expr(k, n) ==
  CASE k = "sum"     -> Sc("t(1" \o Cat(n, LAMBDA i : (CASE i % 4 = 0 -> " * 2" [] i % 4 = 1 -> " + " \o S(i) [] i % 4 = 2 -> " - t(" \o S(i) \o ")" [] OTHER -> " + " \o S(i)), "") \o ")\n0")
    [] k = "parens"  -> Sc("t(" \o Rep("(1 - ", n) \o "t(2)" \o Rep(")", n) \o ")\n0")
    [] k = "lparens" -> Sc("t(" \o Rep("(", n) \o "t(2)" \o Rep(" - 1)", n) \o ")\n0")
    [] k = "unary"   -> Sc("t(" \o Rep("! ", n) \o "b())\nt(" \o Rep("- ", n) \o "5)\n0")
    [] k = "list"    -> Sc("let l = [" \o Cat(n, LAMBDA i : "t(" \o S(i) \o ")", ", ") \o "]\nt(l)\n" \o Lines(n, LAMBDA i : "t(l[" \o S(i - 1) \o "])") \o "0")
    [] k = "object"  -> Sc("let o = #{ " \o Cat(n, LAMBDA i : "k" \o S(i) \o ": t(" \o S(i) \o ")", ", ") \o " }\n" \o Lines(n, LAMBDA i : "t(o.k" \o S(i) \o ")") \o "0")
    [] k = "objnest" -> Sc("let o = " \o Rep("#{ a: ", n) \o "t(3)" \o Rep(" }", n) \o "\nt(o" \o Rep(".a", n) \o ")\no" \o Rep(".a", n) \o " += 2\nt(o" \o Rep(".a", n) \o ")\n0")
    [] k = "listnest" -> Sc("let o = " \o Rep("[", n) \o "t(3)" \o Rep("]", n) \o "\nt(o" \o Rep("[0]", n) \o ")\no" \o Rep("[0]", n) \o " += 2\nt(o" \o Rep("[0]", n) \o ")\n0")
    [] k = "string"  -> Sc("t(\"" \o Rep("ab ", n) \o "\")\n0")
    [] k = "callnest" -> Sc("t(" \o Rep("t(1 + ", n) \o "t(1)" \o Rep(")", n) \o ")\n0")
    [] k = "pipes"   -> Sc("fn f(x) { x + 1 }\nt(1" \o Rep(" |> f", n) \o ")\n0")
    [] k = "stmts"   -> Sc("let mut a = 0\n" \o Lines(n, LAMBDA i : "a += t(" \o S(i) \o ")") \o "t(a)\na")
    [] k = "pend"    -> Sc("t([" \o Cat(n, LAMBDA i : "t(" \o S(i) \o ")", ", ") \o ", { let w = 7 w + 1 }, " \o "if b() { 8 } else { 9 }])\n0")
    [] k = "pendarg" -> Sc("fn f(" \o Cat(n, LAMBDA i : "p" \o S(i), ", ") \o ") { [" \o Cat(n, LAMBDA i : "p" \o S(i), ", ") \o "] }\nt(f(" \o Cat(n, LAMBDA i : "{ let w = " \o S(i) \o " w + if b() { 1 } else { 0 } }", ", ") \o "))\n0")
    [] k = "pending" -> Sc("let mut x = 0\nwhile more() { x += " \o Cat(n, LAMBDA i : "t(" \o S(i) \o ") + (", "") \o "if b() { break } else { 1 }" \o Rep(")", n) \o " }\nt(x)\nx")
    [] OTHER -> Sc("?")

Scope(k, n) ==
  CASE k = "vars"    -> Sc(Lines(n, LAMBDA i : "let v" \o S(i) \o " = " \o S(i)) \o Lines(n, LAMBDA i : "t(v" \o S(i) \o ")") \o "v" \o S(n))
    [] k = "varsfn"  -> Sc("fn f(a) {\n" \o Lines(n, LAMBDA i : "let v" \o S(i) \o " = a + " \o S(i)) \o Lines(n, LAMBDA i : "t(v" \o S(i) \o ")") \o "v1 }\nt(f(100))\nf(200)")
    [] k = "muts"    -> Sc(Lines(n, LAMBDA i : "let mut v" \o S(i) \o " = " \o S(i)) \o Lines(n, LAMBDA i : "v" \o S(i) \o " += 1000") \o Lines(n, LAMBDA i : "t(v" \o S(i) \o ")") \o "0")
    [] k = "shadow"  -> Sc("let x = 0\n" \o Cat(n, LAMBDA i : "{ let x = x + 1\nt(x)\n", "") \o Rep("\nt(x) }", n) \o "\nt(x)\nx")
    [] k = "again"   -> Sc(Lines(n, LAMBDA i : "let x = " \o S(i) \o "\nt(x)") \o "x")
    [] k = "blocks"  -> Sc("let a = 5\n" \o Lines(n, LAMBDA i : "{ let p = a + " \o S(i) \o "\nlet q = p + 1\nt(p + q) }") \o "t(a)\na")
    [] k = "blockval" -> Sc("let a = 5\nt(" \o Cat(n, LAMBDA i : "{ let p = " \o S(i) \o "\np + 1 } + ", "") \o "a)\na")
    [] k = "destr"   -> Sc("let o = #{ " \o Cat(n, LAMBDA i : "k" \o S(i) \o ": " \o S(i), ", ") \o " }\nlet mut { " \o Cat(n, LAMBDA i : "k" \o S(i), ", ") \o " } = o\n" \o Lines(n, LAMBDA i : "k" \o S(i) \o " += 10\nt(k" \o S(i) \o ")") \o "k1")
    [] k = "fnsvars" -> Sc(Lines(n, LAMBDA i : "fn f" \o S(i) \o "(x) { x + " \o S(i) \o " }\nlet v" \o S(i) \o " = f" \o S(i) \o "(1)") \o Lines(n, LAMBDA i : "t(v" \o S(i) \o " + f" \o S(i) \o "(2))") \o "0")
    [] OTHER -> Sc("?")

(* every instruction that names a slot, on slots after n others *)
FarBody(n) == "let fs = []\nlet mut a = v1\nlet g = || { a += v" \o S(n) \o "\na }\nt(g())\nfor x in [1, 2] { fs.push(|| { x + a }) t(x) }\nfor x in 0..2 { fs.push(|| x)\nt(x) }\nlet { p, q } = #{ p: 5, q: 6 }\nt([p, q])\nlet y = 3\nlet u = null\n"
              \o "fn h(z: Int) -> Int { z + y }\nt(h(1))\nclass K { fn new(self, k) { self.k = k } fn get(self) { self.k + y } }\nclass L : K { fn new(self) { super(y) } }\nt(K(4).get())\nt(L().get())\nt(Err(7) or e { let w = e + a w })\n{ let r = 8\nfs.push(|| r) }\n"
              \o "a = 9\na *= 2\nlet k = || { || { a += p\nlet z = [a, v1, v" \o S(n) \o "]\nz } }\nlet m = k()\nt(m())\nfor f in fs { t(f()) }\nt([a, u ?? 1])\n"
Clos(k, n) ==
  CASE k = "caps"    -> Sc("fn f() {\n" \o Lines(n, LAMBDA i : "let mut v" \o S(i) \o " = " \o S(i)) \o "let g = || { " \o Cat(n, LAMBDA i : "v" \o S(i) \o " += 100", "\n") \o "\n" \o
                              Cat(n, LAMBDA i : "t(v" \o S(i) \o ")", "\n") \o " }\ng()\n" \o Lines(n, LAMBDA i : "v" \o S(i) \o " += 1000") \o "g }\nlet h = f()\nh()\n0")
    [] k = "far"     -> Sc(Lines(n, LAMBDA i : "let v" \o S(i) \o " = " \o S(i % 10)) \o FarBody(n) \o "0")
    [] k = "farfn"   -> Sc("fn f(b1, b2) {\n" \o Lines(n, LAMBDA i : "let v" \o S(i) \o " = b1 + " \o S(i % 10)) \o FarBody(n) \o "b2 }\nt(f(1, 2))\n0")
    [] k = "capsrev" -> Sc(Lines(n, LAMBDA i : "let mut v" \o S(i) \o " = " \o S(i)) \o "let g = || { " \o Down(n, LAMBDA i : "v" \o S(i) \o " += " \o S(i), "\n") \o " }\ng()\n" \o Lines(n, LAMBDA i : "t(v" \o S(i) \o ")") \o "0")
    [] k = "shared"  -> Sc("let mut x = 0\nlet fs = []\n" \o Lines(n, LAMBDA i : "fs.push(|| { x += " \o S(i) \o "\nx })") \o "for f in fs { t(f()) }\nx")
    [] k = "deep"    -> Sc("fn mk() { let mut x = 1\nlet g = " \o Cat(n, LAMBDA i : "|| { ", "") \o "x += 1\nx" \o Rep(" }", n) \o "\nlet g2 = || x\nlet r = [g, g2]\nr }\nlet l = mk()\nlet g = l[0]\nlet h = l[1]\nt(g" \o Rep("()", n) \o ")\nt(h())\nt(g" \o Rep("()", n) \o ")\nt(h())\n0")
    [] k = "deepown" -> Sc("let g = " \o Cat(n, LAMBDA i : "|a" \o S(i) \o "| { let mut c" \o S(i) \o " = a" \o S(i) \o " * 2\nlet z" \o S(i) \o " = ", "") \o "|| { " \o Cat(n, LAMBDA i : "c" \o S(i) \o " += 1\nt(c" \o S(i) \o " + a" \o S(i) \o ")", "\n") \o " }" \o Down(n, LAMBDA i : "\nz" \o S(i) \o " }", "") \o
                              "\nlet k = g" \o Cat(n, LAMBDA i : "(" \o S(i) \o ")", "") \o "\nk()\nk()\n0")
    [] k = "each"    -> Sc("let fs = []\nlet mut i = 0\nwhile i < " \o S(n) \o " { let k = i * 10\nlet mut c = 0\nfs.push(|| { c += 1\nk + c })\ni += 1 }\nfor f in fs { f()\nt(f()) }\n0")
    [] k = "eachfor" -> Sc("let fs = []\nfor i in 0.." \o S(n) \o " { fs.push(|| i) }\nfor f in fs { t(f()) }\n0")
    [] k = "blockcap" -> Sc("let fs = []\n" \o Lines(n, LAMBDA i : "{ let mut p = " \o S(i) \o "\nlet q = p + 50\nfs.push(|| { p += q\np }) }") \o "for f in fs { t(f()) }\nfor f in fs { t(f()) }\n0")
    [] k = "nestcap" -> Sc("let fs = []\n" \o Cat(n, LAMBDA i : "{ let mut v" \o S(i) \o " = " \o S(i) \o "\nfs.push(|| { v" \o S(i) \o " += 1\nv" \o S(i) \o " })\n", "") \o "t(1)" \o Rep(" }", n) \o "\nfor f in fs { f()\nt(f()) }\n0")
    [] k = "argcap"  -> Sc("fn f(" \o Cat(n, LAMBDA i : "p" \o S(i), ", ") \o ") { let mut q = 0\nlet g = || { q += p" \o S(n) \o "\nq + p1 + p" \o S(n) \o " }\ng }\nlet g = f(" \o Cat(n, LAMBDA i : S(i * 10), ", ") \o ")\nt(g())\nt(g())\n0")
    [] OTHER -> Sc("?")

Flow(k, n) ==
  CASE k = "iters"   -> Sc("let mut i = 0\nwhile i < " \o S(n) \o " { let j = i\nif j % 3 == 1 { i += 1\ncontinue }\nt(j)\ni += 1 }\ni")
    [] k = "ranges"  -> Sc("let mut s = 0\nfor i in 0.." \o S(n) \o " { s += i\nif i % 2 == 0 { continue }\nt(i) }\nfor i in 1..=" \o S(n) \o " { s += i }\ns")
    [] k = "items"   -> Sc("for i in [" \o Cat(n, LAMBDA i : S(i), ", ") \o "] { let w = i\nif w == 7 { continue }\nif w == 11 { break }\nt(w) }\n0")
    [] k = "nest"    -> Sc(Cat(n, LAMBDA i : (CASE i % 3 = 0 -> "for i" \o S(i) \o " in [" \o S(i) \o "] { " [] i % 3 = 1 -> "for i" \o S(i) \o " in 0..1 { " [] OTHER -> "loop { let i" \o S(i) \o " = " \o S(i) \o "\n"), "") \o
                           "t(" \o Cat(n, LAMBDA i : "i" \o S(i), " + ") \o ")\n" \o Down(n, LAMBDA i : (IF i % 3 = 2 THEN "break\n" ELSE "t(i" \o S(i) \o ")\n") \o "}\n", "") \o "0")
    [] k = "nestwhile" -> Sc("let mut x = 0\n" \o Rep("while x < 3 { x += 1\n", n) \o "t(x)\n" \o Rep("if x == 2 { break }\n}\nt(x)\n", n) \o "x")
    [] k = "seq"     -> Sc("let mut x = 0\n" \o Lines(n, LAMBDA i : "for i in [1, 2] { let y = i + x\nif y % 5 == 3 { break }\nx += y }\nt(x)") \o "x")
    [] k = "breaks"  -> Sc("let mut i = 0\nwhile i < 3 { i += 1\n" \o Lines(n, LAMBDA i : "if i * 10 == " \o S(i) \o " { t(" \o S(i) \o ")\n" \o (IF i % 2 = 0 THEN "break" ELSE "continue") \o " }") \o "t(i) }\nt(i)\n0")
    [] k = "elseif"  -> Sc("fn f(v) { if v == 0 { 0 }" \o Cat(n, LAMBDA i : " else if t(v) == " \o S(i) \o " { let r = v * 10\nr }", "") \o " else { 99 } }\nt(f(0))\nt(f(1))\nt(f(" \o S(n) \o "))\nt(f(" \o S(n + 1) \o "))\n0")
    [] k = "ifnest"  -> Sc("fn f(v) { " \o Cat(n, LAMBDA i : "if v >= " \o S(i) \o " { ", "") \o S(n * 10) \o Down(n, LAMBDA i : " } else { t(" \o S(i) \o ") }", "") \o " }\nt(f(0))\nt(f(1))\nt(f(" \o S(n) \o "))\n0")
    [] k = "returns" -> Sc("fn f(v) { " \o Lines(n, LAMBDA i : "if v == " \o S(i) \o " { return " \o S(i * 10) \o " }") \o "0 - 1 }\nt(f(0))\nt(f(1))\nt(f(" \o S(n) \o "))\n0")
    [] k = "ands"    -> Sc("fn f(v) { " \o Cat(n, LAMBDA i : "t(v != " \o S(i) \o ")", " && ") \o " }\nt(f(0))\nt(f(1))\nt(f(" \o S(n) \o "))\n0")
    [] k = "ors"     -> Sc("fn f(v) { " \o Cat(n, LAMBDA i : "t(v == " \o S(i) \o ")", " || ") \o " }\nt(f(0))\nt(f(1))\nt(f(" \o S(n) \o "))\n0")
    [] k = "coals"   -> Sc("fn f(v) { " \o Cat(n, LAMBDA i : "(if t(v == " \o S(i) \o ") { " \o S(i) \o " } else { null })", " ?? ") \o " ?? 77 }\nt(f(0))\nt(f(1))\nt(f(" \o S(n) \o "))\n0")
    [] k = "chain"   -> Sc("let o = #{ a: null }\nlet p = #{ a: null, z: 4 }\np.a = p\nt(p" \o Rep("?.a", n) \o "?.z)\nt(o?.a" \o Rep("?.a", n) \o ")\nt(p" \o Rep(".a?.a", n) \o ".z)\nt(o.a" \o Rep("?.a(t(1))", n) \o ")\n0")
    [] k = "chainfn" -> Sc("let p = #{ f: null, z: 4 }\np.f = |x| { t(x)\nif x == 3 { null } else { p } }\nt(p" \o Cat(n, LAMBDA i : ".f(" \o S(i) \o ")?", "") \o ".z)\n0")
    [] k = "props"   -> Sc("fn g(x) { if x == 3 { Err(x) } else { Ok(x) } }\nfn f(v) -> Result { let mut s = 0\n" \o Lines(n, LAMBDA i : "s += g(" \o S(i) \o " * v)!!\nt(s)") \o "Ok(s) }\nt(f(1).is_ok)\nt(f(3).result)\nt(f(5).is_ok)\n0")
    [] k = "propexp" -> Sc("fn g(x) { if x == 3 { Err(x) } else { Ok(x) } }\nfn f(v) -> Result { Ok(" \o Cat(n, LAMBDA i : "g(" \o S(i) \o " * v)!!", " + ") \o ") }\nt(f(1).is_ok)\nt(f(3).result)\nt(f(5).result)\n0")
    [] k = "handlers" -> Sc("fn g(x) { if b() { Err(x) } else { Ok(x * 2) } }\nlet mut s = 0\n" \o Lines(n, LAMBDA i : "s += g(" \o S(i) \o ") or e { t(e)\nlet q = e + 100\nq }") \o "s")
    [] k = "handnest" -> Sc("t(" \o Cat(n, LAMBDA i : "(Err(" \o S(i) \o ") or e" \o S(i) \o " { e" \o S(i) \o " + ", "") \o "1" \o Rep(" })", n) \o ")\n0")
    [] OTHER -> Sc("?")

Decl(k, n) ==
  CASE k = "params"  -> Sc("fn f(" \o Cat(n, LAMBDA i : "p" \o S(i), ", ") \o ") { " \o Cat(n, LAMBDA i : "t(p" \o S(i) \o ")", "\n") \o "\nlet q = 5\nq + p1 + p" \o S(n) \o " }\nt(f(" \o Cat(n, LAMBDA i : S(i), ", ") \o "))\n0")
    [] k = "paramsm" -> Sc("class A { fn new(self, " \o Cat(n, LAMBDA i : "p" \o S(i), ", ") \o ") { " \o Cat(n, LAMBDA i : "self.f" \o S(i) \o " = p" \o S(i), "\n") \o " }\nfn m(self, " \o Cat(n, LAMBDA i : "p" \o S(i), ", ") \o ") { " \o
                           Cat(n, LAMBDA i : "t(p" \o S(i) \o " + self.f" \o S(i) \o ")", "\n") \o " }\nfn s(" \o Cat(n, LAMBDA i : "p" \o S(i), ", ") \o ") { p" \o S(n) \o " - p1 } }\nlet a = A(" \o Cat(n, LAMBDA i : S(i), ", ") \o ")\na.m(" \o Cat(n, LAMBDA i : S(i * 10), ", ") \o
                           ")\nt(A.s(" \o Cat(n, LAMBDA i : S(i), ", ") \o "))\n0")
    [] k = "typed"   -> Sc("fn f(" \o Cat(n, LAMBDA i : "p" \o S(i) \o ": " \o Ty(i), ", ") \o ") -> Int { " \o Cat(n, LAMBDA i : "t(p" \o S(i) \o ")", "\n") \o "\nif b() { return " \o S(n) \o " }\nlet q = 4\nif b() { q } else { null } }\nt(f(" \o Cat(n, LAMBDA i : Val(i), ", ") \o "))\n0")
    [] k = "typedbad" -> Sc("fn f(" \o Cat(n, LAMBDA i : "p" \o S(i) \o ": " \o Ty(i), ", ") \o ") { t(0) }\nt(f(" \o Cat(n, LAMBDA i : IF i = n THEN (IF Ty(i) = "Int" THEN "null" ELSE "4") ELSE Val(i), ", ") \o "))\n0")
    [] k = "typedret" -> Sc("fn f(v) -> Int? { " \o Lines(n, LAMBDA i : "if v == " \o S(i) \o " { return " \o Val(i) \o " }") \o "null }\nt(f(0))\nt(f(" \o S(n) \o "))\nt(f(1))\n0")
    [] k = "fwd"     -> Sc("fn main() { f1(0) }\n" \o Lines(n, LAMBDA i : "fn f" \o S(i) \o "(x) { " \o (IF i = n THEN "x" ELSE "f" \o S(i + 1) \o "(x + " \o S(i) \o ")") \o " }") \o "t(main())\n0")
    [] k = "fwdblk"  -> Sc("fn main(y) { " \o Down(n, LAMBDA i : "fn f" \o S(i) \o "(x) { " \o (IF i = n THEN "x * y" ELSE "f" \o S(i + 1) \o "(x + " \o S(i) \o ")") \o " }", "\n") \o "\nf1(1) }\nt(main(3))\n0")
    [] k = "recur"   -> Sc("fn f(x) { if x == 0 { 0 } else { let r = x\nr + f(x - 1) } }\nt(f(" \o S(n) \o "))\n0")
    [] k = "mutual"  -> Sc("fn ev(x) { if x == 0 { true } else { od(x - 1) } }\nfn od(x) { if x == 0 { false } else { ev(x - 1) } }\nt(ev(" \o S(n) \o "))\n0")
    [] k = "calls"   -> Sc("fn f(a, b) { t(a - b) }\n" \o Lines(n, LAMBDA i : "f(" \o S(i) \o ", f(" \o S(i + 1) \o ", 1))") \o "0")
    [] k = "curried" -> Sc("let f = " \o Cat(n, LAMBDA i : "|a" \o S(i) \o "| ", "") \o Cat(n, LAMBDA i : "a" \o S(i), " + ") \o "\nt(f" \o Cat(n, LAMBDA i : "(" \o S(i) \o ")", "") \o ")\n0")
    [] k = "methods" -> Sc("class A { " \o Lines(n, LAMBDA i : IF i % 3 = 0 THEN "fn m" \o S(i) \o "(x) { x + " \o S(i) \o " }" ELSE "fn m" \o S(i) \o "(self, x) { self.v + x + " \o S(i) \o " }") \o "fn new(self) { self.v = 1000 } }\nlet a = A()\n" \o
                           Lines(n, LAMBDA i : IF i % 3 = 0 THEN "t(A.m" \o S(i) \o "(1))" ELSE "t(a.m" \o S(i) \o "(1))") \o "0")
    [] k = "fields"  -> Sc("class A { fn new(self, b) { " \o Cat(n, LAMBDA i : "self.f" \o S(i) \o " = b + " \o S(i), "\n") \o " } fn sum(self) { " \o Cat(n, LAMBDA i : "self.f" \o S(i), " + ") \o " } }\nlet a = A(1)\nlet c = A(500)\na.f1 += 7\n" \o Lines(n, LAMBDA i : "t(a.f" \o S(i) \o ")\nt(c.f" \o S(i) \o ")") \o "t(a.sum())\n0")
    [] k = "inherit" -> Sc("class C0 { fn new(self, x) { self.l = [0, x] } fn m(self) { 0 } fn only0(self) { self.m() } }\n" \o
                           Lines(n, LAMBDA i : "class C" \o S(i) \o " : C" \o S(i - 1) \o " { fn new(self, x) { super(x + 1)\nself.l.push(" \o S(i) \o ") } fn m(self) { super.m() + " \o S(i) \o " } fn only" \o S(i) \o "(self) { self.only" \o S(i - 1) \o "() + super[C" \o S(i - 1) \o "].m() } }") \o
                           "let c = C" \o S(n) \o "(100)\nt(c.l)\nt(c.m())\nt(c.only" \o S(n) \o "())\nt(c is C0)\nt(c is C" \o S(n) \o ")\n0")
    [] k = "classes" -> Sc("fn go() { t(A1().m()) }\n" \o Lines(n, LAMBDA i : "class A" \o S(i) \o " { fn m(self) { " \o (IF i = n THEN S(i) ELSE "A" \o S(i + 1) \o "().m() + " \o S(i)) \o " } }") \o "go()\n0")
    [] k = "opchain" -> Sc("class V { fn new(self, v) { self.v = v } op +(self, o) { V(self.v + o.v) } op -(self, o) { V(self.v - o) } op ==(self, o) { self.v == o.v } }\nlet a = V(1)" \o Cat(n, LAMBDA i : IF i % 2 = 0 THEN " + V(" \o S(i) \o ")" ELSE " - t(" \o S(i) \o ")", "") \o "\nt(a.v)\nt(a == V(3))\n0")
    [] k = "exports" -> Pm("import { " \o Cat(n, LAMBDA i : "e" \o S(i), ", ") \o " } from \"m\"\n" \o Lines(n, LAMBDA i : IF i % 3 = 0 THEN "t(e" \o S(i) \o "(1))" ELSE IF i % 3 = 1 THEN "t(e" \o S(i) \o ")" ELSE "t(e" \o S(i) \o "().v)") \o "0",
                           <<[p |-> "m", t |-> Lines(n, LAMBDA i : IF i % 3 = 0 THEN "export fn e" \o S(i) \o "(x) { x + " \o S(i) \o " }" ELSE IF i % 3 = 1 THEN "export let e" \o S(i) \o " = " \o S(i) ELSE "export class e" \o S(i) \o " { fn new(self) { self.v = " \o S(i) \o " } }")]>>)
    [] k = "modules" -> Pm(Lines(n, LAMBDA i : "import { v" \o S(i) \o " } from \"m" \o S(i) \o "\"") \o Lines(n, LAMBDA i : "t(v" \o S(i) \o ")") \o "0",
                           [i \in 1..n |-> [p |-> "m" \o S(i), t |-> "t(\"load" \o S(i) \o "\")\nexport let v" \o S(i) \o " = " \o S(i * 10)]])
    [] OTHER -> Sc("?")

Kinds == [expr |-> <<"sum", "parens", "lparens", "unary", "list", "object", "objnest", "listnest", "string", "callnest", "pipes", "stmts", "pend", "pendarg", "pending">>,
          scope |-> <<"vars", "varsfn", "muts", "shadow", "again", "blocks", "blockval", "destr", "fnsvars">>,
          clos |-> <<"far", "farfn", "caps", "capsrev", "shared", "deep", "deepown", "each", "eachfor", "blockcap", "nestcap", "argcap">>,
          flow |-> <<"iters", "ranges", "items", "nest", "nestwhile", "seq", "breaks", "elseif", "ifnest", "returns", "ands", "ors", "coals", "chain", "chainfn", "props", "propexp", "handlers", "handnest">>,
          decl |-> <<"params", "paramsm", "typed", "typedbad", "typedret", "fwd", "fwdblk", "recur", "mutual", "calls", "curried", "methods", "fields", "inherit", "classes", "opchain", "exports", "modules">>]
In(x, s) == \E i \in 1..Len(s) : s[i] = x
Text(c) == CASE In(c.kind, Kinds.expr) -> Expr(c.kind, c.n) [] In(c.kind, Kinds.scope) -> Scope(c.kind, c.n) [] In(c.kind, Kinds.clos) -> Clos(c.kind, c.n)
             [] In(c.kind, Kinds.flow) -> Flow(c.kind, c.n) [] OTHER -> Decl(c.kind, c.n)

VARIABLES case, done
Init == case \in 1..Len(Input) /\ done = FALSE
Next == /\ ~done
        /\ PrintT("@@" \o ToJson([id |-> Input[case].id] @@ Text(Input[case])))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
