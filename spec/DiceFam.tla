------------------------------- MODULE DiceFam ------------------------------
(* Families of programs, each the product of the dimensions one property     *)
(* speaks about.  A program is [t |-> text, k |-> kind, m |-> modules, b |->  *)
(* how many answers of the environment are explored, f |-> family].          *)
(* Natives a program may use: b() (true or false), mb(x) (x or null), t(x)    *)
(* (shows x, yields it), more() (true, true, false, ...).                    *)
EXTENDS Integers, Sequences, TLC, FiniteSets, Json, IOUtils

In == JsonDeserialize(IOEnv.DICE_FAM)
N == In.n                                     \* size of the families that have one

Sc(t, b) == [t |-> t, k |-> "s", m |-> <<>>, b |-> b]
Mo(t, b) == [t |-> t, k |-> "m", m |-> <<>>, b |-> b]
Pm(t, m, b) == [t |-> t, k |-> "s", m |-> m, b |-> b]
Fill(w, s) == w[1] \o s \o w[2]
Fills(ws, ss) == {Fill(w, s) : w \in ws, s \in ss}
NL == "\n"
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN s \o Rep(s, n - 1) ELSE LET h == Rep(s, n \div 2) IN h \o h
Num(i) == ToString(i)
RECURSIVE CatFrom(_, _, _)
CatFrom(F(_), i, n) == IF i > n THEN "" ELSE F(i) \o CatFrom(F, i + 1, n)
Cat(n, F(_)) == CatFrom(F, 1, n)

(* ------------------------------------------------------------------------ *)
(* Places inside an expression where something else is already pending.     *)
Setup == "let lst = [1, 2, 3]\nlet mut acc = 0\nlet fs = []\n"
         \o "let obj = #{ a: 1, f: |x, y| { t(x) y ?? 3 }, l: [1, 2], o: #{ a: 2, f: t } }\n"
         \o "class K { fn new(self, v) { self.v = v } fn add(self, x) { self.v + x } op +(self, x) { self.v + x * 2 } fn st(x) { x } }\n"
Finish_ == "\nt(acc)\nt(lst)\nt(obj.a)\nt(obj.o.a)\nfor f in fs { t(f()) }\nacc + 1"
Pend == {
  <<"1 + ", "">>, <<"t(1) + ", "">>, <<"t(1) - t(2) * ", "">>, <<"", " + t(2)">>, <<"- ", "">>, <<"t(1) == ", "">>,
  <<"t([t(1), ", ", t(2)])">>, <<"t([", "])">>, <<"t(#{ a: t(1), b: ", ", c: t(3) })">>, <<"t(7, ", ", 8)">>, <<"t(", ")">>,
  <<"lst[", " % 3]">>, <<"t([4, 5, 6][", " % 3])">>, <<"lst[t(0)] = ", "">>, <<"lst[1] += ", "">>, <<"lst[", " % 3] = t(9)">>,
  <<"obj.a = ", "">>, <<"obj.a += ", "">>, <<"obj.o.a -= ", "">>, <<"acc += ", "">>, <<"acc = 1 + ", "">>,
  <<"t(mb(1) ?? ", ")">>, <<"t(b() && 1 < ", ")">>, <<"t(b() || 1 < ", ")">>, <<"t(!(1 < ", "))">>, <<"", " |> t">>,
  <<"1 + ((", ") |> t)">>, <<"obj.f(t(1), ", ")">>, <<"obj.o.f(", ")">>, <<"mb(obj)?.f(1, ", ")">>, <<"t(mb(obj)?.l[", "])">>,
  <<"K(", ")">>, <<"K(1).add(", ")">>, <<"K(1) + ", "">>, <<"t(K.st(", "))">>, <<"(|x, y| x + y)(1, ", ")">>, <<"t((|x, y| x)(", ", 1))">>,
  <<"t(if ", " < 3 { t(1) } else { t(2) })">>, <<"t({ let y = t(3)\ny + ", " })">>, <<"let z = t(1) + ", "">>,
  <<"t(1) + { let q = 5 fs.push(|| { q })\nq + ", " }">>, <<"{ let mut q = 5 fs.push(|| { q += 1\nq })\nq = ", " }">>,
  <<"t(1) + if b() { 2 } else { ", " }">>, <<"t(1) + (Err(1) or e { e + ", " })">>, <<"t(1) + (Ok(", ") or e { 0 })">>,
  <<"for i in 0..", " { t(i) }">>, <<"for i in ", "..6 { t(i) }">>, <<"t(2 is Int == (2 < ", "))">>, <<"while more() && 1 < ", " { t(5) }">>,
  <<"t([1, [2, { let w = 8 w + ", " }], 3])">>, <<"let { a, l } = #{ a: 1, l: ", " }">> }
(* loops around a body *)
Loops == { <<"while more() { ", " }">>, <<"loop { if !more() { break }\n", " }">>, <<"for i in 0..2 { ", " }">>,
           <<"for i in [7, 8] { ", " }">>, <<"while { let c = more() c } { ", " }">> }
Exits == {"break", "continue"}
Cond(x) == "if b() { " \o x \o " } else { 5 }"
Pc(x) == "(" \o Cond(x) \o ")"

(* a loop left from the middle of an expression *)
ExitLoop(all_) == { Sc(Setup \o Fill(l, Fill(w, Pc(x)) \o NL \o "t(4)") \o Finish_, 3) : l \in Loops, w \in Pend, x \in Exits }
ExitLoop2(all_) == { Sc(Setup \o Fill(l, Fill(v, "(" \o Fill(w, Pc(x)) \o ")") \o NL \o "t(4)") \o Finish_, 3)
                 : l \in {<<"while more() { ", " }">>, <<"for i in [7, 8] { ", " }">>},
                   v \in {w \in Pend : w[1] \notin {"let z = t(1) + ", "let { a, l } = #{ a: 1, l: ", "while more() && 1 < "}
                                        /\ ~Starts(w[1], "for")},
                   w \in {w \in Pend : ~Starts(w[1], "let") /\ ~Starts(w[1], "for") /\ ~Starts(w[1], "whi")}, x \in Exits }
(* a function left from the middle of an expression *)
FnExits == { "return t(9)", "return { let k = 4 fs.push(|| { k }) k }", "return if b() { 1 } else { 2 }" }
ExitFn(all_) == { Sc(Setup \o "fn g(p) { let u = p fs.push(|| { u })\n" \o Fill(w, Pc(x)) \o "\nt(6)\n3 }\nt([t(0), g(1), g(2)])" \o Finish_, 3)
              : w \in Pend, x \in FnExits }
          \cup { Sc(Setup \o "fn rs(x) { if b() { Ok(x) } else { Err(x) } }\nfn g(p) { let u = p fs.push(|| { u })\n"
                    \o Fill(w, "rs(t(2))!!") \o "\nt(6)\n3 }\nt([t(0), g(1), 7 is Int])" \o Finish_, 3) : w \in Pend }
          \cup { Sc(Setup \o "fn g(p) { " \o Fill(l, Fill(w, Pc("return 9")) \o NL \o "t(4)") \o "\n3 }\nt([t(0), g(1), g(2)])" \o Finish_, 3)
                   : l \in {<<"while more() { ", " }">>, <<"for i in [7, 8] { ", " }">>, <<"for i in 0..2 { let s = i fs.push(|| { s })\n", " }">>}, w \in Pend }
          \cup { Sc(Setup \o "class D { fn new(self, v) { self.v = v\n" \o Fill(w, "(if b() { return } else { 5 })") \o "\nself.v = 11 }\n"
                    \o "fn m(self, v) { " \o Fill(w, "(if b() { return self.v } else { 5 })") \o "\n12 } }\n"
                    \o "let d = D(4)\nt(d.v)\nt([0, d.m(1), d.m(2)])" \o Finish_, 4) : w \in Pend }

(* an exit in any position of something with many pending operands *)
WideN == {5, 6, 7, 9, 12, 17}
WideForm == { <<"t([", "])">>, <<"t(wide(", "))">>, <<"t(W().m(", "))">>, <<"t(W.s(", "))">>, <<"1 + o.w(", ")">>, <<"t(mb(o)?.w(", "))">>, <<"t(#{ ", " })">>, <<"let z = 5\nt([t(0), [", "]])">>, <<"let z = V(", ")\nt(z.v)">> }
WideItems(f, n, i, x) == LET it(j) == (IF f[2] = " })" THEN "k" \o Num(j) \o ": " ELSE "") \o (IF j = i THEN x ELSE IF j = i - 1 THEN "t(" \o Num(j) \o ")" ELSE IF j = 2 THEN "{ let y = 2 fs.push(|| { y }) y }" ELSE Num(j))
                         RECURSIVE g(_) g(j) == IF j > n THEN "" ELSE (IF j = 1 THEN "" ELSE ", ") \o it(j) \o g(j + 1) IN g(1)
WidePar(n) == LET RECURSIVE g(_) g(j) == IF j > n THEN "" ELSE (IF j = 1 THEN "" ELSE ", ") \o "x" \o Num(j) \o g(j + 1) IN g(1)
WidePre(n) == "let fs = []\nfn wide(" \o WidePar(n) \o ") { [" \o WidePar(n) \o "] }\nlet o = #{ w: |" \o WidePar(n) \o "| { t([" \o WidePar(n) \o "])\nx1 } }\nclass V { fn new(self, " \o WidePar(n) \o ") { self.v = [" \o WidePar(n) \o "] } }\n"
              \o "class W { fn m(self, " \o WidePar(n) \o ") { [" \o WidePar(n) \o "] } fn s(" \o WidePar(n) \o ") { [" \o WidePar(n) \o "] } }\nfn rs(x) { if b() { Ok(x) } else { Err(x) } }\n"
WideBody == { <<"while more() { ", " }", "(if b() { break } else { 50 })">>, <<"for i in [7, 8] { ", " }", "(if b() { continue } else { i })">>, <<"for i in 0..2 { let u = 3 fs.push(|| { u })\n", " }", "(if b() { break } else { u })">>,
              <<"fn g() { let u = 4 fs.push(|| { u })\n", "\n60 }\nt([t(0), g(), g()])", "(if b() { return [1] } else { u })">>, <<"fn g() { ", "\n60 }\nt([t(0), g() == 60])", "rs(9)!!">>,
              <<"class G { fn new(self) { self.q = 1\n", "\nself.q = 2 } }\nt([t(0), G().q])", "(if b() { return } else { 51 })">>, <<"", "", "(if b() { 1 } else { [2, 3] })">> }
ExitWide(all_) == { Sc(WidePre(n) \o Fill(w, Fill(f, WideItems(f, n, i, w[3]))) \o "\nfor f in fs { t(f()) }\n0", 3) : f \in WideForm, w \in WideBody, n \in WideN, i \in {3, 4, 5, 6, 9, 12, 17} }
(* ------------------------------------------------------------------------ *)
(* closures: how the variable comes to be, what closes over it, how its     *)
(* scope is left *)
Birth == {
  <<"", "let mut v = t(p)\n", "">>,
  <<"{ let o1 = 1\n", "let mut v = t(p)\n", "}\nlet w1 = 70\nlet w2 = 71\nt(w1 + w2)\n">>,
  <<"if true { let o1 = 1\n", "let mut v = t(p)\n", "} else { t(0) }\nlet w1 = 70\nlet w2 = 71\nt(w1 + w2)\n">>,
  <<"for i in 0..2 { ", "let mut v = t(p + i)\n", "}\nlet w1 = 70\nlet w2 = 71\nt(w1 + w2)\n">>,
  <<"for i in [5, 6] { let j = i\n", "let mut v = t(p + j)\n", "}\n">>,
  <<"while more() { ", "let mut v = t(p)\n", "t(3) }\nlet w1 = 70\n">>,
  <<"let r = t(1) + { ", "let mut v = t(p)\n", "v }\nlet w1 = 70\nt(r)\n">>,
  <<"let mut { v } = #{ v: p }\n", "", "">>,
  <<"let g = |q| { ", "let mut v = q\n", "v }\nt(g(p))\nlet w1 = 70\n">> }
Caps == {
  "fs.push(|| { v += 1\nv })\nfs.push(|| { v * 10 })\n",
  "let h = || { let g = || { v += 1\nv }\ng }\nfs.push(h())\nfs.push(|| { v })\n",
  "fs.push((|| { let x = 5 let y = || { || { v += x\nv } } y })()())\nfs.push(|| { v })\n",
  "let k = v\nfs.push(|| { v += k\nv })\nv = 3\nfs.push(|| { k })\n",
  "fn n1() { v += 1\nv }\nfs.push(n1)\nclass Q { fn get(self) { v } fn inc(self) { v += 100 } }\nfs.push(Q().get)\nQ().inc()\n",
  "fs.push(|| { v = v + p\nv })\nlet mut w = 50\nfs.push(|| { w += v\nw })\n" }
Leave == { "", "v += 5\n", "if b() { return v }\n", "t([1, if b() { return v } else { v }])\n", "let lv = (if b() { Ok(v) } else { Err(v) })!!\n" }
LeaveLoop == { "if b() { break }\n", "if b() { continue }\n", "t(1) + (if b() { break } else { v })\n", "t([1, if b() { continue } else { v }, 2])\n" }
RunFs == "\nfor f in fs { t(f()) }\nfor f in fs { t(f()) }\n0"
Loopy(s) == Starts(s[1], "for") \/ Starts(s[1], "whi")
Clos(all_) == { Sc("let fs = []\nfn mk(p) { " \o s[1] \o s[2] \o c \o x \o s[3] \o "8 }\nt(mk(1))\nt(mk(20))" \o RunFs, 3)
            : s \in Birth, c \in Caps, x \in Leave }
        \cup { Sc("let fs = []\nfn mk(p) { " \o s[1] \o s[2] \o c \o x \o s[3] \o "8 }\nt(mk(1))\nt(mk(20))" \o RunFs, 3)
            : s \in {s \in Birth : Loopy(s)}, c \in Caps, x \in LeaveLoop }
        \cup { Sc("let fs = []\nlet p = 1\n" \o s[1] \o s[2] \o c \o x \o s[3] \o "t(8)" \o RunFs, 3)
            : s \in {s \in Birth : Loopy(s)}, c \in Caps, x \in LeaveLoop \cup {""} }
        \cup { Sc("let fs = []\nlet p = 1\n" \o s[1] \o s[2] \o c \o s[3] \o "t(8)" \o RunFs, 3) : s \in Birth, c \in Caps }
(* captures across three levels: which variables each level uses, in which  *)
(* order, so that every mixture of own, parent's and outer variables meets   *)
CapNames == {"a", "c", "p", "d", "q", "e"}
CapUse(x) == IF x \in {"p", "q"} THEN "t(" \o x \o ")\n" ELSE x \o " += 1\nt(" \o x \o ")\n"
CapPre(x) == IF x = "" THEN "" ELSE "let k_" \o x \o " = || { " \o CapUse(x) \o "0 }\nk_" \o x \o "()\n"
CapInner == { <<"let z = || { ", "8 }\nz">>, <<"fn z() { ", "8 } z">>, <<"class Z { fn m(self) { ", "8 } } Z().m">>, <<"let z = || { let k = || { ", "8 }\nk() }\nz">> }
CapSeqs == { <<x, y>> : x \in CapNames, y \in CapNames } \cup { <<x, y, z>> : x \in CapNames, y \in CapNames, z \in CapNames }
CapText(s) == CatFrom(LAMBDA i : CapUse(s[i]), 1, Len(s))
CapRun == "let g = f1(1000)(7000)\nlet h = f1(2000)(8000)\nt(g())\nt(h())\nt(g())\nt([a, c])\n0"
Cap(all_) == { Sc("let mut a = 1\nlet mut c = 20\n" \o o[1] \o "let mut d = 300\n" \o CapPre(x) \o "let f2 = |q| { let mut e = 5000\n" \o CapPre(y) \o Fill(i, CapText(s)) \o " }\nf2" \o o[2] \o NL \o CapRun, 1)
             : o \in { <<"fn f1(p) { ", " }">>, <<"let f1 = |p| { ", " }">>, <<"class F { fn f1(self, p) { ", " } }\nlet f1 = F().f1">> },
               x \in {"", "a", "c", "p", "d"}, y \in {""} \cup CapNames, i \in CapInner, s \in {q \in CapSeqs : q[1] # q[2] /\ q[1] # q[Len(q)]} }

(* captured things other than block locals *)
ClosKinds(all_) == { Sc("let fs = []\n" \o x \o RunFs, 3) : x \in {
   "fn mk(p) { fs.push(|| { p }) fs.push(|| { p + 1 }) 0 }\nmk(1)\nmk(2)",
   "fn mk(p, q, r) { fs.push(|| { r }) fs.push(|| { p }) fs.push(|| { q }) 0 }\nmk(1, 2, 3)\nmk(4, 5, 6)",
   "for i in 0..3 { fs.push(|| { i }) }", "for i in [4, 5, 6] { fs.push(|| { i }) }", "for i in 0..=2 { if b() { continue }\nfs.push(|| { i }) }",
   "for i in 0..3 { for j in 0..2 { fs.push(|| { i * 10 + j }) if b() { break } } }",
   "for i in 0..2 { let mut n = 0 for j in 0..2 { fs.push(|| { n += 1\nn * 100 + i * 10 + j }) } }",
   "(Err(4) or e { fs.push(|| { e }) 0 })", "let r = Err(4) or e { fs.push(|| { e }) e + 1 }\nt(r)",
   "class A { fn new(self, v) { self.v = v fs.push(|| { self.v }) } fn m(self) { fs.push(|| { self.v + 1 }) 0 } }\nlet a = A(3)\na.m()\na.v = 8",
   "class A { fn f(self) { 1 } }\nclass B : A { fn f(self) { fs.push(|| { super.f() + 10 }) 2 } }\nt(B().f())",
   "fn rec(n) { if n > 0 { fs.push(|| { n }) rec(n - 1) } else { 0 } }\nrec(3)",
   "fn f1() { f2() + 1 }\nfn f2() { 5 }\nfs.push(f1)", "fs.push(|| { g() })\nfn g() { 6 }",
   "fs.push(|| { C().v() })\nclass C { fn v(self) { 7 } }", "let mut x = 1\nfs.push(|| { x })\nlet x = 2\nfs.push(|| { x })",
   "let mut x = 1\nfs.push(|| { x += 1\nx })\nx = 10\n{ let x = 50 fs.push(|| { x }) }\nx += 1",
   "let a = 1\nlet c = 2\nlet d = 3\nlet e = 4\nfs.push(|| { d * 10 + a })\nfs.push(|| { (|| { e * 10 + c })() })\nfs.push(|| { c + (|| { a + (|| { d })() })() })",
   "let a = 1\nfn l1(x) { let m = x fn l2(y) { let n = y fn l3(z) { a * 1000 + m * 100 + n * 10 + z } l3 } l2 }\nfs.push(|| { l1(2)(3)(4) })",
   "let mut a = 1\nlet l = || { let mut q = 10 [|| { a += 1\nq += a\nq }, || { a + q }] }\nlet p1 = l()\nlet p2 = l()\nfs.push(p1[0])\nfs.push(p2[0])\nfs.push(p1[1])\nfs.push(p2[1])",
   "let mut fact = null\nfact = |n| if n <= 1 { 1 } else { n * fact(n - 1) }\nfs.push(|| { fact(4) })",
   "{ let mut s = 0 fs.push(|| { s += 1\ns }) { let u = 9 fs.push(|| { s += u\ns }) } let u2 = 5 fs.push(|| { s + u2 }) }\nlet z = 1\nlet y = 2",
   "let o = #{ n: 1 }\n{ let self2 = o fs.push(|| { self2.n += 1\nself2.n }) }\nlet k = 3",
   "import * as md from \"m\"\nfs.push(|| { md })" \o "" } }

(* ------------------------------------------------------------------------ *)
(* scopes: every short sequence of scope-relevant steps *)
ScopeMoves == <<"let x = N", "let mut y = N", "{", "}", "y = N", "t(x)", "t([x, y])", "y += x", "let x = x + N", "for x in 0..2 {",
                "fs.push(|| { t(x) })", "fs.push(|| { y += 1\nt(y) })", "if b() {", "(|y| {", "fn x() { N }", "let y = x" >>
Opens == {3, 10, 13, 14}
RECURSIVE Walk_(_, _, _, _)
Closer(o) == IF o = 14 THEN "t(y) })(N)" ELSE "}"
NumIn(s, i) == LET RECURSIVE f(_) f(j) == IF j > Len(s) THEN "" ELSE (IF SubSeq(s, j, j) = "N" THEN Num(i) ELSE SubSeq(s, j, j)) \o f(j + 1) IN f(1)
(* text so far, open constructs, moves left *)
Walk_(s, open, ms, i) ==
  IF ms = <<>> THEN (IF open = <<>> THEN {s} ELSE Walk_(s \o NumIn(Closer(open[Len(open)]), i) \o NL, SubSeq(open, 1, Len(open) - 1), <<>>, i + 1))
  ELSE LET m == Head(ms) IN
    IF m = 4 THEN (IF open = <<>> THEN {} ELSE Walk_(s \o NumIn(Closer(open[Len(open)]), i) \o NL, SubSeq(open, 1, Len(open) - 1), Tail(ms), i + 1))
    ELSE Walk_(s \o NumIn(ScopeMoves[m], i) \o NL, IF m \in Opens THEN Append(open, m) ELSE open, Tail(ms), i + 1)
ScopeAll(all_) == UNION { Walk_("let fs = []\nlet x = 100\nlet mut y = 200\n", <<>>, [j \in 1..N |-> ms[j]], 1)
                      : ms \in {q \in [1..N -> 1..16] : q[1] # 4} }
Scope(all_) == { Sc(s \o "for f in fs { f() }\nt([x, y])\n0", 2) : s \in ScopeAll(all_) }

(* every three declarations in a row, each followed by reads of all of them *)
DeclKinds_ == 1 .. 13
DeclOf(k, i) ==
  CASE k = 1 -> "let v" \o i \o " = t(" \o i \o ")\n"
    [] k = 2 -> "let mut v" \o i \o " = t(" \o i \o ")\nv" \o i \o " += 10\n"
    [] k = 3 -> "let { v" \o i \o ", w" \o i \o ", u" \o i \o " } = #{ v" \o i \o ": 1" \o i \o ", w" \o i \o ": 2" \o i \o ", u" \o i \o ": 3" \o i \o " }\nt([w" \o i \o ", u" \o i \o "])\n"
    [] k = 4 -> "fn v" \o i \o "() { " \o i \o " }\n"
    [] k = 5 -> "class v" \o i \o " { fn s() { 4" \o i \o " } fn new(self) { self.k = v" \o i \o ".s() } }\n"
    [] k = 6 -> "for q in 0..2 { let z = q + " \o i \o " fs.push(|| z) }\nlet v" \o i \o " = 6" \o i \o "\n"
    [] k = 7 -> "{ let z = " \o i \o "\nlet y = 2\nfs.push(|| z + y) }\nlet v" \o i \o " = 7" \o i \o "\n"
    [] k = 8 -> "let v" \o i \o " = { let z = " \o i \o "\nz + 80 }\n"
    [] k = 9 -> "let v" \o i \o " = Err(" \o i \o ") or e { let z = e z + 90 }\n"
    [] k = 10 -> "let { v" \o i \o " } = #{ v" \o i \o ": 5" \o i \o " }\n"
    [] k = 11 -> "let v" \o i \o " = |p| { let z = p + " \o i \o " z }\n"
    [] k = 12 -> "let v" \o i \o " = (if b() { let z = " \o i \o " z } else { let z = 1 let y = 2 y })\n"
    [] k = 13 -> "while more() { let z = " \o i \o " t(z) }\nlet mut { v" \o i \o ", w" \o i \o " } = #{ v" \o i \o ": 1, w" \o i \o ": 2 }\nw" \o i \o " += v" \o i \o "\nt(w" \o i \o ")\n"
DeclRead(k, i) == CASE k = 3 -> "[v" \o i \o ", w" \o i \o ", u" \o i \o "]" [] k = 13 -> "[v" \o i \o ", w" \o i \o "]"
                    [] OTHER -> "v" \o i \o (CASE k = 4 -> "()" [] k = 5 -> ".s()" [] k = 11 -> "(1)" [] OTHER -> "")
DeclSeq(all_) == { Sc(w[1] \o DeclOf(x, "1") \o DeclOf(y, "2") \o "t([" \o DeclRead(x, "1") \o ", " \o DeclRead(y, "2") \o "])\n" \o DeclOf(z, "3")
                        \o "fs.push(|| [" \o DeclRead(z, "3") \o ", " \o DeclRead(x, "1") \o "])\nt([" \o DeclRead(x, "1") \o ", " \o DeclRead(y, "2") \o ", " \o DeclRead(z, "3") \o "])\n" \o w[2] \o "for f in fs { t(f()) }\n0", 2) :
                    x \in DeclKinds_, y \in DeclKinds_, z \in DeclKinds_,
                    w \in { <<"let fs = []\n", "">>, <<"let fs = []\nfn f(a, c) { ", "a + c }\nt(f(1, 2))\n">>, <<"let fs = []\nfor j in 0..2 { let d = j\n{ ", "t(d) } }\n">> } }

(* ------------------------------------------------------------------------ *)
(* reassignment *)
Decls == {
  <<"let v = 1\n", "">>, <<"let mut v = 1\n", "">>, <<"let { v } = #{ v: 1 }\n", "">>, <<"let mut { v } = #{ v: 1 }\n", "">>,
  <<"let mut { v, w } = #{ v: 1, w: 2 }\n", "">>, <<"fn g(v) { ", "\n0 }\ng(1)">>, <<"(|v| { ", "\n0 })(1)">>, <<"for v in 0..2 { ", " }">>,
  <<"for v in [1, 2] { ", " }">>, <<"for v in 0..=2 { ", " }">>, <<"let q = 0..2\nfor v in q { ", " }">>, <<"for v in (0..2) { ", " }">>, <<"let v = |x| x\n", "">>, <<"let o = Ok(1)\nfor v in 1..=(o or e { 2 }) { ", " }">>, <<"t(Err(1) or v { ", "\n0 })">>, <<"fn v() { 1 }\n", "">>, <<"class v { }\n", "">>,
  <<"class A { fn m(self, v) { ", "\n0 } }\nA().m(1)">>, <<"class A { fn new(self, v) { ", " } }\nA(1)">>, <<"class A { fn s(v) { ", "\n0 } }\nA.s(1)">>,
  <<"class A { op +(self, v) { ", "\n0 } }\nA() + 1">>, <<"op +(v, w) { ", "\n0 }">>,
  <<"", "">>, <<"let mut v = 1\n{ let v = 2\n", "}">>, <<"let v = 1\n{ let mut v = 2\n", "}">>, <<"let mut v = 1\nlet v = 2\n", "">>,
  <<"let v = 1\nlet mut v = 2\n", "">>, <<"let mut v = 1\nfor v in 0..2 { ", " }">>, <<"let mut v = 1\nfn h(v) { ", "\n0 }\nh(1)">>,
  <<"{ let mut v = 1 }\n", "">>, <<"let mut u = 1\nlet v = u\n", "">> }
Spots == { <<"", "">>, <<"{ ", " }">>, <<"if true { ", " }">>, <<"(|| { ", " })()">>, <<"(|| { (|| { ", " })() })()">>, <<"for q in 0..1 { ", " }">>,
           <<"fn h2() { ", " }\nh2()">>, <<"let q = { ", "\n1 }">>, <<"class Z { fn m(self) { ", " } }\nZ().m()">>, <<"while more() { (|| { ", " })() }">>,
           <<"t([1, { ", "\n2 }])">>, <<"(|| { let z = 1 || { let y = z || { ", " } } })()()()">> }
Asgs == { "v = 2", "v += 1", "v -= 1", "v *= 2", "v /= 1" }
Mut(all_) == { Sc(Fill(d, Fill(p, a) \o (IF d[1] = "" THEN "" ELSE "\nt(v is Int)\nt(v)")) \o "\n0", 2) : d \in Decls, p \in Spots, a \in Asgs }
MutSelf(all_) == { Sc(Fill(c, Fill(p, a)) \o "\n0", 2) :
               c \in { <<"class A { fn m(self) { ", "\n0 } }">>, <<"class A { fn new(self) { ", " } }">>, <<"let A = 1\nclass B { fn m(self) { ", "\n0 } }">>,
                       <<"class A { fn m(self) { fn A2() { 1 }\n", "\n0 } }">> },
               p \in Spots, a \in {"self = 1", "self += 1", "A = 1", "self.x = 1", "A.x = 1", "A2 = 3"} }
MutImport(all_) == { Pm(i \o "\n" \o Fill(p, a) \o "\n0", <<[p |-> "m", t |-> "export let q = 1 export fn f() { 2 }"]>>, 2) :
               i \in {"import { q, f } from \"m\"", "import * as q from \"m\"", "import * as z, { q } from \"m\""},
               p \in Spots, a \in {"q = 1", "q += 1", "f = 1", "z = 2", "q.x = 1"} }
MutPlace(all_) == { Sc("let mut v = 1\nlet o = #{ a: 1, l: [1, 2] }\nlet l = [1, 2]\nfn f() { o }\n" \o Fill(p, a) \o "\nt(o.a)\nt(l)\nt(v)\n0", 2) :
              p \in { <<"", "">>, <<"{ ", " }">>, <<"(|| { ", " })()">>, <<"for q in 0..1 { ", " }">> },
              a \in { "1 = 2", "f() = 1", "v + 1 = 2", "(v) = 2", "[v] = 2", "o.a = 2", "o.a += 2", "o.l[0] = 5", "o.l[1] *= 5", "l[0] = 3", "l[1] += 4",
                      "f().a = 7", "f().a -= 7", "f().l[0] = 2", "-v = 2", "!v = 2", "v is Int = 2", "null = 1", "\"s\" = 1", "true = 1", "#{ a: 1 } = 2",
                      "if true { v } else { v } = 2", "f() += 1", "1 += 2", "v = o.a = 4", "v = v += 1", "v = l[0] = 9", "{ v } = 3", "u = 1", "u += 1", "t = 1",
                      "Int = 2", "o[\"a\"] = 5", "o[\"a\"] += 5", "(o).a = 6", "(|| o)().a = 8", "v ?? 1 = 2", "v |> t = 3", "v..2 = 3", "[1, 2][0] = 5", "o?.a = 3" } }
MutFirst(all_) == { Sc(p \o a \o q, 2) : p \in {"", "fn f() { 1 }\n", "class v { }\n"}, a \in {"v = 1\n", "v += 1\n", "(|| { v = 1 })\n", "{ v = 2 }\n"},
              q \in {"let mut v = 1", "fn v() { 1 }", "class v { }", "let v = 1", "0"} }

(* ------------------------------------------------------------------------ *)
(* control keywords in every context *)
Ctx == {
  <<"", "">>, <<"{ ", "\n0 }">>, <<"if true { ", "\n0 }">>, <<"if false { 1 } else { ", "\n0 }">>, <<"loop { ", "\n0 }">>, <<"while b() { ", "\n0 }">>,
  <<"while { ", "\nfalse } { 1 }">>, <<"for i in 0..2 { ", "\n0 }">>, <<"for i in { ", "\n[1] } { 1 }">>, <<"for i in 0..{ ", "\n1 } { 1 }">>,
  <<"fn f() { ", "\n0 }">>, <<"let f = || { ", "\n0 }">>, <<"class A { fn m(self) { ", "\n0 } }">>, <<"class A { fn new(self) { ", " } }">>,
  <<"class A : Any { fn new(self) { super()\n", " } }">>, <<"class A : Any { fn m(self) { ", "\n0 } }">>, <<"class A { fn s() { ", "\n0 } }">>,
  <<"class A : Any { fn new(self) { super({ ", "\n1 }) } }">>, <<"class A { op +(self, o) { ", "\n0 } }">>, <<"op +(l, r) { ", "\n0 }">>,
  <<"let q = [1, { ", "\n0 }]">>, <<"Ok(1) or e { ", "\n0 }">>, <<"class A : { ", "\nAny } { }">>, <<"t(1, { ", "\n0 })">>, <<"let q = { ", "\n0 }">>,
  <<"if { ", "\ntrue } { 1 }">>, <<"fn f() -> Int { ", "\n0 }">>, <<"(|x| { ", "\nx })(1)">>, <<"let f = |x| x + { ", "\n0 }">> }
Keys == { "return", "return 1", "return { 1 }", "Ok(1)!!", "Ok(1)!!.x", "break", "continue", "super.x", "super.x(1)", "super[Any].x", "super(1)",
          "let z = super.x", "export let q = 1", "export fn q() { 1 }", "export class Q { }", "let q = 1 export q", "import { a } from \"m\"", "import * as a from \"m\"" }
KwStmt(c, x) == IF x = "return" THEN Fill(c, "if b() { return }") ELSE Fill(c, x)
Kw(all_) == { [t |-> KwStmt(c, x) \o "\n0", k |-> k, m |-> <<>>, b |-> 2] : c \in Ctx, x \in Keys, k \in {"s", "m"} }
Kw2(all_) == { [t |-> Fill(c, KwStmt(d, x)) \o "\n0", k |-> k, m |-> <<>>, b |-> 2] : c \in Ctx, d \in Ctx, x \in Keys, k \in {"s", "m"} }
Kw3(all_) == { [t |-> Fill(c, Fill(d, KwStmt(e, x))) \o "\n0", k |-> "m", m |-> <<>>, b |-> 2] : c \in Ctx, d \in Ctx, e \in Ctx,
           x \in {"return 1", "return", "Ok(1)!!", "break", "continue", "super.x", "super(1)", "export let q = 1"} }

(* ------------------------------------------------------------------------ *)
(* declarations in one block *)
Makers == { "fn n() { 1 }", "class n { }", "let n = 1", "let mut n = 1", "let { n } = #{ n: 1 }", "for n in 0..1 { t(n) }", "import { n } from \"m\"",
            "import * as n from \"m\"", "{ fn n() { 2 } }", "{ class n { } }", "{ let n = 2 }", "export fn n() { 1 }", "export class n { }", "export let n = 1",
            "fn h(n) { n }", "fn h() { fn n() { 3 } n() }", "class H { fn n(self) { 1 } fn n(self) { 2 } }", "t(n)", "n()", "(|| { n })()", "let k = |n| { n }" }
ModM == <<[p |-> "m", t |-> "export let n = 1"]>>
Dup2(all_) == { [t |-> a \o NL \o b \o "\n0", k |-> k, m |-> ModM, b |-> 2] : a \in Makers, b \in Makers, k \in {"s", "m"} }
DupIn(all_) == { [t |-> Fill(w, a \o NL \o b) \o "\n0", k |-> "s", m |-> ModM, b |-> 2] : a \in Makers, b \in Makers,
             w \in { <<"fn o(n) { ", "\n0 }\no(1)">>, <<"{ ", " }">>, <<"for n in 0..2 { ", " }">>, <<"(|n| { ", "\n0 })(1)">>, <<"let r = if true { ", "\n5 } else { 6 }\nt(r)">>,
                     <<"class P { fn m(self, n) { ", "\n0 } }\nP().m(1)">>, <<"class n { fn m(self) { ", "\n0 } }\nn().m()">>, <<"t(Err(1) or n { ", "\n0 })">>,
                     <<"fn o() { { ", " }\n0 }\no()">> } }
Dup3(all_) == { [t |-> a \o NL \o b \o NL \o c \o "\n0", k |-> "s", m |-> ModM, b |-> 2] :
            a \in {"fn n() { 1 }", "class n { }", "let n = 1", "{ fn n() { 2 } }"}, b \in Makers, c \in {"fn n() { 1 }", "class n { }", "let n = 1", "t(n)", "n()"} }
HUses == { "t(n)", "n()", "(|| { n() })", "let u = || { n() }\nt(u is Function)", "fn u() { n() }", "fn u() { n() }\nu()", "let z = n", "n = 1", "class Z : n { }", "fn u(x: n) { x }",
           "(|x: n| { x })", "fn u() -> n { n() }", "t(1 is n)", "fn u() { 1 is n }", "n.x", "let n = 5", "[n]", "#{ a: n }", "for n in 0..1 { t(n) }",
           "for i in n { t(i) }", "class Z { fn m(self) { n() } }\nt(Z is Class)", "if true { n() }", "{ n() }", "{ fn n() { 7 } n() }", "(|| { (|| { n() }) })", "export n", "n |> t",
           "class Z { fn m(self, x: n) { x } }", "t(true && n is Any)", "while false { n }", "fn w() { fn n() { 8 } n() }\nt(w())" }
Hoist_(all_) == { [t |-> a \o NL \o b \o "\n0", k |-> k, m |-> <<>>, b |-> 2] : a \in HUses, b \in {"fn n() { 1 }", "class n { }", "{ fn n() { 1 } }", "export fn n() { 1 }"}, k \in {"s", "m"} }
         \cup { [t |-> b \o NL \o a \o "\n0", k |-> k, m |-> <<>>, b |-> 2] : a \in HUses, b \in {"fn n() { 1 }", "class n { }", "{ fn n() { 1 } }", "export class n { }"}, k \in {"s", "m"} }
         \cup { Sc(Fill(w, a \o NL \o b) \o "\n0", 2) : a \in HUses, b \in {"fn n() { 1 }", "class n { }"},
                   w \in { <<"fn o() { ", "\n0 }\no()">>, <<"{ ", " }">>, <<"for q in 0..2 { ", " }">>, <<"(|| { ", "\n0 })()">>, <<"class P { fn m(self) { ", "\n0 } }\nP().m()">>,
                           <<"fn n() { 9 }\n{ ", " }">>, <<"let n = || { 4 }\n{ ", " }">>, <<"while more() { ", " }">> } }
ParamDup(all_) == { Sc(Fill(h, p) \o "\n0", 2) : h \in { <<"fn f(", ") { 0 }">>, <<"|", "| { 0 }">>, <<"class A { fn m(", ") { 0 } }">>, <<"class A { fn s(", ") { 0 } }">>,
                   <<"class A { op +(", ") { 0 } }">>, <<"op +(", ") { 0 }">>, <<"class A { fn new(", ") { } }">>, <<"let g = |", "| 0">>, <<"{ fn f(", ") { 0 } }">> },
               p \in {"a, a", "a, c", "a, c, a", "a: Int, a", "a, c, c", "self, a, a", "self, a", "self, self", "a: Int, c: Int?", "a, b, c, d, a", "a", "self, a, c, d", "x, y, X"} }

(* ------------------------------------------------------------------------ *)
(* classes *)
ClassUse == "\nlet o = C(t(4))\nt(o.v)\nt(o.get())\nt(o.dbl(t(3)))\nt(C.mk(5))\nlet g = o.get\nt(g())\no.set(7)\nt(o.v)\nt(g())\nt(o is C)\nt(1 is C)\nt(C is Class)\nt(o)\n0"
ClassBase == "class C { fn new(self, v) { self.v = v\nt(1) } fn get(self) { self.v } fn dbl(self, x) { x * 2 + self.get() } fn set(self, n) { self.v = n } fn mk(x) { x + 1 } "
Derived == { "fn new(self, v) { super(v + 1) self.w = 2 } ", "fn new(self) { super(9) } ", "fn new(self, v) { super(v)\nif b() { return }\nself.v = 50 } ",
             "fn new(self, v) { super([v, 2][0]) (|| { self.v += 1 })() } ", "" }
Overrides == { "", "fn get(self) { super.get() + 100 } ", "fn get(self) { super[C].get() + 100 } ", "fn dbl(self, x) { self.get() + super.dbl(x) } ", "fn get(self) { (|| { super.get() * 2 })() } ",
               "fn mk(x) { x + 10 } ", "fn extra(self) { self.v } ", "fn set(self, n) { super.set(n * 2) } ", "fn get(self) { let m = super.get m() + 1 } " }
Classes(all_) == { Sc(ClassBase \o "}" \o ClassUse, 2), Sc(ClassBase \o "fn get(self) { 77 } }" \o ClassUse, 2) }
        \cup { Sc(ClassBase \o "}\nclass D : C { " \o d \o o \o p \o "}\nlet x = D(t(6))\nt(x.v)\nt(x.w)\nt(x.get())\nt(x.dbl(2))\nx.set(3)\nt(x.get())\nt(x is C)\nt(x is D)\nt(D.mk(1))\nt(C(8).get())\n0", 3)
                 : d \in Derived, o \in Overrides, p \in Overrides }
        \cup { Sc(ClassBase \o "}\nclass D : C { " \o d \o o \o "}\nclass E : D { " \o e \o p \o "}\nlet x = E(t(6))\nt(x.v)\nt(x.get())\nt(x.dbl(2))\nx.set(3)\nt(x.get())\nt(x is D)\nt(E.mk(1))\n0", 3)
                 : d \in Derived, e \in Derived, o \in Overrides, p \in Overrides }
Malformed_(all_) == { Sc(Fill(c, m) \o "\n0", 2) :
   c \in { <<"class A { ", " }">>, <<"class A : Any { ", " }">>, <<"{ class A { ", " } }">>, <<"class A { fn ok(self) { 1 } ", " fn ok2() { 2 } }">>, <<"fn f() { class A { ", " } A }">>, <<"class Z { }\nclass A : Z { fn new(self) { super() } ", " }">> },
   m \in { "fn m(self: Int) { 1 }", "fn m(self: A?) { 1 }", "op +(self: Int, o) { 1 }", "fn new() { }", "fn new(x) { }", "fn new(self) -> Int { }", "fn new(self) -> A { }", "fn new(self) { return 1 }",
           "fn new(self) { return }", "fn new(self) { if b() { return 5 } }", "fn new(self) { }", "fn new(self) { self.x = 1 super() }", "fn new(self) { super() self.x = 1 }", "fn new(self) { super(1, 2) }",
           "fn new(self) { { super() } }", "fn new(self) { let x = super() }", "fn new(self) { (|| { return 3 })() }", "fn new(self) { super() (|| { return 3 })() }", "op +(a, b) { 1 }", "op *() { 1 }", "op +(self) { 1 }", "op -(self, o) { 1 }",
           "fn m(self, self) { 1 }", "fn m(x, self) { 1 }", "fn m(x, self: Int) { 1 }", "fn s(x) { self }", "fn s(x) { super.m() }", "fn new(self: A) { }", "fn new(self: A, x) { super() }", "fn new(x, self) { }", "fn new(self) { super() return 1 }", "fn new(self) { super() return }",
           "fn m(self) { return }", "fn m(self) { return 1 }", "fn new(self, a: Int) { super() }", "fn new(self) { super() Ok(1)!! }", "fn new(self) { super() fn k() { return 2 } k() }" } }
ClassMisc(all_) == { Sc(x \o "\n0", 3) : x \in {
   "class A { }\nlet a = A()\na.x = 1\nt(a.x)\nt(a)\nt(a.y)", "class A { fn s() { 1 } fn u(x, y) { [x, y] } }\nt(A.s())\nt(A.u(1, 2))\nlet k = A.u\nt(k(3))",
   "class A { fn m(self) { A } fn n() { A } }\nt(A().m())\nt(A.n())", "class A { fn new(self) { self.l = [] } fn add(self, x) { self.l.push(x) self } }\nt(A().add(1).add(2).l)",
   "class A { fn new(self, x) { self.x = x } fn f(self) { |y| { self.x += y\nself.x } } }\nlet f = A(1).f()\nt(f(2))\nt(f(3))",
   "class A { fn f(self) { 1 } }\nclass B : A { fn f(self) { 2 } fn g(self) { [self.f(), super.f(), super[A].f()] } }\nclass C : B { fn f(self) { 3 } fn h(self) { [super.f(), super[A].f(), super[B].f()] } }\nt(C().g())\nt(C().h())",
   "class A { fn new(self, x) { self.x = x } }\nclass B : A { fn new(self, x, y) { super(x) self.y = y } }\nlet q = B(1, 2)\nt([q.x, q.y])\nt(q is A)", "let k = { class A { fn v(self) { 4 } } A }\nt(k().v())",
   "class A { fn f(self) { g() } }\nfn g() { 5 }\nt(A().f())", "class A { fn f(self) { B().v() } }\nclass B { fn v(self) { 6 } }\nt(A().f())", "class A { fn f(self, n) { if n == 0 { 0 } else { n + self.f(n - 1) } } }\nt(A().f(4))",
   "fn mk(n) { class A { fn v(self) { n } } A }\nt(mk(1)().v())\nt(mk(2)().v())", "class A { fn v(self) { self.w } }\nlet a = A()\na.w = 3\nlet b1 = A()\nb1.w = 4\nt(a.v())\nt(b1.v())\nlet m = a.v\na.w = 5\nt(m())",
   "class A { fn v(self) { 1 } }\nlet a = A()\na.v = || { 9 }\nt(a.v())", "class A { fn new(self) { self.x = 1 } }\nclass B : A { }\nt(B().x)", "class A { fn new(self, x) { self.x = x } }\nclass B : A { }\nt(B(3))",
   "class A { fn new(self, x) { self.x = x } }\nclass B : A { fn new(self) { super(t(1)) t(self.x) } }\nclass C : B { fn new(self) { super() t(self.x + 1) } }\nt(C())", "class A : Any { }\nt(A() is Any)", "let Base = { class Q { fn q(self) { 8 } } Q }\nclass A : Base { fn q(self) { super.q() + 1 } }\nt(A().q())",
   "class A { fn m(self) { 1 } }\nclass B : A { fn m(self) { let f = |x| { super.m() + x }\nf(1) + f(2) } }\nt(B().m())", "class A { fn m(self) { 1 } }\nclass B : A { fn m(self) { class I : A { fn m(self) { super.m() + 20 } }\nI().m() + super.m() } }\nt(B().m())",
   "class A { fn a(self) { 1 } fn c(self) { 2 } fn d(self) { 3 } }\nlet x = A()\nt([x.d(), x.a(), x.c()])", "class A { fn new(self, v) { self.v = v t(v) } }\nt([A(1).v, A(2).v])\nt(A(A(3).v + 1).v)", "class A { fn is_x(self) { self is A } }\nt(A().is_x())",
   "class A { fn new(self) { self.cb = || { self.n } self.n = 4 } }\nt(A().cb())", "class A { fn get(self) { 1 } }\nlet r = A().get\nclass B { fn new(self) { self.f = r } }\nt(B().f())", "class A { fn x(self, f) { f(self) } }\nt(A().x(|s| { s is A }))",
   "let mut n = 0\nclass A { fn new(self) { n += 1\nself.id = n } }\nA()\nA()\nt(A().id)\nt(n)" } }

(* ------------------------------------------------------------------------ *)
(* declared types *)
Vals == { "1", "1.5", "true", "\"s\"", "null", "{ let z = 1 }", "#{ a: 1 }", "t", "(|| 1)", "[1]", "A()", "B()", "A", "A().m" }
Types == { "Int", "Float", "Bool", "String", "Any", "Function", "Array", "Class", "Unit", "A", "B" }
TyPre == "class A { fn m(self) { 1 } }\nclass B : A { }\n"
TyForms == {
  <<"fn f(x: ", ") { t(5)\nx }\nt(f(", "))">>, <<"fn f(w, x: ", ", y) { t(5)\n[w, x, y] }\nt(f(1, ", ", 2))">>, <<"t((|x: ", "| x)(", "))">>, <<"t((|x: ", "| { t(6)\nx })(", "))">>,
  <<"fn f(x) -> ", " { x }\nt(f(", "))">>, <<"fn f(x) -> ", " { if b() { return x }\nt(6)\nx }\nt(f(", "))">>, <<"fn f(x) -> ", " { t([1, if b() { return x } else { 2 }])\nx }\nt(f(", "))">>,
  <<"fn f(x) -> ", " { for i in 0..2 { let q = i let qq = (|| q)() return x }\nx }\nt(f(", "))">>, <<"fn f(x) -> ", " { (#{ is_ok: b(), result: 1 })!!\nx }\nt(f(", "))">>,
  <<"class Z { fn m(self, x: ", ") { t(5)\nx } }\nt(Z().m(", "))">>, <<"class Z { fn m(self, x) -> ", " { if b() { return x }\nx } }\nt(Z().m(", "))">>, <<"class Z { fn m(x) -> ", " { x } }\nt(Z.m(", "))">>,
  <<"class Z { fn new(self, x: ", ") { self.x = x } }\nt(Z(", ").x)">>, <<"class Z { op +(self, x: ", ") { x } }\nt(Z() + (", "))">>, <<"class Z { op +(self, x) -> ", " { x } }\nt(Z() + (", "))">>,
  <<"op *(l, x) -> ", " { x }\nt(#{ } * (", "))">>, <<"op *(l, x: ", ") { x }\nt(#{ } * (", "))">>,
  <<"fn f(x) -> ", " { { let c = x let cc = (|| c)() return c } }\nt(f(", "))">>, <<"fn f(x) -> ", " { let q = x\nreturn (|| q)() }\nt(f(", "))">> }
Typed(all_) == { Sc(TyPre \o f[1] \o ty \o q \o f[2] \o v \o f[3] \o "\n0", 2) : f \in TyForms, ty \in Types, q \in {"", "?"}, v \in Vals }
TypedIs(all_) == { Sc(TyPre \o "t(" \o v \o " is " \o ty \o q \o ")\nt(t(" \o v \o ") is " \o ty \o q \o " == true)\n0", 2) : ty \in Types, q \in {"", "?"}, v \in Vals }
TypedMisc(all_) == { Sc(TyPre \o x \o "\n0", 3) : x \in {
   "fn f(a: Int, c: String, d: Bool) { [a, c, d] }\nt(f(1, \"s\", true))\nt(f(\"s\", 1, true))", "fn f(a: Int, c: String?) { c }\nt(f(1))\nt(f(1, \"x\"))\nt(f(1, 2))", "fn f(a: Int) { a }\nt(f())", "fn f(a: Int?) { a }\nt(f())",
   "fn f(n: Int) -> Int { if n <= 0 { return 0 }\nn + f(n - 1) }\nt(f(3))", "fn f(n) -> Int { if b() { 1 } else { \"s\" } }\nt(f(1))", "fn f() -> Int { }\nt(f())", "fn f() -> Unit { }\nt(f())", "fn f() -> Int? { null }\nt(f())",
   "fn f(x: Int) -> String { \"r\" }\nt(f(f(1)))", "fn f(x: Nope) { x }\nt(1)\nf(1)", "fn f(x) -> Nope { x }\nt(1)\nf(1)", "let T = Int\nfn f(x: T) { x }\nt(f(2))", "fn f(T, x: T) { x }\nt(f(Int, 2))\nt(f(String, 2))", "fn f(x: 1) { x }",
   "let one = 1\nfn f(x: one) { x }\nt(f(2))", "fn f(x) -> A { if b() { A() } else { B() } }\nt(f(1) is A)", "fn f(x) -> B { if b() { return A() }\nB() }\nt(f(1) is A)", "class S { fn me(self) -> S { self } fn no(self) -> A { self } }\nt(S().me() is S)\nt(S().no())",
   "fn f(x: Int) { x = 1\nx }", "let f = |x: Int, y: Int?| { x + (y ?? 10) }\nt(f(1))\nt(f(1, 2))\nt(f(null))", "fn f(x: Array) -> Int { for v in x { if b() { return v } }\nreturn 9 }\nt(f([1, 2]))", "fn outer() -> Int { fn f() -> String { return \"s\" }\nf()\nreturn 3 }\nt(outer())",
   "fn f() -> Int { (|| { return \"s\" })()\n4 }\nt(f())", "fn f(x: Any) { x }\nt(f(null))", "fn f(x: Any?) { x }\nt(f(null))", "fn f() -> Any { null }\nt(f())" } }

(* a body that declares a name its own signature uses: the signature keeps the meaning it has where it stands *)
TyOwn == <<"let Int = String", "let mut Int = 4\nInt = String", "class Int { }", "fn Int() { 3 }\nt(Int())", "{ let Int = String\nt(Int is Class) }", "for Int in 0..2 { if b() { return Int } }", "let { Int } = #{ Int: Bool }",
           "let g = |Int| Int\nt(g(2))", "if b() { let Int = String\nreturn 7 }", "while more() { let Int = Bool\nif b() { return 8 } }", "let h = Err(3) or Int { t(Int)\nreturn 4 }", "fn g() -> Int { let Int = Bool\n5 }\nt(g())",
           "fn g(Int) -> Int { let Int = Int\nlet Int = Bool\n5 }\nt(g(Any))", "let k = || Int\nlet Int = String\nt(k() is Class)", "let x = 2\nlet Int = 1\n{ let Int = x\n{ if b() { return Int } } }">>
TyEnd == <<"\n5", "\nreturn 6", "\n\"s\"", "\nreturn \"s\"", "\nOk(1)!!", "\nErr(2)!!\n3", "\nlet k = || Int\nt(k() == 1)\n1", "\nif b() { return null }\n\"s\"">>
TyFn(i, k, ty) == CASE k = 1 -> "fn f() -> " \o ty \o " {\n" \o i \o " }\nt(f())\n"
     [] k = 2 -> "fn f(x: " \o ty \o ", y) -> " \o ty \o "? {\n" \o i \o " }\nt(f(1, 2))\n"
     [] k = 3 -> "class C { fn f(self, x) -> " \o ty \o " {\n" \o i \o " } fn g() -> " \o ty \o " {\n" \o i \o " } }\nt(C.g())\nt(C().f(3))\n"
     [] k = 4 -> "class C { op +(self, x) -> " \o ty \o " {\n" \o i \o " } }\nt(C() + 3)\n"
     [] k = 5 -> "fn o(z) { fn f(w) -> " \o ty \o " { let v = [w, z]\n" \o i \o " }\nf }\nt(o(2)(1))\n"
TypeShadow(all_) == { Sc(x \o "0", 3) : x \in { TyFn(TyOwn[i] \o TyEnd[j], k, "Int") : i \in 1..Len(TyOwn), j \in 1..Len(TyEnd), k \in 1..5 }
    \cup { "let Int = " \o a \o "\n" \o TyFn(TyOwn[i] \o TyEnd[j], k, "Int") : a \in {"String", "Int"}, i \in {1, 3, 9}, j \in {1, 4, 6}, k \in {1, 3, 5} }
    \cup { "class A { fn m(self) { 1 } }\nfn f() -> A { " \o i \o " }\nt(f() is A)\n" : i \in {"class A { fn m(self) { 2 } }\nA()", "fn A() { 4 }\nA()", "let B = A\nlet A = Int\nB()", "let B = A()\n{ class A { }\nif b() { return A() }\n}\nB", "class C : A { }\nlet A = C\nA()"} } }
(* a class without a base has the built in base, whatever else is called Any *)
AnyUse == <<"class A { fn new(self, x) { self.x = x } fn m(self) { self.x } fn s() { 8 } op +(self, o) { [self.x, o] } }\nlet o = A(4)\nt([o.x, o.m(), A.s(), o + 1])\nt(o is A)", "class A { }\nclass C : A { fn n(self) { 3 } }\nt(C().n())\nt(C() is A)\nt(A().zz)", "class A { }\nt(A().zz)\nt(A.zz)",
            "class A { fn m(self) { super.zz } }\nt(A().m())", "class A { fn mk() { class C { }\nC() } }\nlet o = A.mk()\nt(o.zz)", "for i in 0..2 { class A { fn m(self) { i } }\nt(A().m()) }">>
AnyShadow(all_) == { Sc(x \o "\n0", 3) : x \in UNION { { d \o "\n" \o AnyUse[i], "fn f() { " \o d \o "\n" \o AnyUse[i] \o " }\nf()", "fn f() { " \o AnyUse[i] \o " }\n" \o d \o "\nf()", d \o "\nfn f() { (|| { " \o AnyUse[i] \o " })() }\nf()", "{ " \o d \o "\nt(1) }\n" \o AnyUse[i] }
                : d \in {"let Any = 5", "let mut Any = null\nAny = Int", "class Any { fn zz(self) { 7 } }", "fn Any() { 3 }", "let Any = #{ zz: 1 }", "let Result = 1"}, i \in 1..Len(AnyUse) }
    \cup { "fn f(Any, x) { " \o AnyUse[i] \o " }\nf(" \o v \o ", 2)" : v \in {"1", "Int", "null"}, i \in 1..Len(AnyUse) } }

(* base class members through super, from everywhere inside a derived class *)
SupPre == "class T { fn new(self, v) { self.v = v } fn get(self) { [1, self.v] } fn dbl(self, x) { x * 2 } fn s() { 9 } op +(self, o) { [30, o] } }\nclass C : T { fn new(self, v) { super(v) } fn get(self) { [2, super.get()] } }\n"
SupUse == {"super.get()", "super.dbl(t(2))", "super[T].get()", "super[C].get()", "super.get", "super[T].dbl(super.dbl(3))", "super.no", "super.s"}
SupMem == { <<"fn m(self) { ", " }">>, <<"fn m(self) { let k = t(1) t([k, ", ", k]) }">>, <<"fn m(self) { (|| ", ")() }">>, <<"fn m(self) { fn n(x) { let y = x ", " }\nn(1) }">>, <<"op +(self, o) { t(o) ", " }\nfn m(self) { self + 4 }">>,
            <<"fn new(self, v) { super(v) self.z = ", " }\nfn m(self) { self.z }">>, <<"fn new(self, v) { super(v + 1) self.z = || ", " }\nfn m(self) { self.z() }">>, <<"fn new(self, v) { super(v)\nself.v = 70\nt([", "]) }\nfn m(self) { self.v }">>,
            <<"fn m(self) { for i in 0..2 { t([i, ", "]) } }">>, <<"fn m(self) { if b() { return ", " }\n5 }">>, <<"fn m(self) { class I : T { fn q(self) { self.v = 80\nsuper.get() } }\nt(I().q())\n", " }">>, <<"fn q() { ", " }\nfn m(self) { 1 }">>,
            <<"fn get(self) { let g = || ", "\nt(g()) }\nfn m(self) { self.get() }">>, <<"fn dbl(self, x) { 100 + x } fn m(self) { t(", ") }">>, <<"fn m(self, x, y) { let z = [x, y] t([z, ", "]) }">> }
SupAt == { <<"", "\nlet later = 5\nlet other = [6]\n", "\nt([later, other])">>, <<"fn f() { let w = 3\n", "\nlet later = w\nD }\nlet D = f()\n", "">>, <<"let D = {\n", "\nlet later = 4\nD }\nlet more_ = 1\n", "\nt(more_)">>, <<"let ds = []\nfor i in 0..2 {\n", "\nlet later = i\nds.push(D)\n}\nlet D = ds[1]\nlet x = 8\n", "">> }
Supers(all_) == { Sc(SupPre \o a[1] \o "class D : " \o base \o " {\n" \o Fill(mm, u) \o " }" \o a[2] \o "let d = D(7)\nd.v = 40\nlet h = d.m\nlet r = d.m(1, 2)\nt(r is Function)\nif r is Function { t(r(5) is Array) } else { t(r) }\nt(h() is Function)" \o a[3] \o "\n0", 2)
                  : u \in SupUse, mm \in SupMem, a \in SupAt, base \in {"C", "T"} }

(* a body that declares its own self: the receiver is still what super, and the end of a constructor, are about *)
OwnSelf == <<"let self = 5", "let mut self = 5\nself += 1", "let self = self", "let self = B()", "{ let self = 5\nt(self) }", "fn self() { 4 }", "class self { }", "let { self, z } = #{ self: 6, z: 7 }", "for self in 0..2 { if b() { return } }",
             "let f = |self| self\nt(f(8))", "let h = Err(3) or v { let self = v t(self) }", "while b() { let self = 9\nif b() { return }\nt(self) }", "self.q = 3\nlet self = #{ q: 4 }\nself.q = 5", "if b() { let self = 1\nreturn }", "fn g() { let self = 3\nreturn self }\nt(g())",
             "class C : B { fn new(self) { super()\nlet self = 2\nreturn } }\nt(C().a)", "{ let self = 1\nlet y = 2\n{ let self = 3\nreturn } }">>
OwnEnd == <<"", "\nreturn", "\nt(self)\nreturn", "\nself", "\nif b() { return }\nt(4)", "\nlet w = || self\nt(w)">>
SelfShadow(all_) == { Sc("class B { fn new(self) { self.a = 1 } fn m(self, x) { [self.a, x] } }\n" \o x, 3) : x \in
      { "class A : B { fn new(self) { super()\nself.k = 2\n" \o OwnSelf[i] \o OwnEnd[j] \o " } }\nlet o = A()\nt(o is A)\nt([o.k, o.a])\no.m(4)" : i \in 1..Len(OwnSelf), j \in 1..Len(OwnEnd) }
    \cup { "class A { fn new(self, x) { self.k = x\n" \o OwnSelf[i] \o OwnEnd[j] \o " } }\nlet o = [0, A(7), 1]\nt(o[1] is A)\no[1].k" : i \in 1..Len(OwnSelf), j \in 1..Len(OwnEnd) }
    \cup { "class A : B { fn new(self) { super()\nself.a = 2 } fn m(self, x) { self.k = 3\n" \o OwnSelf[i] \o "\n" \o u \o " } }\nlet o = A()\nt(o.m(4))\nt([o.a, o.k])\n0"
              : i \in 1..Len(OwnSelf), u \in {"super.m(1)", "let w = [super.m(2), super[B].m(3)]\nw", "return super[B].m(5)", "let h = super.m\nh(6)", "super.zz", "self.a", "return self"} }
    \cup { "class A : B { fn new(self) { super()\nself.a = 2 } op +(self, x) { " \o OwnSelf[i] \o "\nsuper.m(x) } }\n A() + 1" : i \in 1..Len(OwnSelf) } }
(* ------------------------------------------------------------------------ *)
(* calls *)
Pars == <<"a", "c", "d", "e", "g", "pa", "pc", "pd", "pe", "pg", "qa", "qc", "qd", "qe">>
RECURSIVE JoinN(_, _, _)
JoinN(F(_), n, sep) == IF n = 0 THEN "" ELSE IF n = 1 THEN F(1) ELSE JoinN(F, n - 1, sep) \o sep \o F(n)
ParList(n) == JoinN(LAMBDA i : Pars[i], n, ", ")
ArgList(n) == JoinN(LAMBDA i : "t(" \o Num(i * 11) \o ")", n, ", ")
SelfPar(n) == IF n = 0 THEN "self" ELSE "self, " \o ParList(n)
Calls(all_) == { Sc(x, 2) : x \in UNION { {
    "fn f(" \o ParList(p) \o ") { let z = 5 t([" \o ParList(p) \o "]) }\nlet x = 1\nt(f(" \o ArgList(q) \o "))\nt(x)\n0",
    "let y = 3\nlet f = |" \o ParList(p) \o "| [" \o ParList(p) \o "]\nt(f(" \o ArgList(q) \o "))\nt(y)\n0",
    "class M { fn new(self) { self.k = 1 } fn m(" \o SelfPar(p) \o ") { let w = 2 t([self.k, w" \o (IF p = 0 THEN "" ELSE ", " \o ParList(p)) \o "]) } fn s(" \o ParList(p) \o ") { [" \o ParList(p) \o "] } }\n"
       \o "t(M().m(" \o ArgList(q) \o "))\nt(M.s(" \o ArgList(q) \o "))\nlet h = M().m\nt(h(" \o ArgList(q) \o "))\n0",
    "class M { fn new(" \o SelfPar(p) \o ") { self.l = [" \o ParList(p) \o "] } }\nt(M(" \o ArgList(q) \o ").l)\n0",
    "fn f(" \o ParList(p) \o ") { [" \o ParList(p) \o "] }\nt([0, f(" \o ArgList(q) \o "), f(" \o ArgList(q) \o "), 1])\nt(f(f(" \o ArgList(q) \o "), t(2)))\n0" }
    : p \in 0..4, q \in 0..5 } }
(* every way of calling, with as many arguments as parameters, one less and one more *)
ArityB(p, c) == "class P { fn new(" \o (IF c = 1 THEN SelfPar(p) ELSE "self") \o ") { self.l = [" \o (IF c = 1 THEN ParList(p) ELSE "") \o "] }\nfn m(" \o SelfPar(p) \o ") { t([" \o ParList(p) \o "])\n51 }\nfn s(" \o ParList(p) \o ") { t([" \o ParList(p) \o "])\n52 }\nfn zero(self) { t(self.l)\n53 } }\n"
ArityUse == << <<"class D : P { fn new(self) { super(", ")\nself.z = 4 } }\nlet d = D()\nt(d.l)\nt(d.z)\nd.zero()">>, <<"class D : P { fn new(self) { super(", ") let w = 6 self.z = w } }\nt([1, D().l, 2])">>,
               <<"class D : P { fn new(self) { super()\nself.l = 1 } fn m(self) { let w = 7 let r = super.m(", ")\nt([w, r]) } }\nt(D().m())">>, <<"class D : P { fn new(self) { super()\nself.l = 1 } fn m(self, x) { [x, super.m(", "), x] } }\nt(D().m(3))">>,
               <<"class D : P { fn new(self) { super()\nself.l = 1 } fn m(self) { let f = || super.m(", ")\nf() } }\nt([0, D().m()])">>, <<"class D : P { fn new(self) { super()\nself.l = 1 } fn x(self) { super.m(", ") } }\nclass E : D { }\nt([0, D().x()])\nt(D().m)">>,
               <<"t([9, P.s(", "), 8])">>, <<"class D : P { fn q() { super.s(", ") } }\nt(D.q())">>, <<"class D : P { }\nt([1, D.s(", ")])">>, <<"class D : P { fn new(self) { super()\nself.u = 1 } }\nt([2, D().m(", ")])">>,
               <<"class D : P { fn new(self) { super()\nself.u = 1 } fn y(self) { self.m(", ") } }\nt(D().y())">>, <<"let o = #{ f: P.s }\nt([3, o.f(", ")])">>, <<"let l = [P.s, P]\nt([4, l[0](", ")])">>, <<"t([5, mb(P)?.s(", ") == null])">>,
               <<"let f = P.s\nfn g(f) { let w = 1 t([f(", "), w]) }\nt(g(f))">>, <<"t((|| P.s(", "))())">>, <<"let mut n = 2\nlet k = |x| { n += x t([n, P.s(", ")]) }\nt(k(1))">>, <<"t(P.s(P.s(", "))) ">>,
               <<"class D { op +(self, x) { [x, P.s(", ")] } }\nt(D() + 1)">>, <<"for i in 0..2 { t([i, P.s(", ")]) }">>, <<"t(if P.s(", ") == 52 { 1 } else { 2 })">>, <<"fn g() { Ok(P.s(", "))!! + 1 }\nt(g())">>, <<"t(1 + P.s(", ") * 2)">>, <<"P.s(", ")\nt(2)">> >>
ArityL(p, f) == \* the same number of parameters in other kinds of function
   CASE f = 1 -> "let f = |" \o ParList(p) \o "| t([" \o ParList(p) \o "])\n"
     [] f = 2 -> "fn f(" \o ParList(p) \o ") { let w = 1 t([w, [" \o ParList(p) \o "]]) }\n"
     [] f = 3 -> "fn mk() { let w = 5\nreturn |" \o ParList(p) \o "| { t([w, [" \o ParList(p) \o "]]) } }\nlet f = mk()\n"
     [] f = 4 -> "fn f(" \o ParList(p) \o ") { let fs = [" \o JoinN(LAMBDA i : "|| " \o Pars[i], p, ", ") \o "]\nfor g in fs { t(g()) } }\n"
     [] f = 5 -> "let mut left = 2\nfn f(" \o ParList(p) \o ") { left -= 1\nif left > 0 { f(" \o JoinN(LAMBDA i : Pars[p + 1 - i], p, ", ") \o ") }\nt([" \o ParList(p) \o "]) }\n"
     [] f = 6 -> "fn f(" \o JoinN(LAMBDA i : Pars[i] \o (IF i % 2 = 1 THEN ": Int" ELSE ": Int?"), p, ", ") \o ") -> Int { t([" \o ParList(p) \o "])\n1 }\n"
     [] f = 7 -> "class Q { fn new(self) { self.c = 0 } fn n(" \o SelfPar(p) \o ") { self.c = [" \o ParList(p) \o "] self } }\nlet q = Q()\nlet f = q.n\n"
     [] f = 8 -> "fn f(" \o ParList(p) \o ") { class Q { fn new(self) { self.c = [" \o ParList(p) \o "] } }\nt(Q().c) }\n"
Arity(all_) == { Sc(x, 2) : x \in UNION { { ArityB(p, IF i <= 2 THEN 1 ELSE 0) \o ArityUse[i][1] \o ArgList(q) \o ArityUse[i][2] \o "\n0" : i \in 1..Len(ArityUse), q \in {p - 1, p, p + 1} \ {-1} } : p \in 0..8 } }
    \cup { Sc(x, 2) : x \in UNION { { ArityL(p, f) \o "t([7, f(" \o ArgList(q) \o "), 8])\nf(" \o ArgList(q) \o ")\n0" : f \in 1..8, q \in {p - 1, p, p + 1} \ {-1} } : p \in 0..12 } }
CallMisc(all_) == { Sc(x \o "\n0", 3) : x \in {
   "fn f(n) { let v = n * 2 let r = if n <= 0 { 0 } else { f(n - 1) } t([n, v, r]) }\nt(f(3))", "fn ev(n) { if n == 0 { true } else { od(n - 1) } }\nfn od(n) { if n == 0 { false } else { ev(n - 1) } }\nt(ev(5))\nt(od(5))",
   "fn fib(n) { if n < 2 { return n }\nfib(n - 1) + fib(n - 2) }\nt(fib(6))", "fn f(x) { }\nt(f(1))", "fn f(x) { x\nlet y = 1 }\nt(f(1))", "fn f(x) { while false { 1 } }\nt(f(1))", "fn f() { return }\nt(f())", "fn f() { fn g() { 2 } }\nt(f()())",
   "fn f(x) { { { { return x } } }\n5 }\nt(f(1))", "fn f(x) { for i in 0..3 { for j in 0..3 { while true { loop { return [x, i, j] } } } }\n5 }\nt([0, f(1), 2])", "fn f(x) { let g = |y| { return y * 2\n7 }\nlet q = g(x) return q + 1 }\nt(f(4))",
   "fn f(g, x) { g(g(x)) }\nt(f(|y| y + 1, 5))", "let comp = |f, g| { |x| { g(f(x)) } }\nt(comp(|a| a + 1, |a| a * 2)(3))", "fn f(a) { let loc = a (|| { let loc2 = loc f2(loc2) })() + loc }\nfn f2(x) { let loc = x * 10 loc }\nt(f(2))",
   "t((|x| (|y| x - y)(1))(5))", "t([1, 2, 3].length() + [4].length())", "fn f(a, c) { a - c }\nt(f(f(10, 3), f(4, 2)))\nt(f(f(f(1, 2), 3), f(4, f(5, 6))))", "5 |> t |> t", "fn add(a) { |c| { a + c } }\nt(3 |> add(4))\nt(3 |> add(4) |> add(5))",
   "fn f(x) { if x > 0 { return 1 } else { return 2 } }\nt(f(1))\nt(f(0))", "fn f(x) { let r = [x, return 5, 6]\nr }\nt(f(1))", "fn f(x) { return return x }", "fn f(x) { t(return x) }", "fn f(x) { if x { return t(1) }\nt(2) }\nt(f(b()))", "t(1)(2)", "let q = 3\nq()", "null()", "\"s\"()", "t(t)(4)",
   "fn mk() { let mut c = 0 #{ inc: || { c += 1\nc }, get: || c } }\nlet m1 = mk()\nlet m2 = mk()\nm1.inc()\nm1.inc()\nm2.inc()\nt([m1.get(), m2.get()])", "fn deep(n) { if n == 0 { return 0 }\nlet a = n let c = deep(n - 1) a + c }\nt(deep(20))",
   "fn f(x) { x }\nlet g = f\nfn h(f) { f(2) }\nt(h(|z| z + 40))\nt(g(1))", "fn f() { 1 }\n{ fn f() { 2 }\nt(f()) }\nt(f())", "let f = |x| { let g = |y| { if y == 0 { return 0 }\nx + y }\nt([g(0), g(1)]) }\nt(f(10))", "fn v(a) { let c = a + 1 let d = c + 1 fn w(e) { let g = e + d g + c } w(a) + d }\nt(v(1))",
   "fn f(x) { { let y = x if b() { return y } let z = 2 } x * 100 }\nt([f(1), f(2)])", "fn f(n) { let mut i = 0 while i < n { i += 1\nif i == 3 { return i } }\n99 }\nt(f(2))\nt(f(5))", "let o = #{ f: |x| x, g: |x, y| [x, y] }\nt(o.f(1))\nt(o.g(1, 2))\nt(o.f(o.g(3)))" } }

(* ------------------------------------------------------------------------ *)
(* conditionals, logic, coalescing *)
(* comparisons and negations that a class answers with something other than a Bool, wherever a condition may stand *)
CmpOps_ == {"<", "<=", ">", ">=", "==", "!="}
LogicOver(all_) == { Sc("class V { fn new(self, v) { self.v = v }\nop <(self, x) { t(x) self.v }\nop <=(self, x) { self.v }\nop >(self, x) { self.v }\nop >=(self, x) { self.v }\nop ==(self, x) { self.v }\nop !=(self, x) { self.v } }\nlet a = V(" \o v \o ")\n" \o w[1] \o c \o w[2] \o "\n0", 2) :
        v \in {"7", "\"s\"", "null", "mb(1)", "b()", "[]"}, c \in { "a " \o o \o " 2" : o \in CmpOps_ } \cup {"(a < 1)", "2 < a"},
        w \in { <<"t(true && ", ")">>, <<"t(b() && ", " && b())">>, <<"t(", " && b())">>, <<"t(", " || b())">>, <<"t(false || ", ")">>, <<"t(b() || ", " || b())">>, <<"t(!(", "))">>, <<"t(if ", " { 1 } else { 2 })">>, <<"while ", " { t(1) break }">>, <<"t((", ") ?? 5)">>, <<"t([", "])">>,
                <<"fn f() -> Bool { ", " }\nt(f())">>, <<"let mut q = false\nq = b() && ", "\nt(q)">> } }
Bo == {"b()", "t(true)", "t(false)", "!b()", "1 < t(2)", "(b() && t(true))", "(b() || t(false))"}
Logic(all_) == { Sc("t(" \o x \o ")\n0", 4) : x \in
     { l \o o \o r : l \in Bo, o \in {" && ", " || "}, r \in Bo }
     \cup { l \o o \o m \o p \o r : l \in {"b()", "!b()"}, o \in {" && ", " || "}, m \in {"t(b())", "!t(b())"}, p \in {" && ", " || "}, r \in {"t(b())", "t(true)"} }
     \cup { "mb(1)" \o o \o r : o \in {" ?? "}, r \in {"t(2)", "mb(t(2)) ?? t(3)", "t(2) + 1", "{ t(4) 5 }", "null"} }
     \cup { "1 + (mb(t(1)) ?? t(2)) * 2", "(mb(1) ?? mb(2)) ?? mb(3) ?? t(4)", "b() && 1", "1 && b()", "b() || 1", "null || b()", "b() && b() || b() && b()", "(b() || b()) && (b() || b())", "[b() && b(), b() || b()]",
            "if b() && b() { 1 } else { 2 }", "if b() || b() { 1 } else { 2 }", "if !(b() && b()) { 1 }", "t(1) + (if b() { t(2) } else { t(3) })", "mb(1) ?? (if b() { 2 } else { 3 })", "{ b() && t(true) }", "!(b() || b())", "b() == (b() && b())" } }
Branch == { "1", "{ }", "{ t(1) }", "{ let x = t(2) x + 1 }", "{ let q = 5 fs.push(|| { q })\nq }", "{ t(3)\nlet y = 4 }", "{ while false { } }", "{ null }" }
BrB(x) == IF x = "1" THEN "{ 1 }" ELSE x
Ifs(all_) == { Sc("let fs = []\n" \o w[1] \o x \o w[2] \o "\nfor f in fs { t(f()) }\n0", 3) :
           w \in { <<"t(", ")">>, <<"", "">>, <<"let r = ", "\nt(r)">>, <<"t([1, ", ", 2])">>, <<"t({ ", " })">> },
           x \in { "if b() " \o BrB(p) \o " else " \o BrB(q) : p \in Branch, q \in Branch }
                 \cup { "if b() " \o BrB(p) : p \in Branch }
                 \cup { "if b() " \o BrB(p) \o " else if b() " \o BrB(q) : p \in Branch, q \in Branch }
                 \cup { "if b() " \o BrB(p) \o " else if b() " \o BrB(q) \o " else " \o BrB(r) : p \in {"1", "{ }", "{ let q = 5 fs.push(|| { q })\nq }"}, q \in Branch, r \in {"1", "{ let x = t(2) x + 1 }"} }
                 \cup { "if t(1) { 1 } else { 2 }", "if null { 1 }", "if { let z = b() z } { t(1) } else { t(2) }", "if (if b() { b() } else { true }) { 1 } else { 2 }" } }
(* null propagation: chains over an object whose every link leads back to it or to null *)
NullPre == "let o = #{ v: 3, z: 0 }\no.o = o\no.f = |x| o\no.l = [o, o]\no.m = |x| mb(o)\no.n = null\n"
Links == { ".o", ".f(t(1))", ".l[t(0)]", ".m(t(2))", ".n", ".v" }
Mark == {"", "?"}
Link(a, q) == q \o a
Chains(n) == LET RECURSIVE g(_) g(k) == IF k = 0 THEN {""} ELSE { c \o Link(a, q) : c \in g(k - 1), a \in Links, q \in Mark } IN g(n)
NullCtx == { <<"t(", " == null)">>, <<"t([1, ", " == null, t(7)])">>, <<"t((", " ?? 5) == 5)">>, <<"t(1, t(", " == null))">>, <<"t(o.f(", ").v)">>, <<"t(mb(o)?.f(", ")?.v)">>, <<"let q = ", "\nt(q == null)">>,
             <<"t((", ") is Any?)">>, <<"t(1 + (if (", ") == null { 2 } else { 3 }))">> }
Null_(all_) == { Sc(NullPre \o Fill(w, "mb(o)" \o c) \o "\n0", 3) : w \in {<<"t(", " == null)">>, <<"t([1, ", " == null, t(7)])">>, <<"t((", " ?? 5) == 5)">>}, c \in Chains(1) \cup Chains(2) }
Null3(all_) == { Sc(NullPre \o Fill(w, "mb(o)" \o c) \o "\n0", 3) : w \in NullCtx, c \in Chains(3) }
NullMisc(all_) == { Sc(NullPre \o x \o "\n0", 3) : x \in {
   "t((mb(o)?.o).v)", "t((mb(o)?.o)?.v)", "t(mb(o)?.f(mb(o)?.v).v)", "t(mb(o)?.f(mb(o)?.v)?.o.v)", "t(mb(o)?.l[mb(0)?.x ?? 0].v)", "t(-(mb(o)?.v ?? 1))", "t(mb(o)?.v == null)", "t(mb(o)?.v is Int?)", "t(mb(1)? == null)", "t(mb(o)?.o?.o?.o?.v)", "t(mb(o)?.m(1)?.m(2)?.v)",
   "t([mb(o)?.v, mb(o)?.v])", "t(mb(o)?.v ?? t(9))", "t((mb(o)?.v ?? t(9)) + 1)", "fn g(x) { t(5)\nmb(x)?.v }\nt(g(o))", "let r = |x| mb(x)?.o?.v\nt(r(o))", "t(mb(o)?.v |> t)", "t(o?.v |> (mb(t) ?? t))", "for i in mb(o)?.l ?? [1] { t(i == 1) }", "t(if mb(o)?.v == 3 { 1 } else { 2 })",
   "t(#{ a: mb(o)?.v, z: mb(o)?.o?.v })", "o.v = mb(o)?.v ?? 4\nt(o.v)", "o.l[0] = mb(o)?.v\nt(o.l[0])", "fn k() { mb(Ok(o))?.x!!.o }\nt(1)", "t(mb(o)?.f({ t(4) 1 }).v)", "t((mb(o) ?? o).v)", "t(mb(mb(o)?.o)?.v)", "while mb(o)?.v != null { if more() { break } t(1) }" }
   \cup { (w[1] \o a \o "[" \o x \o "]" \o c \o w[2]) : w \in {<<"t([1, ", " == null])">>, <<"t((", " ?? 5) == 5)">>}, a \in {"o.l", "o?.l", "mb(o.l)?"}, c \in {"", ".v", "?.v", "[0].v"},
                x \in {"o?.z", "mb(o)?.z", "o.n?.z", "mb(0)?", "o.o?.z", "(o?.z)", "o?.f(0)", "o.f(o)?.z", "o.l[o?.z].z", "mb(o)?.z ?? 0", "{ mb(o)?.z }"} } }

(* a chain inside of any other expression inside of an argument or index of a chain *)
NullInPre == NullPre \o "let mut ww = 0\no.g = |x| { t(x == null)\no }\no.i = |x, y| { t([x == null, y == null])\no }\n"
NullInW == { <<"if ", " == null { 1 } else { 0 }">>, <<"if b() { ", " } else { 0 }">>, <<"if b() { 1 } else { ", " }">>, <<"(", " == 0) && b()">>, <<"b() || ", " == null">>, <<"(", " ?? t(4))">>, <<"mb(1) ?? ", "">>, <<"1 == ", "">>,
             <<"[1, ", "]">>, <<"#{ k: 1, j: ", " }">>, <<"", " is Int?">>, <<"ww = ", "">>, <<"{ let y = ", " y }">>, <<"{ while more() { t(", " == 0) } 0 }">>, <<"{ for i in [0, 1] { t(i == ", ") } 0 }">>, <<"{ for i in ", " ?? [3] { t(i) } }">>,
             <<"(|| ", ")()">>, <<"(|y| y)(", ")">>, <<"(Ok(", ") or e { 3 })">>, <<"", " |> |y| y">>, <<"(", ")">>, <<"!(", " == 0)">>, <<"{ class Q { fn m(self) { ", " } } Q().m() }">>, <<"{ fn q() { ", " } q() }">>, <<"o.i(", ", 1)">>, <<"o.i(1, ", ")">>, <<"[0, 1][", " ?? 1]">>, <<"o.q = ", "">> }
NullInC == { "mb(o)?.z", "o.z?", "mb(o)?.g(mb(1)?).z", "mb(o).n?.v" }
NullInO == { <<"mb(o)?.g(", ").v">>, <<"o.g(", ")?.o.v">>, <<"mb(o)?.i(1, ", ")?.v">>, <<"o.i(", ", t(2)).n?.v">>, <<"o.l[{ o.g(", ")\n1 }]?.v">> }
NullIn(all_) == { Sc(NullInPre \o Fill(c, Fill(a, Fill(w, x))) \o "\nt(ww == null)\n0", 3) : c \in { <<"t([1, ", " == null, t(7)])">>, <<"t((", " ?? 5) == 5)">> }, a \in NullInO, w \in NullInW, x \in NullInC }
(* a chain after every other kind of call in the same scope, and chains that go through super and `!!` *)
SeqPre == "class C { fn new(self, w) { self.w = w } fn g(self) { t(61)\n#{ v: 3, w: self.w } } fn nn(self) { null } fn z(self) { 0 } fn s() { 8 } }\n"
SeqIn == { <<"class D : C { fn new(self) { super(4) } fn m(self, o) { ", " } }\nt([0, D().m(o)])">>, <<"class D : C { fn new(self, o) { super(4)\n", " } }\nt([0, D(o).w])">>,
           <<"class D : C { fn new(self) { super(4) } fn m(self, o) { let zz = 5\nwhile more() { t(zz)\n", " }\nzz } }\nt([0, D().m(o)])">> }
SeqX == { "super.g()", "super[C].g()", "let y = super.g", "let y = o.r!!", "t(o.r!!.v)", "o.f(1)", "o.l[0]", "t(1)", "C(2)", "t(mb(o)?.v == null)", "self.g()", "C.s()", "self.w", "t((super.nn() ?? 1))", "t(super.g().v)", "t(o.l[super.z()].v)", "t(super.z())", "super.g()?.v", "super.g().v = 3", "o.l[0] = o", "super.g", "super[C].g", "o.r!!", "o.f", "super(1)" }
SeqY == { "t(mb(o)?.v == null)", "t([mb(o)?.o.f(t(1)) == null, 7])", "t([1, mb(o)?.o?.v])", "t((mb(o)?.f(super.g()) ?? 5) == 5)", "t(super.g()?.v)", "t([2, super.nn()?.v, super.nn()?.v?.w])", "t(mb(o)?.r!! == null)", "t((mb(super.g())?.w ?? 9))", "t(mb(o)?.l[super.z()].v == null)",
          "let q = mb(o)?.v\nt(q)", "let q = super.nn()?.v.w\nt(q)", "if mb(o)?.o.v == null { t(4) } else { t(5) }", "o.q = mb(o)?.o?.v\nt(o.q)", "let q = [1, mb(o)?.l[super.z()]?.v]\nt(q)", "let q = o.r!!.o\nlet p = mb(q)?.v ?? 7\nt(p)", "mb(o)?.v", "mb(o)?.o.v", "o.o?.f(t(3))?.v", "mb(o)?.o.f(t(6))\nt(9)", "super.nn()?.v.w" }
NullSeq(all_) == { Sc(NullPre \o "o.r = Ok(o)\n" \o SeqPre \o Fill(f, x \o "\n" \o y) \o "\n0", 3) : f \in SeqIn, x \in SeqX, y \in SeqY }
ErrLinks == { ".r!!", ".o", ".e!!", ".f(t(1))", "!!" }
ErrChains(n) == LET RECURSIVE g(_) g(k) == IF k = 0 THEN {""} ELSE { c \o q \o a : c \in g(k - 1), a \in {l \in ErrLinks : l # "!!"}, q \in Mark } IN g(n)
NullErr(all_) == { Sc(NullPre \o "o.r = Ok(o)\no.e = Err(o)\n" \o Fill(k, Fill(w, b \o c)) \o "\n0", 3) : b \in {"mb(o)", "mb(o)?.r!!", "Ok(mb(o))!!"}, c \in ErrChains(1) \cup ErrChains(2),
               w \in {<<"t([1, ", " == null])">>, <<"t((", " ?? 5) == 5)\nt(2)">>}, k \in { <<"fn k() { ", "\n7 }\nt(k() == 7)">>, <<"class K { fn m(self) { let q = 1\n", "\nq } }\nt(K().m() == 1)">>, <<"let k = |i| { for j in 0..2 { t(j)\n", " }\ni }\nt(k(7) == 7)">> } }

(* ------------------------------------------------------------------------ *)
(* error propagation and handling *)
ErrPre == "fn rs(x) { if b() { Ok(x) } else { Err(x) } }\n"
ErrWrap == { <<"", "">>, <<"let v = ", "\nt(v)">>, <<"t([1, ", ", t(2)])">>, <<"t(1) + ", "">>, <<"return ", "">>, <<"{ let z = 1 let zz = (|| z)()\n", " }">>, <<"for i in 0..2 { t(", ") }">>, <<"while more() { t(1 + ", ") }">>, <<"if ", " > 0 { t(3) }">>, <<"t(#{ a: 1, c: ", " })">>,
             <<"t(t, ", ")">>, <<"let w = [1]\nw[0] = ", "\nt(w)">>, <<"let mut w = 1\nw += ", "\nt(w)">>, <<"t(mb(1) ?? ", ")">>, <<"t((|x| x)(", "))">>, <<"t(", " |> t)">> }
ErrProp(all_) == { Sc(ErrPre \o f[1] \o Fill(w, x) \o "\n44" \o f[2] \o "\n0", 4) : w \in ErrWrap,
               f \in { <<"fn g() { ", " }\nlet r = g()\nt(r == 44 || (r is Int) == false)\nt(r)">>, <<"class A { fn m(self) { ", " } }\nt([0, A().m()])">>, <<"let g = || { ", " }\nt([0, g(), g()])">>, <<"fn g() { let q = 6 let h = || { ", " }\nt([h(), q]) }\nt(g())">>,
                      <<"class A { fn new(self) { ", " } }\nt([0, A() is A])">>, <<"class B { fn new(self) { self.v = 1 } }\nclass A : B { fn new(self) { super()\n", " } }\nt([0, A().v])">>, <<"class A { fn m() { ", " } }\nt([0, A.m()])">>, <<"class A { op +(self, o) { ", " } }\nt([0, A() + 1])">>,
                      <<"class A { fn new(self) { self.f = || { ", " } } }\nt([0, A().f()])">>, <<"fn g() { class A { fn new(self) { ", " } }\nA() }\nt(g() == 1)">>, <<"", "">>, <<"{ ", " }">>, <<"for i in 0..2 { ", " }">> },
               x \in { "rs(t(5))!!", "Ok(5)!!", "Err(5)!!", "rs(rs(3)!!)!!", "rs(Ok(7))!!!!", "rs(#{ v: 8 })!!.v", "(rs(5) or e { return 33 })", "rs(|x| x)!!(4)", "(rs(5)!!)", "(rs(1) or e { rs(e + 1)!! })" } }
OrWrap == { <<"t(", ")">>, <<"let r = ", "\nt(r)">>, <<"t([t(1), ", ", t(2)])">>, <<"t(1 + (", "))">>, <<"", "">>, <<"for i in 0..2 { t(i + (", ")) }">>, <<"t({ ", " })">>, <<"(|| { t(", ") })()">> }
OrBody == { "{ t(e) }", "{ e + 10 }", "{ }", "{ let q = e fs.push(|| { q })\nq }", "{ fs.push(|| { e }) 3 }", "{ rs(e) or e2 { e + e2 } }", "{ if b() { 1 } else { 2 } }", "{ let e = 5 e }" }
Or_(all_) == { Sc("let fs = []\n" \o ErrPre \o Fill(w, l \o " or e " \o o) \o "\nfor f in fs { t(f()) }\n0", 3) : w \in OrWrap, o \in OrBody,
           l \in {"rs(t(5))", "Ok(4)", "Err(4)", "(rs(1) or z { Err(z) })", "rs(1).map(|x| x + 1)"} }
OrMisc(all_) == { Sc("let fs = []\nlet e = 100\n" \o ErrPre \o x \o "\nfor f in fs { t(f()) }\nt(e)\n0", 3) : x \in {
   "for i in 0..3 { let v = rs(i) or e { break }\nt(v) }", "for i in 0..3 { let v = rs(i) or e { continue }\nt(v) }", "while more() { t([1, rs(3) or e { if b() { break } e }]) }", "fn g() { let v = rs(1) or e { return e + 50 }\nv }\nt(g())", "fn g() { rs(1) or e { rs(2)!! } }\nt(g())",
   "let x = rs(1) or a { rs(2) or c { a + c } }\nt(x)", "let x = (rs(1) or a { 5 }) + (rs(2) or a { 6 })\nt(x)", "t(rs(rs(1) or e { e + 1 }) or e { e * 2 })", "fn g(x) { let y = rs(x)!! + rs(x + 1)!!\ny }\nt(g(1))", "fn g() { t([t(1), rs(2)!!, rs(3)!!]) }\nt(g() is Int)", "fn g() { (|| { rs(1)!! })()\n7 }\nt(g())",
   "fn g() { for i in 0..2 { fs.push(|| { i }) rs(i)!! }\n5 }\nt(g() == 5)", "fn g() { let mut n = 1 fs.push(|| { n += 1\nn }) rs(2)!!\nn = 10 }\ng()", "class A { fn new(self) { self.r = rs(1) or e { e + 9 } } fn m(self) { rs(self.r)!! + 1 } }\nt(A().m())", "fn g() { let r = rs(1) r!! + (r or e { 3 }) }\nt(g())", "fn g() -> Int { rs(1)!! }\nt(g())",
   "fn g() -> Result { rs(1)!!\nOk(2) }\nt(g())", "fn g() -> Any? { { let c = 1 fs.push(|| c) rs(1)!! } }\nt(g())", "fn f1() { rs(1)!! }\nfn f2() { t(f1())\nrs(2)!! }\nt(f2())" } }

(* ------------------------------------------------------------------------ *)
(* loops *)
Heads == { <<"for i in 0..3 { ", "", " }">>, <<"for i in 1..=3 { ", "", " }">>, <<"for i in [3, 5] { ", "", " }">>, <<"for i in t(2)..t(4) { ", "", " }">>, <<"let mut i = 0\nwhile i < 3 { i += 1\n", "", " }">>, <<"let mut i = 0\nloop { i += 1\nif i > 3 { break }\n", "", " }">>,
           <<"let i = 7\nwhile more() { ", "", " }">>, <<"for i in Range(1, 3) { ", "", " }">>, <<"for i in RangeInclusive(1, 2) { ", "", " }">>, <<"let it = 1..3\nfor i in it { ", "", " }">>, <<"for i in 3..1 { ", "", " }">>, <<"for i in 2..=2 { ", "", " }">>, <<"for i in [] { ", "", " }">>,
           <<"for i in -2..1 { ", "", " }">> }
Bodies == { "t(i)", "t(i)\nif b() { break }\nt(i + 100)", "t(i)\nif b() { continue }\nt(i + 100)", "if b() { continue } else { t(i) }", "let k = i * 2 if b() { break }\nlet m = k + 1 t(m)", "let k = i fs.push(|| { k })\nif b() { continue }\nlet m = 5 fs.push(|| { m + i })", "{ { if b() { break } } t(i) }", "t(i) break", "continue\nt(i)", "" ,
            "if b() { if b() { break } else { continue } }\nt(i)", "t(i)\nlet x = if b() { break } else { i }\nt(x)", "s += i\nif s > 3 { break }" }
Loop_(all_) == { Sc("let fs = []\nlet mut s = 0\nlet before = 41\n" \o w[1] \o h[1] \o x \o h[3] \o w[2] \o "\nt(before)\nt(s)\nfor f in fs { t(f()) }\n0", 4) : h \in Heads, x \in Bodies,
             w \in { <<"", "">>, <<"t({ ", " })">>, <<"fn g() { ", "\n5 }\nt(g())">> } }
LoopNest(all_) == { Sc("let fs = []\nlet mut s = 0\n" \o h[1] \o "t(i)\n" \o g[1] \o x \o g[2] \o y \o h[3] \o "\nt(s)\nfor f in fs { t(f()) }\n0", 4) :
               h \in {h \in Heads : \E p \in {"for i in 0..", "for i in [3,", "let i = 7\nwh", "let mut i = "} : Starts(h[1], p)},
               g \in { <<"for j in 0..2 { ", " }\n">>, <<"for j in [8, 9] { ", " }\n">>, <<"let mut j = 0\nwhile j < 2 { j += 1\n", " }\n">>, <<"let mut j = 0\nloop { j += 1\nif j == 3 { break }\n", " }\n">> },
               x \in { "t(j)\nif b() { break }\ns += 1", "if b() { continue }\nt(j)", "fs.push(|| { i * 10 + j })\nif b() { break }", "t([i, if b() { continue } else { j }])" },
               y \in { "", "if b() { break }\nt(77)", "if b() { continue }\nt(78)" } }
LoopMisc(all_) == { Sc("let fs = []\n" \o x \o "\nfor f in fs { t(f()) }\n0", 4) : x \in {
   "for i in { t(1) 0 }..{ t(2) 2 } { t(i) }", "let mut n = 2\nfor i in 0..n { n = 10\nt(i) }\nt(n)", "let mut l = [1, 2]\nfor i in l { l = [9]\nt(i) }", "for i in 0..2 { let i = i + 10 t(i) }", "let i = 5\nfor i in 0..2 { t(i) }\nt(i)", "for i in 0..3 { for i in 5..7 { t(i) }\nt(i) }",
   "let it = #{ iter: || { let mut n = 0 #{ next: || { n += 1\n#{ is_done: n > 2, value: n * 7 } } } } }\nfor v in it { t(v) if b() { break } }", "let it = #{ iter: || #{ next: || #{ is_done: true } } }\nfor v in it { t(v) }", "for v in 5 { t(v) }", "for v in null { t(v) }", "for i in 0..\"s\" { t(i) }", "for i in 1..2.5 { t(i) }",
   "while true { while true { break }\nt(1) break }", "loop { loop { t(1) break }\nt(2) break }", "while b() { t(1) while b() { t(2) if b() { continue } t(3) } }", "let mut i = 0\nwhile { i += 1\ni < 4 } { if i == 2 { continue }\nt(i) }", "while { if b() { break }\nb() } { t(1) }", "while (if b() { break } else { b() }) { t(1) }", "while { if b() { continue }\nb() } { t(2) }",
   "loop { let x = 1 (|| x)() if b() { break } let y = 2 if b() { continue } t(y) if more() { } else { break } }", "fn g() { for i in 0..3 { if b() { return i } }\n9 }\nt(g())", "let r = for_(2)\nfn for_(n) { let mut s = 0 for i in 0..n { s += i + 1 }\ns }\nt(r)", "t(1 + { for i in 0..2 { if b() { break } }\n5 })", "t([1, { while more() { if b() { continue } t(6) }\n2 }, 3])",
   "for a in 0..2 { for c in 0..2 { if b() { break } for d in 0..2 { if b() { continue } t([a, c, d]) } } }", "for i in 0..4 { if i == 1 { continue }\nif i == 3 { break }\nt(i) }", "let o = #{ l: [1, 2] }\nfor x in o.l { t(x) }", "for f in [|| 1, || 2] { t(f()) }", "while false { t(1) }", "t({ loop { break } })", "t({ for i in 0..1 { i } })", "t({ while more() { 5 } })",
   "for i in 0..2 { fs.push(|| { i }) for j in 0..2 { fs.push(|| { i + j * 10 }) if b() { continue } let k = i + j fs.push(|| { k * 100 }) } }", "for i in 0..2 { if b() { { let z = i fs.push(|| { z }) break } } else { let y = i fs.push(|| { y + 50 }) continue } }", "for x in 1..=3 { t(x) }\nfor x in 1..=0 { t(x) }\nfor x in 1..1 { t(x) }", "for i in [[1, 2], [3]] { for j in i { t(j) } }" } }

(* ------------------------------------------------------------------------ *)
(* expressions *)
BinOps == {"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!="}
Operands_ == { <<"t(7)", "t(2)">>, <<"t(2)", "t(7)">>, <<"t(-7)", "t(2)">>, <<"t(3)", "t(3)">>, <<"t(1.5)", "t(0.25)">>, <<"t(0.25)", "t(0.25)">>, <<"t(true)", "t(false)">>, <<"t(b())", "t(true)">>, <<"t(1)", "t(0)">>, <<"t(null)", "t(1)">>, <<"t(null)", "t(null)">>, <<"t(\"a\")", "t(1)">>,
               <<"t(1)", "t(1.5)">>, <<"t(0)", "t(1)">>, <<"t(1)", "t(1)">>, <<"0", "1">>, <<"1", "0">>, <<"0.0", "1.0">>, <<"10", "3">>, <<"t([1])", "t(1)">>, <<"t({ })", "t({ })">> }
Exprs(all_) == { Sc("t(" \o x[1] \o " " \o o \o " " \o x[2] \o ")\n0", 2) : x \in Operands_, o \in BinOps }
ExprMix(all_) == { Sc("t(t(8) " \o o \o " t(5) " \o p \o " t(3))\nt(t(8) " \o o \o " (t(5) " \o p \o " t(3)))\n0", 2) : o \in {"+", "-", "*", "/", "%"}, p \in {"+", "-", "*", "/", "%", "<", "==", ">="} }
Lits == { "0", "1", "2", "42", "65535", "2147483647", "9223372036854775807", "9223372036854775806", "9007199254740993", "4611686018427387905", "16777217", "4294967297", "0x1F", "0xff", "0b101", "0B11", "1.0", "0.0", "0.5", "1.5e1", "2e3", "1e-1", "3.25", "\"\"", "\"hi\"", "\"a b {} $\"", "true", "false", "null", "()", "[]", "#{}", "{}", "[[]]", "-0", "-1", "!true", "!(!true)", "--1", "-(-2)", "-1.5",
          "\"x\" == \"x\"", "100000", "0xFFFF", "0.125", "12345678901", "123.456", "\"tab\\tq\"", "\"\\\"q\"", "\"é😀\"", "'x'", "0o7", "1_000",
          "0.9999999999999999", "1.0000000000000002", "1.9999999999999998", "0.1", "0.30000000000000004", "3.141592653589793", "0.0001", "-0.9999999999999999", "2251799813685249.5", "0.99999999", "1.00000001", "99999999.9", "0.10", "00.30", "3.1400" }
Literals(all_) == { Sc(w[1] \o l \o w[2], 1) : l \in Lits, w \in { <<"t(", ")\n0">>, <<"", "">>, <<"let x = ", "\nt([x, x])\nx">>, <<"t([0, ", ", 1])\n0">>, <<"fn f() { ", " }\nt(f())\n0">> } }
(* literals that look or weigh alike, two or three of them in one unit or in one function *)
LitAlike == { {"2.5", "2.50000000001", "2.4999999999", "2", "\"2.5\""}, {"0.0", "0", "0.00000000001", "0.000000000000000000001", "-0.0", "false", "\"0\""}, {"1.0", "1", "true", "\"1\"", "1.0000000000000002", "0.9999999999999999"}, {"\"a\"", "\"a \"", "\" a\"", "\"A\"", "\"aa\"", "\"\"", "\" \""},
              {"9007199254740993", "9007199254740992", "9007199254740992.0", "9007199254740991.0", "9007199254740991"}, {"100000000000", "100000000001", "100000000000.5"}, {"9223372036854775807", "9223372036854775806", "-9223372036854775807"}, {"255", "256", "127", "128", "-1", "65535", "65536", "4294967295", "4294967296"},
              {"\"null\"", "null", "\"()\"", "()", "\"true\"", "true"}, {"2.5000000000000", "02.5", "2.5", "2.05", "20.5", "25.0"}, {"123456.789", "123456.7890001", "123456.788"}, {"0.1", "0.10000000000000002", "0.1000000001", "0.2"} }
LitPairs(all_) == { Sc(w[1] \o p[1] \o w[2] \o p[2] \o w[3], 1) : p \in { q \in UNION { s \X s : s \in LitAlike } : q[1] # q[2] },
                 w \in { <<"t([", ", ", "])\n0">>, <<"let a = ", "\nfn f() { ", " }\nt(a)\nt(f())\n0">>, <<"fn f(x) { t(x) if b() { ", " } else { ", " } }\nt(f(1))\n0">>, <<"class C { fn m(self) { [", ", 0, ", "] } }\nt(C().m())\n0">>,
                        <<"let o = #{ a: ", ", b: ", " }\nt([o.b, o.a])\n0">> } }
Places(all_) == { Sc("let o = #{ a: 1, l: [10, 20, 30], o: #{ a: 5 } }\nlet l = [1, 2, 3]\nlet mut x = 4\nlet mut y = 5\nfn g(v) { t(v)\no }\n" \o s \o "\nt([x, y])\nt(l)\nt(o)\n0", 2) : s \in
            { p \o op \o v : p \in {"x", "o.a", "o.o.a", "l[0]", "l[2]", "l[t(1)]", "o.l[1]", "g(1).a", "g(1).l[t(2)]", "o.new_f", "g(t(6)).o.a", "[7, 8][0]", "o[\"a\"]"},
                             op \in {" = ", " += ", " -= ", " *= ", " /= "}, v \in {"t(2)", "x + y", "(y = 9)", "{ x = 6\nt(3) }", "l[1]"} }
            \cup { "t(x = 3)", "t(o.a = 3)", "t(l[0] = 3)", "t(x += 1)", "t(o.a += 1)", "x = y = 2", "o.a = o.o.a = 7", "let z = o.a = 3\nt(z)", "l[0] = l[1] = 9", "l[x - 4] = x", "l[{ x = 0\n0 }] = x", "o.a += { o.a = 100\n1 }", "x += { x = 100\n1 }", "l[0] += { l[0] = 100\n1 }", "l[{ t(1) 0 }] += { t(2) 5 }" } }
Structs(all_) == { Sc(x \o "\n0", 2) : x \in {
   "t([t(1), t(2), t(3)][t(1)])", "t(#{ a: t(1), c: t(2), d: t(3) })", "let o = #{ a: 1, \"b c\": 2, d: #{ e: 3 } }\nt(o)\nt(o.d.e)\nt(o[\"b c\"])", "t([[1, 2], [3, 4]][1][0])", "t([1, 2][5])", "t([1, 2][\"length\"] is Function)", "t(1[0])", "t(#{ a: 1 }.zz)", "t(#{ a: 1, a: 2 })", "let a = 5\nt(#{ a: a, c: a + 1 })",
   "let l = [1]\nlet m = l\nm.push(2)\nt(l)", "let o = #{ a: 1 }\nlet p = o\np.a = 2\nt(o.a)", "t([1, \"s\", null, true, 1.5, [2], #{ a: 1 }])", "t([1, 2, 3].length())", "let l = [1, 2]\nt(l.pop())\nt(l)", "t({ 1 2 3 })", "t({ let x = 1 })", "t({ })", "t((1))", "t(((1 + 2)) * 3)", "let { a, c } = #{ a: 1, c: 2 }\nt(a + c)", "let { a } = #{ c: 1 }\nt(a)",
   "t(1 is Int)\nt(\"s\" is String)\nt([] is Array)\nt(null is Any)\nt(t is Function)", "t(t(1) + t(2) * t(3) - t(4) / t(5))", "t((t(1) < t(2)) == (t(3) > t(4)))", "t(-t(1) + -t(2))", "t(!t(true) == t(false))", "let x = 1\nlet y = { let x = 2 x * 10 }\nt(x + y)", "t(t(5) |> t)", "let f = |x| x * 2\nt(t(4) |> { t(9) f })", "t((|| 1)() + (|| 2)())", "t(if t(true) { t(1) } else { t(2) })",
   "t(1..t(3))", "let r = t(1)..=t(2)\nt(r)", "t([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])", "t(#{ x: [#{ y: [1, #{ z: 2 }] }] }.x[0].y[1].z)", "let f = |x| #{ v: x }\nt(f(f(1).v + 1).v)", "t(t(1) == t(1) == t(true))", "t(1 < 2 == true)", "t(10 - 3 - 2)", "t(100 / 10 / 2)", "t(2 * 3 % 4)", "t(7 % 4 * 2)", "t(\"a\" == \"b\")" } }

(* ------------------------------------------------------------------------ *)
(* operators *)
OvOps == << <<"+", "+">>, <<"-", "-">>, <<"*", "*">>, <<"/", "/">>, <<"%", "%">>, <<">", ">">>, <<">=", ">=">>, <<"<", "<">>, <<"<=", "<=">>, <<"==", "==">>, <<"!=", "!=">>, <<"..", "..">>, <<"..=", "..=">> >>
OvSym == { OvOps[i][1] : i \in 1..Len(OvOps) }
OvDef(s, n) == "op " \o s \o "(self, r) { t(" \o Num(n) \o ")\nt(self.v)\nt(r)\n" \o Num(n * 2) \o " } "
OvAll == "t([" \o "x + 1, x - 1, x * 1, x / 1, x % 1" \o "])\n"
OvClass == "class V { fn new(self, v) { self.v = v } "
Ovl(all_) == { Sc(OvClass \o OvDef(s, 3) \o "}\nlet x = V(10)\nt(x " \o u \o " 1)\n0", 2) : s \in OvSym, u \in OvSym }
    \cup { Sc(OvClass \o OvDef(s, 3) \o OvDef(u, 4) \o "}\nlet x = V(10)\nt(t(x) " \o s \o " t(1))\nt(x " \o u \o " x)\n0", 2) : s \in OvSym, u \in OvSym }
    \cup { Sc(OvClass \o OvDef(s, 3) \o "}\nclass W : V { fn new(self, v) { super(v) } }\nlet x = W(10)\nt(x " \o s \o " 1)\nt([1, x " \o s \o " x, 2])\n0", 2) : s \in OvSym }
    \cup { Sc(OvClass \o OvDef(s, 3) \o "}\nclass W : V { fn new(self, v) { super(v) } " \o OvDef(s, 5) \o "}\nlet x = W(10)\nt(x " \o s \o " 1)\nt(V(1) " \o s \o " 2)\n0", 2) : s \in OvSym }
    \cup { Sc("op " \o s \o "(l, r) { t(6)\nt(l)\nt(r)\n8 }\nt(#{ } " \o u \o " 1)\nt(#{ a: 2 } " \o s \o " t(3))\n0", 2) : s \in OvSym \ {"..", "..="}, u \in OvSym }
    \cup { Sc(OvClass \o OvDef(s, 3) \o "}\nop " \o s \o "(l, r) { t(6)\nt(l)\nt(r)\n8 }\nt(V(1) " \o s \o " 2)\nt(#{ } " \o s \o " V(4))\nt(1 " \o s \o " 2 == 3)\n0", 2) : s \in OvSym \ {"..", "..="} }
    \cup { Sc("op " \o s \o "(l, r) { 77 }\nt(7 " \o s \o " 2)\nt(7.5 " \o s \o " 2.5)\nt(1 " \o s \o " \"s\")\n0", 2) : s \in OvSym \ {"..", "..="} }
    \cup { Sc(OvClass \o OvDef(s, 3) \o "}\nt(1 " \o s \o " V(2))\n0", 2) : s \in OvSym }
    \cup { Sc(OvClass \o OvDef(s, 3) \o "}\nlet mut x = V(10)\nlet o = #{ f: V(11) }\nlet l = [V(12)]\nx " \o s \o "= t(2)\nt(x)\no.f " \o s \o "= 3\nt(o.f)\nl[0] " \o s \o "= 4\nt(l)\n0", 2) : s \in {"+", "-", "*", "/"} }
OvlMisc(all_) == { Sc(x \o "\n0", 3) : x \in {
   "class V { fn new(self, v) { self.v = v } op +(self, o) { V(self.v + o.v) } op *(self, k) { V(self.v * k) } op ==(self, o) { self.v == o.v } }\nt((V(1) + V(2) * 3).v)\nt(V(1) + V(2) == V(3))\nt((V(1) + V(2) + V(3)).v)", "op +(a, c) { [a, c] }\nt(#{ } + 1)\nt([1] + [2])\nt(1 + 2)", "class V { op +(self, o) { if b() { return 5 } 6 } }\nt([1, V() + 2, 3])",
   "class V { op +(self, o) { (|| { self })() is V } }\nt(V() + 1)", "op +(a, c) { 1 }\nop +(a, c) { 2 }", "op +(a, c) { 1 }\nop -(a, c) { 2 }\nt(#{ } + 1)\nt(#{ } - 1)", "let k = 5\nop +(a, c) { k += 1\nk }", "let mut k = 5\nop +(a, c) { k += 1\nk }\nt(#{ } + 1)\nt(#{ } + 1)\nt(k)", "fn f() { op *(a, c) { 3 }\n1 }\nf()\nt(#{ } * 2)",
   "class V { op +(self, o) { 1 } fn add(self, o) { 2 } }\nt(V() + 1)\nt(V().add(1))", "class V { op -(self, o) { o } }\nt(V() - (V() - 4))", "class V { op <(self, o) { t(9)\ntrue } }\nif V() < 1 { t(1) } else { t(2) }", "class V { op ==(self, o) { t(9)\ntrue } }\nt(V() == null)\nt(V() == 1)\nt(null == V())", "class V { op ..(self, o) { [self is V, o] } }\nt(V()..3)\nfor i in V()..1 { t(i) }",
   "class V { fn new(self, v) { self.v = v } op <(self, o) { self.v < o.v } op +(self, n) { V(self.v + n) } }\nfor i in V(1)..V(3) { t(i.v) }" } }
   \cup { Sc(OvClass \o "op " \o o \o "(" \o p \o ") { t(4)\n6 } }\n" \o d \o "let x = V(10)\nt(x " \o o \o " 1)\nt(W(2) " \o o \o " W(3))\n0", 2) : o \in OvSym, p \in {"self", "self, r, q"},
               d \in {"class W : V { fn new(self, v) { super(v) } }\n", "class W : V { fn new(self, v) { super(v) } op " \o "==(self, r) { 12 } }\n", "class W : V { fn new(self, v) { super(v) } op " \o "==(self) { 12 } }\n"} }
   \cup { Sc("op " \o o \o "(" \o p \o ") { t(4)\n6 }\nt(#{ } " \o o \o " #{ })\n0", 2) : o \in OvSym, p \in {"", "l", "l, r, q"} }

(* ------------------------------------------------------------------------ *)
(* modules *)
Exps == { "export let a = t(1)", "export fn f(x) { x + 1 }", "export class A { fn v(self) { 5 } }", "let a = 2\nexport a", "let mut a = 2\nexport a\na = 3", "fn f(x) { x * 2 }\nexport f", "class A { fn v(self) { 6 } }\nexport A", "export let mut a = 4", "export let a = t(7)\nt(a)", "let z = 1", "export let c = t(8)",
          "fn g() { 9 }\nexport let a = g()", "export fn f(x) { g2(x) }\nfn g2(x) { x + 30 }", "let a = 5\n{ let a = 6 }\nexport a", "export let f = |x| { x + 3 }" }
ModTexts == { x : x \in Exps } \cup { x \o NL \o y : x \in Exps, y \in Exps }
ModRun(all_) == { Mo(x, 2) : x \in ModTexts } \cup { Mo(x \o "\n5", 2) : x \in Exps } \cup { Mo(x, 2) : x \in {"", "1", "let a = 1", "export let a = 1 export let a = 2", "export let a = 1\nlet a = 2\nexport a", "for i in 0..2 { t(i) }\nexport let a = 1", "export x", "export fn f() { 1 }\nlet g = f\nexport g", "t(1)\nexport let a = t(2)\nt(3)", "export let l = [1, 2]\nl.push(3)", "let mut n = 0\nexport fn inc() { n += 1\nn }\nexport let first = inc()",
              "export class A { fn new(self) { self.x = 1 } }\nexport class B : A { }", "export let a = { let a = 9 a }", "let { p, q } = #{ p: 1, q: 2 }\nexport p\nexport q", "import { a } from \"m\"\nexport a" } }
Imps == { "import { a } from \"m\"\nt(a)", "import { a, c } from \"m\"\nt([a, c])", "import { c, a } from \"m\"\nt([a, c])", "import * as q from \"m\"\nt(q.a)\nt(q.c)", "import * as q, { a } from \"m\"\nt([q.a, a])", "import { a } from \"m\"\nimport { c } from \"m\"\nt([a, c])", "import { a } from \"m2\"\nimport { c } from \"m\"\nt([a, c])",
          "import * as q from \"m\"\nimport * as r from \"m2\"\nt([q.a, r.a])", "fn g() { import { a } from \"m\"\na }\nt(g())\nt(g())", "{ import { a } from \"m\"\nt(a) }\nt(1)", "for i in 0..2 { import { a } from \"m\"\nt(a) }", "import { a } from \"m\"\nlet k = || { a }\nt(k())", "import { nope } from \"m\"\nt(nope)", "import { f, A } from \"m\"\nt(f == null)\nt(A == null)",
          "t([1, { import { a } from \"m\"\na }, 2])", "let r = { import * as q from \"m2\" }\nt(r.a)", "import { f } from \"m2\"\nt(f(2))\nt(f(3))", "import { inc } from \"m2\"\nimport * as z from \"m2\"\nt([inc(), z.inc(), inc()])", "import { a } from \"./m/x.dm\"\nt(a)", "import { a, a } from \"m\"\nt(a)", "import { } from \"m\"", "import { a } from \"M\"" }
ImpMods(x) == << [p |-> "m", t |-> x], [p |-> "m2", t |-> "export let a = 70\nlet mut n = 0\nexport fn inc() { n += 1\nn }\nexport fn f(x) { x * n }\ninc()\nt(71)"], [p |-> "./m/x.dm", t |-> "export let a = 90"] >>
Import_(all_) == { Pm(i \o "\n0", ImpMods(x), 2) : i \in Imps, x \in Exps \cup {"export let a = 1\nexport let c = 2", "export let a = 1\nexport let c = 2\nexport fn f(x) { x }\nexport class A { }", "import { a } from \"m2\"\nexport a\nexport let c = a + 1"} }
(* paths that are nearly the same name different modules, whatever they are made of *)
Paths == <<"m", " m", "m ", "m  ", "\tm", "M", "m.dm", "./m", "../m", "m/", "/m", "a/b/../m", "a/b/m", "m\\n", "m\\\\", "m\\\"x", "", " ", "m\nm", "m'", "{ m }", "m//c", "import", "m, n", "a from b", "#m", "1", "m\r">>
ImpPath(all_) == { Pm(t, << [p |-> Paths[i], t |-> "t(81)\nexport let a = " \o Num(i) \o "\nexport let c = 3"] >> \o (IF i = j THEN <<>> ELSE << [p |-> Paths[j], t |-> "t(82)\nexport let a = " \o Num(100 + j) \o "\nexport let c = 4"] >>), 2)
    : <<i, j, t>> \in UNION { { <<i, j, "import { a } from \"" \o Paths[i] \o "\"\nimport * as q, { c } from \"" \o Paths[j] \o "\"\nt([a, q.a, c])\n0">>,
                               <<i, j, "let x = { import * as q from \"" \o Paths[i] \o "\"\nq.a }\nfn f() { import { a, c } from \"" \o Paths[j] \o "\"\n[a, c] }\nt([x, f()])\n0">> } : i \in 1..Len(Paths), j \in 1..Len(Paths) } }
ExportBad(all_) == { [t |-> Fill(w, e), k |-> k, m |-> <<>>, b |-> 2] : k \in {"s", "m"}, e \in {"export let a = 1", "export fn a() { 1 }", "export class a { }", "let a = 1\nexport a", "export let { a } = #{ a: 1 }", "export 1", "export", "export import { a } from \"m\"", "export return 1", "export export let a = 1", "export a", "export (1)", "export let a", "export a = 1", "export mut a", "export a.x", "export loop { }"},
               w \in { <<"", "">>, <<"", "\n1">>, <<"{ ", " }">>, <<"if true { ", " }">>, <<"fn f() { ", " }">>, <<"for i in 0..1 { ", " }">>, <<"let q = { ", " }">>, <<"(|| { ", " })">>, <<"class A { fn m(self) { ", " } }">> } }

(* ------------------------------------------------------------------------ *)
(* The prelude: ranges and results, through what they offer to programs.    *)
Ends == {"0 - 2", "0 - 1", "0", "1", "2", "3"}
RangeOf == {<<"", "..", "">>, <<"", "..=", "">>, <<"Range(", ", ", ")">>, <<"RangeInclusive(", ", ", ")">>}
Rng(r, a, z) == "(" \o r[1] \o "(" \o a \o ")" \o r[2] \o "(" \o z \o ")" \o r[3] \o ")"
RangeUse == {
  <<"for i in r { t(i) }">>, <<"for i in r { t(i) }\nfor i in r { t(i) }">>, <<"for i in r { for j in r { t(i * 10 + j) } }">>,
  <<"for i in r { if b() { break }\nt(i) }\nfor i in r { t(i) }">>, <<"for i in r { if b() { continue }\nt(i) }">>,
  <<"let it = r.iter()\nlet mut k = 0\nwhile k < 9 { k += 1\nlet n = it.next()\nt(n.is_done)\nif n.is_done { 0 } else { t(n.value) } }">>,
  <<"let x = r.iter()\nlet y = r.iter()\nx.next()\nlet p = x.next()\nlet q = y.next()\nt(p.is_done)\nt(q.is_done)\nif !p.is_done { t(p.value) }\nif !q.is_done { t(q.value) }">>,
  <<"let fs = []\nfor i in r { fs.push(|| i) }\nfor f in fs { t(f()) }">>, <<"t(r is Range)\nt(r is RangeInclusive)\nt(r is Any)">> }
Prel(all_) ==
  { Sc("let r = " \o Rng(r, a, z) \o NL \o u[1] \o NL \o "0", 3) : r \in RangeOf, a \in Ends, z \in Ends, u \in RangeUse }
ResMake == {"Ok(1)", "Err(2)", "Ok(null)", "Err(null)", "Ok(Ok(3))", "Err(Ok(3))", "Ok(Err(4))", "Result(true, 5)", "Result(false, 6)", "Result(b(), 7)",
            "Ok(\"s\")", "Err([1])", "Ok(1).map(|x| x + 1)", "Err(2).map(|x| x + 1)", "Ok(1).map(|x| Err(x))", "Ok(1).map(|x| Ok(x)).map(|y| 9)", "Ok(Ok(2)).result", "Err(1).map(t)",
            "Ok(1).map(t)", "Ok(5).map(|x| null)", "Ok(null).map(|x| x ?? 4)", "Result(b(), 7).map(|x| { t(x)\nx * 2 })"}
ResUse == {"t(r.is_ok)\nt(r is Ok)\nt(r is Err)\nt(r is Result)", "t(r.result is Int)\nt((r.result ?? 77) is Result)\nt(r.result is Result)",
           "t(r or e { t(8)\nlet k = [e]\nk })", "fn f(x) { let y = x!!\nt(3)\nlet k = [y]\nk }\nlet z = f(r)\nt(z is Result)\nt(z is Array)",
           "let n = 0\nlet m = r.map(|x| { t(6)\nlet k = [x]\nk })\nt(m.is_ok)\nt(m is Ok)\nt(m is Err)\nt(m or e { e })\nt(r.is_ok)",
           "let m = r.map(|x| x).map(|x| x)\nt(m.is_ok == r.is_ok)\nt((m.result is Int) == (r.result is Int))",
           "fn g(x: Result) -> Result { x }\nt(g(r).is_ok)", "class D : Ok { fn new(self) { super(r) } fn more(self) { self.result } }\nlet d = D()\nt(d.is_ok)\nt(d is Ok)\nt(d.more().is_ok)\nt(d or e { 0 })",
           "let s = Ok(r)\nt(s.result.is_ok)\nt((s or e { r }).is_ok)\nt(s.map(|x| x.is_ok) or e { 5 })", "fn h(x) { x!!\nt(1)\nOk(x!!) }\nlet w = h(r)\nt(w.is_ok)\nt((w.result is Int) == (r.result is Int))"}
PrelRes(all_) ==
  { Sc("let r = " \o m \o NL \o u \o NL \o "0", 3) : m \in ResMake, u \in ResUse }
  \cup { Sc(x \o "\n0", 2) : x \in {"Result(1, 2)", "Result(null, 2)", "Ok(1).map(2)", "Err(1).map(null)", "t(Ok().is_ok)\nt(Ok().result ?? 5)", "t(Err().is_ok)",
        "Ok(1).map()", "t((Range(0, 2) or e { 3 }) is Range)", "t(Ok is Class)\nt(Range is Class)\nt(Result is Class)", "for i in Ok(1) { t(i) }", "for i in 0..(Ok(2) or e { 0 }) { t(i) }",
        "let mut n = 0\nfor i in 1..=4 { n += i }\nt(n)", "let mut n = 0\nfor i in 1..4 { for j in i..=4 { n += j } }\nt(n)", "let r = 1..(2 + 2)\nlet mut n = 0\nfor i in r { n += i }\nt(n)",
        "class M { fn new(self, v) { self.v = v } op ..(self, o) { [self.v, o] } }\nfor i in M(1)..2 { t(i) }\nlet q = M(1)..2\nfor i in q { t(i) }\nfor i in 1..2 { t(i) }",
        "fn f() { for i in 0..=5 { if i == 3 { return Ok(i) } }\nErr(0) }\nt(f() or e { 7 })", "let f = |r| { let mut n = 0\nfor i in r { n += i }\nn }\nt(f(0..4))\nt(f(0..=4))\nt(f([1, 2]))"} }

(* ------------------------------------------------------------------------ *)
Family(f) ==
  CASE f = "exitloop" -> ExitLoop(f)
    [] f = "exitloop2" -> ExitLoop2(f)
    [] f = "exitfn" -> ExitFn(f)
    [] f = "exitwide" -> ExitWide(f)
    [] f = "clos" -> Clos(f)
    [] f = "closkinds" -> ClosKinds(f)
    [] f = "cap" -> Cap(f)
    [] f = "scope" -> Scope(f)
    [] f = "mut" -> Mut(f)
    [] f = "mutself" -> MutSelf(f)
    [] f = "mutimport" -> MutImport(f)
    [] f = "mutplace" -> MutPlace(f)
    [] f = "mutfirst" -> MutFirst(f)
    [] f = "kw" -> Kw(f)
    [] f = "kw2" -> Kw2(f)
    [] f = "kw3" -> Kw3(f)
    [] f = "dup2" -> Dup2(f)
    [] f = "dupin" -> DupIn(f)
    [] f = "dup3" -> Dup3(f)
    [] f = "hoist" -> Hoist_(f)
    [] f = "paramdup" -> ParamDup(f)
    [] f = "classes" -> Classes(f)
    [] f = "malformed" -> Malformed_(f)
    [] f = "classmisc" -> ClassMisc(f)
    [] f = "typed" -> Typed(f)
    [] f = "typedis" -> TypedIs(f)
    [] f = "typedmisc" -> TypedMisc(f)
    [] f = "calls" -> Calls(f)
    [] f = "callmisc" -> CallMisc(f)
    [] f = "arity" -> Arity(f)
    [] f = "imppath" -> ImpPath(f)
    [] f = "selfshadow" -> SelfShadow(f)
    [] f = "typeshadow" -> TypeShadow(f)
    [] f = "anyshadow" -> AnyShadow(f)
    [] f = "supers" -> Supers(f)
    [] f = "logic" -> Logic(f)
    [] f = "declseq" -> DeclSeq(f)
    [] f = "logicover" -> LogicOver(f)
    [] f = "litpairs" -> LitPairs(f)
    [] f = "ifs" -> Ifs(f)
    [] f = "null" -> Null_(f)
    [] f = "null3" -> Null3(f)
    [] f = "nullmisc" -> NullMisc(f)
    [] f = "nullseq" -> NullSeq(f)
    [] f = "nullin" -> NullIn(f)
    [] f = "nullerr" -> NullErr(f)
    [] f = "errprop" -> ErrProp(f)
    [] f = "or" -> Or_(f)
    [] f = "ormisc" -> OrMisc(f)
    [] f = "loop" -> Loop_(f)
    [] f = "loopnest" -> LoopNest(f)
    [] f = "loopmisc" -> LoopMisc(f)
    [] f = "exprs" -> Exprs(f)
    [] f = "exprmix" -> ExprMix(f)
    [] f = "literals" -> Literals(f)
    [] f = "places" -> Places(f)
    [] f = "structs" -> Structs(f)
    [] f = "ovl" -> Ovl(f)
    [] f = "ovlmisc" -> OvlMisc(f)
    [] f = "modrun" -> ModRun(f)
    [] f = "import" -> Import_(f)
    [] f = "exportbad" -> ExportBad(f)
    [] f = "prel" -> Prel(f)
    [] f = "prelres" -> PrelRes(f)

VARIABLES fam, done
Init == fam \in {In.fams[i] : i \in 1..Len(In.fams)} /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED fam
        /\ \A p \in Family(fam) : PrintT("@@" \o ToJson([f |-> fam] @@ p))
=============================================================================
