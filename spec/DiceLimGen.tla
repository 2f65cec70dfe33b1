----------------------------- MODULE DiceLimGen -----------------------------
(* Programs of a given size in one resource of the code format.              *)
EXTENDS Naturals, Sequences, TLC, SequencesExt, Json, IOUtils

Input == JsonDeserialize(IOEnv.DICE_LIM)      \* sequence of [id, kind, n, base]

S(i) == ToString(i)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s ELSE LET h == Rep(s, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN s ELSE "")
Cat(n, f(_), sep) == FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE sep) \o f(i), "", [i \in 1..n |-> i])
Lets(p, n) == "let " \o p \o "1 = 1\n" \o
              (IF n > 1 THEN Cat(n - 1, LAMBDA i : "let " \o p \o S(i + 1) \o " = " \o p \o S(i) \o " + 1", "\n") \o "\n" ELSE "")
Ones(n) == IF n = 0 THEN "" ELSE Rep("1, ", n - 1) \o "2"
Sum(p, n) == Cat(n, LAMBDA i : "s += " \o p \o S(i), "\n") \o "\n"

(* code that is never run but must be jumped over: base chunks and n small statements *)
Fill(c) == Rep("x!!!!!!!!!!!!!!!!\n", c.base) \o Rep("x\n", c.n)
Jump(body) == "fn f(x, w) {\nlet nul = null\n" \o body \o "\n7 }\nt(f(1, false))\n0"

Text(c) ==
  LET n == c.n
  IN CASE
     (* distinct constants *)
        c.kind = "consts"   -> Cat(n, LAMBDA i : "t(\"s" \o S(i) \o "\")", "\n") \o "\n0"
     [] c.kind = "constsfn" -> "fn f() {\n" \o Cat(n, LAMBDA i : "t(\"s" \o S(i) \o "\")", "\n") \o "\n0 }\nf()\nt(\"s1\")\n0"
     [] c.kind = "constsmix" -> Cat(n, LAMBDA i : "t(" \o (CASE i % 3 = 0 -> S(1000 + i) [] i % 3 = 1 -> S(i) \o ".5" [] OTHER -> "\"" \o S(i) \o "\"") \o ")", "\n") \o "\n0"
     [] c.kind = "constskeys" -> "let o = #{ " \o Cat(n, LAMBDA i : "k" \o S(i) \o ": true", ", ") \o " }\nt(o.k1)\nt(o.k" \o S(n) \o ")\n0"
     [] c.kind = "constsfns" -> Rep("t(|| true)\n", n) \o "\n0"
     (* variables alive at once *)
     [] c.kind = "locals"    -> Lets("v", n) \o "t(v1)\nt(v" \o S(n) \o ")\n0"
     [] c.kind = "localsfn"  -> "fn f(a, b) {\n" \o Lets("v", n) \o "t(v1)\nt(v" \o S(n) \o ")\na + b }\nt(f(10, 20))\n0"
     [] c.kind = "localsblk" -> Lets("v", n - 20) \o "{\n" \o Lets("w", 20) \o "t(w20)\nt(v1)\n}\nlet z = v1\nt(z)\n0"
     [] c.kind = "localsfor" -> Lets("v", n) \o "for i in [5, 6] { t(i)\nt(v1) }\nt(v" \o S(n) \o ")\n0"
     [] c.kind = "localsrng" -> Lets("v", n) \o "for i in 0..2 { t(i)\nt(v1) }\nt(v" \o S(n) \o ")\n0"
     [] c.kind = "localsor"  -> Lets("v", n) \o "t(Err(4) or e { e + v1 })\nt(v" \o S(n) \o ")\n0"
     [] c.kind = "localscap" -> Lets("v", n) \o "let g = || { v" \o S(n) \o " + v1 }\nt(g())\n0"
     [] c.kind = "localsdes" -> Lets("v", n) \o "let { aa, bb } = #{ aa: 3, bb: 4 }\nt(aa + bb)\nt(v" \o S(n) \o ")\n0"
     [] c.kind = "localsmeth" -> "class A { fn m(self, a) {\n" \o Lets("v", n) \o "t(v" \o S(n) \o ")\na } }\nt(A().m(9))\n0"
     (* the same slots, one block after the other *)
     [] c.kind = "blocks"    -> Rep("{\n" \o Lets("v", 100) \o "t(v100)\n}\n", n) \o "0"
     [] c.kind = "fns"       -> Cat(n, LAMBDA i : "fn f" \o S(i) \o "() {\n" \o Lets("v", 100) \o "t(v100) }\nf" \o S(i) \o "()", "\n") \o "\n0"
     (* parameters and arguments *)
     [] c.kind = "params"    -> "fn f(" \o Cat(n, LAMBDA i : "p" \o S(i), ", ") \o ") { t(p1)\nt(p" \o S(n) \o ")\np1 }\nt(f(7, 8))\n0"
     [] c.kind = "paramsafn" -> "let f = |" \o Cat(n, LAMBDA i : "p" \o S(i), ", ") \o "| { t(p1)\nt(p" \o S(n) \o ")\np1 }\nt(f(7, 8))\n0"
     [] c.kind = "paramsmeth" -> "class A { fn m(self, " \o Cat(n - 1, LAMBDA i : "p" \o S(i), ", ") \o ") { t(p1)\nt(p" \o S(n - 1) \o ")\np1 } }\nt(A().m(7, 8))\n0"
     [] c.kind = "paramsall" -> "fn f(" \o Cat(n, LAMBDA i : "p" \o S(i), ", ") \o ") { t(p1)\nt(p" \o S(n) \o ")\np1 }\nt(f(" \o Ones(n) \o "))\n0"
     [] c.kind = "args"      -> "fn f(a, b) { a + b }\nt(f(" \o Ones(n) \o "))\n0"
     [] c.kind = "argsmeth"  -> "class A { fn m(self, a, b) { a + b } }\nt(A().m(" \o Ones(n) \o "))\n0"
     [] c.kind = "argsnew"   -> "class A { fn new(self, a, b) { self.v = a + b } }\nt(A(" \o Ones(n) \o ").v)\n0"
     [] c.kind = "argssup"   -> "class A { fn new(self, a, b) { self.v = a + b } }\nclass B : A { fn new(self) { super(" \o Ones(n) \o ") } }\nt(B().v)\n0"
     [] c.kind = "argschain" -> "let o = #{ m: |a, b| a + b }\nt(o?.m(" \o Ones(n) \o "))\n0"
     (* elements of a list *)
     [] c.kind = "list"      -> "t([" \o Ones(n) \o "])\n0"
     [] c.kind = "listlast"  -> "let l = [" \o Ones(n) \o "]\nt(l[" \o S(n - 1) \o "])\nt(l[0])\n0"
     (* captured variables *)
     [] c.kind = "ups"       -> "fn f() {\n" \o Lets("a", 100) \o "fn g() {\n" \o Lets("c", 100) \o "fn k() {\n" \o Lets("d", n - 200) \o
                                "let h = || { let mut s = 0\n" \o Sum("a", 100) \o Sum("c", 100) \o Sum("d", n - 200) \o "s }\nh() }\nk() }\ng() }\nt(f())\n0"
     [] c.kind = "upswrite"  -> "fn f() {\n" \o Lets("a", 100) \o "fn g() {\n" \o Lets("c", 100) \o "fn k() {\n" \o Lets("d", n - 201) \o "let mut e = 1\n" \o
                                "let h = || { let mut s = 0\n" \o Sum("a", 100) \o Sum("c", 100) \o Sum("d", n - 201) \o "e += s\ne }\nt(h())\ne }\nk() }\ng() }\nt(f())\n0"
     (* distances *)
     [] c.kind = "jif"       -> Jump("t(0)\nif w { " \o Fill(c) \o " }")
     [] c.kind = "jthen"     -> Jump("t(if !w { 1 } else { " \o Fill(c) \o "2 })")
     [] c.kind = "jelse"     -> Jump("t(if w { " \o Fill(c) \o "1 } else { 2 })")
     [] c.kind = "jelif"     -> Jump("t(if w { 1 } else if w { " \o Fill(c) \o "2 } else { 3 })")
     [] c.kind = "jwhile"    -> Jump("while more() { t(1)\nif w { " \o Fill(c) \o " } }")
     [] c.kind = "jloop"     -> Jump("loop { if !more() { break }\nif w { " \o Fill(c) \o " }\nt(3) }")
     [] c.kind = "jfor"      -> Jump("for i in [1, 2] { t(i)\nif w { " \o Fill(c) \o " } }")
     [] c.kind = "jrange"    -> Jump("for i in 0..=1 { t(i)\nif w { " \o Fill(c) \o " } }")
     [] c.kind = "jcont"     -> Jump("while more() { if w { " \o Fill(c) \o " }\nt(4)\nif b() { continue }\nt(5) }")
     [] c.kind = "jbreak"    -> Jump("for i in [1, 2] { t(i)\nif b() { break }\nif w { " \o Fill(c) \o " } }")
     [] c.kind = "jand"      -> Jump("t(w && { " \o Fill(c) \o "true })")
     [] c.kind = "jor"       -> Jump("t(!w || { " \o Fill(c) \o "true })")
     [] c.kind = "jcoal"     -> Jump("t(5 ?? { " \o Fill(c) \o "6 })")
     [] c.kind = "jnull"     -> Jump("t(nul?.m({ " \o Fill(c) \o "6 }))")
     [] c.kind = "jorelse"   -> Jump("t(Ok(5) or e { " \o Fill(c) \o "6 })")
     [] OTHER -> "?"

VARIABLES case, done
Init == case \in 1..Len(Input) /\ done = FALSE
Next == /\ ~done
        /\ PrintT("@@" \o ToJson([id |-> Input[case].id, t |-> Text(Input[case])]))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
