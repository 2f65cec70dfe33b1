------------------------------ MODULE DiceGen ------------------------------
(* Derivations of Dice programs.                                             *)
(*                                                                           *)
(* Every choice a derivation makes is taken from a source of choices: either *)
(* a given sequence (so that TLC can enumerate all derivations by extending  *)
(* sequences, see DiceGenAll) or a pseudo-random stream (so that any number  *)
(* of derivations of any size can be drawn reproducibly, see DiceGenRand).   *)
(* Names are tracked, so that derivations are mostly accepted, typed enough  *)
(* to run, and terminate.                                                    *)
(*                                                                           *)
(* g = [s |-> text so far, c |-> context, sz |-> budget, nv |-> name counter,*)
(*      w |-> weights (production name lists), choices: pre/p/need or x/y/z] *)
EXTENDS Integers, Sequences, TLC

(* ---- choices ---- *)
Ch(g, n) == IF g.md = "r" THEN (g.x + g.y + g.z) % n
            ELSE IF g.p < Len(g.pre) THEN g.pre[g.p + 1] ELSE 0
Nx(g, n) == IF g.md = "r" THEN [g EXCEPT !.x = (171 * @) % 30269, !.y = (172 * @) % 30307, !.z = (170 * @) % 30323]
            ELSE IF n = 1 THEN g
            ELSE IF g.p < Len(g.pre) THEN [g EXCEPT !.p = @ + 1]
            ELSE [g EXCEPT !.p = @ + 1, !.need = IF @ = 0 THEN n ELSE @]
Pick(g, xs) == xs[Ch(g, Len(xs)) + 1]
Nxs(g, xs) == Nx(g, Len(xs))
Gen0(w, sz) == [s |-> "", sz |-> sz, nv |-> 0, w |-> w, md |-> "e", pre |-> <<>>, p |-> 0, need |-> 0, x |-> 0, y |-> 0, z |-> 0,
                c |-> [vars |-> <<>>, fn |-> FALSE, loop |-> FALSE, blk |-> <<>>, cls |-> "", d |-> 0]]
RECURSIVE Warm(_, _)
Warm(g, k) == IF k = 0 THEN g ELSE Warm(Nx(g, 1), k - 1)
Seeded(g, seed, i) == Warm([g EXCEPT !.md = "r", !.x = 1 + ((i * 31 + seed * 977) % 30268),
                                     !.y = 1 + ((i * 17 + seed * 131 + 7) % 30306), !.z = 1 + ((i * 7 + seed * 53 + 3) % 30322)], 5)
Chosen(g, pre) == [g EXCEPT !.pre = pre]

(* ---- output and context ---- *)
Out(g, s) == [g EXCEPT !.s = @ \o s]
Cost(g, k) == [g EXCEPT !.sz = @ - k]
Poor(g) == g.sz <= 0
InCtx(g, c) == [g EXCEPT !.c = c]
AddVar(g, n, ty, mu) == [g EXCEPT !.c.vars = Append(@, [n |-> n, ty |-> ty, m |-> mu])]
Fresh(g) == [g EXCEPT !.nv = @ + 1]
(* visible variables of a type: the latest declaration of a name hides the others *)
Visible(g, ok(_)) == LET vs == g.c.vars
                     IN SelectSeq([j \in 1..Len(vs) |-> [vs[j] EXCEPT !.n = IF \E k \in (j + 1)..Len(vs) : vs[k].n = vs[j].n THEN "" ELSE @]],
                                  LAMBDA v : v.n # "" /\ ok(v))
OfType(g, ty) == Visible(g, LAMBDA v : v.ty = ty)
Mutable(g, ty) == Visible(g, LAMBDA v : v.ty = ty /\ v.m)
Names4 == <<"x", "y", "z", "w">>

(* ---- precedence levels of DiceGrammar ---- *)
lAny == 1  lPipe == 2  lCoal == 3  lRange == 4  lOr == 5  lAnd == 6  lCmp == 7  lTerm == 8  lFactor == 9  lUn == 10  lProp == 11  lCall == 12
Hazard == {"(", "[", "-", "|", "\\"}

RECURSIVE E(_, _, _), Stmt(_), Stmts(_, _), Blk(_, _), Int_(_, _, _), Bool_(_, _, _), Nul(_, _, _), Obj(_, _, _), Opt(_, _, _),
          Fun(_, _, _), Res(_, _, _), Lst(_, _, _), Inst(_, _, _), TailE(_, _), ClassText(_, _)

Paren(g, need, body(_)) == IF need THEN Out(body(Out(g, "(")), ")") ELSE body(g)
BinE(g, p, op, lv, lt, rt) == Paren(g, p > lv, LAMBDA h : E(Out(E(h, lt, lv), " " \o op \o " "), rt, lv + 1))

(* the value of a block of type ty: { statements value } *)
TailE(g, ty) ==
  LET h == E([g EXCEPT !.s = ""], ty, lAny)
      hz == g.s # "{ " /\ h.s # "" /\ SubSeq(h.s, 1, 1) \in Hazard
  IN [h EXCEPT !.s = IF hz THEN g.s \o "t(" \o h.s \o ")" ELSE g.s \o h.s]
(* a block; ty = "U" when its value does not matter *)
Blk(g, ty) ==
  LET n == IF Poor(g) THEN 0 ELSE Ch(g, 3)
      g1 == IF Poor(g) THEN g ELSE Nx(g, 3)
      c == g1.c
      inner == [g1 EXCEPT !.s = "{ ", !.c.blk = <<>>, !.c.d = @ + 1]
      b == Stmts(inner, IF ty = "U" THEN n + 1 ELSE n)
      r == IF ty = "U" THEN b ELSE Out(TailE(b, ty), " ")
  IN [r EXCEPT !.s = g.s \o r.s \o "}", !.c = c]
Stmts(g, n) == IF n = 0 THEN g               \* each statement gets its share of the budget
               ELSE LET sh == IF Poor(g) THEN g.sz ELSE (g.sz + n - 1) \div n
                        h == Out(Stmt([g EXCEPT !.sz = sh]), "\n")
                    IN Stmts([h EXCEPT !.sz = g.sz - (sh - h.sz)], n - 1)

IfE(g, ty) ==
  LET g1 == Blk(Out(E(Out(g, "if "), "B", lAny), " "), ty)
  IN Blk(Out(g1, " else "), ty)

E(g, ty, p) ==
  CASE ty = "I" -> Int_(g, p, IF Poor(g) THEN <<"lit", "var">> ELSE g.w.I)
    [] ty = "B" -> Bool_(g, p, IF Poor(g) THEN <<"lit", "b", "b">> ELSE g.w.B)
    [] ty = "N" -> Nul(g, p, IF Poor(g) THEN <<"null", "var">> ELSE g.w.N)
    [] ty = "O" -> Obj(g, p, IF Poor(g) THEN <<"var">> ELSE g.w.O)
    [] ty = "Q" -> Opt(g, p, IF Poor(g) THEN <<"null", "var">> ELSE g.w.Q)
    [] ty = "F" -> Fun(g, p, IF Poor(g) THEN <<"var">> ELSE g.w.F)
    [] ty = "R" -> Res(g, p, IF Poor(g) THEN <<"obj">> ELSE g.w.R)
    [] ty = "L" -> Lst(g, p, IF Poor(g) THEN <<"var">> ELSE g.w.L)
    [] OTHER    -> Inst(g, p, ty)

VarOr(g, ty, other(_)) == LET vs == OfType(g, ty)
                          IN IF vs = <<>> THEN other(g) ELSE Out(Nxs(g, vs), Pick(g, vs).n)
IntLits == <<"0", "1", "2", "3", "7", "10">>
IntLit(g) == Out(Nxs(g, IntLits), Pick(g, IntLits))

Int_(g0, p, ps) ==
  LET k == Pick(g0, ps)  g == Cost(Nxs(g0, ps), 1) IN
  CASE k = "lit" -> IntLit(g)
    [] k = "var" -> VarOr(g, "I", IntLit)
    [] k = "add" -> BinE(g, p, "+", lTerm, "I", "I")
    [] k = "sub" -> BinE(g, p, "-", lTerm, "I", "I")
    [] k = "mul" -> BinE(g, p, "*", lFactor, "I", "I")
    [] k = "div" -> Paren(g, p > lFactor, LAMBDA h : Out(E(h, "I", lFactor), " / 2"))
    [] k = "rem" -> Paren(g, p > lFactor, LAMBDA h : Out(E(h, "I", lFactor), " % 3"))
    [] k = "neg" -> Paren(g, p > lUn, LAMBDA h : E(Out(h, "- "), "I", lUn))
    [] k = "t"   -> Out(E(Out(g, "t("), "I", lAny), ")")
    [] k = "coal" -> BinE(g, p, "??", lCoal, "N", "I")
    [] k = "if"  -> Paren(g, p > lAny, LAMBDA h : IfE(h, "I"))
    [] k = "blk" -> Blk(g, "I")
    [] k = "call" -> Out(E(Out(E(g, "F", lCall), "("), "I", lAny), ")")
    [] k = "call2" -> Out(E(Out(E(Out(E(g, "F", lCall), "("), "I", lAny), ", "), "I", lAny), ")")
    [] k = "pipe" -> BinE(g, p, "|>", lPipe, "I", "F")
    [] k = "idx" -> Out(E(Out(E(g, "L", lCall), "["), "X", lAny), "]")
    [] k = "len" -> Out(E(g, "L", lCall), ".length()")
    [] k = "fld" -> Out(E(g, "O", lCall), ".a")
    [] k = "meth" -> Out(E(Out(E(g, "O", lCall), ".f("), "I", lAny), ")")
    [] k = "ep"  -> IF g.c.fn THEN Out(E(g, "R", lProp), "!!") ELSE Paren(g, p > lCoal, LAMBDA h : Blk(Out(E(h, "R", lCoal), " or e "), "I"))
    [] k = "or"  -> Paren(g, p > lCoal, LAMBDA h :
                      LET h1 == Out(E(h, "R", lCoal), " or ex ")  r == Blk(AddVar(h1, "ex", "I", FALSE), "I") IN InCtx(r, h1.c))
    [] k = "ret" -> IF ~g.c.fn THEN IntLit(g)
                    ELSE Paren(g, p > lAny, LAMBDA h : Out(E(Out(Out(E(Out(Out(E(Out(h, "if "), "B", lAny), " { return "), ""), "I", lAny), " } else { "), ""), "I", lAny), " }"))
    [] k = "brk" -> IF ~g.c.loop THEN IntLit(g)
                    ELSE Paren(g, p > lAny, LAMBDA h : Out(E(Out(E(Out(h, "if "), "B", lAny), " { break } else { "), "I", lAny), " }"))
    [] k = "cnt" -> IF ~g.c.loop THEN IntLit(g)
                    ELSE Paren(g, p > lAny, LAMBDA h : Out(E(Out(E(Out(h, "if "), "B", lAny), " { continue } else { "), "I", lAny), " }"))
    [] k = "iife" -> LET c == g.c  h == Out(g, "(|x| ")
                         b == E([AddVar(h, "x", "I", FALSE) EXCEPT !.c.fn = TRUE, !.c.loop = FALSE], "I", lAny)
                     IN Out(E(Out(InCtx(b, c), ")("), "I", lAny), ")")
    [] k = "inst" -> LET vs == Visible(g, LAMBDA v : v.ty = "C")
                     IN IF vs = <<>> THEN IntLit(g) ELSE Out(E(g, "K", lCall), ".get()")
    [] k = "instop" -> LET vs == Visible(g, LAMBDA v : v.ty = "C")
                       IN IF vs = <<>> THEN IntLit(g) ELSE BinE(g, p, "+", lTerm, "K", "I")
    [] k = "stat" -> LET vs == Visible(g, LAMBDA v : v.ty = "C")
                     IN IF vs = <<>> THEN IntLit(g) ELSE Out(E(Out(Nxs(g, vs), Pick(g, vs).n \o ".make("), "I", lAny), ")")
    [] k = "isn" -> Paren(g, p > lAny, LAMBDA h : Blk(Out(Blk(Out(E(Out(h, "if "), "N", lCmp), " is Int "), "I"), " else "), "I"))
    [] OTHER -> IntLit(g)

Bool_(g0, p, ps) ==
  LET k == Pick(g0, ps)  g == Cost(Nxs(g0, ps), 1) IN
  CASE k = "lit" -> Out(Nx(g, 2), IF Ch(g, 2) = 0 THEN "true" ELSE "false")
    [] k = "b"   -> Out(g, "b()")
    [] k = "lt"  -> BinE(g, p, "<", lCmp, "I", "I")
    [] k = "gte" -> BinE(g, p, ">=", lCmp, "I", "I")
    [] k = "eq"  -> BinE(g, p, "==", lCmp, "I", "I")
    [] k = "nz"  -> Paren(g, p > lCmp, LAMBDA h : Out(E(h, "N", lCmp), " != null"))
    [] k = "not" -> Paren(g, p > lUn, LAMBDA h : E(Out(h, "!"), "B", lUn))
    [] k = "and" -> BinE(g, p, "&&", lAnd, "B", "B")
    [] k = "or"  -> BinE(g, p, "||", lOr, "B", "B")
    [] k = "is"  -> Paren(g, p > lCmp, LAMBDA h : Out(E(h, "N", lCmp), " is Int"))
    [] k = "isq" -> Paren(g, p > lCmp, LAMBDA h : Out(E(h, "N", lCmp), " is Int?"))
    [] k = "iff" -> Paren(g, p > lAny, LAMBDA h : IfE(h, "B"))
    [] k = "t"   -> Out(E(Out(g, "t("), "B", lAny), ")")
    [] OTHER -> Out(g, "b()")

Nul(g0, p, ps) ==
  LET k == Pick(g0, ps)  g == Cost(Nxs(g0, ps), 1) IN
  CASE k = "null" -> Out(g, "null")
    [] k = "mb"  -> Out(E(Out(g, "mb("), "I", lAny), ")")
    [] k = "var" -> VarOr(g, "N", LAMBDA h : E(h, "I", p))
    [] k = "int" -> E(g, "I", p)
    [] k = "fld" -> Paren(g, p > lProp, LAMBDA h : Out(E(h, "Q", lProp), "?.a"))
    [] k = "meth" -> Paren(g, p > lProp, LAMBDA h : Out(E(Out(E(h, "Q", lProp), "?.f("), "I", lAny), ")"))
    [] k = "deep" -> Paren(g, p > lProp, LAMBDA h : Out(E(h, "Q", lProp), "?.n?.a"))
    [] k = "idx" -> Paren(g, p > lProp, LAMBDA h : Out(E(Out(E(h, "Q", lProp), "?.l["), "X", lAny), "]"))
    [] k = "if"  -> Paren(g, p > lAny, LAMBDA h : IfE(h, "N"))
    [] k = "coal" -> BinE(g, p, "??", lCoal, "N", "N")
    [] OTHER -> Out(g, "null")

ObjLit(g) == Out(E(Out(E(Out(E(Out(E(Out(g, "#{ a: "), "I", lAny), ", n: "), "Q", lAny), ", f: "), "F", lAny), ", \"l\": "), "L", lAny), " }")
Obj(g0, p, ps) ==
  LET k == Pick(g0, ps)  g == Cost(Nxs(g0, ps), 2) IN
  CASE k = "var" -> VarOr(g, "O", ObjLit)
    [] k = "lit" -> ObjLit(g)
    [] k = "coal" -> BinE(g, p, "??", lCoal, "Q", "O")
    [] OTHER -> ObjLit(g)
Opt(g0, p, ps) ==
  LET k == Pick(g0, ps)  g == Cost(Nxs(g0, ps), 1) IN
  CASE k = "null" -> Out(g, "null")
    [] k = "mb" -> Out(E(Out(g, "mb("), "O", lAny), ")")
    [] k = "var" -> VarOr(g, "Q", LAMBDA h : Out(h, "null"))
    [] k = "obj" -> E(g, "O", p)
    [] k = "nest" -> Paren(g, p > lProp, LAMBDA h : Out(E(h, "Q", lProp), "?.n"))
    [] OTHER -> Out(g, "null")

(* a function of two int parameters (the second often not passed), with an optional result type *)
Body(g, ps) ==           \* a function body: block in a fresh function context
  LET c == g.c
      AddAll == [g EXCEPT !.c.vars = @ \o ps, !.c.fn = TRUE, !.c.loop = FALSE]
      b == Blk(AddAll, "I")
  IN InCtx(b, c)
IVar(n) == [n |-> n, ty |-> "I", m |-> FALSE]
AnyVar(n) == [n |-> n, ty |-> "A", m |-> FALSE]
AFun(g, p) ==
  LET k == Ch(g, 3)  h == Nx(g, 3)  c == g.c  nm == Pick(h, Names4)  h1 == Nxs(h, Names4) IN
  CASE k = 0 -> LET b == E([AddVar(Out(h1, "|" \o nm \o "| "), nm, "I", FALSE) EXCEPT !.c.fn = TRUE, !.c.loop = FALSE], "I", lAny) IN InCtx(b, c)
    [] k = 1 -> LET b == Blk([AddVar(Out(h1, "|" \o nm \o ": Int, k| "), nm, "I", FALSE) EXCEPT !.c.fn = TRUE, !.c.loop = FALSE], "I") IN InCtx(b, c)
    [] OTHER -> LET b == Blk([Out(h1, "|| ") EXCEPT !.c.fn = TRUE, !.c.loop = FALSE], "I") IN InCtx(b, c)
Fun(g0, p, ps) ==
  LET k == Pick(g0, ps)  g == Cost(Nxs(g0, ps), 2) IN
  CASE k = "var" -> VarOr(g, "F", LAMBDA h : Out(h, "t"))
    [] k = "t"   -> Out(g, "t")
    [] k = "afn" -> Paren(g, p > lAny, LAMBDA h : AFun(h, p))
    [] k = "if"  -> Paren(g, p > lAny, LAMBDA h : IfE(h, "F"))
    [] OTHER -> Out(g, "t")
ResLit(g, mk) == Out(E(Out(g, mk \o "("), "I", lAny), ")")
Res(g0, p, ps) ==
  LET k == Pick(g0, ps)  g == Cost(Nxs(g0, ps), 1) IN
  CASE k = "var" -> VarOr(g, "R", LAMBDA h : Out(h, "Err(4)"))
    [] k = "ok"  -> ResLit(g, "Ok")
    [] k = "err" -> ResLit(g, "Err")
    [] k = "any" -> Paren(g, p > lAny, LAMBDA h : Out(ResLit(Out(ResLit(Out(h, "if b() { "), "Ok"), " } else { "), "Err"), " }"))
    [] k = "if"  -> Paren(g, p > lAny, LAMBDA h : IfE(h, "R"))
    [] OTHER -> Out(g, "Ok(5)")
LstLit(g) == Out(E(Out(E(Out(E(Out(g, "["), "I", lAny), ", "), "I", lAny), ", "), "I", lAny), "]")
Lst(g0, p, ps) ==
  LET k == Pick(g0, ps)  g == Cost(Nxs(g0, ps), 1) IN
  CASE k = "var" -> VarOr(g, "L", LstLit)
    [] OTHER -> LstLit(g)
(* "X": a valid index, perhaps evaluated with an effect; "K": an instance of some class in sight *)
Inst(g, p, ty) ==
  IF ty = "X" THEN LET xs == <<"0", "1", "2", "t(1)", "if b() { 0 } else { 2 }">> IN Out(Nxs(g, xs), Pick(g, xs))
  ELSE LET vs == OfType(g, "K")  cs == OfType(g, "C")  k == Ch(g, 2)  h == Cost(Nx(g, 2), 1)
       IN IF vs # <<>> /\ k = 0 THEN Out(Nxs(h, vs), Pick(h, vs).n)
          ELSE IF cs = <<>> THEN Out(h, "null")
          ELSE Out(E(Out(Nxs(h, cs), Pick(h, cs).n \o "("), "I", lAny), ")")

FnNames == <<"f", "g", "h">>
RetTypes == <<"", "", " -> Int", " -> Int?", " -> Any">>
ParTypes == <<"", "", ": Int", ": Int?", ": Any">>
NotIn(xs, seen) == SelectSeq(xs, LAMBDA n : \A j \in 1..Len(seen) : seen[j] # n)

Stmt(g0) ==
  LET ps == IF Poor(g0) THEN <<"t">> ELSE g0.w.S
      k == Pick(g0, ps)  g == Cost(Nxs(g0, ps), 1) IN
  CASE k = "let" ->
         LET ty == Pick(g, g.w.T)  g1 == Nxs(g, g.w.T)  m == Ch(g1, 2) = 0  g2 == Nx(g1, 2)
             n == Pick(g2, Names4)  g3 == Nxs(g2, Names4)
             \* the name must not be one declared as a function or class of this very block
             h == E(Out(g3, "let " \o (IF m THEN "mut " ELSE "") \o n \o " = "), ty, lAny)
         IN [AddVar(h, n, ty, m) EXCEPT !.c.blk = @]
    [] k = "letd" ->
         LET h == E(Out(g, "let { a, f } = "), "O", lAny)
         IN AddVar(AddVar(h, "a", "I", FALSE), "f", "F", FALSE)
    [] k = "asg" ->
         LET vs == Mutable(g, "I") IN
         IF vs = <<>> THEN Out(E(Out(g, "t("), "I", lAny), ")")
         ELSE LET ops == <<" = ", " += ", " -= ", " = ", " += ", " *= ">>  g1 == Nxs(g, vs)
              IN E(Out(Nxs(g1, ops), Pick(g, vs).n \o Pick(g1, ops)), "I", lAny)
    [] k = "asgn" ->
         LET vs == Mutable(g, "N") IN
         IF vs = <<>> THEN Out(E(Out(g, "t("), "N", lAny), ")") ELSE E(Out(Nxs(g, vs), Pick(g, vs).n \o " = "), "N", lAny)
    [] k = "asgf" ->
         LET vs == Mutable(g, "F") IN
         IF vs = <<>> THEN Out(E(Out(g, "t("), "I", lAny), ")") ELSE E(Out(Nxs(g, vs), Pick(g, vs).n \o " = "), "F", lAny)
    [] k = "fasg" ->
         LET vs == OfType(g, "O")  ops == <<" = ", " += ", " -= ">> IN
         IF vs = <<>> THEN Out(E(Out(g, "t("), "O", lAny), ")")
         ELSE LET g1 == Nxs(g, vs) IN E(Out(Nxs(g1, ops), Pick(g, vs).n \o ".a" \o Pick(g1, ops)), "I", lAny)
    [] k = "iasg" ->
         LET vs == OfType(g, "L")  ops == <<" = ", " += ", " *= ">> IN
         IF vs = <<>> THEN Out(E(Out(g, "t("), "L", lAny), ")")
         ELSE LET g1 == Nxs(g, vs) IN E(Out(E(Out(Nxs(g1, ops), Pick(g, vs).n \o "["), "X", lAny), "]" \o Pick(g1, ops)), "I", lAny)
    [] k = "push" ->
         LET vs == OfType(g, "M") IN
         IF vs = <<>> THEN AddVar(Out(g, "let fs = []"), "fs", "M", FALSE)
         ELSE Out(E(Out(g, Pick(g, vs).n \o ".push("), "F", lAny), ")")
    [] k = "runf" ->
         LET vs == OfType(g, "M") IN
         IF vs = <<>> THEN AddVar(Out(g, "let fs = []"), "fs", "M", FALSE)
         ELSE Out(E(Out(g, "for q in " \o Pick(g, vs).n \o " { t(q("), "I", lAny), ")) }")
    [] k = "t"  -> Out(E(Out(g, "t("), "I", lAny), ")")
    [] k = "tb" -> Out(E(Out(g, "t("), "B", lAny), ")")
    [] k = "tn" -> Out(E(Out(g, "t("), "N", lAny), ")")
    [] k = "to" -> Out(E(Out(g, "t("), "O", lAny), ")")
    [] k = "if" -> Blk(Out(E(Out(g, "if "), "B", lAny), " "), "U")
    [] k = "ife" -> IfE(g, "U")
    [] k = "elif" -> LET g1 == Blk(Out(E(Out(g, "if "), "B", lAny), " "), "U")
                     IN IfE(Out(g1, " else "), "U")
    [] k = "blk" -> Blk(g, "U")
    [] k = "while" ->
         LET cs == <<"more()", "b()", "more() && b()", "{ t(1) more() }">>
             g1 == Out(Nxs(g, cs), "while " \o Pick(g, cs) \o " ")
             b == Blk([g1 EXCEPT !.c.loop = TRUE], "U")
         IN InCtx(b, g.c)
    [] k = "loop" ->
         LET g1 == Out(g, "loop { if !more() { break }\n")
             inner == [g1 EXCEPT !.s = "{ ", !.c.loop = TRUE, !.c.blk = <<>>]
             n == Ch(inner, 3)  b == Stmts(Nx(inner, 3), n + 1)
         IN [b EXCEPT !.s = g1.s \o SubSeq(b.s, 3, Len(b.s)) \o "}", !.c = g.c]
    [] k = "for" ->
         LET rs == <<"0..3", "1..=2", "0..t(2)", "2..2", "0..=0">>  n == Pick(g, Names4)  g1 == Nxs(g, Names4)
             g2 == Out(Nxs(g1, rs), "for " \o n \o " in " \o Pick(g1, rs) \o " ")
             b == Blk([AddVar(g2, n, "I", FALSE) EXCEPT !.c.loop = TRUE], "U")
         IN InCtx(b, g.c)
    [] k = "forl" ->
         LET n == Pick(g, Names4)  g1 == Nxs(g, Names4)
             g2 == Out(E(Out(g1, "for " \o n \o " in "), "L", lCall), " ")
             b == Blk([AddVar(g2, n, "I", FALSE) EXCEPT !.c.loop = TRUE], "U")
         IN InCtx(b, g.c)
    [] k = "brk" -> IF g.c.loop THEN Out(g, "break") ELSE Out(g, "t(0)")
    [] k = "brkif" -> IF g.c.loop THEN Out(g, "if b() { break }") ELSE Out(g, "t(0)")
    [] k = "cntif" -> IF g.c.loop THEN Out(g, "if b() { continue }") ELSE Out(g, "t(0)")
    [] k = "retif" -> IF g.c.fn THEN Out(E(Out(E(Out(g, "if "), "B", lAny), " { return "), "I", lAny), " }") ELSE Out(g, "t(0)")
    [] k = "epst" -> IF g.c.fn THEN Out(E(Out(g, "t("), "R", lProp), "!!)") ELSE Out(g, "t(0)")
    [] k = "fn" ->
         LET av == NotIn(FnNames, g.c.blk) IN
         IF av = <<>> THEN Out(g, "t(0)")
         ELSE LET nm == Pick(g, av)  g1 == Nxs(g, av)
                  p1 == Pick(g1, Names4)  g2 == Nxs(g1, Names4)
                  pt == Pick(g2, ParTypes)  g3 == Nxs(g2, ParTypes)
                  rt == Pick(g3, RetTypes)  g4 == Nxs(g3, RetTypes)
                  two == Ch(g4, 2) = 1 /\ p1 # "k"  g5 == Nx(g4, 2)
                  \* the block's own function names are not visible inside (no unbounded recursion)
                  hid == SelectSeq(g5.c.vars, LAMBDA v : v.n # nm)
                  b == Body([Out(g5, "fn " \o nm \o "(" \o p1 \o pt \o (IF two THEN ", k" ELSE "") \o ")" \o rt \o " ") EXCEPT !.c.vars = hid],
                            <<IVar(p1)>>)
              IN [AddVar(InCtx(b, g5.c), nm, "F", FALSE) EXCEPT !.c.blk = Append(@, nm)]
    [] k = "rec" ->
         LET nm == "r" \o ToString(g.nv)  g1 == Fresh(g)
             b == E([AddVar(Out(g1, "fn " \o nm \o "(n) { if n <= 0 { 1 } else { let v = "), "n", "I", FALSE) EXCEPT !.c.fn = TRUE, !.c.loop = FALSE], "I", lAny)
             b2 == E(AddVar(Out(b, " let r = "), "v", "I", FALSE), "I", lTerm)
         IN InCtx(Out(b2, " + " \o nm \o "(n - 1) v + r } } t(" \o nm \o "(3))"), g.c)
    [] k = "fwd" ->
         LET n == ToString(g.nv)  g1 == Fresh(g)
             b == E(Out(g1, "fn p" \o n \o "() { s" \o n \o "("), "I", lAny)
             b2 == E([AddVar(Out(InCtx(b, g1.c), ") }\nfn s" \o n \o "(x) { "), "x", "I", FALSE) EXCEPT !.c.fn = TRUE, !.c.loop = FALSE], "I", lAny)
         IN Out(InCtx(b2, g1.c), " }\nt(p" \o n \o "())")
    [] k = "class" -> ClassText(g, "")
    [] k = "sub" -> LET cs == OfType(g, "C") IN IF cs = <<>> THEN ClassText(g, "") ELSE ClassText(Nxs(g, cs), Pick(g, cs).n)
    [] k = "set" -> LET vs == OfType(g, "K") IN IF vs = <<>> THEN Out(g, "t(0)") ELSE Out(E(Out(Nxs(g, vs), Pick(g, vs).n \o ".set("), "I", lAny), ")")
    [] k = "kasg" -> LET vs == OfType(g, "K") IN IF vs = <<>> THEN Out(g, "t(0)") ELSE E(Out(Nxs(g, vs), Pick(g, vs).n \o ".v += "), "I", lAny)
    [] OTHER -> Out(g, "t(0)")

(* a class with a field v, methods get/set, a static make, an operator; derived ones override some *)
ClassText(g, base) ==
  LET nm == "C" \o ToString(g.nv)  g1 == Fresh(g)
      Meth(h, head, ps, ty) == LET b == Blk([Out(h, head) EXCEPT !.c.vars = @ \o ps, !.c.fn = TRUE, !.c.loop = FALSE], ty) IN Out(InCtx(b, g1.c), "\n")
      k == Ch(g1, 4)  g2 == Nx(g1, 4)
      self == [n |-> "self", ty |-> "K", m |-> FALSE]
      a == Out(g2, "class " \o nm \o (IF base = "" THEN "" ELSE " : " \o base) \o " {\n")
      ctor == IF base = ""
              THEN LET b == E([Out(a, "fn new(self, v) { self.v = v t(") EXCEPT !.c.vars = @ \o <<IVar("v")>>, !.c.fn = FALSE, !.c.loop = FALSE], "I", lAny)
                   IN Out(InCtx(b, g1.c), ") }\n")
              ELSE LET b == E([Out(a, "fn new(self, v) { super(") EXCEPT !.c.vars = @ \o <<IVar("v")>>, !.c.fn = FALSE, !.c.loop = FALSE], "I", lAny)
                   IN Out(InCtx(b, g1.c), IF k = 0 THEN ") if b() { return } t(8) }\n" ELSE ") }\n")
      get == IF base # "" /\ k = 1 THEN ctor
             ELSE LET b == E([Out(ctor, IF base = "" THEN "fn get(self) { self.v + " ELSE "fn get(self) { super.get() + ")
                               EXCEPT !.c.fn = TRUE, !.c.loop = FALSE], "I", lTerm + 1)
                  IN Out(InCtx(b, g1.c), " }\n")
      set == IF base # "" /\ k < 2 THEN get ELSE Out(get, "fn set(self, n) { self.v = n (|| self)() }\n")
      mk == IF base # "" /\ k = 2 THEN set ELSE Meth(set, "fn make(x) ", <<IVar("x")>>, "I")
      op == IF base # "" /\ k = 3 THEN mk
            ELSE LET b == E([Out(mk, "op +(self, o) { self.v * 2 + o + ") EXCEPT !.c.vars = @ \o <<IVar("o")>>, !.c.fn = TRUE, !.c.loop = FALSE], "I", lTerm + 1)
                 IN Out(InCtx(b, g1.c), " }\n")
  IN AddVar(Out(op, "}"), nm, "C", FALSE)

(* a whole script: n statements and a value *)
Script(g, n) == Out(TailE(Stmts(g, n + 1), "I"), "\n")
=============================================================================
