----------------------------- MODULE DiceStatic -----------------------------
(* The static rules of Dice: which programs are accepted, and which rule a   *)
(* rejected one breaks.                                                      *)
(*                                                                           *)
(* Violations(tree, kind) is the set of broken rules, each with the code the *)
(* rule is documented under, the token range of the offending construct and  *)
(* the name involved.  A program is accepted iff the set is empty; a         *)
(* compiler that reports one error at a time must report one of them.        *)
EXTENDS Naturals, Sequences, TLC

(* ---- the scopes seen while walking the program in evaluation order ---- *)
(* S = [fs |-> functions, innermost last, errs |-> violations so far]        *)
(* function = [kind, scopes]; scope = [loop, vars]; var = [n, k, m, init]    *)
Top(S)    == S.fs[Len(S.fs)]
TopScope(S) == LET f == Top(S) IN f.scopes[Len(f.scopes)]
Push(S, loop) == [S EXCEPT !.fs[Len(S.fs)].scopes = Append(@, [loop |-> loop, vars |-> <<>>])]
Pop(S)    == [S EXCEPT !.fs[Len(S.fs)].scopes = SubSeq(@, 1, Len(@) - 1)]
Enter(S, kind) == [S EXCEPT !.fs = Append(@, [kind |-> kind, scopes |-> <<[loop |-> FALSE, vars |-> <<>>]>>])]
Leave(S)  == [S EXCEPT !.fs = SubSeq(@, 1, Len(@) - 1)]
Declare(S, v) == LET j == Len(S.fs)  m == Len(S.fs[j].scopes)
                 IN [S EXCEPT !.fs[j].scopes[m].vars = Append(@, v)]
Var(n, m)  == [n |-> n, k |-> "var", m |-> m, init |-> TRUE]
Err(S, code, a, z, d) == [S EXCEPT !.errs = @ \cup {[code |-> code, a |-> a, z |-> z, d |-> d]}]
When(c, S, code, a, z, d) == IF c THEN Err(S, code, a, z, d) ELSE S

InLoop(S) == \E j \in 1..Len(Top(S).scopes) : Top(S).scopes[j].loop

(* the innermost, latest variable of that name in function number f: <<scope, index>>, or <<0, 0>> *)
RECURSIVE FindScope(_, _, _), FindVar(_, _, _)
FindVar(vars, n, j) == IF j = 0 THEN 0 ELSE IF vars[j].n = n THEN j ELSE FindVar(vars, n, j - 1)
FindScope(scopes, n, j) ==
  IF j = 0 THEN <<0, 0>>
  ELSE LET v == FindVar(scopes[j].vars, n, Len(scopes[j].vars))
       IN IF v # 0 THEN <<j, v>> ELSE FindScope(scopes, n, j - 1)
Find(S, f, n) == FindScope(S.fs[f].scopes, n, Len(S.fs[f].scopes))
RECURSIVE Resolve(_, _, _)
(* [f |-> function number (0 = global), v |-> the variable] *)
Resolve(S, f, n) ==
  IF f = 0 THEN [f |-> 0]
  ELSE LET p == Find(S, f, n)
       IN IF p[1] # 0 THEN [f |-> f, j |-> p[1], i |-> p[2], v |-> S.fs[f].scopes[p[1]].vars[p[2]]]
          ELSE Resolve(S, f - 1, n)

Dups(ps) == \E i, j \in 1..Len(ps) : i < j /\ ps[i].n = ps[j].n
Last(n) == IF "z" \in DOMAIN n THEN n.z ELSE n.a

(* functions and classes exist, uninitialised, from the beginning of their block *)
RECURSIVE Hoist(_, _, _)
Hoist(S, es, j) ==
  IF j > Len(es) THEN S
  ELSE LET d == IF es[j].k = "export" THEN es[j].e ELSE es[j]
       IN Hoist(IF d.k \in {"fn", "class"} THEN Declare(S, [n |-> d.n, k |-> d.k, m |-> FALSE, init |-> FALSE]) ELSE S, es, j + 1)

(* the declaration takes effect; it must find its own, still undeclared name *)
Init1(S, n, code) ==
  LET f == Len(S.fs)  r == Resolve(S, f, n.n)
  IN IF r.f = f /\ r.v.k = n.k /\ ~r.v.init
     THEN [S EXCEPT !.fs[f].scopes[r.j].vars[r.i].init = TRUE]
     ELSE Err(S, code, n.a, n.z, n.n)

RECURSIVE Walk(_, _), WalkAll(_, _, _), WalkFn(_, _, _, _, _), WalkParams(_, _, _), WalkMembers(_, _, _, _), DeclAll(_, _, _, _)

WalkAll(S, es, j) == IF j > Len(es) THEN S ELSE WalkAll(Walk(S, es[j]), es, j + 1)
DeclAll(S, ns, m, j) == IF j > Len(ns) THEN S ELSE DeclAll(Declare(S, Var(ns[j], m)), ns, m, j + 1)

Read(S, name, a) ==
  LET r == Resolve(S, Len(S.fs), name)
  IN When(r.f = Len(S.fs) /\ r.f # 0 /\ ~r.v.init, S, "E2402", a, a, name)

WalkParams(S, ps, j) ==
  IF j > Len(ps) THEN S
  ELSE LET S1 == Declare(S, Var(ps[j].n, FALSE))
       IN WalkParams(IF ps[j].ty = <<>> THEN S1 ELSE Read(S1, ps[j].ty[1].n, ps[j].ty[1].a), ps, j + 1)

(* a body block shares the scope of its parameters; any other body is an expression in it *)
WalkFn(S, kind, ps, ret, body) ==
  LET S1 == Push(Enter(S, kind), FALSE)
      S2 == WalkParams(IF kind = "fn" THEN Declare(S1, Var("", FALSE)) ELSE S1, ps, 1)
      S3 == IF body.k = "block" THEN WalkAll(WalkAll(Hoist(S2, body.es \o body.t, 1), body.es, 1), body.t, 1)
            ELSE Walk(S2, body)
      S4 == IF ret = <<>> THEN S3 ELSE Read(S3, ret[1].n, ret[1].a)
  IN Leave(S4)

WalkMembers(S, ms, derived, j) ==
  IF j > Len(ms) THEN S
  ELSE LET m == ms[j]
           self == Len(m.ps) > 0 /\ m.ps[1].n = "self"
           ctor == m.k = "fn" /\ m.n = "new"
           S1 == When(self /\ m.ps[1].ty # <<>>, S, "E2206", m.a, m.z, "")
           S2 == When(m.k = "op" /\ ~self, S1, "E2202", m.a, m.z, "")
           S3 == When(ctor /\ ~self, S2, "E2201", m.a, m.z, "")
           S4 == When(ctor /\ m.ret # <<>>, S3, "E2200", m.a, m.z, "")
           S5 == When(Dups(m.ps), S4, "E2207", m.a, m.z, "")
           body == m.e.es \o m.e.t
           S6 == When(ctor /\ derived /\ (body = <<>> \/ (body # <<>> /\ body[1].k # "supc")), S5, "E2203", m.a, m.z, "")
       IN WalkMembers(WalkFn(S6, IF ~self THEN "fn" ELSE IF ctor THEN "ctor" ELSE "method", m.ps, m.ret, m.e),
                      ms, derived, j + 1)

Walk(S, n) ==
  CASE n.k \in {"null", "unit", "int", "flt", "str", "bool"} -> S
    [] n.k = "id"   -> Read(S, n.n, n.a)
    [] n.k \in {"list", "obj"} -> WalkAll(S, n.es, 1)
    [] n.k = "afn"  -> WalkFn(When(Dups(n.ps), S, "E2207", n.a, Last(n), ""), "fn", n.ps, n.ret, n.e)
    [] n.k = "fld"  -> Walk(S, n.e)
    [] n.k = "idx"  -> Walk(Walk(S, n.e), n.i)
    [] n.k = "supf" -> IF Top(S).kind \in {"method", "ctor"}
                       THEN (IF n.c = <<>> THEN S ELSE Read(S, n.c[1], n.a))
                       ELSE Err(S, "E2205", n.a, n.a, "")
    [] n.k = "supc" -> WalkAll(When(Top(S).kind \notin {"method", "ctor"}, S, "E2205", n.a, n.a, ""), n.es, 1)
    [] n.k \in {"un", "np"} -> Walk(S, n.e)
    [] n.k = "bin"  -> IF n.op = "Pipeline" THEN Walk(Walk(S, n.r), n.l) ELSE Walk(Walk(S, n.l), n.r)
    [] n.k = "is"   -> Read(Walk(S, n.e), n.ty.n, n.ty.a)
    [] n.k = "ep"   -> Walk(When(Top(S).kind \notin {"fn", "method"}, S, "E2503", n.a, n.z, ""), n.e)
    [] n.k = "or"   -> LET S1 == Push(Walk(S, n.e), FALSE)
                           S2 == Walk(Push(Declare(S1, Var(n.n, FALSE)), FALSE), n.b)
                       IN Pop(Pop(S2))
    [] n.k = "asg"  ->
         (CASE n.l.k = "id" ->
                LET r == Resolve(S, Len(S.fs), n.l.n)
                    S1 == IF r.f = 0 THEN Err(S, "E2401", n.a, n.z, n.l.n)
                          ELSE When(~r.v.m, S, "E2403", n.a, n.z, n.l.n)
                IN Walk(S1, n.r)
            [] OTHER -> Walk(Walk(S, n.l), n.r))
    [] n.k = "let"  -> DeclAll(Walk(S, n.e), n.ns, n.mut, 1)
    [] n.k = "fn"   -> Init1(WalkFn(When(Dups(n.ps), S, "E2207", n.a, n.z, ""), "fn", n.ps, n.ret, n.e), n, "E2301")
    [] n.k = "op"   -> WalkFn(When(Dups(n.ps), S, "E2207", n.a, n.z, ""), "fn", n.ps, n.ret, n.e)
    [] n.k = "class" ->
         LET S1 == WalkAll(Push(S, FALSE), n.base, 1)
             S2 == Init1(Declare(S1, Var("super", TRUE)), n, "E2300")
         IN Pop(WalkMembers(S2, n.ms, n.base # <<>>, 1))
    [] n.k = "import" -> DeclAll(DeclAll(S, n.ns, FALSE, 1), n.m, FALSE, 1)
    [] n.k = "export" ->
         LET S1 == When(Top(S).kind # "module" \/ Len(Top(S).scopes) > 2, S, "E2504", n.a, n.z, "")
             S2 == When(n.e.k = "let" /\ n.e.d, S1, "E2504", n.a, n.z, "")
         IN Walk(S2, n.e)
    [] n.k = "if"    -> WalkAll(Walk(Walk(S, n.c), n.t), n.f, 1)
    [] n.k = "loop"  -> Pop(Walk(Push(S, TRUE), n.e))
    [] n.k = "while" -> Pop(Walk(Walk(Push(S, TRUE), n.c), n.e))
    [] n.k = "for"   ->
         LET S1 == IF n.s.k = "bin" /\ n.s.op \in {"RangeExclusive", "RangeInclusive"}
                   THEN Walk(Walk(S, n.s.r), n.s.l) ELSE Walk(S, n.s)
         IN Pop(Walk(Declare(Push(S1, TRUE), Var(n.n, FALSE)), n.e))
    [] n.k = "block" ->
         LET S1 == Hoist(Push(S, FALSE), n.es \o n.t, 1)
         IN Pop(WalkAll(WalkAll(S1, n.es, 1), n.t, 1))
    [] n.k = "break"    -> When(~InLoop(S), S, "E2501", n.a, n.a, "")
    [] n.k = "continue" -> When(~InLoop(S), S, "E2502", n.a, n.a, "")
    [] n.k = "return" ->
         LET S1 == When(Top(S).kind \notin {"fn", "method", "ctor"}, S, "E2500", n.a, n.z, "")
             S2 == When(Top(S).kind = "ctor" /\ n.e # <<>>, S1, "E2204", n.a, n.z, "")
         IN WalkAll(S2, n.e, 1)
    [] n.k = "call" -> WalkAll(Walk(S, n.e), n.es, 1)

Violations(tree, kind) ==
  Walk([fs |-> <<[kind |-> kind, scopes |-> <<[loop |-> FALSE, vars |-> <<>>]>>]>>, errs |-> {}], tree).errs
=============================================================================
