------------------------------ MODULE DiceSpan ------------------------------
(* The source range of every node of the real parser's tree against the      *)
(* tokens the grammar derives the node from: from the first byte of its       *)
(* first token up to the last byte of its last.  Cases are texts whose trees  *)
(* agree, with real the tree of the parser, its nodes carrying sp.       *)
EXTENDS DiceLex, DiceGrammar, Json, IOUtils

Cases == JsonDeserialize(IOEnv.DICE_CASES)

RECURSIVE Diffs(_, _, _)
Kids(n) ==
  CASE n.k \in {"list"} -> n.es
    [] n.k = "obj" -> n.es
    [] n.k = "afn" -> <<n.e>>
    [] n.k \in {"fld", "un", "is", "np", "ep", "let", "fn", "op", "export", "loop"} -> <<n.e>>
    [] n.k = "idx" -> <<n.e, n.i>>
    [] n.k \in {"bin", "asg"} -> <<n.l, n.r>>
    [] n.k = "class" -> n.base \o n.ms
    [] n.k = "if" -> <<n.c, n.t>> \o n.f
    [] n.k = "while" -> <<n.c, n.e>>
    [] n.k = "for" -> <<n.s, n.e>>
    [] n.k = "or" -> <<n.e, n.b>>
    [] n.k = "block" -> IF IsOr(n) THEN <<n.es[1].e, OrBlock(n)>> ELSE n.es \o n.t
    [] n.k = "return" -> n.e
    [] n.k = "call" -> <<n.e>> \o n.es
    [] n.k = "supc" -> n.es
    [] OTHER -> <<>>
(* the parts of a node that are not nodes: parameters, type annotations and declared names *)
Off(T, w, k, got, a, z) == IF got = <<T.toks[a].s, T.toks[z].e>> THEN {} ELSE {[k |-> w.k \o k, want |-> <<T.toks[a].s, T.toks[z].e>>, got |-> got]}
(* an annotation includes the token that introduces it: `:`, `->` or `is` *)
TyDiffs(T, w, wt, gt) == UNION {Off(T, w, " type", gt[j].sp, wt[j].a - 1, wt[j].z) \cup Off(T, w, " type name", gt[j].isp, wt[j].a, wt[j].a) : j \in 1..Len(wt)}
PsDiffs(T, w, wp, gp) == UNION {Off(T, w, " parameter", gp[j].sp, wp[j].a, wp[j].z) \cup TyDiffs(T, w, wp[j].ty, gp[j].ty) : j \in 1..Len(wp)}
Parts(T, w, g) ==
  CASE w.k \in {"fn", "op", "afn"} -> PsDiffs(T, w, w.ps, g.ps) \cup TyDiffs(T, w, w.ret, g.ret) \cup (IF w.k = "fn" THEN Off(T, w, " name", g.nsp, w.a + 1, w.a + 1) ELSE {})
    [] w.k = "class" -> Off(T, w, " name", g.nsp, w.a + 1, w.a + 1)
    [] w.k = "is" -> TyDiffs(T, w, <<w.ty>>, <<g.ty>>)
    [] OTHER -> {}
(* w: a node of the grammar, g: the node the parser made of it *)
Diffs(T, w, g) ==
  LET want == <<T.toks[w.a].s, T.toks[w.z].e>>
      here == IF w.z < w.a \/ g.sp = want THEN {} ELSE {[k |-> w.k, want |-> want, got |-> g.sp]}
  IN here \cup Parts(T, w, g) \cup UNION {Diffs(T, Kids(w)[j], Kids(g)[j]) : j \in 1..Len(Kids(w))}

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ LET c == Cases[case]  T == Lex(c)  P == Parse(T)
           IN PrintT("@@" \o ToJson([id |-> c.id, n |-> Len(T.toks), same |-> P.ok /\ Show(P.n) = Show(c.real[1]),
                bad |-> IF P.ok /\ T.toks # <<>> /\ Show(P.n) = Show(c.real[1]) THEN Diffs(T, P.n, c.real[1]) ELSE {}]))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
