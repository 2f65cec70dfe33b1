----------------------------- MODULE DiceFront -----------------------------
(* Runs the lexical, grammatical and static specification over a batch of    *)
(* texts, one behaviour per text, and prints the verdict for each.           *)
EXTENDS DiceLex, DiceGrammar, DiceStatic, Json, IOUtils

Cases == JsonDeserialize(IOEnv.DICE_CASES)

(* byte range of token i; the end of input is at the end of the text *)
Tok(T, c, i) == IF i <= Len(T.toks) THEN <<T.toks[i].s, T.toks[i].e>>
                ELSE IF T.err # "" THEN <<T.at, T.at>>
                ELSE LET n == Len(T.toks) IN <<IF n = 0 THEN 0 ELSE T.toks[n].s, c.bytes>>

Verdict(c) ==
  LET T == Lex(c)
      P == Parse(T)
  IN IF ~P.ok THEN
       [id |-> c.id, ok |-> FALSE, phase |-> "syntax",
        errs |-> {[code |-> P.code, s |-> Tok(T, c, P.i)[1], e |-> Tok(T, c, P.i)[2],
                   ps |-> Tok(T, c, IF P.i > 1 THEN P.i - 1 ELSE 1)[1], d |-> P.act, exp |-> P.exp]}]
     ELSE LET V == Violations(P.n, IF c.kind = "m" THEN "module" ELSE "script")
              es == {[code |-> v.code, s |-> Tok(T, c, v.a)[1], e |-> Tok(T, c, v.z)[2], d |-> v.d] : v \in V}
          IN IF c.tree THEN [id |-> c.id, ok |-> V = {}, phase |-> "static", errs |-> es, show |-> Show(P.n), ast |-> P.n]
             ELSE [id |-> c.id, ok |-> V = {}, phase |-> "static", errs |-> es, show |-> Show(P.n)]

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ PrintT("@@" \o ToJson(Verdict(Cases[case])))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
