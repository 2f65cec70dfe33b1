------------------------------- MODULE DiceTok ------------------------------
(* The tokens the real lexer produced against DiceLex.  A case is a text     *)
(* with toks: [kind, start, end, text, peek agrees] and err.                 *)
EXTENDS DiceLex, Json, IOUtils

Cases == JsonDeserialize(IOEnv.DICE_CASES)

(* every byte belongs to a token or to skipped trivia, tokens in order, no overlap *)
Ordered(ts) == \A i \in 1..Len(ts) : ts[i].s < ts[i].e /\ (i > 1 => ts[i - 1].e <= ts[i].s)

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Verdict(c) ==
  LET L == Lex(c)
      want == [i \in 1..Len(L.toks) |-> <<L.toks[i].k, L.toks[i].s, L.toks[i].e, L.toks[i].x>>]
      got == [i \in 1..Len(c.toks) |-> <<c.toks[i][1], c.toks[i][2], c.toks[i][3], c.toks[i][4]>>]
      ok == want = got /\ L.err = c.err /\ Ordered(L.toks) /\ \A i \in 1..Len(c.toks) : c.toks[i][5]
  IN IF ok THEN [id |-> c.id, ok |-> TRUE, n |-> Len(got)]
     ELSE [id |-> c.id, ok |-> FALSE, n |-> Len(got), want |-> want, err |-> L.err]
Next == /\ ~done
        /\ PrintT("@@" \o ToJson(Verdict(Cases[case])))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
