------------------------------ MODULE DiceTree ------------------------------
(* The tree the real parser built for a text, against the grammar.  A case   *)
(* is a text with real: <<tree>> or <<>> when the parser rejected it.        *)
EXTENDS DiceLex, DiceGrammar, Json, IOUtils

Cases == JsonDeserialize(IOEnv.DICE_CASES)

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Verdict(c) ==
  LET T == Lex(c)  P == Parse(T)
  IN IF ~P.ok THEN [id |-> c.id, ok |-> c.real = <<>>, acc |-> FALSE, n |-> Len(T.toks), want |-> "rejected: " \o P.code]
     ELSE LET w == Show(P.n)
              g == IF c.real = <<>> THEN "rejected" ELSE Show(c.real[1])
          IN IF w = g THEN [id |-> c.id, ok |-> TRUE, acc |-> TRUE, n |-> Len(T.toks)]
             ELSE [id |-> c.id, ok |-> FALSE, acc |-> TRUE, n |-> Len(T.toks), want |-> w, got |-> g]
Next == /\ ~done
        /\ PrintT("@@" \o ToJson(Verdict(Cases[case])))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
