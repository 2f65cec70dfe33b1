----------------------------- MODULE DiceLines ------------------------------
(* Positions and lines: what the implementation reported for every boundary  *)
(* and every range of a text, against DiceText.                              *)
EXTENDS DiceText, Json, IOUtils

Cases == JsonDeserialize(IOEnv.DICE_CASES)

(* every boundary of a text is judged, or those that were reported of a very long one *)
PosBad(c) == IF Len(c.cps) >= 3000 THEN {c.pos[i] : i \in {j \in 1..Len(c.pos) : LET p == PlaceOf(c.cps, c.pos[j][1]) IN c.pos[j] # <<p.o, p.l, p.c>>}}
                                        \cup IF Len(c.pos) < 20 THEN {<<Len(c.pos)>>} ELSE {}
             ELSE
             LET ps == Places(c.cps)
      want == {<<ps[i].o, ps[i].l, ps[i].c>> : i \in 1..Len(ps)}
      got == {c.pos[i] : i \in 1..Len(c.pos)}
  IN (got \ want) \cup (want \ got)
SpanBad(c) ==
  LET ls == Lines(c.cps)
  IN {i \in 1..Len(c.spans) : c.spans[i][3] # Touched(ls, c.spans[i][1], c.spans[i][2])}

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Verdict(c) == LET p == PosBad(c)  s == SpanBad(c)
              IN [id |-> c.id, n |-> Len(c.pos) + Len(c.spans), pos |-> p,
                  spans |-> {<<c.spans[i], Touched(Lines(c.cps), c.spans[i][1], c.spans[i][2])>> : i \in s}]
Next == /\ ~done
        /\ PrintT("@@" \o ToJson(Verdict(Cases[case])))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
