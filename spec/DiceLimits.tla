----------------------------- MODULE DiceLimits -----------------------------
(* Limits of the code format.  A case is the history of one kind of program  *)
(* as its size grows: sizes: sequence of [n, ok, code, use] in ascending n,  *)
(* growth: what one more unit of size uses,                                  *)
(* with use, what the compiled program uses of the resource (0 if rejected). *)
(* Programs within the capacity are accepted, programs beyond it are         *)
(* rejected with the resource's code, and what was accepted is within it.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.DICE_CASES)

Capacity == [consts |-> 256, locals |-> 256, params |-> 255, args |-> 255, list |-> 255, ups |-> 255, jump |-> 32767]
Code == [consts |-> "E2101", locals |-> "E2102", params |-> "E1005", args |-> "E1005", list |-> "E2103", ups |-> "E2100", jump |-> "E2104"]
Bad(c) ==
  LET r == c.res  cap == Capacity[r]  h == c.sizes  I == 1..Len(h)
      (* what size i would use, from the largest accepted one *)
      A == {i \in I : h[i].ok}
      top == CHOOSE i \in A : \A j \in A : i >= j
      Would(i) == h[top].use + c.growth * (h[i].n - h[top].n)
  IN (IF A = {} THEN {<<"nothing is accepted">>} ELSE {})
     \cup {<<"accepted beyond the capacity", h[i].n, h[i].use>> : i \in {k \in A : h[k].use > cap}}
     \cup {<<"rejected with another code", h[i].n, h[i].code>> : i \in {k \in I : ~h[k].ok /\ h[k].code # Code[r]}}
     \cup (IF A = {} THEN {} ELSE
           {<<"rejected below the capacity", h[i].n, h[top].use>> : i \in {k \in I : ~h[k].ok /\ (k < top \/ Would(k) <= cap)}})
     \cup (IF \A i \in I : h[i].ok THEN IF c.endless THEN {} ELSE {<<"never rejected", h[Len(h)].n>>} ELSE {})

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ LET b == Bad(Cases[case]) IN PrintT("@@" \o ToJson([id |-> Cases[case].id, ok |-> b = {}, bad |-> {ToString(x) : x \in b}]))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
