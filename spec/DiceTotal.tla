------------------------------ MODULE DiceTotal -----------------------------
(* Every text has an outcome: a program, or one diagnostic with a documented *)
(* code.  A case is [id, st, code]: how one compilation ended.  A check of   *)
(* an internal invariant that fails (E2000) is a crash in other clothes.     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.DICE_CASES)

Syntax == {"E1000", "E1001", "E1002", "E1003", "E1004", "E1005", "E1006", "E1007", "E1008", "E1009"}
Limits == {"E2100", "E2101", "E2102", "E2103", "E2104"}
Rules  == {"E2200", "E2201", "E2202", "E2203", "E2204", "E2205", "E2206", "E2207", "E2300", "E2301",
           "E2400", "E2401", "E2402", "E2403", "E2500", "E2501", "E2502", "E2503", "E2504", "E2505"}
Codes == Syntax \cup Limits \cup Rules

Good(c) == \/ c.st = "ok" /\ c.code = ""
           \/ c.st = "err" /\ c.code \in Codes

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ PrintT("@@" \o ToJson([id |-> Cases[case].id, ok |-> Good(Cases[case])]))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
