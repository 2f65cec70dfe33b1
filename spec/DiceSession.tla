----------------------------- MODULE DiceSession ----------------------------
(* A process that compiles one text after another.  The result of every      *)
(* compilation is a function of the text and its kind alone: whatever came   *)
(* before, and however it ended, leaves no trace.                            *)
(*                                                                           *)
(* Generation: every sequence of jobs (numbers into a pool of texts) up to   *)
(* the given length, and walks driven by numbers.  Judgement: a history is   *)
(* [id, jobs, got]; Data.fresh gives each job's result in a process of its   *)
(* own.                                                                      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DICE_SESSION)     \* [mode, pool, len, walks] or [mode, fresh, histories]

VARIABLES hist, done
vars == <<hist, done>>

(* ---- the model: what a process that keeps nothing would answer ---- *)
Compile(job) == Data.fresh[job]
Agrees(h) == \A i \in 1..Len(h.jobs) : h.got[i] = Compile(h.jobs[i])
FirstBad(h) == CHOOSE i \in 1..Len(h.jobs) : h.got[i] # Compile(h.jobs[i]) /\ \A j \in 1..(i - 1) : h.got[j] = Compile(h.jobs[j])

Init == /\ done = FALSE
        /\ IF Data.mode = "gen" THEN hist = <<>> ELSE hist \in {<<k>> : k \in 1..Len(Data.histories)}
(* one more compilation *)
Grow == /\ Data.mode = "gen" /\ ~done /\ Len(hist) < Data.len
        /\ \E j \in 1..Data.pool : hist' = Append(hist, j)
        /\ UNCHANGED done
Emit == /\ Data.mode = "gen" /\ ~done /\ Len(hist) = Data.len
        /\ PrintT("@@" \o ToJson([h |-> hist]))
        /\ done' = TRUE /\ UNCHANGED hist
Judge == /\ Data.mode = "judge" /\ ~done
         /\ LET h == Data.histories[hist[1]]
            IN PrintT("@@" \o ToJson(IF Agrees(h) THEN [id |-> h.id, ok |-> TRUE, n |-> Len(h.jobs), at |-> 0]
                                     ELSE [id |-> h.id, ok |-> FALSE, n |-> Len(h.jobs), at |-> FirstBad(h)]))
         /\ done' = TRUE /\ UNCHANGED hist
Next == Grow \/ Emit \/ Judge
=============================================================================
