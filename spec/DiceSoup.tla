------------------------------ MODULE DiceSoup ------------------------------
(* Every sequence of at most n pieces, between a prefix and a suffix.        *)
(* Input: [jobs]; a job is [pieces, n, pre, post, sep, min].                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Jobs == JsonDeserialize(IOEnv.DICE_SOUP).jobs

VARIABLES job, text, len
Init == job \in 1..Len(Jobs) /\ text = "" /\ len = 0
J == Jobs[job]
Next == /\ len < J.n
        /\ \E i \in 1..Len(J.pieces) :
             /\ text' = IF len = 0 THEN J.pieces[i] ELSE text \o J.sep \o J.pieces[i]
             /\ len' = len + 1
             /\ UNCHANGED job
             /\ (len' >= J.min => PrintT("@@" \o ToJson([j |-> job, t |-> J.pre \o text' \o J.post])))
=============================================================================
