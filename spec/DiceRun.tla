------------------------------ MODULE DiceRun ------------------------------
(* Conformance of compiled code with the meaning of its source.              *)
(*                                                                           *)
(* Input: Data = [ops, prelude (or <<>>), cases].  A case is                  *)
(* [id, kind, P (compiled program), tree (specification's tree), trees (path  *)
(* -> tree of the modules it may import), maxBits].                          *)
(* The machine first runs the compiled prelude, then branches to every case, *)
(* and within a case to every answer the environment may give.  When it      *)
(* stops, the meaning of the tree is computed for the same answers and both  *)
(* are compared.                                                             *)
EXTENDS DiceVM, Json, IOUtils

Sem == INSTANCE DiceSem

Data == JsonDeserialize(IOEnv.DICE_DATA)
Op == Data.ops
Cases == Data.cases
WithPrelude == Data.prelude # <<>>
Pre == Data.prelude[1]

(* what a finished prelude module leaves behind: its exports are globals *)
Globals(glob, heap, exports) == glob @@ heap[exports.a].fs

(* the meaning of the reference prelude, computed once *)
SemBase ==
  IF ~WithPrelude THEN [o |-> "val", S |-> Sem!World0]
  ELSE LET r == Sem!Run(Pre.tree, "m", Sem!World0)
       IN IF r.o # "val" THEN r
          ELSE [o |-> "val", S |-> [r.S EXCEPT !.glob = Globals(@, r.S.heap, r.v), !.log = <<>>]]

PreUnits == IF WithPrelude THEN Pre.P.units ELSE <<>>
Prog(p, own) == [units |-> p.units, main |-> p.main, kind |-> p.kind, mods |-> p.mods,
                 off |-> IF own THEN Len(PreUnits) ELSE 0, lib |-> PreUnits]

VARIABLES m, case     \* the machine; the case it runs (0: the prelude)
vars == <<m, case>>

P == IF case = 0 THEN Prog(Pre.P, FALSE) ELSE Prog(Cases[case].P, TRUE)

Init == /\ case = 0
        /\ m = IF WithPrelude THEN Boot(Machine0, Prog(Pre.P, FALSE)) ELSE [Machine0 EXCEPT !.st = "val"]

Step == /\ m.st = "run"
        /\ m' \in Steps(m, P, Op, IF case = 0 THEN 0 ELSE Cases[case].maxBits)
        /\ UNCHANGED case

Begin == /\ case = 0 /\ m.st = "val"
         /\ \E c \in 1..Len(Cases) :
              /\ case' = c
              /\ m' = Boot(IF WithPrelude THEN [m EXCEPT !.glob = Globals(@, m.heap, m.res), !.log = <<>>, !.n = 0, !.res = Null] ELSE m,
                           Prog(Cases[c].P, TRUE))

(* the verdict on a finished run *)
Show(M, v) == Render(M, v, 4)
Agree(s) ==
  CASE s.o = "val"   -> /\ m.st = "val" /\ Show(m, m.res) = Show(s.S, s.v) /\ m.log = s.S.log
                        /\ Len(m.bits) = s.S.nb
    [] s.o = "fault" -> m.st = "fault" /\ m.why = s.v /\ m.log = s.S.log
    [] s.o = "undef" -> m.st # "broken"
    [] OTHER         -> FALSE
Outcome(o, v, log, M) == [o |-> o, v |-> IF o = "val" THEN Show(M, v) ELSE v, log |-> log]
Verdict ==
  LET c == Cases[case]
      s == Sem!Run(c.tree, c.kind, [SemBase.S EXCEPT !.bits = m.bits, !.trees = c.trees, !.fuel = IF "fuel" \in DOMAIN c THEN c.fuel ELSE @])
      ok == Agree(s)
      base == [id |-> c.id, ok |-> ok, bits |-> Len(m.bits), n |-> m.n, sem |-> IF s.o = "val" THEN s.o ELSE s.o \o " " \o ToString(s.v), vm |-> m.st, nlog |-> Len(m.log)]
  IN IF ok THEN base
     ELSE base @@ [bitv |-> m.bits, should |-> Outcome(s.o, s.v, s.S.log, s.S),
                   does |-> Outcome(m.st, IF m.st = "val" THEN m.res ELSE m.why, m.log, m)]
Judge == /\ case # 0 /\ m.st \notin {"run", "end"}
         /\ PrintT("@@" \o ToJson(Verdict))
         /\ m' = [Machine0 EXCEPT !.st = "end", !.bits = m.bits]
         /\ UNCHANGED case
NoPrelude == /\ case = 0 /\ m.st \notin {"run", "val", "end"}
             /\ PrintT("@@" \o ToJson([id |-> "prelude", ok |-> FALSE, st |-> m.st, why |-> m.why]))
             /\ m' = [m EXCEPT !.st = "end"]
             /\ UNCHANGED case

Next == Step \/ Begin \/ Judge \/ NoPrelude
Spec == Init /\ [][Next]_vars

(* the properties, as invariants of this machine (the checks report instead of stopping at the first) *)
WellBehaved == m.st # "broken"
Agreement == case # 0 /\ m.st \notin {"run", "end"} =>
               Agree(Sem!Run(Cases[case].tree, Cases[case].kind, [SemBase.S EXCEPT !.bits = m.bits, !.trees = Cases[case].trees]))
=============================================================================
