---------------------------- MODULE DiceGenRand ----------------------------
(* Draws derivations: one state per program. Input: [seed, from, to, w, sz, n] *)
EXTENDS DiceGen, Json, IOUtils
In == JsonDeserialize(IOEnv.DICE_GEN)
Program(i) == Script(Seeded(Gen0(In.w, In.sz), In.seed, i), In.n)
VARIABLES i, done
Init == i \in In.from..In.to /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ PrintT("@@" \o ToJson([i |-> i, s |-> Program(i).s]))
=============================================================================
