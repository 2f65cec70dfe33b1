----------------------------- MODULE DiceGenAll -----------------------------
(* Enumerates all derivations within a budget: a state is a sequence of choices; *)
(* a derivation that runs out of choices is extended in every possible way.      *)
EXTENDS DiceGen, Json, IOUtils
In == JsonDeserialize(IOEnv.DICE_GEN)
VARIABLES pre
Init == pre = <<>>
Derive(c) == Script(Chosen(Gen0(In.w, In.sz), c), In.n)
Next == LET g == Derive(pre)
        IN IF g.need = 0 THEN PrintT("@@" \o ToJson([i |-> pre, s |-> g.s])) /\ FALSE
           ELSE \E k \in 0..(g.need - 1) : pre' = Append(pre, k)
=============================================================================
