------------------------------ MODULE DiceEquiv -----------------------------
(* Two compiled programs are equivalent when they have the same instructions *)
(* with the same operands, a constant counting for what it is and not for    *)
(* where it is kept.  A case is [id, units (of the first), other (units of   *)
(* the second)].                                                             *)
EXTENDS DiceCode

RECURSIVE Canon(_, _)
Canon(us, u) ==
  LET U == us[u]
      rows == Decode([units |-> us], U)
      Const(k) == IF k >= Len(U.consts) THEN [k |-> "none", v |-> <<>>]
                  ELSE IF U.consts[k + 1].k = "fn" THEN [k |-> "fn", v |-> Canon(us, U.consts[k + 1].unit)]
                  ELSE [k |-> "val", v |-> U.consts[k + 1]]
  IN [slots |-> U.slots, ups |-> U.ups,
      code |-> [i \in 1..Len(rows) |->
                  LET r == rows[i]
                  IN IF r.w \in VM!UsesConst \cup {"CreateClosure"} /\ ~r.cut
                     THEN [w |-> r.w, c |-> Const(r.a[1]), a |-> Tail(r.a)]
                     ELSE [w |-> r.w, c |-> [k |-> "none", v |-> <<>>], a |-> r.a]]]

EInit == case \in 1..Len(Cases) /\ done = FALSE
ENext == /\ ~done
         /\ LET c == Cases[case] IN PrintT("@@" \o ToJson([id |-> c.id, ok |-> ToString(Canon(c.units, 1)) = ToString(Canon(c.other, 1))]))
         /\ done' = TRUE /\ UNCHANGED case
=============================================================================
