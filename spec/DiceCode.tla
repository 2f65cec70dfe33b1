------------------------------ MODULE DiceCode ------------------------------
(* Well-formedness of compiled code, decided for every path at once.         *)
(*                                                                           *)
(* Decode reads the bytes of a unit as instructions; Sweep runs the machine   *)
(* of DiceVM with its data forgotten - only the number of pending operands at *)
(* each program point is kept - along every branch, to a fixed point.         *)
(* Input: [ops (Debug name of each opcode), cases]; a                         *)
(* case is [id, units, lists].  A unit is [code, slots, ups, consts, rows];   *)
(* rows is what the code cursor of the implementation reads back.  lists are  *)
(* the sections of the implementation's listing, already split into fields.   *)
EXTENDS Integers, Sequences, TLC, SequencesExt, FiniteSets, Json, IOUtils

VM == INSTANCE DiceVM

Data == JsonDeserialize(IOEnv.DICE_DATA)
Op == Data.ops
Cases == Data.cases

Bin == DOMAIN VM!BinNames
Width(w) == VM!Width[w]
Known(w) == w \in DOMAIN VM!Width

(* ---- decoding ---- *)
(* [at |-> byte offset from 0, w |-> name, a |-> operand bytes, next, bad] *)
SubUnit(c, U, k) == IF k < Len(U.consts) /\ U.consts[k + 1].k = "fn" THEN c.units[U.consts[k + 1].unit] ELSE [ups |-> 0]
Decode(c, U) ==
  LET code == U.code  len == Len(code)
      Row(p) == LET w == Op[code[p] + 1]
                    n == IF ~Known(w) THEN 0
                         ELSE IF w # "CreateClosure" THEN Width(w)
                         ELSE IF p + 1 > len THEN 1 ELSE 1 + 2 * SubUnit(c, U, code[p + 1]).ups
                IN [at |-> p - 1, w |-> w, len |-> n, cut |-> p + n > len, a |-> SubSeq(code, p + 1, p + n)]
      Take(acc, p) == IF p < acc.next THEN acc
                      ELSE LET r == Row(p) IN [next |-> p + 1 + r.len, rows |-> Append(acc.rows, r)]
  IN FoldLeft(Take, [next |-> 1, rows |-> <<>>], [i \in 1..len |-> i]).rows
End(r) == r.at + 1 + r.len
JumpNames == {"Jump", "JumpIfFalse", "JumpIfTrue"}
Target(r) == End(r) + VM!Signed16(r.a[1], r.a[2])
(* byte offset + 1 -> number of the instruction that starts there, 0 if none; the end counts as one more *)
Index(U, rows) == FoldLeft(LAMBDA f, i : [f EXCEPT ![rows[i].at + 1] = i],
                           [j \in 1..(Len(U.code) + 1) |-> IF j = Len(U.code) + 1 THEN Len(rows) + 1 ELSE 0],
                           [i \in 1..Len(rows) |-> i])
Start(ix, at) == at >= 0 /\ at < Len(ix) /\ ix[at + 1] # 0
Values(r) == IF r.w \in JumpNames THEN <<VM!Signed16(r.a[1], r.a[2])>> ELSE r.a

(* ---- operands that name something ---- *)
Operands(c, U, r, ix) ==
  IF ~Known(r.w) THEN {"unknown opcode"}
  ELSE IF r.cut THEN {"operand beyond the end of the code"}
  ELSE LET a == IF r.len > 0 THEN r.a[1] ELSE 0 IN
    (IF r.w \in VM!UsesConst /\ a >= Len(U.consts) THEN {"missing constant"}
     ELSE IF r.w \in VM!UsesName /\ U.consts[a + 1].k \notin {"str", "sym"} THEN {"constant of the wrong kind"}
     ELSE IF r.w = "CreateClosure" /\ U.consts[a + 1].k # "fn" THEN {"constant of the wrong kind"} ELSE {})
    \cup (IF r.w \in VM!UsesSlot /\ a >= U.slots THEN {"missing local"} ELSE {})
    \cup (IF r.w = "LoadFieldToLocal" /\ r.a[2] >= U.slots THEN {"missing local"} ELSE {})
    \cup (IF r.w \in VM!UsesUp /\ a >= U.ups THEN {"missing captured variable"} ELSE {})
    \cup (IF r.w \in JumpNames /\ ~Start(ix, Target(r)) THEN {"jump into the middle of an instruction or out of the unit"} ELSE {})
    \cup (IF r.w = "CreateClosure" /\ \E j \in 1..((r.len - 1) \div 2) :
               \/ r.a[2 * j] \notin {0, 1}
               \/ r.a[2 * j + 1] >= (IF r.a[2 * j] = 1 THEN U.slots ELSE U.ups)
          THEN {"capture list names a missing variable"} ELSE {})

(* ---- pending operands ---- *)
Need(r) == CASE r.w = "Dup" -> r.a[1] + 1
             [] r.w = "CreateArray" -> r.a[1]
             [] r.w = "Call" -> r.a[1] + 1
             [] r.w = "CallSuper" -> r.a[1] + 2
             [] OTHER -> VM!Needs[r.w]
Push1 == {"PushNull", "PushUnit", "PushFalse", "PushTrue", "PushI0", "PushI1", "PushF0", "PushF1", "PushConst", "Dup",
          "CreateObject", "CreateClosure", "LoadLocal", "LoadUpvalue", "LoadGlobal", "LoadModule"}
Pop1  == {"Pop", "JumpIfFalse", "JumpIfTrue", "StoreGlobal", "Is", "StoreField", "AssignField", "LoadIndex", "LoadMethod",
          "AssertTypeForLocal", "AssertTypeOrNullForLocal"} \cup Bin
Pop2  == {"StoreIndex", "AssignIndex", "StoreMethod"}
Delta(r) == CASE r.w \in Push1 -> 1
              [] r.w \in Pop1 -> -1
              [] r.w \in Pop2 -> -2
              [] r.w = "CreateArray" -> 1 - r.a[1]
              [] r.w = "Call" -> -r.a[1]
              [] r.w = "CallSuper" -> -r.a[1] - 1
              [] OTHER -> 0
Leaves == {"Return", "AssertTypeAndReturn", "AssertTypeOrNullAndReturn"}

(* D[i] is the number of operands before row i (-1: not reached); the last one is the end of the unit *)
Put(acc, i, d, r, from) ==
  IF acc.D[i] = -1 THEN [acc EXCEPT !.D[i] = d, !.again = @ \/ i <= from]
  ELSE IF acc.D[i] # d THEN [acc EXCEPT !.errs = @ \cup {[at |-> r.at, why |-> "two depths at one program point"]}]
  ELSE acc
Step(rows, ix, acc, i) ==
  IF acc.D[i] = -1 THEN acc
  ELSE LET r == rows[i]  d == acc.D[i]  d2 == d + Delta(r) IN
    IF d < Need(r) THEN [acc EXCEPT !.errs = @ \cup {[at |-> r.at, why |-> r.w \o " underflows the operand stack"]}]
    ELSE IF r.w \in Leaves
         THEN IF d # VM!Needs[r.w] + (IF r.w = "Return" THEN 1 ELSE 0)
              THEN [acc EXCEPT !.errs = @ \cup {[at |-> r.at, why |-> "leaves the unit with " \o ToString(d) \o " operands"]}] ELSE acc
    ELSE LET a1 == IF r.w = "Jump" THEN acc ELSE Put(acc, i + 1, d2, r, i)
         IN IF r.w \in JumpNames THEN Put(a1, ix[Target(r) + 1], d2, r, i) ELSE a1
(* code reached only by a backward jump needs another round *)
RECURSIVE Sweep(_, _, _, _)
Sweep(rows, ix, acc, k) ==
  LET s == FoldLeft(LAMBDA a, i : Step(rows, ix, a, i), [acc EXCEPT !.again = FALSE], [i \in 1..Len(rows) |-> i])
  IN IF s.again /\ k > 0 THEN Sweep(rows, ix, s, k - 1) ELSE s

Flow(c, U, rows, ix) ==
  LET n == Len(rows)
      s == Sweep(rows, ix, [D |-> [i \in 1..(n + 1) |-> IF i = 1 THEN 0 ELSE -1], errs |-> {}, again |-> FALSE], 50)
  IN s.errs \cup (IF s.D[n + 1] \notin {-1, 1} THEN {[at |-> Len(U.code), why |-> "ends with " \o ToString(s.D[n + 1]) \o " operands"]} ELSE {})

(* ---- what the implementation reads back and lists ---- *)
Reads(c, U, rows) ==
  IF U.rows = <<>> /\ rows # <<>> THEN {}
  ELSE IF Len(U.rows) # Len(rows) THEN {[at |-> 0, why |-> "the cursor reads another number of instructions"]}
  ELSE UNION {LET r == rows[i]  q == U.rows[i] IN
              (IF q.at # r.at \/ q.op # r.w THEN {[at |-> r.at, why |-> "the cursor reads another instruction"]} ELSE {})
              \cup (IF q.args # Values(r) THEN {[at |-> r.at, why |-> "the cursor reads other operands"]} ELSE {})
              \cup (IF r.w \in JumpNames /\ q.to # Target(r) THEN {[at |-> r.at, why |-> "the cursor moves elsewhere"]} ELSE {})
              \cup (IF ~q.rem THEN {[at |-> r.at, why |-> "position and remaining do not add up"]} ELSE {})
             : i \in 1..Len(rows)}

(* a listed row: offset, opcode byte, name, numbers shown; a capture is shown as its kind and index *)
ListName ==
  [PushNull |-> "PUSH_NULL", PushUnit |-> "PUSH_UNIT", PushFalse |-> "PUSH_FALSE", PushTrue |-> "PUSH_TRUE",
   PushI0 |-> "PUSH_I0", PushI1 |-> "PUSH_I1", PushF0 |-> "PUSH_F0", PushF1 |-> "PUSH_F1",
   PushConst |-> "PUSH_CONST", Pop |-> "POP", Dup |-> "DUP", Swap |-> "SWAP", CreateArray |-> "CREATE_ARRAY",
   CreateObject |-> "CREATE_OBJECT", CreateClosure |-> "CREATE_CLOSURE", InheritClass |-> "INHERIT_CLASS",
   LoadModule |-> "LOAD_MODULE", LoadGlobal |-> "LOAD_GLOBAL", StoreGlobal |-> "STORE_GLOBAL",
   LoadLocal |-> "LOAD_LOCAL", StoreLocal |-> "STORE_LOCAL", AssignLocal |-> "ASSIGN_LOCAL",
   LoadField |-> "LOAD_FIELD", StoreField |-> "STORE_FIELD", AssignField |-> "ASSIGN_FIELD",
   LoadIndex |-> "LOAD_INDEX", StoreIndex |-> "STORE_INDEX", AssignIndex |-> "ASSIGN_INDEX",
   LoadUpvalue |-> "LOAD_UPVALUE", StoreUpvalue |-> "STORE_UPVALUE", AssignUpvalue |-> "ASSIGN_UPVALUE",
   CloseUpvalue |-> "CLOSE_UPVALUE", LoadFieldToLocal |-> "LOAD_FIELD_TO_LOCAL", LoadMethod |-> "LOAD_METHOD",
   StoreMethod |-> "STORE_METHOD", Negate |-> "NEG", Not |-> "NOT", Multiply |-> "MUL", Divide |-> "DIV",
   Remainder |-> "REM", Add |-> "ADD", Subtract |-> "SUB", GreaterThan |-> "GT", GreaterThanOrEqual |-> "GTE",
   LessThan |-> "LT", LessThanOrEqual |-> "LTE", Equal |-> "EQ", NotEqual |-> "NEQ", Is |-> "IS",
   RangeInclusive |-> "RANGE_INCLUSIVE", RangeExclusive |-> "RANGE_EXCLUSIVE", Jump |-> "JUMP",
   JumpIfFalse |-> "JUMP_IF_FALSE", JumpIfTrue |-> "JUMP_IF_TRUE", Call |-> "CALL", CallSuper |-> "CALL_SUPER",
   Return |-> "RETURN", AssertBool |-> "ASSERT_BOOL", AssertTypeForLocal |-> "ASSERT_TYPE_FOR_LOCAL",
   AssertTypeOrNullForLocal |-> "ASSERT_TYPE_OR_NULL_FOR_LOCAL", AssertTypeAndReturn |-> "ASSERT_TYPE_AND_RETURN",
   AssertTypeOrNullAndReturn |-> "ASSERT_TYPE_OR_NULL_AND_RETURN"]
Listing(c, U, rows) ==
  [name |-> U.name, rows |->
    [i \in 1..Len(rows) |->
     LET r == rows[i]
     IN [at |-> r.at, op |-> U.code[r.at + 1], name |-> IF r.w \in DOMAIN ListName THEN ListName[r.w] ELSE "?", nums |-> Values(r)]]]
Count(x, xs) == Cardinality({j \in 1..Len(xs) : xs[j] = x})

Unit(c, u) ==
  LET U == c.units[u]
      rows == Decode(c, U)
      ix == Index(U, rows)
      bad == UNION {{[at |-> rows[i].at, why |-> rows[i].w \o ": " \o y] : y \in Operands(c, U, rows[i], ix)} : i \in 1..Len(rows)}
  IN [rows |-> rows, form |-> bad, flow |-> IF bad = {} THEN Flow(c, U, rows, ix) ELSE {}, reads |-> Reads(c, U, rows)]

Verdict(c) ==
  LET us == [u \in 1..Len(c.units) |-> Unit(c, u)]
      lst == [u \in 1..Len(c.units) |-> Listing(c, c.units[u], us[u].rows)]
      missing == {u \in 1..Len(c.units) : Count(lst[u], lst) # Count(lst[u], c.lists)}
  IN [id |-> c.id, n |-> FoldLeft(LAMBDA a, u : a + Len(u.rows), 0, us), units |-> Len(us),
      form |-> UNION {us[u].form : u \in 1..Len(us)}, flow |-> UNION {us[u].flow : u \in 1..Len(us)},
      reads |-> UNION {us[u].reads : u \in 1..Len(us)},
      list |-> IF c.lists = <<>> THEN {}
               ELSE (IF Len(c.lists) # Len(us) THEN {[at |-> 0, why |-> "another number of sections"]} ELSE {})
                    \cup {[at |-> u, why |-> "no section lists unit " \o ToString(u)] : u \in missing}]

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ PrintT("@@" \o ToJson(Verdict(Cases[case])))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
