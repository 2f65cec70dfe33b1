------------------------------- MODULE DiceVM -------------------------------
(* The machine Dice programs are compiled for, instruction by instruction.    *)
(*                                                                           *)
(* It executes the bytes the real compiler produced, decoding them itself.   *)
(* Program: P = [units |-> <<[code, slots, ups, consts], ...>>, main |-> unit, *)
(* kind |-> "s"/"m", mods |-> path -> unit].  Op[b+1] is the name of opcode b. *)
(*                                                                           *)
(* Machine m: heap/log/cnt (a world, see DiceValues), glob, stack, frames     *)
(* (innermost last), cells (captured variables), mods (loaded modules), bits  *)
(* (answers given so far to `b` and `mb`), st, res, why, n (instructions run). *)
(* st = "run" | "val" | "fault" | "undef" | "fuel" | "broken"; broken means    *)
(* that the code did something no compiled program may do, and why says what. *)
EXTENDS DiceValues

(* units of the library (the prelude) come first, the program's own after them *)
UnitOf(P, u) == IF u <= P.off THEN P.lib[u] ELSE P.units[u - P.off]
Frame(u, base, top, ups) == [u |-> u, pc |-> 1, base |-> base, top |-> top, ups |-> ups, mod |-> "", ctor |-> FALSE, from |-> 0]

Machine0 == [heap |-> Heap0, log |-> <<>>, cnt |-> 0, glob |-> Globals0, stack |-> <<>>, frames |-> <<>>,
             cells |-> <<>>, mods |-> Empty, bits |-> <<>>, st |-> "run", res |-> Null, why |-> "", n |-> 0]
Nulls(n) == [i \in 1..n |-> Null]
StrictNulls(n) == LET RECURSIVE f(_, _)
                      f(k, acc) == IF k = 0 THEN acc ELSE f(k - 1, Append(acc, Null)) IN f(n, <<>>)

Broken(m, why) == [m EXCEPT !.st = "broken", !.why = why]
Faulted(m, code) == [m EXCEPT !.st = "fault", !.why = code]

(* start the main unit of P on a machine whose heap and globals may be prepared *)
Boot(m, P) ==
  LET u == P.main
      m1 == [m EXCEPT !.stack = StrictNulls(UnitOf(P, u).slots), !.st = "run",
                      !.frames = <<Frame(u, 1, UnitOf(P, u).slots, <<>>)>>]
  IN IF P.kind = "s" THEN m1
     ELSE LET a == NewAddr(m)
          IN [Alloc(m1, NewObj(aModule)) EXCEPT !.stack[1] = Ref(a), !.frames[1].mod = "?main"]

Fr(m) == m.frames[Len(m.frames)]
Peek(m, k) == m.stack[Len(m.stack) - k]
Depth(m) == Len(m.stack) - Fr(m).top
PopN(m, k) == [m EXCEPT !.stack = SubSeq(@, 1, Len(@) - k)]
PushV(m, v) == [m EXCEPT !.stack = Append(@, v)]
(* replace the top k values by v *)
Repl(m, k, v) == [m EXCEPT !.stack = Append(SubSeq(@, 1, Len(@) - k), v)]
Goto(m, pc) == [m EXCEPT !.frames[Len(m.frames)].pc = pc]

(* an operation's result replaces the top k values *)
Settle(m, k, r) == CASE r.o = "v" -> Repl(r.M, k, r.v)
                     [] r.o = "fault" -> Faulted(m, r.code)
                     [] OTHER -> [m EXCEPT !.st = "undef", !.why = r.why]

(* ---- calls: callee at depth argc, arguments above it; `from` values are replaced by the result ---- *)
RECURSIVE DoCall(_, _, _), Construct(_, _, _, _, _)
CallScript(m, P, argc, fn, ctor) ==
  LET slots == UnitOf(P, fn.u).slots
      res == IF argc < slots THEN slots - argc ELSE slots
      base == Len(m.stack) - argc
  IN [m EXCEPT !.stack = @ \o StrictNulls(res),
               !.frames = Append(@, Frame(fn.u, base, base + argc + res, fn.ups))]

Args(m, argc) == SubSeq(m.stack, Len(m.stack) - argc + 1, Len(m.stack))
SetCallee(m, argc, v) == [m EXCEPT !.stack[Len(m.stack) - argc] = v]

Construct(m, P, argc, cls, obj) ==
  IF Has(m.heap[cls].ms, "new") THEN DoCall(SetCallee(m, argc, Bound(m.heap[cls].ms["new"], obj)), P, argc)
  ELSE IF argc > 0 THEN Repl(m, argc + 1, obj)
  ELSE IF m.heap[cls].base # 0 /\ Has(m.heap[m.heap[cls].base].ms, "new") THEN Faulted(m, "E3401")
  ELSE Repl(m, 1, obj)

DoCall(m, P, argc) ==
  LET callee == Peek(m, argc)
      fn == IF callee.t = "bnd" THEN callee.fn ELSE callee
      self == IF callee.t = "bnd" THEN callee.self ELSE callee
  IN CASE fn.t = "fn" -> CallScript(SetCallee(m, argc, self), P, argc, fn, FALSE)
       [] fn.t = "ref" /\ m.heap[fn.a].k = "cls" ->
            Construct(Alloc(m, NewObj(fn.a)), P, argc, fn.a, Ref(NewAddr(m)))
       [] fn.t = "nat" -> Settle(m, argc + 1, Native(m, fn.nm, self, Args(m, argc)))
       [] OTHER -> Faulted(m, "E3104")

(* does the next call need an answer from the environment? *)
AsksBit(m, argc) == Peek(m, argc).t = "nat" /\ Peek(m, argc).nm \in {"b", "mb"}
Answer(m, argc, bit) ==
  LET fn == Peek(m, argc)
      v == IF fn.nm = "b" THEN B(bit) ELSE IF bit /\ argc > 0 THEN Peek(m, argc - 1) ELSE Null
  IN [Repl(Log(m, fn.nm \o (IF bit THEN "1" ELSE "0")), argc + 1, v) EXCEPT !.bits = Append(@, bit)]

(* ---- leaving a unit ---- *)
Finish(m, P) ==
  LET fr == Fr(m)
  IN IF Depth(m) # 1 THEN Broken(m, "unit finished with " \o ToString(Depth(m)) \o " values on its operand stack")
     ELSE LET v == Peek(m, 0)
              (* captured variables of a dead frame that were never closed *)
              cells == [j \in 1..Len(m.cells) |->
                          IF m.cells[j].open /\ m.cells[j].at >= fr.base THEN [open |-> FALSE, v |-> [t |-> "dead"]] ELSE m.cells[j]]
              stale == \E j \in 1..Len(m.cells) : m.cells[j].open /\ m.cells[j].at >= fr.base
              m1 == [m EXCEPT !.stack = SubSeq(@, 1, fr.base - 1), !.frames = SubSeq(@, 1, Len(@) - 1),
                              !.cells = IF stale THEN cells ELSE @]
          IN IF m1.frames = <<>> THEN [m1 EXCEPT !.st = "val", !.res = v] ELSE PushV(m1, v)

(* ---- captured variables ---- *)
OpenAt(m, at) == {j \in 1..Len(m.cells) : m.cells[j].open /\ m.cells[j].at = at}
CellGet(m, c) == IF m.cells[c].open THEN m.stack[m.cells[c].at] ELSE m.cells[c].v
CellSet(m, c, v) == IF m.cells[c].open THEN [m EXCEPT !.stack[m.cells[c].at] = v] ELSE [m EXCEPT !.cells[c].v = v]
CloseAt(m, at) ==
  LET js == OpenAt(m, at)  v == m.stack[at]
      m1 == [m EXCEPT !.stack[at] = Null]
  IN IF js = {} THEN m1 ELSE LET j == CHOOSE j \in js : TRUE IN [m1 EXCEPT !.cells[j] = [open |-> FALSE, v |-> v]]
RECURSIVE Capture(_, _, _, _, _, _)
Capture(m, P, code, at, n, acc) ==       \* n pairs <<is parent local, index>> at byte `at`
  IF n = 0 THEN [ok |-> TRUE, m |-> m, ups |-> acc]
  ELSE LET fr == Fr(m)  loc == code[at] = 1  ix == code[at + 1] IN
       IF loc THEN
         IF ix >= UnitOf(P, fr.u).slots THEN [ok |-> FALSE, m |-> m]
         ELSE LET js == OpenAt(m, fr.base + ix) IN
              IF js # {} THEN Capture(m, P, code, at + 2, n - 1, Append(acc, CHOOSE j \in js : TRUE))
              ELSE Capture([m EXCEPT !.cells = Append(@, [open |-> TRUE, at |-> fr.base + ix])], P, code, at + 2, n - 1,
                           Append(acc, Len(m.cells) + 1))
       ELSE IF ix >= Len(fr.ups) THEN [ok |-> FALSE, m |-> m]
       ELSE Capture(m, P, code, at + 2, n - 1, Append(acc, fr.ups[ix + 1]))

(* ---- constants ---- *)
ConstVal(c) ==
  CASE c.k = "int" -> I(c.i)
    [] c.k = "big" -> [t |-> "big", s |-> c.s]
    [] c.k = "flt" -> F(c.n, c.d)
    [] c.k = "fbig" -> [t |-> "fbig", s |-> c.s]
    [] c.k \in {"str", "sym"} -> Str(c.s)
    [] c.k = "fn" -> [t |-> "fn", u |-> c.unit, ups |-> <<>>]

BinNames == [Multiply |-> "mul", Divide |-> "div", Remainder |-> "rem", Add |-> "add", Subtract |-> "sub",
             GreaterThan |-> "gt", GreaterThanOrEqual |-> "gte", LessThan |-> "lt", LessThanOrEqual |-> "lte",
             Equal |-> "eq", NotEqual |-> "neq", RangeInclusive |-> "rin", RangeExclusive |-> "rex"]

(* operand bytes of each instruction, apart from the capture list of CreateClosure *)
Width ==
  [x \in {"PushNull", "PushUnit", "PushFalse", "PushTrue", "PushI0", "PushI1", "PushF0", "PushF1", "Pop", "Swap",
          "CreateObject", "Negate", "Not", "Is", "LoadIndex", "StoreIndex", "AssignIndex", "AssertBool",
          "AssertTypeAndReturn", "AssertTypeOrNullAndReturn", "Return"} \cup DOMAIN BinNames |-> 0]
  @@ [x \in {"PushConst", "Dup", "CreateArray", "InheritClass", "LoadGlobal", "StoreGlobal", "LoadLocal", "StoreLocal",
             "AssignLocal", "LoadUpvalue", "StoreUpvalue", "AssignUpvalue", "CloseUpvalue", "LoadField", "StoreField",
             "AssignField", "LoadMethod", "StoreMethod", "Call", "CallSuper", "LoadModule", "AssertTypeForLocal",
             "AssertTypeOrNullForLocal", "CreateClosure"} |-> 1]
  @@ [x \in {"LoadFieldToLocal", "Jump", "JumpIfFalse", "JumpIfTrue"} |-> 2]
(* values each instruction needs on the operand stack of its own unit *)
Needs ==
  [x \in {"PushNull", "PushUnit", "PushFalse", "PushTrue", "PushI0", "PushI1", "PushF0", "PushF1", "PushConst",
          "CreateObject", "CreateClosure", "CreateArray", "Dup", "Jump", "LoadLocal", "LoadUpvalue", "LoadGlobal",
          "CloseUpvalue", "LoadModule", "Call", "CallSuper", "Return"} |-> 0]
  @@ [x \in {"Pop", "Negate", "Not", "InheritClass", "JumpIfFalse", "JumpIfTrue", "StoreLocal", "AssignLocal", "StoreUpvalue",
             "AssignUpvalue", "StoreGlobal", "LoadField", "LoadFieldToLocal", "AssertBool", "AssertTypeForLocal",
             "AssertTypeOrNullForLocal"} |-> 1]
  @@ [x \in {"Swap", "Is", "StoreField", "AssignField", "LoadIndex", "LoadMethod", "StoreMethod", "AssertTypeAndReturn",
             "AssertTypeOrNullAndReturn"} \cup DOMAIN BinNames |-> 2]
  @@ [x \in {"StoreIndex", "AssignIndex"} |-> 3]

(* operand kinds checked against the unit *)
UsesConst == {"PushConst", "InheritClass", "LoadGlobal", "StoreGlobal", "LoadField", "StoreField", "AssignField",
              "LoadMethod", "StoreMethod", "LoadModule", "CreateClosure", "LoadFieldToLocal"}
UsesName  == UsesConst \ {"PushConst", "CreateClosure"}
UsesSlot  == {"LoadLocal", "StoreLocal", "AssignLocal", "CloseUpvalue", "AssertTypeForLocal", "AssertTypeOrNullForLocal"}
UsesUp    == {"LoadUpvalue", "StoreUpvalue", "AssignUpvalue"}

Signed16(hi, lo) == LET u == hi * 256 + lo IN IF u > 32767 THEN u - 65536 ELSE u

(* the machine stands on an instruction; what may be wrong with it before it runs? *)
Malformed(m, P, U, w, pc) ==
  LET len == Len(U.code) IN
  IF w \notin DOMAIN Width THEN "unknown opcode"
  ELSE IF pc + Width[w] > len THEN "operand beyond the end of the code"
  ELSE LET a == IF Width[w] > 0 THEN U.code[pc + 1] ELSE 0 IN
       IF Depth(m) < Needs[w] THEN w \o " underflows the operand stack"
       ELSE IF w \in UsesConst /\ a >= Len(U.consts) THEN w \o " names a missing constant"
       ELSE IF w \in UsesName /\ U.consts[a + 1].k \notin {"str", "sym"} THEN w \o " names a constant of the wrong kind"
       ELSE IF w = "CreateClosure" /\ U.consts[a + 1].k # "fn" THEN w \o " names a constant of the wrong kind"
       ELSE IF w \in UsesSlot /\ a >= U.slots THEN w \o " names a missing local"
       ELSE IF w = "LoadFieldToLocal" /\ U.code[pc + 2] >= U.slots THEN w \o " names a missing local"
       ELSE IF w \in UsesUp /\ a >= Len(Fr(m).ups) THEN w \o " names a missing captured variable"
       ELSE IF w \in UsesUp /\ CellGet(m, Fr(m).ups[a + 1]).t = "dead" THEN w \o " reaches a variable of a finished function"
       ELSE IF w \in {"Dup"} /\ Depth(m) < a + 1 THEN w \o " underflows the operand stack"
       ELSE IF w = "CreateArray" /\ Depth(m) < a THEN w \o " underflows the operand stack"
       ELSE IF w = "Call" /\ Depth(m) < a + 1 THEN w \o " underflows the operand stack"
       ELSE IF w = "CallSuper" /\ Depth(m) < a + 2 THEN w \o " underflows the operand stack"
       ELSE ""

Conditional(m, next, target, on) ==
  LET v == Peek(m, 0) IN
  IF v.t # "bool" THEN Faulted(m, "E3000")
  ELSE Goto(PopN(m, 1), IF v.b = on THEN target ELSE next)

Binary(m, P, op) ==
  LET r == BinOp(m, m.glob, op, Peek(m, 1), Peek(m, 0))
  IN IF r.o = "call" THEN DoCall([m EXCEPT !.stack = (SubSeq(@, 1, Len(@) - 2) \o <<r.fn>>) \o r.args], P, Len(r.args))
     ELSE Settle(m, 2, r)

LoadModule(m0, P, path) ==
  LET m == Log(m0, "import " \o path) IN
  IF Has(m.mods, path) THEN PushV(m, m.mods[path])
  ELSE IF ~Has(P.mods, path) THEN [m EXCEPT !.st = "undef", !.why = "no such module"]
  ELSE LET u == P.mods[path]  a == NewAddr(m)
           m1 == Log([Alloc(m, NewObj(aModule)) EXCEPT !.mods = Put(@, path, Ref(a))], "load " \o path)
           base == Len(m.stack) + 1
       IN [m1 EXCEPT !.stack = @ \o [StrictNulls(UnitOf(P, u).slots) EXCEPT ![1] = Ref(a)],
                     !.frames = Append(@, Frame(u, base, base - 1 + UnitOf(P, u).slots, <<>>))]

(* the successor of m, which stands on the well-formed instruction w at pc *)
Exec(m0, P, U, w, pc) ==
  LET a == IF Width[w] > 0 THEN U.code[pc + 1] ELSE 0
      next == pc + 1 + Width[w]
      m == [m0 EXCEPT !.frames[Len(m0.frames)].pc = next, !.n = @ + 1]
      fr == Fr(m)
      At(s) == fr.base + s
      name == U.consts[a + 1].s
      target == next + Signed16(U.code[pc + 1], U.code[pc + 2])
  IN
  CASE w = "PushNull"  -> PushV(m, Null)
    [] w = "PushUnit"  -> PushV(m, UnitV)
    [] w = "PushFalse" -> PushV(m, B(FALSE))
    [] w = "PushTrue"  -> PushV(m, B(TRUE))
    [] w = "PushI0"    -> PushV(m, I(0))
    [] w = "PushI1"    -> PushV(m, I(1))
    [] w = "PushF0"    -> PushV(m, F(0, 1))
    [] w = "PushF1"    -> PushV(m, F(1, 1))
    [] w = "PushConst" -> PushV(m, ConstVal(U.consts[a + 1]))
    [] w = "Pop"       -> PopN(m, 1)
    [] w = "Dup"       -> PushV(m, Peek(m, a))
    [] w = "Swap"      -> LET x == Peek(m, 0)  y == Peek(m, 1) IN PushV(Repl(m, 2, x), y)
    [] w = "CreateArray" -> Repl(Alloc(m, [k |-> "arr", es |-> Args(m, a)]), a, Ref(NewAddr(m)))
    [] w = "CreateObject" -> PushV(Alloc(m, NewObj(aAny)), Ref(NewAddr(m)))
    [] w = "CreateClosure" ->
         LET u == U.consts[a + 1].unit  n == UnitOf(P, u).ups
         IN IF pc + 1 + 2 * n > Len(U.code) THEN Broken(m, "capture list beyond the end of the code")
            ELSE LET c == Capture(m, P, U.code, next, n, <<>>)
                 IN IF ~c.ok THEN Broken(m, "capture list names a missing variable")
                    ELSE Goto(PushV(c.m, [t |-> "fn", u |-> u, ups |-> c.ups]), next + 2 * n)
    [] w = "InheritClass" -> Settle(m, 1, Derive(m, Peek(m, 0), name))
    [] w = "Negate"    -> Settle(m, 1, Neg(m, Peek(m, 0)))
    [] w = "Not"       -> Settle(m, 1, NotOp(m, Peek(m, 0)))
    [] w \in DOMAIN BinNames -> Binary(m, P, BinNames[w])
    [] w = "Is"        -> Settle(m, 2, IsOp(m, Peek(m, 1), Peek(m, 0)))
    [] w = "Jump"      -> Goto(m, target)
    [] w = "JumpIfFalse" -> Conditional(m, next, target, FALSE)
    [] w = "JumpIfTrue"  -> Conditional(m, next, target, TRUE)
    [] w = "LoadLocal"   -> PushV(m, m.stack[At(a)])
    [] w = "StoreLocal"  -> [m EXCEPT !.stack[At(a)] = Peek(m, 0)]
    [] w = "AssignLocal" -> Repl([m EXCEPT !.stack[At(a)] = Peek(m, 0)], 1, UnitV)
    [] w = "LoadUpvalue"   -> PushV(m, CellGet(m, fr.ups[a + 1]))
    [] w = "StoreUpvalue"  -> CellSet(m, fr.ups[a + 1], Peek(m, 0))
    [] w = "AssignUpvalue" -> Repl(CellSet(m, fr.ups[a + 1], Peek(m, 0)), 1, UnitV)
    [] w = "CloseUpvalue"  -> CloseAt(m, At(a))
    [] w = "StoreGlobal" -> IF Has(m.glob, name) THEN Faulted(m, "E3300")
                            ELSE PopN([m EXCEPT !.glob = Put(@, name, Peek(m, 0))], 1)
    [] w = "LoadGlobal"  -> IF Has(m.glob, name) THEN PushV(m, m.glob[name]) ELSE Faulted(m, "E3301")
    [] w = "LoadField"   -> Settle(m, 1, GetField(m, Peek(m, 0), name))
    [] w = "StoreField"  -> Settle(m, 2, SetField(m, Peek(m, 1), name, Peek(m, 0)))
    [] w = "AssignField" -> LET r == SetField(m, Peek(m, 1), name, Peek(m, 0))
                            IN Settle(m, 2, IF r.o = "v" THEN [r EXCEPT !.v = UnitV] ELSE r)
    [] w = "LoadIndex"   -> Settle(m, 2, GetIndex(m, Peek(m, 1), Peek(m, 0)))
    [] w = "StoreIndex"  -> Settle(m, 3, SetIndex(m, Peek(m, 2), Peek(m, 1), Peek(m, 0)))
    [] w = "AssignIndex" -> LET r == SetIndex(m, Peek(m, 2), Peek(m, 1), Peek(m, 0))
                            IN Settle(m, 3, IF r.o = "v" THEN [r EXCEPT !.v = UnitV] ELSE r)
    [] w = "LoadMethod"  ->
         LET recv == Peek(m, 0)  c == Peek(m, 1)
         IN IF ~IsRef(c, m, "cls") THEN Faulted(m, "E3007")
            ELSE IF ~IsClass(m, ClassOf(m, recv), c.a) THEN Faulted(m, "E3105")
            ELSE Repl(m, 2, GetMethod(m, c.a, name, recv))
    [] w = "StoreMethod" ->
         LET fn == Peek(m, 0)  c == Peek(m, 1)
         IN IF ~IsRef(c, m, "cls") THEN Faulted(m, "E3007")
            ELSE PopN([m EXCEPT !.heap[c.a].ms = Put(@, name, fn)], 2)
    [] w = "LoadFieldToLocal" ->
         LET r == GetField(m, Peek(m, 0), name)
         IN IF r.o # "v" THEN Settle(m, 1, r)
            ELSE Repl([r.M EXCEPT !.stack[At(U.code[pc + 2])] = r.v], 1, r.v)
    [] w = "Call"      -> DoCall(m, P, a)
    [] w = "CallSuper" ->
         LET c == Peek(m, 0)  m1 == PopN(m, 1)
         IN IF ~IsRef(c, m, "cls") THEN Faulted(m, "E3007") ELSE Construct(m1, P, a, c.a, Peek(m1, a))
    [] w = "LoadModule" -> LoadModule(m, P, name)
    [] w = "AssertBool" -> IF Peek(m, 0).t = "bool" THEN m ELSE Faulted(m, "E3102")
    [] w \in {"AssertTypeForLocal", "AssertTypeOrNullForLocal"} ->
         LET r == TypeCheck(m, m.stack[At(a)], Peek(m, 0), w = "AssertTypeOrNullForLocal")
         IN IF r.o = "v" THEN PopN(m, 1) ELSE Settle(m, 1, r)
    [] w \in {"AssertTypeAndReturn", "AssertTypeOrNullAndReturn"} ->
         LET r == TypeCheck(m, Peek(m, 1), Peek(m, 0), w = "AssertTypeOrNullAndReturn")
         IN IF r.o = "v" THEN Finish(PopN(m, 1), P) ELSE Settle(m, 1, r)
    [] w = "Return" -> Finish(m, P)

MaxInstr == 30000
(* all machines m may become in one step; Op is the opcode table *)
Steps(m, P, Op, maxBits) ==
  LET fr == Fr(m)  U == UnitOf(P, fr.u)  pc == fr.pc IN
  IF m.n > MaxInstr \/ Len(m.frames) > 400 THEN {[m EXCEPT !.st = "fuel"]}
  ELSE IF pc = Len(U.code) + 1 THEN {Finish(m, P)}
  ELSE IF pc < 1 \/ pc > Len(U.code) THEN {Broken(m, "jump outside of the code")}
  ELSE LET w == Op[U.code[pc] + 1]
           bad == Malformed(m, P, U, w, pc)
       IN IF bad # "" THEN {Broken(m, bad)}
          ELSE IF w = "Call" /\ AsksBit(m, U.code[pc + 1])
               THEN {Answer([m EXCEPT !.frames[Len(m.frames)].pc = pc + 2, !.n = @ + 1], U.code[pc + 1], bit)
                       : bit \in IF Len(m.bits) < maxBits THEN BOOLEAN ELSE {Len(m.bits) % 5 \in {0, 3}}}
               ELSE {Exec(m, P, U, w, pc)}
=============================================================================
