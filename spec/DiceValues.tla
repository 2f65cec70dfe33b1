----------------------------- MODULE DiceValues -----------------------------
(* Values, the heap and the built-in operations of Dice: what the instructions *)
(* (DiceVM) and the expressions (DiceSem) mean by "add", "field" or "call".    *)
(*                                                                            *)
(* A world M has at least heap (sequence of cells), log (what the program did  *)
(* that can be seen) and cnt (the counter behind the native `more`).           *)
(* Partial operations yield [o |-> "v", v, M], [o |-> "fault", code, M],       *)
(* or [o |-> "undef", why, M] where the language leaves the outcome open or    *)
(* numbers leave the range this specification computes with.                   *)
EXTENDS Integers, Sequences, TLC

Null   == [t |-> "null"]
UnitV  == [t |-> "unit"]
B(b)   == [t |-> "bool", b |-> b]
I(i)   == [t |-> "int", i |-> i]
F(n, d) == [t |-> "flt", n |-> n, d |-> d]
Str(s) == [t |-> "str", s |-> s]
Ref(a) == [t |-> "ref", a |-> a]
Nat_(n) == [t |-> "nat", nm |-> n]

Empty == [x \in {} |-> 0]                     \* the function with no fields
Put(f, k, v) == (k :> v) @@ f
Has(f, k) == k \in DOMAIN f

(* ---- built-in classes live at fixed addresses ---- *)
aAny == 1  aArray == 2  aBool == 3  aClass == 4  aFloat == 5  aFunction == 6  aInt == 7
aString == 8  aUnit == 9  aModule == 10
BuiltinName == <<"Any", "Array", "Bool", "Class", "Float", "Function", "Int", "String", "Unit", "Module">>
ArrayMethods == ("new" :> Nat_("array.new")) @@ ("push" :> Nat_("array.push")) @@ ("pop" :> Nat_("array.pop"))
                @@ ("length" :> Nat_("array.length")) @@ ("iter" :> Nat_("array.iter"))
Heap0 == [i \in 1..10 |-> [k |-> "cls", n |-> BuiltinName[i], base |-> IF i = 1 THEN 0 ELSE 1,
                           ms |-> IF i = aArray THEN ArrayMethods ELSE Empty, fs |-> Empty]]
Globals0 == [i \in {"Any", "Array", "Bool", "Class", "Float", "Function", "Int", "String", "Unit", "Module"} |->
               Ref(CHOOSE j \in 1..10 : BuiltinName[j] = i)]
            @@ [i \in {"b", "t", "mb", "more"} |-> Nat_(i)]

Cell(M, v) == M.heap[v.a]
IsRef(v, M, k) == v.t = "ref" /\ M.heap[v.a].k = k
Alloc(M, c) == [M EXCEPT !.heap = Append(@, c)]
NewAddr(M) == Len(M.heap) + 1
NewObj(cls) == [k |-> "obj", cls |-> cls, fs |-> Empty]

V(v, M) == [o |-> "v", v |-> v, M |-> M]
Fault(code, M) == [o |-> "fault", code |-> code, M |-> M]
Undef(why, M) == [o |-> "undef", why |-> why, M |-> M]

(* the class of a value; 0 for null *)
ClassOf(M, v) ==
  CASE v.t = "null" -> 0
    [] v.t = "unit" -> aUnit
    [] v.t = "bool" -> aBool
    [] v.t \in {"int", "big"} -> aInt
    [] v.t \in {"flt", "fbig"} -> aFloat
    [] v.t = "str"  -> aString
    [] v.t \in {"nat", "fn", "bnd"} -> aFunction
    [] v.t = "ref"  -> (CASE Cell(M, v).k = "obj" -> Cell(M, v).cls
                          [] Cell(M, v).k = "arr" -> aArray
                          [] OTHER -> aClass)
    [] OTHER -> 0
RECURSIVE IsClass(_, _, _)
IsClass(M, c, d) == c # 0 /\ (c = d \/ IsClass(M, M.heap[c].base, d))
Bound(fn, self) == [t |-> "bnd", fn |-> fn, self |-> self]

GetMethod(M, c, key, recv) ==
  IF c # 0 /\ Has(M.heap[c].ms, key) THEN Bound(M.heap[c].ms[key], recv) ELSE Null

(* own fields first, then the methods of the class; a missing field is null *)
GetField(M, v, key) ==
  IF v.t = "ref" /\ Cell(M, v).k \in {"obj", "cls"} /\ Has(Cell(M, v).fs, key) THEN V(Cell(M, v).fs[key], M)
  ELSE IF key = "new" THEN Fault("E3400", M)
  ELSE V(GetMethod(M, ClassOf(M, v), key, v), M)

SetField(M, o, key, v) ==
  IF o.t = "ref" /\ Cell(M, o).k \in {"obj", "cls"} THEN V(v, [M EXCEPT !.heap[o.a].fs = Put(@, key, v)])
  ELSE IF o.t = "ref" THEN Undef("field of an array", M) ELSE Fault("E3006", M)

GetIndex(M, o, i) ==
  IF IsRef(o, M, "arr") /\ i.t = "int"
  THEN V(IF i.i >= 0 /\ i.i < Len(Cell(M, o).es) THEN Cell(M, o).es[i.i + 1] ELSE Null, M)
  ELSE IF i.t = "str" THEN GetField(M, o, i.s) ELSE Fault("E3005", M)
SetIndex(M, o, i, v) ==
  IF IsRef(o, M, "arr") /\ i.t = "int"
  THEN IF i.i >= 0 /\ i.i < Len(Cell(M, o).es) THEN V(v, [M EXCEPT !.heap[o.a].es[i.i + 1] = v])
       ELSE Undef("index out of bounds", M)
  ELSE IF i.t = "str" THEN SetField(M, o, i.s, v)
  ELSE IF o.t # "ref" THEN Fault("E3006", M) ELSE Fault("E3005", M)

(* ---- arithmetic ---- *)
Abs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Gcd2(_, _)
Gcd2(a, b) == IF b = 0 THEN a ELSE Gcd2(b, a % b)
Small(i, M, v) == IF Abs(i) < 100000000 THEN V(v, M) ELSE Undef("magnitude", M)
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
FNorm(n, d, M) == LET g == Gcd2(Abs(n), d)  n1 == TDiv(n, g)  d1 == d \div g
                  IN IF Abs(n1) > 1000000 \/ d1 > 4096 THEN Undef("magnitude", M) ELSE V(F(n1, d1), M)
Ok2(l, r) == Abs(l) < 10000 /\ Abs(r) < 10000
IntOp(op, l, r, M) ==
  CASE op = "add" -> Small(l + r, M, I(l + r))
    [] op = "sub" -> Small(l - r, M, I(l - r))
    [] op = "mul" -> IF Ok2(l, r) THEN V(I(l * r), M) ELSE Undef("magnitude", M)
    [] op = "div" -> IF r = 0 THEN Fault("E3200", M) ELSE V(I(TDiv(l, r)), M)
    [] op = "rem" -> IF r = 0 THEN Fault("E3200", M) ELSE V(I(l - r * TDiv(l, r)), M)
    [] op = "gt"  -> V(B(l > r), M)
    [] op = "gte" -> V(B(l >= r), M)
    [] op = "lt"  -> V(B(l < r), M)
    [] op = "lte" -> V(B(l <= r), M)
    [] op = "eq"  -> V(B(l = r), M)
    [] op = "neq" -> V(B(l # r), M)
FltOp(op, l, r, M) ==
  IF ~Ok2(l.n, r.n) \/ l.d > 1024 \/ r.d > 1024 THEN Undef("magnitude", M)
  ELSE LET a == l.n * r.d  b == r.n * l.d IN
  CASE op = "add" -> FNorm(a + b, l.d * r.d, M)
    [] op = "sub" -> FNorm(a - b, l.d * r.d, M)
    [] op = "mul" -> FNorm(l.n * r.n, l.d * r.d, M)
    [] op = "gt"  -> V(B(a > b), M)
    [] op = "gte" -> V(B(a >= b), M)
    [] op = "lt"  -> V(B(a < b), M)
    [] op = "lte" -> V(B(a <= b), M)
    [] op = "eq"  -> V(B(a = b), M)
    [] op = "neq" -> V(B(a # b), M)
    [] OTHER      -> Undef("float division", M)
BoolOp(op, l, r, M) ==
  CASE op = "gt"  -> V(B(l /\ ~r), M)
    [] op = "gte" -> V(B(l \/ ~r), M)
    [] op = "lt"  -> V(B(~l /\ r), M)
    [] op = "lte" -> V(B(~l \/ r), M)
    [] op = "eq"  -> V(B(l = r), M)
    [] op = "neq" -> V(B(l # r), M)
Cmp == {"gt", "gte", "lt", "lte", "eq", "neq"}
Huge(v) == v.t \in {"big", "fbig"}

(* a binary operator: built in, or [o |-> "call", fn, args] for an overloaded one *)
OpKey == [add |-> "#add", sub |-> "#sub", mul |-> "#mul", div |-> "#div", rem |-> "#rem", gt |-> "#gt",
          gte |-> "#gte", lt |-> "#lt", lte |-> "#lte", eq |-> "#eq", neq |-> "#neq",
          rin |-> "#range_inclusive", rex |-> "#range_exclusive"]
Overload(M, glob, op, l, r) ==
  LET m == GetMethod(M, ClassOf(M, l), OpKey[op], l)
      own == GetField(M, l, OpKey[op])
  IN IF own.o # "v" THEN own
     ELSE IF own.v # Null THEN [o |-> "call", fn |-> own.v, args |-> <<r>>, M |-> M]
     ELSE IF Has(glob, OpKey[op]) THEN [o |-> "call", fn |-> glob[OpKey[op]], args |-> <<l, r>>, M |-> M]
     ELSE Fault("E3302", M)
BinOp(M, glob, op, l, r) ==
  IF op \in {"rin", "rex"} THEN Overload(M, glob, op, l, r)
  ELSE IF op \in {"eq", "neq"} /\ (l.t = "null" \/ r.t = "null") THEN V(B((l.t = r.t) = (op = "eq")), M)
  ELSE IF op \in {"eq", "neq"} /\ (l.t = "unit" \/ r.t = "unit") THEN V(B((l.t = r.t) = (op = "eq")), M)
  ELSE IF (Huge(l) \/ Huge(r)) /\ l.t # "ref" THEN Undef("magnitude", M)
  ELSE IF l.t = "int" /\ r.t = "int" THEN IntOp(op, l.i, r.i, M)
  ELSE IF l.t = "flt" /\ r.t = "flt" THEN FltOp(op, l, r, M)
  ELSE IF l.t = "bool" /\ r.t = "bool" /\ op \in Cmp THEN BoolOp(op, l.b, r.b, M)
  ELSE Overload(M, glob, op, l, r)
Neg(M, v) == CASE v.t = "int" -> V(I(-v.i), M)
               [] v.t = "flt" -> V(F(-v.n, v.d), M)
               [] Huge(v) -> Undef("magnitude", M)
               [] OTHER -> Fault("E3103", M)
NotOp(M, v) == IF v.t = "bool" THEN V(B(~v.b), M) ELSE Fault("E3102", M)
IsOp(M, v, c) == IF IsRef(c, M, "cls") THEN V(B(IsClass(M, ClassOf(M, v), c.a)), M) ELSE Fault("E3007", M)
(* a declared type: the class, and whether null is admitted *)
TypeCheck(M, v, c, orNull) ==
  IF ~IsRef(c, M, "cls") THEN Fault("E3007", M)
  ELSE IF v.t = "null" THEN (IF orNull THEN V(v, M) ELSE Fault("E3101", M))
  ELSE IF IsClass(M, ClassOf(M, v), c.a) THEN V(v, M) ELSE Fault("E3100", M)

Derive(M, base, name) ==
  IF ~IsRef(base, M, "cls") THEN Fault("E3007", M)
  ELSE IF base.a \in 2..9 THEN Fault("E3402", M)
  ELSE V(Ref(NewAddr(M)),
         Alloc(M, [k |-> "cls", n |-> name, base |-> base.a, fs |-> Cell(M, base).fs,
                   ms |-> [m \in DOMAIN Cell(M, base).ms \ {"new"} |-> Cell(M, base).ms[m]]]))

(* ---- what can be seen of a value ---- *)
RECURSIVE Render(_, _, _), RenderSeq(_, _, _, _), RenderFields(_, _, _, _)
RenderSeq(M, es, j, d) == IF j > Len(es) THEN "" ELSE (IF j > 1 THEN "," ELSE "") \o Render(M, es[j], d) \o RenderSeq(M, es, j + 1, d)
RenderFields(M, fs, ks, d) ==
  IF ks = {} THEN "" ELSE LET k == CHOOSE k \in ks : TRUE
                          IN k \o ":" \o Render(M, fs[k], d) \o " " \o RenderFields(M, fs, ks \ {k}, d)
Render(M, v, d) ==
  CASE v.t = "null" -> "null"
    [] v.t = "unit" -> "()"
    [] v.t = "bool" -> IF v.b THEN "true" ELSE "false"
    [] v.t = "int"  -> ToString(v.i)
    [] v.t = "big"  -> v.s
    [] v.t = "flt"  -> ToString(v.n) \o "/" \o ToString(v.d) \o "f"
    [] v.t = "fbig" -> v.s \o "f"
    [] v.t = "str"  -> "'" \o v.s \o "'"
    [] v.t \in {"fn", "bnd", "nat"} -> "<fn>"
    [] v.t = "ref" ->
         (LET c == Cell(M, v) IN
          CASE c.k = "cls" -> "<class " \o c.n \o ">"
            [] c.k = "arr" -> IF d = 0 THEN "[..]" ELSE "[" \o RenderSeq(M, c.es, 1, d - 1) \o "]"
            [] OTHER -> IF d = 0 THEN "{..}" ELSE M.heap[c.cls].n \o "{" \o RenderFields(M, c.fs, DOMAIN c.fs, d - 1) \o "}")
    [] OTHER -> "?" \o v.t
Log(M, x) == [M EXCEPT !.log = Append(@, x)]

(* ---- native functions that need no interpreter of their own ---- *)
(* `b` and `mb` ask for a bit and are left to the machine that runs them. *)
Native(M, nm, self, args) ==
  LET a1 == IF Len(args) > 0 THEN args[1] ELSE Null IN
  CASE nm = "t" -> V(a1, Log(M, Render(M, a1, 3)))
    [] nm = "more" -> LET c == M.cnt + 1 IN V(B(c % 3 # 0 /\ c < 9), Log([M EXCEPT !.cnt = c], "more"))
    [] nm = "array.new" -> V(Ref(NewAddr(M)), Alloc(M, [k |-> "arr", es |-> args]))
    [] nm = "array.length" -> V(I(Len(Cell(M, self).es)), M)
    [] nm = "array.push" -> V(UnitV, [M EXCEPT !.heap[self.a].es = Append(@, a1)])
    [] nm = "array.pop" -> LET es == Cell(M, self).es IN
         IF es = <<>> THEN V(UnitV, M) ELSE V(es[Len(es)], [M EXCEPT !.heap[self.a].es = SubSeq(@, 1, Len(@) - 1)])
    [] nm = "array.iter" ->
         \* an object whose `next` walks the array; the cell behind it holds the position
         LET it == NewAddr(M)
             M1 == Alloc(M, [k |-> "it", arr |-> self.a, i |-> 0])
         IN V(Ref(it + 1), Alloc(M1, [NewObj(aAny) EXCEPT !.fs = "next" :> Bound(Nat_("iter.next"), Ref(it))]))
    [] nm = "iter.next" ->
         LET c == Cell(M, self)  es == M.heap[c.arr].es  more == c.i < Len(es)
             M1 == IF more THEN [M EXCEPT !.heap[self.a].i = @ + 1] ELSE M
             fs == IF more THEN ("value" :> es[c.i + 1]) @@ ("is_done" :> B(FALSE)) ELSE "is_done" :> B(TRUE)
         IN V(Ref(NewAddr(M1)), Alloc(M1, [NewObj(aAny) EXCEPT !.fs = fs]))
    [] OTHER -> Undef("native " \o nm, M)
=============================================================================
