------------------------------- MODULE DiceSem ------------------------------
(* What a Dice program means, read off its tree.                             *)
(*                                                                          *)
(* A world S adds to heap/log/cnt: cells (one per variable that ever came    *)
(* into being), glob, mods (loaded modules), bits (the answers the           *)
(* environment will give) and nb (answers used), fuel.                       *)
(* Ev(n, e, S) evaluates tree n where names are bound by e (name -> cell).   *)
(* The outcome is one of                                                    *)
(*   val v     a value, with e possibly extended by declarations             *)
(*   ret v     return from the function       brk / cnt  leave / continue    *)
(*   np        `?` met null: the rest of the chain is skipped                *)
(*   fault     a run-time error with its code                               *)
(*   undef     the language leaves it open, or out of this model's range     *)
EXTENDS DiceValues

R(o, v, e, S) == [o |-> o, v |-> v, e |-> e, S |-> S]
Val(v, e, S) == R("val", v, e, S)
Flt(code, e, S) == R("fault", code, e, S)
Und(why, e, S) == R("undef", why, e, S)
(* from a built-in operation *)
Of(r, e) == CASE r.o = "v" -> Val(r.v, e, r.M)
              [] r.o = "fault" -> Flt(r.code, e, r.M)
              [] OTHER -> Und(r.why, e, r.M)
And_(r, K(_)) == IF r.o = "val" THEN K(r) ELSE r

NewVar(S, v) == [S EXCEPT !.cells = Append(@, v)]
Bind(e, S, n) == (n :> Len(S.cells) + 1) @@ e              \* to be used with NewVar(S, _)
Uninit == [t |-> "uninit"]

Lookup(n, e, S) ==
  IF n \in DOMAIN e THEN (IF S.cells[e[n]].t = "uninit" THEN Und("not yet initialised", e, S) ELSE Val(S.cells[e[n]], e, S))
  ELSE IF n \in DOMAIN S.glob THEN Val(S.glob[n], e, S) ELSE Flt("E3301", e, S)

LitVal(v) == CASE v.k = "int" -> I(v.i) [] v.k = "big" -> [t |-> "big", s |-> v.s]
               [] v.k = "flt" -> F(v.n, v.d) [] OTHER -> [t |-> "fbig", s |-> v.s]
OpOf == [Multiply |-> "mul", Divide |-> "div", Remainder |-> "rem", Add |-> "add", Subtract |-> "sub",
         GreaterThan |-> "gt", GreaterThanEquals |-> "gte", LessThan |-> "lt", LessThanEquals |-> "lte",
         Equals |-> "eq", NotEquals |-> "neq", RangeInclusive |-> "rin", RangeExclusive |-> "rex"]
AsgOp == [MulAssignment |-> "mul", DivAssignment |-> "div", AddAssignment |-> "add", SubAssignment |-> "sub"]
OverKey(n) == OpKey[OpOf[n]]

(* hoisting: functions and classes of a block exist from its beginning *)
RECURSIVE HoistE(_, _, _, _), FillArr(_, _, _)
HoistE(es, j, e, S) ==
  IF j > Len(es) THEN <<e, S>>
  ELSE LET d == IF es[j].k = "export" THEN es[j].e ELSE es[j]
       IN IF d.k \in {"fn", "class"} THEN HoistE(es, j + 1, Bind(e, S, d.n), NewVar(S, Uninit)) ELSE HoistE(es, j + 1, e, S)
FillArr(vs, e, S) == Val(Ref(NewAddr(S)), e, Alloc(S, [k |-> "arr", es |-> vs]))

(* `or` is for values of the standard class Result *)
IsResult(r, e) == /\ "Result" \notin DOMAIN e /\ "Result" \in DOMAIN r.S.glob
                  /\ IsRef(r.S.glob["Result"], r.S, "cls") /\ IsClass(r.S, ClassOf(r.S, r.v), r.S.glob["Result"].a)
Chain(n) == n.k \in {"np", "ep", "fld", "supf", "call", "supc", "idx"}

Closure(ps, ret, body, e, kind) == [t |-> "fn", ps |-> ps, ret |-> ret, body |-> body, env |-> e, kind |-> kind]

Names(ns) == {ns[j] : j \in 1..Len(ns)}
NextBit(S) == IF S.nb < Len(S.bits) THEN S.bits[S.nb + 1] ELSE FALSE
MaxFuel == 1500

RECURSIVE Ev(_, _, _), EvC(_, _, _), EvAll(_, _, _, _), Body(_, _, _, _), Apply(_, _, _), Loop(_, _, _, _), Count(_, _, _, _, _, _),
          Iterate(_, _, _, _, _), Fields(_, _, _, _, _), Members(_, _, _, _, _), New(_, _, _, _), Invoke(_, _, _, _), Unpack(_, _, _, _, _),
          CheckArgs(_, _, _, _), Import(_, _, _, _, _), While(_, _, _, _), Operate(_, _, _, _, _)

(* evaluate a list left to right; the value is the sequence of values *)
EvAll(es, j, e, S) ==
  IF j > Len(es) THEN Val(<<>>, e, S)
  ELSE And_(Ev(es[j], e, S), LAMBDA r : And_(EvAll(es, j + 1, e, r.S), LAMBDA q : Val(<<r.v>> \o q.v, e, q.S)))

(* statements j.. of a body: all for effect but the last, which is the value; no last: unit *)
Body(es, j, e, S) ==
  IF j > Len(es) THEN Val(UnitV, e, S)
  ELSE And_(Ev(es[j], e, S), LAMBDA r : IF j = Len(es) THEN r ELSE Body(es, j + 1, r.e, r.S))
BlockBody(b, e, S) == LET h == HoistE(b.es \o b.t, 1, e, S)
                      IN IF b.t = <<>> THEN And_(Body(b.es, 1, h[1], h[2]), LAMBDA r : Val(UnitV, e, r.S))
                         ELSE Body(b.es \o b.t, 1, h[1], h[2])
(* a chain stops skipping at its own end *)
Ev(n, e, S) ==
  IF S.fuel = 0 THEN Und("fuel", e, S)
  ELSE LET r == EvC(n, e, [S EXCEPT !.fuel = @ - 1])
       IN IF r.o = "np" THEN Val(Null, e, r.S) ELSE r
(* the head of a chain link *)
Head_(n, e, S) == IF Chain(n) THEN EvC(n, e, S) ELSE Ev(n, e, S)
Scoped(r, e) == [r EXCEPT !.e = e]

(* l op r *)
Operate(op, l, r, e, S) ==
  LET q == BinOp(S, S.glob, op, l, r)
  IN IF q.o = "call" THEN Invoke(q.fn, q.args, e, S) ELSE Of(q, e)

(* call a value *)
Invoke(fv, args, e, S) ==
  LET fn == IF fv.t = "bnd" THEN fv.fn ELSE fv
      self == IF fv.t = "bnd" THEN fv.self ELSE fv
  IN IF S.fuel = 0 THEN Und("fuel", e, S)
     ELSE CASE fn.t = "fn" -> Scoped(Apply([f |-> fn, self |-> self], args, [S EXCEPT !.fuel = @ - 1]), e)
       [] fn.t = "ref" /\ S.heap[fn.a].k = "cls" -> Scoped(New(fn.a, Ref(NewAddr(S)), args, Alloc(S, NewObj(fn.a))), e)
       [] fn.t = "nat" /\ fn.nm \in {"b", "mb"} ->
            LET bit == NextBit(S)
                S1 == Log([S EXCEPT !.nb = @ + 1], fn.nm \o (IF bit THEN "1" ELSE "0"))
            IN Val(IF fn.nm = "b" THEN B(bit) ELSE IF bit /\ args # <<>> THEN args[1] ELSE Null, e, S1)
       [] fn.t = "nat" -> Of(Native(S, fn.nm, self, args), e)
       [] OTHER -> Flt("E3104", e, S)

(* construct: run `new` of the class on obj; without one, arguments are dropped *)
New(cls, obj, args, S) ==
  IF Has(S.heap[cls].ms, "new") THEN Invoke(Bound(S.heap[cls].ms["new"], obj), args, Empty, S)
  ELSE IF args = <<>> /\ S.heap[cls].base # 0 /\ Has(S.heap[S.heap[cls].base].ms, "new") THEN Flt("E3401", Empty, S)
  ELSE Val(obj, Empty, S)

CheckArgs(ps, j, e, S) ==
  IF j > Len(ps) THEN Val(UnitV, e, S)
  ELSE IF ps[j].ty = <<>> THEN CheckArgs(ps, j + 1, e, S)
  ELSE And_(Lookup(ps[j].ty[1].n, e, S), LAMBDA c :
       And_(Of(TypeCheck(S, S.cells[e[ps[j].n]], c.v, ps[j].ty[1].q), e), LAMBDA r : CheckArgs(ps, j + 1, e, S)))

(* a fresh activation: receiver, parameters by position, checks, body, result check *)
Apply(c, args, S) ==
  LET f == c.f
      meth == f.kind \in {"method", "ctor"}
      ps == f.ps
      \* methods receive the receiver as their first parameter
      all == IF meth THEN <<c.self>> \o args ELSE args
      RECURSIVE Params(_, _, _)
      Params(j, e, S1) == IF j > Len(ps) THEN <<e, S1>>
                          ELSE Params(j + 1, Bind(e, S1, ps[j].n), NewVar(S1, IF j <= Len(all) THEN all[j] ELSE Null))
      \* the receiver keeps its name for super even when the body declares another self
      p0 == Params(1, f.env, S)
      p == IF meth /\ all # <<>> THEN <<Bind(p0[1], p0[2], "#self"), NewVar(p0[2], c.self)>> ELSE p0
      chk == CheckArgs(ps, 1, p[1], p[2])
  IN IF chk.o # "val" THEN chk
     ELSE
     LET r == IF f.body.k = "block" THEN BlockBody(f.body, p[1], chk.S) ELSE Ev(f.body, p[1], chk.S)
         v == IF f.kind = "ctor" THEN c.self ELSE r.v
     IN IF r.o \notin {"val", "ret"} THEN r
        ELSE IF f.ret = <<>> THEN Val(v, Empty, r.S)
        ELSE And_(Lookup(f.ret[1].n, p[1], r.S), LAMBDA k :
             And_(Of(TypeCheck(r.S, v, k.v, f.ret[1].q), Empty), LAMBDA q : Val(v, Empty, r.S)))

(* iterations: body until break; a fresh scope each time *)
Iter(r) == IF r.o = "cnt" THEN [r EXCEPT !.o = "val"] ELSE r
Loop(b, e, S, x) ==
  LET r == Iter(Ev(b, e, S))
  IN IF r.o = "brk" THEN Val(UnitV, e, r.S) ELSE And_(r, LAMBDA q : Loop(b, e, q.S, x))
While(c, b, e, S) ==
  LET k == Ev(c, e, S)
  IN IF k.o = "brk" THEN Val(UnitV, e, k.S)
     ELSE IF k.o = "cnt" THEN While(c, b, e, k.S)
     ELSE And_(k, LAMBDA q :
       IF q.v.t # "bool" THEN Flt("E3000", e, q.S)
       ELSE IF ~q.v.b THEN Val(UnitV, e, q.S)
       ELSE LET r == Iter(Ev(b, e, q.S))
            IN IF r.o = "brk" THEN Val(UnitV, e, r.S) ELSE And_(r, LAMBDA z : While(c, b, e, z.S)))
(* for n in i .. end *)
Count(n, i, end, op, e, S) ==
  And_(Operate(op, i, end, e, S), LAMBDA k :
    IF k.v.t # "bool" THEN Flt("E3000", e, k.S)
    ELSE IF ~k.v.b THEN Val(UnitV, e, k.S)
    ELSE LET r == Iter(Ev(n.e, Bind(e, k.S, n.n), NewVar(k.S, i)))
         IN IF r.o = "brk" THEN Val(UnitV, e, r.S)
            ELSE And_(r, LAMBDA q : And_(Operate("add", i, I(1), e, q.S), LAMBDA a : Count(n, a.v, end, op, e, a.S))))
(* for n in anything iterable: next() until is_done *)
Iterate(n, next, e, S, x) ==
  And_(Invoke(next, <<>>, e, S), LAMBDA s :
  And_(Of(GetField(s.S, s.v, "is_done"), e), LAMBDA d :
    IF d.v.t # "bool" THEN Flt("E3000", e, s.S)
    ELSE IF d.v.b THEN Val(UnitV, e, s.S)
    ELSE And_(Of(GetField(s.S, s.v, "value"), e), LAMBDA v :
         LET r == Iter(Ev(n.e, Bind(e, v.S, n.n), NewVar(v.S, v.v)))
         IN IF r.o = "brk" THEN Val(UnitV, e, r.S) ELSE And_(r, LAMBDA q : Iterate(n, next, e, q.S, x)))))

Fields(ks, es, j, o, es_S) ==                          \* object literal; es_S = <<e, S>>
  IF j > Len(ks) THEN Val(o, es_S[1], es_S[2])
  ELSE And_(Ev(es[j], es_S[1], es_S[2]), LAMBDA r :
       And_(Of(SetField(r.S, o, ks[j], r.v), es_S[1]), LAMBDA q : Fields(ks, es, j + 1, o, <<es_S[1], q.S>>)))

Members(ms, j, cls, e, S) ==
  IF j > Len(ms) THEN S
  ELSE LET m == ms[j]
           self == Len(m.ps) > 0 /\ m.ps[1].n = "self"
           key == IF m.k = "op" THEN OverKey(m.n) ELSE m.n
           f == Closure(m.ps, m.ret, m.e, e, IF ~self THEN "fn" ELSE IF m.k = "fn" /\ m.n = "new" THEN "ctor" ELSE "method")
       IN Members(ms, j + 1, cls, e,
            IF self THEN [S EXCEPT !.heap[cls].ms = Put(@, key, f)] ELSE [S EXCEPT !.heap[cls].fs = Put(@, key, f)])

(* bind each name to the field of that name *)
Unpack(ns, j, v, e, S) ==
  IF j > Len(ns) THEN Val(v, e, S)
  ELSE And_(Of(GetField(S, v, ns[j]), e), LAMBDA f : Unpack(ns, j + 1, v, Bind(e, f.S, ns[j]), NewVar(f.S, f.v)))

(* run a module's tree; the value is its export object *)
RunModule(tree, exports, S) ==
  LET e == "#export" :> (Len(S.cells) + 1)
      r == BlockBody(tree, e, NewVar(S, exports))
  IN And_(r, LAMBDA q : Val(exports, Empty, q.S))
Import(n, trees, e, S0, x) ==
  LET S == Log(S0, "import " \o n.path)
      loaded == Has(S.mods, n.path)
      a == NewAddr(S)
      S1 == Log([Alloc(S, NewObj(aModule)) EXCEPT !.mods = Put(@, n.path, Ref(a))], "load " \o n.path)
      r == IF loaded THEN Val(S.mods[n.path], e, S)
           ELSE IF ~Has(trees, n.path) THEN Und("no such module", e, S)
           ELSE RunModule(trees[n.path], Ref(a), S1)
  IN And_(r, LAMBDA q :
     And_(Unpack(n.ns, 1, q.v, e, q.S), LAMBDA u :
       IF n.m = <<>> THEN Val(q.v, u.e, u.S) ELSE Val(q.v, Bind(u.e, u.S, n.m[1]), NewVar(u.S, q.v))))

Assign(n, e, S) ==
  CASE n.l.k = "id" ->
         (IF n.l.n \notin DOMAIN e THEN Und("assignment to a global", e, S)
          ELSE IF n.op = "Assignment"
          THEN And_(Ev(n.r, e, S), LAMBDA r : Val(UnitV, e, [r.S EXCEPT !.cells[e[n.l.n]] = r.v]))
          ELSE And_(Lookup(n.l.n, e, S), LAMBDA old :
               And_(Ev(n.r, e, S), LAMBDA r :
               And_(Operate(AsgOp[n.op], old.v, r.v, e, r.S), LAMBDA x : Val(UnitV, e, [x.S EXCEPT !.cells[e[n.l.n]] = x.v])))))
    [] n.l.k = "fld" ->
         And_(Ev(n.l.e, e, S), LAMBDA o :
           IF n.op = "Assignment"
           THEN And_(Ev(n.r, e, o.S), LAMBDA r : Of(SetField(r.S, o.v, n.l.n, r.v), e))
           ELSE And_(Of(GetField(o.S, o.v, n.l.n), e), LAMBDA old :
                And_(Ev(n.r, e, o.S), LAMBDA r :
                And_(Operate(AsgOp[n.op], old.v, r.v, e, r.S), LAMBDA x :
                And_(Of(SetField(x.S, o.v, n.l.n, x.v), e), LAMBDA q : Val(UnitV, e, q.S))))))
    [] OTHER ->
         And_(Ev(n.l.e, e, S), LAMBDA o :
         And_(Ev(n.l.i, e, o.S), LAMBDA i :
           IF n.op = "Assignment"
           THEN And_(Ev(n.r, e, i.S), LAMBDA r : And_(Of(SetIndex(r.S, o.v, i.v, r.v), e), LAMBDA q : Val(UnitV, e, q.S)))
           ELSE And_(Of(GetIndex(i.S, o.v, i.v), e), LAMBDA old :
                And_(Ev(n.r, e, i.S), LAMBDA r :
                And_(Operate(AsgOp[n.op], old.v, r.v, e, r.S), LAMBDA x :
                And_(Of(SetIndex(x.S, o.v, i.v, x.v), e), LAMBDA q : Val(UnitV, e, q.S)))))))

BinaryEv(n, e, S) ==
  CASE n.op = "LogicalAnd" ->
         And_(Ev(n.l, e, S), LAMBDA l : IF l.v.t # "bool" THEN Flt("E3102", e, l.S) ELSE IF ~l.v.b THEN Scoped(l, e)
           ELSE And_(Ev(n.r, e, l.S), LAMBDA r : IF r.v.t # "bool" THEN Flt("E3102", e, r.S) ELSE Scoped(r, e)))
    [] n.op = "LogicalOr" ->
         And_(Ev(n.l, e, S), LAMBDA l : IF l.v.t # "bool" THEN Flt("E3102", e, l.S) ELSE IF l.v.b THEN Scoped(l, e)
           ELSE And_(Ev(n.r, e, l.S), LAMBDA r : IF r.v.t # "bool" THEN Flt("E3102", e, r.S) ELSE Scoped(r, e)))
    [] n.op = "Coalesce" -> And_(Ev(n.l, e, S), LAMBDA l : IF l.v.t # "null" THEN Scoped(l, e) ELSE Scoped(Ev(n.r, e, l.S), e))
    [] n.op = "Pipeline" -> And_(Ev(n.r, e, S), LAMBDA f : And_(Ev(n.l, e, f.S), LAMBDA a : Invoke(f.v, <<a.v>>, e, a.S)))
    [] OTHER -> And_(Ev(n.l, e, S), LAMBDA l : And_(Ev(n.r, e, l.S), LAMBDA r : Operate(OpOf[n.op], l.v, r.v, e, r.S)))

EvC(n, e, S) ==
  CASE n.k = "null" -> Val(Null, e, S)
    [] n.k = "unit" -> Val(UnitV, e, S)
    [] n.k \in {"int", "flt"} -> Val(LitVal(n.v), e, S)
    [] n.k = "str"  -> Val(Str(n.s), e, S)
    [] n.k = "bool" -> Val(B(n.b), e, S)
    [] n.k = "id"   -> Lookup(n.n, e, S)
    [] n.k = "list" -> And_(EvAll(n.es, 1, e, S), LAMBDA r : FillArr(r.v, e, r.S))
    [] n.k = "obj"  -> Fields(n.ks, n.es, 1, Ref(NewAddr(S)), <<e, Alloc(S, NewObj(aAny))>>)
    [] n.k = "afn"  -> Val(Closure(n.ps, n.ret, n.e, e, "fn"), e, S)
    [] n.k = "un"   -> And_(Ev(n.e, e, S), LAMBDA r : Of(IF n.op = "Negate" THEN Neg(r.S, r.v) ELSE NotOp(r.S, r.v), e))
    [] n.k = "bin"  -> BinaryEv(n, e, S)
    [] n.k = "is"   ->
         And_(Ev(n.e, e, S), LAMBDA r :
           IF n.ty.q /\ r.v.t = "null" THEN Val(B(TRUE), e, r.S)
           ELSE And_(Lookup(n.ty.n, e, r.S), LAMBDA c : Of(IsOp(r.S, r.v, c.v), e)))
    [] n.k = "asg"  -> Assign(n, e, S)
    \* ---- chains ----
    [] n.k = "np"   -> And_(Head_(n.e, e, S), LAMBDA r : IF r.v.t = "null" THEN R("np", Null, e, r.S) ELSE Scoped(r, e))
    [] n.k = "ep"   ->
         And_(Head_(n.e, e, S), LAMBDA r :
         And_(Of(GetField(r.S, r.v, "is_ok"), e), LAMBDA k :
           IF k.v.t # "bool" THEN Flt("E3000", e, r.S)
           ELSE IF k.v.b THEN Of(GetField(r.S, r.v, "result"), e) ELSE R("ret", r.v, e, r.S)))
    [] n.k = "fld"  -> And_(Head_(n.e, e, S), LAMBDA r : Of(GetField(r.S, r.v, n.n), e))
    [] n.k = "idx"  -> And_(Head_(n.e, e, S), LAMBDA r : And_(Ev(n.i, e, r.S), LAMBDA i : Of(GetIndex(i.S, r.v, i.v), e)))
    [] n.k = "call" -> And_(Head_(n.e, e, S), LAMBDA f : And_(EvAll(n.es, 1, e, f.S), LAMBDA a : Scoped(Invoke(f.v, a.v, e, a.S), e)))
    [] n.k = "supf" ->
         And_(Lookup(IF n.c = <<>> THEN "super" ELSE n.c[1], e, S), LAMBDA c :
         And_(Lookup("#self", e, S), LAMBDA s :
           IF ~IsRef(c.v, S, "cls") THEN Flt("E3007", e, S)
           ELSE IF ~IsClass(S, ClassOf(S, s.v), c.v.a) THEN Flt("E3105", e, S)
           ELSE Val(GetMethod(S, c.v.a, n.n, s.v), e, S)))
    [] n.k = "supc" ->
         And_(Lookup("#self", e, S), LAMBDA s :
         And_(EvAll(n.es, 1, e, s.S), LAMBDA a :
         And_(Lookup("super", e, a.S), LAMBDA c :
           IF ~IsRef(c.v, a.S, "cls") THEN Flt("E3007", e, a.S) ELSE Scoped(New(c.v.a, s.v, a.v, a.S), e))))
    \* ---- declarations ----
    [] n.k = "let"  ->
         And_(Ev(n.e, e, S), LAMBDA r :
           IF n.d THEN Unpack(n.ns, 1, r.v, e, r.S) ELSE Val(r.v, Bind(e, r.S, n.ns[1]), NewVar(r.S, r.v)))
    [] n.k = "fn"   -> LET f == Closure(n.ps, n.ret, n.e, e, "fn") IN Val(f, e, [S EXCEPT !.cells[e[n.n]] = f])
    [] n.k = "op"   -> IF Has(S.glob, OverKey(n.n)) THEN Flt("E3300", e, S)
                       ELSE Val(UnitV, e, [S EXCEPT !.glob = Put(@, OverKey(n.n), Closure(n.ps, n.ret, n.e, e, "fn"))])
    [] n.k = "class" ->
         And_(IF n.base = <<>> THEN Lookup("Any", Empty, S) ELSE Ev(n.base[1], e, S), LAMBDA b :
         And_(Of(Derive(b.S, b.v, n.n), e), LAMBDA c :
           LET S1 == [c.S EXCEPT !.cells[e[n.n]] = c.v]
               e1 == Bind(e, S1, "super")
           IN Val(c.v, e, Members(n.ms, 1, c.v.a, e1, NewVar(S1, b.v)))))
    [] n.k = "import" -> Import(n, S.trees, e, S, 0)
    [] n.k = "export" ->
         And_(Ev(n.e, e, S), LAMBDA r :
         And_(Of(SetField(r.S, r.S.cells[r.e["#export"]], IF n.e.k = "let" THEN n.e.ns[1] ELSE n.e.n, r.v), e), LAMBDA q : Val(r.v, r.e, q.S)))
    \* ---- control ----
    [] n.k = "if"   ->
         And_(Ev(n.c, e, S), LAMBDA c :
           IF c.v.t # "bool" THEN Flt("E3000", e, c.S)
           ELSE IF c.v.b THEN Scoped(Ev(n.t, e, c.S), e)
           ELSE IF n.f = <<>> THEN Val(UnitV, e, c.S) ELSE Scoped(Ev(n.f[1], e, c.S), e))
    [] n.k = "or"   ->
         And_(Ev(n.e, e, S), LAMBDA r :
         IF ~IsResult(r, e) THEN Und("`or` applied to something that is not a Result", e, r.S) ELSE
         And_(Of(GetField(r.S, r.v, "is_ok"), e), LAMBDA k :
           IF k.v.t # "bool" THEN Flt("E3000", e, r.S)
           ELSE And_(Of(GetField(r.S, r.v, "result"), e), LAMBDA p :
                IF k.v.b THEN p
                ELSE Scoped(Ev(n.b, Bind(e, r.S, n.n), NewVar(r.S, p.v)), e))))
    [] n.k = "loop"  -> Scoped(Loop(n.e, e, S, 0), e)
    [] n.k = "while" -> Scoped(While(n.c, n.e, e, S), e)
    [] n.k = "for"   ->
         IF n.s.k = "bin" /\ n.s.op \in {"RangeExclusive", "RangeInclusive"}
         THEN And_(Ev(n.s.r, e, S), LAMBDA hi : And_(Ev(n.s.l, e, hi.S), LAMBDA lo :
                Scoped(Count(n, lo.v, hi.v, IF n.s.op = "RangeInclusive" THEN "lte" ELSE "lt", e, lo.S), e)))
         ELSE And_(Ev(n.s, e, S), LAMBDA s :
              And_(Of(GetField(s.S, s.v, "iter"), e), LAMBDA it :
              And_(Invoke(it.v, <<>>, e, it.S), LAMBDA i :
              And_(Of(GetField(i.S, i.v, "next"), e), LAMBDA nx : Scoped(Iterate(n, nx.v, e, nx.S, 0), e)))))
    [] n.k = "block" -> Scoped(BlockBody(n, e, S), e)
    [] n.k = "break" -> R("brk", UnitV, e, S)
    [] n.k = "continue" -> R("cnt", UnitV, e, S)
    [] n.k = "return" -> IF n.e = <<>> THEN R("ret", UnitV, e, S)
                         ELSE And_(Ev(n.e[1], e, S), LAMBDA r : R("ret", r.v, e, r.S))
    [] OTHER -> Und("no meaning for " \o n.k, e, S)

World0 == [heap |-> Heap0, log |-> <<>>, cnt |-> 0, glob |-> Globals0, cells |-> <<>>, mods |-> Empty, trees |-> Empty,
           bits |-> <<>>, nb |-> 0, fuel |-> MaxFuel]

(* a whole program; the value is rendered, so that machine and meaning can be compared *)
Run(tree, kind, S) ==
  IF kind = "s" THEN BlockBody(tree, Empty, S)
  ELSE RunModule(tree, Ref(NewAddr(S)), Alloc(S, NewObj(aModule)))
=============================================================================
