----------------------------- MODULE DiceCatalog ----------------------------
(* The catalogue of error codes and notes, and the rendering of errors at    *)
(* given places.  A "codes" case holds every code of the implementation,     *)
(* rendered with every detail set to <name of the detail>; a "place" case    *)
(* holds a text, spans: the error's range followed by those of its traces,   *)
(* and what was shown: places: [line, col, shown lines] in the order shown.  *)
EXTENDS DiceText, Json, IOUtils, FiniteSets

Cases == JsonDeserialize(IOEnv.DICE_CASES)

(* the details of each code's message *)
Details ==
  [E1000 |-> {"actual", "expected"}, E1001 |-> {"sequence"}, E1003 |-> {"input"}, E1004 |-> {"input"},
   E1007 |-> {"message"}, E1008 |-> {"message"},
   E2300 |-> {"name"}, E2301 |-> {"name"}, E2401 |-> {"name"}, E2402 |-> {"name"}, E2403 |-> {"name"},
   E3300 |-> {"name"}, E3301 |-> {"name"}, E3302 |-> {"name"}, E4000 |-> {"message"}, E4001 |-> {"message"},
   E4002 |-> {"directory"}, E4003 |-> {"name"}, E4004 |-> {"name"}]
(* a word without which the message cannot be about that rule *)
About ==
  [E1000 |-> "token", E1001 |-> "escape", E1002 |-> "string", E1003 |-> "nvalid", E1004 |-> "eserved", E1005 |-> "arguments",
   E1006 |-> "perator", E1007 |-> "integer", E1008 |-> "float", E1009 |-> "backslash", E2100 |-> "upvalues", E2101 |-> "constants", E2102 |-> "local",
   E2103 |-> "list", E2104 |-> "jump", E2200 |-> "return type", E2201 |-> "self", E2202 |-> "perator", E2203 |-> "super",
   E2204 |-> "return", E2205 |-> "super", E2206 |-> "type", E2207 |-> "arameter", E2300 |-> "class", E2301 |-> "function",
   E2400 |-> "assign", E2401 |-> "declared", E2402 |-> "initialized", E2403 |-> "immutable", E2500 |-> "return",
   E2501 |-> "break", E2502 |-> "continue", E2503 |-> "!!", E2504 |-> "export", E2505 |-> "import",
   E3000 |-> "boolean", E3001 |-> "int", E3002 |-> "float", E3003 |-> "array", E3004 |-> "string", E3005 |-> "symbol",
   E3006 |-> "object", E3007 |-> "class", E3100 |-> "mismatch", E3101 |-> "null", E3102 |-> "boolean", E3103 |-> "numeric",
   E3104 |-> "function", E3105 |-> "super", E3200 |-> "zero", E3300 |-> "redefined", E3301 |-> "found",
   E3302 |-> "perator", E3400 |-> "new", E3401 |-> "super", E3402 |-> "nherit", E4000 |-> "panic", E4001 |-> "IO",
   E4002 |-> "odule", E4003 |-> "odule", E4004 |-> "global"]

Mentions(s, w) == \E i \in 0..(Len(s) - Len(w)) : SubSeq(s, i + 1, i + Len(w)) = w

CodeBad(c) ==
  LET rs == c.codes  I == 1..Len(rs)
  IN {<<"code used twice", rs[i].name, rs[j].name>> : <<i, j>> \in {p \in I \X I : p[1] < p[2] /\ rs[p[1]].code = rs[p[2]].code}}
     \cup {<<"same message", rs[i].code, rs[j].code>> : <<i, j>> \in {p \in I \X I : p[1] < p[2] /\ rs[p[1]].head = rs[p[2]].head}}
     \cup {<<"no message", rs[i].code>> : i \in {k \in I : rs[k].head = ""}}
     \cup {<<"code not shown", rs[i].code, rs[i].label>> : i \in {k \in I : rs[k].label # rs[k].code}}
     \cup {<<"detail missing", rs[i].code>> : i \in {k \in I : rs[k].code \in DOMAIN Details /\ \E d \in Details[rs[k].code] : ~Mentions(rs[k].head, "<" \o d \o ">")}}
     \cup {<<"another rule's message", rs[i].code>> : i \in {k \in I : rs[k].code \in DOMAIN About /\ ~Mentions(rs[k].head, About[rs[k].code])}}
     \cup {<<"note", c.notes[i].name, c.notes[i].k>> : i \in {k \in 1..Len(c.notes) : c.notes[k].text = "" \/ c.notes[k].label # c.notes[k].k}}

WS == (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF Len(s) > 0 /\ s[1] \in WS THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF Len(s) > 0 /\ s[Len(s)] \in WS THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
Slice(c, ps, r) ==
  LET I == {i \in 1..Len(c.cps) : ps[i].o >= r[1] /\ ps[i].o < r[2]}
  IN IF I = {} THEN <<>> ELSE LET a == CHOOSE i \in I : \A j \in I : i <= j
                                  z == CHOOSE i \in I : \A j \in I : i >= j
                              IN SubSeq(c.cps, a, z)

(* the error first, then its traces, the latest first *)
PlaceBad(c) ==
  LET ps == Places(c.cps)  ls == Lines(c.cps)  n == Len(c.spans)
      order == <<c.spans[1]>> \o [i \in 1..(n - 1) |-> c.spans[n - i + 1]]
      Want(sp) == LET p == CHOOSE q \in {ps[i] : i \in 1..Len(ps)} : q.o = sp[1]
                      T == Touched(ls, sp[1], sp[2])
                      No(l) == CHOOSE i \in 1..Len(ls) : ls[i] = l
                  IN [line |-> p.l + 1, col |-> p.c + 1, shown |-> [i \in 1..Len(T) |-> [n |-> No(T[i]), x |-> Trim(Slice(c, ps, T[i]))]]]
      Got(g) == [line |-> g.line, col |-> g.col, shown |-> [i \in 1..Len(g.shown) |-> [n |-> g.shown[i].n, x |-> Trim(g.shown[i].x)]]]
  IN IF Len(c.places) # n THEN {<<"places", Len(c.places), n>>}
     ELSE {<<i, Want(order[i]), Got(c.places[i])>> : i \in {k \in 1..n : Want(order[k]) # Got(c.places[k])}}

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ LET c == Cases[case]  b == IF c.what = "codes" THEN CodeBad(c) ELSE PlaceBad(c)
           IN PrintT("@@" \o ToJson([id |-> c.id, ok |-> b = {}, bad |-> {ToString(x) : x \in b}]))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
