------------------------------- MODULE DiceDiag -----------------------------
(* Diagnostics: what a rendered diagnostic must say about a rejected text.   *)
(*                                                                           *)
(* A case is a text with real: [code, line, col (as shown, 1-based), head    *)
(* (the message), vars (the details read off the message), shown: sequence   *)
(* of [n, x (code points)] the source lines shown, notes: sequence of        *)
(* [k, id, v]].  kind "p" cases carry path, the name the source was given,   *)
(* and where, the name shown.                                                *)
EXTENDS DiceGrammar, DiceStatic, DiceText, Json, IOUtils

Cases == JsonDeserialize(IOEnv.DICE_CASES)

(* the details every message must show, and a word that makes it the message of that rule *)
Details ==
  [E1000 |-> {"actual", "expected"}, E1001 |-> {"sequence"}, E1003 |-> {"input"}, E1004 |-> {"input"},
   E1007 |-> {"message"}, E1008 |-> {"message"},
   E2300 |-> {"name"}, E2301 |-> {"name"}, E2401 |-> {"name"}, E2402 |-> {"name"}, E2403 |-> {"name"}]
DetailsOf(code) == IF code \in DOMAIN Details THEN Details[code] ELSE {}

(* byte range of token i; the end of input is the last token up to the end of the text *)
Tok(T, c, i) == IF i <= Len(T.toks) THEN <<T.toks[i].s, T.toks[i].e>>
                ELSE IF T.err # "" THEN <<T.at, T.at>>
                ELSE LET n == Len(T.toks) IN <<IF n = 0 THEN 0 ELSE T.toks[n].s, c.bytes>>

Errors(c) ==
  LET T == Lex(c)  P == Parse(T)
  IN IF ~P.ok THEN
       LET r == Tok(T, c, P.i)
       IN {[code |-> P.code, s |-> r[1], e |-> r[2], \* `op` and `super` are pointed at themselves when what follows them doesn't fit
            alt |-> Tok(T, c, IF P.i > 1 /\ K(T, P.i - 1) \in {"Operator", "Super"} THEN P.i - 1 ELSE P.i)[1],
            d |-> P.act, exp |-> P.exp]}
     ELSE {[code |-> v.code, s |-> Tok(T, c, v.a)[1], e |-> Tok(T, c, v.z)[2], alt |-> Tok(T, c, v.a)[1], d |-> v.d, exp |-> {}] :
             v \in Violations(P.n, IF c.kind = "m" THEN "module" ELSE "script")}

WS == (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF Len(s) > 0 /\ s[1] \in WS THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF Len(s) > 0 /\ s[Len(s)] \in WS THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

(* the code points of the byte range r *)
Slice(c, ps, r) ==
  LET I == {i \in 1..Len(c.cps) : ps[i].o >= r[1] /\ ps[i].o < r[2]}
  IN IF I = {} THEN <<>> ELSE LET a == CHOOSE i \in I : \A j \in I : i <= j
                                  z == CHOOSE i \in I : \A j \in I : i >= j
                              IN SubSeq(c.cps, a, z)

(* the shown lines are consecutive whole lines of the text from the given line on, under their own numbers *)
LinesShown(c, ps, ls, shown, first) ==
  \A i \in 1..Len(shown) :
    /\ shown[i].n = first + i - 1
    /\ shown[i].n \in 1..Len(ls)
    /\ Trim(shown[i].x) = Trim(Slice(c, ps, ls[shown[i].n]))

(* the offset a shown 1-based line and column name; -1 when there is no such place *)
OffsetOf(ps, l, col) ==
  LET S == {i \in 1..Len(ps) : ps[i].l + 1 = l /\ ps[i].c + 1 = col}
  IN IF S = {} THEN 0 - 1 ELSE ps[CHOOSE i \in S : TRUE].o
LineNo(ls, o) == CHOOSE i \in 1..Len(ls) : ls[i][1] <= o /\ (i = Len(ls) \/ ls[i + 1][1] > o)

Shown(r, v) == IF v \in DOMAIN r.vars THEN r.vars[v] ELSE ""

EscOk(c, ps, s, q) ==
  /\ Len(q) = 2 /\ q[1] = BSlash /\ q[2] \notin {DQuote, BSlash, 110, 114, 116}
  /\ \E i \in 1..Len(c.cps) - 1 : ps[i].o >= s /\ c.cps[i] = q[1] /\ c.cps[i + 1] = q[2]

(* what is wrong with the rendering r of error e, as a set of complaints *)
Complaints(c, r, e, ps, ls) ==
  LET o == OffsetOf(ps, r.line, r.col)
      top == IF e.e > e.s THEN e.e ELSE e.s + 1
      eoi == e.d = "EOI"
      inside == (o >= e.s /\ o < top) \/ o = e.alt
      T == Touched(ls, e.s, IF e.e > e.s THEN e.e ELSE e.s + 1)
      whole == [i \in 1..Len(r.shown) |-> r.shown[i].n]
  IN (IF o < 0 THEN {"no such position"} ELSE {})
     \cup (IF o >= 0 /\ ~inside THEN {"position outside the construct"} ELSE {})
     \cup (IF o >= 0 /\ (Len(r.shown) = 0 \/ ~LinesShown(c, ps, ls, r.shown, r.line)) THEN {"source lines"} ELSE {})
     \cup (IF o >= 0 /\ Len(r.shown) > 0 /\ r.shown[Len(r.shown)].n \in 1..Len(ls) /\ ls[r.shown[Len(r.shown)].n][1] >= (IF eoi THEN c.bytes + 1 ELSE top) THEN {"lines beyond the construct"} ELSE {})
     \cup (IF o = e.s /\ e.e > e.s /\ ~eoi /\ Len(r.shown) # Len(T) THEN {"lines missing"} ELSE {})
     \cup (IF \E v \in DetailsOf(e.code) : Shown(r, v) = "" THEN {"detail missing"} ELSE {})
     \cup (IF "name" \in DetailsOf(e.code) /\ Shown(r, "name") # e.d THEN {"name"} ELSE {})
     \cup (IF "input" \in DetailsOf(e.code) /\ Shown(r, "input") # e.d THEN {"input"} ELSE {})
     \cup (IF "actual" \in DetailsOf(e.code) /\ Shown(r, "actual") # e.d THEN {"token found"} ELSE {})
     \cup (IF "expected" \in DetailsOf(e.code) /\ {r.exp[i] : i \in 1..Len(r.exp)} # e.exp THEN {"tokens expected"} ELSE {})
     \cup (IF "sequence" \in DetailsOf(e.code) /\ ~EscOk(c, ps, e.s, r.seq) THEN {"escape sequence"} ELSE {})

(* notes: an export is either outside of a module's own code, or not at its top; an import names nothing *)
NotesBad(c, r) ==
  LET ids == {r.notes[i].id : i \in 1..Len(r.notes)}
      Kind(i) == r.notes[i].v
  IN CASE r.code = "E2504" -> (ids \ {"export-only-allowed-in-top-level-scope", "export-only-allowed-in-modules"})
                              \cup (IF \E i \in 1..Len(r.notes) : r.notes[i].id = "export-only-allowed-in-modules" /\ Kind(i) \in {"", "module"} THEN {"kind"} ELSE {})
                              \cup (IF c.kind = "s" /\ ids = {} THEN {"no note"} ELSE {})
       [] r.code = "E2505" -> (ids \ {"import-requires-items-to-be-imported", "import-requires-items-to-be-imported-help"})
                              \cup ({"import-requires-items-to-be-imported", "import-requires-items-to-be-imported-help"} \ ids)
       [] OTHER -> ids

Verdict(c) ==
  LET r == c.real
      ps == Places(c.cps)
      ls == Lines(c.cps)
      all == Errors(c)
      es == {e \in all : e.code = r.code}
      good == {e \in es : Complaints(c, r, e, ps, ls) = {}}
      nb == NotesBad(c, r)
      place == IF r.where = (IF c.path = "" THEN "<Script>" ELSE c.path) THEN {} ELSE {"source name"}
      base == [id |-> c.id, code |-> r.code, known |-> es # {}, other |-> {e.code : e \in all}]
      bad == (IF es # {} /\ good = {} THEN UNION {Complaints(c, r, e, ps, ls) : e \in es} ELSE {}) \cup nb \cup place
             \cup (IF r.again THEN {} ELSE {"short form differs"})
  IN base @@ [ok |-> bad = {} /\ es # {}, bad |-> bad,
              spec |-> IF bad = {} THEN {} ELSE {[code |-> e.code, s |-> e.s, e |-> e.e, d |-> e.d, exp |-> e.exp] : e \in es}]

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ PrintT("@@" \o ToJson(Verdict(Cases[case])))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
