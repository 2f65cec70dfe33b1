------------------------------ MODULE DiceLex ------------------------------
(* The lexical rules of Dice, on sequences of code points.                   *)
(*                                                                           *)
(* A text is [cps |-> sequence of code points, s |-> the same text as a      *)
(* string].  At every position the LONGEST match among all token forms wins; *)
(* a word is a keyword only when the whole word is one.  Characters that     *)
(* begin no token are one-character Error tokens.  White space and comments  *)
(* are skipped.  Offsets are UTF-8 byte offsets; indexing into the string is *)
(* by UTF-16 unit because that is what TLC strings count.                    *)
EXTENDS Naturals, Sequences, TLC
LOCAL INSTANCE SequencesExt

U8(c)  == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
U16(c) == IF c < 65536 THEN 1 ELSE 2

IsSpace(c) == c \in {32, 9, 13, 10, 12}
IsDigit(c) == c \in 48..57
IsAlpha(c) == c = 95 \/ c \in 97..122 \/ c \in 65..90
IsWord(c)  == IsAlpha(c) \/ IsDigit(c)

DQuote == 34
BSlash == 92
Slash  == 47
DotC   == 46

(* punctuation, by first character, longest first *)
Punct ==
  (40 :> << <<<<>>, "LeftParen">> >>) @@ (41 :> << <<<<>>, "RightParen">> >>) @@
  (123 :> << <<<<>>, "LeftCurly">> >>) @@ (125 :> << <<<<>>, "RightCurly">> >>) @@
  (91 :> << <<<<>>, "LeftSquare">> >>) @@ (93 :> << <<<<>>, "RightSquare">> >>) @@
  (58 :> << <<<<>>, "Colon">> >>) @@ (44 :> << <<<<>>, "Comma">> >>) @@
  (124 :> << <<<<62>>, "Pipeline">>, <<<<>>, "Pipe">> >>) @@
  (46 :> << <<<<46, 61>>, "RangeInclusive">>, <<<<46>>, "RangeExclusive">>, <<<<>>, "Dot">> >>) @@
  (45 :> << <<<<62>>, "Arrow">>, <<<<61>>, "SubAssign">>, <<<<>>, "Minus">> >>) @@
  (61 :> << <<<<62>>, "WideArrow">>, <<<<61>>, "Equal">>, <<<<>>, "Assign">> >>) @@
  (63 :> << <<<<63>>, "Coalesce">>, <<<<>>, "QuestionMark">> >>) @@
  (33 :> << <<<<33>>, "ErrorPropagate">>, <<<<61>>, "NotEqual">>, <<<<>>, "Not">> >>) @@
  (43 :> << <<<<61>>, "AddAssign">>, <<<<>>, "Plus">> >>) @@
  (37 :> << <<<<>>, "Remainder">> >>) @@
  (42 :> << <<<<61>>, "MulAssign">>, <<<<>>, "Star">> >>) @@
  (47 :> << <<<<61>>, "DivAssign">>, <<<<>>, "Slash">> >>) @@
  (62 :> << <<<<61>>, "GreaterEqual">>, <<<<>>, "Greater">> >>) @@
  (60 :> << <<<<61>>, "LessEqual">>, <<<<>>, "Less">> >>) @@
  (38 :> << <<<<38>>, "LazyAnd">> >>) @@
  (35 :> << <<<<>>, "Object">> >>)

Keyword ==
  [false |-> "False", true |-> "True", null |-> "Null", if |-> "If", else |-> "Else",
   while |-> "While", loop |-> "Loop", for |-> "For", break |-> "Break",
   continue |-> "Continue", return |-> "Return", fn |-> "Function", let |-> "Let",
   mut |-> "Mut", in |-> "In", op |-> "Operator", class |-> "Class", is |-> "Is",
   import |-> "Import", as |-> "As", from |-> "From", export |-> "Export",
   super |-> "Super", or |-> "ErrorCoalesce",
   await |-> "Reserved", async |-> "Reserved", yield |-> "Reserved", do |-> "Reserved",
   const |-> "Reserved", match |-> "Reserved", enum |-> "Reserved", trait |-> "Reserved",
   type |-> "Reserved", try |-> "Reserved", when |-> "Reserved", default |-> "Reserved",
   switch |-> "Reserved"]
Keywords == DOMAIN Keyword

(* A cursor is <<i, b, u>>: code point index (1-based), byte offset, UTF-16 offset. *)
Adv(cps, c) == <<c[1] + 1, c[2] + U8(cps[c[1]]), c[3] + U16(cps[c[1]])>>

RECURSIVE RunWord(_, _), RunDigits(_, _), RunLine(_, _), RunSpace(_, _)
RunWord(cps, c)   == IF c[1] <= Len(cps) /\ IsWord(cps[c[1]]) THEN RunWord(cps, Adv(cps, c)) ELSE c
RunDigits(cps, c) == IF c[1] <= Len(cps) /\ IsDigit(cps[c[1]]) THEN RunDigits(cps, Adv(cps, c)) ELSE c
RunLine(cps, c)   == IF c[1] <= Len(cps) /\ cps[c[1]] \notin {10, 13} THEN RunLine(cps, Adv(cps, c)) ELSE c
RunSpace(cps, c)  == IF c[1] <= Len(cps) /\ IsSpace(cps[c[1]]) THEN RunSpace(cps, Adv(cps, c)) ELSE c

(* the cursor after the closing quote; [ok |-> FALSE] with the reason otherwise *)
RECURSIVE StrBody(_, _)
StrBody(cps, c) ==
  IF c[1] > Len(cps) THEN [ok |-> FALSE, code |-> ""]
  ELSE IF cps[c[1]] = DQuote THEN [ok |-> TRUE, at |-> Adv(cps, c)]
  ELSE IF cps[c[1]] = BSlash THEN
    (IF c[1] = Len(cps) THEN [ok |-> FALSE, code |-> "E1002"]
     ELSE IF cps[c[1] + 1] \in {DQuote, BSlash, 110, 114, 116} THEN StrBody(cps, Adv(cps, Adv(cps, c)))
     ELSE [ok |-> FALSE, code |-> "E1001"])
  ELSE StrBody(cps, Adv(cps, c))

RECURSIVE ArgBody(_, _)
ArgBody(cps, c) ==
  IF c[1] > Len(cps) THEN [ok |-> FALSE]
  ELSE IF cps[c[1]] = BSlash THEN [ok |-> TRUE, at |-> Adv(cps, c)]
  ELSE ArgBody(cps, Adv(cps, c))

Matches(cps, i, w) == /\ i + Len(w) - 1 <= Len(cps)
                      /\ \A j \in 1..Len(w) : cps[i + j - 1] = w[j]

RECURSIVE AdvN(_, _, _)
AdvN(cps, c, n) == IF n = 0 THEN c ELSE AdvN(cps, Adv(cps, c), n - 1)

(* One lexeme at c: a record with the kind, the cursor after it, and an error code if any. *)
Lexeme(t, c) ==
  LET cps == t.cps  i == c[1]  ch == cps[i]  nx == Adv(cps, c)
      One == [k |-> "Error", to |-> nx, err |-> ""]
  IN CASE IsSpace(ch) -> [k |-> "", to |-> RunSpace(cps, c), err |-> ""]
       [] ch = Slash /\ i < Len(cps) /\ cps[i + 1] = Slash -> [k |-> "", to |-> RunLine(cps, c), err |-> ""]
       [] IsAlpha(ch) ->
            LET to == RunWord(cps, c)
                w  == SubSeq(t.s, c[3] + 1, to[3])
            IN [k |-> IF w \in Keywords THEN Keyword[w] ELSE "Identifier", to |-> to, err |-> ""]
       [] IsDigit(ch) ->
            LET to == RunDigits(cps, c)
            IN IF to[1] < Len(cps) /\ cps[to[1]] = DotC /\ IsDigit(cps[to[1] + 1])
               THEN [k |-> "Float", to |-> RunDigits(cps, Adv(cps, to)), err |-> ""]
               ELSE [k |-> "Integer", to |-> to, err |-> ""]
       [] ch = DQuote ->
            LET b == StrBody(cps, nx)
            IN IF b.ok THEN [k |-> "String", to |-> b.at, err |-> ""]
               ELSE [One EXCEPT !.err = b.code]
       [] ch = BSlash ->
            LET b == ArgBody(cps, nx)
            IN IF b.ok THEN [k |-> "BackslashArg", to |-> b.at, err |-> ""] ELSE One
       [] ch \in DOMAIN Punct ->
            LET ps == Punct[ch]
                ok == {j \in 1..Len(ps) : Matches(cps, i + 1, ps[j][1])}
            IN IF ok = {} THEN One
               ELSE LET j == CHOOSE j \in ok : \A m \in ok : j <= m
                    IN [k |-> ps[j][2], to |-> AdvN(cps, nx, Len(ps[j][1])), err |-> ""]
       [] OTHER -> One

(* All tokens of a text, up to and excluding the first lexical error. *)
Lex(t) ==
  LET Step(S, i) ==
        IF i # S.c[1] \/ S.err # "" THEN S
        ELSE LET l == Lexeme(t, S.c)
             IN IF l.err # "" THEN [S EXCEPT !.err = l.err]
                ELSE IF l.k = "" THEN [S EXCEPT !.c = l.to]
                ELSE [c |-> l.to, err |-> "",
                      toks |-> Append(S.toks, [k |-> l.k, x |-> SubSeq(t.s, S.c[3] + 1, l.to[3]), s |-> S.c[2], e |-> l.to[2]])]
      R == FoldLeft(Step, [c |-> <<1, 0, 0>>, toks |-> <<>>, err |-> ""], [i \in 1..Len(t.cps) |-> i])
  IN [toks |-> R.toks, err |-> R.err, at |-> R.c[2]]

TextBytes(t) == LET RECURSIVE f(_, _)
                    f(i, b) == IF i > Len(t.cps) THEN b ELSE f(i + 1, b + U8(t.cps[i]))
                IN f(1, 0)
=============================================================================
