----------------------------- MODULE DiceLayout -----------------------------
(* Layout variants of a text: the same tokens with other white space and     *)
(* comments between them.  A case has r, a sequence of numbers choosing the   *)
(* trivia; where dropping all trivia would merge two tokens a space stays.    *)
EXTENDS DiceLex, Json, IOUtils, SequencesExt

Data == JsonDeserialize(IOEnv.DICE_CASES)
Cases == Data.cases
Trivia == Data.trivia                       \* strings of white space and comments; the first is the empty one

Alone(a, b) ==                               \* do tokens a and b stay themselves when written side by side
  LET L == Lex([s |-> a.x \o b.x, cps |-> a.p \o b.p])
  IN /\ Len(L.toks) = 2 /\ L.err = "" /\ L.toks[1].x = a.x /\ L.toks[2].x = b.x
     /\ L.toks[1].k = a.k /\ L.toks[2].k = b.k
(* code points of the token at byte range s..e *)
Chars(c, off, t) == SubSeq(c.cps, CHOOSE i \in 1..Len(off) : off[i] = t.s, (CHOOSE i \in 1..Len(off) : off[i] = t.e) - 1)
Variant(c) ==
  LET L == Lex(c)
      off == FoldLeft(LAMBDA acc, ch : Append(acc, acc[Len(acc)] + U8(ch)), <<0>>, c.cps)
      T == [i \in 1..Len(L.toks) |-> [x |-> L.toks[i].x, k |-> L.toks[i].k, p |-> Chars(c, off, L.toks[i])]]
      Gap(i) == LET w == c.r[((i * 7) % Len(c.r)) + 1] + i
                    j == (((w * 31) \div 7) % Len(Trivia)) + 1
                IN IF j = 1 /\ i >= 1 /\ i < Len(T) /\ ~Alone(T[i], T[i + 1]) THEN " "
                   ELSE IF i >= 1 /\ T[i].k = "Slash" THEN " " \o Trivia[j] ELSE Trivia[j]   \* `/` and a comment would merge
      body == FoldLeft(LAMBDA acc, i : acc \o T[i].x \o Gap(i), Gap(0), [i \in 1..Len(T) |-> i])
      tail == Data.tails[(c.r[1] % Len(Data.tails)) + 1]
  IN [id |-> c.id, ok |-> L.err = "" /\ \A i \in 1..Len(T) : T[i].k # "Error", t |-> body \o tail,
      toks |-> [i \in 1..Len(T) |-> T[i].x]]

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ PrintT("@@" \o ToJson(Variant(Cases[case])))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
