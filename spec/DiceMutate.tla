----------------------------- MODULE DiceMutate -----------------------------
(* Programs that are one token away from a given one: a token dropped,       *)
(* doubled, swapped with the next, replaced, inserted, or everything from it  *)
(* on cut off.  A case has r, numbers that choose.                           *)
EXTENDS DiceLex, Json, IOUtils, SequencesExt

Data == JsonDeserialize(IOEnv.DICE_CASES)
Cases == Data.cases
Tokens == Data.tokens

Words(c) == LET L == Lex(c) IN [i \in 1..Len(L.toks) |-> L.toks[i].x]
Text(ws) == FoldLeft(LAMBDA acc, w : IF acc = "" THEN w ELSE acc \o " " \o w, "", ws)
Mutant(ws, a, b, d) ==
  LET n == Len(ws)
      i == ((a * 257 + b) % n) + 1
      pre == SubSeq(ws, 1, i - 1)
      post == SubSeq(ws, i + 1, n)
      t == Tokens[((b * 3 + d) % Len(Tokens)) + 1]
  IN CASE d % 6 = 0 -> pre \o post
       [] d % 6 = 1 -> pre \o <<ws[i], ws[i]>> \o post
       [] d % 6 = 2 -> IF i = n THEN pre ELSE pre \o <<ws[i + 1], ws[i]>> \o SubSeq(ws, i + 2, n)
       [] d % 6 = 3 -> pre \o <<t>> \o post
       [] d % 6 = 4 -> pre \o <<t, ws[i]>> \o post
       [] OTHER     -> SubSeq(ws, 1, i)
(* every text one token away, for a short text *)
Drops(ws) == {SubSeq(ws, 1, i - 1) \o SubSeq(ws, i + 1, Len(ws)) : i \in 1..Len(ws)}
Doubles(ws) == {SubSeq(ws, 1, i) \o SubSeq(ws, i, Len(ws)) : i \in 1..Len(ws)}
Swaps(ws) == {SubSeq(ws, 1, i - 1) \o <<ws[i + 1], ws[i]>> \o SubSeq(ws, i + 2, Len(ws)) : i \in 1..(Len(ws) - 1)}
Replaced(ws) == {SubSeq(ws, 1, i - 1) \o <<Tokens[k]>> \o SubSeq(ws, i + 1, Len(ws)) : i \in 1..Len(ws), k \in 1..Len(Tokens)}
Inserted(ws) == {SubSeq(ws, 1, i) \o <<Tokens[k]>> \o SubSeq(ws, i + 1, Len(ws)) : i \in 0..Len(ws), k \in 1..Len(Tokens)}
(* programs a step away in meaning: one name becomes another (everywhere or   *)
(* once), an operator, literal or keyword another of its sort, a bracketed     *)
(* part another bracketed part of the program, a token another of the program  *)
Sorts == << <<"+", "-", "*", "/", "%">>, <<"<", ">", "<=", ">=", "==", "!=">>, <<"&&", "??">>, <<"..", "..=">>, <<"=", "+=", "-=", "*=">>, <<"break", "continue", "return">>, <<"0", "1", "2", "5", "300">>,
            <<"true", "false", "null", "1.5", "\"s\"", "()">>, <<"fn", "op">>, <<".", "?", "!!">>, <<"is", "==">>, <<"while", "if">>, <<"self", "super">> >>
Natives == {"b", "mb", "t", "more"}
Opens == {"(", "[", "{"}
Closes == {")", "]", "}"}
(* the matching end of every bracket, as pairs of positions *)
Groups(ws) == LET F[i \in 0..Len(ws)] == IF i = 0 THEN [st |-> <<>>, gs |-> <<>>]
                     ELSE LET S == F[i - 1] IN IF ws[i] \in Opens THEN [S EXCEPT !.st = Append(@, i)]
                                               ELSE IF ws[i] \in Closes /\ S.st # <<>> THEN [st |-> SubSeq(S.st, 1, Len(S.st) - 1), gs |-> Append(S.gs, <<S.st[Len(S.st)], i>>)] ELSE S
              IN F[Len(ws)].gs
Pick(q, i) == q[(i % Len(q)) + 1]
Set1(ws, i, x) == [ws EXCEPT ![i] = x]
Step(T, a, b, d) ==
  LET ws == [i \in 1..Len(T) |-> T[i].x]
      names == SelectSeq([i \in 1..Len(ws) |-> i], LAMBDA i : T[i].k = "Identifier")
      own == SelectSeq(names, LAMBDA i : ws[i] \notin Natives)
      gs == Groups(ws)
      same == {s \in 1..Len(Sorts) : \E i \in 1..Len(ws) : \E j \in 1..Len(Sorts[s]) : Sorts[s][j] = ws[i]}
      sorted == SelectSeq([i \in 1..Len(ws) |-> i], LAMBDA i : \E s \in same : \E j \in 1..Len(Sorts[s]) : Sorts[s][j] = ws[i])
      k == d % 8
  IN CASE k \in {0, 1} /\ own # <<>> -> LET x == ws[Pick(own, a)] y == ws[Pick(names, b)] IN [i \in 1..Len(ws) |-> IF T[i].k = "Identifier" /\ ws[i] = x THEN y ELSE ws[i]]
       [] k = 2 /\ own # <<>> -> Set1(ws, Pick(own, a), ws[Pick(names, b)])
       [] k \in {3, 4} /\ sorted # <<>> -> LET i == Pick(sorted, a) s == CHOOSE s \in same : \E j \in 1..Len(Sorts[s]) : Sorts[s][j] = ws[i] IN Set1(ws, i, Pick(Sorts[s], b))
       [] k \in {5, 6} /\ Len(gs) > 1 -> LET g == Pick(gs, a) same_ == SelectSeq(gs, LAMBDA h : ws[h[1]] = ws[g[1]]) h == Pick(same_, b) IN SubSeq(ws, 1, g[1] - 1) \o SubSeq(ws, h[1], h[2]) \o SubSeq(ws, g[2] + 1, Len(ws))
       [] OTHER -> Set1(ws, (a % Len(ws)) + 1, ws[(b % Len(ws)) + 1])
Mutants(c) ==
  LET ws == Words(c)
  IN IF ws = <<>> THEN {}
     ELSE IF Data.all = 3 THEN {Text(Step(Lex(c).toks, c.r[3 * j - 2] * 256 + c.r[3 * j - 1], c.r[3 * j - 1] * 7 + c.r[3 * j], c.r[3 * j])) : j \in 1..Data.per}
     ELSE IF Data.all = 1 THEN {Text(w) : w \in Drops(ws) \cup Doubles(ws) \cup Swaps(ws)}
     ELSE IF Data.all = 2 THEN {Text(w) : w \in Replaced(ws) \cup Inserted(ws)}
     ELSE {Text(Mutant(ws, c.r[3 * j - 2], c.r[3 * j - 1], c.r[3 * j])) : j \in 1..Data.per}

VARIABLES case, done
Init == case \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ PrintT("@@" \o ToJson([id |-> Cases[case].id, ts |-> Mutants(Cases[case])]))
        /\ done' = TRUE /\ UNCHANGED case
=============================================================================
