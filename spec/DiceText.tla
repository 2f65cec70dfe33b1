------------------------------ MODULE DiceText ------------------------------
(* Texts as sequences of code points: byte offsets, lines, columns.          *)
EXTENDS DiceLex, SequencesExt

LF == 10
(* byte offset of every code point and of the end: a sequence one longer than the text *)
Offsets(cps) == FoldLeft(LAMBDA acc, c : Append(acc, acc[Len(acc)] + U8(c)), <<0>>, cps)
(* one record per boundary: its byte offset, 0-based line and UTF-16 column *)
Places(cps) ==
  FoldLeft(LAMBDA acc, c :
             LET p == acc[Len(acc)]
             IN Append(acc, IF c = LF THEN [o |-> p.o + 1, l |-> p.l + 1, c |-> 0]
                            ELSE [o |-> p.o + U8(c), l |-> p.l, c |-> p.c + U16(c)]),
           <<[o |-> 0, l |-> 0, c |-> 0]>>, cps)
(* the lines, line feed included, as byte ranges; a text that ends with a line feed has a last, empty line *)
LineStarts(cps) ==
  FoldLeft(LAMBDA acc, c : [o |-> acc.o + U8(c), s |-> IF c = LF THEN Append(acc.s, acc.o + 1) ELSE acc.s], [o |-> 0, s |-> <<0>>], cps).s
ByteLen(cps) == FoldLeft(LAMBDA acc, c : acc + U8(c), 0, cps)
Lines(cps) ==
  LET st == LineStarts(cps)  n == ByteLen(cps)
  IN [i \in 1..Len(st) |-> <<st[i], IF i < Len(st) THEN st[i + 1] ELSE n>>]
(* the place of one boundary of a long text *)
PlaceOf(cps, o) ==
  FoldLeft(LAMBDA acc, c : IF acc.o >= o THEN acc
                           ELSE IF c = LF THEN [o |-> acc.o + 1, l |-> acc.l + 1, c |-> 0] ELSE [o |-> acc.o + U8(c), l |-> acc.l, c |-> acc.c + U16(c)],
           [o |-> 0, l |-> 0, c |-> 0], cps)
(* the lines a non-empty byte range touches, in order and in full *)
Touched(ls, s, e) == SelectSeq(ls, LAMBDA l : l[1] < e /\ l[2] > s)
=============================================================================
