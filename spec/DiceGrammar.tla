---------------------------- MODULE DiceGrammar ----------------------------
(* The grammar of Dice over token sequences.                                 *)
(*                                                                           *)
(* T is what DiceLex!Lex yields: tokens, and possibly the lexical error that *)
(* ended them (seen by the grammar as a final token of kind "LexErr").       *)
(* Parse(T) yields [ok |-> TRUE, n |-> tree] or                              *)
(* [ok |-> FALSE, code, i (index of the offending token), act, exp, why].    *)
(* Every node carries the indices f and l of its first and last token.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

K(T, i) == IF i <= Len(T.toks) THEN T.toks[i].k
           ELSE IF T.err # "" THEN "LexErr" ELSE "EndOfInput"
X(T, i) == T.toks[i].x

Display ==
  [EndOfInput |-> "EOI", LeftParen |-> "(", RightParen |-> ")", LeftCurly |-> "{", RightCurly |-> "}",
   LeftSquare |-> "[", RightSquare |-> "]", Colon |-> ":", Comma |-> ",", Pipe |-> "|",
   RangeExclusive |-> "..", RangeInclusive |-> "..=", Arrow |-> "->", WideArrow |-> "=>", Dot |-> ".",
   QuestionMark |-> "?", ErrorPropagate |-> "!!", Coalesce |-> "??", ErrorCoalesce |-> "or",
   Minus |-> "-", Plus |-> "+", Remainder |-> "%", Star |-> "*", Slash |-> "/", Not |-> "!",
   NotEqual |-> "!=", Equal |-> "==", Greater |-> ">", GreaterEqual |-> ">=", Less |-> "<",
   LessEqual |-> "<=", Assign |-> "=", MulAssign |-> "*=", DivAssign |-> "/=", AddAssign |-> "+=",
   SubAssign |-> "-=", LazyAnd |-> "&&", Pipeline |-> "|>", Object |-> "#", False |-> "false",
   True |-> "true", Null |-> "null", If |-> "if", Else |-> "else", While |-> "while", Loop |-> "loop",
   For |-> "for", Break |-> "break", Continue |-> "continue", Return |-> "return", Function |-> "fn",
   Let |-> "let", Mut |-> "mut", In |-> "in", Operator |-> "op", Class |-> "class", Is |-> "is",
   Import |-> "import", As |-> "as", From |-> "from", Export |-> "export", Super |-> "super",
   Reserved |-> "reserved", Identifier |-> "identifier", Integer |-> "integer", Float |-> "float",
   String |-> "string", BackslashArg |-> "backslash arg", Error |-> "error", LexErr |-> ""]

(* ---- failures ---- *)
Fail(code, i, act, exp) == [ok |-> FALSE, code |-> code, i |-> i, act |-> act, exp |-> exp]
Unexp(T, i, exp) == IF K(T, i) = "LexErr" THEN Fail(T.err, i, "", {})
                    ELSE Fail("E1000", i, Display[K(T, i)], {Display[e] : e \in exp})
Then(r, F(_)) == IF r.ok THEN F(r) ELSE r
(* consume one token of kind k *)
Eat(T, i, k) == IF K(T, i) = k THEN [ok |-> TRUE, i |-> i + 1] ELSE Unexp(T, i, {k})
Ok(n, i) == [ok |-> TRUE, n |-> n, i |-> i]

(* ---- precedence, from loosest to tightest ---- *)
pAssign == 1   pPipe == 2   pCoalesce == 3   pRange == 4   pOr == 5   pAnd == 6   pCmp == 7
pTerm == 8     pFactor == 9 pUnary == 10     pProp == 11   pCall == 12

InfixPrec ==
  [Pipeline |-> pPipe, Coalesce |-> pCoalesce, ErrorCoalesce |-> pCoalesce,
   RangeExclusive |-> pRange, RangeInclusive |-> pRange, Pipe |-> pOr, LazyAnd |-> pAnd,
   Equal |-> pCmp, NotEqual |-> pCmp, Greater |-> pCmp, GreaterEqual |-> pCmp, Less |-> pCmp,
   LessEqual |-> pCmp, Is |-> pCmp, Plus |-> pTerm, Minus |-> pTerm, Star |-> pFactor,
   Slash |-> pFactor, Remainder |-> pFactor, QuestionMark |-> pProp, ErrorPropagate |-> pProp,
   LeftSquare |-> pCall, Dot |-> pCall, LeftParen |-> pCall, BackslashArg |-> pCall]

BinName ==
  [Pipeline |-> "Pipeline", Coalesce |-> "Coalesce", RangeExclusive |-> "RangeExclusive",
   RangeInclusive |-> "RangeInclusive", Pipe |-> "LogicalOr", LazyAnd |-> "LogicalAnd",
   Equal |-> "Equals", NotEqual |-> "NotEquals", Greater |-> "GreaterThan",
   GreaterEqual |-> "GreaterThanEquals", Less |-> "LessThan", LessEqual |-> "LessThanEquals",
   Plus |-> "Add", Minus |-> "Subtract", Star |-> "Multiply", Slash |-> "Divide", Remainder |-> "Remainder"]

OverName ==
  [Star |-> "Multiply", Slash |-> "Divide", Remainder |-> "Remainder", Plus |-> "Add", Minus |-> "Subtract",
   Greater |-> "GreaterThan", GreaterEqual |-> "GreaterThanEquals", Less |-> "LessThan",
   LessEqual |-> "LessThanEquals", Equal |-> "Equals", NotEqual |-> "NotEquals",
   RangeExclusive |-> "RangeExclusive", RangeInclusive |-> "RangeInclusive"]

AsgName == [Assign |-> "Assignment", MulAssign |-> "MulAssignment", DivAssign |-> "DivAssignment",
            AddAssign |-> "AddAssignment", SubAssign |-> "SubAssignment"]

PrefixKinds == {"Integer", "Float", "String", "Null", "False", "True", "Identifier", "If", "Object",
                "LeftSquare", "Super", "LeftParen", "LeftCurly", "Pipe", "Minus", "Not"}
(* kinds that may never occur where an expression begins or has just ended *)
NoRule == {"Else", "In", "As", "From", "Mut", "Arrow", "WideArrow", "Reserved", "Error"}
NoRuleFail(T, i) == Fail(IF K(T, i) = "Reserved" THEN "E1004" ELSE "E1003", i, X(T, i), {})

(* ---- literal values ---- *)
Digit(ch) == CASE ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4
               [] ch = "5" -> 5 [] ch = "6" -> 6 [] ch = "7" -> 7 [] ch = "8" -> 8 [] OTHER -> 9
RECURSIVE Dec(_, _, _)
Dec(s, j, acc) == IF j > Len(s) THEN acc ELSE Dec(s, j + 1, acc * 10 + Digit(SubSeq(s, j, j)))
RECURSIVE Strip0(_)
Strip0(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Strip0(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE DigitsLeq(_, _, _)
DigitsLeq(a, b, j) == IF j > Len(a) THEN TRUE
                      ELSE LET x == Digit(SubSeq(a, j, j))  y == Digit(SubSeq(b, j, j))
                           IN IF x < y THEN TRUE ELSE IF x > y THEN FALSE ELSE DigitsLeq(a, b, j + 1)
IntVal(x) == LET s == Strip0(x)
             IN IF Len(s) < 10 THEN [ok |-> TRUE, v |-> [k |-> "int", i |-> Dec(s, 1, 0)]]
                ELSE IF Len(s) = 10 /\ DigitsLeq(s, "2147483647", 1) THEN [ok |-> TRUE, v |-> [k |-> "int", i |-> Dec(s, 1, 0)]]
                ELSE IF Len(s) < 19 \/ (Len(s) = 19 /\ DigitsLeq(s, "9223372036854775807", 1))
                     THEN [ok |-> TRUE, v |-> [k |-> "big", s |-> s]]
                ELSE [ok |-> FALSE, v |-> [k |-> "none"]]
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE DotAt(_, _)
DotAt(s, j) == IF SubSeq(s, j, j) = "." THEN j ELSE DotAt(s, j + 1)
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ SubSeq(s, Len(s), Len(s)) = "0" THEN StripZ(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* exact for short dyadic literals; others keep their digits only *)
FltVal(x) == LET p == DotAt(x, 1)
                 a == Strip0(SubSeq(x, 1, p - 1))   b == StripZ(SubSeq(x, p + 1, Len(x)))
                 Canon == a \o "." \o b
             IN IF Len(a) + Len(b) > 8 THEN [k |-> "fbig", s |-> Canon]
                ELSE LET n == Dec(a \o b, 1, 0)  d == Pow10(Len(b))  g == Gcd(n, d)
                     IN IF IsPow2(d \div g) THEN [k |-> "flt", n |-> n \div g, d |-> d \div g]
                        ELSE [k |-> "fbig", s |-> Canon]
Inner(x) == SubSeq(x, 2, Len(x) - 1)

(* ---- the productions ---- *)
RECURSIVE Expr(_, _, _), Infix(_, _, _, _, _), Prefix(_, _, _), Stmts(_, _, _, _), Block(_, _), Stmt(_, _),
          Exprs(_, _, _, _), Pairs(_, _, _, _), IfExpr(_, _), Params(_, _, _, _), Idents(_, _, _, _),
          Members(_, _, _), FnDecl(_, _), OpDecl(_, _), ClassDecl(_, _), LetDecl(_, _)

(* a type: name and optional ?, starting at i *)
Type(T, i) ==
  Then(Eat(T, i, "Identifier"), LAMBDA r :
    LET q == K(T, i + 1) = "QuestionMark"
    IN Ok([n |-> X(T, i), q |-> q, a |-> i, z |-> IF q THEN i + 1 ELSE i], IF q THEN i + 2 ELSE i + 1))

(* optional -> type *)
Ret(T, i) == IF K(T, i) = "Arrow" THEN Then(Type(T, i + 1), LAMBDA r : Ok(<<r.n>>, r.i)) ELSE Ok(<<>>, i)

(* comma separated lists up to, and including, the closing token; a trailing comma is fine *)
Sep(T, i, close) == IF K(T, i) = "Comma" THEN [ok |-> TRUE, i |-> i + 1]
                    ELSE IF K(T, i) = close THEN [ok |-> TRUE, i |-> i]
                    ELSE Unexp(T, i, {close})
Exprs(T, i, close, acc) ==
  IF K(T, i) = close THEN Ok(acc, i + 1)
  ELSE Then(Expr(T, i, pAssign), LAMBDA r :
       Then(Sep(T, r.i, close), LAMBDA s : Exprs(T, s.i, close, Append(acc, r.n))))
Idents(T, i, close, acc) ==
  IF K(T, i) = close THEN Ok(acc, i + 1)
  ELSE Then(Eat(T, i, "Identifier"), LAMBDA r :
       Then(Sep(T, r.i, close), LAMBDA s : Idents(T, s.i, close, Append(acc, X(T, i)))))
Params(T, i, close, acc) ==
  IF K(T, i) = close THEN Ok(acc, i + 1)
  ELSE Then(Eat(T, i, "Identifier"), LAMBDA r :
       Then(IF K(T, r.i) = "Colon" THEN Then(Type(T, r.i + 1), LAMBDA ty : Ok(<<ty.n>>, ty.i)) ELSE Ok(<<>>, r.i), LAMBDA ty :
       Then(Sep(T, ty.i, close), LAMBDA s :
         Params(T, s.i, close, Append(acc, [n |-> X(T, i), ty |-> ty.n, a |-> i, z |-> ty.i - 1])))))
Pairs(T, i, acc, f) ==
  IF K(T, i) = "RightCurly"
  THEN Ok([k |-> "obj", ks |-> acc[1], es |-> acc[2], a |-> f, z |-> i], i + 1)
  ELSE IF K(T, i) \notin {"String", "Integer", "Identifier"} THEN Unexp(T, i, {"String", "Integer", "Identifier"})
  ELSE Then(Eat(T, i + 1, "Colon"), LAMBDA c :
       Then(Expr(T, c.i, pAssign), LAMBDA r :
       Then(Sep(T, r.i, "RightCurly"), LAMBDA s :
         Pairs(T, s.i, <<Append(acc[1], IF K(T, i) = "String" THEN Inner(X(T, i)) ELSE X(T, i)),
                         Append(acc[2], r.n)>>, f))))

(* the right side of a place, if an assignment is possible here *)
Place(T, lhs, i, can) ==
  IF can /\ K(T, i) \in DOMAIN AsgName
  THEN Then(Expr(T, i + 1, pAssign), LAMBDA r :
         Ok([k |-> "asg", op |-> AsgName[K(T, i)], l |-> lhs, r |-> r.n, a |-> lhs.a, z |-> r.i - 1], r.i))
  ELSE Ok(lhs, i)

Lit(T, i) ==
  CASE K(T, i) = "Integer" ->
         LET v == IntVal(X(T, i))
         IN IF v.ok THEN Ok([k |-> "int", v |-> v.v, a |-> i, z |-> i], i + 1) ELSE Fail("E1007", i, "", {})
    [] K(T, i) = "Float"  -> Ok([k |-> "flt", v |-> FltVal(X(T, i)), a |-> i, z |-> i], i + 1)
    [] K(T, i) = "String" -> Ok([k |-> "str", s |-> Inner(X(T, i)), a |-> i, z |-> i], i + 1)
    [] K(T, i) = "Null"   -> Ok([k |-> "null", a |-> i, z |-> i], i + 1)
    [] OTHER              -> Ok([k |-> "bool", b |-> K(T, i) = "True", a |-> i, z |-> i], i + 1)

SuperForm(T, i) ==
  IF K(T, i + 1) = "LeftParen"
  THEN Then(Exprs(T, i + 2, "RightParen", <<>>), LAMBDA r : Ok([k |-> "supc", es |-> r.n, a |-> i, z |-> r.i - 1], r.i))
  ELSE IF K(T, i + 1) = "Dot"
  THEN Then(Eat(T, i + 2, "Identifier"), LAMBDA r : Ok([k |-> "supf", n |-> X(T, i + 2), c |-> <<>>, a |-> i, z |-> i + 2], i + 3))
  ELSE IF K(T, i + 1) = "LeftSquare"
  THEN Then(Eat(T, i + 2, "Identifier"), LAMBDA r1 :
       Then(Eat(T, i + 3, "RightSquare"), LAMBDA r2 :
       Then(Eat(T, i + 4, "Dot"), LAMBDA r3 :
       Then(Eat(T, i + 5, "Identifier"), LAMBDA r4 :
         Ok([k |-> "supf", n |-> X(T, i + 5), c |-> <<X(T, i + 2)>>, a |-> i, z |-> i + 5], i + 6)))))
  ELSE Unexp(T, i + 1, {"Dot", "LeftSquare", "LeftParen"})

IfExpr(T, i) ==
  Then(Expr(T, i + 1, pAssign), LAMBDA c :
  Then(Block(T, c.i), LAMBDA t :
    IF K(T, t.i) # "Else" THEN Ok([k |-> "if", c |-> c.n, t |-> t.n, f |-> <<>>, a |-> i, z |-> t.i - 1], t.i)
    ELSE Then(IF K(T, t.i + 1) = "If" THEN IfExpr(T, t.i + 1)
              ELSE IF K(T, t.i + 1) = "LeftCurly" THEN Block(T, t.i + 1)
              ELSE Unexp(T, t.i + 1, {"If", "LeftCurly"}), LAMBDA e :
           Ok([k |-> "if", c |-> c.n, t |-> t.n, f |-> <<e.n>>, a |-> i, z |-> e.i - 1], e.i))))

Prefix(T, i, can) ==
  CASE K(T, i) \in {"Integer", "Float", "String", "Null", "True", "False"} -> Lit(T, i)
    [] K(T, i) = "Identifier" -> Place(T, [k |-> "id", n |-> X(T, i), a |-> i, z |-> i], i + 1, can)
    [] K(T, i) = "If" -> IfExpr(T, i)
    [] K(T, i) = "LeftCurly" -> Block(T, i)
    [] K(T, i) = "LeftSquare" ->
         Then(Exprs(T, i + 1, "RightSquare", <<>>), LAMBDA r : Ok([k |-> "list", es |-> r.n, a |-> i, z |-> r.i - 1], r.i))
    [] K(T, i) = "Object" ->
         Then(Eat(T, i + 1, "LeftCurly"), LAMBDA r : Pairs(T, r.i, <<<<>>, <<>>>>, i))
    [] K(T, i) = "Super" -> SuperForm(T, i)
    [] K(T, i) = "LeftParen" ->
         IF K(T, i + 1) = "RightParen" THEN Ok([k |-> "unit", a |-> i, z |-> i + 1], i + 2)
         ELSE Then(Expr(T, i + 1, pAssign), LAMBDA r :
              Then(Eat(T, r.i, "RightParen"), LAMBDA c : Ok(r.n, c.i)))
    [] K(T, i) = "Pipe" ->
         Then(Params(T, i + 1, "Pipe", <<>>), LAMBDA ps :
           IF Len(ps.n) > 255 THEN Fail("E1005", i, "", {})
           ELSE Then(Expr(T, ps.i, pAssign), LAMBDA r :
                  Ok([k |-> "afn", ps |-> ps.n, ret |-> <<>>, e |-> r.n, a |-> i, z |-> r.i - 1], r.i)))
    [] OTHER -> \* Minus, Not
         Then(Expr(T, i + 1, pUnary), LAMBDA r :
           Ok([k |-> "un", op |-> IF K(T, i) = "Minus" THEN "Negate" ELSE "Not", e |-> r.n, a |-> i, z |-> r.i - 1], r.i))

Expr(T, i, p) ==
  IF K(T, i) \in NoRule THEN NoRuleFail(T, i)
  ELSE IF K(T, i) \notin PrefixKinds THEN Unexp(T, i, PrefixKinds)
  ELSE Then(Prefix(T, i, p <= pAssign), LAMBDA r : Infix(T, r.n, r.i, p, i))

(* lhs has been read and ends before i; the expression began at f *)
Infix(T, lhs, i, p, f) ==
  IF K(T, i) \in NoRule THEN NoRuleFail(T, i)
  ELSE IF K(T, i) = "LexErr" THEN Unexp(T, i, {})
  ELSE IF K(T, i) \notin DOMAIN InfixPrec \/ (K(T, i) \in DOMAIN InfixPrec /\ InfixPrec[K(T, i)] < p) THEN Ok(lhs, i)
  ELSE Then(
    CASE K(T, i) = "QuestionMark"   -> Ok([k |-> "np", e |-> lhs, a |-> f, z |-> i], i + 1)
      [] K(T, i) = "ErrorPropagate" -> Ok([k |-> "ep", e |-> lhs, a |-> f, z |-> i], i + 1)
      [] K(T, i) = "LeftSquare" ->
           Then(Expr(T, i + 1, pAssign), LAMBDA x :
           Then(Eat(T, x.i, "RightSquare"), LAMBDA c :
             Place(T, [k |-> "idx", e |-> lhs, i |-> x.n, a |-> f, z |-> x.i], c.i, p <= pAssign)))
      [] K(T, i) = "Dot" ->
           Then(Eat(T, i + 1, "Identifier"), LAMBDA c :
             Place(T, [k |-> "fld", e |-> lhs, n |-> X(T, i + 1), a |-> f, z |-> i + 1], i + 2, p <= pAssign))
      [] K(T, i) = "LeftParen" ->
           Then(Exprs(T, i + 1, "RightParen", <<>>), LAMBDA r : Ok([k |-> "call", e |-> lhs, es |-> r.n, a |-> f, z |-> r.i - 1], r.i))
      [] K(T, i) = "BackslashArg" ->
           Ok([k |-> "call", e |-> lhs, es |-> <<[k |-> "str", s |-> Inner(X(T, i)), a |-> i, z |-> i]>>, a |-> f, z |-> i], i + 1)
      [] K(T, i) = "Is" -> Then(Type(T, i + 1), LAMBDA t : Ok([k |-> "is", e |-> lhs, ty |-> t.n, a |-> f, z |-> t.i - 1], t.i))
      [] K(T, i) = "ErrorCoalesce" ->
           Then(Eat(T, i + 1, "Identifier"), LAMBDA x :
           Then(Block(T, i + 2), LAMBDA b : Ok([k |-> "or", e |-> lhs, n |-> X(T, i + 1), b |-> b.n, a |-> f, z |-> b.i - 1], b.i)))
      [] K(T, i) = "Pipe" ->
           Then(Eat(T, i + 1, "Pipe"), LAMBDA x :
           Then(Expr(T, i + 2, pOr + 1), LAMBDA r : Ok([k |-> "bin", op |-> "LogicalOr", l |-> lhs, r |-> r.n, a |-> f, z |-> r.i - 1], r.i)))
      [] OTHER ->
           Then(Expr(T, i + 1, InfixPrec[K(T, i)] + 1), LAMBDA r :
             Ok([k |-> "bin", op |-> BinName[K(T, i)], l |-> lhs, r |-> r.n, a |-> f, z |-> r.i - 1], r.i)),
    LAMBDA r : Infix(T, r.n, r.i, p, f))

(* { sequence } *)
Block(T, i) ==
  Then(Eat(T, i, "LeftCurly"), LAMBDA b :
  Then(Stmts(T, b.i, <<>>, i), LAMBDA s :
  Then(Eat(T, s.i, "RightCurly"), LAMBDA e : Ok([s.n EXCEPT !.z = s.i], e.i))))

Stmts(T, i, acc, f) ==
  IF K(T, i) \in {"EndOfInput", "RightCurly"}
  THEN LET n == Len(acc)
       IN Ok([k |-> "block", es |-> SubSeq(acc, 1, IF n = 0 THEN 0 ELSE n - 1),
              t |-> IF n = 0 THEN <<>> ELSE <<acc[n]>>, a |-> f, z |-> i], i)
  ELSE Then(Stmt(T, i), LAMBDA r : Stmts(T, r.i, Append(acc, r.n), f))

FnDecl(T, i) ==
  Then(Eat(T, i + 1, "Identifier"), LAMBDA nm :
  Then(Eat(T, nm.i, "LeftParen"), LAMBDA o :
  Then(Params(T, o.i, "RightParen", <<>>), LAMBDA ps :
    IF Len(ps.n) > 255 THEN Fail("E1005", i, "", {})
    ELSE Then(Ret(T, ps.i), LAMBDA rt :
         Then(Block(T, rt.i), LAMBDA b :
           Ok([k |-> "fn", n |-> X(T, i + 1), ps |-> ps.n, ret |-> rt.n, e |-> b.n, a |-> i, z |-> b.i - 1], b.i))))))

OpDecl(T, i) ==
  IF K(T, i + 1) \notin DOMAIN OverName THEN
     (IF K(T, i + 1) = "LexErr" THEN Unexp(T, i + 1, {}) ELSE [Unexp(T, i + 1, DOMAIN OverName) EXCEPT !.i = i + 1])
  ELSE
  Then(Eat(T, i + 2, "LeftParen"), LAMBDA o :
  Then(Params(T, o.i, "RightParen", <<>>), LAMBDA ps :
  Then(Ret(T, ps.i), LAMBDA rt :
  Then(Block(T, rt.i), LAMBDA b :
    Ok([k |-> "op", n |-> OverName[K(T, i + 1)], ps |-> ps.n, ret |-> rt.n, e |-> b.n, a |-> i, z |-> b.i - 1], b.i)))))

Members(T, i, acc) ==
  IF K(T, i) = "RightCurly" THEN Ok(acc, i + 1)
  ELSE IF K(T, i) \notin {"Function", "Operator"} THEN Unexp(T, i, {"Function", "Operator"})
  ELSE Then(IF K(T, i) = "Function" THEN FnDecl(T, i) ELSE OpDecl(T, i), LAMBDA r : Members(T, r.i, Append(acc, r.n)))

ClassDecl(T, i) ==
  Then(Eat(T, i + 1, "Identifier"), LAMBDA nm :
  Then(IF K(T, i + 2) = "Colon" THEN Then(Expr(T, i + 3, pAssign), LAMBDA r : Ok(<<r.n>>, r.i)) ELSE Ok(<<>>, i + 2), LAMBDA bs :
  Then(Eat(T, bs.i, "LeftCurly"), LAMBDA o :
  Then(Members(T, o.i, <<>>), LAMBDA ms :
    Ok([k |-> "class", n |-> X(T, i + 1), base |-> bs.n, ms |-> ms.n, a |-> i, z |-> ms.i - 1], ms.i)))))

LetDecl(T, i) ==
  LET m == K(T, i + 1) = "Mut"
      j == IF m THEN i + 2 ELSE i + 1
  IN Then(IF K(T, j) = "Identifier" THEN Ok(<<X(T, j)>>, j + 1)
          ELSE IF K(T, j) = "LeftCurly" THEN Idents(T, j + 1, "RightCurly", <<>>)
          ELSE Unexp(T, j, {"Identifier", "LeftCurly"}), LAMBDA ns :
     Then(Eat(T, ns.i, "Assign"), LAMBDA a :
     Then(Expr(T, a.i, pAssign), LAMBDA r :
       Ok([k |-> "let", d |-> K(T, j) = "LeftCurly", ns |-> ns.n, mut |-> m, ty |-> <<>>, e |-> r.n, a |-> i, z |-> r.i - 1], r.i))))

ImportDecl(T, i) ==
  Then(IF K(T, i + 1) # "Star" THEN Ok(<<>>, i + 1)
       ELSE Then(Eat(T, i + 2, "As"), LAMBDA a :
            Then(Eat(T, i + 3, "Identifier"), LAMBDA b :
              Ok(<<X(T, i + 3)>>, IF K(T, i + 4) = "Comma" THEN i + 5 ELSE i + 4))), LAMBDA m :
  Then(IF K(T, m.i) = "LeftCurly" THEN Idents(T, m.i + 1, "RightCurly", <<>>) ELSE Ok(<<>>, m.i), LAMBDA ns :
    IF m.n = <<>> /\ ns.n = <<>>
    THEN (IF ns.i = i + 1 /\ K(T, i + 1) = "LexErr" THEN Unexp(T, i + 1, {}) ELSE Fail("E2505", i, "", {}))
    ELSE Then(Eat(T, ns.i, "From"), LAMBDA fr :
         Then(Eat(T, fr.i, "String"), LAMBDA s :
           Ok([k |-> "import", m |-> m.n, ns |-> ns.n, path |-> Inner(X(T, fr.i)), a |-> i, z |-> fr.i], s.i)))))

ExportDecl(T, i) ==
  Then(CASE K(T, i + 1) = "Let" -> LetDecl(T, i + 1)
         [] K(T, i + 1) = "Function" -> FnDecl(T, i + 1)
         [] K(T, i + 1) = "Class" -> ClassDecl(T, i + 1)
         [] K(T, i + 1) = "Identifier" -> Ok([k |-> "id", n |-> X(T, i + 1), a |-> i + 1, z |-> i + 1], i + 2)
         [] OTHER -> Unexp(T, i + 1, {"Let", "Function", "Class", "Identifier"}), LAMBDA r :
    Ok([k |-> "export", e |-> r.n, a |-> i, z |-> r.i - 1], r.i))

Stmt(T, i) ==
  CASE K(T, i) = "Loop"  -> Then(Block(T, i + 1), LAMBDA b : Ok([k |-> "loop", e |-> b.n, a |-> i, z |-> b.i - 1], b.i))
    [] K(T, i) = "While" -> Then(Expr(T, i + 1, pAssign), LAMBDA c :
                            Then(Block(T, c.i), LAMBDA b : Ok([k |-> "while", c |-> c.n, e |-> b.n, a |-> i, z |-> b.i - 1], b.i)))
    [] K(T, i) = "For"   -> Then(Eat(T, i + 1, "Identifier"), LAMBDA v :
                            Then(Eat(T, i + 2, "In"), LAMBDA n :
                            Then(Expr(T, i + 3, pAssign), LAMBDA s :
                            Then(Block(T, s.i), LAMBDA b :
                              Ok([k |-> "for", n |-> X(T, i + 1), s |-> s.n, e |-> b.n, a |-> i, z |-> b.i - 1], b.i)))))
    [] K(T, i) = "Let"      -> LetDecl(T, i)
    [] K(T, i) = "Function" -> FnDecl(T, i)
    [] K(T, i) = "Operator" -> OpDecl(T, i)
    [] K(T, i) = "Class"    -> ClassDecl(T, i)
    [] K(T, i) = "Import"   -> ImportDecl(T, i)
    [] K(T, i) = "Export"   -> ExportDecl(T, i)
    [] K(T, i) = "Break"    -> Ok([k |-> "break", a |-> i, z |-> i], i + 1)
    [] K(T, i) = "Continue" -> Ok([k |-> "continue", a |-> i, z |-> i], i + 1)
    [] K(T, i) = "Return"   ->
         IF K(T, i + 1) = "RightCurly" THEN Ok([k |-> "return", e |-> <<>>, a |-> i, z |-> i], i + 1)
         ELSE Then(Expr(T, i + 1, pAssign), LAMBDA r : Ok([k |-> "return", e |-> <<r.n>>, a |-> i, z |-> r.i - 1], r.i))
    [] OTHER -> Expr(T, i, pAssign)

(* a program is a sequence that accounts for the whole input *)
Parse(T) ==
  Then(Stmts(T, 1, <<>>, 1), LAMBDA s :
    IF K(T, s.i) # "EndOfInput" THEN Unexp(T, s.i, {"EndOfInput"}) ELSE Ok([s.n EXCEPT !.z = s.i - 1], s.i))

(* ---- a canonical rendering of trees, for the tree above and for the real parser's tree alike ---- *)
RECURSIVE Show(_), Shows(_, _), Join(_, _)
Join(ss, j) == IF j > Len(ss) THEN "" ELSE " " \o ss[j] \o Join(ss, j + 1)
Shows(es, j) == IF j > Len(es) THEN "" ELSE " " \o Show(es[j]) \o Shows(es, j + 1)
ShowTy(t) == IF t = <<>> THEN "_" ELSE t[1].n \o (IF t[1].q THEN "?" ELSE "")
ShowPs(ps) == "[" \o Join([j \in 1..Len(ps) |-> ps[j].n \o ":" \o ShowTy(ps[j].ty)], 1) \o "]"
ShowVal(v) == CASE v.k = "int" -> ToString(v.i) [] v.k = "big" -> v.s
                [] v.k = "flt" -> ToString(v.n) \o "/" \o ToString(v.d) [] OTHER -> "float"
(* the parser may lower `e or x { b }`; its lowered form is the same construct *)
IsOr(n) == /\ n.k = "block" /\ Len(n.es) = 1 /\ Len(n.t) = 1
           /\ n.es[1].k = "let" /\ n.es[1].ns = <<"#result">>
OrName(n) == n.t[1].f[1].es[1].ns[1]
OrBlock(n) == n.t[1].f[1].t[1]
Show(n) ==
  CASE n.k = "id"   -> n.n
    [] n.k = "null" -> "null"
    [] n.k = "unit" -> "()"
    [] n.k \in {"int", "flt"} -> n.k \o ShowVal(n.v)
    [] n.k = "str"  -> "'" \o n.s \o "'"
    [] n.k = "bool" -> IF n.b THEN "true" ELSE "false"
    [] n.k = "list" -> "(list" \o Shows(n.es, 1) \o ")"
    [] n.k = "obj"  -> "(obj" \o Join(n.ks, 1) \o " :" \o Shows(n.es, 1) \o ")"
    [] n.k = "afn"  -> "(afn " \o ShowPs(n.ps) \o " " \o ShowTy(n.ret) \o " " \o Show(n.e) \o ")"
    [] n.k = "fld"  -> "(. " \o Show(n.e) \o " " \o n.n \o ")"
    [] n.k = "supf" -> "(super. " \o n.n \o Join(n.c, 1) \o ")"
    [] n.k = "idx"  -> "([] " \o Show(n.e) \o " " \o Show(n.i) \o ")"
    [] n.k = "un"   -> "(" \o n.op \o " " \o Show(n.e) \o ")"
    [] n.k = "bin"  -> "(" \o n.op \o " " \o Show(n.l) \o " " \o Show(n.r) \o ")"
    [] n.k = "is"   -> "(is " \o Show(n.e) \o " " \o ShowTy(<<n.ty>>) \o ")"
    [] n.k = "np"   -> "(? " \o Show(n.e) \o ")"
    [] n.k = "ep"   -> "(!! " \o Show(n.e) \o ")"
    [] n.k = "asg"  -> "(" \o n.op \o " " \o Show(n.l) \o " " \o Show(n.r) \o ")"
    [] n.k = "let"  -> "(let " \o (IF n.mut THEN "mut " ELSE "") \o (IF n.d THEN "{" ELSE "") \o Join(n.ns, 1)
                         \o " " \o ShowTy(n.ty) \o " " \o Show(n.e) \o ")"
    [] n.k = "fn"   -> "(fn " \o n.n \o " " \o ShowPs(n.ps) \o " " \o ShowTy(n.ret) \o " " \o Show(n.e) \o ")"
    [] n.k = "op"   -> "(op " \o n.n \o " " \o ShowPs(n.ps) \o " " \o ShowTy(n.ret) \o " " \o Show(n.e) \o ")"
    [] n.k = "class" -> "(class " \o n.n \o " :" \o Shows(n.base, 1) \o " {" \o Shows(n.ms, 1) \o "})"
    [] n.k = "import" -> "(import" \o Join(n.m, 1) \o " {" \o Join(n.ns, 1) \o "} " \o n.path \o ")"
    [] n.k = "export" -> "(export " \o Show(n.e) \o ")"
    [] n.k = "if"   -> "(if " \o Show(n.c) \o " " \o Show(n.t) \o Shows(n.f, 1) \o ")"
    [] n.k = "loop" -> "(loop " \o Show(n.e) \o ")"
    [] n.k = "while" -> "(while " \o Show(n.c) \o " " \o Show(n.e) \o ")"
    [] n.k = "for"  -> "(for " \o n.n \o " " \o Show(n.s) \o " " \o Show(n.e) \o ")"
    [] n.k = "or"   -> "(or " \o Show(n.e) \o " " \o n.n \o " " \o Show(n.b) \o ")"
    [] n.k = "block" -> IF IsOr(n) THEN "(or " \o Show(n.es[1].e) \o " " \o OrName(n) \o " " \o Show(OrBlock(n)) \o ")"
                        ELSE "{" \o Shows(n.es, 1) \o " =>" \o Shows(n.t, 1) \o "}"
    [] n.k \in {"break", "continue"} -> n.k
    [] n.k = "return" -> "(return" \o Shows(n.e, 1) \o ")"
    [] n.k = "call" -> "(call " \o Show(n.e) \o Shows(n.es, 1) \o ")"
    [] n.k = "supc" -> "(super" \o Shows(n.es, 1) \o ")"
    [] OTHER -> "?" \o n.k
=============================================================================
