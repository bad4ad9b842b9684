------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The token that starts at an index of a loaded input.                    *)
(*                                                                         *)
(* Lex(C, i, m) == <<kind, next index>>.  The mode m is one of             *)
(*    "top"   newlines are ToplevelNewline tokens                          *)
(*    "in"    inside a group: newlines are InternalNewline tokens          *)
(*    "slot"  right after # : symbols are strings, numbers are plain digits*)
(*    "slots" right after ## or % : numbers are plain digits               *)
(*    "tag"   right after :: : a message tag                               *)
(*    "file"  right after << >> >>> : a file name                          *)
(***************************************************************************)
EXTENDS Source

P(C, i) == C.pt[i]      \* the character the reader sees at i
N(C, i) == C.nx[i]      \* where it stands after reading it

(*------------------------------- symbols -------------------------------*)
RECURSIVE SegEnd(_, _)
SegEnd(C, j) == IF IsDigit(P(C, j)) \/ IsLetterlike(P(C, j)) THEN SegEnd(C, N(C, j)) ELSE j

\* j: after the first letter or after the first backtick
RECURSIVE SymSegs(_, _, _)
SymSegs(C, j, tick) ==      \* tick: the last character read was a context mark
  IF tick
  THEN IF IsLetterlike(P(C, j)) THEN SymSegs(C, N(C, j), FALSE)
       ELSE <<"Error_ExpectedLetterlike", j>>
  ELSE LET e == SegEnd(C, j) IN
       IF P(C, e) = 96 THEN SymSegs(C, N(C, e), TRUE) ELSE <<"Symbol", e>>

LexSymbol(C, j, c, slot) ==
  LET r == SymSegs(C, j, c = 96) IN
  IF slot /\ r[1] = "Symbol" THEN <<"String", r[2]>> ELSE r

(*------------------------- strings and comments ------------------------*)
RECURSIVE StrEnd(_, _)
StrEnd(C, j) ==
  IF P(C, j) = 34 THEN <<"String", N(C, j)>>
  ELSE IF P(C, j) = Eof THEN <<"Error_UnterminatedString", C.n>>
  ELSE StrEnd(C, N(C, j))

\* j: index of the source character to look at next; comments see source
\* characters only.
RECURSIVE ComEnd(_, _, _)
ComEnd(C, j, depth) ==
  LET c == C.s[j] IN
  IF c = Eof THEN <<"Error_UnterminatedComment", C.n>>
  ELSE IF c = 40 /\ At(C.s, j+1) = 42 THEN ComEnd(C, j + 2, depth + 1)
  ELSE IF c = 42 /\ At(C.s, j+1) = 41 THEN
       IF depth = 1 THEN <<"Comment", j + 2>> ELSE ComEnd(C, j + 2, depth - 1)
  ELSE ComEnd(C, j + 1, depth)

RECURSIVE BlobEnd(_, _, _)
BlobEnd(C, j, depth) ==
  LET c == P(C, j) IN
  IF c = Eof THEN <<"Error_UnterminatedLinearSyntaxBlob", C.n>>
  ELSE IF c = 63433 THEN BlobEnd(C, N(C, j), depth + 1)
  ELSE IF c = 63424 THEN IF depth = 1 THEN <<"LinearSyntaxBlob", N(C, j)>>
                         ELSE BlobEnd(C, N(C, j), depth - 1)
  ELSE BlobEnd(C, N(C, j), depth)

(*------------------------------- numbers -------------------------------*)
RECURSIVE Zeros(_, _), Digits(_, _), AlphaDigits(_, _, _, _, _)
Zeros(C, j)  == IF P(C, j) = 48 THEN Zeros(C, N(C, j)) ELSE j
Digits(C, j) == IF IsDigit(P(C, j)) THEN Digits(C, N(C, j)) ELSE j
\* <<number of digits, end, some digit is not below the base>>
AlphaDigits(C, j, base, count, bad) ==
  LET c == P(C, j) IN
  IF IF base = 0 THEN IsDigit(c) ELSE IsAlnum(c)
  THEN AlphaDigits(C, N(C, j), base, count + 1, bad \/ (base # 0 /\ DigitVal(c) >= base))
  ELSE <<count, j, bad>>

NumKind(bad, real, ratio) ==
  IF bad THEN "Error_Number" ELSE IF real THEN "Real" ELSE IF ratio THEN "Rational" ELSE "Integer"

\* after a star at index star that may introduce an exponent; j: after the star
NumExp(C, star, j, base, real, bad) ==
  IF P(C, j) # 94 THEN <<NumKind(bad, real, FALSE), star>>
  ELSE LET k  == N(C, j)
           k2 == IF P(C, k) \in {43, 45} THEN N(C, k) ELSE k
           z  == Zeros(C, k2)
           d  == Digits(C, z)
           t  == NumKind(bad, real, P(C, k) = 45 /\ d > z)
       IN
       IF ~IsDigit(P(C, k2)) THEN <<"Error_Number", k2>>
       ELSE IF P(C, d) # 46 THEN <<t, d>>
       ELSE LET f == N(C, d) IN
            IF P(C, f) = 46 THEN <<t, d>>
            ELSE <<"Error_Number", AlphaDigits(C, f, base, 0, FALSE)[2]>>

\* j: after the first backtick
NumPrec(C, j, base, bad) ==
  LET acc  == P(C, j) = 96
      j1   == IF acc THEN N(C, j) ELSE j
      sgn  == P(C, j1) \in {43, 45}
      j2   == IF sgn THEN N(C, j1) ELSE j1
      real == NumKind(bad, TRUE, FALSE)
      Rest(e, supplied) ==
         IF acc /\ ~supplied THEN <<"Error_Number", e>>
         ELSE IF P(C, e) = 42 THEN NumExp(C, e, N(C, e), base, TRUE, bad)
         ELSE <<real, e>>
  IN
  IF sgn /\ ~(IsDigit(P(C, j2)) \/ P(C, j2) = 46)
  THEN IF acc THEN <<"Error_Number", j2>> ELSE <<real, j1>>
  ELSE
  LET d == Digits(C, j2)
      supplied == d > j2
  IN
  IF P(C, d) # 46 THEN Rest(d, supplied)
  ELSE
  LET k  == N(C, d)
      nc == P(C, k)
  IN
  IF ~sgn /\ ~supplied /\ ~IsDigit(nc)
  THEN IF acc THEN <<"Error_Number", k>>
       ELSE IF nc \in {43, 45} THEN <<"Error_Number", N(C, k)>>
       ELSE <<real, d>>
  ELSE IF nc = 46
  THEN IF supplied THEN <<real, d>> ELSE <<real, j1>>
  ELSE LET e == Digits(C, k) IN
       IF ~supplied /\ e = k THEN <<"Error_Number", e>>
       ELSE Rest(e, TRUE)

\* j: after the dot; lead: there are digits before it, which end at leadEnd
NumFrac(C, j, lead, leadEnd, base, bad) ==
  IF P(C, j) = 46
  THEN <<IF lead THEN NumKind(bad, FALSE, FALSE) ELSE "Error_Number", leadEnd>>
  ELSE LET a == AlphaDigits(C, j, base, 0, bad)
           e == a[2]
       IN
       IF a[1] = 0 /\ ~lead THEN <<"Error_Number", e>>
       ELSE IF P(C, e) = 96 THEN NumPrec(C, N(C, e), base, a[3])
       ELSE IF P(C, e) = 42 THEN NumExp(C, e, N(C, e), base, TRUE, a[3])
       ELSE <<NumKind(a[3], TRUE, FALSE), e>>

\* what follows the (base) digits, which end at d
NumTail(C, d, base, bad) ==
  LET c == P(C, d) IN
  IF c = 42 THEN NumExp(C, d, N(C, d), base, FALSE, bad)
  ELSE IF c = 46 THEN NumFrac(C, N(C, d), TRUE, d, base, bad)
  ELSE IF c = 96 THEN NumPrec(C, N(C, d), base, bad)
  ELSE <<NumKind(bad, FALSE, FALSE), d>>

\* j: after the two carets; the base digits are the bytes from..to
NumBase(C, j, from, to) ==
  LET len  == C.off[to] - C.off[from]
      base == IF len = 1 THEN DigitVal(C.s[from])
              ELSE IF len = 2 THEN DigitVal(C.s[from]) * 10 + DigitVal(C.s[from + 1])
              ELSE 0
      bad  == base < 2 \/ base > 36
      c    == P(C, j)
  IN
  IF IsAlnum(c)
  THEN LET a == AlphaDigits(C, j, base, 0, bad) IN
       IF P(C, a[2]) = 46 THEN NumFrac(C, N(C, a[2]), a[1] > 0, a[2], base, a[3])
       ELSE NumTail(C, a[2], base, a[3])
  ELSE IF c = 46 THEN NumFrac(C, N(C, j), FALSE, j, base, bad)
  ELSE IF c = Eof THEN <<"Error_Number", C.n>>
  ELSE <<"Error_Number", j>>

\* i: start of the token, c: its first character, j: after it
LexNumber(C, i, c, j, digitsOnly) ==
  IF c = 46 THEN NumFrac(C, j, FALSE, i, 0, FALSE)
  ELSE LET z == IF c = 48 THEN Zeros(C, j) ELSE j
           d == Digits(C, z)
       IN
       IF digitsOnly THEN <<"Integer", d>>
       ELSE IF P(C, d) = 94
       THEN IF P(C, N(C, d)) = 94
            THEN NumBase(C, N(C, N(C, d)), IF c = 48 THEN z ELSE i, d)
            ELSE <<"Integer", d>>
       ELSE NumTail(C, d, 0, FALSE)

(*------------------------------ operators ------------------------------*)
\* ASCII operators: longest match, with the exceptions written out below.
\* Ops[first character] is a sequence of <<rest of the operator, kind>>, longest first.
Ops == TLCEval([p \in 0..127 |->
  CASE p = 58 -> << <<<<58, 91>>, "ColonColonOpenSquare">>, <<<<58>>, "ColonColon">>, <<<<61>>, "ColonEqual">>, <<<<62>>, "ColonGreater">>, <<<<>>, "Colon">> >>
    [] p = 46 -> << <<<<46, 46>>, "DotDotDot">>, <<<<46>>, "DotDot">>, <<<<>>, "Dot">> >>
    [] p = 61 -> << <<<<61, 61>>, "EqualEqualEqual">>, <<<<61>>, "EqualEqual">>, <<<<33, 61>>, "EqualBangEqual">>, <<<<>>, "Equal">> >>
    [] p = 95 -> << <<<<95, 95>>, "UnderUnderUnder">>, <<<<95>>, "UnderUnder">>, <<<<46>>, "UnderDot">>, <<<<>>, "Under">> >>
    [] p = 60 -> << <<<<124>>, "LessBar">>, <<<<60>>, "LessLess">>, <<<<62>>, "LessGreater">>, <<<<61>>, "LessEqual">>, <<<<45, 62>>, "LessMinusGreater">>, <<<<>>, "Less">> >>
    [] p = 62 -> << <<<<62, 62>>, "GreaterGreaterGreater">>, <<<<62>>, "GreaterGreater">>, <<<<61>>, "GreaterEqual">>, <<<<>>, "Greater">> >>
    [] p = 45 -> << <<<<62>>, "MinusGreater">>, <<<<45>>, "MinusMinus">>, <<<<61>>, "MinusEqual">>, <<<<>>, "Minus">> >>
    [] p = 124 -> << <<<<62>>, "BarGreater">>, <<<<124>>, "BarBar">>, <<<<45, 62>>, "BarMinusGreater">>, <<<<>>, "Bar">> >>
    [] p = 59 -> << <<<<59>>, "SemiSemi">>, <<<<>>, "Semi">> >>
    [] p = 33 -> << <<<<61>>, "BangEqual">>, <<<<33>>, "BangBang">>, <<<<>>, "Bang">> >>
    [] p = 35 -> << <<<<35>>, "HashHash">>, <<<<>>, "Hash">> >>
    [] p = 38 -> << <<<<38>>, "AmpAmp">>, <<<<>>, "Amp">> >>
    [] p = 47 -> << <<<<64>>, "SlashAt">>, <<<<59>>, "SlashSemi">>, <<<<46>>, "SlashDot">>, <<<<47, 46>>, "SlashSlashDot">>, <<<<47, 64>>, "SlashSlashAt">>, <<<<47, 61>>, "SlashSlashEqual">>, <<<<47>>, "SlashSlash">>, <<<<58>>, "SlashColon">>, <<<<61>>, "SlashEqual">>, <<<<42>>, "SlashStar">>, <<<<>>, "Slash">> >>
    [] p = 64 -> << <<<<64, 64>>, "AtAtAt">>, <<<<64>>, "AtAt">>, <<<<42>>, "AtStar">>, <<<<>>, "At">> >>
    [] p = 43 -> << <<<<43>>, "PlusPlus">>, <<<<61>>, "PlusEqual">>, <<<<>>, "Plus">> >>
    [] p = 126 -> << <<<<126>>, "TildeTilde">>, <<<<>>, "Tilde">> >>
    [] p = 63 -> << <<<<63>>, "QuestionQuestion">>, <<<<>>, "Question">> >>
    [] p = 42 -> << <<<<61>>, "StarEqual">>, <<<<42>>, "StarStar">>, <<<<41>>, "Error_UnexpectedCommentCloser">>, <<<<>>, "Star">> >>
    [] p = 94 -> << <<<<61>>, "CaretEqual">>, <<<<58, 61>>, "CaretColonEqual">>, <<<<58>>, "Error_ExpectedEqual">>, <<<<>>, "Caret">> >>
    [] p = 44 -> << <<<<>>, "Comma">> >>
    [] p = 91 -> << <<<<>>, "OpenSquare">> >>
    [] p = 93 -> << <<<<>>, "CloseSquare">> >>
    [] p = 123 -> << <<<<>>, "OpenCurly">> >>
    [] p = 125 -> << <<<<>>, "CloseCurly">> >>
    [] p = 40 -> << <<<<>>, "OpenParen">> >>
    [] p = 41 -> << <<<<>>, "CloseParen">> >>
    [] p = 39 -> << <<<<>>, "SingleQuote">> >>
    [] OTHER -> <<>>])

\* where the reader stands after reading exactly the characters r from j on, or 0
RECURSIVE Reads(_, _, _, _)
Reads(C, j, r, k) ==
  IF k > Len(r) THEN j
  ELSE IF P(C, j) = r[k] THEN Reads(C, N(C, j), r, k + 1) ELSE 0

RECURSIVE FirstOp(_, _, _, _)
FirstOp(C, j, alts, a) ==
  LET e == Reads(C, j, alts[a][1], 1) IN
  IF e # 0 /\ ~(alts[a][2] = "SlashDot" /\ IsDigit(P(C, e)))
  THEN <<alts[a][2], e>>
  ELSE FirstOp(C, j, alts, a + 1)

RECURSIVE Percents(_, _)
Percents(C, j) == IF P(C, j) = 37 THEN Percents(C, N(C, j)) ELSE j

(*----------------- backslashes that start no escape --------------------*)
RECURSIVE BadName(_, _)
BadName(C, j) ==     \* after [ and an upper case letter
  IF IsAlnum(P(C, j)) THEN BadName(C, N(C, j))
  ELSE IF P(C, j) = 93 THEN N(C, j) ELSE j

RECURSIVE BadDigits(_, _, _, _)
BadDigits(C, j, k, octal) ==   \* at most k digits, then one more character
  IF k = 0 THEN N(C, j)
  ELSE IF (IF octal THEN IsOctal(P(C, j)) ELSE IsHex(P(C, j)))
  THEN BadDigits(C, N(C, j), k - 1, octal) ELSE j

LexBackslash(C, j) ==
  LET c == P(C, j)
      k == N(C, j)
      e == CASE c = 91 -> IF IsUpper(P(C, k)) THEN BadName(C, N(C, k)) ELSE N(C, k)
             [] c = 58 -> BadDigits(C, k, 4, FALSE)
             [] c = 46 -> BadDigits(C, k, 2, FALSE)
             [] c = 124 -> BadDigits(C, k, 6, FALSE)
             [] IsOctal(c) -> BadDigits(C, k, 3, TRUE)
             [] OTHER -> k
  IN <<"Error_UnhandledCharacter", e>>

(*------------------------------ all tokens -----------------------------*)
Newline(m) == IF m = "top" THEN "ToplevelNewline" ELSE "InternalNewline"

LexNormal(C, i, m) ==
  LET c == P(C, i)
      j == N(C, i)
  IN
  IF c = Eof THEN <<"EndOfFile", C.n>>
  ELSE IF IsUnsafe(c) THEN <<"Error_UnsafeCharacterEncoding", j>>
  ELSE IF c = 96 \/ IsLetterlike(c) THEN LexSymbol(C, j, c, m = "slot")
  ELSE IF IsDigit(c) THEN LexNumber(C, i, c, j, m \in {"slot", "slots"})
  ELSE IF IsBlank(c) THEN <<"Whitespace", j>>
  ELSE IF c \in {10, 13, -13} THEN <<Newline(m), j>>
  ELSE IF c = 34 THEN StrEnd(C, j)
  ELSE IF c = 40 /\ C.s[j - 1] = 40 /\ C.s[j] = 42 THEN ComEnd(C, j + 1, 1)
  ELSE IF c = 46 /\ IsDigit(P(C, j)) THEN LexNumber(C, i, c, j, FALSE)
  ELSE IF c = 37 THEN LET e == Percents(C, j) IN <<IF e > j THEN "PercentPercent" ELSE "Percent", e>>
  ELSE IF c = 92 THEN LexBackslash(C, j)
  ELSE IF c = -3 THEN <<"LinearSyntax_Space", j>>
  ELSE IF c >= 0 /\ c < 128 THEN
       IF Ops[c] = <<>> THEN <<"Error_UnhandledCharacter", j>> ELSE FirstOp(C, j, Ops[c], 1)
  ELSE IF c = 63433 THEN BlobEnd(C, j, 1)
  ELSE IF IsLinear(c) THEN <<LinearKinds[c], j>>
  ELSE IF c \in MBUninterpretable THEN <<"Error_UnhandledCharacter", j>>
  ELSE IF c \in MBSpace THEN <<"Whitespace", j>>
  ELSE IF c \in MBNewline THEN <<Newline(m), j>>
  ELSE IF c \in MBPunct THEN <<OpKind[c], j>>
  ELSE <<"Error_UnhandledCharacter", j>>       \* string meta characters

LexTag(C, i) ==
  LET c == P(C, i) IN
  IF c = 34 THEN StrEnd(C, N(C, i))
  ELSE IF IsLetterlike(c)
  THEN LET e == SegEnd(C, N(C, i)) IN <<"String", IF P(C, e) = 96 THEN N(C, e) ELSE e>>
  ELSE <<"Error_ExpectedTag", i>>

FileChar(c) == IsAlnum(c) \/ c \in {36, 96, 47, 46, 92, 33, 45, 95, 58, 42, 126, 63}

RECURSIVE FileBrackets(_, _, _), FileRest(_, _)
FileBrackets(C, j, depth) ==       \* the index after the matching bracket, or <<"bad", j>>
  LET c == C.s[j] IN
  IF c = Eof \/ IsBlank(c) \/ c \in {10, 13, -13} \/ c \in MBSpace \ {62370} \/ c \in MBNewline
  THEN <<FALSE, j>>
  ELSE IF c = 91 THEN FileBrackets(C, j + 1, depth + 1)
  ELSE IF c = 93 THEN IF depth = 1 THEN <<TRUE, j + 1>> ELSE FileBrackets(C, j + 1, depth - 1)
  ELSE FileBrackets(C, j + 1, depth)
FileRest(C, j) ==
  IF FileChar(C.s[j]) THEN FileRest(C, j + 1)
  ELSE IF C.s[j] = 91 THEN LET r == FileBrackets(C, j + 1, 1) IN
       IF r[1] THEN FileRest(C, r[2]) ELSE <<"Error_UnterminatedFileString", r[2]>>
  ELSE <<"String", j>>

LexFile(C, i) ==
  LET c == C.s[i] IN
  IF c \in {10, 13, -13} THEN <<"ToplevelNewline", i + 1>>
  ELSE IF c \in {32, 9} THEN <<"Whitespace", i + 1>>
  ELSE IF c = 34 THEN StrEnd(C, i + 1)
  ELSE IF FileChar(c) THEN FileRest(C, i + 1)
  ELSE IF c = 91 THEN FileRest(C, i)
  ELSE <<"Error_ExpectedFile", i>>

Lex(C, i, m) ==
  IF m = "tag" THEN LexTag(C, i)
  ELSE IF m = "file" THEN LexFile(C, i)
  ELSE LexNormal(C, i, m)

=============================================================================
