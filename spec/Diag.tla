-------------------------------- MODULE Diag --------------------------------
(***************************************************************************)
(* What is reported besides the tree: diagnostics, and the tracked places  *)
(* of line continuations, embedded newlines and tabs.                      *)
(*                                                                         *)
(* The input is parsed by the machine of module Parser (an unterminated    *)
(* group is not cut: what follows it is read all the same).  Then the      *)
(* tokens are diagnosed one by one, each in the mode it was read in.       *)
(*                                                                         *)
(* An issue is <<tag, severity, from, to, confidence, edits>>, from and to *)
(* being indices of the input.  An edit is what is suggested to be done    *)
(* about it: <<command, from, to, text>>.                                  *)
(***************************************************************************)
EXTENDS Tree, Spell

(*---------------------------- source characters ------------------------*)
NotStrange == TLCEval(Range(Tables.notstrange))
MBStrange(p) ==
  \/ p \in {8203, 8204, 8205, 8216, 8217, 8220, 8221, 8289, 8291, 8292, 8594, 10141, 10740, 62370, 63341}
  \/ In(p, 128, 159) \/ In(p, 983040, 1048573) \/ In(p, 1048576, 1114109)
Control(p) == (In(p, 0, 31) /\ p \notin {9, 10, 13}) \/ p = 127
OddSpace(p) == p \in {11, 12} \/ p \in MBSpace

Issue(tag, sev, i, j, conf) == <<tag, sev, i, j, conf, <<>>>>
Suggesting(x, edits) == [x EXCEPT ![6] = edits]

(*------------------------------- edits ---------------------------------*)
ReplaceText(i, j, t) == <<"Replace", i, j, t>>
InsertText(i, t) == <<"Insert", i, i, t>>
DeleteText(i, j) == <<"Delete", i, j, <<>>>>
\* to be replaced by the known name that is nearest
Rename(i, j, name, before) == <<"Rename", i, j, name, before>>

\* characters that are mistaken for the ones that are meant
Meant == (62370 :> 8288) @@ (8594 :> 62754) @@ (10141 :> 62754) @@ (10740 :> 62751) @@ (8289 :> 63341)
      @@ (8291 :> 63333) @@ (8292 :> 62366) @@ (8203 :> 62304)
MeantEdits(p, esc, i, j) ==
  IF p \notin DOMAIN Meant THEN <<>>
  ELSE <<ReplaceText(i, j, IF esc THEN Named(Meant[p]) ELSE Utf8(Meant[p]))>>
       \o (IF p = 8289 THEN <<DeleteText(i, j)>> ELSE <<>>)
\* the customary ways to write a character in ASCII
AsciiOf == FunOf(Tables.ascii)
AsciiEdits(p, i, j) ==
  IF p \notin DOMAIN AsciiOf THEN <<>>
  ELSE [k \in 1..Len(AsciiOf[p]) |-> ReplaceText(i, j, AsciiOf[p][k])]

Ambiguous(i) == Suggesting(Issue("Ambiguous", "Formatting", i, i, 100), <<InsertText(i, <<32>>)>>)

\* the character at i as it stands in the file; en: decoding issues are
\* reported here; sc: inside a string or comment; nonAscii: so are characters
\* outside ASCII
SrcIss(C, i, en, sc, nonAscii) ==
  LET p == C.s[i] IN
  IF p = 13 THEN IF en THEN {Issue("UnexpectedCarriageReturn", "Warning", i + 1, i + 1, 100)} ELSE {}
  ELSE IF Control(p) \/ MBStrange(p)
  THEN LET edits == MeantEdits(p, FALSE, i, i + 1) \o <<ReplaceText(i, i + 1, Graphic(p))>> \o AsciiEdits(p, i, i + 1) IN
       IF sc THEN {Suggesting(Issue("UnexpectedCharacter", "Remark", i, i + 1, 95), edits)}
       ELSE IF OddSpace(p) THEN {} ELSE {Suggesting(Issue("UnexpectedCharacter", "Warning", i, i + 1, 95), edits)}
  ELSE IF p >= 128
  THEN IF nonAscii THEN {Suggesting(Issue("NonASCIICharacter", "Remark", i, i + 1, 100),
                                    <<ReplaceText(i, i + 1, Graphic(p))>> \o AsciiEdits(p, i, i + 1))} ELSE {}
  ELSE IF IsUnsafe(p) THEN {Issue(C.flag[i], "Fatal", i, i + 1, 100)}
  ELSE {}

(*--------------------------- escaped characters ------------------------*)
Strange(p, i, j, sc) ==
  IF p \in {11, 12} \/ p = 27 \/ p \in MBSpace THEN {}
  ELSE LET sev == IF sc THEN "Remark" ELSE "Warning"
           edits == MeantEdits(p, TRUE, i, j) \o AsciiEdits(p, i, j)
       IN
       IF Control(p) THEN {Suggesting(Issue("UnexpectedCharacter", sev, i, j, 95), edits)}
       ELSE IF MBStrange(p) THEN {Suggesting(Issue("UnexpectedCharacter", sev, i, j, 85), edits)}
       ELSE {}
Unhandled(i, j, edits) == {Suggesting(Issue("UnhandledCharacter", "Fatal", i, j, 100), edits)}

RECURSIVE HexRun(_, _, _, _)    \* first index >= i that is no digit, at most k further
HexRun(s, i, k, octal) ==
  IF k = 0 \/ ~(IF octal THEN IsOctal(At(s, i)) ELSE IsHex(At(s, i))) THEN i ELSE HexRun(s, i + 1, k - 1, octal)

\* the character at i, an escape if it starts one
RawIss(C, i, en, sc, na) ==
  LET s == C.s
      Src(k) == IF k <= C.n THEN SrcIss(C, k, en, sc, na) ELSE {}
      q == At(s, i + 1)
      \* the backslash is meant as such
      Doubled(e) == <<ReplaceText(i, e, <<92>> \o SubSeq(s, i, e - 1))>>
      Digit(from, n, octal) ==
        LET e == HexRun(s, from, n, octal) IN
        IF e < from + n THEN Src(e) \cup (IF en THEN Unhandled(i, e, Doubled(e)) ELSE {})
        ELSE IF C.w[i][1] = 92 THEN {} ELSE Strange(C.w[i][1], i, e, sc)
      Name(k) == SubSeq(s, k, RunEnd(s, k) - 1)
  IN
  IF s[i] # 92 THEN Src(i)
  ELSE Src(i + 1) \cup
  CASE q \in {60, 62, 98, 102} -> {Issue("UnexpectedCharacter", "Remark", i, i + 2, 95)}
    [] q = 92 ->
         IF At(s, i + 2) # 91 THEN Src(i + 2)
         ELSE IF ~IsUpper(At(s, i + 3)) THEN Src(i + 3)
         ELSE LET e == RunEnd(s, i + 3) IN
              IF At(s, e) # 93 THEN Src(e)
              ELSE IF Name(i + 3) \in LongNameSet THEN Strange(LongNames[Name(i + 3)], i + 1, e + 1, sc)
              ELSE {Suggesting(Issue("UnrecognizedLongName", "Error", i, e + 1, 75),
                               <<Rename(i, e + 1, Name(i + 3), <<92, 92, 91>>)>>)}
    [] q = 91 ->
         IF ~IsUpper(At(s, i + 2))
         THEN IF At(s, i + 2) = 93 THEN Src(i + 3) \cup (IF en THEN Unhandled(i, i + 3, Doubled(i + 3)) ELSE {})
              ELSE Src(i + 2) \cup (IF en THEN Unhandled(i, i + 2, Doubled(i + 2)) ELSE {})
         ELSE LET e == RunEnd(s, i + 2) IN
              IF At(s, e) # 93
              THEN Src(e) \cup (IF en THEN Unhandled(i, e, IF Name(i + 2) \in LongNameSet THEN <<InsertText(e, <<93>>)>> ELSE <<>>) ELSE {})
              ELSE IF ~en THEN {}
              ELSE IF Name(i + 2) \in LongNameSet THEN Strange(LongNames[Name(i + 2)], i, e + 1, sc)
              ELSE Unhandled(i, e + 1, <<Rename(i, e + 1, Name(i + 2), <<92, 91>>)>>)
    [] q = 58 -> Digit(i + 2, 4, FALSE)
    [] q = 46 -> Digit(i + 2, 2, FALSE)
    [] q = 124 -> Digit(i + 2, 6, FALSE)
    [] IsOctal(q) -> Digit(i + 1, 3, TRUE)
    [] q \in {34, 110, 114, 116, 10, 13, -13, 32} \cup DOMAIN EscPunct -> {}
    [] OTHER ->
         IF ~en \/ q = Eof \/ IsUnsafe(q) THEN {}
         ELSE IF ~IsUpper(q)
         THEN Unhandled(i, i + 2, IF IsHex(q) THEN <<ReplaceText(i, i + 2, <<92, 58, q, 120, 120, 120>>)>>
                                  ELSE IF Len(Graphic(q)) = 1 THEN Doubled(i + 2) ELSE <<>>)
         ELSE LET e == RunEnd(s, i + 1) IN
              Src(e) \cup
              (IF At(s, e) = 93 /\ Name(i + 1) \in LongNameSet
               THEN Unhandled(i, e + 1, <<InsertText(i + 1, <<91>>)>>)
               ELSE Unhandled(i, i + 2, <<ReplaceText(i, i + 2, <<92, 91, q, 88, 88, 88, 93>>)>>
                     \o (IF IsHex(q) THEN <<ReplaceText(i, i + 2, <<92, 58, q, 88, 88, 88>>)>> ELSE <<>>)))

\* every character that is looked at when the reader stands at j and reads one
RECURSIVE ReadIss(_, _, _, _, _), BlankIss(_, _, _, _, _)
ReadIss(C, j, en, sc, na) ==
  RawIss(C, j, en, sc, na) \cup (IF IsLC(C.w[j][1]) THEN BlankIss(C, C.w[j][2], en, sc, na) ELSE {})
BlankIss(C, j, en, sc, na) ==
  IF IsBlank(C.w[j][1]) THEN RawIss(C, j, en, sc, na) \cup BlankIss(C, C.w[j][2], en, sc, na)
  ELSE ReadIss(C, j, en, sc, na)

RECURSIVE CharsIss(_, _, _, _, _, _)   \* reading from j until the reader stands at e
CharsIss(C, j, e, en, sc, na) ==
  IF j >= e THEN {}
  ELSE ReadIss(C, j, en, sc, na) \cup
       (IF P(C, j) = Eof THEN {} ELSE CharsIss(C, N(C, j), e, en, sc, na))

\* line continuations skipped on the way from j to e
RECURSIVE HasLC(_, _, _)
HasLC(C, j, e) ==
  IF j >= e THEN FALSE
  ELSE IsLC(C.w[j][1]) \/ (P(C, j) # Eof /\ HasLC(C, N(C, j), e))

\* a tab among the blanks skipped after line continuations at j
RECURSIVE LCTab(_, _, _)
LCTab(C, j, after) ==
  IF IsLC(C.w[j][1]) THEN LCTab(C, C.w[j][2], TRUE)
  ELSE IF after /\ IsBlank(C.w[j][1]) THEN C.w[j][1] = 9 \/ LCTab(C, C.w[j][2], TRUE)
  ELSE FALSE

RECURSIVE StrHas(_, _, _, _)       \* a string's text from j to e: newlines or tabs
StrHas(C, j, e, tabs) ==
  IF j >= e THEN FALSE
  ELSE IF tabs THEN P(C, j) = 9 \/ LCTab(C, j, FALSE) \/ (P(C, j) # Eof /\ StrHas(C, N(C, j), e, tabs))
  ELSE P(C, j) \in {10, 13, -13} \/ (P(C, j) # Eof /\ StrHas(C, N(C, j), e, tabs))

(*------------------------------- numbers -------------------------------*)
\* <<issues, index up to which characters are consumed before backing up>>
Max(a, b) == IF a > b THEN a ELSE b
ImplicitTimes(i) == Suggesting(Issue("UnexpectedImplicitTimes", "Error", i, i, 99), <<InsertText(i, <<42>>)>>)

\* digits from j on, after a dot: another dot after them starts another factor
DotIss(C, j, base) ==
  LET a == AlphaDigits(C, j, base, 0, FALSE) IN
  IF a[1] > 0 /\ P(C, a[2]) = 46 THEN {ImplicitTimes(a[2])} ELSE {}

ExpD(C, star, j, base) ==
  IF P(C, j) # 94 THEN <<{}, j>>
  ELSE LET k  == N(C, j)
           k2 == IF P(C, k) \in {43, 45} THEN N(C, k) ELSE k
           d  == Digits(C, k2)
           f  == N(C, d)
       IN
       IF d = k2 THEN <<{}, k2>>
       ELSE IF P(C, d) # 46 THEN <<{}, d>>
       ELSE IF P(C, f) = 46 THEN <<{Ambiguous(d)}, f>>
       ELSE <<DotIss(C, f, base), AlphaDigits(C, f, base, 0, FALSE)[2]>>

PrecD(C, j, base) ==
  LET acc == P(C, j) = 96
      j1  == IF acc THEN N(C, j) ELSE j
      sgn == P(C, j1) \in {43, 45}
      j2  == IF sgn THEN N(C, j1) ELSE j1
      d   == Digits(C, j2)
      supplied == d > j2
      k   == N(C, d)
      nc  == P(C, k)
      sign == IF sgn /\ ~acc THEN {Issue("UnexpectedSign", "Warning", j1, j1, 95)} ELSE {}
      Rest(e, ok) ==
        IF acc /\ ~ok THEN <<{}, e>>
        ELSE IF P(C, e) = 42 THEN ExpD(C, e, N(C, e), base) ELSE <<{}, e>>
      Plus(iss, r) == <<iss \cup r[1], r[2]>>
  IN
  IF sgn /\ ~(IsDigit(P(C, j2)) \/ P(C, j2) = 46) THEN <<IF acc THEN {} ELSE {Ambiguous(j1)}, j2>>
  ELSE IF P(C, d) # 46 THEN Plus(sign, Rest(d, supplied))
  ELSE IF ~sgn /\ ~supplied /\ ~IsDigit(nc)
  THEN IF acc THEN <<{}, k>> ELSE IF nc \in {43, 45} THEN <<{}, N(C, k)>> ELSE <<{Ambiguous(d)}, k>>
  ELSE IF nc = 46
  THEN <<sign \cup (IF supplied THEN {Ambiguous(d)} ELSE {Ambiguous(d), Ambiguous(j1)}), k>>
  ELSE LET e == Digits(C, k) IN
       Plus(sign \cup DotIss(C, k, 0), IF ~supplied /\ e = k THEN <<{}, e>> ELSE Rest(e, TRUE))

FracD(C, j, lead, leadEnd, base) ==
  IF P(C, j) = 46 THEN <<{Ambiguous(leadEnd)}, j>>
  ELSE LET a == AlphaDigits(C, j, base, 0, FALSE)
           e == a[2]
           r == IF a[1] = 0 /\ ~lead THEN <<{}, e>>
                ELSE IF P(C, e) = 96 THEN PrecD(C, N(C, e), base)
                ELSE IF P(C, e) = 42 THEN ExpD(C, e, N(C, e), base)
                ELSE <<{}, e>>
       IN <<DotIss(C, j, base) \cup r[1], r[2]>>

TailD(C, d, base) ==
  LET c == P(C, d) IN
  IF c = 42 THEN ExpD(C, d, N(C, d), base)
  ELSE IF c = 46 THEN FracD(C, N(C, d), TRUE, d, base)
  ELSE IF c = 96 THEN PrecD(C, N(C, d), base)
  ELSE <<{}, d>>

BaseD(C, j, from, to) ==
  LET len  == C.off[to] - C.off[from]
      base == IF len = 1 THEN DigitVal(C.s[from])
              ELSE IF len = 2 THEN DigitVal(C.s[from]) * 10 + DigitVal(C.s[from + 1])
              ELSE 0
      a == AlphaDigits(C, j, base, 0, FALSE)
      c == P(C, j)
  IN
  IF IsAlnum(c) THEN TailD(C, a[2], base)
  ELSE IF c = 46 THEN FracD(C, N(C, j), FALSE, j, base)
  ELSE IF c = Eof THEN <<{}, C.n>> ELSE <<{}, j>>

NumberD(C, i, c, j, digitsOnly) ==
  IF c = 46 THEN FracD(C, j, FALSE, i, 0)
  ELSE LET z == IF c = 48 THEN Zeros(C, j) ELSE j
           d == Digits(C, z)
       IN
       IF digitsOnly THEN <<IF P(C, d) = 46 THEN {Ambiguous(d)} ELSE {}, d>>
       ELSE IF P(C, d) = 94
       THEN IF P(C, N(C, d)) = 94 THEN BaseD(C, N(C, N(C, d)), IF c = 48 THEN z ELSE i, d)
            ELSE <<{}, N(C, d)>>
       ELSE TailD(C, d, 0)

(*------------------------------- symbols -------------------------------*)
\* the letter that is read from k to e; tag: as part of a message tag; esc: an escape
EscapedAt(C, j) == C.s[SkipLC(C.w, j)] = 92
LetterIss(c, k, e, slot, tag, esc) ==
  IF c = 36 THEN IF slot THEN {Issue("UndocumentedSlotSyntax", "Warning", k, e, 33)} ELSE {}
  ELSE IF In(c, 0, 31) THEN {Suggesting(Issue("UnexpectedLetterlikeCharacter", "Warning", k, e, 85), MeantEdits(c, esc, k, e))}
  ELSE IF c >= 128 /\ c \notin NotStrange
  THEN {Suggesting(Issue("UnexpectedLetterlikeCharacter", "Warning", k, e, 80), MeantEdits(c, esc, k, e))}
  ELSE IF tag /\ ~IsAlnum(c) THEN {Issue("UnexpectedCharacter", "Warning", k, e, 85)}
  ELSE {}

RECURSIVE SymIss(_, _, _, _, _, _)     \* start of the token, reader's place, end of the token
SymIss(C, i, j, e, slot, tag) ==
  IF j >= e THEN {}
  ELSE LET c == P(C, j)
           k == N(C, j)
       IN (IF IsLetterlike(c) THEN LetterIss(c, j, k, slot, tag, EscapedAt(C, j))
           ELSE IF c = 96 /\ slot THEN {Issue("UndocumentedSlotSyntax", "Warning", i, k, 33)}
           ELSE {}) \cup SymIss(C, i, k, e, slot, tag)

(*------------------------------ one token ------------------------------*)
\* up to where a malformed escape is read: the character that does not fit too
RECURSIVE BadNameD(_, _), BadDigitsD(_, _, _, _)
BadNameD(C, j) == IF IsAlnum(P(C, j)) THEN BadNameD(C, N(C, j)) ELSE N(C, j)
BadDigitsD(C, j, k, octal) ==
  IF k = 0 \/ ~(IF octal THEN IsOctal(P(C, j)) ELSE IsHex(P(C, j))) THEN N(C, j)
  ELSE BadDigitsD(C, N(C, j), k - 1, octal)
BackslashEnd(C, j) ==
  LET c == P(C, j)
      k == N(C, j)
  IN CASE c = 91 -> IF IsUpper(P(C, k)) THEN BadNameD(C, N(C, k)) ELSE N(C, k)
       [] c = 58 -> BadDigitsD(C, k, 4, FALSE)
       [] c = 46 -> BadDigitsD(C, k, 2, FALSE)
       [] c = 124 -> BadDigitsD(C, k, 6, FALSE)
       [] IsOctal(c) -> BadDigitsD(C, k, 3, TRUE)
       [] OTHER -> k

\* operators that end in front of a character that has been looked at
BackedUp == {<<"Equal", 33>>, <<"Less", 45>>, <<"Bar", 45>>, <<"Slash", 46>>}
OpIss(C, i, t) ==
  LET e == t[2]
      c == P(C, e)
  IN
  IF <<t[1], c>> \in BackedUp THEN {Ambiguous(e)}
  ELSE IF t[1] = "MinusMinus" /\ c = 62 THEN {Suggesting(Issue("Ambiguous", "Error", i, e, 95), <<ReplaceText(i, e, <<45>>), InsertText(e, <<32>>)>>)}
  ELSE IF t[1] \in {"MinusMinus", "BarGreater", "PlusPlus"} /\ c = 61 THEN {Ambiguous(e)}
  ELSE IF t[1] = "UnderDot" /\ c = 46 THEN {Suggesting(Issue("UnexpectedDot", "Error", e, e, 95), <<InsertText(e, <<32>>)>>)}
  ELSE {}

NoTrack == [slc |-> FALSE, clc |-> FALSE, nl |-> FALSE, tab |-> FALSE]

\* <<issues, what is tracked at the start of the token>>
StringD(C, i, e, en, na, track, first) ==
  LET b == CharsIss(C, first, e, en, TRUE, na)
      r == IF P(C, first) = Eof THEN first + 1 ELSE e     \* nothing but line continuations follows
  IN <<IF first < e THEN b ELSE ReadIss(C, first, en, TRUE, na),
       [slc |-> FALSE, clc |-> track /\ HasLC(C, first, e),
        nl |-> StrHas(C, first, e, FALSE), tab |-> StrHas(C, first, e, TRUE)]>>

CommentD(C, j, e, en, na) ==
  <<UNION {SrcIss(C, k, en, TRUE, na) : k \in (j + 1)..(e - 1)},
    [NoTrack EXCEPT !.nl = \E k \in (j + 1)..(e - 1) : C.s[k] \in {10, 13, -13},
                    !.tab = \E k \in (j + 1)..(e - 1) : C.s[k] = 9]>>

Join(a, b) == <<a[1] \cup b[1], [f \in DOMAIN NoTrack |-> a[2][f] \/ b[2][f]]>>

NormalD(C, i, md, na) ==
  LET t == Lex(C, i, md)
      e == t[2]
      c == P(C, i)
      j == N(C, i)
      en == md # "slot"
      num == IsDigit(c) \/ (c = 46 /\ IsDigit(P(C, j)))
      nd == TLCEval(IF num THEN NumberD(C, i, c, j, md \in {"slot", "slots"} /\ IsDigit(c)) ELSE <<{}, e>>)
      first == <<ReadIss(C, i, en, FALSE, na), [NoTrack EXCEPT !.slc = IsLC(C.w[i][1])]>>
      end == IF num THEN Max(e, nd[2])
             ELSE IF c = 92 THEN BackslashEnd(C, j)
             ELSE IF <<t[1], P(C, e)>> \in BackedUp THEN N(C, e)
             ELSE e
      rest == <<CharsIss(C, i, end, en, FALSE, na), [NoTrack EXCEPT !.slc = HasLC(C, i, end)]>>
      quoted == IF md = "slot" THEN {Issue("UndocumentedSlotSyntax", "Warning", i, j, 33)} ELSE {}
      own == IF num THEN nd[1]
             ELSE IF c = 96 \/ IsLetterlike(c) THEN SymIss(C, i, i, e, md = "slot", FALSE)
             ELSE IF c \in {11, 12} THEN {Issue("UnexpectedSpaceCharacter", "Warning", i, j, 95)}
             ELSE IF c \in MBSpace THEN {Suggesting(Issue("UnexpectedSpaceCharacter", "Warning", i, j, 85), MeantEdits(c, EscapedAt(C, i), i, j))}
             ELSE IF c \in MBNewline THEN {Suggesting(Issue("UnexpectedNewlineCharacter", "Warning", i, j, 85), MeantEdits(c, EscapedAt(C, i), i, j))}
             ELSE OpIss(C, i, t)
      \* the character after the token has been looked at
      peek == IF t[1] \in {"Hash", "Percent", "GreaterGreater", "ColonColon"}
              THEN ReadIss(C, e, en, FALSE, na) ELSE {}
  IN
  IF c = Eof \/ IsUnsafe(c) THEN first
  ELSE IF c = 34 THEN Join(<<first[1] \cup quoted, first[2]>>, StringD(C, i, e, en, na, TRUE, j))
  ELSE IF t[1] \in {"Comment", "Error_UnterminatedComment"} THEN Join(first, CommentD(C, j, e, en, na))
  ELSE <<rest[1] \cup own \cup peek, rest[2]>>

TagD(C, i, na) ==
  LET t == Lex(C, i, "tag")
      e == t[2]
      c == P(C, i)
      j == N(C, i)
      first == <<ReadIss(C, i, TRUE, FALSE, na), [NoTrack EXCEPT !.slc = IsLC(C.w[i][1])]>>
  IN
  IF c = 34 THEN Join(first, StringD(C, i, e, TRUE, na, TRUE, j))
  ELSE IF IsLetterlike(c)
  THEN <<CharsIss(C, i, e, TRUE, FALSE, na) \cup LetterIss(c, j, j, FALSE, TRUE, EscapedAt(C, i))
            \cup SymIss(C, i, j, e, FALSE, TRUE),
         [NoTrack EXCEPT !.slc = HasLC(C, i, e)]>>
  ELSE first

FileD(C, i, na) ==
  LET t == Lex(C, i, "file")
      first == <<SrcIss(C, i, FALSE, FALSE, na), NoTrack>>
  IN
  IF C.s[i] = 34 THEN Join(first, StringD(C, i, t[2], FALSE, na, FALSE, i + 1))
  ELSE Join(first, <<UNION {SrcIss(C, k, FALSE, FALSE, na) : k \in i..(t[2] - 1)}, NoTrack>>)

TokenD(C, i, md, na) ==
  IF md = "tag" THEN TagD(C, i, na) ELSE IF md = "file" THEN FileD(C, i, na) ELSE NormalD(C, i, md, na)

(*------------------- the reads of a parse, with their modes ------------*)
Reads1(l, md) ==    \* of one leaf
  IF l[3] = l[4] /\ l[2] \notin {"Error_ExpectedTag", "Error_ExpectedFile"} THEN <<>>
  ELSE IF l[2] = "Hash" THEN <<<<l[3], md>>, <<l[4], "slot">>>>
  ELSE IF l[2] \in {"HashHash", "Percent"} THEN <<<<l[3], md>>, <<l[4], "slots">>>>
  ELSE <<<<l[3], md>>>>

FileOps == {"LessLess", "GreaterGreater", "GreaterGreaterGreater"}
RECURSIVE ReadsOf(_, _, _), KidReads(_, _, _, _)
ReadsOf(n, md, acc) ==
  IF n[1] = "Leaf" THEN acc \o Reads1(n, md)
  ELSE IF n[1] = "Compound" /\ n[2] = "Slot" THEN acc \o <<<<n[3][1][3], "top">>, <<n[3][2][3], "slot">>>>
  ELSE IF n[1] = "Compound" /\ n[2] \in {"SlotSequence", "Out"} THEN acc \o <<<<n[3][1][3], "top">>, <<n[3][2][3], "slots">>>>
  ELSE KidReads(n, 1, "top", acc)
\* md: mode of the next child
KidReads(n, i, md, acc) ==
  IF i > Len(n[3]) THEN acc
  ELSE LET x == n[3][i]
           k == IF x[1] = "Leaf" THEN x[2] ELSE ""
           next == CASE n[2] \in {"Get", "Put", "PutAppend"} /\ (md = "file" \/ k \in FileOps) -> "file"
                     [] n[2] = "MessageName" /\ k = "ColonColon" -> "tag"
                     [] OTHER -> "top"
       IN KidReads(n, i + 1, next, ReadsOf(x, md, acc))
RECURSIVE AllReads(_, _, _)
AllReads(ns, i, acc) == IF i > Len(ns) THEN acc ELSE AllReads(ns, i + 1, ReadsOf(ns[i], "top", acc))

\* the characters that are looked at to see whether there is a script's first line, and
\* those of that line
LineIss(C, e, script, na) ==
  UNION {SrcIss(C, k, TRUE, FALSE, na) : k \in
    IF ~script THEN {} ELSE IF e > 1 THEN 1..(e - 1) ELSE IF C.s[1] = 35 THEN {1, 2} ELSE {1}}

(*------------------------------ the machine ----------------------------*)
VARIABLES todo,    \* reads still to be diagnosed
          iss,     \* issues so far
          trk      \* tracked so far: a function from kind to set of indices
dvars == <<rec, inp, m, step, beg, todo, iss, trk>>

NoTrk == [f \in DOMAIN NoTrack |-> {}]
DInit == Init /\ todo = <<>> /\ iss = {} /\ trk = NoTrk

RawComplete == m.ctl[1] = "loop" /\ m' = Loop(inp, m, m.ctl[2], "raw") /\ UNCHANGED <<inp, beg>>
Parse == /\ (Start \/ Top \/ Prefix \/ ClimbOn \/ Infix \/ Resume \/ RawComplete)
         /\ UNCHANGED <<todo, iss, trk>>
Collect == /\ m.ctl[1] = "end"
           /\ m' = Go(m, <<"diagnose">>)
           /\ todo' = AllReads(m.fin, 1, <<>>) \o <<<<m.pos, "top">>>>
           /\ iss' = LineIss(inp, beg, Rec.o[1] # "N", Rec.o[4] = "N")
           /\ UNCHANGED <<inp, beg, trk>>
Diagnose == /\ m.ctl[1] = "diagnose" /\ todo # <<>>
            /\ LET r == TLCEval(TokenD(inp, todo[1][1], todo[1][2], Rec.o[4] = "N")) IN
               /\ iss' = iss \cup r[1]
               /\ trk' = [f \in DOMAIN NoTrack |-> IF r[2][f] THEN trk[f] \cup {todo[1][1]} ELSE trk[f]]
            /\ todo' = Tail(todo)
            /\ UNCHANGED <<inp, m, beg>>
DNext == (Parse \/ Collect \/ Diagnose) /\ step' = step + 1 /\ UNCHANGED rec
DSpec == DInit /\ [][DNext]_dvars

(*--------------------------- conformance -------------------------------*)
Diagnosed == m.ctl[1] = "diagnose" /\ todo = <<>>
DView == <<rec, step>>

GotIssues(k) == {<<x[1], x[2], x[3], x[4], x[5]>> : x \in Range(Rec.c[k])}
WantIssues(p(_)) == TLCEval({<<x[1], x[2], SpanOf(x[3], x[4]), x[5], <<>>>> : x \in {y \in iss : p(y)}})
IsFatal(x) == x[2] = "Fatal"
NotFatal(x) == x[2] # "Fatal"

\* nothing is reported twice
Once == (Diagnosed /\ Ok) => Len(Rec.c[5]) = Cardinality(Range(Rec.c[5])) /\ Len(Rec.c[4]) = Cardinality(Range(Rec.c[4]))
\* the warnings are those of the tokens
Warnings == (Diagnosed /\ Ok) => GotIssues(5) = WantIssues(NotFatal)
\* so are the fatal ones, of which the first ten are kept
Fatals == (Diagnosed /\ Ok) =>
   LET w == WantIssues(IsFatal)
       g == GotIssues(4)
   IN IF Cardinality(w) <= 10 THEN g = w ELSE g \subseteq w /\ Cardinality(g) = 10
\* tracked places
Places(f) == {Point(i) : i \in trk[f]}
Tracked == (Diagnosed /\ Ok) =>
   /\ Range(Rec.c[6][1]) = Places("slc")
   /\ Range(Rec.c[6][2]) = Places("clc")
   /\ Range(Rec.c[6][3]) = Places("nl")
   /\ Range(Rec.c[6][4]) = Places("tab")
=============================================================================
