------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* The character level of the language: how a byte string is cut into      *)
(* source characters (UTF-8, CRLF, malformed sequences), where each source *)
(* character lies (line, column, character index), and how source          *)
(* characters are combined into Wolfram Language characters (escapes, long *)
(* names, line continuations).                                             *)
(*                                                                         *)
(* Code points are integers; the special points are negative:              *)
(*    -1 end of input        -3 linear syntax space                        *)
(*    -4.. -12 string meta   \< \> \" \\ \b \f \n \r \t                    *)
(*    -13 CR LF              -14, -15, -16 malformed, of 1, 2, 3 bytes     *)
(*    -17, -18, -19 line continuation: \ then LF, CR, CR LF                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Tables == TLCEval(JsonDeserialize("tables.json"))

Range(s) == {s[i] : i \in DOMAIN s}
FunOf(s) == TLCEval([k \in {s[i][1] : i \in DOMAIN s} |->
               s[CHOOSE i \in DOMAIN s : s[i][1] = k][2]])

Eof == -1

(*------------------------------- bytes ---------------------------------*)

ByteAt(b, i) == IF i <= Len(b) THEN b[i] ELSE -1
Cont(x) == x >= 128 /\ x <= 191
In(x, lo, hi) == x >= lo /\ x <= hi

\* The source character that starts at byte i: <<point, number of bytes, flag>>.
\* flag: "" | "IncompleteUTF8Sequence" | "StraySurrogate" | "BOM"
Inc(n) == <<(-13) - n, n, "IncompleteUTF8Sequence">>

CharAt(b, i) ==
  LET x == b[i] IN
  IF x = 13 THEN IF ByteAt(b, i+1) = 10 THEN <<-13, 2, "">> ELSE <<13, 1, "">>
  ELSE IF x < 128 THEN <<x, 1, "">>
  ELSE LET x2 == ByteAt(b, i+1)
           x3 == ByteAt(b, i+2)
           x4 == ByteAt(b, i+3)
       IN
  IF In(x, 194, 223) THEN
     IF Cont(x2) THEN <<(x - 192) * 64 + (x2 - 128), 2, "">> ELSE Inc(1)
  ELSE IF In(x, 224, 239) THEN
     IF ~(IF x = 224 THEN In(x2, 160, 191) ELSE Cont(x2)) THEN Inc(1)
     ELSE IF ~Cont(x3) THEN Inc(2)
     ELSE LET p == (x - 224) * 4096 + (x2 - 128) * 64 + (x3 - 128) IN
          IF In(p, 55296, 57343) THEN <<-16, 3, "StraySurrogate">>
          ELSE IF p = 65279 THEN <<-16, 3, "BOM">>
          ELSE <<p, 3, "">>
  ELSE IF In(x, 240, 244) THEN
     IF ~(CASE x = 240 -> In(x2, 144, 191)
            [] x = 244 -> In(x2, 128, 143)
            [] OTHER   -> Cont(x2)) THEN Inc(1)
     ELSE IF ~Cont(x3) THEN Inc(2)
     ELSE IF ~Cont(x4) THEN Inc(3)
     ELSE <<(x - 240) * 262144 + (x2 - 128) * 4096 + (x3 - 128) * 64 + (x4 - 128), 4, "">>
  ELSE Inc(1)

(*----------------------------- positions -------------------------------*)
\* A location is <<line, column, index>>.
Advance(loc, point, tab) ==
  IF point \in {10, 13}  THEN <<loc[1] + 1, 1, loc[3] + 1>>
  ELSE IF point = -13    THEN <<loc[1] + 1, 1, loc[3] + 2>>
  ELSE IF point = 9      THEN <<loc[1], tab * ((loc[2] - 1) \div tab) + 1 + tab, loc[3] + 1>>
  ELSE <<loc[1], loc[2] + 1, loc[3] + 1>>

\* All source characters of b: sequence of <<point, byte offset, flag, loc>>,
\* with the end of input as the last entry.
RECURSIVE DecodeFrom(_, _, _, _, _)
DecodeFrom(b, i, loc, tab, acc) ==
  IF i > Len(b) THEN Append(acc, <<Eof, Len(b), "", loc>>)
  ELSE LET ch == CharAt(b, i) IN
       DecodeFrom(b, i + ch[2], Advance(loc, ch[1], tab), tab,
                  Append(acc, <<ch[1], i - 1, ch[3], loc>>))

(*------------------------------ characters -----------------------------*)
IsDigit(p)  == p >= 48 /\ p <= 57
IsUpper(p)  == p >= 65 /\ p <= 90
IsLower(p)  == p >= 97 /\ p <= 122
IsAlnum(p)  == IsDigit(p) \/ IsUpper(p) \/ IsLower(p)
IsHex(p)    == IsDigit(p) \/ In(p, 65, 70) \/ In(p, 97, 102)
IsOctal(p)  == p >= 48 /\ p <= 55
DigitVal(p) == IF IsDigit(p) THEN p - 48 ELSE IF IsUpper(p) THEN p - 55 ELSE p - 87
IsBlank(p)  == p = 32 \/ p = 9 \/ p = 11 \/ p = 12
IsLC(p)     == p <= -17 /\ p >= -19
IsUnsafe(p) == p <= -14 /\ p >= -16
IsMeta(p)   == p <= -4 /\ p >= -12

MBSpace   == TLCEval(Range(Tables.ws) \cup {62370})
MBNewline == TLCEval(Range(Tables.nl))
MBUninterpretable == TLCEval(Range(Tables.unint))
OpKind  == FunOf(Tables.ops)
MBPunct == TLCEval(DOMAIN OpKind)
LinearKinds == TLCEval([p \in 63424..63437 |->     \* f7c0 .. f7cd
  CASE p = 63424 -> "LinearSyntax_CloseParen" [] p = 63425 -> "LinearSyntax_Bang"
    [] p = 63426 -> "LinearSyntax_At"      [] p = 63429 -> "LinearSyntax_Percent"
    [] p = 63430 -> "LinearSyntax_Caret"   [] p = 63431 -> "LinearSyntax_Amp"
    [] p = 63432 -> "LinearSyntax_Star"    [] p = 63433 -> "LinearSyntaxBlob"
    [] p = 63434 -> "LinearSyntax_Under"   [] p = 63435 -> "LinearSyntax_Plus"
    [] p = 63436 -> "LinearSyntax_Slash"   [] p = 63437 -> "LinearSyntax_BackTick"
    [] OTHER -> ""])
IsLinear(p) == p = -3 \/ (In(p, 63424, 63437) /\ LinearKinds[p] # "")

IsLetterlike(p) ==
  \/ IsUpper(p) \/ IsLower(p) \/ p = 36
  \/ (In(p, 0, 31) /\ p \notin {7, 9, 10, 11, 12, 13})
  \/ (p >= 128 /\ p \notin MBPunct /\ ~IsLinear(p) /\ p \notin MBSpace
        /\ p \notin MBNewline /\ p \notin MBUninterpretable)

(*------------------------------- escapes -------------------------------*)
LongNames == FunOf(Tables.long)
LongNameSet == TLCEval(DOMAIN LongNames)
EscPunct == TLCEval([p \in {33, 37, 38, 40, 41, 42, 43, 47, 64, 94, 95, 96} |->
   CASE p = 33 -> 63425 [] p = 37 -> 63429 [] p = 38 -> 63431 [] p = 40 -> 63433
     [] p = 41 -> 63424 [] p = 42 -> 63432 [] p = 43 -> 63435 [] p = 47 -> 63436
     [] p = 64 -> 63426 [] p = 94 -> 63430 [] p = 95 -> 63434 [] p = 96 -> 63437])

\* s: sequence of points, the last one Eof.
At(s, i) == IF i <= Len(s) THEN s[i] ELSE Eof

RECURSIVE RunEnd(_, _)       \* first index >= i that is not alphanumeric
RunEnd(s, i) == IF IsAlnum(At(s, i)) THEN RunEnd(s, i + 1) ELSE i

RECURSIVE Value(_, _, _, _)
Value(s, i, j, base) == IF j < i THEN 0 ELSE Value(s, i, j - 1, base) * base + DigitVal(s[j])

Numeric(p) == IF p = 34 THEN -6 ELSE IF p = 92 THEN -7 ELSE p

\* The Wolfram character at index i: <<point, next index>>, not skipping line
\* continuations.  A backslash that starts no escape is the point 92.
RawWL(s, i) ==
  LET p == s[i]
      plain == <<p, i + 1>>
      HexEsc(from, n) ==
         IF \A k \in 0..(n-1) : IsHex(At(s, from + k))
         THEN LET v == Value(s, from, from + n - 1, 16) IN
              IF In(v, 55296, 57343) \/ v > 1114111 THEN plain
              ELSE <<Numeric(v), from + n>>
         ELSE plain
  IN
  IF p = Eof THEN <<Eof, i>>
  ELSE IF p # 92 THEN plain
  ELSE LET q == At(s, i + 1) IN
  CASE q = 34 -> <<-6, i + 2>>
    [] q = 92 -> <<-7, i + 2>>
    [] q = 60 -> <<-4, i + 2>>
    [] q = 62 -> <<-5, i + 2>>
    [] q = 98 -> <<-8, i + 2>>
    [] q = 102 -> <<-9, i + 2>>
    [] q = 110 -> <<-10, i + 2>>
    [] q = 114 -> <<-11, i + 2>>
    [] q = 116 -> <<-12, i + 2>>
    [] q = 10 -> <<-17, i + 2>>
    [] q = 13 -> <<-18, i + 2>>
    [] q = -13 -> <<-19, i + 2>>
    [] q = 32 -> <<-3, i + 2>>
    [] q = 91 -> LET e == RunEnd(s, i + 2) IN
                 IF IsUpper(At(s, i + 2)) /\ At(s, e) = 93
                 THEN LET n == SubSeq(s, i + 2, e - 1) IN
                      IF n \in LongNameSet THEN <<LongNames[n], e + 1>> ELSE plain
                 ELSE plain
    [] q = 58 -> HexEsc(i + 2, 4)
    [] q = 46 -> HexEsc(i + 2, 2)
    [] q = 124 -> HexEsc(i + 2, 6)
    [] IsOctal(q) -> IF IsOctal(At(s, i + 2)) /\ IsOctal(At(s, i + 3))
                     THEN <<Numeric(Value(s, i + 1, i + 3, 8)), i + 4>>
                     ELSE plain
    [] q \in DOMAIN EscPunct -> <<EscPunct[q], i + 2>>
    [] OTHER -> plain

\* The index of the character that is read when the reader stands at i: line
\* continuations, and the blanks that follow each, are skipped.
RECURSIVE SkipBlank(_, _), SkipLC(_, _)
SkipBlank(w, i) == IF IsBlank(w[i][1]) THEN SkipBlank(w, w[i][2]) ELSE i
SkipLC(w, i)    == IF IsLC(w[i][1]) THEN SkipLC(w, SkipBlank(w, w[i][2])) ELSE i

(***************************************************************************)
(* Everything the lexer needs to know of an input, computed once:          *)
(*   n       index of the end of input (indices are 1..n)   b   the bytes  *)
(*   s       source points            off   byte offset of each index      *)
(*   loc     location of each index   flag  encoding flag of each index    *)
(*   w       raw Wolfram character at each index                           *)
(*   pt, nx  Wolfram character read at each index and the index after it   *)
(***************************************************************************)
Load(b, tab) ==
  LET d == TLCEval(DecodeFrom(b, 1, <<1, 1, 1>>, tab, <<>>))
      n == Len(d)
      s == TLCEval([i \in 1..n |-> d[i][1]])
      w == TLCEval([i \in 1..n |-> RawWL(s, i)])
      k == TLCEval([i \in 1..n |-> SkipLC(w, i)])
  IN [n |-> n, s |-> s, b |-> b,
      off  |-> [i \in 1..n |-> d[i][2]],
      flag |-> [i \in 1..n |-> d[i][3]],
      loc  |-> [i \in 1..n |-> d[i][4]],
      w    |-> w,
      pt   |-> [i \in 1..n |-> w[k[i]][1]],
      nx   |-> [i \in 1..n |-> w[k[i]][2]]]

EmptyInput == Load(<<>>, 4)

=============================================================================
