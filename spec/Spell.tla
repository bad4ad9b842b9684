------------------------------- MODULE Spell -------------------------------
(***************************************************************************)
(* How characters are spelled in ASCII: names, hexadecimal and octal       *)
(* escapes, escapes of a single letter.                                    *)
(***************************************************************************)
EXTENDS Source

NameOf == TLCEval([c \in {LongNames[n] : n \in LongNameSet} |-> CHOOSE n \in LongNameSet : LongNames[n] = c])
HasName == TLCEval(DOMAIN NameOf)

Utf8(p) ==
  IF p < 128 THEN <<p>>
  ELSE IF p < 2048 THEN <<192 + (p \div 64), 128 + (p % 64)>>
  ELSE IF p < 65536 THEN <<224 + (p \div 4096), 128 + ((p \div 64) % 64), 128 + (p % 64)>>
  ELSE <<240 + (p \div 262144), 128 + ((p \div 4096) % 64), 128 + ((p \div 64) % 64), 128 + (p % 64)>>

Actual(p) == IF p = -6 THEN 34 ELSE IF p = -7 THEN 92 ELSE p
DigitOf(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE InBase(_, _, _)
InBase(v, base, n) == IF n = 0 THEN <<>> ELSE Append(InBase(v \div base, base, n - 1), DigitOf(v % base))

Named(p) == <<92, 91>> \o NameOf[p] \o <<93>>
Hex(p, n) == <<92, CASE n = 2 -> 46 [] n = 4 -> 58 [] OTHER -> 124>> \o InBase(p, 16, n)
\* the letter after the backslash
Letter(p) == CASE p = -3 -> 32 [] p = -4 -> 60 [] p = -5 -> 62 [] p = -6 -> 34 [] p = -7 -> 92
               [] p = -8 -> 98 [] p = -9 -> 102 [] p = -10 -> 110 [] p = -11 -> 114 [] p = -12 -> 116
               [] OTHER -> CHOOSE q \in DOMAIN EscPunct : EscPunct[q] = p

\* a character as itself
Plain(p) == IF p = -13 THEN <<13, 10>> ELSE Utf8(Actual(p))
\* ... and in ASCII
Graphic(p) ==
  IF p \in {-6, -7} THEN <<92, Letter(p)>>
  ELSE IF p = -13 THEN <<92, 114, 92, 110>>
  ELSE IF p = 8 THEN <<92, 98>> ELSE IF p = 12 THEN <<92, 102>> ELSE IF p = 9 THEN <<92, 116>>
  ELSE IF p = 10 THEN <<92, 110>> ELSE IF p = 13 THEN <<92, 114>>
  ELSE IF p \in {EscPunct[q] : q \in DOMAIN EscPunct} THEN <<92, Letter(p)>>
  ELSE IF p = 27 THEN Named(27)
  ELSE IF In(p, 0, 31) \/ In(p, 127, 159) THEN Hex(p, 2)
  ELSE IF p < 127 THEN <<p>>
  ELSE IF p \in HasName THEN Named(p)
  ELSE Hex(p, IF p > 65535 THEN 6 ELSE IF p > 255 THEN 4 ELSE 2)

Escaped(p, e) ==
  CASE e = "single" -> <<92, Letter(p)>>
    [] e = "name"   -> Named(p)
    [] e = "octal"  -> <<92>> \o InBase(Actual(p), 8, 3)
    [] e = "hex2"   -> Hex(Actual(p), 2)
    [] e = "hex4"   -> Hex(Actual(p), 4)
    [] OTHER        -> Hex(Actual(p), 6)
=============================================================================
