------------------------------ MODULE Recover -------------------------------
(***************************************************************************)
(* Where an unterminated string, comment, linear syntax blob or group is   *)
(* cut: at the end of the last non-empty line before the first line that   *)
(* looks like a new statement.  What follows is not reported.              *)
(***************************************************************************)
EXTENDS Lexer

IsNL(p) == p \in {10, 13, -13}
CutKinds == {"Error_UnterminatedString", "Error_UnterminatedComment",
             "Error_UnterminatedLinearSyntaxBlob"}

\* all tokens of a loaded text: sequence of <<kind, from, to>>
RECURSIVE AllTokens(_, _, _)
AllTokens(C, i, acc) ==
  LET t == Lex(C, i, "top") IN
  IF t[1] = "EndOfFile" THEN acc ELSE AllTokens(C, t[2], Append(acc, <<t[1], i, t[2]>>))

TriviaKinds == {"Whitespace", "InternalNewline", "ToplevelNewline", "Comment"}

Directives == TLCEval(Range(Tables.directives))

Significant(x) == x[1] = "Comment" \/ x[1] \notin TriviaKinds \/ x[2] = 1

RECURSIVE TrimOpen(_, _, _), TrimSpace(_, _)
TrimOpen(C, i, e) == IF i + 1 < e /\ C.s[i] = 40 /\ C.s[i+1] = 42 THEN TrimOpen(C, i + 2, e) ELSE i
UnicodeSpace == TLCEval({9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202))
TrimSpace(C, i) == IF C.s[i] \in UnicodeSpace THEN TrimSpace(C, i + 1) ELSE i

\* b: the bytes of one line, without its newline
NewStatement(b) ==
  LET C == TLCEval(Load(b, 4))
      toks == TLCEval(SelectSeq(AllTokens(C, 1, <<>>), Significant))
      k(i) == IF i <= Len(toks) THEN toks[i][1] ELSE ""
      assigns == {"Equal", "ColonEqual"}
  IN
  IF \E i \in 1..C.n : C.flag[i] # "" THEN FALSE
  ELSE CASE k(1) = "Symbol" /\ k(2) = "OpenSquare" ->
              \/ SubSeq(C.s, toks[1][2], toks[1][3] - 1) \in Directives
              \/ \E i \in 3..Len(toks) : k(i) \in assigns
         [] k(1) \in {"Symbol", "CloseSquare"} /\ k(2) \in assigns -> TRUE
         [] k(1) = "Comment" ->
              C.s[TrimSpace(C, TrimOpen(C, toks[1][2], toks[1][3]))] = 58
         [] OTHER -> FALSE

RECURSIVE LineEnd(_, _), CutFrom(_, _, _)
LineEnd(C, j) == IF IsNL(C.s[j]) \/ C.s[j] = Eof THEN j ELSE LineEnd(C, j + 1)
\* j: start of a line; good: end of the last good line so far
CutFrom(C, j, good) ==
  IF C.s[j] = Eof THEN good
  ELSE LET e == LineEnd(C, j) IN
       IF NewStatement(SubSeq(C.b, C.off[j] + 1, C.off[e])) THEN good
       ELSE LET g == IF e > j THEN e ELSE good IN
            IF C.s[e] = Eof THEN g ELSE CutFrom(C, e + 1, g)

\* the index at which a token or group that starts at i and is not closed is cut
Cut(C, i) == LET e == LineEnd(C, i) IN IF C.s[e] = Eof THEN e ELSE CutFrom(C, e + 1, e)

\* the character index convention includes the newline of the last line
CutAt(C, i, conv) == LET e == Cut(C, i) IN
                     IF conv = "L" \/ C.s[e] = Eof THEN e ELSE e + 1

ValidUtf8(C) == \A i \in 1..C.n : C.flag[i] \in {"", "BOM"}
=============================================================================
