------------------------------ MODULE Program -------------------------------
(* The command line program: it reads its arguments, then either one file   *)
(* or one line of standard input after the other, makes the library call it *)
(* was told to make and prints the result.  What the calls return is taken  *)
(* from the library (the other modules say what that has to be); which call *)
(* is made, with which settings, on which text, and what is printed in      *)
(* which order is decided here.                                             *)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC
CONSTANT RecFile
Recs == TLCEval(ndJsonDeserialize(RecFile))
VARIABLES rec, i, mode, quiet, flat, file, left, shown, end
vars == <<rec, i, mode, quiet, flat, file, left, shown, end>>
R == Recs[rec]
Args == R.args

Modes == [a \in {"-tokenize", "-leaf", "-safestring", "--cst", "--ast"} |->
  CASE a = "-tokenize" -> "tokens" [] a = "-leaf" -> "leaf" [] a = "-safestring" -> "safe" [] a = "--cst" -> "cst" [] a = "--ast" -> "ast"]
Silent == {"-n", "-check", "-syntaxq", "-syntaxQ"}

Init == /\ rec \in DOMAIN Recs
        /\ i = 1 /\ mode = "expr" /\ quiet = FALSE /\ flat = FALSE /\ file = "" /\ left = <<>> /\ shown = "" /\ end = "args"

\* one argument; a later one overrides an earlier one
Argument ==
  /\ end = "args" /\ i <= Len(Args)
  /\ LET a == Args[i] IN
     \/ /\ a \in DOMAIN Modes
        /\ mode' = Modes[a] /\ i' = i + 1 /\ UNCHANGED <<quiet, flat, file, end>>
     \/ /\ a \in Silent
        /\ quiet' = TRUE /\ i' = i + 1 /\ UNCHANGED <<mode, flat, file, end>>
     \/ /\ a = "--flatten-times"
        /\ flat' = TRUE /\ i' = i + 1 /\ UNCHANGED <<mode, quiet, file, end>>
     \/ /\ a = "-file" /\ i < Len(Args)
        /\ file' = Args[i + 1] /\ i' = i + 2 /\ UNCHANGED <<mode, quiet, flat, end>>
     \* not an argument, or a file without its name
     \/ /\ a \notin DOMAIN Modes \cup Silent \cup {"--flatten-times"} /\ (a = "-file" => i = Len(Args))
        /\ end' = "fail" /\ UNCHANGED <<i, mode, quiet, flat, file>>
  /\ UNCHANGED <<rec, left, shown>>

Ready ==
  /\ end = "args" /\ i > Len(Args)
  /\ left' = R.body
  /\ end' = IF file = "" THEN "lines" ELSE IF file = "@" THEN "file" ELSE "fail"
  /\ UNCHANGED <<rec, i, mode, quiet, flat, file, shown>>

Call(b) == LET k == SelectInSeq(R.texts, LAMBDA t : t[1] = b /\ t[2] = flat /\ t[3] = mode) IN R.texts[k]
Printed(c) == IF quiet THEN "" ELSE c[5] \o "\n"

\* the whole file is one text
File ==
  /\ end = "file"
  /\ LET c == Call(left) IN
     IF c[4] THEN shown' = Printed(c) /\ end' = "ok" ELSE shown' = shown /\ end' = "fail"
  /\ UNCHANGED <<rec, i, mode, quiet, flat, file, left>>

\* white space at the end of a line, as its UTF-8 bytes
Spaces == {<<b>> : b \in 9..13 \cup {32}} \cup {<<194, 133>>, <<194, 160>>, <<225, 154, 128>>, <<226, 128, 168>>, <<226, 128, 169>>, <<226, 128, 175>>, <<226, 129, 159>>, <<227, 128, 128>>}
          \cup {<<226, 128, b>> : b \in 128..138}
RECURSIVE Trim(_)
Trim(b) == IF \E s \in Spaces : IsSuffix(s, b)
           THEN Trim(SubSeq(b, 1, Len(b) - Len(CHOOSE s \in Spaces : IsSuffix(s, b)))) ELSE b

Prompt == ">>> "
Line ==
  /\ end = "lines" /\ left # <<>>
  /\ LET k == SelectInSeq(left, LAMBDA x : x = 10)
         n == IF k = 0 THEN Len(left) ELSE k
         c == Call(Trim(SubSeq(left, 1, n)))
     IN /\ left' = SubSeq(left, n + 1, Len(left))
        /\ IF c[4] THEN shown' = shown \o Prompt \o Printed(c) /\ end' = end ELSE shown' = shown \o Prompt /\ end' = "fail"
  /\ UNCHANGED <<rec, i, mode, quiet, flat, file>>
\* nothing more comes
Close ==
  /\ end = "lines" /\ left = <<>>
  /\ shown' = shown \o Prompt /\ end' = "ok"
  /\ UNCHANGED <<rec, i, mode, quiet, flat, file, left>>

Next == Argument \/ Ready \/ File \/ Line \/ Close
Spec == Init /\ [][Next]_vars
View == <<rec, i, Len(left), end>>

Over == end \in {"ok", "fail"}
Ends == ~Over => ENABLED Next
Status == Over => R.end = end
Shown == Over => R.out = shown
=============================================================================
