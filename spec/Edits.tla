------------------------------- MODULE Edits --------------------------------
(***************************************************************************)
(* The edits that are suggested with an issue.  The input is parsed and    *)
(* diagnosed by the machine of module Diag.  Then edits are taken, each    *)
(* one by itself: the text is changed and read again.                      *)
(***************************************************************************)
EXTENDS Diag

(*------------------------------ near names -----------------------------*)
RECURSIVE Within(_, _, _, _, _)   \* a from i and b from j are at most d edits apart
Within(a, b, i, j, d) ==
  IF i > Len(a) THEN Len(b) - j + 1 <= d
  ELSE IF j > Len(b) THEN Len(a) - i + 1 <= d
  ELSE IF a[i] = b[j] THEN Within(a, b, i + 1, j + 1, d)
  ELSE d > 0 /\ (Within(a, b, i + 1, j + 1, d - 1) \/ Within(a, b, i + 1, j, d - 1) \/ Within(a, b, i, j + 1, d - 1))
Near(n, d) == TLCEval({x \in LongNameSet : In(Len(x) - Len(n), -d, d) /\ Within(n, x, 1, 1, d)})
Nearest(n) == LET one == Near(n, 1) IN IF one # {} THEN one ELSE Near(n, 2)

\* what may be offered for an edit of the specification
RenameTo(e) == TLCEval(LET ns == Nearest(e[4]) IN
  IF ns = {} THEN {<<>>} ELSE {<<ReplaceText(e[2], e[3], e[5] \o n \o <<93>>)>> : n \in ns})
Offers(edits) ==
  IF Len(edits) = 1 /\ edits[1][1] = "Rename" THEN RenameTo(edits[1]) ELSE {edits}
Placed(edits) == [k \in 1..Len(edits) |-> <<edits[k][1], SpanOf(edits[k][2], edits[k][3]), edits[k][4]>>]

IssueOf(x) == <<x[1], x[2], SpanOf(x[3], x[4]), x[5]>>
Brief(g) == <<g[1], g[2], g[3], g[4]>>
Reported == Range(Rec.c[4]) \cup Range(Rec.c[5])

(*------------------------------ the machine ----------------------------*)
VARIABLES took,    \* the issue and the edit that was taken, if any
          was      \* the tree before that, without trivia and places
evars == <<rec, inp, m, step, beg, todo, iss, trk, took, was>>

RECURSIVE Points(_, _, _, _)      \* the characters of a piece of text
Points(C, i, j, acc) == IF i >= j THEN acc ELSE Points(C, C.w[i][2], j, Append(acc, C.w[i][1]))
RECURSIVE Meaning(_, _)
Meaning(C, n) ==
  IF n[1] = "Leaf" THEN <<"Leaf", n[2], Points(C, n[3], n[4], <<>>)>>
  ELSE LET s == SelectSeq(n[3], NotTrivia) IN <<n[1], n[2], TLCEval([k \in DOMAIN s |-> Meaning(C, s[k])])>>
Meanings(C, ns) == LET s == SelectSeq(ns, NotTrivia) IN TLCEval([k \in DOMAIN s |-> Meaning(C, s[k])])

RECURSIVE Slashes(_)       \* number of backslashes up to i
Slashes(i) == IF i = 0 \/ inp.s[i] # 92 THEN 0 ELSE 1 + Slashes(i - 1)
EInit == DInit /\ took = <<>> /\ was = <<>>
\* the text after the edit
Edited(e) == SubSeq(inp.b, 1, inp.off[e[2]]) \o e[4] \o SubSeq(inp.b, inp.off[e[3]] + 1, Len(inp.b))
AllEdits(x) == UNION {Range(o) : o \in Offers(x[6])}
Take == /\ Diagnosed /\ took = <<>>
        /\ \E x \in iss : \E e \in AllEdits(x) :
             /\ took' = <<x, e, inp.s[e[2]], Slashes(e[2] - 1) % 2 = 0>>
             /\ was' = Meanings(inp, m.fin)
             /\ Load1(TLCEval(Load(Edited(e), Rec.o[3])))
        /\ todo' = <<>> /\ iss' = {} /\ trk' = NoTrk
ENext == \/ (Parse \/ Collect \/ Diagnose) /\ step' = step + 1 /\ UNCHANGED <<rec, took, was>>
         \/ Take /\ step' = step + 1 /\ UNCHANGED rec
ESpec == EInit /\ [][ENext]_evars
EView == <<rec, step, took>>

(*--------------------------- conformance -------------------------------*)
\* Each issue comes with the edits that belong to it.
Offered == (Diagnosed /\ Ok /\ took = <<>>) =>
  LET want == TLCEval({<<IssueOf(x), x[6]>> : x \in iss}) IN
  \A g \in Reported : \E x \in {y \in want : y[1] = Brief(g)} :
      \E o \in Offers(x[2]) : g[7] = Placed(o)

(*---------------- what the edits are worth (of the specification) ------*)
Again == Diagnosed /\ took # <<>>
Is(cmd, t) == took[2][1] = cmd /\ took[2][4] = t
\* A space between tokens, or the sign of an implied multiplication, changes nothing.
RECURSIVE Explicit(_)
Explicit(n) == IF n[1] = "Leaf" THEN IF n[2] = "Fake_ImplicitTimes" THEN <<"Leaf", "Star", <<42>>>> ELSE n
               ELSE <<n[1], n[2], TLCEval([k \in DOMAIN n[3] |-> Explicit(n[3][k])])>>
Spaced == (Again /\ Is("Insert", <<32>>)) => Meanings(inp, m.fin) = was
Explicits(ns) == TLCEval([k \in DOMAIN ns |-> Explicit(ns[k])])
\* (a product is implied if a number follows; numbers with a fractional exponent are none)
Factor == LET i == took[2][2] + 1 IN P(inp, i) = 46 /\ Lex(inp, i, "top")[1] = "Real"
Multiplied == (Again /\ Is("Insert", <<42>>) /\ Factor) => Explicits(Meanings(inp, m.fin)) = Explicits(was)
\* A character outside ASCII may be written as its escape (not in the names of files,
\* nor after a backslash).
RECURSIVE NoFiles(_)
NoFiles(n) == IF n[1] = "Leaf" THEN n[2] # "Error_UnterminatedComment"
              ELSE n[2] \notin {"Get", "Put", "PutAppend"} /\ \A k \in DOMAIN n[3] : NoFiles(n[3][k])
Respelled == (Again /\ took[3] >= 128 /\ took[4] /\ (\A k \in DOMAIN was : NoFiles(was[k]))
               /\ took[2][1] = "Replace" /\ took[2][4] = Graphic(took[3])) =>
   Meanings(inp, m.fin) = was
\* What is said about a place is no longer true of it, unless the edit is a template to
\* fill in or another character that needs a remark.
Template(t) == Len(t) > 4 /\ \E k \in 1..(Len(t) - 2) : t[k] \in {88, 120} /\ t[k + 1] = t[k] /\ t[k + 2] = t[k]
Repairs == took[2][1] = "Insert" \/ (took[1][1] \in {"UnhandledCharacter", "UnrecognizedLongName"} /\ ~Template(took[2][4]))
Settled == (Again /\ Repairs) =>
   ~\E y \in iss : y[1] = took[1][1] /\ y[2] = took[1][2] /\ y[3] = took[1][3] /\ y[4] = took[1][4]
=============================================================================
