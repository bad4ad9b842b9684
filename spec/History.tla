------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Recorded histories of calls.  The specification keeps what has been     *)
(* returned so far; a call may return anything for a question that has not *)
(* been asked before, and must return the same when it has, whatever       *)
(* happened in between, on whichever thread and through whichever entry    *)
(* point.  A question is a part of a result (tokens, concrete tree,        *)
(* abstract tree, issues ...) of an input under those options that matter  *)
(* for the part.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT RecFile
Recs == TLCEval(ndJsonDeserialize(RecFile))

VARIABLES rec,
          at,      \* events done
          busy,    \* calls under way
          memo,    \* answers so far: question -> answer
          last     \* the parts returned last, with their questions
vars == <<rec, at, busy, memo, last>>

H == Recs[rec].h
Script(o) == o[1] # "N"       \* the two script behaviours do the same
Place(o) == <<Script(o), o[2], o[3]>>

\* what a part of a result depends on
Question(part, o, in) ==
  CASE part = "safe" -> <<part, in>>
    [] part \in {"tokens", "cst", "agg", "single cst", "single ast"} -> <<part, in, Place(o)>>
    [] part \in {"issues", "leaf", "tag", "file"} -> <<part, in, Place(o), o[4]>>
    [] OTHER -> <<part, in, Place(o), o[5]>>

Init == rec \in DOMAIN Recs /\ at = 0 /\ busy = {} /\ memo = <<>> /\ last = <<>>

Answers(c, parts) == [i \in DOMAIN parts |-> <<Question(parts[i][1], c[3], H.in[c[4]]), parts[i][2]>>]
Keep(as) == [q \in DOMAIN memo \cup {as[i][1] : i \in DOMAIN as} |->
               IF q \in DOMAIN memo THEN memo[q] ELSE as[CHOOSE i \in DOMAIN as : as[i][1] = q][2]]
Returns(c, parts) == LET as == TLCEval(Answers(c, parts)) IN
                     last' = as /\ memo' = TLCEval(Keep(as))

Begin == /\ at < Len(H.ev) /\ H.ev[at + 1][1] = "B"
         /\ LET k == H.ev[at + 1][2] IN
            /\ \A j \in busy : H.cs[j][1] # H.cs[k][1]
            /\ busy' = busy \cup {k}
         /\ at' = at + 1
         /\ UNCHANGED <<rec, memo, last>>
End == /\ at < Len(H.ev) /\ H.ev[at + 1][1] = "E"
       /\ LET k == H.ev[at + 1][2] IN
          /\ k \in busy /\ busy' = busy \ {k}
          /\ Returns(H.cs[k], H.r[k])
       /\ at' = at + 1
       /\ UNCHANGED rec
\* finally every call is repeated in a thread of its own
Fresh == /\ at >= Len(H.ev) /\ at < Len(H.ev) + Len(H.cs)
         /\ LET k == at + 1 - Len(H.ev) IN Returns(H.cs[k], H.f[k])
         /\ at' = at + 1
         /\ UNCHANGED <<rec, busy>>
Next == Begin \/ End \/ Fresh
Spec == Init /\ [][Next]_vars

\* the history was carried out
Replayed == (at < Len(H.ev) + Len(H.cs)) => ENABLED Next
\* what was returned is what has been returned before
Same == \A i \in DOMAIN last : memo[last[i][1]] = last[i][2]
NoPanic == \A i \in DOMAIN last : last[i][1][1] # "panic"
View == <<rec, at>>
=============================================================================
