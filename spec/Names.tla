------------------------------- MODULE Names --------------------------------
(* One conversion of a symbol into each class of names, and back.           *)
EXTENDS Symbols
CONSTANT RecFile
Recs == TLCEval(ndJsonDeserialize(RecFile))
VARIABLES rec, done
Init == rec \in DOMAIN Recs /\ done = 0
Answer == Recs[rec].n
\* ask one class after the other
IsSymbol == Answer # <<"no symbol">>
Next == IsSymbol /\ done < Len(Answer) /\ done' = done + 1 /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, done>>

Asked == Recs[rec].b
Converts == (done > 0 /\ Answer # <<"panic">>) =>
  LET a == Answer[done]
      want == Names(a[1], Asked)
  IN IF want = {} THEN a[2] = "" ELSE a[2] \in want /\ a[3] = Asked
Converted == IsSymbol => Answer # <<"panic">> /\ {Answer[i][1] : i \in DOMAIN Answer} = Classes
=============================================================================
