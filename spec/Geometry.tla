------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Spans as regions of the text.  The places of a text are put in reading   *)
(* order; a cursor walks over them from the first to the last.  A place is  *)
(* in a span from its start up to and including its end, and two spans      *)
(* overlap if the cursor comes to a place that is in both.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS RecFile, Size      \* lines, and columns of each line; for indices: Size * Size places
Recs == TLCEval(ndJsonDeserialize(RecFile))

VARIABLES rec,
          cursor,     \* places passed
          seen,       \* in which of the spans the cursor has been, and whether in both at once
          order       \* order in which starts and ends have been met
vars == <<rec, cursor, seen, order>>

R == Recs[rec]
Lines == R.o[2] = "L"
\* the place with number k
PlaceOf(k) == IF Lines THEN <<((k - 1) \div Size) + 1, ((k - 1) % Size) + 1>> ELSE <<k>>
Start(s) == IF Lines THEN <<R.b[(4 * s) - 3], R.b[(4 * s) - 2]>> ELSE <<R.b[(2 * s) - 1]>>
End(s)   == IF Lines THEN <<R.b[(4 * s) - 1], R.b[4 * s]>> ELSE <<R.b[2 * s]>>
Last == Size * Size

Init == /\ rec \in DOMAIN Recs /\ cursor = 0
        /\ seen = <<"before", "before", FALSE>>
        /\ order = [start |-> <<>>, end |-> <<>>, inside |-> {}]
\* where the cursor is relative to a span when it comes to place p
Enter(st, s, p) == IF st = "before" /\ p = Start(s) THEN "in" ELSE st
Leave(st, s, p) == IF st = "in" /\ p = End(s) THEN "after" ELSE st
Move == /\ cursor < Last
        /\ cursor' = cursor + 1
        /\ LET p == PlaceOf(cursor + 1)
               a == Enter(seen[1], 1, p)
               b == Enter(seen[2], 2, p)
           IN /\ seen' = <<Leave(a, 1, p), Leave(b, 2, p), seen[3] \/ (a = "in" /\ b = "in")>>
              /\ order' = [start |-> order.start \o (IF Start(1) = p THEN <<1>> ELSE <<>>) \o (IF Start(2) = p THEN <<2>> ELSE <<>>),
                           end   |-> order.end \o (IF End(1) = p THEN <<1>> ELSE <<>>) \o (IF End(2) = p THEN <<2>> ELSE <<>>),
                           inside |-> order.inside \cup (IF a = "in" THEN {p} ELSE {})]
        /\ UNCHANGED rec
Spec == Init /\ [][Move]_vars

(*----------------------------- conformance ------------------------------*)
Done == cursor = Last
Ok == R.x # <<"panic">>
Compare(p, q, seq) == IF p = q THEN "same" ELSE IF seq = <<1, 2>> THEN "before" ELSE "after"
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
LC(p) == Decimal(p[1]) \o <<58>> \o Decimal(p[2])
Shown == IF Lines THEN LC(Start(1)) \o <<45>> \o (IF Start(1)[1] = End(1)[1] THEN Decimal(End(1)[2]) ELSE LC(End(1)))
         ELSE Decimal(Start(1)[1]) \o <<46, 46>> \o Decimal(End(1)[1])
Answered == Ok
Complete == Done => seen[1] = "after" /\ seen[2] = "after"
Overlap == (Done /\ Ok) => R.x[2] = seen[3] /\ R.x[3] = seen[3]
Contain == (Done /\ Ok /\ Lines) => R.x[4] = <<Start(2) \in order.inside, End(2) \in order.inside>>
Ordered == (Done /\ Ok) => R.x[1] = <<Compare(Start(1), Start(2), order.start), Compare(End(1), End(2), order.end)>>
Spelled == (Done /\ Ok) => R.x[5] = Shown
View == <<rec, cursor>>
=============================================================================
