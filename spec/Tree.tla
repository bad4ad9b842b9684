-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* The parser machine run on recorded inputs, one named action per kind of *)
(* step, and the comparison of the concrete tree it builds with the one    *)
(* the implementation returned.                                            *)
(***************************************************************************)
EXTENDS Parser

CONSTANT RecFile
Recs == TLCEval(ndJsonDeserialize(RecFile))

VARIABLES rec,      \* record being checked
          inp,      \* its loaded input
          m,        \* the machine
          step,     \* number of steps taken
          beg       \* index at which parsing starts
vars == <<rec, inp, m, step, beg>>

Rec  == Recs[rec]
Conv == Rec.o[2]

Init == /\ rec \in DOMAIN Recs
        /\ inp = EmptyInput
        /\ m = [ctl |-> <<"start">>]
        /\ step = 0
        /\ beg = 1

Load1(C) == LET s == IF Rec.o[1] = "N" THEN 1 ELSE ScriptStart(C) IN
            inp' = C /\ beg' = s /\ m' = Machine(s)

Start  == m.ctl[1] = "start"  /\ Load1(TLCEval(Load(Rec.b, Rec.o[3])))
Top    == m.ctl[1] = "top"    /\ m' = DoTop(inp, m) /\ UNCHANGED <<inp, beg>>
Prefix == m.ctl[1] = "prefix" /\ m' = DoPrefix(inp, m, m.ctl[2]) /\ UNCHANGED <<inp, beg>>
ClimbOn == m.ctl[1] = "climb" /\ m' = DoClimb(inp, m) /\ UNCHANGED <<inp, beg>>
Infix  == m.ctl[1] = "infix"  /\ m' = DoInfix(inp, m, m.ctl[2]) /\ UNCHANGED <<inp, beg>>
Resume == m.ctl[1] = "ret"    /\ m' = DoReturn(m) /\ UNCHANGED <<inp, beg>>
Complete == m.ctl[1] = "loop" /\ m' = Loop(inp, m, m.ctl[2], Conv) /\ UNCHANGED <<inp, beg>>

Next == /\ (Start \/ Top \/ Prefix \/ ClimbOn \/ Infix \/ Resume \/ Complete)
        /\ step' = step + 1
        /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars

Running == m.ctl[1] # "start"
Done    == m.ctl[1] = "end"

(*------------------ properties of the specification itself --------------*)
\* Every step keeps the pieces in order: what has been finished and what is on
\* the stack is the text from the beginning to the current position, until an
\* unterminated group has been cut.
WasCut == \E i \in DOMAIN m.ns : m.ns[i][1] = "GroupMissingCloser"
Consecutive(ls, a, z) ==
  IF ls = <<>> THEN a = z
  ELSE /\ ls[1][3] = a /\ ls[Len(ls)][4] = z
       /\ \A i \in 2..Len(ls) : ls[i][3] = ls[i-1][4]
InOrder == (Running /\ P(inp, m.pos) # Eof) => Consecutive(Leaves(m.fin \o m.ns), beg, m.pos)
\* contexts are nested and lie within the node stack
Nested == Running => /\ \A i \in DOMAIN m.cx : m.cx[i][2] >= 0 /\ m.cx[i][2] < Len(m.ns)
                     /\ \A i \in 2..Len(m.cx) : m.cx[i-1][2] <= m.cx[i][2]
\* between top level expressions nothing is pending
Quiet == (Running /\ m.ctl[1] \in {"top", "end"}) => m.ns = <<>> /\ m.cx = <<>> /\ m.gs = <<>> /\ m.st = <<>>
\* the machine stops: the number of steps is bounded by the size of the input
Bounded == step <= 40 * (inp.n + 1)

(*--------------------------- conformance -------------------------------*)
TextOf(i, j) == IF i = j THEN <<0, 0>> ELSE <<inp.off[i], inp.off[j] - inp.off[i]>>
SpanOf(i, j) ==
  IF Conv = "L" THEN <<inp.loc[i][1], inp.loc[i][2], inp.loc[j][1], inp.loc[j][2]>>
  ELSE <<inp.loc[i][3], inp.loc[j][3]>>
Hull(a, b) == IF Conv = "L" THEN <<a[1], a[2], b[3], b[4]>> ELSE <<a[1], b[2]>>
EndOf(l) == IF l[2] \in CutKinds /\ ValidUtf8(inp) THEN CutAt(inp, l[3], Conv) ELSE l[4]

\* the specification's node in the form in which the implementation's are recorded
RECURSIVE Full(_)
Full(n) ==
  IF n[1] = "Leaf" THEN LET e == EndOf(n) IN <<"Leaf", n[2], SpanOf(n[3], e), TextOf(n[3], e)>>
  ELSE LET k == TLCEval([i \in DOMAIN n[3] |-> Full(n[3][i])]) IN
       <<n[1], n[2], Hull(k[1][3], k[Len(k)][3]), k>>
Fulls(ns) == TLCEval([i \in DOMAIN ns |-> Full(ns[i])])

\* without positions
RECURSIVE Bare(_)
Bare(n) == IF n[1] = "Leaf" THEN <<"Leaf", n[2], n[4]>>
           ELSE <<n[1], n[2], TLCEval([i \in DOMAIN n[4] |-> Bare(n[4][i])])>>
Bares(ns) == TLCEval([i \in DOMAIN ns |-> Bare(ns[i])])

IsTrivia(n) == n[1] = "Leaf" /\ n[2] \in TriviaKinds
NotTrivia(n) == ~IsTrivia(n)
\* without trivia and positions
RECURSIVE Sig(_)
Sig(n) == IF n[1] = "Leaf" THEN <<"Leaf", n[2], n[4]>>
          ELSE LET s == SelectSeq(n[4], NotTrivia) IN
               <<n[1], n[2], TLCEval([i \in DOMAIN s |-> Sig(s[i])])>>
Sigs(ns) == LET s == SelectSeq(ns, NotTrivia) IN TLCEval([i \in DOMAIN s |-> Sig(s[i])])

RECURSIVE FlatOf(_, _, _)
FlatOf(ns, i, acc) ==
  IF i > Len(ns) THEN acc
  ELSE FlatOf(ns, i + 1, IF ns[i][1] = "Leaf" THEN Append(acc, ns[i]) ELSE FlatOf(ns[i][4], 1, acc))
Flat(ns) == TLCEval(FlatOf(ns, 1, <<>>))

Got  == Rec.c[2]
Want == Fulls(m.fin)
Ok   == Rec.c[1] = "ok"

Parsed == Done => Ok
TreeEq   == (Done /\ Ok) => Got = Want
Shape  == (Done /\ Ok) => Sigs(Got) = Sigs(Want)
Layout == (Done /\ Ok) => Bares(Got) = Bares(Want)
\* the leaves, in order
Texts(ns) == LET f == Flat(ns) IN TLCEval([i \in DOMAIN f |-> f[i][4]])
LeafTexts == (Done /\ Ok) => Texts(Got) = Texts(Want)
\* the leaves are consecutive pieces of the input (on the recorded tree alone)
HasText(l) == l[4][2] > 0
Ordered == (Done /\ Ok) =>
   LET f == TLCEval(SelectSeq(Flat(Got), HasText)) IN
   /\ f # <<>> => f[1][4][1] = inp.off[beg]
   /\ \A i \in 2..Len(f) : f[i][4][1] = f[i-1][4][1] + f[i-1][4][2]

\* every span is that of the text it covers (on the recorded tree alone)
IndexAt(o) == CHOOSE i \in 1..inp.n : inp.off[i] = o
StartSpan(s) == IF Conv = "L" THEN <<s[1], s[2]>> ELSE <<s[1]>>
EndSpan(s)   == IF Conv = "L" THEN <<s[3], s[4]>> ELSE <<s[2]>>
Point(i) == IF Conv = "L" THEN <<inp.loc[i][1], inp.loc[i][2]>> ELSE <<inp.loc[i][3]>>
LeafSpan(l) == l[4][2] > 0 => l[3] = SpanOf(IndexAt(l[4][1]), IndexAt(l[4][1] + l[4][2]))
RECURSIVE NodeSpan(_)
NodeSpan(n) == n[1] = "Leaf" \/
   /\ n[3] = Hull(n[4][1][3], n[4][Len(n[4])][3])
   /\ \A i \in DOMAIN n[4] : NodeSpan(n[4][i])
Spans == (Done /\ Ok) =>
   LET f == Flat(Got) IN
   /\ \A i \in DOMAIN f :
        /\ LeafSpan(f[i])
        /\ f[i][4][2] = 0 =>
             /\ StartSpan(f[i][3]) = EndSpan(f[i][3])
             /\ StartSpan(f[i][3]) = IF i = 1 THEN Point(beg) ELSE EndSpan(f[i-1][3])
   /\ \A i \in DOMAIN Got : NodeSpan(Got[i])

\* the encoding flag is set exactly if some character is badly encoded
Flagged == (Done /\ Ok) =>
   LET bad == {i \in 1..(inp.n - 1) : inp.flag[i] # ""} IN
   Rec.c[3] = IF bad = {} THEN "" ELSE inp.flag[CHOOSE i \in bad : \A j \in bad : j <= i]

\* every entry point has returned, with an error only if some character is badly encoded
Bad == \E i \in 1..(inp.n - 1) : inp.flag[i] # ""
Fine(f) == f \notin DOMAIN Rec \/ (Rec[f] # <<"panic">> /\ (Rec[f][1] = "err" => Bad))
\* known finding: there is no error that the tokens of a string could return, so
\* a byte order mark makes that call panic
KnownBom == \E i \in 1..(inp.n - 1) : inp.flag[i] = "BOM"
FineString == "ts" \in DOMAIN Rec => IF KnownBom THEN TRUE ELSE Rec.ts[1] = "ok" /\ Rec.ts = Rec.t
Returned == Done => FineString /\ \A f \in {"t", "c", "g", "a", "s", "mn", "mt", "mf"} : Fine(f)

\* the inserted tokens: which, after how much text, and where
Empties(ns) == LET f == Flat(ns) IN TLCEval([i \in DOMAIN f |-> IF f[i][4][2] = 0 THEN <<f[i][2], f[i][3]>> ELSE <<>>])
Inserted == (Done /\ Ok) => Empties(Got) = Empties(Want)

View == <<rec, step>>
=============================================================================
