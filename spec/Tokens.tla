------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* The token stream as a state machine: Start picks a recorded run of the  *)
(* implementation and loads its input, ReadToken reads one token, Finish   *)
(* compares what is left.                                                  *)
(***************************************************************************)
EXTENDS Recover

CONSTANT RecFile
Recs == TLCEval(ndJsonDeserialize(RecFile))

VARIABLES rec,      \* record being checked
          inp,      \* its loaded input
          pos,    \* index the lexer stands at
          nt,     \* number of tokens read so far
          last,   \* last token <<kind, from, to>>
          ph      \* "skip" (first line), "lex", "end"
vars == <<rec, inp, pos, nt, last, ph>>

Rec == Recs[rec]
Flb == Rec.o[1]

SpanOf(conv, i, j) ==
  IF conv = "L" THEN <<inp.loc[i][1], inp.loc[i][2], inp.loc[j][1], inp.loc[j][2]>>
  ELSE <<inp.loc[i][3], inp.loc[j][3]>>
TextOf(i, j) == IF i = j THEN <<0, 0>> ELSE <<inp.off[i], inp.off[j] - inp.off[i]>>

Init == /\ rec \in DOMAIN Recs
        /\ inp = EmptyInput
        /\ pos = 1 /\ nt = 0 /\ last = <<"", 1, 1>>
        /\ ph = "start"

Start == /\ ph = "start"
         /\ inp' = Load(Rec.b, Rec.o[3])
         /\ ph' = IF Flb = "N" THEN "lex" ELSE "hash"
         /\ UNCHANGED <<rec, pos, nt, last>>

\* a script's first line: if it starts with #! it is skipped, character by character
LineEnds == {10, 13, -13}
SkipHash == /\ ph = "hash"
            /\ IF inp.s[1] = 35 /\ inp.s[2] = 33 THEN pos' = 3 /\ ph' = "line"
               ELSE pos' = pos /\ ph' = "lex"
            /\ UNCHANGED <<rec, inp, nt, last>>
SkipLine == /\ ph = "line"
            /\ IF inp.s[pos] = Eof THEN pos' = pos /\ ph' = "lex"
               ELSE pos' = pos + 1 /\ ph' = IF inp.s[pos] \in LineEnds THEN "lex" ELSE "line"
            /\ UNCHANGED <<rec, inp, nt, last>>

ReadToken == /\ ph = "lex"
             /\ LET t == Lex(inp, pos, "top") IN
                IF t[1] = "EndOfFile" THEN ph' = "end" /\ UNCHANGED <<pos, nt, last>>
                ELSE /\ last' = <<t[1], pos, t[2]>>
                     /\ pos' = t[2] /\ nt' = nt + 1 /\ UNCHANGED ph
             /\ UNCHANGED <<rec, inp>>

Next == Start \/ SkipHash \/ SkipLine \/ ReadToken
Spec == Init /\ [][Next]_vars

(*--------------------------- conformance -------------------------------*)
Ok  == Rec.t[1] = "ok"
Tok == Rec.t[2][nt]
Bad == \E i \in 1..(inp.n - 1) : inp.flag[i] # ""

\* every step of the lexer makes progress
Progress == nt > 0 => last[2] < last[3]
\* the call returns tokens, or the encoding error exactly for badly encoded input
Outcome  == ph = "end" => IF Bad THEN Rec.t[1] = "err" ELSE Ok
\* there are as many tokens as the specification reads
Count    == Ok => nt <= Len(Rec.t[2]) /\ (ph = "end" => nt = Len(Rec.t[2]))
Kind     == (nt > 0 /\ Ok) => Tok[2] = last[1]
EndOf    == IF last[1] \in CutKinds THEN CutAt(inp, last[2], Rec.o[2]) ELSE last[3]
Text     == (nt > 0 /\ Ok) => Tok[4] = TextOf(last[2], EndOf)
Span     == (nt > 0 /\ Ok) => Tok[3] = SpanOf(Rec.o[2], last[2], EndOf)

\* the safe string is the input itself, or the encoding error
LastFlag == LET bad == {i \in 1..(inp.n - 1) : inp.flag[i] # ""} IN
            inp.flag[CHOOSE i \in bad : \A j \in bad : j <= i]
Safe == (ph = "end" /\ "s" \in DOMAIN Rec) =>
   IF Bad THEN Rec.s = <<"err", LastFlag>> /\ Rec.t = <<"err", LastFlag>>
   ELSE Rec.s = <<"ok", Rec.b>>

\* The texts of the recorded tokens are consecutive pieces of the input (on the
\* recorded output alone, without the lexer of this specification).
Trailing(i) == inp.pt[i] = Eof          \* only line continuations and blanks follow
Partition == (Ok /\ ph = "end") =>
   LET ts == Rec.t[2] IN
   /\ \A i \in DOMAIN ts : ts[i][4][2] > 0
   /\ \A i \in 2..Len(ts) : ts[i][4][1] = ts[i-1][4][1] + ts[i-1][4][2]
   /\ \/ ts = <<>>
      \/ ts[Len(ts)][2] \in CutKinds
      \/ Trailing(CHOOSE i \in 1..inp.n : inp.off[i] = ts[Len(ts)][4][1] + ts[Len(ts)][4][2])

View == <<rec, ph, pos, nt>>
=============================================================================
