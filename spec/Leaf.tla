------------------------------- MODULE Leaf --------------------------------
(***************************************************************************)
(* Reading a text as a single leaf, in one of three modes: as the lexer     *)
(* reads it at top level, as a message tag or as a file name.  The machine  *)
(* loads a recorded run, skips the first line of a script and reads one     *)
(* leaf per mode.                                                           *)
(***************************************************************************)
EXTENDS Diag

Modes == <<"top", "tag", "file">>
Run(k) == CASE k = 1 -> Rec.mn [] k = 2 -> Rec.mt [] OTHER -> Rec.mf

LStart == /\ Start
          /\ todo' = Modes /\ iss' = {} /\ trk' = NoTrk
\* where the leaf is read
From == beg
LRead == /\ m.ctl[1] # "start" /\ todo # <<>>
         /\ LET t  == TLCEval(Lex(inp, From, todo[1]))
                d  == TLCEval(TokenD(inp, From, todo[1], Rec.o[4] = "N"))
            IN
            /\ m' = [ctl |-> <<"leaf", t, todo[1]>>]
            /\ iss' = d[1] \cup LineIss(inp, beg, Rec.o[1] # "N", Rec.o[4] = "N")
            /\ trk' = [f \in DOMAIN NoTrack |-> IF d[2][f] THEN {From} ELSE {}]
         /\ todo' = Tail(todo)
         /\ UNCHANGED <<inp, beg>>
LNext == (LStart \/ LRead) /\ step' = step + 1 /\ UNCHANGED rec
LSpec == DInit /\ [][LNext]_dvars

(*--------------------------- conformance -------------------------------*)
AtLeaf == m.ctl[1] = "leaf"
K == 3 - Len(todo)
G == Run(K)
Tk == m.ctl[2]
LOk == AtLeaf => G[1] = "ok" /\ Len(G[2]) = 1
\* nothing is cut off an unterminated leaf
LLeaf == AtLeaf => G[2][1] = <<"Leaf", Tk[1], SpanOf(From, Tk[2]), TextOf(From, Tk[2])>>
\* a leaf that cannot start here is empty
LEmpty == (AtLeaf /\ Tk[1] \in {"Error_ExpectedTag", "Error_ExpectedFile"}) => Tk[2] = From
LFlag == AtLeaf =>
   /\ (\E i \in 1..(Tk[2] - 1) : inp.flag[i] # "") => G[3] # ""
   /\ (\A i \in 1..inp.n : inp.flag[i] = "") => G[3] = ""
\* The leaf's own issues are reported, once.  (The lexer may have looked at the
\* characters that follow, so there may be others.)
LIssues == AtLeaf =>
   LET got(k) == {<<x[1], x[2], x[3], x[4], x[5]>> : x \in Range(G[k])}
       w == WantIssues(IsFatal)
   IN /\ WantIssues(NotFatal) \subseteq got(5) /\ Len(G[5]) = Cardinality(Range(G[5]))
      /\ IF Cardinality(w) <= 10 /\ Len(G[4]) < 10 THEN w \subseteq got(4) ELSE Cardinality(got(4)) = 10
LTracked == AtLeaf =>
   /\ Range(G[6][1]) = Places("slc") /\ Range(G[6][2]) = Places("clc")
   /\ Range(G[6][3]) = Places("nl") /\ Range(G[6][4]) = Places("tab")
=============================================================================
