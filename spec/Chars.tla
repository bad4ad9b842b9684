------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* The layers of reading, each as a stream: tokens, Wolfram characters and  *)
(* source characters.  The machine of Tokens runs first; then the text is   *)
(* read again, one Wolfram character per step, and again, one source        *)
(* character per step.  A character knows how it was spelled, and printing  *)
(* it gives that spelling.                                                  *)
(***************************************************************************)
EXTENDS Tokens, Spell

IsText == "it" \in DOMAIN Rec          \* the input is valid UTF-8

(*------------------------------ spelling --------------------------------*)
RawNames == TLCEval(Range(Tables.raw))

\* how the character at index j is spelled
Spelled(j) ==
  LET s == inp.s
      q == At(s, j + 1)
  IN
  IF s[j] # 92 \/ inp.w[j] = <<92, j + 1>> THEN "none"
  ELSE IF q = 91 THEN IF SubSeq(s, j + 2, inp.w[j][2] - 2) \in RawNames THEN "raw" ELSE "name"
  ELSE IF q = 58 THEN "hex4"
  ELSE IF q = 46 THEN "hex2"
  ELSE IF q = 124 THEN "hex6"
  ELSE IF IsOctal(q) THEN "octal"
  ELSE "single"

\* <<point, spelling, printed, printed in ASCII>>
NewlineOf(p) == CASE p = -17 -> 10 [] p = -18 -> 13 [] OTHER -> -13
Shown(p, e) == IF e \in {"none", "raw"} THEN <<p, e, Plain(p), Graphic(p)>>
               ELSE IF IsLC(p) THEN <<p, e, <<92>> \o Plain(NewlineOf(p)), <<92>> \o Graphic(NewlineOf(p))>>
               ELSE <<p, e, Escaped(p, e), Escaped(p, e)>>

(*------------------------------- machine --------------------------------*)
ToChars == /\ ph = "end" /\ ph' = "wl" /\ pos' = 1 /\ nt' = 0
           /\ UNCHANGED <<rec, inp, last>>
ReadChar == /\ ph = "wl"
            /\ IF inp.s[pos] = Eof THEN ph' = "src" /\ pos' = 1 /\ nt' = 0 /\ UNCHANGED last
               ELSE /\ last' = <<Spelled(pos), pos, inp.w[pos][2]>>
                    /\ pos' = inp.w[pos][2] /\ nt' = nt + 1 /\ UNCHANGED ph
            /\ UNCHANGED <<rec, inp>>
ReadSource == /\ ph = "src"
              /\ IF inp.s[pos] = Eof THEN ph' = "done" /\ UNCHANGED <<pos, nt, last>>
                 ELSE /\ last' = <<"none", pos, pos + 1>>
                      /\ pos' = pos + 1 /\ nt' = nt + 1 /\ UNCHANGED ph
              /\ UNCHANGED <<rec, inp>>
CNext == Next \/ ToChars \/ ReadChar \/ ReadSource
CSpec == Init /\ [][CNext]_vars

(*--------------------------- conformance -------------------------------*)
Same(got, p) == IF IsUnsafe(p) THEN got[1] = p ELSE got = Shown(p, last[1])
IterTokens == IsText =>
   /\ Rec.it[1] = "ok"
   /\ (ph \in {"lex", "end"} => nt <= Len(Rec.it[2]))
   /\ (ph = "end" => nt = Len(Rec.it[2]))
   /\ (ph \in {"lex", "end"} /\ nt > 0) =>
        Rec.it[2][nt] = <<"Leaf", last[1], SpanOf(Rec.o[2], last[2], last[3]), TextOf(last[2], last[3])>>
IterChars == IsText =>
   /\ Rec.iw[1] = "ok"
   /\ (ph = "wl" => nt <= Len(Rec.iw[2]))
   /\ (ph = "wl" /\ inp.s[pos] = Eof => nt = Len(Rec.iw[2]))
   /\ (ph = "wl" /\ nt > 0) => Same(Rec.iw[2][nt], inp.w[last[2]][1])
IterSource == IsText =>
   /\ Rec.is[1] = "ok"
   /\ (ph = "src" => nt <= Len(Rec.is[2]))
   /\ (ph = "done" => nt = Len(Rec.is[2]))
   /\ (ph = "src" /\ nt > 0) => Same(Rec.is[2][nt], inp.s[last[2]])
\* printing the source characters of a text gives the text
WholeText == (IsText /\ ph = "done" /\ \A i \in 1..inp.n : inp.flag[i] = "") =>
   LET cat[i \in 0..Len(Rec.is[2])] == IF i = 0 THEN <<>> ELSE cat[i-1] \o Rec.is[2][i][3] IN
   cat[Len(Rec.is[2])] = Rec.b
=============================================================================
