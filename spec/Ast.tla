-------------------------------- MODULE Ast ---------------------------------
(***************************************************************************)
(* The passage from the concrete tree to the aggregate tree and, one       *)
(* expression at a time, to the abstract tree, on recorded runs: the       *)
(* concrete tree is the recorded one (the module Tree decides that one).   *)
(***************************************************************************)
EXTENDS Abstract

CONSTANT RecFile
Recs == TLCEval(ndJsonDeserialize(RecFile))

VARIABLES rec,    \* record being checked
          agg,    \* its aggregate tree: expressions still to be abstracted
          pos,    \* number of expressions abstracted
          abst,   \* the abstract form of expression pos
          ctl     \* "start", "run"
vars == <<rec, agg, pos, abst, ctl>>

Rec == Recs[rec]
Init == /\ rec \in DOMAIN Recs
        /\ agg = <<>> /\ pos = 0 /\ abst = <<>> /\ ctl = "start"

Env == [b |-> Rec.b,
        at |-> Rec.o[5] \notin {"i", "if", "io", "ifo"},
        flat |-> Rec.o[5] \in {"f", "if", "fo", "ifo"},
        old |-> Rec.o[5] \in {"o", "io", "fo", "ifo"}]

Aggregate == /\ ctl = "start" /\ Rec.c[1] = "ok"
             /\ ctl' = "run" /\ agg' = Aggs(Rec.c[2])
             /\ UNCHANGED <<pos, abst>>
AbstractOne == /\ ctl = "run" /\ pos < Len(agg)
               /\ pos' = pos + 1 /\ abst' = Abs(Env, agg[pos + 1])
               /\ UNCHANGED <<ctl, agg>>
Next == (Aggregate \/ AbstractOne) /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars
\* aggregation alone
AggSpec == Init /\ [][Aggregate /\ UNCHANGED rec]_vars

(*------------------------------ aggregation -----------------------------*)
AggOk == "g" \in DOMAIN Rec /\ Rec.g[1] = "ok"
AggRun == ctl = "run" => AggOk
AggEq  == (ctl = "run" /\ pos = 0 /\ AggOk) => Rec.g[2] = agg
RECURSIVE Clean(_)
Clean(n) == /\ ~IsTrivia(n)
            /\ n[1] = "Leaf" \/ \A i \in DOMAIN n[4] : Clean(n[4][i])
NoTrivia == (ctl = "run" /\ pos = 0 /\ AggOk) => \A i \in DOMAIN Rec.g[2] : Clean(Rec.g[2][i])

(*------------------------------ abstraction -----------------------------*)
AbsOk == Rec.a[1] = "ok"
AbsRun == ctl = "run" => AbsOk /\ Len(Rec.a[2]) = Len(agg)
Got1 == Rec.a[2][pos]
RECURSIVE Plain(_)
Plain(a) == <<a[1], a[2], IF a[1] \in {"Leaf", "Error"} THEN a[4] ELSE [i \in DOMAIN a[4] |-> Plain(a[4][i])]>>
Active == ctl = "run" /\ pos > 0 /\ AbsOk /\ pos <= Len(Rec.a[2])
\* the expression, without its data
Meaning == Active => Plain(Got1) = Plain(abst)
\* with data
Exact   == Active => Got1 = abst
\* the data of every node, in order
RECURSIVE Datas(_)
Datas(a) == <<a[3], IF a[1] \in {"Leaf", "Error"} THEN <<>> ELSE [i \in DOMAIN a[4] |-> Datas(a[4][i])]>>
Located == Active => Datas(Got1) = Datas(abst)

\* a known source lies within that of the closest enclosing node with a known one
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (Len(a) = 1 \/ a[2] <= b[2]))
Starts(s) == IF Len(s) = 4 THEN <<s[1], s[2]>> ELSE <<s[1]>>
Ends(s)   == IF Len(s) = 4 THEN <<s[3], s[4]>> ELSE <<s[2]>>
Within(s, t) == s = <<>> \/ t = <<>> \/ (Le(Starts(t), Starts(s)) /\ Le(Ends(s), Ends(t)))
RECURSIVE Inside(_, _)
Inside(a, t) ==
  LET s == a[3][1]
      u == IF s = <<>> THEN t ELSE s
  IN /\ Within(s, t)
     /\ \A i \in DOMAIN a[3][2] : Within(a[3][2][i][3], u)
     /\ a[1] \in {"Leaf", "Error"} \/ \A i \in DOMAIN a[4] : Inside(a[4][i], u)
Placed == Active => Inside(Got1, agg[pos][3]) /\ Got1[3][1] # <<>>

View == <<rec, ctl, pos>>
=============================================================================
