-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Walks over a syntax tree.  A walk meets every node once, a node before   *)
(* its children and the children from left to right; the bracketed group of *)
(* a call is not a node of its own, its children follow the head.  A walk   *)
(* that changes nodes goes on with the children of what it has put in place *)
(* of a node.                                                               *)
(*                                                                          *)
(* The machine keeps the nodes still to be met, one step per node, and      *)
(* leaves behind what the changed tree consists of.  The recorded walk must *)
(* be its behaviour.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT RecFile
Recs == TLCEval(ndJsonDeserialize(RecFile))

VARIABLES rec,
          tree,    \* which tree: concrete or aggregate
          mode,    \* which walk
          todo,    \* nodes still to be met, in order
          met      \* how many have been met
vars == <<rec, tree, mode, todo, met>>

\* <<tree, visited, visited mutably, changed, mapped nodes, mapped, visited>>
W == Recs[rec][tree]
Whole(md) == IF md = "again" THEN W[6] ELSE W[1]
Seen(md) == CASE md = "visit" -> W[2] [] md = "mutate" -> W[3] [] md = "map" -> W[5] [] OTHER -> W[7]
Changes(md) == md \in {"mutate", "map"}

(*------------------------------ the change ------------------------------*)
Change(n) ==
  CASE n[1] = "Leaf" /\ n[2] = "Integer" -> <<"Leaf", "Symbol", n[3], n[4]>>
    [] n[1] = "Group" /\ Len(n[4]) = 3   -> <<"Box", "RowBox", n[3], n[4]>>
    [] n[1] = "Postfix"                  -> n[4][1]
    [] OTHER -> n

\* the nodes below a node
Body(n) == n[4][Len(n[4])]
HeadOf(n) == SubSeq(n[4], 1, Len(n[4]) - 1)
Below(n) == CASE n[1] \in {"Leaf", "Code"} -> <<>>
              [] n[1] = "Call" -> HeadOf(n) \o Body(n)[4]
              [] OTHER -> n[4]

Conv == Recs[rec].o[2]
Hull(ns) == LET a == ns[1][3]
                b == ns[Len(ns)][3] IN
            IF Conv = "L" THEN <<a[1], a[2], b[3], b[4]>> ELSE <<a[1], b[2]>>
With(n, ns) == <<n[1], n[2], IF n[1] = "Box" THEN n[3] ELSE Hull(ns), ns>>
\* the tree after the change
RECURSIVE Changed(_)
Changed(n) ==
  LET c == TLCEval(Change(n)) IN
  IF c[1] \in {"Leaf", "Code"} THEN c
  ELSE IF c[1] = "Call" THEN
    LET h == HeadOf(c)
        g == Body(c)
        hh == TLCEval([i \in DOMAIN h |-> Changed(h[i])])
        gg == TLCEval([i \in DOMAIN g[4] |-> Changed(g[4][i])])
    IN With(c, Append(hh, With(g, gg)))
  ELSE With(c, TLCEval([i \in DOMAIN c[4] |-> Changed(c[4][i])]))
ChangedAll(ns) == [i \in DOMAIN ns |-> Changed(ns[i])]

(*------------------------------- machine --------------------------------*)
Init == /\ rec \in DOMAIN Recs
        /\ tree \in {"vc", "vg"}
        /\ mode \in {"visit", "mutate", "map", "again"}
        /\ todo = IF Recs[rec][tree] = <<"panic">> THEN <<>> ELSE Whole(mode)
        /\ met = 0
Meet == /\ todo # <<>>
        /\ LET n == todo[1] IN
           todo' = TLCEval(Below(IF Changes(mode) THEN Change(n) ELSE n) \o Tail(todo))
        /\ met' = met + 1
        /\ UNCHANGED <<rec, tree, mode>>
Spec == Init /\ [][Meet]_vars

(*----------------------------- conformance ------------------------------*)
Ok == W # <<"panic">>
Walked == Ok
Visits == Ok =>
   /\ todo = <<>> => Len(Seen(mode)) = met
   /\ todo # <<>> => /\ met < Len(Seen(mode))
                     /\ LET n == todo[1] IN Seen(mode)[met + 1] = <<n[1], n[2], n[3]>>
Result == (Ok /\ met = 0) =>
   CASE mode = "mutate" -> W[4] = ChangedAll(W[1])
     [] mode = "map"    -> W[6] = ChangedAll(W[1])
     [] OTHER -> TRUE
View == <<rec, tree, mode, met>>
=============================================================================
