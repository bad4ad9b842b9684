-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* What reaches the kernel.  An answer is put on the link token by token:   *)
(* a function with the number of its arguments, a symbol, a string, an      *)
(* integer or a real.  The machine keeps the pieces still to be delivered   *)
(* and how many tokens have been; each step delivers one piece, and the     *)
(* answer is complete when no piece is left and no token is.  The kernel    *)
(* may ask to abort at any poll: from there on children may be replaced by  *)
(* $Aborted, none that follows is sent, and the answer is still complete.   *)
(***************************************************************************)
EXTENDS Symbols, Integers, SequencesExt

CONSTANT RecFile
Recs == TLCEval(ndJsonDeserialize(RecFile))
Asked == {"kq0", "kq1", "kq2", "kq3"}         \* nodes of an aggregate tree, as the kernel sends them
Abstracted == {"ka0", "ka1", "ka2", "ka3"}    \* and what comes back for them
Entries == {"kc", "kt", "kmn", "kmt", "kmf", "ks", "kC", "kT", "kr", "kb", "kf"} \cup Asked \cup Abstracted

VARIABLES rec,
          entry,     \* entry point of the library
          call,      \* which of the recorded calls
          todo,      \* pieces still to be delivered
          pos,       \* tokens delivered
          stopped    \* a child has been replaced by $Aborted
vars == <<rec, entry, call, todo, pos, stopped>>

R == Recs[rec][entry]
Runs(r) == r[Len(r)]
Run == Runs(R)[call]
Limit == Run[1]
Polls == Run[2]
Tokens == Run[3]

(*-------------------------------- tokens --------------------------------*)
NameOf == TLCEval([c \in Classes |-> [n \in NamesOf[c] |-> (CHOOSE r \in RowsOf(c) : r[1] = n)[2]]])
F(h, n) == <<"f", h, n>>
S(n) == <<"s", n>>
T(b) == <<"t", b>>           \* a string, by its bytes
N(w) == <<"n", w>>           \* a string, by its name
I(n) == <<"i", n>>
RuleOf == F("System`Rule", 2)
ListOf(n) == F("System`List", n)
AssocOf(n) == F("System`Association", n)
Aborted == S("System`$Aborted")
\* a token that was delivered is the one that is wanted
AnyText == <<"any">>
Same(t, w) ==
  CASE w[1] = "n" -> t[1] = "t" /\ t[3] = w[2]
    [] w[1] = "f" -> t[1] = "f" /\ t[2] = w[2] /\ t[3] = w[3]
    [] w[1] = "any" -> t[1] = "t"
    [] OTHER -> t[1] = w[1] /\ t[2] = w[2]

(*------------------------------- encoding -------------------------------*)
Flat(ss) == FlattenSeq(ss)
Map(Op(_), s) == Flat([i \in DOMAIN s |-> Op(s[i])])

\* both ends by line and column, or the first and the last character
PlaceOf(s) == IF Len(s) = 4 THEN <<ListOf(2), ListOf(2), I(s[1]), I(s[2]), ListOf(2), I(s[3]), I(s[4])>>
                            ELSE <<ListOf(2), I(s[1]), I(s[2] - 1)>>
SourceRule(s) == <<RuleOf, S("CodeParser`Source")>> \o PlaceOf(s)
\* a position in boxes: a path, the place before or after one, or none
BoxData(s) ==
  LET path == <<ListOf(Len(s[2]))>> \o [i \in DOMAIN s[2] |-> I(s[2][i])] IN
  IF s[1] = "None" THEN <<AssocOf(0)>>
  ELSE <<AssocOf(1), RuleOf, S("CodeParser`Source")>> \o (IF s[1] = "At" THEN path ELSE <<F("System`" \o s[1], 1)>> \o path)
Data(s) == IF entry = "kb" THEN BoxData(s) ELSE <<AssocOf(1)>> \o SourceRule(s)

IsErrorKind(k) == SubSeq(SymbolOf["Leaf"][k], 1, 6) = <<84, 111, 107, 101, 110, 96>> /\ Len(SymbolOf["Leaf"][k]) > 12
                    /\ SubSeq(SymbolOf["Leaf"][k], 7, 12) = <<69, 114, 114, 111, 114, 96>>
LeafTokens(l) ==
  <<F(IF IsErrorKind(l[2]) THEN "CodeParser`ErrorNode" ELSE "CodeParser`LeafNode", 3), S(NameOf["Leaf"][l[2]]),
    T(IF entry = "kb" THEN l[4] ELSE SubSeq(Recs[rec].b, l[4][1] + 1, l[4][1] + l[4][2]))>> \o Data(l[3])

HeadOf(tag) == F("CodeParser`" \o tag \o "Node", 3)
ClassOf(tag) == IF tag \in {"GroupMissingCloser", "GroupMissingOpener"} THEN "Group" ELSE tag
Tip(n) == n[4][Len(n[4])]
Heads(n) == SubSeq(n[4], 1, Len(n[4]) - 1)

Edit(e) ==
  <<F("CodeParser`CodeAction", 3), T(e[2]), S("CodeParser`" \o e[1] \o "Text")>> \o
  (IF e[1] = "Delete" THEN Data(e[3])
   ELSE <<AssocOf(2)>> \o SourceRule(e[3]) \o <<RuleOf, N(IF e[1] = "Insert" THEN "InsertionText" ELSE "ReplacementText"), T(e[4])>>)
Described(d) == <<T(d)>>
IssueTokens(i) ==
  LET some(s) == IF s = <<>> THEN 0 ELSE 1
      part(s, ts) == IF s = <<>> THEN <<>> ELSE ts
  IN <<F(i[1], 4), N(i[2]), IF i[3] = <<>> THEN AnyText ELSE T(i[3]), N(i[4]), AssocOf(2 + some(i[7]) + some(i[8]) + some(i[9]))>>
     \o SourceRule(i[5]) \o <<RuleOf, S("System`ConfidenceLevel"), <<"r", i[6]>>>>
     \o part(i[7], <<RuleOf, S("CodeParser`CodeActions"), ListOf(Len(i[7]))>> \o Map(Edit, i[7]))
     \o part(i[8], <<RuleOf, N("AdditionalDescriptions"), ListOf(Len(i[8]))>> \o Map(Described, i[8]))
     \o part(i[9], <<RuleOf, N("AdditionalSources"), ListOf(Len(i[9]))>> \o Map(PlaceOf, i[9]))

\* data of a container: key and value
LocTokens(l) == <<ListOf(2), I(l[1]), I(l[2])>>
KeyTokens(kv) ==
  LET k == kv[1]  v == kv[2] IN
  CASE k = "Source" -> SourceRule(v)
    [] k = "SyntaxIssues" -> <<RuleOf, S("CodeParser`SyntaxIssues"), ListOf(Len(v))>> \o Map(IssueTokens, v)
    [] k = "ConfidenceLevel" -> <<RuleOf, S("System`ConfidenceLevel"), <<"r", v>>>>
    [] k = "CodeActions" -> <<RuleOf, S("CodeParser`CodeActions"), ListOf(Len(v[1][7]))>> \o Map(Edit, v[1][7])
    [] k = "AdditionalDescriptions" -> <<RuleOf, N(k), ListOf(Len(v))>> \o Map(Described, v)
    [] k = "FileName" -> <<RuleOf, N(k), T(v)>>
    [] OTHER -> <<RuleOf, N(k), ListOf(Len(v))>> \o Map(LocTokens, v)

\* data of a node of an abstract tree: a place if it has one, and its issues
AstData(d) ==
  LET a == IF d[1] = <<>> THEN 0 ELSE 1
      b == IF d[2] = <<>> THEN 0 ELSE 1
  IN <<AssocOf(a + b)>> \o (IF a = 1 THEN SourceRule(d[1]) ELSE <<>>)
     \o (IF b = 1 THEN <<RuleOf, S("CodeParser`AbstractSyntaxIssues"), ListOf(Len(d[2]))>> \o Map(IssueTokens, d[2]) ELSE <<>>)

\* the two expressions of a piece of code
CodeTokens(n) ==
  CASE n[2] = "" -> <<S("System`Evaluated"), F("Global`f", 2), T(n[4]), I(-7)>>
    [] n[2] = "System`Evaluated System`Derivative" -> <<S("System`Evaluated"), S("System`Derivative")>>
    [] n[2] = "System`Null System`Derivative" -> <<S("System`Null"), S("System`Derivative")>>
    [] n[2] = "System`Evaluated Global`Derivative" -> <<S("System`Evaluated"), S("Global`Derivative")>>
    [] n[2] = "System`Evaluated 'Derivative'" -> <<S("System`Evaluated"), N("Derivative")>>
(*-------------------------------- pieces --------------------------------*)
Toks(ts) == <<"toks", ts>>
Node(n) == <<"node", n>>
Nodes(ns) == <<"nodes", ns>>
Locs(ls) == <<"locs", {ls[i] : i \in DOMAIN ls}>>
MissingFlag(u) == <<F("System`Missing", 1), N("UnsafeCharacterEncoding_" \o u)>>
Unreadable(u) == Toks(<<ListOf(1)>> \o MissingFlag(u))

Answer(e, r) ==
  CASE e \in Asked -> <<Node(r[1])>>
    [] e \in Abstracted -> <<<<"ast", r[1]>>>>
    [] e = "kr" -> <<Toks(<<F("CodeParser`ContainerNode", 3), S("System`" \o r[1])>>),
                     IF r[3] = "" THEN Nodes(r[2]) ELSE Toks(<<ListOf(1), F("System`Missing", 1), N(r[3])>>),
                     Toks(<<AssocOf(Len(r[4]))>> \o Map(KeyTokens, r[4]))>>
    [] e = "kf" -> <<Toks(<<F("System`Failure", 2), T(r[1]), F("Global`f", 1), I(r[2])>>)>>
    [] e = "kb" -> <<Toks(<<F("CodeParser`ContainerNode", 3), S("System`" \o r[1])>>), Nodes(r[2]), Toks(<<AssocOf(0)>>)>>
    [] e = "ks" -> IF r[1] = "ok" THEN <<Toks(<<T(r[2])>>)>> ELSE <<Toks(MissingFlag(r[2]))>>
    [] e \in {"kt", "kT"} -> IF r[1] = "ok" THEN <<Nodes(r[2])>> ELSE <<Unreadable(r[2])>>
    [] OTHER ->
       LET issues == IF r[4] = <<>> THEN r[5] ELSE r[4]
       IN <<Toks(<<ListOf(6)>>), IF r[3] = "" THEN Nodes(r[2]) ELSE Unreadable(r[3]), Toks(<<ListOf(Len(issues))>>)>>
          \o [i \in DOMAIN issues |-> Toks(IssueTokens(issues[i]))] \o [i \in 1..4 |-> Locs(r[6][i])]

\* what a piece delivers at once, and the pieces it leaves
Now(p) ==
  CASE p[1] = "toks" -> p[2]
    [] p[1] = "nodes" -> <<ListOf(Len(p[2]))>>
    [] p[1] = "locs" -> <<ListOf(Cardinality(p[2]))>>
    [] p[1] = "node" ->
       LET n == p[2] IN
       IF n[1] = "Leaf" THEN LeafTokens(n)
       ELSE IF n[1] = "Code" THEN <<HeadOf("Code")>> \o CodeTokens(n) \o Data(n[3])
       ELSE IF n[1] = "Box" THEN <<HeadOf("Box"), S("System`" \o n[2])>>
       ELSE IF n[1] = "Call" THEN <<HeadOf("Call")>>
       ELSE <<HeadOf(n[1]), S(NameOf[ClassOf(n[1])][n[2]])>>
    [] p[1] = "asts" -> <<ListOf(Len(p[2]))>>
    [] p[1] = "ast" ->
       LET n == p[2] IN
       CASE n[1] \in {"Leaf", "Error"} -> <<HeadOf(n[1]), S(NameOf["Leaf"][n[2]]), T(n[4])>> \o AstData(n[3])
         [] n[1] \in {"Call", "CallMissingCloser"} -> <<HeadOf(n[1])>>
         [] n[1] = "Code" -> <<HeadOf("Code")>> \o CodeTokens(n) \o AstData(n[3])
         [] n[1] = "Box" -> <<HeadOf("Box"), S("System`" \o n[2])>>
         [] n[1] = "AbstractSyntaxError" -> <<HeadOf(n[1]), S("AbstractSyntaxError`" \o n[2])>>
         [] OTHER -> <<HeadOf(n[1]), S(NameOf[ClassOf(n[1])][n[2]])>>
Left(p) ==
  CASE p[1] = "toks" -> <<>>
    [] p[1] = "nodes" -> [i \in DOMAIN p[2] |-> <<"child", p[2][i]>>]
    [] p[1] = "locs" -> <<<<"rest", p[2]>>>>
    [] p[1] = "node" ->
       LET n == p[2] IN
       IF n[1] \in {"Leaf", "Code"} THEN <<>>
       ELSE IF n[1] = "Call" THEN <<IF entry \in Asked THEN Node(n[4][1]) ELSE Nodes(Heads(n)), Node(Tip(n)), Toks(Data(n[3]))>>
       ELSE <<Nodes(n[4]), Toks(Data(n[3]))>>
    [] p[1] = "asts" -> [i \in DOMAIN p[2] |-> <<"ast", p[2][i]>>]
    [] p[1] = "ast" ->
       LET n == p[2] IN
       CASE n[1] \in {"Leaf", "Error", "Code"} -> <<>>
         [] n[1] \in {"Call", "CallMissingCloser"} -> <<<<"ast", n[4][1]>>, <<"asts", Tail(n[4])>>, Toks(AstData(n[3]))>>
         [] OTHER -> <<<<"asts", n[4]>>, Toks(AstData(n[3]))>>

(*------------------------------- machine --------------------------------*)
AbortAsked == Limit > 0 /\ Polls >= Limit
Arrives(ts) == pos + Len(ts) <= Len(Tokens) /\ \A i \in DOMAIN ts : Same(Tokens[pos + i], ts[i])
Give(ts) == pos' = pos + Len(ts)
\* the location that comes next, of a set whose order does not matter
NextLoc(s) == {l \in s : Arrives(<<ListOf(2), I(l[1]), I(l[2])>>)}

Init == /\ rec \in DOMAIN Recs
        /\ entry \in Entries \cap DOMAIN Recs[rec]
        /\ call \in IF Recs[rec][entry] = <<"panic">> THEN {0} ELSE DOMAIN Runs(Recs[rec][entry])
        /\ todo = IF call = 0 THEN <<>> ELSE Answer(entry, Recs[rec][entry])
        /\ pos = 0 /\ stopped = FALSE

Replaced == /\ todo # <<>> /\ todo[1][1] = "child"
            /\ AbortAsked /\ Arrives(<<Aborted>>)
            /\ Give(<<Aborted>>) /\ stopped' = TRUE
            /\ todo' = Tail(todo)
Sent == /\ todo # <<>> /\ todo[1][1] = "child"
        /\ ~stopped /\ Arrives(Now(Node(todo[1][2])))
        /\ Give(Now(Node(todo[1][2]))) /\ UNCHANGED stopped
        /\ todo' = TLCEval(Left(Node(todo[1][2])) \o Tail(todo))
Located == /\ todo # <<>> /\ todo[1][1] = "rest"
           /\ IF todo[1][2] = {} THEN pos' = pos /\ todo' = Tail(todo)
              ELSE \E l \in NextLoc(todo[1][2]) : pos' = pos + 3 /\ todo' = <<<<"rest", todo[1][2] \ {l}>>>> \o Tail(todo)
           /\ UNCHANGED stopped
Plain == /\ todo # <<>> /\ todo[1][1] \in {"toks", "nodes", "node", "locs", "ast", "asts"}
         /\ Arrives(Now(todo[1])) /\ Give(Now(todo[1]))
         /\ todo' = TLCEval(Left(todo[1]) \o Tail(todo)) /\ UNCHANGED stopped
Step == (Replaced \/ Sent \/ Located \/ Plain) /\ UNCHANGED <<rec, entry, call>>
Spec == Init /\ [][Step]_vars

(*----------------------------- conformance ------------------------------*)
Answers == call # 0
\* every piece arrives, unchanged, in its place
Delivered == (call # 0 /\ todo # <<>>) => ENABLED Step
\* and nothing else does
Complete == (call # 0 /\ todo = <<>>) => pos = Len(Tokens)
\* a file the kernel does not let the library read is not read
Private == "kd" \in DOMAIN Recs[rec] => \A i \in DOMAIN Recs[rec].kd : Recs[rec].kd[i][1] = 0 /\ Recs[rec].kd[i][2]
\* a kind of leaf is called empty exactly if its leaves have no text
Emptiness == "ke" \in DOMAIN Recs[rec] => \A i \in DOMAIN Recs[rec].ke :
  LET k == Recs[rec].ke[i] IN Len(k[3]) = 1 /\ Same(k[3][1], S(IF k[2] THEN "System`True" ELSE "System`False"))
View == <<rec, entry, call, pos, Len(todo), stopped>>
=============================================================================
