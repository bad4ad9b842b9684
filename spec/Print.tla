------------------------------- MODULE Print --------------------------------
(***************************************************************************)
(* The printed form of tokens and trees: an expression with one call per    *)
(* node, the symbol of its kind or operator, the text of leaves verbatim,   *)
(* and the place.  The machine keeps what is still to be printed and how    *)
(* much has been printed; each step prints one piece or opens one node.     *)
(***************************************************************************)
EXTENDS Symbols

CONSTANT RecFile
Recs == TLCEval(ndJsonDeserialize(RecFile))
Views == {"pt", "pc", "pg"}

VARIABLES rec,
          tree,      \* tokens, concrete or aggregate tree
          todo,      \* pieces: <<"text", bytes>>, <<"node", n>> or <<"list", ns>>
          out,       \* bytes printed
          count      \* steps
vars == <<rec, tree, todo, out, count>>

R == Recs[rec][tree]
Ok == R # <<"panic">>

(*-------------------------------- pieces --------------------------------*)
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
Sep == <<44, 32>>                          \* ", "
ListHead == <<83, 121, 115, 116, 101, 109, 96, 76, 105, 115, 116, 91>>                 \* System`List[
Context == <<67, 111, 100, 101, 80, 97, 114, 115, 101, 114, 96>>                       \* CodeParser`
NodeWord == <<78, 111, 100, 101, 91>>                                                  \* Node[
TagWord == [Leaf |-> <<76, 101, 97, 102>>, Error |-> <<69, 114, 114, 111, 114>>, Call |-> <<67, 97, 108, 108>>,
            Prefix |-> <<80, 114, 101, 102, 105, 120>>, Infix |-> <<73, 110, 102, 105, 120>>, Postfix |-> <<80, 111, 115, 116, 102, 105, 120>>,
            Binary |-> <<66, 105, 110, 97, 114, 121>>, Ternary |-> <<84, 101, 114, 110, 97, 114, 121>>,
            PrefixBinary |-> <<80, 114, 101, 102, 105, 120, 66, 105, 110, 97, 114, 121>>,
            Compound |-> <<67, 111, 109, 112, 111, 117, 110, 100>>, Group |-> <<71, 114, 111, 117, 112>>,
            GroupMissingCloser |-> <<71, 114, 111, 117, 112, 77, 105, 115, 115, 105, 110, 103, 67, 108, 111, 115, 101, 114>>,
            GroupMissingOpener |-> <<71, 114, 111, 117, 112, 77, 105, 115, 115, 105, 110, 103, 79, 112, 101, 110, 101, 114>>,
            SyntaxError |-> <<83, 121, 110, 116, 97, 120, 69, 114, 114, 111, 114>>]
Opening(tag) == Context \o TagWord[tag] \o NodeWord
ErrorContext == <<84, 111, 107, 101, 110, 96, 69, 114, 114, 111, 114, 96>>             \* Token`Error`
IsErrorSymbol(s) == Len(s) > 12 /\ SubSeq(s, 1, 12) = ErrorContext
Place(s) == <<123, 123>> \o Decimal(s[1]) \o Sep \o Decimal(s[2]) \o <<125, 44, 32, 123>> \o Decimal(s[3]) \o Sep \o Decimal(s[4]) \o <<125, 125>>
ClassOf(tag) == IF tag \in {"GroupMissingCloser", "GroupMissingOpener"} THEN "Group" ELSE tag

\* text that is not well encoded is printed with a replacement character for each longest piece that could have
\* been the beginning of a character, and surrogates byte by byte
Source == INSTANCE Source
Fffd(n) == [i \in 1..(3 * n) |-> <<189, 239, 191>>[1 + (i % 3)]]
RECURSIVE Lossy(_, _)
Lossy(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET c == Source!CharAt(b, i)
           n == c[2]
       IN (IF c[3] \in {"", "BOM"} THEN SubSeq(b, i, i + n - 1)
           ELSE IF b[i] = 237 /\ n > 1 /\ b[i + 1] >= 160 THEN Fffd(n)
           ELSE Fffd(1)) \o Lossy(b, i + n)

LeafText(l) ==
  LET s == SymbolOf["Leaf"][l[2]] IN
  Opening(IF IsErrorSymbol(s) THEN "Error" ELSE "Leaf") \o s \o Sep \o <<34>>
    \o Lossy(SubSeq(Recs[rec].b, l[4][1] + 1, l[4][1] + l[4][2]), 1) \o <<34>> \o Sep \o Place(l[3]) \o <<93>>

Text(b) == <<"text", b>>
Tip(n) == n[4][Len(n[4])]
Heads(n) == SubSeq(n[4], 1, Len(n[4]) - 1)
Open(p) ==
  IF p[1] = "list" THEN
     LET ns == p[2] IN
     <<Text(ListHead)>> \o [i \in 1..(2 * Len(ns)) |-> IF i % 2 = 1 THEN <<"node", ns[(i + 1) \div 2]>> ELSE Text(Sep)] \o <<Text(<<93>>)>>
  ELSE LET n == p[2] IN
     IF n[1] = "Leaf" THEN <<Text(LeafText(n))>>
     ELSE IF n[1] = "Call" THEN
       <<Text(Opening("Call")), IF tree = "pg" THEN <<"node", n[4][1]>> ELSE <<"list", Heads(n)>>, Text(Sep), <<"node", Tip(n)>>,
         Text(Sep \o Place(n[3]) \o <<93>>)>>
     ELSE <<Text(Opening(n[1]) \o SymbolOf[ClassOf(n[1])][n[2]] \o Sep), <<"list", n[4]>>, Text(Sep \o Place(n[3]) \o <<93>>)>>

(*------------------------------- machine --------------------------------*)
Init == /\ rec \in DOMAIN Recs
        /\ tree \in Views \cap DOMAIN Recs[rec]
        /\ todo = IF Recs[rec][tree] = <<"panic">> THEN <<>> ELSE << <<"list", Recs[rec][tree][1]>> >>
        /\ out = 0 /\ count = 0
Step == /\ todo # <<>>
        /\ LET p == todo[1] IN
           IF p[1] = "text" THEN out' = out + Len(p[2]) /\ todo' = Tail(todo)
           ELSE out' = out /\ todo' = TLCEval(Open(p) \o Tail(todo))
        /\ count' = count + 1
        /\ UNCHANGED <<rec, tree>>
Spec == Init /\ [][Step]_vars

(*----------------------------- conformance ------------------------------*)
Prints == Ok
Printed == Ok =>
  /\ todo = <<>> => out = Len(R[2])
  /\ (todo # <<>> /\ todo[1][1] = "text") =>
       LET t == todo[1][2] IN out + Len(t) <= Len(R[2]) /\ SubSeq(R[2], out + 1, out + Len(t)) = t
View == <<rec, tree, count>>
=============================================================================
