------------------------------ MODULE Abstract ------------------------------
(***************************************************************************)
(* From the concrete to the aggregate and the abstract tree.               *)
(*                                                                         *)
(* Concrete nodes are as the harness records them:                         *)
(*    <<"Leaf", kind, span, <<offset, length>>>>, otherwise                *)
(*    <<tag, operator, span, children>>; the last child of a "Call" is its *)
(*    bracketed group, the others are its head.                            *)
(* Abstract nodes: <<tag, kind, <<span, issues>>, text or children>>, text *)
(* as a sequence of bytes; the first child of a call is its head.          *)
(* An issue is <<tag, severity, span, percentage, further spans>>.         *)
(* An unknown span is <<>>.                                                *)
(***************************************************************************)
EXTENDS Parser

TextTable == FunOf(Tables.names)               \* symbol name -> bytes
RelationOf == FunOf(Tables.relations)          \* token kind -> symbol of the relation
Relations == TLCEval(DOMAIN RelationOf)
NoAffinity == {"Equal", "Unequal", "Less", "Greater", "LessEqual", "GreaterEqual"}
VectorRelations == {"VectorLess", "VectorGreater", "VectorLessEqual", "VectorGreaterEqual"}
Unprintable == TLCEval(Tables.unprintable)     \* ranges of code points that are written \u{..}

(*----------------------------- aggregation -----------------------------*)
IsTrivia(n) == n[1] = "Leaf" /\ n[2] \in TriviaKinds
NotTrivia(n) == ~IsTrivia(n)

Between(a, b) == IF Len(a) = 4 THEN <<a[1], a[2], b[3], b[4]>> ELSE <<a[1], b[2]>>
RECURSIVE Agg(_)
Aggs(ns) == LET s == SelectSeq(ns, NotTrivia) IN TLCEval([i \in DOMAIN s |-> Agg(s[i])])
\* a node reaches from its first to its last remaining child
Agg(n) == IF n[1] \in {"Leaf", "Code"} THEN n
          ELSE IF n[1] = "Box" THEN <<n[1], n[2], n[3], Aggs(n[4])>>
          ELSE LET k == Aggs(n[4]) IN <<n[1], n[2], Between(k[1][3], k[Len(k)][3]), k>>

(*------------------------------ parts ----------------------------------*)
Data(s)   == <<s, <<>>>>
NoData    == <<<<>>, <<>>>>
Issue(tag, sev, s, conf, more) == <<tag, sev, s, conf, more>>

RECURSIVE DecimalFrom(_, _)
DecimalFrom(n, acc) == IF n < 10 THEN <<48 + n>> \o acc ELSE DecimalFrom(n \div 10, <<48 + (n % 10)>> \o acc)
Decimal(n) == IF n < 0 THEN <<45>> \o DecimalFrom(-n, <<>>) ELSE DecimalFrom(n, <<>>)

LeafA(kind, d, text) == <<"Leaf", kind, d, text>>
SymA(name, d) == LeafA("Symbol", d, TextTable[name])
Sym(name)   == SymA(name, NoData)
Num(n, d)   == LeafA("Integer", d, Decimal(n))
Str(text, d) == LeafA("String", d, text)
CallOf(head, args, d) == <<"Call", "", d, <<head>> \o args>>
CallA(name, args, d) == CallOf(Sym(name), args, d)
ErrA(kind, args, d) == <<"AbstractSyntaxError", kind, d, args>>

EveryOther(s) == [i \in 1..((Len(s) + 1) \div 2) |-> s[2*i - 1]]
Inner(s) == SubSeq(s, 2, Len(s) - 1)

(*------------------------------ strings --------------------------------*)
\* bytes with each malformed part replaced by U+FFFD
Replacement == <<239, 191, 189>>
RECURSIVE LossyFrom(_, _, _)
LossyFrom(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE LET ch == IF t[i] < 128 THEN <<t[i], 1, "">> ELSE CharAt(t, i) IN
       IF ch[3] \in {"", "BOM"} THEN LossyFrom(t, i + ch[2], acc \o SubSeq(t, i, i + ch[2] - 1))
       ELSE IF ch[3] = "StraySurrogate" THEN LossyFrom(t, i + 1, acc \o Replacement)
       ELSE LossyFrom(t, i + ch[2], acc \o Replacement)
Lossy(t) == LossyFrom(t, 1, <<>>)

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexFrom(_, _)
HexFrom(n, acc) == IF n < 16 THEN <<HexDigit(n)>> \o acc ELSE HexFrom(n \div 16, <<HexDigit(n % 16)>> \o acc)
IsUnprintable(p) == \E i \in DOMAIN Unprintable : Unprintable[i][1] <= p /\ p <= Unprintable[i][2]
Quoted1(t, i, len, p) ==
  CASE p = 0  -> <<92, 48>>
    [] p = 9  -> <<92, 116>>
    [] p = 10 -> <<92, 110>>
    [] p = 13 -> <<92, 114>>
    [] p = 34 -> <<92, 34>>
    [] p = 92 -> <<92, 92>>
    [] IsUnprintable(p) -> <<92, 117, 123>> \o HexFrom(p, <<>>) \o <<125>>
    [] OTHER  -> SubSeq(t, i, i + len - 1)
RECURSIVE QuotedFrom(_, _, _)
QuotedFrom(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE LET ch == IF t[i] < 128 THEN <<t[i], 1>> ELSE IF i + 2 <= Len(t) /\ SubSeq(t, i, i+2) = <<239, 187, 191>> THEN <<65279, 3>> ELSE CharAt(t, i) IN
       QuotedFrom(t, i + ch[2], acc \o Quoted1(t, i, ch[2], ch[1]))
\* the text in double quotes with its special characters escaped
Quoted(t) == <<34>> \o QuotedFrom(t, 1, <<>>) \o <<34>>
StartsWith(t, p) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
FileText(t) == IF StartsWith(t, <<34>>) THEN t ELSE Quoted(t)
TagText(t)  == IF StartsWith(t, <<34>>) THEN t
               ELSE IF StartsWith(t, <<92, 91>>) THEN <<34>> \o t \o <<34>> ELSE Quoted(t)

\* number of places at which the sequence p starts in t (they never overlap)
Occurrences(t, p) == Cardinality({i \in 1..(Len(t) - Len(p) + 1) : SubSeq(t, i, i + Len(p) - 1) = p})
PercentForms == <<<<37>>, <<92, 46, 50, 53>>, <<92, 58, 48, 48, 50, 53>>, <<92, 124, 48, 48, 48, 48, 50, 53>>,
                  <<92, 48, 52, 53>>, <<92, 91, 82, 97, 119, 80, 101, 114, 99, 101, 110, 116, 93>>>>
RECURSIVE SumOver(_, _)
SumOver(t, i) == IF i > Len(PercentForms) THEN 0 ELSE Occurrences(t, PercentForms[i]) + SumOver(t, i + 1)

\* ways to write the characters that stand for a symbol of another name
SpecialSymbols == TLCEval(Tables.specials)     \* sequence of <<bytes, name>>

(*------------------------------ leaves ---------------------------------*)
\* e: the environment: e.b bytes of the input, e.at, e.flat, e.old the quirks
TextIn(e, l) == SubSeq(e.b, l[4][1] + 1, l[4][1] + l[4][2])

AbsLeaf(e, l) ==
  LET k == l[2]
      d == Data(l[3])
      t == TLCEval(TextIn(e, l))
  IN CASE k = "PercentPercent"   -> CallA("Out", <<Num(-SumOver(t, 1), NoData)>>, d)
       [] k = "Under"            -> CallA("Blank", <<>>, d)
       [] k = "UnderUnder"       -> CallA("BlankSequence", <<>>, d)
       [] k = "UnderUnderUnder"  -> CallA("BlankNullSequence", <<>>, d)
       [] k = "UnderDot"         -> CallA("Optional", <<CallA("Blank", <<>>, d)>>, d)
       [] k = "Hash"             -> CallA("Slot", <<Num(1, NoData)>>, d)
       [] k = "HashHash"         -> CallA("SlotSequence", <<Num(1, NoData)>>, d)
       [] k = "Percent"          -> CallA("Out", <<>>, d)
       [] k = "Fake_ImplicitOne" -> Num(1, d)
       [] k = "Fake_ImplicitAll" -> SymA("All", d)
       [] k \in {"Error_PrefixImplicitNull", "Error_InfixImplicitNull"} -> SymA("Null", d)
       [] k \in ErrorKinds       -> <<"Error", k, d, t>>
       [] k = "Symbol" /\ \E i \in DOMAIN SpecialSymbols : SpecialSymbols[i][1] = t ->
            SymA(SpecialSymbols[CHOOSE i \in DOMAIN SpecialSymbols : SpecialSymbols[i][1] = t][2], d)
       [] OTHER -> LeafA(k, d, t)

(*------------------------------- nodes ---------------------------------*)
Is(n, tag, op) == n[1] = tag /\ n[2] = op
IsLeaf(n, kinds) == n[1] = "Leaf" /\ n[2] \in kinds
IsParen(n) == Is(n, "Group", "CodeParser_GroupParen")

\* a number in any number of parentheses
RECURSIVE ParenNumber(_)
ParenNumber(n) == IF IsParen(n) THEN Len(n[4]) = 3 /\ ParenNumber(n[4][2])
                  ELSE IsLeaf(n, {"Integer", "Real"})
\* zero in any number of parentheses and minus signs
RECURSIVE Zero(_, _)
Zero(e, n) == IF IsLeaf(n, {"Integer"}) THEN TextIn(e, n) = <<48>>
              ELSE IF IsParen(n) THEN Len(n[4]) = 3 /\ Zero(e, n[4][2])
              ELSE Is(n, "Prefix", "Minus") /\ Zero(e, n[4][2])

RECURSIVE Abs(_, _), TimesArgs(_, _, _, _), Negate(_, _, _)

AbsSeq(e, ns) == TLCEval([i \in DOMAIN ns |-> Abs(e, ns[i])])

\* with the infix-at quirk,  a + Plus@b  counts as  a + b
InfixAt(e, n, name) ==
  IF /\ e.at /\ Is(n, "Binary", "CodeParser_BinaryAt")
     /\ IsLeaf(n[4][1], {"Symbol"}) /\ TextIn(e, n[4][1]) = TextTable[name]
  THEN n[4][3] ELSE n

\* The arguments that node n contributes to a product with span s: nested
\* products are spliced; with the flatten-times quirk so are negation and
\* division.  quirk: whether the infix-at quirk applies to what is left as is.
SpliceTimes(e, ns, s, quirk) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(ns) THEN acc ELSE go(i + 1, acc \o TimesArgs(e, ns[i], s, quirk))
  IN go(1, <<>>)
Whole(e, n, quirk) == <<Abs(e, IF quirk THEN InfixAt(e, n, "Times") ELSE n)>>
Power(e, n, s) == CallA("Power", <<Abs(e, n), Num(-1, NoData)>>, Data(s))
TimesArgs(e, n, s, quirk) ==
  IF Is(n, "Prefix", "Minus") THEN
     IF ParenNumber(n[4][2]) THEN <<Negate(e, n[4][2], s)>>
     ELSE IF e.flat THEN <<Num(-1, NoData)>> \o TimesArgs(e, n[4][2], s, quirk)
     ELSE Whole(e, n, quirk)
  ELSE IF Is(n, "Infix", "Times") THEN SpliceTimes(e, EveryOther(n[4]), s, quirk)
  ELSE IF Is(n, "Binary", "Divide") /\ e.flat THEN
     Append(TimesArgs(e, n[4][1], s, quirk), Power(e, n[4][3], s))
  ELSE Whole(e, n, quirk)

Times(e, ns, s) == CallA("Times", SpliceTimes(e, ns, s, TRUE), Data(s))

\* the negation of n, with span s
Negate(e, n, s) ==
  IF IsLeaf(n, {"Integer"}) /\ TextIn(e, n) = <<48>> THEN LeafA("Integer", Data(s), <<48>>)
  ELSE IF IsLeaf(n, {"Integer", "Real"}) THEN LeafA(n[2], Data(s), <<45>> \o TextIn(e, n))
  ELSE IF (IsParen(n) \/ Is(n, "Prefix", "Minus")) /\ Zero(e, n[4][2]) THEN Negate(e, n[4][2], s)
  ELSE IF ParenNumber(n) THEN Negate(e, n[4][2], s)
  ELSE CallA("Times", <<Num(-1, NoData)>> \o
         SpliceTimes(e, IF Is(n, "Infix", "Times") THEN EveryOther(n[4]) ELSE <<n>>, s, TRUE), Data(s))

RECURSIVE NoPlus(_)
NoPlus(n) == IF Is(n, "Prefix", "Plus") THEN NoPlus(n[4][2]) ELSE n
PlusArg(e, n) == Abs(e, NoPlus(InfixAt(e, n, "Plus")))
Plus(e, ns, s) ==
  CallA("Plus", <<PlusArg(e, ns[1])>> \o
    [i \in 1..((Len(ns) - 1) \div 2) |->
       LET o == ns[2*i]
           a == ns[2*i + 1]
       IN IF o[2] \in {"Minus", "LongName_Minus"} THEN Negate(e, a, Between(o[3], a[3])) ELSE PlusArg(e, a)], Data(s))

(*----------------------------- inequalities ----------------------------*)
Affinity(r) == IF r \in NoAffinity THEN "none" ELSE IF r \in VectorRelations THEN "vector" ELSE "scalar"
\* p: <<first operand, sequence of <<relation, operand>>>>
Simplify(p, aff, s) ==
  LET rs == {p[2][i][1] : i \in DOMAIN p[2]}
      rands == <<p[1]>> \o [i \in DOMAIN p[2] |-> p[2][i][2]]
      mixed == <<p[1]>> \o [i \in 1..(2 * Len(p[2])) |-> IF i % 2 = 1 THEN Sym(p[2][(i + 1) \div 2][1]) ELSE p[2][i \div 2][2]]
  IN IF Cardinality(rs) = 1 THEN
        LET r == p[2][1][1] IN
        IF r \in VectorRelations THEN CallA(r, <<CallA("List", rands, NoData)>>, Data(s))
        ELSE CallA(r, rands, Data(s))
     ELSE CallA(IF aff = "vector" THEN "Developer_VectorInequality" ELSE "Inequality", mixed, Data(s))
RECURSIVE Inequal(_, _, _, _, _, _)
Inequal(e, ns, s, i, p, aff) ==
  IF i > Len(ns) THEN Simplify(p, aff, s)
  ELSE LET r == RelationOf[ns[i][2]]
           x == Abs(e, ns[i + 1])
           f == Affinity(r)
       IN IF f # "none" /\ aff # "none" /\ f # aff
          THEN Inequal(e, ns, s, i + 2, <<Simplify(p, aff, s), <<<<r, x>>>>>>, f)
          ELSE Inequal(e, ns, s, i + 2, <<p[1], Append(p[2], <<r, x>>)>>, IF f = "none" THEN aff ELSE f)

(*------------------------------- groups --------------------------------*)
\* a comma sequence is spliced into what contains it
Splice(as) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(as) THEN acc
                    ELSE go(i + 1, IF as[i][1] = "Call" /\ as[i][4][1][1] = "Leaf" /\ as[i][4][1][2] = "Symbol"
                                        /\ as[i][4][1][4] = TextTable["CodeParser_Comma"]
                                   THEN acc \o Tail(as[i][4]) ELSE Append(acc, as[i]))
  IN go(1, <<>>)
GroupArgs(e, g) == Splice(AbsSeq(e, Inner(g[4])))
OpenArgs(e, g)  == Splice(AbsSeq(e, Tail(g[4])))
ShutArgs(e, g)  == Splice(AbsSeq(e, SubSeq(g[4], 1, Len(g[4]) - 1)))
\* what stands between brackets that make no sense on their own
Loose(e, g) == IF Len(g[4]) = 3 /\ Is(g[4][2], "Infix", "CodeParser_Comma") THEN AbsSeq(e, EveryOther(g[4][2][4]))
               ELSE AbsSeq(e, Inner(g[4]))

(*-------------------------------- calls --------------------------------*)
CallHeadLeaves == {"Symbol", "Hash", "Under", "UnderUnder", "UnderUnderUnder"}
CallHeadCompounds == {"Blank", "BlankSequence", "BlankNullSequence", "CodeParser_PatternBlank",
                      "CodeParser_PatternBlankSequence", "CodeParser_PatternBlankNullSequence", "Slot"}
PlainHead(h) == IsLeaf(h, CallHeadLeaves) \/ h[1] = "Call" \/ (h[1] = "Compound" /\ h[2] \in CallHeadCompounds)
OutHead(h)   == IsLeaf(h, {"Percent", "PercentPercent"}) \/ Is(h, "Compound", "Out")
SequenceHead(h) == IsLeaf(h, {"HashHash"}) \/ Is(h, "Compound", "SlotSequence")
BlobHead(h)  == IsLeaf(h, {"LinearSyntaxBlob"}) \/ Is(h, "Prefix", "CodeParser_PrefixLinearSyntaxBang")
ListHead(h)  == h[1] = "Group" /\ h[2] \in {"CodeParser_GroupParen", "List", "Association"}
\* boxes that may stand for a function
BoxHead(h)   == h[1] = "Box" /\ h[2] \in {"TemplateBox", "InterpretationBox", "SubscriptBox", "SuperscriptBox", "StyleBox",
                                        "NamespaceBox", "OverscriptBox", "SubsuperscriptBox"}
Strange(sev, g) == <<Issue("StrangeCall", sev, g[4][1][3], 95, <<g[4][Len(g[4])][3]>>)>>
Sequence(g)  == <<Issue("StrangeCallSlotSequence", "Error", g[4][1][3], 100, <<g[4][Len(g[4])][3]>>)>>

\* issues of  h[[..]]
PartIssues(h, g) ==
  CASE SequenceHead(h) -> Sequence(g)
    [] PlainHead(h) \/ OutHead(h) -> <<>>
    [] BlobHead(h) \/ Is(h, "Infix", "CompoundExpression") -> Strange("Remark", g)
    [] ListHead(h) -> <<>>
    [] h[1] = "Group" -> Strange("Warning", g)
    [] Is(h, "Postfix", "Transpose") \/ BoxHead(h) -> <<>>
    [] OTHER -> Strange("Error", g)
\* issues of  h[..]
CallIssues(h, g) ==
  CASE SequenceHead(h) -> Sequence(g)
    [] PlainHead(h) \/ OutHead(h) \/ IsLeaf(h, {"String"}) \/ Is(h, "Binary", "PatternTest") -> <<>>
    [] Is(h, "Infix", "CompoundExpression") -> Strange("Warning", g)
    [] ListHead(h) -> <<>>
    [] h[1] = "Group" -> Strange("Warning", g)
    [] Is(h, "Postfix", "Function") \/ Is(h, "Postfix", "Derivative") \/ BoxHead(h) -> <<>>
    [] OTHER -> Strange("Error", g)
\* issues of  h::[..]
TypeIssues(h) == IF IsLeaf(h, {"String"}) THEN <<>> ELSE <<Issue("StrangeCall", "Error", h[3], 95, <<>>)>>

AbsCall(e, n) ==
  LET h == n[4][1]
      g == n[4][Len(n[4])]
      s == n[3]
      H == Abs(e, h)
      typed == CallA("TypeSpecifier", <<H>>, NoData)
  IN IF g[1] = "GroupMissingCloser" THEN
        LET as == OpenArgs(e, g) IN
        CASE g[2] = "CodeParser_GroupSquare"        -> <<"CallMissingCloser", "", Data(s), <<H>> \o as>>
          [] g[2] = "CodeParser_GroupTypeSpecifier" -> <<"CallMissingCloser", "", Data(s), <<typed>> \o as>>
          [] OTHER                                  -> <<"CallMissingCloser", "", Data(s), <<Sym("Part"), H>> \o as>>
     ELSE CASE g[2] = "CodeParser_GroupSquare" /\ Len(g[4]) = 3 /\ Is(g[4][2], "Group", "CodeParser_GroupSquare") ->
                 CallA("Part", <<H>> \o GroupArgs(e, g[4][2]), <<s, PartIssues(h, g)>>)
            [] g[2] = "CodeParser_GroupSquare" -> CallOf(H, GroupArgs(e, g), <<s, CallIssues(h, g)>>)
            [] g[2] = "CodeParser_GroupTypeSpecifier" -> CallOf(typed, GroupArgs(e, g), <<s, TypeIssues(h)>>)
            [] OTHER -> CallA("Part", <<H>> \o GroupArgs(e, g), <<s, PartIssues(h, g)>>)

(*----------------------------- everything ------------------------------*)
RECURSIVE Primes(_)
Primes(n) == IF Is(n, "Postfix", "Derivative") THEN LET r == Primes(n[4][1]) IN <<r[1] + 1, r[2]>> ELSE <<0, n>>

AbsCompound(e, n, c, d) ==
  CASE n[2] \in {"Blank", "BlankSequence", "BlankNullSequence", "SlotSequence", "Out"} -> CallA(n[2], <<Abs(e, c[2])>>, d)
    [] n[2] = "CodeParser_PatternOptionalDefault" ->
         CallA("Optional", <<CallA("Pattern", <<Abs(e, c[1]), CallA("Blank", <<>>, Data(c[2][3]))>>, d)>>, d)
    [] n[2] = "Slot" ->
         CallA("Slot", <<IF c[2][2] = "Integer" THEN Abs(e, c[2]) ELSE Str(TagText(Lossy(TextIn(e, c[2]))), Data(c[2][3]))>>, d)
    [] OTHER -> CallA("Pattern", <<Abs(e, c[1]), Abs(e, c[2])>>, d)

File(e, l) == IF IsLeaf(l, {"String"}) THEN Str(FileText(Lossy(TextIn(e, l))), Data(l[3])) ELSE Abs(e, l)

AbsPrefix(e, n, c, d) ==
  CASE n[2] = "Minus" -> Negate(e, c[2], n[3])
    [] n[2] = "Plus"  -> CallA("Plus", <<Abs(e, NoPlus(c[2]))>>, d)
    [] n[2] = "CodeParser_PrefixNot2" ->
         CallA("Not", <<CallA("Not", <<Abs(e, c[2])>>, NoData)>>, <<n[3], <<Issue("PrefixNotNot", "Warning", c[1][3], 100, <<>>)>>>>)
    [] n[2] = "CodeParser_PrefixLinearSyntaxBang" ->
         IF IsLeaf(c[2], {"LinearSyntaxBlob"}) THEN <<"PrefixLinearSyntaxBang", "", d, <<Abs(e, c[1]), Abs(e, c[2])>>>>
         ELSE ErrA("LinearSyntaxBang", <<Abs(e, c[2])>>, d)
    [] n[2] = "Get" -> CallA("Get", <<File(e, c[2])>>, d)
    [] OTHER -> CallA(n[2], <<Abs(e, c[2])>>, d)

AbsPostfix(e, n, c, d) ==
  CASE n[2] = "HermitianConjugate" -> CallA("ConjugateTranspose", <<Abs(e, c[1])>>, d)
    [] n[2] = "Derivative" ->
         LET r == Primes(n) IN CallOf(CallA("Derivative", <<Num(r[1], NoData)>>, NoData), <<Abs(e, r[2])>>, d)
    [] OTHER -> CallA(n[2], <<Abs(e, c[1])>>, d)

AbsBinary(e, n, c, d) ==
  CASE n[2] = "Divide" -> CallA("Times", Append(TimesArgs(e, c[1], n[3], FALSE), Power(e, c[3], n[3])), d)
    [] n[2] = "CodeParser_BinaryAt" -> CallOf(Abs(e, c[1]), <<Abs(e, c[3])>>, d)
    [] n[2] = "MapApply" /\ e.old -> CallA("Apply", <<Abs(e, c[1]), Abs(e, c[3]), CallA("List", <<Num(1, NoData)>>, NoData)>>, d)
    [] n[2] = "CodeParser_BinarySlashSlash" -> CallOf(Abs(e, c[3]), <<Abs(e, c[1])>>, d)
    [] n[2] \in {"Put", "PutAppend"} -> CallA(n[2], <<Abs(e, c[1]), File(e, c[3])>>, d)
    [] n[2] = "Unset" -> CallA("Unset", <<Abs(e, c[1])>>, d)
    [] n[2] = "PatternTest" /\ Is(c[1], "Binary", "PatternTest") -> ErrA("NonAssociativePatternTest", <<Abs(e, c[1]), Abs(e, c[3])>>, d)
    [] OTHER -> CallA(n[2], <<Abs(e, c[1]), Abs(e, c[3])>>, d)

Backwards(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
AbsInfix(e, n, c, d) ==
  LET x == EveryOther(c) IN
  CASE n[2] = "CodeParser_InfixInequality" -> Inequal(e, c, n[3], 2, <<Abs(e, c[1]), <<>>>>, "none")
    [] n[2] \in {"SameQ", "UnsameQ"} -> CallA(n[2], AbsSeq(e, x), d)
    [] n[2] = "Plus"  -> Plus(e, c, n[3])
    [] n[2] = "Times" -> Times(e, x, n[3])
    [] n[2] = "Divisible" -> CallA("Divisible", Backwards([i \in DOMAIN x |-> Abs(e, InfixAt(e, x[i], "Divisible"))]), d)
    [] n[2] = "CompoundExpression" ->
         CallA(n[2], [i \in DOMAIN x |-> IF IsLeaf(x[i], {"Fake_ImplicitNull"}) THEN SymA("Null", Data(x[i][3])) ELSE Abs(e, x[i])], d)
    [] n[2] = "MessageName" ->
         CallA("MessageName",
           [i \in DOMAIN x |-> IF i > 1 /\ IsLeaf(x[i], {"String"}) THEN Str(TagText(Lossy(TextIn(e, x[i]))), Data(x[i][3])) ELSE Abs(e, x[i])],
           <<n[3], IF Len(x) > 3 THEN <<Issue("SyntaxUndocumentedMessageName", "Error", n[3], 100, <<>>)>> ELSE <<>>>>)
    [] OTHER -> CallA(n[2], [i \in DOMAIN x |-> Abs(e, InfixAt(e, x[i], n[2]))], d)

AbsTernary(e, n, c, d) ==
  CASE n[2] = "CodeParser_TernaryTilde" ->
         CallOf(IF Is(c[3], "Infix", "CodeParser_Comma") THEN LET a == Abs(e, c[3]) IN ErrA("CommaTopLevel", Tail(a[4]), Data(a[3][1]))
                ELSE Abs(e, c[3]), <<Abs(e, c[1]), Abs(e, c[5])>>, d)
    [] n[2] = "TagUnset" -> CallA("TagUnset", <<Abs(e, c[1]), Abs(e, c[3])>>, d)
    [] OTHER -> CallA(n[2], <<Abs(e, c[1]), Abs(e, c[3]), Abs(e, c[5])>>, d)

AbsGroup(e, n, c, d) ==
  CASE n[2] = "CodeParser_GroupParen" ->
         IF Len(c) = 3 /\ ~Is(c[2], "Infix", "CodeParser_Comma") THEN Abs(e, c[2]) ELSE ErrA("OpenParen", Loose(e, n), d)
    [] n[2] = "CodeParser_GroupSquare"        -> ErrA("OpenSquare", Loose(e, n), d)
    [] n[2] = "CodeParser_GroupTypeSpecifier" -> ErrA("ColonColonOpenSquare", Loose(e, n), d)
    [] n[2] = "CodeParser_GroupDoubleBracket" -> ErrA("LeftDoubleBracket", Loose(e, n), d)
    [] OTHER -> CallA(n[2], GroupArgs(e, n), d)

(*-------------------------------- boxes --------------------------------*)
\* the children of a group if it has this opener, one node and this closer
Bracketed(n, op, open, close) == /\ Is(n, "Group", op) /\ Len(n[4]) = 3
                                 /\ IsLeaf(n[4][1], {open}) /\ IsLeaf(n[4][3], {close})
Square(n)  == Bracketed(n, "CodeParser_GroupSquare", "OpenSquare", "CloseSquare")
Bracket(n) == Bracketed(n, "CodeParser_GroupDoubleBracket", "LongName_LeftDoubleBracket", "LongName_RightDoubleBracket")
Kept(e, n, mid) == <<n[1], n[2], Data(n[3]), <<Abs(e, n[4][1]), mid, Abs(e, n[4][3])>>>>
\* [[x]] in a subscript stays what it is, and so do the parentheses of a derivative in a superscript
AbsBox(e, n, c, d) ==
  LET second == IF Len(c) < 2 THEN <<"", "", <<>>, <<>>>> ELSE c[2]
      tagged == Is(second, "Box", "TagBox") /\ Len(second[4]) = 2 /\ Is(second[4][2], "Code", "System`Evaluated System`Derivative")
      with(x) == <<n[1], n[2], d, <<Abs(e, c[1]), x>>>>
  IN CASE n[2] = "SubscriptBox" /\ Square(second) /\ Square(second[4][2]) ->
            with(Kept(e, second, Kept(e, second[4][2], Abs(e, second[4][2][4][2]))))
       [] n[2] = "SubscriptBox" /\ Bracket(second) -> with(Kept(e, second, Abs(e, second[4][2])))
       [] n[2] = "SuperscriptBox" /\ tagged /\ Bracketed(second[4][1], "CodeParser_GroupParen", "OpenParen", "CloseParen") ->
            LET g == second[4][1] IN
            with(<<"Box", "TagBox", Data(second[3]), <<Kept(e, g, Abs(e, g[4][2])), Abs(e, second[4][2])>>>>)
       [] OTHER -> <<n[1], n[2], d, AbsSeq(e, c)>>

AbsNode(e, n) ==
  LET c == n[4]
      d == Data(n[3])
  IN CASE n[1] = "Compound" -> AbsCompound(e, n, c, d)
       [] n[1] = "Prefix"   -> AbsPrefix(e, n, c, d)
       [] n[1] = "Postfix"  -> AbsPostfix(e, n, c, d)
       [] n[1] = "Binary"   -> AbsBinary(e, n, c, d)
       [] n[1] = "Infix"    -> AbsInfix(e, n, c, d)
       [] n[1] = "Ternary"  -> AbsTernary(e, n, c, d)
       [] n[1] = "Call"     -> AbsCall(e, n)
       [] n[1] = "Group"    -> AbsGroup(e, n, c, d)
       [] n[1] = "GroupMissingCloser" -> <<n[1], n[2], d, OpenArgs(e, n)>>
       [] n[1] = "GroupMissingOpener" -> <<n[1], n[2], d, ShutArgs(e, n)>>
       [] n[1] = "PrefixBinary" ->
            CallA(n[2], <<Abs(e, c[2]), Abs(e, IF c[3][1] = "Prefix" /\ c[3][2] \in {"DifferentialD", "CapitalDifferentialD"} THEN c[3][4][2] ELSE c[3])>>, d)
       [] n[1] = "Box"      -> AbsBox(e, n, c, d)
       [] n[1] = "Code"     -> <<n[1], n[2], d, <<>>>>
       [] n[1] = "SyntaxError" -> <<"SyntaxError", n[2], d, <<Abs(e, c[1]), Abs(e, c[3])>>>>

Abs(e, n) == TLCEval(IF n[1] = "Leaf" THEN AbsLeaf(e, n) ELSE AbsNode(e, n))
=============================================================================
