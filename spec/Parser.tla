------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The parser as a machine.  A machine state is a record                   *)
(*    pos  index the parser stands at                                      *)
(*    ns   node stack: nodes and trivia not yet part of a finished node    *)
(*    cx   operator contexts <<precedence, number of nodes below>>         *)
(*    gs   closers of the groups that are open, outermost first            *)
(*    st   what to do when the operand being parsed is complete            *)
(*    fin  finished top level nodes                                        *)
(*    ctl  what to do next: <<"top">> <<"prefix", token>> <<"climb">>      *)
(*         <<"infix", token>> <<"loop", frame>> <<"ret">> <<"end">>        *)
(*                                                                         *)
(* A token is <<kind, from, to>>; a leaf <<"Leaf", kind, from, to>>; any   *)
(* other node <<tag, operator, children>>.                                 *)
(***************************************************************************)
EXTENDS Recover

PreTable == FunOf(Tables.pre)
InfTable == FunOf(Tables.inf)
PrecTable == FunOf(Tables.prec)
PreKinds == TLCEval(DOMAIN PreTable)
InfKinds == TLCEval(DOMAIN InfTable)
Prec(n)  == PrecTable[n]
PreP(k)  == IF k \in PreKinds THEN PreTable[k] ELSE PreTable["_"]
InfP(k)  == IF k \in InfKinds THEN InfTable[k] ELSE InfTable["_"]

Begins   == TLCEval(Range(Tables.begin))
Closers  == TLCEval(Range(Tables.closers))
ErrorKinds == TLCEval(Range(Tables.errors) \ Begins)
CloserOf == FunOf(Tables.pairs)
NotTop   == TLCEval(TriviaKinds \ {"ToplevelNewline"})
DiffDs   == {"LongName_DifferentialD", "LongName_CapitalDifferentialD"}
Commas   == {"Comma", "LongName_InvisibleComma"}

\* the precedence l of the context is higher than the precedence r of the
\* operator that comes; operators of odd precedence associate to the right
Greater(l, r) == (IF l % 2 = 0 THEN l + 1 ELSE l) > r

(*------------------------------ reading --------------------------------*)
LastOf(s)  == s[Len(s)]
ButLast(s) == SubSeq(s, 1, Len(s) - 1)

Mode(m) == IF m.gs = <<>> THEN "top" ELSE "in"
TokIn(C, i, mode) == LET t == Lex(C, i, mode) IN <<t[1], i, t[2]>>
Peek(C, m) == TokIn(C, m.pos, Mode(m))
Leaf(t) == <<"Leaf", t[1], t[2], t[3]>>
At0(kind, t) == <<kind, t[2], t[2]>>       \* an inserted token in front of t

\* the trivia of the given kinds from i on, and the token after them
RECURSIVE SkipFrom(_, _, _, _, _)
SkipFrom(C, i, mode, kinds, acc) ==
  LET t == TokIn(C, i, mode) IN
  IF t[1] \in kinds THEN SkipFrom(C, t[3], mode, kinds, Append(acc, Leaf(t))) ELSE <<acc, t>>

SkipAll(C, m)  == SkipFrom(C, m.pos, Mode(m), TriviaKinds, <<>>)
SkipLine(C, m) == SkipFrom(C, m.pos, Mode(m), NotTop, <<>>)
SkipFile(C, m) == SkipFrom(C, m.pos, "file", TriviaKinds, <<>>)

(*----------------------------- the stacks ------------------------------*)
PushNode(m, n)  == [m EXCEPT !.ns = Append(@, n)]
Push(m, t)      == [m EXCEPT !.ns = Append(@, Leaf(t)), !.pos = t[3]]
PushTrivia(m, k) == [m EXCEPT !.ns = @ \o k[1], !.pos = k[2][2]]
Insert(m, kind, t) == PushNode(m, Leaf(At0(kind, t)))
Ctx(m, p)  == [m EXCEPT !.cx = Append(@, <<p, Len(m.ns) - 1>>)]
SetPrec(m, p) == [m EXCEPT !.cx[Len(m.cx)] = <<p, @[2]>>]
TopPrec(m) == IF m.cx = <<>> THEN 0 ELSE LastOf(m.cx)[1]
Reduce(m, tag, op) ==
  LET s == LastOf(m.cx)[2] IN
  [m EXCEPT !.ns = Append(SubSeq(@, 1, s), <<tag, op, SubSeq(@, s + 1, Len(@))>>), !.cx = ButLast(@)]

Go(m, c)      == [m EXCEPT !.ctl = c]
Climb(m)      == Go(m, <<"climb">>)
Return(m)     == Go(m, <<"ret">>)
\* parse the operand that starts with token t, then resume with frame f
Operand(m, t, f) == [m EXCEPT !.st = Append(@, f), !.ctl = <<"prefix", t>>]
\* skip trivia and parse the operand after it
NextOperand(C, m, f) == LET k == SkipAll(C, m) IN Operand(PushTrivia(m, k), k[2], f)

RECURSIVE LastSignificant(_, _)
LastSignificant(ns, i) ==
  IF ns[i][1] = "Leaf" /\ ns[i][2] \in TriviaKinds THEN LastSignificant(ns, i - 1) ELSE ns[i]
TopNode(m) == LastSignificant(m.ns, Len(m.ns))

(*------------------------- infix position ------------------------------*)
\* the operator in front of which a multiplication sign is understood
Implicit(m, t) ==
  LET p == InfP(t[1])[1] IN
  CASE p = "InfixImplicitTimesParselet" -> At0("Fake_ImplicitTimes", t)
    [] p = "SemiSemiParselet" /\ TopNode(m)[1] \in {"Binary", "Ternary"} /\ TopNode(m)[2] = "Span"
         -> At0("Fake_ImplicitTimes", t)
    [] p = "InfixDifferentialDParselet" /\ TopPrec(m) # Prec("CLASS_INTEGRATIONOPERATORS")
         -> At0("Fake_ImplicitTimes", t)
    [] OTHER -> t

RECURSIVE InPattern(_, _)
InPattern(cx, i) ==
  IF i = 0 \/ cx[i][1] = 0 THEN FALSE
  ELSE IF cx[i][1] > Prec("FAKE_PATTERNCOLON") THEN InPattern(cx, i - 1)
  ELSE cx[i][1] = Prec("FAKE_PATTERNCOLON")

InfixPrec(m, t) ==
  LET p == InfP(t[1]) IN
  CASE p[1] \in {"InfixAssertFalseParselet", "InfixToplevelNewlineParselet"} -> 0
    [] p[1] \in {"BinaryOperatorParselet", "InfixOperatorParselet", "PostfixOperatorParselet"} -> p[2]
    [] p[1] = "InfixDifferentialDParselet" ->
         IF TopPrec(m) = Prec("CLASS_INTEGRATIONOPERATORS") THEN 0 ELSE Prec("FAKE_IMPLICITTIMES")
    [] p[1] = "ColonParselet" ->
         IF InPattern(m.cx, Len(m.cx)) THEN Prec("FAKE_OPTIONALCOLON") ELSE Prec("HIGHEST")
    [] p[1] = "TimesParselet" -> Prec("STAR")
    [] p[1] = "CallParselet" -> Prec("CALL")
    [] p[1] = "CommaParselet" -> Prec("COMMA")
    [] p[1] = "SemiParselet" -> Prec("SEMI")
    [] p[1] = "SemiSemiParselet" -> Prec("SEMISEMI")
    [] p[1] = "TildeParselet" -> Prec("TILDE")
    [] p[1] = "SlashColonParselet" -> Prec("SLASHCOLON")
    [] p[1] = "EqualParselet" -> Prec("EQUAL")
    [] p[1] = "ColonEqualParselet" -> Prec("COLONEQUAL")
    [] p[1] = "ColonColonParselet" -> Prec("COLONCOLON")
    [] p[1] = "GreaterGreaterParselet" -> Prec("GREATERGREATER")
    [] p[1] = "GreaterGreaterGreaterParselet" -> Prec("GREATERGREATERGREATER")

\* the flat infix operator a token belongs to, or ""
InfixOp(t) == LET p == InfP(t[1]) IN
  CASE p[1] = "InfixOperatorParselet" -> p[3]
    [] p[1] = "TimesParselet" -> "Times"
    [] OTHER -> ""

\* after an operand: continue with the operator that follows, if it binds
\* tighter than what is waiting for the operand
DoClimb(C, m) ==
  LET k == SkipLine(C, m)
      t == Implicit(m, k[2])
      p == InfixPrec(m, t)
  IN IF Greater(TopPrec(m), p) THEN Return(m)
     ELSE Go(PushTrivia(Ctx(m, p), k), <<"infix", t>>)

(*------------------------------- groups --------------------------------*)
RECURSIVE LeavesOf(_, _, _)
LeavesOf(ns, i, acc) ==
  IF i > Len(ns) THEN acc
  ELSE LeavesOf(ns, i + 1, IF ns[i][1] = "Leaf" THEN Append(acc, ns[i]) ELSE LeavesOf(ns[i][3], 1, acc))
Leaves(ns) == LeavesOf(ns, 1, <<>>)

OpenGroup(m, t, op) ==
  LET g == [m EXCEPT !.gs = Append(@, CloserOf[t[1]])] IN
  Go(Ctx(Push(g, t), 0), <<"loop", <<"group", op>>>>)

\* an unterminated group keeps, flat, the tokens up to the line where it is cut
\* (conv = "raw": it is not cut)
Flatten(C, m, conv) ==
  LET n  == TopNode(m)
      ls == Leaves(n[3])
      e  == CutAt(C, ls[1][3], conv)
      ok(l) == l[3] <= e
  IN [m EXCEPT !.ns[Len(m.ns)] = <<n[1], n[2], SelectSeq(ls, ok)>>]

GroupLoop(C, m, op, conv) ==
  LET k == SkipAll(C, m)
      t == k[2]
      own == LastOf(m.gs)
      Close(x) == [x EXCEPT !.gs = ButLast(@)]
  IN
  IF t[1] = own THEN Climb(Close(Reduce(Push(PushTrivia(m, k), t), "Group", op)))
  ELSE IF t[1] \in Closers THEN
       IF t[1] \in Range(m.gs) THEN Return(Close(Reduce(m, "GroupMissingCloser", op)))
       ELSE Go(Push(PushTrivia(m, k), <<"Error_UnexpectedCloser", t[2], t[3]>>), <<"loop", <<"group", op>>>>)
  ELSE IF t[1] = "EndOfFile" THEN
       LET r == Close(Reduce(PushTrivia(m, k), "GroupMissingCloser", op)) IN
       Return(IF ValidUtf8(C) /\ conv # "raw" THEN Flatten(C, r, conv) ELSE r)
  ELSE Operand(PushTrivia(m, k), t, <<"group", op>>)

(*-------------------------- prefix position ----------------------------*)
Compound(op, kids) == <<"Compound", op, kids>>

\* blanks: _ and __ and ___ , with the head that may be attached
Blank(C, t) ==       \* <<node, index after it>>
  LET h == TokIn(C, t[3], "top") IN
  IF h[1] \in {"Symbol", "Error_ExpectedLetterlike"}
  THEN <<Compound(PreP(t[1])[2], <<Leaf(t), Leaf(h)>>), h[3]>>
  ELSE <<Leaf(t), t[3]>>

AddAt(m, n, i) == [PushNode(m, n) EXCEPT !.pos = i]

DoSymbol(C, m, t) ==
  LET u == TokIn(C, t[3], "top") IN
  IF u[1] \in {"Under", "UnderUnder", "UnderUnderUnder"}
  THEN LET b == Blank(C, u) IN Climb(AddAt(m, Compound(PreP(u[1])[3], <<Leaf(t), b[1]>>), b[2]))
  ELSE IF u[1] = "UnderDot"
  THEN Climb(AddAt(m, Compound("CodeParser_PatternOptionalDefault", <<Leaf(t), Leaf(u)>>), u[3]))
  ELSE Climb(Push(m, t))

\* # ## % with the number or name that may be attached
Attached(C, m, t, mode, kinds, op) ==
  LET u == TokIn(C, t[3], mode) IN
  IF u[1] \in kinds THEN Climb(AddAt(m, Compound(op, <<Leaf(t), Leaf(u)>>), u[3]))
  ELSE Climb(Push(m, t))

MissingKind(m) == IF TopPrec(m) = Prec("COMMA") THEN "Error_InfixImplicitNull" ELSE "Error_ExpectedOperand"

DoPrefix(C, m, t) ==
  LET p == PreP(t[1]) IN
  CASE p[1] \in {"LeafParselet", "UnderDotParselet"} -> Climb(Push(m, t))
    [] p[1] = "PrefixErrorParselet" -> Return(Push(m, t))
    [] p[1] \in {"PrefixCloserParselet", "PrefixEndOfFileParselet"} -> Return(Insert(m, MissingKind(m), t))
    [] p[1] = "PrefixUnsupportedTokenParselet" -> Return(Push(m, <<"Error_UnsupportedToken", t[2], t[3]>>))
    [] p[1] = "PrefixCommaParselet" ->
         Climb(Insert(m, IF TopPrec(m) = 0 THEN "Error_PrefixImplicitNull" ELSE "Error_ExpectedOperand", t))
    [] p[1] = "PrefixUnhandledParselet" ->
         LET i == Insert(m, "Error_ExpectedOperand", t)
             q == InfixPrec(m, t)
         IN IF Greater(TopPrec(m), q) THEN Return(i) ELSE Go(Ctx(i, q), <<"infix", t>>)
    [] p[1] = "SymbolParselet" -> DoSymbol(C, m, t)
    [] p[1] = "UnderParselet" -> LET b == Blank(C, t) IN Climb(AddAt(m, b[1], b[2]))
    [] p[1] = "HashParselet" -> Attached(C, m, t, "slot", {"Integer", "String"}, "Slot")
    [] p[1] = "HashHashParselet" -> Attached(C, m, t, "slots", {"Integer"}, "SlotSequence")
    [] p[1] = "PercentParselet" -> Attached(C, m, t, "slots", {"Integer"}, "Out")
    [] p[1] = "PrefixOperatorParselet" -> NextOperand(C, Ctx(Push(m, t), p[2]), <<"prefix", p[3]>>)
    [] p[1] = "LessLessParselet" ->
         LET a == Ctx(Push(m, t), Prec("HIGHEST"))
             k == SkipFile(C, a)
         IN Climb(Reduce(Push(PushTrivia(a, k), k[2]), "Prefix", "Get"))
    [] p[1] = "SemiSemiParselet" -> Go(Ctx(Insert(m, "Fake_ImplicitOne", t), Prec("SEMISEMI")), <<"infix", t>>)
    [] p[1] = "IntegralParselet" ->
         LET a == Ctx(Push(m, t), Prec("CLASS_INTEGRATIONOPERATORS"))
             k == SkipAll(C, a)
             b == PushTrivia(a, k)
             f == <<"integral", p[2], p[3]>>
         IN IF k[2][1] \in DiffDs THEN Go(Insert(b, "Fake_ImplicitOne", k[2]), <<"loop", f>>)
            ELSE Operand(b, k[2], f)
    [] p[1] = "GroupParselet" -> OpenGroup(m, t, p[3])

(*------------------------- operators -----------------------------------*)
ColonForm(m) ==
  LET n == TopNode(m) IN
  CASE n[1] = "Binary" -> IF n[2] = "Pattern" THEN "Optional" ELSE "Error"
    [] n[1] = "Compound" ->
         IF n[2] \in {"CodeParser_PatternBlank", "CodeParser_PatternBlankSequence",
                      "CodeParser_PatternBlankNullSequence", "Blank", "BlankSequence", "BlankNullSequence"}
         THEN "Optional" ELSE "Error"
    [] n[1] = "Leaf" ->
         IF n[2] = "Symbol" THEN "Pattern"
         ELSE IF n[2] \in {"Under", "UnderUnder", "UnderUnderUnder"} THEN "Optional"
         ELSE IF n[2] \in ErrorKinds THEN "Pattern" ELSE "Error"
    [] OTHER -> "Error"

CommaOperand(C, m) ==
  LET k == SkipAll(C, m)
      a == PushTrivia(m, k)
  IN IF k[2][1] \in Commas THEN Go(Insert(a, "Error_InfixImplicitNull", k[2]), <<"loop", <<"comma">>>>)
     ELSE Operand(a, k[2], <<"comma">>)

SemiOperand(C, m) ==
  LET k == SkipLine(C, m)
      a == PushTrivia(m, k)
      null == Insert(a, "Fake_ImplicitNull", k[2])
  IN IF k[2][1] = "Semi" THEN Go(null, <<"loop", <<"semi">>>>)
     ELSE IF k[2][1] \in Begins THEN Operand(a, k[2], <<"semi">>)
     ELSE Climb(Reduce(null, "Infix", "CompoundExpression"))

TagOperand(C, m) == Go(Push(m, TokIn(C, m.pos, "tag")), <<"loop", <<"tag">>>>)

ToFile(C, m, op) ==
  LET k == SkipFile(C, m) IN Climb(Reduce(Push(PushTrivia(m, k), k[2]), "Binary", op))

\* a second ;; continues the span only if an operand follows it
SpanThird(C, m, semi) ==      \* <<continues, trivia and token after semi>>
  LET k == SkipFrom(C, semi[3], Mode(m), NotTop, <<>>) IN
  <<k[2][1] \in Begins /\ k[2][1] # "SemiSemi", k>>

SpanOperand(C, m) ==
  LET k == SkipLine(C, m)
      a == PushTrivia(m, k)
      t == k[2]
  IN
  IF t[1] \notin Begins THEN Climb(Reduce(Insert(a, "Fake_ImplicitAll", t), "Binary", "Span"))
  ELSE IF t[1] # "SemiSemi" THEN Operand(a, t, <<"span">>)
  ELSE LET b == Insert(a, "Fake_ImplicitAll", t)
           z == SpanThird(C, b, t)
       IN IF ~z[1] THEN Climb(Reduce(b, "Binary", "Span"))
          ELSE Operand(PushTrivia(Push(b, t), z[2]), z[2][2], <<"reduce", "Ternary", "Span">>)

DoInfix(C, m, t) ==
  LET p == InfP(t[1])
      a == Push(m, t)
  IN
  CASE p[1] = "BinaryOperatorParselet" -> NextOperand(C, a, <<"reduce", "Binary", p[3]>>)
    [] p[1] = "InfixOperatorParselet" -> NextOperand(C, a, <<"infix", p[3]>>)
    [] p[1] = "TimesParselet" -> NextOperand(C, a, <<"times">>)
    [] p[1] = "PostfixOperatorParselet" -> Climb(Reduce(a, "Postfix", p[3]))
    [] p[1] = "CallParselet" ->
         LET b == SetPrec(m, Prec("HIGHEST")) IN
         OpenGroup([b EXCEPT !.st = Append(@, <<"call">>)], t, p[3])
    [] p[1] = "CommaParselet" -> CommaOperand(C, a)
    [] p[1] = "SemiParselet" -> SemiOperand(C, a)
    [] p[1] = "SemiSemiParselet" -> SpanOperand(C, a)
    [] p[1] = "TildeParselet" -> NextOperand(C, a, <<"tilde">>)
    [] p[1] = "ColonParselet" ->
         LET f == ColonForm(m)
             k == SkipAll(C, a)
             b == SetPrec(PushTrivia(a, k), IF f = "Optional" THEN Prec("FAKE_OPTIONALCOLON") ELSE Prec("FAKE_PATTERNCOLON"))
         IN Operand(b, k[2], IF f = "Error" THEN <<"reduce", "SyntaxError", "ExpectedSymbol">> ELSE <<"reduce", "Binary", f>>)
    [] p[1] = "SlashColonParselet" -> NextOperand(C, a, <<"tagset">>)
    [] p[1] = "EqualParselet" ->
         LET k == SkipAll(C, a)
             b == PushTrivia(a, k)
         IN IF k[2][1] = "Dot" THEN Climb(Reduce(Push(b, k[2]), "Binary", "Unset"))
            ELSE Operand(b, k[2], <<"reduce", "Binary", "Set">>)
    [] p[1] = "ColonEqualParselet" -> NextOperand(C, a, <<"reduce", "Binary", "SetDelayed">>)
    [] p[1] = "ColonColonParselet" -> TagOperand(C, a)
    [] p[1] = "GreaterGreaterParselet" -> ToFile(C, a, "Put")
    [] p[1] = "GreaterGreaterGreaterParselet" -> ToFile(C, a, "PutAppend")

(*----------------- what happens when an operand is complete ------------*)
InfixLoop(C, m, op) ==
  LET k == SkipAll(C, m) IN
  IF InfixOp(k[2]) = op THEN NextOperand(C, Push(PushTrivia(m, k), k[2]), <<"infix", op>>)
  ELSE Climb(Reduce(m, "Infix", op))

\* a multiplication that is only understood does not cross a top level newline
TimesLoop(C, m) ==
  LET k1 == SkipAll(C, m)
      t1 == Implicit(m, k1[2])
      k  == IF t1[1] = "Fake_ImplicitTimes" THEN SkipLine(C, m) ELSE k1
      t  == Implicit(m, k[2])
  IN IF InfixOp(t) = "Times" THEN NextOperand(C, Push(PushTrivia(m, k), t), <<"times">>)
     ELSE Climb(Reduce(m, "Infix", "Times"))

Loop(C, m, f, conv) ==
  LET k == SkipAll(C, m)
      t == k[2]
      a == Push(PushTrivia(m, k), t)
  IN
  CASE f[1] = "group" -> GroupLoop(C, m, f[2], conv)
    [] f[1] = "reduce" -> Climb(Reduce(m, f[2], f[3]))
    [] f[1] = "prefix" -> Climb(Reduce(m, "Prefix", f[2]))
    [] f[1] = "infix" -> InfixLoop(C, m, f[2])
    [] f[1] = "times" -> TimesLoop(C, m)
    [] f[1] = "call" -> Climb(Reduce(m, "Call", ""))
    [] f[1] = "comma" -> IF t[1] \in Commas THEN CommaOperand(C, a) ELSE Return(Reduce(m, "Infix", "CodeParser_Comma"))
    [] f[1] = "semi" -> IF t[1] = "Semi" THEN SemiOperand(C, a) ELSE Climb(Reduce(m, "Infix", "CompoundExpression"))
    [] f[1] = "tag" -> IF t[1] = "ColonColon" THEN TagOperand(C, a) ELSE Climb(Reduce(m, "Infix", "MessageName"))
    [] f[1] = "tilde" -> IF t[1] = "Tilde" THEN NextOperand(C, a, <<"reduce", "Ternary", "CodeParser_TernaryTilde">>)
                         ELSE Climb(Reduce(m, "SyntaxError", "ExpectedTilde"))
    [] f[1] = "tagset" ->
         IF t[1] = "Equal" THEN
            LET b == SetPrec(a, Prec("EQUAL"))
                q == SkipAll(C, b)
                c == PushTrivia(b, q)
            IN IF q[2][1] = "Dot" THEN Climb(Reduce(Push(c, q[2]), "Ternary", "TagUnset"))
               ELSE Operand(c, q[2], <<"reduce", "Ternary", "TagSet">>)
         ELSE IF t[1] = "ColonEqual"
         THEN NextOperand(C, SetPrec(a, Prec("COLONEQUAL")), <<"reduce", "Ternary", "TagSetDelayed">>)
         ELSE Climb(Reduce(m, "SyntaxError", "ExpectedSet"))
    [] f[1] = "span" ->
         LET l == SkipLine(C, m)
             s == l[2]
             z == SpanThird(C, m, s)
         IN IF s[1] = "SemiSemi" /\ z[1]
            THEN Operand(PushTrivia(Push(PushTrivia(m, l), s), z[2]), z[2][2], <<"reduce", "Ternary", "Span">>)
            ELSE Climb(Reduce(m, "Binary", "Span"))
    [] f[1] = "integral" ->
         IF t[1] \in DiffDs THEN Operand(PushTrivia(m, k), t, <<"reduce", "PrefixBinary", f[2]>>)
         ELSE Climb(Reduce(m, "Prefix", f[3]))
    [] f[1] = "top" -> [m EXCEPT !.fin = @ \o m.ns, !.ns = <<>>, !.ctl = <<"top">>]

DoReturn(m) == [m EXCEPT !.st = ButLast(@), !.ctl = <<"loop", LastOf(m.st)>>]

DoTop(C, m) ==
  LET t == Peek(C, m)
      done(n) == [m EXCEPT !.fin = Append(@, n), !.pos = t[3]]
  IN
  IF t[1] = "EndOfFile" THEN Go(m, <<"end">>)
  ELSE IF t[1] \in TriviaKinds THEN done(Leaf(t))
  ELSE IF t[1] \in Closers THEN done(<<"Leaf", "Error_UnexpectedCloser", t[2], t[3]>>)
  ELSE Operand(m, t, <<"top">>)

Machine(i) == [pos |-> i, ns |-> <<>>, cx |-> <<>>, gs |-> <<>>, st |-> <<>>, fin |-> <<>>, ctl |-> <<"top">>]

\* where a script's first line ends: the index at which parsing starts
RECURSIVE LineOver(_, _)
LineOver(C, i) ==
  IF C.s[i] = Eof THEN i ELSE IF C.s[i] \in {10, 13, -13} THEN i + 1 ELSE LineOver(C, i + 1)
ScriptStart(C) == IF C.s[1] = 35 /\ C.s[2] = 33 THEN LineOver(C, 3) ELSE 1
=============================================================================
