------------------------------ MODULE Symbols -------------------------------
(***************************************************************************)
(* Every token kind, operator and syntax error has one symbol, and within   *)
(* its class no two share one (except the two kinds of newline).            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

\* class -> sequence of <<name, symbol, bytes of the symbol>>
SymbolTable == TLCEval(JsonDeserialize("symbols.json"))
Classes == DOMAIN SymbolTable
RowsOf(c) == {SymbolTable[c][i] : i \in DOMAIN SymbolTable[c]}
NamesOf == TLCEval([c \in Classes |-> {r[1] : r \in RowsOf(c)}])
\* the symbol of a name, as bytes
SymbolOf == TLCEval([c \in Classes |-> [n \in NamesOf[c] |-> (CHOOSE r \in RowsOf(c) : r[1] = n)[3]]])
\* the names a symbol stands for
Standing == TLCEval([c \in Classes |-> [s \in {r[3] : r \in RowsOf(c)} |-> {r[1] : r \in {q \in RowsOf(c) : q[3] = s}}]])
Names(c, s) == IF s \in DOMAIN Standing[c] THEN Standing[c][s] ELSE {}

ASSUME Unambiguous ==
  \A c \in Classes : \A s \in DOMAIN Standing[c] :
     Cardinality(Standing[c][s]) = 1 \/ Standing[c][s] = {"InternalNewline", "ToplevelNewline"}
=============================================================================
