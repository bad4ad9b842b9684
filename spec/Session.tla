------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Calls and the settings they leave behind.  A thread has a cell with     *)
(* quirk settings.  Parsing and abstracting set it, abstracting reads it   *)
(* while other threads work, and a program may set it by hand.  Every call *)
(* has to see the settings it was given: that is what makes results depend *)
(* on the call alone.                                                      *)
(*                                                                         *)
(* TLC explores all interleavings and prints the history of each one, to   *)
(* be replayed on the real code.  With Shared the threads share one cell   *)
(* (as they must not), and with Lazy abstracting relies on what parsing    *)
(* has set; TLC then finds a call that sees other settings.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Threads, Length, Kinds, Shared, Lazy, Emit

Quirks == {1, 2}
Calls == {<<k, q>> : k \in Kinds, q \in Quirks}
Other(q) == 3 - q

VARIABLES cell,    \* settings of each thread
          run,     \* what each thread is doing: <<call number, kind, quirks, phase, seen>> or <<>>
          hist     \* what has happened: <<"B", call, thread, kind, quirks>>, <<"E", call>>
vars == <<cell, run, hist>>

Begun == Len(SelectSeq(hist, LAMBDA e : e[1] = "B"))
Idle(t) == run[t] = <<>>

Init == /\ cell = [t \in Threads |-> 1]
        /\ run = [t \in Threads |-> <<>>]
        /\ hist = <<>>

Put(t, q) == cell' = [u \in Threads |-> IF u = t \/ Shared THEN q ELSE cell[u]]

Begin(t) == /\ Idle(t) /\ Begun < Length
            /\ \E c \in Calls :
               /\ hist' = Append(hist, <<"B", Begun + 1, t, c[1], c[2]>>)
               /\ run' = [run EXCEPT ![t] = <<Begun + 1, c[1], c[2], "work", 0>>]
            /\ UNCHANGED cell

\* parsing sets the cell; "abs" parses with other settings and abstracts with its own
Work(t) == /\ ~Idle(t) /\ run[t][4] = "work"
           /\ LET k == run[t][2] IN
              /\ CASE k = "tok" -> UNCHANGED cell
                   [] k = "abs" -> Put(t, Other(run[t][3]))
                   [] OTHER -> Put(t, run[t][3])
              /\ run' = [run EXCEPT ![t][4] = IF k \in {"ast", "abs"} THEN "set" ELSE "done"]
           /\ UNCHANGED hist
Set(t) == /\ ~Idle(t) /\ run[t][4] = "set"
          /\ IF Lazy THEN UNCHANGED cell ELSE Put(t, run[t][3])
          /\ run' = [run EXCEPT ![t][4] = "read"]
          /\ UNCHANGED hist
Read(t) == /\ ~Idle(t) /\ run[t][4] = "read"
           /\ run' = [run EXCEPT ![t][4] = "done", ![t][5] = cell[t]]
           /\ UNCHANGED <<cell, hist>>
End(t) == /\ ~Idle(t) /\ run[t][4] = "done"
          /\ hist' = Append(hist, <<"E", run[t][1]>>)
          /\ run' = [run EXCEPT ![t] = <<>>]
          /\ UNCHANGED cell

Next == \E t \in Threads : Begin(t) \/ Work(t) \/ Set(t) \/ Read(t) \/ End(t)
Spec == Init /\ [][Next]_vars

\* every call that reads the settings reads its own
Own == \A t \in Threads : (~Idle(t) /\ run[t][5] # 0) => run[t][5] = run[t][3]

Over == Begun = Length /\ \A t \in Threads : Idle(t)
Emitted == (Emit /\ Over) => PrintT("HISTORY " \o ToJson(hist))
=============================================================================
