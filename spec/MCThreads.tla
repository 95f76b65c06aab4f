----------------------------- MODULE MCThreads -----------------------------
(* Every interleaving of N parses, each entered and left once, for every limit of the interpreter.  Every
   complete interleaving is replayed with real threads. *)
EXTENDS PddlThreads, Json

CONSTANTS N, Bases

VARIABLES base, hist
vars == <<pc, limit, saved, base, hist>>
Threads == 1..N
Init == base \in Bases /\ hist = <<>> /\ InitThreads(Threads, base)
Step(t, a) == hist' = Append(hist, <<t, a>>) /\ UNCHANGED base
Next == \E t \in Threads : (Enter(t) /\ Step(t, "enter")) \/ (Leave(t) /\ Step(t, "leave"))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LimitRestored == Quiet(base)
LimitZero == Suppressed
Ends == <>(\A t \in Threads : pc[t] = "done")
Emit == Len(hist) = 2 * N => PrintT("@@CASE " \o ToJson([base |-> base, hist |-> hist]))
=============================================================================
