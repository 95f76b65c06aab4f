------------------------------ MODULE MCMemo ------------------------------
(* Every interleaving of N threads that hash or copy one value, hashed before or not.  Every complete
   interleaving is replayed with real threads, switched between the instructions of the library. *)
EXTENDS PddlMemo, Json

CONSTANT N

VARIABLES ops, before, hist
vars == <<todo, memo, result, ops, before, hist>>
Init == /\ ops \in [1..N -> {"hash", "copy"}]
        /\ before \in {None, Hash}
        /\ hist = <<>>
        /\ InitMemo(ops, before)
Next == \E t \in 1..N : /\ MemoStep(t)
                        /\ hist' = Append(hist, t)
                        /\ UNCHANGED <<ops, before>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == Outcome(ops)
Ended == \A t \in 1..N : todo[t] = "done"
Ends == <>Ended
Emit == Ended => PrintT("@@CASE " \o ToJson([ops |-> ops, before |-> before, hist |-> hist]))
=============================================================================
