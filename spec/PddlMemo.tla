----------------------------- MODULE PddlMemo -----------------------------
(* A value whose hash is computed once and kept, used by threads at the same time.  Every thread either
   asks for the hash or makes a copy.  A copy takes over the components and no hash (the hash of another
   process would be wrong there); the original only ever gains its hash. *)
EXTENDS PddlBase

VARIABLES
    todo,      \* thread -> its next step
    memo,      \* the kept hash of the value, or None
    result     \* thread -> what it got
memovars == <<todo, memo, result>>

None == "none"
Hash == "hash"
First(op) == IF op = "hash" THEN "test" ELSE "snapshot"
InitMemo(ops, m) == /\ todo = [t \in DOMAIN ops |-> First(ops[t])]
                    /\ memo = m
                    /\ result = [t \in DOMAIN ops |-> None]
Goto(t, s) == todo' = [todo EXCEPT ![t] = s]
Test(t) == /\ todo[t] = "test"
           /\ Goto(t, IF memo = None THEN "store" ELSE "load")
           /\ UNCHANGED <<memo, result>>
Store(t) == todo[t] = "store" /\ memo' = Hash /\ Goto(t, "load") /\ UNCHANGED result
Load(t) == todo[t] = "load" /\ result' = [result EXCEPT ![t] = memo] /\ Goto(t, "done") /\ UNCHANGED memo
Snapshot(t) == todo[t] = "snapshot" /\ result' = [result EXCEPT ![t] = memo] /\ Goto(t, "strip") /\ UNCHANGED memo
Strip(t) == todo[t] = "strip" /\ result' = [result EXCEPT ![t] = None] /\ Goto(t, "done") /\ UNCHANGED memo
MemoStep(t) == Test(t) \/ Store(t) \/ Load(t) \/ Snapshot(t) \/ Strip(t)

HashIsThere == \A t \in DOMAIN todo : todo[t] = "load" => memo = Hash
Outcome(ops) == \A t \in DOMAIN todo : todo[t] = "done" => result[t] = IF ops[t] = "hash" THEN Hash ELSE None
NeverLost == [][memo = Hash => memo' = Hash]_memovars
=============================================================================
