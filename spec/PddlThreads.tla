---------------------------- MODULE PddlThreads ----------------------------
(* Threads that parse at the same time, each with its own parser.  What they share is the traceback
   limit of the interpreter, which is 0 while a text is being parsed: the first to enter stores the value of
   the interpreter, the last to leave restores it. *)
EXTENDS PddlBase

VARIABLES
    pc,        \* thread -> "out" (not yet started), "in", "done"
    limit,     \* traceback limit of the interpreter
    saved      \* value stored by the first to enter
thvars == <<pc, limit, saved>>

Zero == "0"
Inside(p) == {t \in DOMAIN p : p[t] = "in"}
InitThreads(T, base) == pc = [t \in T |-> "out"] /\ limit = base /\ saved = base
Enter(t) == /\ pc[t] = "out"
            /\ pc' = [pc EXCEPT ![t] = "in"]
            /\ saved' = IF Inside(pc) = {} THEN limit ELSE saved
            /\ limit' = Zero
Leave(t) == /\ pc[t] = "in"
            /\ pc' = [pc EXCEPT ![t] = "done"]
            /\ limit' = IF Inside(pc) = {t} THEN saved ELSE limit
            /\ UNCHANGED saved

Quiet(base) == Inside(pc) = {} => limit = base
Suppressed == Inside(pc) # {} => limit = Zero
=============================================================================
