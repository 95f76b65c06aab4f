------------------------------- MODULE PddlReq -------------------------------
(* Requirements: which construct needs which, and what implies what. *)
EXTENDS PddlBase

AllReqs == {":strips", ":typing", ":negative-preconditions", ":disjunctive-preconditions",
            ":universal-preconditions", ":existential-preconditions", ":quantified-preconditions",
            ":equality", ":conditional-effects", ":adl", ":derived-predicates", ":non-deterministic",
            ":fluents", ":object-fluents", ":numeric-fluents", ":action-costs"}

\* requirement keys that can be written in a file
ReqKeys == AllReqs \ {":object-fluents"}

Implied(r) ==
    CASE r = ":quantified-preconditions" -> {":universal-preconditions", ":existential-preconditions"}
      [] r = ":adl" -> {":strips", ":typing", ":negative-preconditions", ":disjunctive-preconditions", ":equality",
                        ":conditional-effects", ":universal-preconditions", ":existential-preconditions"}
      [] r = ":fluents" -> {":object-fluents", ":numeric-fluents"}
      [] OTHER -> {}

Closure(R) == R \cup UNION {Implied(r) : r \in R}

\* the requirement each gated construct needs (after closure)
Gate == [ or |-> ":disjunctive-preconditions", imply |-> ":disjunctive-preconditions",
          forall |-> ":universal-preconditions", exists |-> ":existential-preconditions",
          eq |-> ":equality", oneof |-> ":non-deterministic", typing |-> ":typing",
          fluents |-> ":numeric-fluents", cost |-> ":action-costs" ]

Allows(closed, construct) == Gate[construct] \in closed
=============================================================================
