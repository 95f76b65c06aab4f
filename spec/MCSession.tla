----------------------------- MODULE MCSession -----------------------------
(* A parser object used for several texts.  The texts and their token trees are given. *)
EXTENDS PddlReader, Json, IOUtils

CONSTANTS Depth, Kind

Pool == TLCEval(SelectSeq(JsonDeserialize(IOEnv.PDDL_POOL), LAMBDA t : t.kind = Kind))
ReadText(t) == IF t.lex THEN Read(t.kind, t.forms) ELSE Rejected
Meaning == TLCEval(Map(ReadText, Pool))

VARIABLES hist, results
vars == <<hist, results>>
Init == hist = <<>> /\ results = <<>>
\* the parser has no state: a result only depends on the text
Parse(i) == hist' = Append(hist, i) /\ results' = Append(results, Meaning[i])
Next == Len(hist) < Depth /\ \E i \in DOMAIN Pool : Parse(i)
Spec == Init /\ [][Next]_vars
SameTextSameResult == \A i, j \in DOMAIN hist : hist[i] = hist[j] => results[i] = results[j]
ResultIsMeaning == \A i \in DOMAIN hist : results[i] = ReadText(Pool[hist[i]])
\* the pool is worth it: some texts are accepted, some rejected, and meanings differ
PoolVaried == /\ \E i \in DOMAIN Pool : Meaning[i].ok
              /\ \E i \in DOMAIN Pool : ~Meaning[i].ok
              /\ Cardinality({i \in DOMAIN Pool : Meaning[i].ok}) >= 3
Emit == Len(hist) = Depth => PrintT("@@CASE " \o ToJson([kind |-> Kind, hist |-> hist]))
View0 == hist
=============================================================================
