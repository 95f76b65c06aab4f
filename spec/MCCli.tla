------------------------------- MODULE MCCli -------------------------------
(* The command line on every combination of good, bad, mismatching and missing files. *)
EXTENDS MCWorld, PddlWriter, Json

CONSTANT Many       \* TRUE: all domains and problems

Good(kind, v) == [there |-> TRUE, lex |-> TRUE, forms |-> Write(kind, v)]
Gone == [there |-> FALSE, lex |-> FALSE, forms |-> <<>>]
Garbage == [there |-> TRUE, lex |-> TRUE, forms |-> <<Nm("define")>>]
Empty == [there |-> TRUE, lex |-> TRUE, forms |-> <<>>]
Step(nm, as) == [nm |-> nm, as |-> as]

DomFiles == [d |-> Good("domain", Domains["d"]), plain |-> Good("domain", Domains["plain"]),
             gone |-> Gone, garbage |-> Garbage, problem |-> Good("problem", Problems["ok"]),
             cyclic |-> Good("domain", [Base EXCEPT !.types = {<<"t", "s">>, <<"s", "t">>}])]
            @@ (IF Many THEN [upper |-> Good("domain", Domains["upper"]), other |-> Good("domain", Domains["other"]), empty |-> Empty] ELSE <<>>)
PrbFiles == [i \in PrbIds |-> Good("problem", Problems[i])]
            @@ [gone |-> Gone, garbage |-> Garbage, domain |-> Good("domain", Domains["d"]), empty |-> Empty]
PlanFiles == [empty |-> Empty, go |-> Good("plan", <<Step("go", <<"o">>)>>),
              both |-> Good("plan", <<Step("put", <<"o", "u">>), Step("go", <<"k">>), Step("noop", <<>>)>>),
              unknown |-> Good("plan", <<Step("go", <<"o">>), Step("fly", <<"o">>)>>),
              arity |-> Good("plan", <<Step("go", <<"o", "o">>)>>), undefined |-> Good("plan", <<Step("go", <<"o">>), Step("go", <<"zz">>)>>),
              gone |-> Gone, garbage |-> Garbage]

Choices == {<<d>> : d \in DOMAIN DomFiles} \cup {<<d, p>> : d \in DOMAIN DomFiles, p \in DOMAIN PrbFiles}
           \cup {<<d, p, q>> : d \in DOMAIN DomFiles, p \in DOMAIN PrbFiles, q \in DOMAIN PlanFiles}
VARIABLES c, quiet
Init == c \in Choices /\ quiet \in IF Many \/ Len(c) < 3 \/ c[3] \in {"go", "arity"} THEN {TRUE, FALSE} ELSE {FALSE}
Spec == Init /\ [][FALSE]_<<c, quiet>>

FilesOf(x) == Map(LAMBDA i : IF i = 1 THEN DomFiles[x[1]] ELSE IF i = 2 THEN PrbFiles[x[2]] ELSE PlanFiles[x[3]], [i \in DOMAIN x |-> i])
R == TLCEval(Cli(FilesOf(c), Fold0))
AllThere(x) == \A i \in DOMAIN x : FilesOf(x)[i].there
ShownAtMost == R.shown \in 0..Len(c) /\ (R.ok <=> R.shown = Len(c))
\* leaving out the last file changes nothing for the others
Prefix == AllThere(c) /\ Len(c) > 1 => LET S == Cli(FilesOf(SubSeq(c, 1, Len(c) - 1)), Fold0)
                                        IN /\ R.ok => S.ok
                                           /\ ~R.ok => R.shown = S.shown
MissingFails == ~AllThere(c) => ~R.ok /\ R.shown = 0
EachReadable == R.ok => \A i \in DOMAIN c : FileRead(<<"domain", "problem", "plan">>[i], FilesOf(c)[i]).ok
Emit == PrintT("@@CASE " \o ToJson([ids |-> c, quiet |-> quiet]))
ASSUME PrintT("@@WORLD " \o ToJson([domain |-> DomFiles, problem |-> PrbFiles, plan |-> PlanFiles]))
=============================================================================
