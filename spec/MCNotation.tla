----------------------------- MODULE MCNotation -----------------------------
(* Every short string as a list of names; every symbol with few terms applied to every few terms. *)
EXTENDS PddlNotation, Json

CONSTANTS MaxLen, MaxTerms

Chars == {"a", "B", "1", "?", " ", "\n"}
RECURSIVE Strings(_)
Strings(k) == IF k = 0 THEN {""} ELSE LET R == Strings(k - 1) IN R \cup {r \o c : r \in {q \in R : Len(q) = k - 1}, c \in Chars}
Lists == Strings(MaxLen) \cup {"a define", "object b", "x-1 y_2 x-1", "  a \t b\r\nc "}
Tys == {<<>>, <<"t">>, <<"t", "object">>, <<"1">>, <<"define">>}

T == {V("x", {}), V("x", {"t"}), C("k"), [k |-> "c", n |-> "k", t |-> {"t"}]}
Seqs == SeqsUpTo(T, MaxTerms)
Sym(ts) == \A i, j \in DOMAIN ts : i = j \/ ts[i].k = "c" \/ ts[j].k = "c" \/ ts[i].t = ts[j].t

VARIABLE c
Init == c \in {[op |-> k, s |-> s, tys |-> ty, ts |-> <<>>, args |-> <<>>] : k \in {"v", "c"}, s \in Lists, ty \in {<<>>}}
             \cup {[op |-> "v", s |-> s, tys |-> ty, ts |-> <<>>, args |-> <<>>] : s \in {"", "a", "a b", "1 a"}, ty \in Tys}
             \cup {[op |-> "c", s |-> s, tys |-> ty, ts |-> <<>>, args |-> <<>>] : s \in {"", "a", "a b", "1 a"}, ty \in {q \in Tys : Len(q) <= 1}}
             \cup {[op |-> op, s |-> "", tys |-> <<>>, ts |-> ts, args |-> as] : op \in {"pred", "fn"}, ts \in {q \in Seqs : Sym(q)}, as \in Seqs}
             \cup {[op |-> "retype", s |-> "", tys |-> ty, ts |-> <<t>>, args |-> <<>>] : t \in {u \in T : u.k = "v"}, ty \in Tys \cup {<<"t", "t">>}}
Spec == Init /\ [][FALSE]_c

R == TLCEval(CASE c.op \in {"v", "c"} -> Listed(c.op, c.s, c.tys)
               [] c.op = "retype" -> Retyped(c.ts[1], c.tys)
               [] OTHER -> Applied(c.op, "p", c.ts, c.args))
IsList == c.op \in {"v", "c"}
Glyphs(w) == [i \in 1..Len(w) |-> Char(w, i)]
\* nothing of the string is lost but the blanks
Spelled == IsList => Concat([i \in DOMAIN Words(c.s) |-> Glyphs(Words(c.s)[i])])
                     = SelectSeq(Glyphs(c.s), LAMBDA x : x \notin Blank)
NoBlanks == IsList => \A i \in DOMAIN Words(c.s) : Words(c.s)[i] # "" /\ \A j \in 1..Len(Words(c.s)[i]) : Char(Words(c.s)[i], j) \notin Blank
OnePerWord == IsList /\ R.ok => Len(R.v) = Len(Words(c.s)) /\ \A i \in DOMAIN R.v : R.v[i].n = Words(c.s)[i] /\ R.v[i].t = Rng(c.tys)
AppliedAsBuilt == c.op \in {"pred", "fn"} /\ R.ok => R.v.op = c.op /\ R.v.nm = "p" /\ Len(R.v.ts) = Len(c.ts) /\ [i \in DOMAIN R.v.ts |-> R.v.ts[i].n] = [i \in DOMAIN c.args |-> c.args[i].n]
ItselfAgain == c.op \in {"pred", "fn"} /\ c.ts = c.args => R.ok
Emit == PrintT("@@CASE " \o ToJson(c))
=============================================================================
