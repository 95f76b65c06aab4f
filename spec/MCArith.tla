------------------------------ MODULE MCArith ------------------------------
(* Every arithmetic expression of bounded size, evaluated in the field of seven elements. *)
EXTENDS PddlWriter, Json

CONSTANTS Wide, Top    \* operands at the lower and upper level

f == Fn("f", <<>>)
g == Fn("g", <<>>)
two == Num("2")
Lvs == {f, g, two}
Ops(S, n) == {Raw(op, ks) : op \in {"+", "*"}, ks \in {q \in SeqsUpTo(S, n) : Len(q) >= 2}}
             \cup {Raw("-", ks) : ks \in {q \in SeqsUpTo(S, 2) : Len(q) >= 1}}
             \cup {Raw("/", ks) : ks \in {q \in SeqsUpTo(S, 2) : Len(q) = 2}}
T0 == {f, two}
T1 == TLCEval(Lvs \cup Ops(T0, Wide))
T2 == TLCEval(T1 \cup Ops(T1, Top))
Comps == {Raw(op, <<x, y>>) : op \in {"f=", "<", "<=", ">", ">="}, x \in T1, y \in T0}

VARIABLE t
Init == t \in T2 \cup Comps
Spec == Init /\ [][FALSE]_t

n == TLCEval(Nf(t))
P == 7
Inv(x) == CHOOSE y \in 0..(P - 1) : (x = 0 /\ y = 0) \/ (x * y) % P = 1
RECURSIVE Sum(_), Prod(_), Val(_, _)
Sum(s) == IF s = <<>> THEN 0 ELSE (Head(s) + Sum(Tail(s))) % P
Prod(s) == IF s = <<>> THEN 1 ELSE (Head(s) * Prod(Tail(s))) % P
Val(e, v) ==
    CASE e.op = "num" -> 2
      [] e.op = "fn" -> v[e.nm]
      [] OTHER ->
         LET xs == Map(LAMBDA k : Val(k, v), e.ks)
         IN CASE e.op = "+" -> Sum(xs)
              [] e.op = "*" -> Prod(xs)
              [] e.op = "-" -> IF Len(xs) = 1 THEN (P - xs[1]) % P ELSE (xs[1] + P - xs[2]) % P
              [] e.op = "/" -> (xs[1] * Inv(xs[2])) % P
              [] OTHER -> xs[1] * P + xs[2]
SameValue == \A x, y \in 0..(P - 1) : LET v == "f" :> x @@ "g" :> y IN Val(t, v) = Val(n, v)

RECURSIVE LeafSeq(_)
LeafSeq(e) == IF e.ks = <<>> THEN <<e>> ELSE Concat(Map(LeafSeq, e.ks))
EveryOperandKept == LeafSeq(t) = LeafSeq(n)
\* only sums in sums and products in products are regrouped
RECURSIVE Others(_)
Others(e) == (IF e.op \in {"-", "/"} THEN <<<<e.op, Len(e.ks)>>>> ELSE <<>>) \o Concat(Map(Others, e.ks))
StructureKept == Others(t) = Others(n)
ReadsBack == t.op \notin {"f=", "<", "<=", ">", ">="} => WfExp(Wr(t), [any |-> TRUE]) /\ RdExp(Wr(t), NoEnv) = n

Emit == PrintT("@@CASE " \o ToJson([tree |-> t, text |-> Wr(t)]))
=============================================================================
