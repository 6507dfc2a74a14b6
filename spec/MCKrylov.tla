------------------------------ MODULE MCKrylov ------------------------------
(* Design run: Krylov sequences grown one multiplication at a time from every *)
(* small Hermitian matrix and start vector.                                   *)
EXTENDS Krylov, Json
CONSTANTS N, Diag, Off, Vec
OffC == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, -1>>}
VecC == {<<0, 0>>, <<1, 0>>, <<0, -1>>, <<1, 1>>}
OffR == {<<0, 0>>, <<1, 0>>, <<-1, 0>>}
VecR == {<<0, 0>>, <<1, 0>>}
VARIABLES M, v, seq
vars == <<M, v, seq>>
Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
Idx(i, j) == IF i = 1 THEN j - 1 ELSE (N - 1) + (j - 2)      \* N <= 3
Mat(dg, of) == [i \in 1..N |-> [j \in 1..N |->
   IF i = j THEN <<dg[i], 0>> ELSE IF i < j THEN of[Idx(i, j)] ELSE ZCon(of[Idx(j, i)])]]
Init == /\ \E dg \in [1..N -> Diag], of \in [1..((N * (N - 1)) \div 2) -> Off] : M = Mat(dg, of)
        /\ v \in [1..N -> Vec]
        /\ seq = <<v>>
Grow == Len(seq) <= N /\ seq' = Append(seq, MatVec(M, seq[Len(seq)])) /\ UNCHANGED <<M, v>>
Next == Grow
Spec == Init /\ [][Next]_vars
Laws ==
  \E rk \in {[n \in 1..Len(seq) |-> Rank(SubSeq(seq, 1, n))]} :
    /\ Hermitian(M)
    /\ rk[1] = IF ZeroVec(v) THEN 0 ELSE 1
    /\ \A n \in 1..(Len(seq) - 1) : rk[n + 1] \in {rk[n], rk[n] + 1}
    \* once a multiplication adds nothing the space is invariant
    /\ \A n \in 1..(Len(seq) - 1) : rk[n + 1] = rk[n] => \A m \in n..Len(seq) : rk[m] = rk[n]
    /\ rk[Len(seq)] <= N
    /\ \A i, j \in 1..Len(seq) : Braket(seq[i], seq[j]) = Moment(M, v, v, i + j - 2)
    /\ \A i \in 1..Len(seq) : Braket(v, seq[i])[2] = 0
Done == Len(seq) = N + 1 => KrylovRank(M, v) = Rank(seq)
Emit == Len(seq) = 1 => PrintT("GEN " \o ToJson([g |-> "krylov", M |-> M, v |-> v]))
=============================================================================
