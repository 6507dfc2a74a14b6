-------------------------------- MODULE Spin --------------------------------
(* Spin-1/2 systems. A basis state of n spins is an integer 0..2^n-1 whose    *)
(* bit i is 0 when spin i points up and 1 when it points down. Every single-  *)
(* spin operator sends a basis state to a multiple of one basis state, so a   *)
(* product is a walk of one weighted basis state.                             *)
EXTENDS Dyadic, TLC
STYPES == {"x", "y", "z", "p", "m"}
Half == <<1, 0, 1>>
SBit(b, i) == (b \div Pow2(i)) % 2
SFlip(b, i) == IF SBit(b, i) = 0 THEN b + Pow2(i) ELSE b - Pow2(i)
SKet(b) == [b |-> b, c |-> DOne]
\* one operator <<position, type>> on a weighted basis state
SAct(k, op) ==
  LET down == SBit(k.b, op[1]) = 1
      to(v) == [b |-> SFlip(k.b, op[1]), c |-> DMul(v, k.c)]
  IN CASE op[2] = "x" -> to(Half)
       [] op[2] = "y" -> to(IF down THEN <<0, -1, 1>> ELSE <<0, 1, 1>>)
       [] op[2] = "z" -> [b |-> k.b, c |-> DMul(IF down THEN DNeg(Half) ELSE Half, k.c)]
       [] op[2] = "p" -> IF down THEN to(DOne) ELSE [b |-> k.b, c |-> DZero]
       [] op[2] = "m" -> IF down THEN [b |-> k.b, c |-> DZero] ELSE to(DOne)
RECURSIVE SActFrom(_, _, _)
SActFrom(ops, n, k) == IF n = 0 THEN k ELSE SActFrom(ops, n - 1, SAct(k, ops[n]))
SActAll(ops, b) == SActFrom(ops, Len(ops), SKet(b))
\* matrix of coefficient * product over n spins
SMat(ops, co, n) ==
  LET img == [b \in 0..(Pow2(n) - 1) |-> SActAll(ops, b)]
  IN {m \in {<<img[b].b, b, DMul(co, img[b].c)>> : b \in DOMAIN img} : m[3] # DZero}
\* J S_i.S_j : J (exchange/2 - 1/4) between different spins, 3J/4 otherwise
SDot(i, j, co, n) ==
  IF i = j THEN MScale(DMul(co, <<3, 0, 2>>), MId(Pow2(n)))
  ELSE LET swap(b) == IF SBit(b, i) = SBit(b, j) THEN b ELSE SFlip(SFlip(b, i), j)
       IN MAdd(MScale(DMul(co, Half), {<<swap(b), b, DOne>> : b \in 0..(Pow2(n) - 1)}),
               MScale(DMul(co, <<-1, 0, 2>>), MId(Pow2(n))))

SFlipType(t) == CASE t = "p" -> "m" [] t = "m" -> "p" [] OTHER -> t
SDagOps(ops) == [i \in 1..Len(ops) |-> <<ops[Len(ops) + 1 - i][1], SFlipType(ops[Len(ops) + 1 - i][2])>>]
\* the factors of one site, in order
OfSite(ops, st) == SelectSeq(ops, LAMBDA o : o[1] = st)
SitesOf(ops) == {ops[i][1] : i \in 1..Len(ops)}
SameWord(p, q) == /\ Len(p) = Len(q)
                  /\ \A st \in SitesOf(p) \cup SitesOf(q) : OfSite(p, st) = OfSite(q, st)

(* Totals. *)
Downs(b, n) == Cardinality({i \in 0..(n - 1) : SBit(b, i) = 1})
TotX(n) == {<<SFlip(b, i), b, Half>> : b \in 0..(Pow2(n) - 1), i \in 0..(n - 1)}
TotY(n) == {<<SFlip(b, i), b, IF SBit(b, i) = 1 THEN <<0, -1, 1>> ELSE <<0, 1, 1>>>> :
              b \in 0..(Pow2(n) - 1), i \in 0..(n - 1)}
TotZ(n) == {m \in {<<b, b, DNorm(n - 2 * Downs(b, n), 0, 1)>> : b \in 0..(Pow2(n) - 1)} : m[3] # DZero}
\* sparse kets: sets of <<index, value>>; expectation values times norm squared
RECURSIVE DSum(_)
DSum(Q) == IF Q = <<>> THEN DZero ELSE DAdd(Head(Q), DSum(Tail(Q)))
RECURSIVE Sandwich(_, _)
Sandwich(M, v) == IF M = {} THEN DZero
  ELSE LET m == CHOOSE x \in M : TRUE
       IN DAdd(DMul(DConj(v[m[1]]), DMul(m[3], v[m[2]])), Sandwich(M \ {m}, v))
Expect(M, v) == Sandwich({m \in M : v[m[1]] # DZero /\ v[m[2]] # DZero}, v)
TotS2(n, v) ==
  LET all == {<<i, j>> \in (0..(n - 1)) \X (0..(n - 1)) : i < j}
      RECURSIVE go(_)
      go(P) == IF P = {} THEN DZero ELSE LET p == CHOOSE x \in P : TRUE IN
               DAdd(Expect(SDot(p[1], p[2], <<2, 0, 0>>, n), v), go(P \ {p}))
  IN DAdd(Expect(MScale(<<3 * n, 0, 2>>, MId(Pow2(n))), v), go(all))
=============================================================================
