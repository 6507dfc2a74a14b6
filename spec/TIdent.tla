------------------------------- MODULE TIdent -------------------------------
(* Recorded identifier sessions against Ident.                                *)
EXTENDS Ident, TraceBase
VARIABLES s, k, env
vars == <<s, k, env>>          \* env: prec and store
Put(h, o) == env' = [env EXCEPT !.st = (h :> o) @@ env.st]
Query(bad) == UNCHANGED env /\ Report(s, k, bad)
Get(h) == env.st[h]
Expect(ev) ==
  LET p == env.prec IN
  CASE ev.kind = "site" -> SiteI(ev.ms, p)
    [] ev.kind = "state" -> StateI(ev.ms, ev.sp, ev.ob, p)
    [] ev.kind = "aoc" -> AocI(ev.ot, ev.ms, ev.sp, ev.ob, p)
    [] ev.kind = "num" -> NumI(ev.ms, ev.sp, ev.ob, p)
    [] ev.kind = "spin" -> SpinI(ev.o, ev.ms, p)
\* attributes read back from the object
Attr(ev) == IF ~IsVal(ev) THEN {"fails"} ELSE
  C("coordinate", ev.r.ms = ev.ms)
  \cup C("spin", ev.kind \in {"state", "aoc", "num"} => ev.r.sp = ev.sp)
  \cup C("orbit", ev.kind \in {"state", "aoc", "num"} => ev.r.ob = ev.ob)
  \cup C("otype", (ev.kind = "aoc" => ev.r.ot = ev.ot) /\ (ev.kind = "spin" => ev.r.o = ev.o))
New(ev) == ev.a = "New" /\ Put(ev.h, Expect(ev)) /\ Report(s, k, Attr(ev))
SetPrec(ev) == ev.a = "SetPrec" /\ env' = [env EXCEPT !.prec = ev.p] /\ Report(s, k, C("fails", IsVal(ev)))
TF(b) == IF b THEN "T" ELSE "F"
Cmp(ev) == ev.a = "Cmp" /\
  LET a == Get(ev.x)
      b == Get(ev.y)
      eq == EqI(a, b)
      lt == LtI(a, b)
      gt == LtI(b, a)
      r == ev.r
  IN Query(IF ~IsVal(ev) THEN {"fails"} ELSE
       C("eq", r.eq = TF(eq) /\ r.ne = TF(~eq)) \cup C("hash", eq => r.hash) \cup C("member", r.mem = eq)
       \cup (IF a.kind # b.kind THEN C("unsupported", r.lt = "E" /\ r.le = "E" /\ r.gt = "E" /\ r.ge = "E")
             ELSE IF ~Comparable(a, b) THEN {}
             ELSE C("lt", r.lt = TF(lt)) \cup C("gt", r.gt = TF(gt))
                  \cup C("le", r.le = TF(lt \/ eq)) \cup C("ge", r.ge = TF(gt \/ eq))))
\* comparison with an object of a foreign type
Foreign(ev) == ev.a = "Foreign" /\
  Query(IF ~IsVal(ev) THEN {"fails"} ELSE
        C("eq", ev.r.eq = "F" /\ ev.r.ne = "T")
        \cup C("unsupported", ev.r.lt = "E" /\ ev.r.le = "E" /\ ev.r.gt = "E" /\ ev.r.ge = "E"))
Sort(ev) == ev.a = "Sort" /\
  Query(IF ~IsVal(ev) THEN {"fails"} ELSE
        C("permutation", Len(ev.r.perm) = Len(ev.xs) /\ SetOf(ev.r.perm) = 1..Len(ev.xs))
        \cup C("sorted", \A i \in 1..(Len(ev.r.perm) - 1) :
                 ~LtI(Get(ev.xs[ev.r.perm[i + 1]]), Get(ev.xs[ev.r.perm[i]]))))
\* an index table keyed by the identifiers finds each of them
Table(ev) == ev.a = "Table" /\
  Query(IF \E i, j \in 1..Len(ev.xs) : i # j /\ EqI(Get(ev.xs[i]), Get(ev.xs[j]))
        THEN C("duplicates", IsErr(ev, {"ValueError"}))
        ELSE IF ~IsVal(ev) THEN {"fails"}
        ELSE C("lookup", \A i \in 1..Len(ev.ys) :
               IF \E j \in 1..Len(ev.xs) : EqI(Get(ev.ys[i]), Get(ev.xs[j]))
               THEN /\ ev.r.idx[i] + 1 \in 1..Len(ev.xs)
                    /\ EqI(Get(ev.xs[ev.r.idx[i] + 1]), Get(ev.ys[i]))
               ELSE ev.r.idx[i] = -1))
Init == s \in 1..Len(Trace) /\ k = 1 /\ env = [prec |-> 4, st |-> <<>>]
Next == /\ k <= Len(Trace[s].ev)
        /\ LET ev == Trace[s].ev[k] IN
             \/ New(ev) \/ SetPrec(ev) \/ Cmp(ev) \/ Foreign(ev) \/ Sort(ev) \/ Table(ev)
             \/ (ev.a = "Abort" /\ Query({"aborted"}))
        /\ k' = k + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
