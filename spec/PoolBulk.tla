------------------------------ MODULE PoolBulk ------------------------------
(* The pool of Pool.tla with many workers and one client, by numbers alone: how many are busy, and how many of *)
(* those that became idle at the same moment may still be there (at least lo, at most hi of them).             *)
EXTENDS Integers, Sequences
VARIABLES par, busy, done, peak, groups, stopped
vars == <<par, busy, done, peak, groups, stopped>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
InitWith(p) == /\ par = p /\ busy = 0 /\ done = 0 /\ peak = 0 /\ stopped = FALSE
               /\ groups = IF p.pre > 0 THEN <<[since |-> 0, lo |-> Min(p.pre, p.max), hi |-> Min(p.pre, p.max)]>> ELSE <<>>
RECURSIVE Sum(_, _, _)
Sum(f(_), q, i) == IF i > Len(q) THEN 0 ELSE f(q[i]) + Sum(f, q, i + 1)
(* what idleness alone says about those idle since g.since *)
Young(g, at) == at - g.since < par.idle
Overdue(g, at) == at - g.since > par.idle + 2 * par.gc
Low(at) == LET f(g) == IF Young(g, at) THEN g.lo ELSE 0 IN Sum(f, groups, 1)
High(at, strict) == LET f(g) == IF strict /\ Overdue(g, at) THEN 0 ELSE g.hi IN Min(Sum(f, groups, 1), par.max - busy)
(* a workers were taken, idle ones first *)
Taken(a, at) == SelectSeq([i \in 1..Len(groups) |-> [groups[i] EXCEPT !.lo = IF Young(groups[i], at) THEN Max(0, @ - a) ELSE 0,
                                                                   !.hi = Min(@, Max(0, High(at, FALSE) - a))]],
                          LAMBDA g : g.hi > 0)
Fill(a, at) == /\ busy' = busy + a /\ peak' = Max(peak, busy + a)
               /\ groups' = Taken(a, at)
               /\ UNCHANGED <<par, done, stopped>>
Fits(n, a) == a = IF stopped THEN 0 ELSE Min(n, par.max - busy)
Release(at) == /\ busy' = 0 /\ done' = done + busy
               /\ groups' = IF stopped \/ busy = 0 THEN groups ELSE Append(groups, [since |-> at, lo |-> busy, hi |-> busy])
               /\ UNCHANGED <<par, peak, stopped>>
Stop == stopped' = TRUE /\ groups' = <<>> /\ UNCHANGED <<par, busy, done, peak>>
Bound(n, at, strict) == (IF strict THEN busy + Low(at) ELSE busy) <= n /\ n <= busy + High(at, strict)
=============================================================================
