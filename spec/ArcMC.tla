--------------------------------- MODULE ArcMC ---------------------------------
(* a save of any old version brought up to date, with crashes between a step and the note of the version it reached *)
EXTENDS Arc, TLC
CONSTANTS N, TYPES
VARIABLES f, v, f0, v0
vars == <<f, v, f0, v0>>
ALL == {WINDAGE, WDATA} \cup TYPES
Shape(tp, ls, ni) == [i \in 1..N |-> [type |-> tp[i], n |-> i, list |-> IF i = 1 THEN ls ELSE <<>>, range |-> i, inits |-> IF i = N THEN ni ELSE <<>>]]
(* windages have not been around since version 2, weathering data since version 4 *)
Possible(tp, w) == /\ (w > 1 => \A i \in 1..N : tp[i] # WINDAGE) /\ (w > 3 => \A i \in 1..N : tp[i] # WDATA) /\ tp[1] \notin {WINDAGE, WDATA} /\ tp[N] \notin {WINDAGE, WDATA}
Init == /\ v0 \in 1..CURRENT
        /\ \E tp \in [1..N -> ALL] : \E ls \in {<<>>, <<2>>, <<2, 2>>, <<2, 3, 2>>} : \E ni \in {<<>>, <<2>>, <<2, N - 1>>} :
              Possible(tp, v0) /\ (v0 > 1 => ni = <<>>) /\ f0 = Shape(tp, ls, ni)
        /\ f = f0 /\ v = v0
Step == v < CURRENT /\ f' = Upgrade1(v, f) /\ v' = v + 1 /\ UNCHANGED <<f0, v0>>
Crash == v < CURRENT /\ f' = Upgrade1(v, f) /\ UNCHANGED <<v, f0, v0>>
Next == Step \/ Crash
Spec == Init /\ [][Next]_vars
Same == v = CURRENT => f = Upgraded(v0, f0)
NoneLost == v = CURRENT => DOMAIN f0 \ DOMAIN f = {x \in DOMAIN f0 : f0[x].type = WDATA} \cup {x \in DOMAIN f0 : \E y \in DOMAIN f0 : f0[y].inits # <<>> /\ x \in RangeOf(f0[y].inits) /\ f0[x].type = WINDAGE}
Whole == v = CURRENT => \A x \in DOMAIN f : RangeOf(f[x].list) \subseteq DOMAIN f \/ \E y \in RangeOf(f[x].list) : f0[y].type = WINDAGE
Modern == v = CURRENT => \A x \in DOMAIN f : \A k \in 1..5 : f[x].type \notin DOMAIN STEPS[k] \/ v0 > k - 1
Kept == \A x \in DOMAIN f : f[x].n = f0[x].n
(* extraction: only what was in the archive, one file per name *)
ES(tp) == <<[dirs |-> <<"m">>, name |-> "", folder |-> tp = 1, clean |-> "", id |-> 1], [dirs |-> <<"m">>, name |-> "a:", folder |-> FALSE, clean |-> "a", id |-> 2],
            [dirs |-> <<>>, name |-> "a", folder |-> FALSE, clean |-> "a", id |-> 3], [dirs |-> <<MAC>>, name |-> "z", folder |-> FALSE, clean |-> "z", id |-> 4]>>
Flat == \A tp \in 0..1 : \A clean \in BOOLEAN : LET X == Extracted(ES(tp), Prefix(ES(tp)), clean) IN \A p, q \in X : p[1] = q[1] => p = q
Inside == Extracted(ES(1), Prefix(ES(1)), TRUE) = {<<"a", 2>>}
=============================================================================
