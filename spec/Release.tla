------------------------------- MODULE Release -------------------------------
(* C02.  How many elements of one release exist at a time, and where they appear.
   Times are in half seconds, positions in micro-degrees.
   A release is a record
     [t0 |-> release time, d |-> duration (0: instantaneous), n |-> elements in all,
      k |-> number of intervals (time steps covered by the release),
      ts |-> length of an interval, back |-> time runs backwards, s |-> start position, e |-> end position, mass |-> mg per element] *)
EXTENDS Util

Intervals(d, ts) == IF d = 0 THEN 1 ELSE Max2(1, CeilDiv(d, ts))
Knot(r, i) == IF i = r.k THEN r.d ELSE i * r.ts
Planned(r, i) == (i * r.n) \div r.k                 \* elements at knot i
(* the interval that contains elapsed time el, 0 <= el < d *)
Interval(r, el) == Min2(r.k - 1, el \div r.ts)

(* elements that exist at time t: nothing before the release, everything at its end, in between the
   planned number interpolated in time and rounded up.  A set, because a value that is a whole number
   may be computed a rounding error above it, and a plan that is a whole number a rounding error below *)
PlanSet(r, i) == IF i = 0 THEN {0} ELSE IF i = r.k THEN {r.n}
                 ELSE IF (i * r.n) % r.k = 0 THEN {Planned(r, i), Planned(r, i) - 1} ELSE {Planned(r, i)}
Reached(r, t) == IF r.back THEN t <= r.t0 ELSE t >= r.t0
Existing(r, t) ==
  IF ~Reached(r, t) THEN {0}
  ELSE IF r.back \/ r.d = 0 \/ t - r.t0 >= r.d THEN {r.n}
  ELSE LET el == t - r.t0
           i == Interval(r, el)
           len == Knot(r, i + 1) - Knot(r, i)
           vals == {a * len + (b - a) * (el - Knot(r, i)) : a \in PlanSet(r, i), b \in PlanSet(r, i + 1)}
       IN UNION {IF v % len = 0 THEN {v \div len, v \div len + 1} ELSE {CeilDiv(v, len)} : v \in vals}
Exact(r, t) ==
  IF ~Reached(r, t) THEN 0
  ELSE IF r.back \/ r.d = 0 \/ t - r.t0 >= r.d THEN r.n
  ELSE LET el == t - r.t0
           i == Interval(r, el)
           len == Knot(r, i + 1) - Knot(r, i)
       IN CeilDiv(Planned(r, i) * len + (Planned(r, i + 1) - Planned(r, i)) * (el - Knot(r, i)), len)

(* the source's position at time t: from s to e, an equal share in every interval *)
SourceAt(r, c, t) ==
  LET el == Max2(0, Min2(t - r.t0, r.d))
      i == Interval(r, el)
      len == Knot(r, i + 1) - Knot(r, i)
      dx == r.e[c] - r.s[c]
  IN IF r.d = 0 \/ el >= r.d THEN r.e[c]
     ELSE r.s[c] + (dx * i) \div r.k + (dx * (el - Knot(r, i))) \div (len * r.k)

(* m elements released over [ta, tb] lie evenly between the source's positions at ta and tb;
   an instantaneous release lies evenly along the whole line *)
Placed(r, c, ta, tb, m, j) ==
  LET a == IF r.d = 0 THEN r.s[c] ELSE SourceAt(r, c, ta)
      b == IF r.d = 0 THEN r.e[c] ELSE SourceAt(r, c, tb)
  IN IF m = 1 THEN a ELSE a + ((b - a) * (j - 1)) \div (m - 1)
==============================================================================
