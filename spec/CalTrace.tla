------------------------------ MODULE CalTrace ------------------------------
(* validates recorded time conversions of the real code against the civil calendar *)
EXTENDS Cal, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, off          \* off: seconds of a date minus its civil seconds, fixed by the first conversion in a zone
None == -2147483123

All(seq, x) == \A i \in 1..Len(seq) : seq[i] = x

Conv(c) ==
  LET s == Secs(c.c)
      o == IF off = None THEN c.secs[1] - s ELSE off
  IN Unless(All(c.secs, s + o), "C16.seconds_count_civil_time")
     \cup Unless(All(c.back, c.c), "C16.seconds_and_dates_are_inverse")
     \cup Unless(All(c.nback, c.c) /\ All(c.nsecs, s + o), "C16.native_code_has_the_same_times")
     \cup Unless(c.same, "C16.arguments_untouched")
Arr(c) ==
  LET n == Len(c.cs)
      o == IF off = None THEN c.secs[1] - Secs(c.cs[1]) ELSE off
  IN Unless(Len(c.secs) = n /\ \A i \in 1..n : c.secs[i] = Secs(c.cs[i]) + o, "C16.arrays_convert_element_by_element")
     \cup Unless(c.back = c.cs, "C16.arrays_convert_element_by_element")
     \cup Unless(c.same, "C16.arguments_untouched")
RoundC(c) ==
  LET n == Len(c.cs) IN
     Unless(c.res = [i \in 1..n |-> Civil(Round(Secs(c.cs[i]), c.to))], "C16.rounds_to_the_nearest")
     \cup Unless(c.same, "C16.arguments_untouched")
TzOff(c) == Unless(c.td = c.min * 60, "C16.offsets_are_exact")
            \cup Unless(c.iso = IsoOffset(c.min), "C16.offsets_print_as_iso")
            \cup Unless(c.title = IsoOffset(c.min), "C16.offsets_print_as_iso")
Asdt(c) == Unless(c.res = c.c /\ c.keeps, "C16.text_and_dates_agree")
Inf(c) ==
  LET P == c.pts  n == Len(P) IN
     UNION {UNION {Unless(c.rel[i][j] = Rel(P[i], P[j]), "C16.times_are_totally_ordered") : j \in 1..n} : i \in 1..n}
     \cup Unless(\A i \in 1..(n - 1) : c.sorted[i] <= c.sorted[i + 1], "C16.times_are_totally_ordered")
     \cup Unless(\A x \in RangeOf(P) : Cardinality({i \in 1..n : P[i] = x}) = Cardinality({i \in 1..n : c.sorted[i] = x}), "C16.times_are_totally_ordered")
     \cup Unless(\A i \in 1..n : c.min <= P[i] /\ c.max >= P[i], "C16.times_are_totally_ordered")
     \cup Unless(\A i \in 1..n : c.neg[i] = Neg(P[i]), "C16.negation_swaps_the_ends")
     \cup Unless(\A i \in 1..n : c.iso[i] = (IF P[i] = INF THEN "inf" ELSE IF P[i] = MINF THEN "-inf" ELSE "date"), "C16.infinite_times_are_named")
Ctor(c) == Unless((c.exc = "") = InRange(c.s), "C16.dates_outside_the_range_refused")
           \cup Unless(c.exc = "" => c.got = c.c, "C16.dates_inside_the_range_kept")
Bad(c) == CASE c.op = "zone" -> {}
            [] c.op = "failed" -> {"C16.conversion_answers"}
            [] c.op = "conv" -> Conv(c) [] c.op = "arr" -> Arr(c) [] c.op = "round" -> RoundC(c)
            [] c.op = "tzoff" -> TzOff(c) [] c.op = "asdt" -> Asdt(c) [] c.op = "inf" -> Inf(c)
            [] c.op = "ctor" -> Ctor(c)
Init == l = 1 /\ off = None
Step == /\ l <= Len(Trace)
        /\ LET c == Trace[l]
               b == Bad(c)
           IN /\ (b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b)))
              /\ off' = IF c.op = "zone" THEN None
                        ELSE IF c.op = "conv" /\ off = None THEN c.secs[1] - Secs(c.c) ELSE off
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, off>>
=============================================================================
