-------------------------------- MODULE Util --------------------------------
(* Operators shared by the specification modules. *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Near(a, b, tol) == Abs(a - b) <= tol

(* clause name if the condition does not hold *)
Unless(cond, name) == IF cond THEN {} ELSE {name}

(* exact sum of a sequence of integers *)
RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
SumSeq(s) == SumFrom(s, 1)

(* floor and ceiling division for a positive divisor *)
FloorDiv(a, b) == a \div b
CeilDiv(a, b) == -((-a) \div b)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

(* ---- Python's list slicing: s[start:stop:step], None is encoded as 9999 ---- *)
None9 == 9999
SliceBounds(n, start, stop, step) ==
  LET lower == IF step > 0 THEN 0 ELSE -1
      upper == IF step > 0 THEN n ELSE n - 1
      clip(v) == IF v < 0 THEN Max2(v + n, lower) ELSE Min2(v, upper)
      a == IF start = None9 THEN (IF step > 0 THEN lower ELSE upper) ELSE clip(start)
      b == IF stop = None9 THEN (IF step > 0 THEN upper ELSE lower) ELSE clip(stop)
  IN <<a, b>>
PySlice(s, start, stop, step) ==
  LET bb == SliceBounds(Len(s), start, stop, step)
      a == bb[1]
      b == bb[2]
      cnt == IF step > 0 THEN (IF b > a THEN CeilDiv(b - a, step) ELSE 0)
             ELSE (IF a > b THEN CeilDiv(a - b, -step) ELSE 0)
  IN [k \in 1..cnt |-> s[a + (k - 1) * step + 1]]
==============================================================================
