-------------------------------- MODULE Coll --------------------------------
(* C15.  The ordered collections that hold a model's spills, movers, weatherers,
   environment objects and outputters: a sequence of distinct objects, addressed
   by position (negative positions count from the end) or by identifier.
   A call is a record; Post gives the sequence after it, whether the call is
   accepted and which notifications the registered observers get. *)
EXTENDS Util

ValidAt(s, i) == i < Len(s) /\ i >= -Len(s)
At(s, i) == IF i >= 0 THEN i + 1 ELSE Len(s) + i + 1          \* 1-based
Has(s, e) == \E i \in 1..Len(s) : s[i] = e
Where(s, e) == CHOOSE i \in 1..Len(s) : s[i] = e

Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

RECURSIVE AddAll(_, _)
AddAll(s, es) == IF es = <<>> THEN s
                 ELSE AddAll(IF Has(s, Head(es)) THEN s ELSE Append(s, Head(es)), Tail(es))
RECURSIVE NewOnes(_, _)
NewOnes(s, es) == IF es = <<>> THEN <<>>
                  ELSE IF Has(s, Head(es)) THEN NewOnes(s, Tail(es))
                  ELSE <<Head(es)>> \o NewOnes(Append(s, Head(es)), Tail(es))

(* putting e at position k: e leaves any other position it had *)
PutAt(s, k, e) == LET t == [s EXCEPT ![k] = e]
                  IN SelectSeq([i \in 1..Len(t) |-> <<i, t[i]>>],
                               LAMBDA p : p[2] # e \/ p[1] = k)
Put(s, k, e) == LET p == PutAt(s, k, e) IN [i \in 1..Len(p) |-> p[i][2]]

Ok(s, f) == [s |-> s, ok |-> TRUE, fired |-> f]
Refused(s) == [s |-> s, ok |-> FALSE, fired |-> <<>>]

Post(s, c) ==
  CASE c.op = "add" -> IF Has(s, c.e) THEN Ok(s, <<>>) ELSE Ok(Append(s, c.e), <<<<"add", c.e>>>>)
    [] c.op = "addall" -> Ok(AddAll(s, c.es), [i \in 1..Len(NewOnes(s, c.es)) |-> <<"add", NewOnes(s, c.es)[i]>>])
    [] c.op = "remove_id" -> IF Has(s, c.e) THEN Ok(Drop(s, Where(s, c.e)), <<<<"remove", c.e>>>>) ELSE Refused(s)
    [] c.op = "remove_at" -> IF ValidAt(s, c.i) THEN Ok(Drop(s, At(s, c.i)), <<<<"remove", s[At(s, c.i)]>>>>) ELSE Refused(s)
    [] c.op = "replace_id" -> IF Has(s, c.e) THEN Ok(Put(s, Where(s, c.e), c.n), <<<<"replace", c.n>>>>) ELSE Refused(s)
    [] c.op = "replace_at" -> IF ValidAt(s, c.i) THEN Ok(Put(s, At(s, c.i), c.n), <<<<"replace", c.n>>>>) ELSE Refused(s)
    [] c.op = "clear" -> Ok(<<>>, <<>>)
    [] c.op = "remake" -> Ok(s, <<>>)
    [] c.op = "update" -> Ok(AddAll(<<>>, c.es), [i \in 1..Len(NewOnes(<<>>, c.es)) |-> <<"add", NewOnes(<<>>, c.es)[i]>>])
    [] OTHER -> Refused(s)

(* --------- the design's own invariants, on every reachable collection --------- *)
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j

(* relative order of the objects that a call does not mention is preserved *)
Mentioned(c, s) == CASE c.op \in {"add", "remove_id"} -> {c.e}
                     [] c.op \in {"addall", "update"} -> RangeOf(c.es)
                     [] c.op = "replace_id" -> {c.e, c.n}
                     [] c.op = "replace_at" -> {c.n} \cup (IF ValidAt(s, c.i) THEN {s[At(s, c.i)]} ELSE {})
                     [] c.op = "remove_at" -> IF ValidAt(s, c.i) THEN {s[At(s, c.i)]} ELSE {}
                     [] OTHER -> {}
Rest(s, m) == SelectSeq(s, LAMBDA x : x \notin m)
OrderKept(s, c) == c.op \in {"clear", "update"}
                   \/ Rest(s, Mentioned(c, s)) = Rest(Post(s, c).s, Mentioned(c, s))
==============================================================================
