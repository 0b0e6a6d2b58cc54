------------------------------ MODULE Persist ------------------------------
(* Object graphs and their persistence.
   A heap is a sequence of nodes [k |-> kind, n |-> name, a |-> settings, r |-> references], references being a
   sequence of <<slot, sequence of node numbers>>; the root is node 1.
   An archive is a sequence of entries [f |-> file name, k, a, r] whose references are file names. *)
EXTENDS Util

InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
IndexOf(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x
RECURSIVE FlatRefs(_)
FlatRefs(r) == IF r = <<>> THEN <<>> ELSE r[1][2] \o FlatRefs(Tail(r))

(* ---- depth-first order of the nodes reachable from a node ---- *)
RECURSIVE Visit(_, _, _), VisitAll(_, _, _)
Visit(h, i, seen) == IF InSeq(i, seen) THEN seen ELSE VisitAll(h, FlatRefs(h[i].r), Append(seen, i))
VisitAll(h, todo, seen) == IF todo = <<>> THEN seen ELSE VisitAll(h, Tail(todo), Visit(h, Head(todo), seen))
Order(h) == Visit(h, 1, <<>>)

MapRefs(r, num) == [s \in 1..Len(r) |-> <<r[s][1], [j \in 1..Len(r[s][2]) |-> num[r[s][2][j]]]>>]
(* what a user can tell: kinds, settings, and which objects are shared, whatever their addresses *)
Canon(h) ==
  LET ord == Order(h)
      num == [i \in RangeOf(ord) |-> IndexOf(i, ord)]
  IN [j \in 1..Len(ord) |-> [k |-> h[ord[j]].k, a |-> h[ord[j]].a, r |-> MapRefs(h[ord[j]].r, num)]]
Shape(h) == [j \in 1..Len(Canon(h)) |-> [k |-> Canon(h)[j].k, r |-> Canon(h)[j].r]]
SameGraph(h1, h2) == Canon(h1) = Canon(h2)
SameShape(h1, h2) == Shape(h1) = Shape(h2)

(* ---- saving: children first, each object once, under a file name nobody else has ---- *)
RECURSIVE Fresh(_, _, _)
Fresh(name, used, k) == IF <<name, k>> \notin used THEN <<name, k>> ELSE Fresh(name, used, k + 1)
RECURSIVE Post(_, _, _), PostAll(_, _, _)
Post(h, i, seen) == IF InSeq(i, seen) THEN seen
                    ELSE LET s == PostAll(h, FlatRefs(h[i].r), seen) IN IF InSeq(i, s) THEN s ELSE Append(s, i)
PostAll(h, todo, seen) == IF todo = <<>> THEN seen ELSE PostAll(h, Tail(todo), Post(h, Head(todo), seen))
RECURSIVE NameAll(_, _, _)
NameAll(h, todo, acc) ==      \* acc: sequence of <<node, file name>>
  IF todo = <<>> THEN acc
  ELSE NameAll(h, Tail(todo), Append(acc, <<Head(todo), Fresh(h[Head(todo)].n, {acc[i][2] : i \in 1..Len(acc)}, 0)>>))
Save(h) ==
  LET files == NameAll(h, Post(h, 1, <<>>), <<>>)
      fn == [i \in {files[j][1] : j \in 1..Len(files)} |-> files[CHOOSE j \in 1..Len(files) : files[j][1] = i][2]]
  IN [j \in 1..Len(files) |-> [f |-> files[j][2], n |-> h[files[j][1]].n, k |-> h[files[j][1]].k, a |-> h[files[j][1]].a,
                               r |-> MapRefs(h[files[j][1]].r, fn)]]

(* ---- an archive is sound: names differ, every reference is in it ---- *)
Names(arc) == {arc[i].f : i \in 1..Len(arc)}
UniqueNames(arc) == \A i, j \in 1..Len(arc) : arc[i].f = arc[j].f => i = j
SelfContained(arc) == \A i \in 1..Len(arc) : RangeOf(FlatRefs(arc[i].r)) \subseteq Names(arc)
Sound(arc) == UniqueNames(arc) /\ SelfContained(arc)

(* ---- loading: one object per file reachable from the root's file ---- *)
Load(arc, root) ==
  LET fs == [i \in 1..Len(arc) |-> arc[i].f]
      num == [f \in RangeOf(fs) |-> IndexOf(f, fs)]
      graph == [i \in 1..Len(arc) |-> [k |-> arc[i].k, n |-> arc[i].n, a |-> arc[i].a, r |-> MapRefs(arc[i].r, num)]]
      ord == Visit(graph, num[root], <<>>)
      new == [i \in RangeOf(ord) |-> IndexOf(i, ord)]
  IN [j \in 1..Len(ord) |-> [graph[ord[j]] EXCEPT !.r = MapRefs(graph[ord[j]].r, new)]]

(* ---- partial updates: exactly the named setting of the named object, or one of its references, changes ---- *)
SetAttr(h, i, attr, v) ==
  [h EXCEPT ![i].a = [j \in 1..Len(@) |-> IF @[j][1] = attr THEN <<attr, v>> ELSE @[j]]]
SetRef(h, i, slot, targets) ==
  [h EXCEPT ![i].r = [j \in 1..Len(@) |-> IF @[j][1] = slot THEN <<slot, targets>> ELSE @[j]]]
AddNodes(h, new) == h \o new
==============================================================================
