------------------------------- MODULE Expand -------------------------------
(***************************************************************************)
(* Path expansion: a key a.b.c that was not quoted and whose segments are  *)
(* all identifiers stands for nested objects.  Fields are inserted in      *)
(* document order; objects meeting at a path are merged; any other meeting *)
(* is a conflict: an error in strict mode, otherwise the later one wins.   *)
(* Nesting beyond MaxDepth levels of work is an error.                     *)
(***************************************************************************)
EXTENDS EventTree

MaxDepth == 256
XErr == [ok |-> FALSE]
XOk(v) == [ok |-> TRUE, v |-> v]

Expandable(k, quoted) ==
    /\ k \notin quoted
    /\ Contains(k, DOT)
    /\ AllOf(Split(k, DOT), LAMBDA s : IdentSegment(s), 1)

\* entries: sequence of <<key, node>> with plain (unquoted-free) nodes.
RECURSIVE MergeInto(_, _, _, _, _), InsertLit(_, _, _, _, _),
          InsertPath(_, _, _, _, _), ExpandNode(_, _, _), ExpandItems(_, _, _, _, _),
          ExpandEntries(_, _, _, _, _, _)

InsertLit(es, k, v, strict, d) ==
    IF d >= MaxDepth THEN XErr
    ELSE LET j == KeyIndex(es, k, 1) IN
         IF j = 0 THEN XOk(Append(es, <<k, v>>))
         ELSE IF IsObj(es[j][2]) /\ IsObj(v)
              THEN LET r == IF d + 1 >= MaxDepth THEN XErr
                            ELSE MergeInto(es[j][2][2], v[2], 1, strict, d + 1)
                   IN IF r.ok THEN XOk([es EXCEPT ![j] = <<k, Obj(r.v)>>]) ELSE XErr
         ELSE IF strict THEN XErr
         ELSE XOk([es EXCEPT ![j] = <<k, v>>])

\* Insert src[i..] one after the other, at depth d.
MergeInto(es, src, i, strict, d) ==
    IF i > Len(src) THEN XOk(es)
    ELSE LET k == src[i][1]
             v == src[i][2]
             j == KeyIndex(es, k, 1)
             r == IF j = 0 THEN XOk(Append(es, src[i]))
                  ELSE IF IsObj(es[j][2]) /\ IsObj(v)
                       THEN LET q == IF d + 1 >= MaxDepth THEN XErr
                                     ELSE MergeInto(es[j][2][2], v[2], 1, strict, d + 1)
                            IN IF q.ok THEN XOk([es EXCEPT ![j] = <<k, Obj(q.v)>>]) ELSE XErr
                  ELSE IF strict THEN XErr
                  ELSE XOk([es EXCEPT ![j] = <<k, v>>])
         IN IF r.ok THEN MergeInto(r.v, src, i + 1, strict, d) ELSE XErr

InsertPath(es, segs, v, strict, d) ==
    IF d >= MaxDepth THEN XErr
    ELSE IF Len(segs) = 1 THEN InsertLit(es, segs[1], v, strict, d + 1)
    ELSE LET j == KeyIndex(es, segs[1], 1)
             clash == j > 0 /\ ~IsObj(es[j][2])
             old == IF j = 0 \/ clash THEN <<>> ELSE es[j][2][2]
             r == IF clash /\ strict THEN XErr ELSE InsertPath(old, Tail(segs), v, strict, d + 1)
         IN IF ~r.ok THEN XErr
            ELSE IF j = 0 THEN XOk(Append(es, <<segs[1], Obj(r.v)>>))
            ELSE XOk([es EXCEPT ![j] = <<segs[1], Obj(r.v)>>])

ExpandItems(items, i, strict, d, acc) ==
    IF i > Len(items) THEN XOk(acc)
    ELSE LET r == ExpandNode(items[i], strict, d) IN
         IF r.ok THEN ExpandItems(items, i + 1, strict, d, Append(acc, r.v)) ELSE XErr

ExpandEntries(es, quoted, i, strict, d, acc) ==
    IF i > Len(es) THEN XOk(acc)
    ELSE LET k == es[i][1]
             r == ExpandNode(es[i][2], strict, d + 1)
             s == IF ~r.ok THEN XErr
                  ELSE IF Expandable(k, quoted) THEN InsertPath(acc, Split(k, DOT), r.v, strict, d + 1)
                  ELSE InsertLit(acc, k, r.v, strict, d + 1)
         IN IF s.ok THEN ExpandEntries(es, quoted, i + 1, strict, d, s.v) ELSE XErr

ExpandNode(node, strict, d) ==
    IF d >= MaxDepth THEN XErr
    ELSE IF IsPrim(node) THEN XOk(node)
    ELSE IF IsArr(node)
         THEN LET r == ExpandItems(node[2], 1, strict, d + 1, <<>>) IN
              IF r.ok THEN XOk(Arr(r.v)) ELSE XErr
    ELSE IF d + 1 >= MaxDepth THEN XErr
    ELSE LET r == ExpandEntries(node[2], node[3], 1, strict, d + 1, <<>>) IN
         IF r.ok THEN XOk(Obj(r.v)) ELSE XErr

ExpandTree(node, strict) == ExpandNode(node, strict, 0)
=============================================================================
