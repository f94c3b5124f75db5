------------------------------ MODULE EventTree ------------------------------
(***************************************************************************)
(* What consumers of an event sequence make of it.                         *)
(*                                                                         *)
(* A consumer keeps a stack of open containers.  The state is a record     *)
(*   stk: open containers, innermost last;                                 *)
(*   roots: completed top-level values;                                    *)
(*   st: "ok", "bad" (the sequence is malformed in a way every consumer    *)
(*       reports), "keyless" (a container in an object without a key,      *)
(*       which assembling reports and writing does not), or "loose"        *)
(*       (malformed in a way the format leaves open: a key followed by     *)
(*       another key or by the end of the object, several top-level        *)
(*       values).                                                          *)
(* A node of the tree is a value (see Literals) except that an object also *)
(* carries the set of keys written with quotes: <<5, entries, quoted>>.    *)
(***************************************************************************)
EXTENDS Values

BInit == [stk |-> <<>>, roots |-> <<>>, st |-> "ok"]
NoKey == <<>>

\* A completed node goes to the innermost open container.
Attach(b, node) ==
    IF b.stk = <<>>
    THEN [b EXCEPT !.roots = Append(@, node),
                   !.st = IF @ = "ok" /\ b.roots # <<>> THEN "loose" ELSE @]
    ELSE LET n == Len(b.stk) IN
         IF b.stk[n].k = "arr" THEN [b EXCEPT !.stk[n].items = Append(@, node)]
         ELSE IF b.stk[n].key = NoKey
              THEN IF IsPrim(node) THEN [b EXCEPT !.st = "bad"]
                   ELSE [b EXCEPT !.st = IF @ = "bad" THEN "bad" ELSE "keyless"]
         ELSE [b EXCEPT !.stk[n].items = Append(@, <<b.stk[n].key[1], node>>),
                        !.stk[n].key = NoKey]

BStep(b, ev) ==
    IF b.st = "bad" THEN b
    ELSE LET n == Len(b.stk) IN
    CASE ev[1] = 1 -> [b EXCEPT !.stk = Append(@, [k |-> "obj", items |-> <<>>, key |-> NoKey, q |-> {}])]
      [] ev[1] = 3 -> [b EXCEPT !.stk = Append(@, [k |-> "arr", items |-> <<>>])]
      [] ev[1] = 2 -> IF n = 0 \/ (n > 0 /\ b.stk[n].k # "obj") THEN [b EXCEPT !.st = "bad"]
                      ELSE LET f == b.stk[n]
                               r == [b EXCEPT !.stk = SubSeq(@, 1, n - 1),
                                              !.st = IF f.key # NoKey /\ @ = "ok" THEN "loose" ELSE @]
                           IN Attach(r, <<TObj, f.items, f.q>>)
      [] ev[1] = 4 -> IF n = 0 \/ (n > 0 /\ b.stk[n].k # "arr") THEN [b EXCEPT !.st = "bad"]
                      ELSE Attach([b EXCEPT !.stk = SubSeq(@, 1, n - 1)],
                                  <<TArr, b.stk[n].items>>)
      [] ev[1] = 5 -> IF n = 0 \/ (n > 0 /\ b.stk[n].k # "obj") THEN [b EXCEPT !.st = "bad"]
                      ELSE [b EXCEPT !.st = IF b.stk[n].key # NoKey /\ @ = "ok" THEN "loose" ELSE @,
                                     !.stk[n].key = <<ev[3]>>,
                                     !.stk[n].q = IF ev[2] = 1 THEN @ \cup {ev[3]} ELSE @]
      [] OTHER -> Attach(b, ev[2])

\* Verdict at the end of the sequence: "ok" with one tree, "bad", "empty"
\* (nothing at all), "keyless" or "loose".
BVerdict(b) ==
    IF b.st = "bad" \/ b.stk # <<>> THEN "bad"
    ELSE IF b.st \in {"loose", "keyless"} THEN b.st
    ELSE IF b.roots = <<>> THEN "empty"
    ELSE "ok"
BTree(b) == b.roots[1]

RECURSIVE BRun(_, _, _)
BRun(evs, i, b) == IF i > Len(evs) THEN b ELSE BRun(evs, i + 1, BStep(b, evs[i]))

\* Well-formedness: exactly one value, every key followed by its value.
WellFormed(evs) == BVerdict(BRun(evs, 1, BInit)) = "ok"

RECURSIVE Plain(_)
Plain(node) ==
    IF IsPrim(node) THEN node
    ELSE IF IsArr(node) THEN Arr([i \in 1..Len(node[2]) |-> Plain(node[2][i])])
    ELSE Obj([i \in 1..Len(node[2]) |-> <<node[2][i][1], Plain(node[2][i][2])>>])
=============================================================================
