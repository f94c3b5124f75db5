------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Values as event sequences, and what normalisation does to a value.      *)
(***************************************************************************)
EXTENDS Header

EvSO == <<1>>     EvEO == <<2>>    EvSA(n) == <<3, n>>   EvEA == <<4>>
EvKey(q, k) == <<5, IF q THEN 1 ELSE 0, k>>
EvPrim(v) == <<6, v>>

\* The events of a value: arrays announce their length, keys say whether they
\* are written with quotes.
RECURSIVE ValueEvents(_), ItemsEvents(_, _, _), EntriesEvents(_, _, _)
ValueEvents(v) ==
    IF IsPrim(v) THEN <<EvPrim(v)>>
    ELSE IF IsArr(v) THEN ItemsEvents(v[2], 1, <<EvSA(Len(v[2]))>>)
    ELSE EntriesEvents(v[2], 1, <<EvSO>>)
ItemsEvents(items, i, acc) ==
    IF i > Len(items) THEN Append(acc, EvEA)
    ELSE ItemsEvents(items, i + 1, acc \o ValueEvents(items[i]))
EntriesEvents(es, i, acc) ==
    IF i > Len(es) THEN Append(acc, EvEO)
    ELSE EntriesEvents(es, i + 1,
           Append(acc, EvKey(~PlainKey(es[i][1]), es[i][1])) \o ValueEvents(es[i][2]))

\* A number that has no finite value is written <<2, <<>>>> on input.
RECURSIVE Normalize(_)
Normalize(v) ==
    IF Tag(v) = TNum THEN (IF v[2] = <<>> THEN Null ELSE v)
    ELSE IF IsPrim(v) THEN v
    ELSE IF IsArr(v) THEN Arr([i \in 1..Len(v[2]) |-> Normalize(v[2][i])])
    ELSE Obj([i \in 1..Len(v[2]) |-> <<v[2][i][1], Normalize(v[2][i][2])>>])

RECURSIVE KeyIndex(_, _, _)
KeyIndex(es, k, i) ==
    IF i > Len(es) THEN 0 ELSE IF es[i][1] = k THEN i ELSE KeyIndex(es, k, i + 1)
Lookup(es, k) == es[KeyIndex(es, k, 1)][2]
HasKey(es, k) == KeyIndex(es, k, 1) > 0
Keys(es) == [i \in 1..Len(es) |-> es[i][1]]

RECURSIVE AllOf(_, _, _)
AllOf(items, P(_), i) == i > Len(items) \/ (P(items[i]) /\ AllOf(items, P, i + 1))
AllPrims(items)   == AllOf(items, LAMBDA v : IsPrim(v), 1)
AllArrays(items)  == AllOf(items, LAMBDA v : IsArr(v), 1)
AllObjects(items) == AllOf(items, LAMBDA v : IsObj(v), 1)

\* An array of objects is a table when every row has exactly the keys of the
\* first (in any order), at least one, and only primitive values.
RowFits(row, header) ==
    /\ Len(row[2]) = Len(header)
    /\ AllOf(header, LAMBDA k : LET j == KeyIndex(row[2], k, 1)
                                IN j > 0 /\ IsPrim(row[2][j][2]), 1)
IsTable(items) ==
    /\ items # <<>> /\ AllObjects(items) /\ items[1][2] # <<>>
    /\ LET header == Keys(items[1][2]) IN AllOf(items, LAMBDA r : RowFits(r, header), 1)

(************************  equality up to table order  *********************)
\* The value a reader gets back: in a table every row takes the key order of
\* the first row.  Everything else is kept as it is.  An array directly inside
\* an array is never a table.
RECURSIVE Canon(_), CanonItem(_)
Canon(v) ==
    IF IsPrim(v) THEN v
    ELSE IF IsArr(v)
         THEN IF IsTable(v[2])
              THEN LET header == Keys(v[2][1][2]) IN
                   Arr([i \in 1..Len(v[2]) |->
                         Obj([j \in 1..Len(header) |->
                               <<header[j], Lookup(v[2][i][2], header[j])>>])])
              ELSE CanonItem(v)
    ELSE Obj([i \in 1..Len(v[2]) |-> <<v[2][i][1], Canon(v[2][i][2])>>])
CanonItem(v) ==
    IF IsArr(v) THEN Arr([i \in 1..Len(v[2]) |-> CanonItem(v[2][i])]) ELSE Canon(v)

RECURSIVE DistinctKeys(_), Dotless(_)
DistinctKeys(v) ==
    \/ IsPrim(v)
    \/ IsArr(v) /\ AllOf(v[2], LAMBDA x : DistinctKeys(x), 1)
    \/ IsObj(v) /\ (\A i, j \in 1..Len(v[2]) : v[2][i][1] = v[2][j][1] => i = j)
                /\ AllOf(v[2], LAMBDA e : DistinctKeys(e[2]), 1)
Dotless(v) ==
    \/ IsPrim(v)
    \/ IsArr(v) /\ AllOf(v[2], LAMBDA x : Dotless(x), 1)
    \/ IsObj(v) /\ AllOf(v[2], LAMBDA e : ~Contains(e[1], DOT) /\ Dotless(e[2]), 1)
=============================================================================
