----------------------------- MODULE ToonEncode -----------------------------
(***************************************************************************)
(* The TOON writer as a machine that works off a list of pending pieces,   *)
(* writing at most one line per action.                                    *)
(*                                                                         *)
(* ein: v the (normalised) value; indent; delim; fold: BOOLEAN; flat: the  *)
(*   largest number of key segments one folded key may take.               *)
(* em:  wk pending pieces, out lines written, steps.                       *)
(***************************************************************************)
EXTENDS Values

VARIABLES em, ein

Unlimited == 1000000

(******************************  key folding  ******************************)
\* The chain of single-field objects that starts at key -> v, at most max
\* segments long.
RECURSIVE Chain(_, _, _)
Chain(segs, v, max) ==
    IF Len(segs) < max /\ IsObj(v) /\ Len(v[2]) = 1
    THEN Chain(Append(segs, v[2][1][1]), v[2][1][2], max)
    ELSE [segs |-> segs, leaf |-> v]

NoFold == [ok |-> FALSE]
\* sibs: keys of the enclosing object; lit: dotted keys of the root object;
\* prefix: <<>> or <<path of the enclosing object>>.
TryFold(key, v, sibs, lit, prefix, flat) ==
    IF ~ein.fold \/ ~IsObj(v) \/ flat < 2 THEN NoFold
    ELSE
    LET ch == Chain(<<key>>, v, flat) IN
    IF Len(ch.segs) < 2 \/ ~AllOf(ch.segs, LAMBDA s : IdentSegment(s), 1) THEN NoFold
    ELSE
    LET fkey == Join(ch.segs, <<DOT>>)
        abs == IF prefix = <<>> THEN fkey ELSE prefix[1] \o <<DOT>> \o fkey
    IN IF \E i \in 1..Len(sibs) : sibs[i] = fkey THEN NoFold
       ELSE IF abs \in lit THEN NoFold
       ELSE [ok |-> TRUE, key |-> fkey, path |-> abs, leaf |-> ch.leaf, n |-> Len(ch.segs)]

(********************************  pieces  *********************************)
\* wk holds tuples <<kind, ...>>:
\*  "fields"  entries, depth, lit, prefix, flat     an object's fields
\*  "field"   key, v, depth, sibs, lit, prefix, flat
\*  "array"   key text (<<>> for none), items, depth
\*  "item"    v, depth                              one list item
\*  "row"     entries, header, depth                one table row
\*  "text"    text, depth                           a line ready to write
Line(depth, text) == Spaces(ein.indent * depth) \o text
Write(m, depth, text) == [m EXCEPT !.out = Append(@, Line(depth, text))]
More(m, pieces) == [m EXCEPT !.wk = pieces \o @]
Prims(items) == [i \in 1..Len(items) |-> EncodePrim(items[i], ein.delim)]
InlineText(enckey, items) ==
    LET h == FormatHeader(Len(items), enckey, <<>>, ein.delim) IN
    IF items = <<>> THEN h ELSE h \o <<SP>> \o Join(Prims(items), <<ein.delim>>)
Bullet == <<HYPHEN, SP>>

FieldPiece(entries, i, depth, lit, prefix, flat) ==
    <<"field", entries[i][1], entries[i][2], depth, Keys(entries), lit, prefix, flat>>
FieldPieces(entries, depth, lit, prefix, flat) ==
    [i \in 1..Len(entries) |-> FieldPiece(entries, i, depth, lit, prefix, flat)]
\* Fields whose enclosing path is unknown: the fields of an object in a list.
\* After the first field (on the hyphen's line) the others follow, and the
\* first is still their sibling.
LooseFields(entries, depth) == FieldPieces(entries, depth, {}, <<>>, ein.flat)
LaterFields(entries, depth) == Tail(LooseFields(entries, depth))
ItemPieces(items, depth) == [i \in 1..Len(items) |-> <<"item", items[i], depth>>]
RowPieces(rows, header, depth) == [i \in 1..Len(rows) |-> <<"row", rows[i][2], header, depth>>]

EncInit == [wk |-> <<<<"root">>>>, out |-> <<>>, steps |-> 0]
Head1 == em.wk[1]
Rest1 == [em EXCEPT !.wk = Tail(@), !.steps = @ + 1]
HeadIs(k) == em.wk # <<>> /\ em.wk[1][1] = k

(********************************  actions  ********************************)
RootValue ==
    /\ HeadIs("root")
    /\ em' = IF IsPrim(ein.v) THEN Write(Rest1, 0, EncodePrim(ein.v, ein.delim))
             ELSE IF IsArr(ein.v) THEN More(Rest1, <<<<"array", <<>>, ein.v[2], 0>>>>)
             ELSE LET es == ein.v[2]
                      lit == {es[i][1] : i \in {j \in 1..Len(es) : Contains(es[j][1], DOT)}}
                  IN More(Rest1, FieldPieces(es, 0, lit, <<>>, ein.flat))

FoldOf(p) == TryFold(p[2], p[3], p[5], p[6], p[7], p[8])

FoldedField ==
    /\ HeadIs("field") /\ FoldOf(Head1).ok
    /\ LET p == Head1
           f == FoldOf(p)
           k == EncodeKey(f.key)
           d == p[4]
       IN em' = IF IsPrim(f.leaf)
                THEN Write(Rest1, d, k \o <<COLON, SP>> \o EncodePrim(f.leaf, ein.delim))
                ELSE IF IsArr(f.leaf) THEN More(Rest1, <<<<"array", k, f.leaf[2], d>>>>)
                ELSE More(Write(Rest1, d, k \o <<COLON>>),
                          FieldPieces(f.leaf[2], d + 1, p[6], <<f.path>>,
                                      IF p[8] > f.n THEN p[8] - f.n ELSE 0))
PlainField ==
    /\ HeadIs("field") /\ ~FoldOf(Head1).ok
    /\ LET p == Head1
           k == EncodeKey(p[2])
           v == p[3]
           d == p[4]
           path == IF p[7] = <<>> THEN p[2] ELSE p[7][1] \o <<DOT>> \o p[2]
       IN em' = IF IsPrim(v) THEN Write(Rest1, d, k \o <<COLON, SP>> \o EncodePrim(v, ein.delim))
                ELSE IF IsArr(v) THEN More(Rest1, <<<<"array", k, v[2], d>>>>)
                ELSE More(Write(Rest1, d, k \o <<COLON>>),
                          FieldPieces(v[2], d + 1, p[6], <<path>>, p[8]))

ArrayInline ==
    /\ HeadIs("array") /\ AllPrims(Head1[3]) = TRUE
    /\ em' = Write(Rest1, Head1[4], InlineText(Head1[2], Head1[3]))
ArrayTable ==
    /\ HeadIs("array") /\ IsTable(Head1[3]) = TRUE
    /\ LET items == Head1[3]
           header == Keys(items[1][2])
       IN em' = More(Write(Rest1, Head1[4], FormatHeader(Len(items), Head1[2], header, ein.delim)),
                     RowPieces(items, header, Head1[4] + 1))
ArrayList ==
    /\ HeadIs("array") /\ AllPrims(Head1[3]) = FALSE /\ IsTable(Head1[3]) = FALSE
    /\ em' = More(Write(Rest1, Head1[4], FormatHeader(Len(Head1[3]), Head1[2], <<>>, ein.delim)),
                  ItemPieces(Head1[3], Head1[4] + 1))

Row ==
    /\ HeadIs("row")
    /\ LET p == Head1 IN
       em' = Write(Rest1, p[4],
                Join([i \in 1..Len(p[3]) |-> EncodePrim(Lookup(p[2], p[3][i]), ein.delim)],
                     <<ein.delim>>))

ItemScalar ==
    /\ HeadIs("item") /\ IsPrim(Head1[2])
    /\ em' = Write(Rest1, Head1[3], Bullet \o EncodePrim(Head1[2], ein.delim))
ItemArray ==
    /\ HeadIs("item") /\ IsArr(Head1[2])
    /\ LET items == Head1[2][2]
           d == Head1[3]
       IN em' = IF AllPrims(items) THEN Write(Rest1, d, Bullet \o InlineText(<<>>, items))
                ELSE More(Write(Rest1, d, Bullet \o FormatHeader(Len(items), <<>>, <<>>, ein.delim)),
                          ItemPieces(items, d + 1))
ItemEmptyObject ==
    /\ HeadIs("item") /\ IsObj(Head1[2]) /\ Head1[2][2] = <<>>
    /\ em' = Write(Rest1, Head1[3], <<HYPHEN>>)
\* The first field shares the line of the hyphen; its own lines are two levels
\* deeper than the hyphen, the other fields one level.  The first field is
\* never folded.
ItemObject ==
    /\ HeadIs("item") /\ IsObj(Head1[2]) /\ Head1[2][2] # <<>>
    /\ LET es == Head1[2][2]
           d  == Head1[3]
           k  == EncodeKey(es[1][1])
           v  == es[1][2]
           others == LaterFields(es, d + 1)
           first(text) == Write(Rest1, d, Bullet \o text)
       IN em' =
          IF IsPrim(v) THEN More(first(k \o <<COLON, SP>> \o EncodePrim(v, ein.delim)), others)
          ELSE IF IsObj(v) THEN More(first(k \o <<COLON>>), LooseFields(v[2], d + 2) \o others)
          ELSE IF AllPrims(v[2]) THEN More(first(InlineText(k, v[2])), others)
          ELSE IF IsTable(v[2])
               THEN LET header == Keys(v[2][1][2]) IN
                    More(first(FormatHeader(Len(v[2]), k, header, ein.delim)),
                         RowPieces(v[2], header, d + 2) \o others)
          ELSE More(first(FormatHeader(Len(v[2]), k, <<>>, ein.delim)),
                    ItemPieces(v[2], d + 2) \o others)

EncNext == \/ RootValue \/ FoldedField \/ PlainField \/ ArrayInline \/ ArrayTable \/ ArrayList
           \/ Row \/ ItemScalar \/ ItemArray \/ ItemEmptyObject \/ ItemObject
EncDone == em.wk = <<>>

(*******************************  invariants  ******************************)
LastLine == em.out[Len(em.out)]
\* No line ends in a space, contains a line break, or is blank.
CleanLines ==
    em.out # <<>> => LET l == LastLine IN
        /\ l # <<>> /\ ~IsWs(l[Len(l)])
        /\ \A i \in 1..Len(l) : l[i] # LF /\ l[i] # CR
\* Indentation is a whole number of levels and grows by at most two levels.
Indented ==
    em.out # <<>> => LET ind(l) == SkipChar(l, SP, 1) - 1
                         n == Len(em.out)
                     IN IF ein.indent = 0 THEN ind(em.out[n]) = 0
                        ELSE /\ ind(em.out[n]) % ein.indent = 0
                             /\ n > 1 => ind(em.out[n]) <= ind(em.out[n-1]) + 2 * ein.indent
=============================================================================
