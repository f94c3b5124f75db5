------------------------------- MODULE JsonRead -------------------------------
(***************************************************************************)
(* Reading JSON text into a value (RFC 8259).  A result is [i, v]: the     *)
(* position after the value, or i = 0 when the text is not JSON.           *)
(***************************************************************************)
EXTENDS JsonText

Bad == [i |-> 0, v |-> Null]
RECURSIVE SkipJ(_, _)
SkipJ(t, i) == IF i <= Len(t) /\ (t[i] = SP \/ t[i] = LF \/ t[i] = CR \/ t[i] = TAB)
               THEN SkipJ(t, i + 1) ELSE i
At(t, i, c) == i <= Len(t) /\ t[i] = c

RECURSIVE JStr(_, _, _)
JStr(t, i, acc) ==
    IF i > Len(t) THEN Bad
    ELSE IF t[i] = DQ THEN [i |-> i + 1, v |-> Str(acc)]
    ELSE IF t[i] < 32 THEN Bad
    ELSE IF t[i] # BSLASH THEN JStr(t, i + 1, Append(acc, t[i]))
    ELSE IF i = Len(t) THEN Bad
    ELSE IF t[i + 1] # 117
         THEN (IF ShortEsc(t[i + 1]) = -1 THEN Bad ELSE JStr(t, i + 2, Append(acc, ShortEsc(t[i + 1]))))
    ELSE LET h == Hex4(t, i + 2) IN
         IF h = -1 \/ (h >= 56320 /\ h < 57344) THEN Bad
         ELSE IF h < 55296 \/ h > 57343 THEN JStr(t, i + 6, Append(acc, h))
         ELSE IF ~(At(t, i + 6, BSLASH) /\ At(t, i + 7, 117)) THEN Bad
         ELSE LET l == Hex4(t, i + 8) IN
              IF l < 56320 \/ l > 57343 THEN Bad
              ELSE JStr(t, i + 12, Append(acc, (h - 55296) * 1024 + (l - 56320) + 65536))

\* A number that is out of range is refused.
JNum(t, i, tab) ==
    LET e == NumEnd(t, i)
        n == IF e > i THEN NumberValue(SubSeq(t, i, e - 1), tab) ELSE <<>>
    IN IF n = <<>> THEN Bad ELSE [i |-> e, v |-> Num(n)]

Word(t, i, w, v) == IF i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
                    THEN [i |-> i + Len(w), v |-> v] ELSE Bad

\* A repeated key takes its last value and its first place.
SetKey(es, k, v) == LET j == KeyIndex(es, k, 1) IN
                    IF j = 0 THEN Append(es, <<k, v>>) ELSE [es EXCEPT ![j] = <<k, v>>]

RECURSIVE JValue(_, _, _), JItems(_, _, _, _), JMembers(_, _, _, _)
JValue(t, i0, tab) ==
    LET i == SkipJ(t, i0) IN
    IF i > Len(t) THEN Bad
    ELSE CASE t[i] = DQ -> JStr(t, i + 1, <<>>)
           [] t[i] = LBRACK -> LET j == SkipJ(t, i + 1) IN
                 IF At(t, j, RBRACK) THEN [i |-> j + 1, v |-> Arr(<<>>)] ELSE JItems(t, i + 1, <<>>, tab)
           [] t[i] = LBRACE -> LET j == SkipJ(t, i + 1) IN
                 IF At(t, j, RBRACE) THEN [i |-> j + 1, v |-> Obj(<<>>)] ELSE JMembers(t, i + 1, <<>>, tab)
           [] t[i] = 116 -> Word(t, i, STrue, Bool(1))
           [] t[i] = 102 -> Word(t, i, SFalse, Bool(0))
           [] t[i] = 110 -> Word(t, i, SNull, Null)
           [] OTHER -> JNum(t, i, tab)
JItems(t, i, acc, tab) ==
    LET r == JValue(t, i, tab)
        j == SkipJ(t, r.i)
    IN IF r.i = 0 THEN Bad
       ELSE IF At(t, j, COMMA) THEN JItems(t, j + 1, Append(acc, r.v), tab)
       ELSE IF At(t, j, RBRACK) THEN [i |-> j + 1, v |-> Arr(Append(acc, r.v))]
       ELSE Bad
JMembers(t, i0, acc, tab) ==
    LET i == SkipJ(t, i0)
        k == IF At(t, i, DQ) THEN JStr(t, i + 1, <<>>) ELSE Bad
        c == IF k.i = 0 THEN 0 ELSE SkipJ(t, k.i)
        r == IF c > 0 /\ At(t, c, COLON) THEN JValue(t, c + 1, tab) ELSE Bad
        j == IF r.i = 0 THEN 0 ELSE SkipJ(t, r.i)
    IN IF j = 0 THEN Bad
       ELSE LET es == SetKey(acc, k.v[2], r.v) IN
            IF At(t, j, COMMA) THEN JMembers(t, j + 1, es, tab)
            ELSE IF At(t, j, RBRACE) THEN [i |-> j + 1, v |-> Obj(es)]
            ELSE Bad

\* The whole text: [ok, v].
ReadJson(t, tab) ==
    LET r == JValue(t, 1, tab) IN
    IF r.i > 0 /\ SkipJ(t, r.i) > Len(t) THEN [ok |-> TRUE, v |-> r.v] ELSE [ok |-> FALSE, v |-> Null]

\* The same collapse of repeated keys, for a value.
RECURSIVE Dedup(_), DedupEntries(_, _, _)
Dedup(v) == IF IsPrim(v) THEN v
            ELSE IF IsArr(v) THEN Arr([i \in 1..Len(v[2]) |-> Dedup(v[2][i])])
            ELSE Obj(DedupEntries(v[2], 1, <<>>))
DedupEntries(es, i, acc) ==
    IF i > Len(es) THEN acc ELSE DedupEntries(es, i + 1, SetKey(acc, es[i][1], Dedup(es[i][2])))
=============================================================================
