----------------------------- MODULE ToonDecode -----------------------------
(***************************************************************************)
(* The TOON reader as a machine.                                           *)
(*                                                                         *)
(* din (input, never changes):  doc: the raw lines;  indent: indent size;  *)
(*   strict: BOOLEAN;  tab: environment number table (see Literals).       *)
(* dm (machine): ph phase; i next raw line; lines scanned so far; blanks   *)
(*   line numbers of blank lines; pos last consumed line; stk open         *)
(*   constructs; evs events emitted; st status; el line named by an error. *)
(*                                                                         *)
(* Every action consumes at most one line, so a run of n lines ends after  *)
(* at most 4n+4 actions: each is scanned, read, and opens at most two      *)
(* constructs that are closed in one action each (Bounded below).          *)
(***************************************************************************)
EXTENDS Values

VARIABLES dm, din


DecInit == [ph |-> "scan", i |-> 1, lines |-> <<>>, blanks |-> <<>>, pos |-> 0,
            stk |-> <<>>, evs |-> <<>>, st |-> "run", el |-> 0, steps |-> 0]

Emit(m, es) == [m EXCEPT !.evs = @ \o es]
Deepest     == 1000
Push(m, f)  == [m EXCEPT !.stk = Append(@, f)]
Pop(m)      == [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Top(m)      == m.stk[Len(m.stk)]
SetTop(m, f) == [m EXCEPT !.stk[Len(m.stk)] = f]
Fail(m, n)  == [m EXCEPT !.ph = "done", !.st = "err", !.el = n]
Consume(m)  == [m EXCEPT !.pos = @ + 1]
AtEnd(m)    == m.pos >= Len(m.lines)
Peek(m)     == m.lines[m.pos + 1]
Tick(m)     == [m EXCEPT !.steps = @ + 1]

\* Open a container that holds lines of its own; there is a bound on nesting.
\* The first frame of an object document does not count.
Nest(m, f) ==
    LET n == Len(m.stk) IN
    IF n - (IF n > 0 /\ m.stk[1].k = "root" THEN 1 ELSE 0) >= Deepest THEN Fail(m, 0) ELSE Push(m, f)

IsItem(c) == c[1] = HYPHEN /\ (IF Len(c) = 1 THEN TRUE ELSE c[2] = SP)
HyphenSpace(c) == IF Len(c) > 1 THEN c[1] = HYPHEN /\ c[2] = SP ELSE FALSE

RootHeaderLike(c) ==
    LET t == TrimStart(c) IN
    t # <<>> /\ t[1] = LBRACK /\ FindUnquoted(c, COLON, 1) > 0

(*****************************  building blocks  ***************************)
RECURSIVE EmitPrims(_, _, _)
EmitPrims(vs, i, acc) ==
    IF i > Len(vs) THEN acc ELSE EmitPrims(vs, i + 1, Append(acc, EvPrim(vs[i])))

ArrayFrame(k, h, base) ==
    [k |-> k, len |-> h.len, delim |-> h.delim, fields |-> h.fields,
     depth |-> base + 1, cnt |-> 0, first |-> 0]

\* An array whose header has just been read, at nesting depth base.
OpenArray(m0, h, base) ==
    LET m == Emit(m0, <<EvSA(h.len)>>) IN
    IF h.inline # <<>>
    THEN LET r == ReadAll(SplitRow(h.inline, h.delim), din.tab) IN
         IF ~r.ok \/ (din.strict /\ Len(r.v) # h.len) THEN Fail(m, 0)
         ELSE Emit(m, Append(EmitPrims(r.v, 1, <<>>), EvEA))
    ELSE IF h.hasf /\ h.fields # <<>> THEN Push(m, ArrayFrame("rows", h, base))
    ELSE Nest(m, ArrayFrame("list", h, base))

\* A "key: value", "key:" or "key[N]...:" text at nesting depth base.
Field(m, c, base) ==
    LET h == ParseHeader(c) IN
    IF h.st = "err" THEN Fail(m, 0)
    ELSE IF h.st = "ok" /\ h.haskey THEN OpenArray(Emit(m, <<EvKey(h.q, h.key)>>), h, base)
    ELSE
    LET quoted == c[1] = DQ
        q  == IF quoted THEN ClosingQuote(c, 1) ELSE 0
        kr == IF quoted /\ q > 0 THEN Unescape(SubSeq(c, 2, q - 1)) ELSE [ok |-> TRUE, v |-> <<>>]
        colon == IF quoted THEN (IF q > 0 /\ q < Len(c) /\ c[q + 1] = COLON THEN q + 1 ELSE 0)
                 ELSE FindChar(c, COLON, 1)
    IN
    IF colon = 0 \/ ~kr.ok THEN Fail(m, 0)
    ELSE
    LET key == IF quoted THEN kr.v ELSE Trim(SubSeq(c, 1, colon - 1))
        rest == Trim(From(c, colon + 1))
        mk == Emit(m, <<EvKey(quoted, key)>>)
    IN
    IF rest = <<>>
    THEN IF ~AtEnd(m) /\ Peek(m).d > base
         THEN Nest(Emit(mk, <<EvSO>>), [k |-> "fields", base |-> base + 1, cd |-> -1])
         ELSE Emit(mk, <<EvSO, EvEO>>)
    ELSE LET r == ReadPrim(rest, din.tab) IN
         IF r.ok THEN Emit(mk, <<EvPrim(r.v)>>) ELSE Fail(m, 0)

Item(m, c, depth) ==
    LET after == From(c, 3) IN
    IF Len(c) = 1 \/ Trim(after) = <<>> THEN Emit(m, <<EvSO, EvEO>>)
    ELSE
    LET h == ParseHeader(after) IN
    IF h.st = "err" THEN Fail(m, 0)
    ELSE IF h.st = "ok" /\ RootHeaderLike(after) THEN OpenArray(m, h, depth)
    ELSE
    LET mo == Nest(Emit(m, <<EvSO>>), [k |-> "follow", depth |-> depth + 1])
        tabled == h.st = "ok" /\ h.haskey /\ h.hasf
    IN
    IF (tabled \/ FindUnquoted(after, COLON, 1) > 0) /\ mo.st = "err" THEN mo
    ELSE IF tabled THEN OpenArray(Emit(mo, <<EvKey(h.q, h.key)>>), h, depth + 1)
    ELSE IF FindUnquoted(after, COLON, 1) > 0 THEN Field(mo, after, depth + 1)
    ELSE LET r == ReadPrim(after, din.tab) IN
         IF r.ok THEN Emit(m, <<EvPrim(r.v)>>) ELSE Fail(m, 0)

RECURSIVE RowEvents(_, _, _, _)
RowEvents(fields, vs, i, acc) ==
    IF i > Len(fields) THEN Append(acc, EvEO)
    ELSE RowEvents(fields, vs, i + 1,
           acc \o <<EvKey(fields[i].q, fields[i].name),
                    EvPrim(IF i <= Len(vs) THEN vs[i] ELSE Null)>>)

\* A line after a complete table that would be another row of it.
LooksLikeRow(c, delim) ==
    LET a == FindUnquoted(c, COLON, 1)
        b == FindUnquoted(c, delim, 1)
    IN a = 0 \/ (b > 0 /\ b < a)

\* First blank line strictly inside (first item line, last consumed line).
BlanksInside(m, first) ==
    LET last == m.lines[m.pos].n IN
    SelectSeq(m.blanks, LAMBDA b : b > first /\ b < last)

CloseArray(m, f) ==
    LET bl == IF f.first > 0 /\ m.blanks # <<>> THEN BlanksInside(m, f.first) ELSE <<>>
        extra == /\ ~AtEnd(m)
                 /\ Peek(m).d = f.depth
                 /\ IF f.k = "rows"
                    THEN ~HyphenSpace(Peek(m).c) /\ LooksLikeRow(Peek(m).c, f.delim)
                    ELSE IsItem(Peek(m).c)
    IN
    IF din.strict /\ f.cnt # f.len THEN Fail(m, 0)
    ELSE IF din.strict /\ bl # <<>> THEN Fail(m, bl[1])
    ELSE IF din.strict /\ extra THEN Fail(m, 0)
    ELSE Pop(Emit(m, <<EvEA>>))

(*********************************  actions  *******************************)
Step(m) == dm' = Tick(m)
Running == dm.ph = "run" /\ dm.stk # <<>>
TopIs(k) == Running /\ Top(dm).k = k

ScanLine ==
    /\ dm.ph = "scan" /\ dm.i <= Len(din.doc)
    /\ LET raw == din.doc[dm.i]
           n   == dm.i
           a   == SkipChar(raw, SP, 1)
           ind == a - 1
           blank == SkipWs(raw, a) > Len(raw)
           m   == [dm EXCEPT !.i = n + 1]
           tabbed == a <= Len(raw) /\ raw[a] = TAB
           badind == IF din.indent = 0 THEN ind > 0 ELSE ind % din.indent # 0
       IN Step(IF blank THEN [m EXCEPT !.blanks = Append(@, n)]
               ELSE IF din.strict /\ (tabbed \/ badind) THEN Fail(m, n)
               ELSE [m EXCEPT !.lines = Append(@,
                      [c |-> From(raw, a), n |-> n,
                       d |-> IF din.indent = 0 THEN 0 ELSE ind \div din.indent])])

\* The whole text is scanned: decide what kind of document it is.
EmptyDocument ==
    /\ dm.ph = "scan" /\ dm.i > Len(din.doc) /\ dm.lines = <<>>
    /\ Step(Emit([dm EXCEPT !.ph = "done", !.st = "ok"], <<EvSO, EvEO>>))

RootLine(m) == m.lines[1].c
ScanDone == dm.ph = "scan" /\ dm.i > Len(din.doc) /\ dm.lines # <<>>
RootHeader == IF RootHeaderLike(RootLine(dm)) THEN ParseHeader(RootLine(dm)) ELSE NoHeader
\* Whether a lone line is a field rather than a single value.
LoneField(c) ==
    IF c[1] = DQ
    THEN LET q == ClosingQuote(c, 1) IN q > 0 /\ FindChar(c, COLON, q + 1) > 0
    ELSE Contains(c, COLON)

RootArray ==
    /\ ScanDone /\ RootHeader.st # "none"
    /\ LET m == Consume([dm EXCEPT !.ph = "run"]) IN
       Step(IF RootHeader.st = "err" THEN Fail(m, 0) ELSE OpenArray(m, RootHeader, 0))
RootPrimitive ==
    /\ ScanDone /\ RootHeader.st = "none"
    /\ Len(dm.lines) = 1 /\ ~LoneField(RootLine(dm))
    /\ LET m == Consume([dm EXCEPT !.ph = "run"])
           r == ReadPrim(RootLine(dm), din.tab)
       IN Step(IF r.ok THEN Emit(m, <<EvPrim(r.v)>>) ELSE Fail(m, 0))
RootObject ==
    /\ ScanDone /\ RootHeader.st = "none"
    /\ IF Len(dm.lines) > 1 THEN TRUE ELSE LoneField(RootLine(dm))
    /\ LET m == Push(Emit(Consume([dm EXCEPT !.ph = "run"]), <<EvSO>>), [k |-> "root"])
       IN Step(Field(m, RootLine(dm), 0))

MoreRoot == ~AtEnd(dm) /\ Peek(dm).d = 0
RootField ==
    /\ TopIs("root") /\ MoreRoot
    /\ Step(Field(Consume(dm), Peek(dm).c, 0))
\* Deviation kept from the reference implementation: lines after the last
\* top-level field that are indented are left unread, in strict mode too.
RootEnd ==
    /\ TopIs("root") /\ ~MoreRoot
    /\ Step(Pop(Emit(dm, <<EvEO>>)))

MoreFields == /\ ~AtEnd(dm) /\ Peek(dm).d >= Top(dm).base
              /\ Top(dm).cd \in {-1, Peek(dm).d}
NestedField ==
    /\ TopIs("fields") /\ MoreFields
    /\ LET m == SetTop(Consume(dm), [Top(dm) EXCEPT !.cd = Peek(dm).d])
       IN Step(Field(m, Peek(dm).c, Peek(dm).d))
NestedEnd ==
    /\ TopIs("fields") /\ ~MoreFields
    /\ Step(Pop(Emit(dm, <<EvEO>>)))

MoreRows == ~AtEnd(dm) /\ Top(dm).cnt < Top(dm).len /\ Peek(dm).d = Top(dm).depth
TableRow ==
    /\ TopIs("rows") /\ MoreRows
    /\ LET f == Top(dm)
           l == Peek(dm)
           toks == SplitRow(l.c, f.delim)
           r == ReadAll(toks, din.tab)
           m == SetTop(Consume(dm), [f EXCEPT !.cnt = @ + 1, !.first = IF @ = 0 THEN l.n ELSE @])
       IN Step(IF (din.strict /\ Len(toks) # Len(f.fields)) \/ ~r.ok THEN Fail(m, 0)
               ELSE Emit(m, RowEvents(f.fields, r.v, 1, <<EvSO>>)))
TableEnd ==
    /\ TopIs("rows") /\ ~MoreRows
    /\ Step(CloseArray(dm, Top(dm)))

MoreItems == /\ ~AtEnd(dm) /\ Top(dm).cnt < Top(dm).len /\ Peek(dm).d = Top(dm).depth
             /\ IsItem(Peek(dm).c)
ListItem ==
    /\ TopIs("list") /\ MoreItems
    /\ LET f == Top(dm)
           l == Peek(dm)
           m == SetTop(Consume(dm), [f EXCEPT !.cnt = @ + 1, !.first = IF @ = 0 THEN l.n ELSE @])
       IN Step(Item(m, l.c, f.depth))
ListEnd ==
    /\ TopIs("list") /\ ~MoreItems
    /\ Step(CloseArray(dm, Top(dm)))

MoreFollow == ~AtEnd(dm) /\ Peek(dm).d = Top(dm).depth /\ ~HyphenSpace(Peek(dm).c)
ItemField ==
    /\ TopIs("follow") /\ MoreFollow
    /\ Step(Field(Consume(dm), Peek(dm).c, Top(dm).depth))
ItemEnd ==
    /\ TopIs("follow") /\ ~MoreFollow
    /\ Step(Pop(Emit(dm, <<EvEO>>)))

Finish ==
    /\ dm.ph = "run" /\ dm.stk = <<>>
    /\ Step([dm EXCEPT !.ph = "done", !.st = "ok"])

DecNext ==
    \/ ScanLine \/ EmptyDocument \/ RootArray \/ RootPrimitive \/ RootObject
    \/ RootField \/ RootEnd \/ NestedField \/ NestedEnd \/ TableRow \/ TableEnd
    \/ ListItem \/ ListEnd \/ ItemField \/ ItemEnd \/ Finish

DecDone == dm.ph = "done"

(*******************************  invariants  ******************************)
\* No run is longer than the text allows: reading always terminates.
Bounded == dm.steps <= 4 * Len(din.doc) + 4
\* Lines are consumed in order and never more than were scanned.
Monotone == dm.pos <= Len(dm.lines) /\ Len(dm.lines) + Len(dm.blanks) <= Len(din.doc)
\* An error message that names a line names one that was read.
ErrorLine == dm.el <= dm.i
\* Nothing open when the reader accepts.
ClosedAtEnd == dm.st = "ok" => dm.stk = <<>>
=============================================================================
