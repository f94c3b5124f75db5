-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* What the specification says about each kind of observation.             *)
(* o: the observation; c: its case; em, dm: the machines at rest.          *)
(***************************************************************************)
EXTENDS Expand, JsonRead, Replacer, Bindings, Statistics

TreeOf(evs) == Plain(BTree(BRun(evs, 1, BInit)))

\* The value a reader must report: [ok, v].
Reported(dm, strict, expand) ==
    IF dm.st # "ok" THEN [ok |-> FALSE]
    ELSE IF ~expand THEN [ok |-> TRUE, v |-> TreeOf(dm.evs)]
    ELSE ExpandTree(BTree(BRun(dm.evs, 1, BInit)), strict)

IsPrefix(p, s) == Len(p) <= Len(s) /\ p = SubSeq(s, 1, Len(p))

\* Array starts announce exactly what follows: n counts down the elements of
\* each open array.
RECURSIVE Announced(_, _, _)
Announced(evs, i, open) ==
    LET n == Len(open)
        value(e) == e[1] \in {1, 3, 6}
        less == IF n > 0 /\ open[n] # -1 THEN [open EXCEPT ![n] = @ - 1] ELSE open
    IN
    IF i > Len(evs) THEN TRUE
    ELSE LET e == evs[i] IN
         IF value(e) /\ n > 0 /\ open[n] = 0 THEN FALSE
         ELSE CASE e[1] = 1 -> Announced(evs, i + 1, Append(less, -1))
                [] e[1] = 3 -> Announced(evs, i + 1, Append(less, e[2]))
                [] e[1] = 6 -> Announced(evs, i + 1, less)
                [] e[1] = 4 -> open[n] = 0 /\ Announced(evs, i + 1, SubSeq(open, 1, n - 1))
                [] e[1] = 2 -> Announced(evs, i + 1, SubSeq(open, 1, n - 1))
                [] OTHER -> Announced(evs, i + 1, open)

KeysOf(evs) == SelectSeq(evs, LAMBDA e : e[1] = 5)

Judge(o, c, em, dm) ==
  CASE
  \* the lines the writer returned
       o.k = "lines" -> o.st = "ok" /\ o.lines = em.out
  \* the same, joined
    [] o.k \in {"text", "dtext"} -> o.st = "ok" /\ o.text = Join(em.out, <<LF>>)
  \* the events (or the error) a reader returned
    [] o.k = "evs" -> IF dm.st = "ok" THEN o.st = "ok" /\ o.evs = dm.evs ELSE o.st = "err"
  \* the line an error names
    [] o.k = "line" -> dm.st = "err" /\ dm.el > 0 => o.st = "err" /\ o.el = dm.el
  \* an event stream consumed item by item
    [] o.k = "stream" -> /\ o.extra = 0
                         /\ IF dm.st = "ok" THEN o.st = "ok" /\ o.evs = dm.evs
                            ELSE o.st = "err" /\ (dm.el = 0 => IsPrefix(o.evs, dm.evs))
  \* what was streamed before an error on a line: this case holds the lines
  \* above it
    [] o.k = "above" -> IsPrefix(o.evs, dm.evs)
  \* the value (or the error) a reader returned
    [] o.k = "val" -> LET r == Reported(dm, c.dec[1].strict, o.x) IN
                      IF r.ok THEN o.st = "ok" /\ o.v = r.v ELSE o.st = "err"
  \* accepted or rejected, nothing else
    [] o.k = "verdict" -> (o.st = "ok") = (dm.st = "ok") /\ o.st \in {"ok", "err"}
  \* some answer, whatever it is
    [] o.k = "mem" -> o.kb <= 2048 + 4 * o.bytes
    [] o.k = "total" -> o.st \in {"ok", "err"}
  \* two answers: the first, when it is a success, forces the second
    [] o.k = "forces" -> o.a.st = "ok" => o.b = o.a
  \* two answers that must be alike
    [] o.k = "alike" -> o.a = o.b
  \* events that must be one complete value, with announced lengths
    [] o.k = "wf" -> o.st = "ok" => WellFormed(o.evs) /\ (o.strict => Announced(o.evs, 1, <<>>))
  \* events and value reported for one document
    [] o.k = "asm" -> o.st = "ok" /\ WellFormed(o.evs) => o.v = TreeOf(o.evs)
  \* the keys of a document and whether they were quoted
    [] o.k = "keys" -> o.st = "ok" /\ dm.st = "ok" => KeysOf(o.evs) = KeysOf(dm.evs)
  \* the value reported with path expansion, given the events reported
    [] o.k = "expandof" -> IF o.est # "ok" THEN o.st = "err"
                           ELSE IF ~WellFormed(o.evs) THEN o.st \in {"ok", "err"}
                           ELSE LET r == ExpandTree(BTree(BRun(o.evs, 1, BInit)), o.strict) IN
                                IF r.ok THEN o.st = "ok" /\ o.v = r.v ELSE o.st = "err"
  \* JSON text written for a document, given the value reported for it
    [] o.k = "jsonof" -> IF o.vst # "ok" THEN o.st = "err"
                         ELSE o.st = "ok" /\ MatchesJson(o.text, ValueEvents(o.v), o.indent, c.tab)
  \* an event stream, given the events reported for the same document
    [] o.k = "streamof" -> /\ o.extra = 0
                           /\ IF o.est = "ok" THEN o.st = "ok" /\ o.evs = o.all ELSE o.st = "err"
  \* JSON text written for a document
    [] o.k = "json" -> LET r == Reported(dm, c.dec[1].strict, o.x) IN
                       IF r.ok THEN /\ o.st = "ok"
                                    /\ MatchesJson(o.text, IF o.x THEN ValueEvents(r.v) ELSE dm.evs,
                                                   o.indent, c.tab)
                       ELSE o.st = "err"
  \* the value read back from written text
    [] o.k = "rt" -> o.st = "ok" /\ o.v = Canon(c.enc[1].v)
  \* the events of a value
    [] o.k = "vevs" -> o.st = "ok" /\ o.evs = ValueEvents(c.enc[1].v)
  \* a tree built from an event sequence
    [] o.k = "built" -> LET b == BRun(o.evs, 1, BInit)
                            d == BVerdict(b)
                        IN CASE d = "ok" -> o.st = "ok" /\ o.v = Plain(BTree(b))
                             [] d = "loose" -> o.st \in {"ok", "err"}
                             [] OTHER -> o.st = "err"
  \* JSON text written for an event sequence
    [] o.k = "streamed" -> LET d == BVerdict(BRun(o.evs, 1, BInit)) IN
                        CASE d = "ok" -> o.st = "ok" /\ MatchesJson(o.text, o.evs, o.indent, c.tab)
                          [] d = "empty" -> o.st \in {"ok", "err"} /\ o.text = <<>>
                          [] d \in {"loose", "keyless"} -> o.st \in {"ok", "err"}
                          [] OTHER -> o.st = "err"
  \* JSON text written for a value
    [] o.k = "jval" -> o.st = "ok" /\ MatchesJson(o.text, ValueEvents(o.v), o.indent, c.tab)
  \* JSON text read: the lines written for what it denotes (c.enc holds it)
    [] o.k = "jread" -> IF ReadJson(c.enc[1].json, c.tab).ok THEN o.st = "ok" /\ o.lines = em.out
                        ELSE o.st = "err"
  \* compact JSON text of a document, given the value reported for it
    [] o.k = "tj" -> IF o.vst # "ok" THEN o.st = "err"
                     ELSE o.st = "ok" /\ MatchesJson(o.text, ValueEvents(Dedup(o.v)), 0, c.tab)
  \* a value after a conversion to serde_json; one put together from Rust values
    [] o.k = "toserde" -> o.st = "ok" /\ o.v = Dedup(Normalize(o.given))
    [] o.k = "pieces" -> o.st = "ok" /\ o.v = Normalize(o.given)
  \* the numbers of a statistics message
    [] o.k = "stats" -> o.st = "ok" /\ StatsRight(o.nums, o.input, Join(em.out, <<LF>>))
  \* what the bindings returned for JSON text and option values
    [] o.k = "wenc" -> IF Accepts(c.enc[1].js) /\ ReadJson(c.enc[1].json, c.tab).ok
                       THEN o.st = "ok" /\ o.text = Join(em.out, <<LF>>)
                       ELSE o.st = "err"
  \* what they returned for a document
    [] o.k = "wdec" -> LET r == Reported(dm, c.dec[1].strict, c.dec[1].x) IN
                       IF Accepts(c.dec[1].js) /\ r.ok
                       THEN /\ o.st = "ok"
                            /\ MatchesJson(o.text, ValueEvents(Dedup(r.v)), o.indent, c.tab)
                       ELSE o.st = "err"
  \* a replacer run: the calls it saw and what it left
    [] o.k = "rep" -> LET r == Replace(o.rules, Normalize(o.v)) IN
                      o.st = "ok" /\ o.calls = r.calls /\ o.evs = ValueEvents(r.v)
=============================================================================
