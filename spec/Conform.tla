------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Conformance: recorded observations of the real code against the         *)
(* machines of the specification.                                          *)
(*                                                                         *)
(* The environment variable TOON_CASES names a JSON file: a sequence of    *)
(* cases.  A case may set the writer going (enc), the reader going (dec;   *)
(* on its own text, or, with dec.own = 0, on the lines the writer has just *)
(* written), or neither.  When the machines have come to rest, every       *)
(* observation recorded for the case is judged, and one line per           *)
(* observation is printed: <<"V", id, number, verdict>>.                   *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils, TLC

Raw == JsonDeserialize(IOEnv.TOON_CASES)
\* Options may be given as a value of JavaScript.
WithJs(c) ==
    IF c.enc # <<>> /\ "js" \in DOMAIN c.enc[1]
    THEN [c EXCEPT !.enc[1] = EncOptions(@.js) @@ @]
    ELSE IF c.dec # <<>> /\ "js" \in DOMAIN c.dec[1]
    THEN [c EXCEPT !.dec[1] = DecOptions(@.js) @@ @]
    ELSE c
\* What a value becomes before anything else is done with it; a value may be
\* given as JSON text, or, when it is deep, as its events: <<9, events>>.
RECURSIVE Norm(_)
Norm(c) ==
    IF c.enc = <<>> THEN c
    ELSE IF "v" \in DOMAIN c.enc[1] /\ c.enc[1].v[1] = 9 THEN Norm([c EXCEPT !.enc[1].v = TreeOf(@[2])])
    ELSE IF "dedup" \in DOMAIN c.enc[1] THEN [c EXCEPT !.enc[1].v = Dedup(Normalize(@))]
    ELSE IF c.enc[1].json = <<>> THEN [c EXCEPT !.enc[1].v = Normalize(@)]
    ELSE [c EXCEPT !.enc[1].v = ReadJson(c.enc[1].json, c.tab).v]
Deep(o) == IF "v" \in DOMAIN o /\ o.v[1] = 9 THEN [o EXCEPT !.v = TreeOf(o.v[2])] ELSE o
Cases == [i \in 1..Len(Raw) |->
            LET c == Norm(WithJs(Raw[i])) IN [c EXCEPT !.obs = [j \in 1..Len(c.obs) |-> Deep(c.obs[j])]]]

VARIABLES ci, ph, em, dm
vars == <<ci, ph, em, dm>>

EncIn == Cases[ci].enc[1]
DecIn == LET d == Cases[ci].dec[1] IN
         IF d.own = 1 THEN d ELSE [d EXCEPT !.doc = em.out]

W == INSTANCE ToonEncode WITH ein <- EncIn
R == INSTANCE ToonDecode WITH din <- DecIn

NoRun == [st |-> "none"]
First(c) == IF c.enc # <<>> THEN "write" ELSE IF c.dec # <<>> THEN "read" ELSE "judge"

Init == /\ ci \in 1..Len(Cases)
        /\ ph = First(Cases[ci])
        /\ em = IF ph = "write" THEN W!EncInit ELSE NoRun
        /\ dm = IF ph = "read" THEN R!DecInit ELSE NoRun

Writing == /\ ph = "write"
           /\ IF W!EncDone
              THEN /\ ph' = IF Cases[ci].dec # <<>> THEN "read" ELSE "judge"
                   /\ em' = em
                   /\ dm' = IF Cases[ci].dec # <<>> THEN R!DecInit ELSE dm
                   /\ ci' = ci
              ELSE W!EncNext /\ UNCHANGED <<ci, ph, dm>>
Reading == /\ ph = "read"
           /\ IF R!DecDone
              THEN ph' = "judge" /\ UNCHANGED <<ci, em, dm>>
              ELSE R!DecNext /\ UNCHANGED <<ci, ph, em>>

Verdicts == LET c == Cases[ci] IN
    \A i \in 1..Len(c.obs) :
        PrintT(<<"V", c.id, i, Judge(c.obs[i], c, em, dm)>>)
\* With give = 1 the specification's own answer is printed as well.
Give == LET c == Cases[ci] IN
    c.give = 1 => PrintT("X" \o ToJson([id |-> c.id, em |-> IF c.enc # <<>> THEN em.out ELSE <<>>,
                                dec |-> IF c.dec # <<>> THEN <<dm.st, dm.el, dm.evs>> ELSE <<>>]))
Judging == /\ ph = "judge"
           /\ Give /\ Verdicts
           /\ ph' = "done" /\ UNCHANGED <<ci, em, dm>>

Next == Writing \/ Reading \/ Judging
Spec == Init /\ [][Next]_vars

(*************************  invariants of every run  ***********************)
ReaderSound == dm # NoRun => R!Bounded /\ R!Monotone /\ R!ErrorLine /\ R!ClosedAtEnd
WriterSound == em # NoRun => W!CleanLines /\ W!Indented
\* Whatever the reader accepts is one complete value.
Accepted == (ph = "judge" /\ dm # NoRun /\ dm.st = "ok") => WellFormed(dm.evs)
\* What the writer writes reads back as the same value.
RoundTrip == (/\ ph = "judge" /\ em # NoRun /\ dm # NoRun
              /\ Cases[ci].dec[1].own = 0 /\ EncIn.fold = FALSE)
             => /\ dm.st = "ok"
                /\ TreeOf(dm.evs) = Canon(EncIn.v)
=============================================================================
