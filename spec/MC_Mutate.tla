----------------------------- MODULE MC_Mutate ------------------------------
(***************************************************************************)
(* Every small edit of every small written document.  A value is written   *)
(* by the writer, the text is changed in one place, or in several if       *)
(* MC.edits says so (a character deleted or                                *)
(* put in, a line deleted, repeated, exchanged with the next, indented or  *)
(* outdented), and what comes out is read, strictly and then leniently.    *)
(* Every finished run is printed so that it can be replayed on the code.   *)
(***************************************************************************)
EXTENDS Expand, Json, IOUtils, TLC

MC == JsonDeserialize(IOEnv.TOON_MC)
Set(s) == {s[i] : i \in 1..Len(s)}

VARIABLES gen,      \* the value, its configuration, and how far we are
          em,       \* the writer
          din, dm,  \* the reader
          old       \* the strict outcome, while the same text is read leniently
vars == <<gen, em, din, dm, old>>

W == INSTANCE ToonEncode WITH ein <- [v |-> gen.v, indent |-> gen.c.indent, delim |-> gen.c.delim,
                                      fold |-> gen.c.fold, flat |-> gen.c.flat]
R == INSTANCE ToonDecode

NoDoc == [doc |-> <<>>]
Idle == [ph |-> "idle"]

Init == /\ gen \in [v : Set(MC.values), c : Set(MC.cfgs), edit : {0}]
        /\ em = W!EncInit
        /\ din = NoDoc /\ dm = Idle /\ old = <<>>

Write == /\ gen.edit = 0 /\ dm.ph = "idle" /\ ~W!EncDone
         /\ W!EncNext /\ UNCHANGED <<gen, din, dm, old>>

RECURSIVE Glue(_, _)
Glue(ls, i) == IF i > Len(ls) THEN <<>>
               ELSE IF i = Len(ls) THEN ls[i] ELSE ls[i] \o <<LF>> \o Glue(ls, i + 1)
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Put(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Pad == [i \in 1..gen.c.indent |-> SP]
\* The documents one edit away.
Edits(ls) ==
    LET t == Glue(ls, 1) IN
    {Split(t, LF)}
    \cup {Split(Cut(t, i), LF) : i \in 1..Len(t)}
    \cup {Split(Put(t, i, x), LF) : <<i, x>> \in (1..Len(t) + 1) \X Set(MC.chars)}
    \cup {Cut(ls, i) : i \in 1..Len(ls)}
    \cup {Put(ls, i, ls[i]) : i \in 1..Len(ls)}
    \cup {[ls EXCEPT ![i] = Pad \o @] : i \in 1..Len(ls)}
    \cup {[ls EXCEPT ![i] = SubSeq(@, gen.c.indent + 1, Len(@))] : i \in {j \in 1..Len(ls) : Len(ls[j]) > 0 /\ ls[j][1] = SP}}
    \cup {[ls EXCEPT ![i] = ls[i + 1], ![i + 1] = ls[i]] : i \in 1..Len(ls) - 1}

\* All edits but the last only change the text.
Meddle == /\ gen.edit + 1 < MC.edits /\ (IF gen.edit > 0 THEN TRUE ELSE W!EncDone)
          /\ dm.ph = "idle"
          /\ \E d \in Edits(em.out) : Len(d) > 0 /\ em' = [out |-> d]
          /\ gen' = [v |-> <<>>, c |-> gen.c, edit |-> gen.edit + 1]
          /\ UNCHANGED <<din, dm, old>>
Edit == /\ dm.ph = "idle" /\ gen.edit + 1 = MC.edits /\ (IF gen.edit > 0 THEN TRUE ELSE W!EncDone)
        /\ \E d \in Edits(em.out) :
              /\ Len(d) > 0
              /\ din' = [doc |-> d, indent |-> gen.c.indent, strict |-> TRUE, x |-> gen.c.fold, tab |-> <<>>]
        /\ gen' = [edit |-> MC.edits] /\ em' = [out |-> <<>>]
        /\ dm' = R!DecInit /\ UNCHANGED old

Read == dm.ph \in {"scan", "run"} /\ R!DecNext /\ UNCHANGED <<gen, em, din, old>>

Tree == BTree(BRun(dm.evs, 1, BInit))
Value == IF dm.st # "ok" THEN <<>>
         ELSE IF ~din.x THEN <<Plain(Tree)>>
         ELSE LET r == ExpandTree(Tree, din.strict) IN IF r.ok THEN <<r.v>> ELSE <<>>
Say == /\ dm.ph = "done"
       /\ PrintT("R" \o ToJson(<<Glue(din.doc, 1), din.indent, din.strict, din.x, dm.st, dm.el, dm.evs, Value>>))
       /\ dm' = [dm EXCEPT !.ph = "said"] /\ UNCHANGED <<gen, em, din, old>>
Again == /\ dm.ph = "said" /\ din.strict
         /\ old' = <<dm.st, dm.evs>>
         /\ din' = [din EXCEPT !.strict = FALSE]
         /\ dm' = R!DecInit /\ UNCHANGED <<gen, em>>

Next == Write \/ Meddle \/ Edit \/ Read \/ Say \/ Again
Spec == Init /\ [][Next]_vars

(*******************************  invariants  ******************************)
Started == dm.ph # "idle"
Sound == Started => R!Bounded /\ R!Monotone /\ R!ErrorLine /\ R!ClosedAtEnd
Finished == dm.ph = "done"
Accepted == Finished /\ dm.st = "ok" => WellFormed(dm.evs)
Forces == Finished /\ old # <<>> => (old[1] = "ok" => dm.st = "ok" /\ dm.evs = old[2])
=============================================================================
