------------------------------ MODULE MC_Read ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the reader.  A text is put together slot by   *)
(* slot (the file named by TOON_MC lists the alternatives of each slot and *)
(* the reader's configurations), then read.  Every finished run is printed *)
(* so that it can be replayed on the real code.                            *)
(***************************************************************************)
EXTENDS ToonDecode, Expand, Json, IOUtils, TLC

MC == JsonDeserialize(IOEnv.TOON_MC)
Slots == MC.slots
Cfgs == MC.cfgs
Quiet == MC.quiet

VARIABLES gen,
          old     \* the strict outcome, while the same text is read leniently
vars == <<gen, din, dm, old>>

NoDoc == [doc |-> <<>>]
Idle == [ph |-> "idle"]

Init == /\ gen = [p |-> 1, t |-> <<>>]
        /\ din = NoDoc /\ dm = Idle /\ old = <<>>

Choose == /\ dm.ph = "idle" /\ gen.p <= Len(Slots)
          /\ \E i \in 1..Len(Slots[gen.p]) :
                gen' = [p |-> gen.p + 1, t |-> gen.t \o Slots[gen.p][i]]
          /\ UNCHANGED <<din, dm, old>>

Begin == /\ dm.ph = "idle" /\ gen.p > Len(Slots)
         /\ \E i \in 1..Len(Cfgs) :
               din' = [doc |-> Split(gen.t, LF), indent |-> Cfgs[i].indent,
                       strict |-> Cfgs[i].strict, x |-> Cfgs[i].x, tab |-> <<>>]
         /\ dm' = DecInit
         /\ UNCHANGED <<gen, old>>

Read == dm.ph \in {"scan", "run"} /\ DecNext /\ UNCHANGED <<gen, din, old>>

Tree == BTree(BRun(dm.evs, 1, BInit))
Value == IF dm.st # "ok" THEN <<>>
         ELSE IF ~din.x THEN <<Plain(Tree)>>
         ELSE LET r == ExpandTree(Tree, din.strict) IN IF r.ok THEN <<r.v>> ELSE <<>>
Say == /\ dm.ph = "done"
       /\ Quiet = 1 \/ PrintT("R" \o ToJson(<<gen.t, din.indent, din.strict, din.x, dm.st, dm.el, dm.evs,
                                               IF din.x \/ MC.val = 1 THEN Value ELSE <<>>>>))
       /\ dm' = [dm EXCEPT !.ph = "said"] /\ UNCHANGED <<gen, din, old>>
\* What was read strictly is read leniently as well.
Again == /\ dm.ph = "said" /\ din.strict
         /\ old' = <<dm.st, dm.evs>>
         /\ din' = [din EXCEPT !.strict = FALSE]
         /\ dm' = DecInit /\ gen' = gen

Next == Choose \/ Begin \/ Read \/ Say \/ Again
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

Started == dm.ph # "idle"
(*******************************  invariants  ******************************)
Sound == Started => Bounded /\ Monotone /\ ErrorLine /\ ClosedAtEnd
Finished == dm.ph = "done"
\* Whatever is accepted is one complete value, with announced lengths in
\* strict mode.
RECURSIVE CountsRight(_, _, _)
CountsRight(evs, i, open) ==
    IF i > Len(evs) THEN open = <<>>
    ELSE LET e == evs[i]
             n == Len(open)
             less == IF n > 0 THEN [open EXCEPT ![n] = @ - 1] ELSE open
         IN CASE e[1] = 1 -> CountsRight(evs, i + 1, Append(less, 2000000))
              [] e[1] = 3 -> CountsRight(evs, i + 1, Append(less, e[2]))
              [] e[1] = 6 -> CountsRight(evs, i + 1, less)
              [] e[1] = 4 -> open[n] = 0 /\ CountsRight(evs, i + 1, SubSeq(open, 1, n - 1))
              [] e[1] = 2 -> CountsRight(evs, i + 1, SubSeq(open, 1, n - 1))
              [] OTHER -> CountsRight(evs, i + 1, open)
Accepted == Finished /\ dm.st = "ok" =>
               /\ WellFormed(dm.evs)
               /\ din.strict => CountsRight(dm.evs, 1, <<>>)
\* Events are only ever added: an event once out is never taken back.
Grows == [][Started /\ dm.ph # "said" =>
              /\ Len(dm.evs) <= Len(dm'.evs)
              /\ SubSeq(dm'.evs, 1, Len(dm.evs)) = dm.evs]_vars
\* Lenient reading accepts what strict reading accepts, with the same events.
Forces == Finished /\ old # <<>> => (old[1] = "ok" => dm.st = "ok" /\ dm.evs = old[2])
\* Every run comes to an end.
Ends == <>(dm.ph = "said" /\ ~din.strict)
=============================================================================
