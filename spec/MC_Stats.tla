------------------------------ MODULE MC_Stats ------------------------------
(***************************************************************************)
(* JSON texts put together slot by slot, written, and the estimates of     *)
(* both texts.                                                             *)
(***************************************************************************)
EXTENDS MC_Json, Statistics

Out == Join(em.out, <<LF>>)
SayStats == /\ gen.p = 0 /\ W!EncDone
            /\ PrintT("R" \o ToJson(<<gen.t, Tokens(gen.t), Tokens(Out), Saved(Tokens(gen.t), Tokens(Out))>>))
            /\ gen' = [gen EXCEPT !.p = -1] /\ em' = em
\* What is not JSON is left at that.
Drop == /\ gen.p > Len(MC.slots) /\ ~Value.ok
        /\ gen' = [gen EXCEPT !.p = -1] /\ em' = em
NextStats == Grow \/ (Value.ok /\ Read) \/ Drop \/ Write \/ SayStats
SpecStats == Init /\ [][NextStats]_vars

\* Adding white space at an end changes nothing, adding a word adds at most
\* that word; an estimate is never nothing.
Sane == gen.p >= 0 =>
    LET n == Tokens(gen.t) IN
    /\ n >= 1
    /\ Tokens(<<SP>> \o gen.t \o <<LF>>) = n
    /\ Tokens(gen.t \o <<SP, 97>>) \in {n, n + 1}
=============================================================================
