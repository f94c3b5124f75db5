------------------------------ MODULE MC_Write ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the writer, followed by the reader on what    *)
(* was written.  The values are those of a family (see the file named by   *)
(* TOON_MC):                                                               *)
(*   "trees"   everything over some primitives and keys, two levels deep;  *)
(*   "chains"  objects four levels deep, with dotted keys at the top;      *)
(*   "strings" one string, grown slot by slot, as a key, a field, an item  *)
(*             and a cell;                                                 *)
(*   "nests"   the leaves listed, put in an array or object so many times. *)
(***************************************************************************)
EXTENDS Expand, Json, IOUtils, TLC

MC == JsonDeserialize(IOEnv.TOON_MC)
Cfgs == MC.cfgs
Set(s) == {s[i] : i \in 1..Len(s)}

VARIABLES gen, cfg, em, dm
vars == <<gen, cfg, em, dm>>

EncIn == [v |-> gen.v, indent |-> cfg.indent, delim |-> cfg.delim, fold |-> cfg.fold, flat |-> cfg.flat]
DecIn == [doc |-> em.out, indent |-> cfg.indent, strict |-> TRUE, tab |-> <<>>]
W == INSTANCE ToonEncode WITH ein <- EncIn
R == INSTANCE ToonDecode WITH din <- DecIn

Prims == Set(MC.prims)
KeySet == Set(MC.keys)
Tops  == Set(MC.tops)

Arrays(vs, k) == UNION {{Arr(s) : s \in [1..n -> vs]} : n \in 0..k}
Pairs(ks, a, b) == {Obj(<<<<k1, x>>, <<k2, y>>>>) : <<k1, k2, x, y>> \in
                       {q \in ks \X ks \X a \X b : q[1] # q[2]}}
Objects(ks, vs) == {Obj(<<>>)} \cup {Obj(<<<<k, x>>>>) : <<k, x>> \in ks \X vs} \cup Pairs(ks, vs, vs)

Tree1 == Prims \cup Arrays(Prims, 2) \cup Objects(KeySet, Prims)
Tree2 == Prims \cup Arrays(Tree1, 2) \cup Objects(KeySet, Tree1)
Chain1 == Prims \cup {Arr(<<>>)} \cup Objects(KeySet, Prims)
Chain2 == Prims \cup Objects(KeySet, Chain1)
Chain3 == Prims \cup {Obj(<<<<k, x>>>>) : <<k, x>> \in Tops \X Chain2}
                \cup Pairs(Tops, Chain2, Chain1) \cup Pairs(Tops, Chain1, Chain2)
Around(s) ==
    LET k == IF s = <<107>> THEN <<106>> ELSE <<107>>
        t == Str(s)
        one == Num(<<49>>)
    IN Obj(<<<<s, t>>,
             <<k, Arr(<<t, one>>)>>,
             <<Append(k, 50), Arr(<<Obj(<<<<s, t>>>>)>>)>>,
             <<Append(k, 51), Arr(<<t, Obj(<<<<s, Obj(<<<<s, one>>>>)>>>>)>>)>>>>)

\* A value put in each kind of place a value can be in.
Wraps(x) ==
    LET one == Num(<<49>>)
        k == MC.wrapkeys[1]
        l == MC.wrapkeys[2]
    IN {Arr(<<x>>), Arr(<<one, x>>), Arr(<<x, Obj(<<>>)>>), Arr(<<x, x>>),
        Obj(<<<<k, x>>>>), Obj(<<<<l, x>>, <<k, one>>>>), Obj(<<<<k, one>>, <<l, x>>>>),
        Obj(<<<<k, x>>, <<l, x>>>>)}

None == [st |-> "none"]
Idle == [wk |-> <<>>, idle |-> TRUE]
NoCfg == [none |-> TRUE]

\* Values start whole or as a string still to be grown.
Init == /\ gen \in IF MC.family = "strings" THEN {[p |-> 1, v |-> <<>>, n |-> 0]}
                   ELSE {[p |-> 0, v |-> x, n |-> MC.wraps] : x \in
                            CASE MC.family = "trees" -> Tree2
                              [] MC.family = "chains" -> Chain3
                              [] OTHER -> Set(MC.leaves)}
        /\ cfg = NoCfg /\ em = Idle /\ dm = None

Choose == /\ cfg = NoCfg /\ gen.p > Len(MC.slots)
          /\ gen' = [p |-> 0, v |-> Around(gen.v), n |-> 0]
          /\ UNCHANGED <<cfg, em, dm>>
Grow == /\ cfg = NoCfg /\ gen.p > 0 /\ gen.p <= Len(MC.slots)
        /\ \E i \in 1..Len(MC.slots[gen.p]) :
              gen' = [p |-> gen.p + 1, v |-> gen.v \o MC.slots[gen.p][i], n |-> 0]
        /\ UNCHANGED <<cfg, em, dm>>
Wrap == /\ cfg = NoCfg /\ gen.p = 0 /\ gen.n > 0
        /\ \E x \in Wraps(gen.v) : gen' = [gen EXCEPT !.v = x, !.n = @ - 1]
        /\ UNCHANGED <<cfg, em, dm>>
Begin == /\ cfg = NoCfg /\ gen.p = 0
         /\ MC.whole = 0 \/ gen.n = 0
         /\ cfg' \in Set(Cfgs)
         /\ em' = W!EncInit'
         /\ UNCHANGED <<gen, dm>>
Write == /\ cfg # NoCfg /\ dm = None /\ ~W!EncDone
         /\ W!EncNext /\ UNCHANGED <<gen, cfg, dm>>
Turn == /\ cfg # NoCfg /\ dm = None /\ W!EncDone
        /\ MC.quiet = 1 \/ PrintT("R" \o ToJson(<<gen.v, cfg, em.out, Canon(gen.v), Dotless(gen.v), ValueEvents(gen.v)>>))
        /\ dm' = R!DecInit /\ UNCHANGED <<gen, cfg, em>>
Read == /\ dm # None /\ dm.st = "run"
        /\ R!DecNext /\ UNCHANGED <<gen, cfg, em>>
Next == Choose \/ Grow \/ Wrap \/ Begin \/ Write \/ Turn \/ Read
Spec == Init /\ [][Next]_vars

(*******************************  invariants  ******************************)
Writing == cfg # NoCfg /\ dm = None
WriterSound == Writing => W!CleanLines /\ W!Indented
ReaderSound == dm # None => R!Bounded /\ R!Monotone /\ R!ClosedAtEnd
AtEnd == dm # None /\ dm.st # "run"
Tree == BTree(BRun(dm.evs, 1, BInit))
\* What was written reads back as the same value.
RoundTrip == AtEnd =>
    /\ dm.st = "ok"
    /\ IF ~cfg.fold THEN Plain(Tree) = Canon(gen.v)
       ELSE Dotless(gen.v) =>
            LET r == ExpandTree(Tree, TRUE) IN r.ok /\ r.v = Canon(gen.v)
\* No folded key takes more segments than allowed, and none is already there.
KeysRead == {dm.evs[i][3] : i \in {j \in 1..Len(dm.evs) : dm.evs[j][1] = 5}}
FoldBound == AtEnd /\ Dotless(gen.v) =>
    \A k \in KeysRead : Contains(k, DOT) => cfg.fold /\ Len(Split(k, DOT)) <= cfg.flat
\* The keys of every object stay distinct.
Distinct == AtEnd => DistinctKeys(Plain(Tree))
=============================================================================
