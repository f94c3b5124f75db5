----------------------------- MODULE MC_Replace -----------------------------
(***************************************************************************)
(* Small values under every pair of rules from a pool.  Each run is        *)
(* printed: the calls the replacer sees and what is left.                  *)
(***************************************************************************)
EXTENDS Replacer, Json, IOUtils, FiniteSets

MC == JsonDeserialize(IOEnv.TOON_MC)
VARIABLES v, rules, out
vars == <<v, rules, out>>

Init == /\ \E i \in 1..Len(MC.values) : v = MC.values[i]
        /\ rules = <<>> /\ out = <<>>
AddRule == /\ out = <<>> /\ Len(rules) < MC.rules
           /\ \E i \in 1..Len(MC.pool) : rules' = Append(rules, MC.pool[i])
           /\ UNCHANGED <<v, out>>
Run == /\ out = <<>>
       /\ LET r == Replace(rules, Normalize(v)) IN
          /\ out' = <<r>>
          /\ PrintT("R" \o ToJson(<<v, rules, r.calls, r.v, ValueEvents(r.v)>>))
       /\ UNCHANGED <<v, rules>>
Next == AddRule \/ Run
Spec == Init /\ [][Next]_vars

(*******************************  invariants  ******************************)
RECURSIVE Nodes(_), SumNodes(_, _, _)
SumNodes(items, i, acc) == IF i > Len(items) THEN acc ELSE SumNodes(items, i + 1, acc + Nodes(items[i]))
Nodes(x) == IF IsPrim(x) THEN 1
            ELSE IF IsArr(x) THEN 1 + SumNodes(x[2], 1, 0)
            ELSE 1 + SumNodes([i \in 1..Len(x[2]) |-> x[2][i][2]], 1, 0)
Paths == {out[1].calls[i][2] : i \in 1..Len(out[1].calls)}
Prefix(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))
\* Each node is asked about once.
Once == out # <<>> => Cardinality(Paths) = Len(out[1].calls)
\* Parents first: every path but the root's is seen after its parent.
ParentsFirst == out # <<>> =>
    \A i \in 1..Len(out[1].calls) :
        LET p == out[1].calls[i][2] IN
        p = <<>> \/ \E k \in 1..(i - 1) : out[1].calls[k][2] = SubSeq(p, 1, Len(p) - 1)
\* Without rules nothing changes, and every node is visited.
Identity == out # <<>> /\ rules = <<>> =>
    out[1].v = Normalize(v) /\ Len(out[1].calls) = Nodes(v)
=============================================================================
