------------------------------- MODULE Replacer -------------------------------
(***************************************************************************)
(* The replacer pass.  A replacer is consulted once per node, parents      *)
(* before children, with the key ("" for the root, the decimal index for   *)
(* an array item), the current value and the path.  It answers with a      *)
(* value (used instead, normalised, and then descended into) or with none  *)
(* (the node is left out; at the root: the root stays as it is).           *)
(*                                                                         *)
(* Replacers are given as rule lists: the first rule that applies answers; *)
(* no rule: the node itself.  A rule is <<cond, arg, action, result>>:     *)
(*   cond 0 always; 1 key = arg; 2 path = arg; 3 depth = arg[1];           *)
(*        4 the value equals arg; 5 the value is an array; 6 ... an object *)
(*   action 0 none; 1 the value result; 2 wrap: an object result -> node;  *)
(*        3 the node itself.                                               *)
(* A rule that makes new nodes does not reach deep, so that runs end.      *)
(* A path is a sequence of <<0, key>> and <<1, index text>>.               *)
(***************************************************************************)
EXTENDS Values

Reach(rule) == IF rule[1] \in {2, 4} THEN 5
               ELSE IF rule[3] \in {1, 2} THEN 2 ELSE 1000
Applies(rule, key, v, path) ==
    CASE Len(path) > Reach(rule) -> FALSE
      [] rule[1] = 0 -> TRUE
      [] rule[1] = 1 -> key = rule[2]
      [] rule[1] = 2 -> path = rule[2]
      [] rule[1] = 3 -> Len(path) = rule[2][1]
      [] rule[1] = 4 -> v = rule[2]
      [] rule[1] = 5 -> IsArr(v)
      [] rule[1] = 6 -> IsObj(v)

RECURSIVE FirstRule(_, _, _, _, _)
FirstRule(rules, i, key, v, path) ==
    IF i > Len(rules) THEN 0
    ELSE IF Applies(rules[i], key, v, path) THEN i ELSE FirstRule(rules, i + 1, key, v, path)

\* <<>> for none, else <<value>>
Answer(rules, key, v, path) ==
    LET i == FirstRule(rules, 1, key, v, path) IN
    IF i = 0 THEN <<v>>
    ELSE CASE rules[i][3] = 0 -> <<>>
           [] rules[i][3] = 1 -> <<Normalize(rules[i][4])>>
           [] rules[i][3] = 2 -> <<Obj(<<<<rules[i][4], v>>>>)>>
           [] OTHER -> <<v>>

\* The calls made, in order, as <<key, path, value>>, and the resulting value.
RECURSIVE Children(_, _, _, _), RObj(_, _, _, _, _, _), RArr(_, _, _, _, _, _)
Children(rules, v, path, calls) ==
    IF IsPrim(v) THEN [v |-> v, calls |-> calls]
    ELSE IF IsArr(v) THEN RArr(rules, v[2], 1, path, <<>>, calls)
    ELSE RObj(rules, v[2], 1, path, <<>>, calls)
RObj(rules, es, i, path, acc, calls) ==
    IF i > Len(es) THEN [v |-> Obj(acc), calls |-> calls]
    ELSE LET k == es[i][1]
             p == Append(path, <<0, k>>)
             a == Answer(rules, k, es[i][2], p)
             c == Append(calls, <<k, p, es[i][2]>>)
         IN IF a = <<>> THEN RObj(rules, es, i + 1, path, acc, c)
            ELSE LET r == Children(rules, a[1], p, c) IN
                 RObj(rules, es, i + 1, path, Append(acc, <<k, r.v>>), r.calls)
RArr(rules, items, i, path, acc, calls) ==
    IF i > Len(items) THEN [v |-> Arr(acc), calls |-> calls]
    ELSE LET k == DigitsOf(i - 1)
             p == Append(path, <<1, k>>)
             a == Answer(rules, k, items[i], p)
             c == Append(calls, <<k, p, items[i]>>)
         IN IF a = <<>> THEN RArr(rules, items, i + 1, path, acc, c)
            ELSE LET r == Children(rules, a[1], p, c) IN
                 RArr(rules, items, i + 1, path, Append(acc, r.v), r.calls)

Replace(rules, v) ==
    LET a == Answer(rules, <<>>, v, <<>>)
        start == IF a = <<>> THEN v ELSE a[1]
    IN Children(rules, start, <<>>, <<<<<<>>, <<>>, v>>>>)
=============================================================================
