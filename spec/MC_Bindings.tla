---------------------------- MODULE MC_Bindings ----------------------------
(***************************************************************************)
(* Every call of the bindings over a stock of texts and option values: one *)
(* of the option values as it is, or an object put together field by       *)
(* field.  Functions: 1 encode, 2 encode_with_options, 3 decode,           *)
(* 4 decode_with_options, 5 decode_pretty.                                 *)
(***************************************************************************)
EXTENDS ToonDecode, Expand, JsonRead, Bindings, Json, IOUtils, TLC

MC == JsonDeserialize(IOEnv.TOON_MC)
VARIABLES gen, em
vars == <<gen, em, din, dm>>

NoDoc == [doc |-> <<>>]
Idle == [ph |-> "idle"]
Writes == gen.fn < 3
Opts == EncOptions(gen.js)
W == INSTANCE ToonEncode WITH ein <- [v |-> gen.v, indent |-> Opts.indent, delim |-> Opts.delim,
                                      fold |-> Opts.fold, flat |-> Opts.flat]

Init == /\ gen \in [fn : 1..5, ph : {"options"}, k : {1}, js : {<<0>>}, t : {<<>>}, v : {<<>>}]
        /\ em = <<>> /\ din = NoDoc /\ dm = Idle
Slots == IF Writes THEN MC.encfields ELSE MC.decfields

Options ==
    /\ gen.ph = "options"
    /\ \/ /\ gen.fn \in {1, 3, 5} /\ gen' = [gen EXCEPT !.ph = "text"]
       \/ /\ gen.fn \in {2, 4}
          /\ \/ /\ gen.k = 1
                /\ \E i \in 1..Len(MC.whole) : gen' = [gen EXCEPT !.ph = "text", !.js = MC.whole[i]]
             \/ /\ gen.k <= Len(Slots)
                /\ \E i \in 0..Len(Slots[gen.k][2]) :
                      gen' = [gen EXCEPT !.k = @ + 1,
                                         !.js = <<5, IF i = 0 THEN Fields(gen.js)
                                                     ELSE Append(Fields(gen.js), <<Slots[gen.k][1], Slots[gen.k][2][i]>>)>>]
             \/ /\ gen.k > Len(Slots) /\ gen' = [gen EXCEPT !.ph = "text"]
    /\ UNCHANGED <<em, din, dm>>

Text ==
    /\ gen.ph = "text"
    /\ LET pool == IF Writes THEN MC.json ELSE MC.docs IN
       \E i \in 1..Len(pool) :
          LET t == pool[i]
              j == ReadJson(t, <<>>)
              fails == ~Accepts(gen.js) \/ (Writes /\ ~j.ok)
              d == DecOptions(gen.js)
          IN /\ gen' = [gen EXCEPT !.t = t, !.ph = IF fails THEN "refused" ELSE IF Writes THEN "begin" ELSE "run",
                                   !.v = IF Writes THEN j.v ELSE <<>>]
             /\ IF fails \/ Writes THEN UNCHANGED <<em, din, dm>>
                ELSE /\ em' = em
                     /\ din' = [doc |-> Split(t, LF), indent |-> d.indent, strict |-> d.strict, x |-> d.x, tab |-> <<>>]
                     /\ dm' = DecInit
Begin == gen.ph = "begin" /\ em' = W!EncInit /\ gen' = [gen EXCEPT !.ph = "run"] /\ UNCHANGED <<din, dm>>
Run == /\ gen.ph = "run"
       /\ \/ Writes /\ ~W!EncDone /\ W!EncNext /\ UNCHANGED <<din, dm>>
          \/ ~Writes /\ dm.ph \in {"scan", "run"} /\ DecNext /\ UNCHANGED <<em, din>>
       /\ gen' = gen

Value == IF dm.st # "ok" THEN <<>>
         ELSE LET tree == BTree(BRun(dm.evs, 1, BInit)) IN
              IF ~din.x THEN <<Dedup(Plain(tree))>>
              ELSE LET r == ExpandTree(tree, din.strict) IN IF r.ok THEN <<Dedup(r.v)>> ELSE <<>>
Answer == IF gen.ph = "refused" THEN <<"err", <<>>>>
          ELSE IF Writes THEN <<"ok", Join(em.out, <<LF>>)>>
          ELSE IF Value = <<>> THEN <<"err", <<>>>>
          ELSE <<"ok", JsonTokens(ValueEvents(Value[1]), IF gen.fn = 5 THEN 2 ELSE 0)>>
Say == /\ \/ gen.ph = "refused"
          \/ gen.ph = "run" /\ IF Writes THEN W!EncDone ELSE dm.ph = "done"
       /\ PrintT("R" \o ToJson(<<gen.fn, gen.t, gen.js, Answer[1], Answer[2]>>))
       /\ gen' = [gen EXCEPT !.ph = "said"] /\ UNCHANGED <<em, din, dm>>
Next == Options \/ Text \/ Begin \/ Run \/ Say
Spec == Init /\ [][Next]_vars

\* Leaving the options out, or giving none of them, is the plain call; and
\* the answer to a document depends on its options only through what they
\* denote.
Plain2 == gen.js = <<0>> \/ gen.js = <<1>> \/ gen.js = <<5, <<>>>> \/ gen.js = <<6>>
Defaults == Plain2 => /\ EncOptions(gen.js) = EncOptions(<<0>>)
                      /\ DecOptions(gen.js) = [indent |-> 2, strict |-> TRUE, x |-> FALSE]
Refuses == gen.ph = "refused" => ~Accepts(gen.js) \/ (Writes /\ ~ReadJson(gen.t, <<>>).ok)
Sound == gen.ph = "run" /\ ~Writes => Bounded /\ Monotone /\ ErrorLine /\ ClosedAtEnd
=============================================================================
