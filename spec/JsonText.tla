------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON text.                                                              *)
(*                                                                         *)
(* Writing: a machine over events that lays the text out with the given    *)
(* indentation.  Its output is a list of tokens: <<0, text>> literal text, *)
(* <<2, number>>, <<3, string>>: numbers and strings have more than one    *)
(* correct spelling, so a recorded text is matched against the tokens by   *)
(* reading its numbers and strings, and everything else exactly.           *)
(***************************************************************************)
EXTENDS EventTree

Lit(t) == <<0, t>>
NewLine(depth, indent) == IF indent = 0 THEN <<>> ELSE <<Lit(<<LF>> \o Spaces(depth * indent))>>

JInit == [stk |-> <<>>, toks |-> <<>>]
\* stk: open containers, <<kind, whether anything was written inside>>
JPut(j, ts) == [j EXCEPT !.toks = @ \o ts]
\* A value begins: inside an array it goes on a line of its own.
JLead(j, indent) ==
    LET n == Len(j.stk) IN
    IF n = 0 \/ (n > 0 /\ j.stk[n][1] = "obj") THEN j
    ELSE JPut([j EXCEPT !.stk[n][2] = TRUE],
              (IF j.stk[n][2] THEN <<Lit(<<COMMA>>)>> ELSE <<>>) \o NewLine(n, indent))
PrimToken(v) ==
    CASE Tag(v) = TNum -> v
      [] Tag(v) = TStr -> v
      [] OTHER -> Lit(EncodePrim(v, COMMA))
JClose(j, c, indent) ==
    LET n == Len(j.stk)
        f == j.stk[n]
        r == [j EXCEPT !.stk = SubSeq(@, 1, n - 1)]
    IN JPut(r, (IF f[2] THEN NewLine(n - 1, indent) ELSE <<>>) \o <<Lit(<<c>>)>>)
JStep(j, ev, indent) ==
    LET n == Len(j.stk) IN
    CASE ev[1] = 1 -> LET r == JPut(JLead(j, indent), <<Lit(<<LBRACE>>)>>)
                      IN [r EXCEPT !.stk = Append(@, <<"obj", FALSE>>)]
      [] ev[1] = 3 -> LET r == JPut(JLead(j, indent), <<Lit(<<LBRACK>>)>>)
                      IN [r EXCEPT !.stk = Append(@, <<"arr", FALSE>>)]
      [] ev[1] = 2 -> JClose(j, RBRACE, indent)
      [] ev[1] = 4 -> JClose(j, RBRACK, indent)
      [] ev[1] = 5 -> JPut([j EXCEPT !.stk[n][2] = TRUE],
                           (IF j.stk[n][2] THEN <<Lit(<<COMMA>>)>> ELSE <<>>)
                             \o NewLine(n, indent)
                             \o <<Str(ev[3]), Lit(IF indent = 0 THEN <<COLON>> ELSE <<COLON, SP>>)>>)
      [] OTHER -> JPut(JLead(j, indent), <<PrimToken(ev[2])>>)

RECURSIVE JRun(_, _, _, _)
JRun(evs, i, j, indent) ==
    IF i > Len(evs) THEN j ELSE JRun(evs, i + 1, JStep(j, evs[i], indent), indent)
\* evs must be well-formed.
JsonTokens(evs, indent) == JRun(evs, 1, JInit, indent).toks

(*******************************  reading  *********************************)
HexVal(c) == IF IsDigit(c) THEN c - ZERO
             ELSE IF c > 96 /\ c < 103 THEN c - 87
             ELSE IF c > 64 /\ c < 71 THEN c - 55 ELSE -1
Hex4(t, i) ==
    IF i + 3 > Len(t) \/ \E j \in i..(i + 3) : HexVal(t[j]) = -1 THEN -1
    ELSE ((HexVal(t[i]) * 16 + HexVal(t[i + 1])) * 16 + HexVal(t[i + 2])) * 16 + HexVal(t[i + 3])
ShortEsc(c) == CASE c = DQ -> DQ [] c = BSLASH -> BSLASH [] c = 47 -> 47 [] c = 98 -> 8
                 [] c = 102 -> 12 [] c = 110 -> LF [] c = 114 -> CR [] c = 116 -> TAB
                 [] OTHER -> -1

\* Match the string s (from its k-th character on) against text t from
\* position i on; the position after the closing quote, or 0.
RECURSIVE MatchStr(_, _, _, _)
MatchStr(t, i, s, k) ==
    IF i > Len(t) THEN 0
    ELSE IF t[i] = DQ THEN (IF k > Len(s) THEN i + 1 ELSE 0)
    ELSE IF k > Len(s) \/ t[i] < 32 THEN 0
    ELSE IF t[i] # BSLASH THEN (IF t[i] = s[k] THEN MatchStr(t, i + 1, s, k + 1) ELSE 0)
    ELSE IF i = Len(t) THEN 0
    ELSE IF t[i + 1] # 117
         THEN (IF ShortEsc(t[i + 1]) = s[k] THEN MatchStr(t, i + 2, s, k + 1) ELSE 0)
    ELSE LET h == Hex4(t, i + 2) IN
         IF h = s[k] THEN MatchStr(t, i + 6, s, k + 1)
         ELSE IF h >= 55296 /\ h < 56320 /\ i + 7 <= Len(t) /\ t[i + 6] = BSLASH /\ t[i + 7] = 117
              THEN LET l == Hex4(t, i + 8) IN
                   IF l >= 56320 /\ l < 57344
                        /\ (h - 55296) * 1024 + (l - 56320) + 65536 = s[k]
                   THEN MatchStr(t, i + 12, s, k + 1) ELSE 0
         ELSE 0

NumChar(c) == IsDigit(c) \/ c = HYPHEN \/ c = PLUS \/ c = DOT \/ c = LOWE \/ c = UPE
RECURSIVE NumEnd(_, _)
NumEnd(t, i) == IF i <= Len(t) /\ NumChar(t[i]) THEN NumEnd(t, i + 1) ELSE i

RECURSIVE MatchFrom(_, _, _, _, _)
MatchFrom(t, i, toks, k, tab) ==
    IF k > Len(toks) THEN i = Len(t) + 1
    ELSE LET tok == toks[k] IN
    IF tok[1] = 0
    THEN LET e == i + Len(tok[2]) IN
         e <= Len(t) + 1 /\ SubSeq(t, i, e - 1) = tok[2] /\ MatchFrom(t, e, toks, k + 1, tab)
    ELSE IF tok[1] = TStr
    THEN /\ i <= Len(t) /\ t[i] = DQ
         /\ LET e == MatchStr(t, i + 1, tok[2], 1) IN e > 0 /\ MatchFrom(t, e, toks, k + 1, tab)
    ELSE LET e == NumEnd(t, i) IN
         /\ e > i
         /\ NumberValue(SubSeq(t, i, e - 1), tab) = tok[2]
         /\ MatchFrom(t, e, toks, k + 1, tab)
MatchesJson(text, evs, indent, tab) == MatchFrom(text, 1, JsonTokens(evs, indent), 1, tab)
=============================================================================
