----------------------------- MODULE MCNoCache -----------------------------
(* All texts of at most MaxTok tokens, all histories of at most MaxLen servings; the properties are read off the events. *)
EXTENDS NoCache, Json, TLCExt
CONSTANTS MaxTok, MaxLen, Mode, ExportMod, Seed
VARIABLES st, log
vars == <<st, log>>
N == Len(log)
B(d, c) == [t |-> "blk", data |-> d, code |-> c]
Echo(v) == [c |-> "echo", v |-> v]
Cnt == [c |-> "n"]
P(k, v) == [k |-> k, v |-> v]
Toks == { Lit("A"), B(<<>>, <<>>), B(<<>>, <<Cnt>>), B(<<P("a", "own")>>, <<Echo("a"), Cnt>>),
          B(<<P("p", "pin")>>, <<Echo("p"), Echo("a")>>), B(<<>>, <<[c |-> "look", v |-> "p"], [c |-> "look", v |-> "z"]>>), B(<<>>, <<[c |-> "set", v |-> "a", s |-> "new"], Echo("a"), [c |-> "set", v |-> "z", s |-> "left"]>>),
          B(<<>>, <<[c |-> "nest", d |-> <<"a">>, code |-> <<Echo("a"), Cnt>>], Cnt>>) }
Datas == { <<P("a", "x")>>, <<P("a", "")>> }
SrcToks == { Lit("B"), [t |-> "var", v |-> "a"], B(<<>>, <<Cnt, Echo("a")>>), B(<<P("p", "a")>>, <<Echo("p"), [c |-> "if", v |-> "a", a |-> "a", b |-> "p"]>>) }
SDatas == { <<P("a", "x")>>, <<P("a", "y")>> }
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
Names == {"f1", "f2"}
Init == st = InitState(0) /\ log = <<>>
Step(e) == LET r == Do(st, e) IN st' = r.st /\ log' = Append(log, [e |-> e, out |-> r.out])
Next == /\ N < MaxLen
        /\ IF Mode = "handle"
           THEN \E tpl \in SeqsUpTo(Toks, MaxTok), d \in Datas : Step([op |-> "handle", tpl |-> tpl, data |-> d])
           ELSE \/ \E n \in Names, s \in SeqsUpTo(SrcToks, MaxTok), d \in SDatas :
                      /\ \A i \in 1..N : (log[i].e.op = "serve" /\ log[i].e.name = n) => log[i].e.src = s
                      /\ Step([op |-> "serve", name |-> n, src |-> s, data |-> d])
                \/ \E n \in Names : Step([op |-> "inval", name |-> n])
Spec == Init /\ [][Next]_vars

(* reading of the output token by token: how many numbers a token prints and what else *)
Numbers(t) == IF t.t # "blk" THEN 0
              ELSE Cardinality({i \in DOMAIN t.code : t.code[i].c = "n"}) + Cardinality({i \in DOMAIN t.code : t.code[i].c = "nest"})
RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN 0 ELSE Numbers(s[1]) + SumN(Tail(s))
ValA(d) == d[1].v
Shown(t, d, before) ==
  CASE t.t = "lit" -> t.s
    [] t.code = <<>> -> ""
    [] t.code = <<Cnt>> -> "N" \o ToString(before + 1)
    [] t.data # <<>> /\ t.data[1].k = "a" -> "ownN" \o ToString(before + 1)          \* pickled data win
    [] t.data # <<>> -> "pin" \o ValA(d)
    [] t.code[1].c = "set" -> "new"
    [] t.code[1].c = "look" -> "unsetunset"                                         \* whatever other blocks have
    [] OTHER -> ValA(d) \o "N" \o ToString(before + 2) \o "N" \o ToString(before + 1) \* printed blocks run after the block
RECURSIVE Want(_, _, _)
Want(s, d, before) == IF s = <<>> THEN "" ELSE Shown(s[1], d, before) \o Want(Tail(s), d, before + Numbers(s[1]))
C23 == (N > 0 /\ log[N].e.op = "handle") => log[N].out = {"=" \o Want(log[N].e.tpl, log[N].e.data, 0)}

(* the fragment was rendered with the data of the first serving after the last invalidation; its blocks see the current ones *)
RECURSIVE FirstData(_, _, _)
FirstData(n, name, d) == IF n = 0 \/ (log[n].e.op = "inval" /\ log[n].e.name = name) THEN d
                         ELSE FirstData(n - 1, name, IF log[n].e.op = "serve" /\ log[n].e.name = name THEN ValA(log[n].e.data) ELSE d)
SShown(t, d, first, before) ==
  CASE t.t = "lit" -> t.s
    [] t.t = "var" -> first
    [] t.data = <<>> -> "N" \o ToString(before + 1) \o d
    [] OTHER -> first \o d
RECURSIVE SWant(_, _, _, _)
SWant(s, d, first, before) == IF s = <<>> THEN "" ELSE SShown(s[1], d, first, before) \o SWant(Tail(s), d, first, before + Numbers(s[1]))
C23b == (N > 0 /\ log[N].e.op = "serve") =>
          LET e == log[N].e d == ValA(e.data)
          IN log[N].out = {"=" \o SWant(e.src, d, FirstData(N, e.name, d), 0)}

Exported == (ExportMod > 0 /\ N = MaxLen /\ TLCFP(<<Seed, log>>) % ExportMod = 0) =>
     PrintT("@@LOG " \o ToJson([ev |-> [i \in 1..N |-> log[i].e], want |-> [i \in 1..N |-> log[i].out]]))
=============================================================================
