------------------------------ MODULE RaceTrace ------------------------------
(* Judges the concurrent histories recorded from the real code by the rules of RaceRules. *)
EXTENDS RaceRules, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, verdict
vars == <<tr, verdict>>

RulesOf(x) ==
  LET H == x.h IN
  (IF C01R(H) THEN {} ELSE {"C01"})
  \cup (IF C08R(H, x.iso) THEN {} ELSE {"C08"})
  \cup (IF C10R(H, x.iso) THEN {} ELSE {"C10"})
  \cup (IF C11R(H, x.iso, x.delay) /\ C11bR(H, x.iso, x.delay) THEN {} ELSE {"C11"})
  \cup (IF C12R(H, x.iso) THEN {} ELSE {"C12"})
  \cup (IF C02R(H, x.iso, x.delay) THEN {} ELSE {"C02"})
  \cup (IF ValueR(H) THEN {} ELSE {"value"})
  \cup (IF C14R(H, x.iso, x.delay) THEN {} ELSE {"C14"})
  \cup (IF \A i \in 1..Len(H) : ~("exc" \in DOMAIN H[i]) THEN {} ELSE {"exc"})

RECURSIVE ToSeq(_)
ToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o ToSeq(X \ {x})

TraceInit == tr \in 1..Len(Traces) /\ verdict = "running"
TraceNext == /\ verdict = "running" /\ tr' = tr
             /\ LET bad == RulesOf(Traces[tr])
                IN IF bad = {} THEN verdict' = "ok"
                   ELSE /\ PrintT("@@BROKEN " \o ToJson([tr |-> Traces[tr].id, rules |-> ToSeq(bad)]))
                        /\ verdict' = "broken"
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
