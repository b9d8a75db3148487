----------------------------- MODULE TraceDeps -----------------------------
(* Validation of recorded traces: every trace is one behaviour, one event per step.  The verdict is total:  *)
(* a trace is consumed to its end ("ok"), or the first event whose observation differs from what the        *)
(* specification prescribes is reported together with the prescribed observation ("diverged").              *)
EXTENDS CacheDeps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, st, verdict
vars == <<tr, l, st, verdict>>

Norm(e) == IF e.op \in {"getm", "peek"} THEN Range(e.obs) ELSE e.obs

TraceInit ==
  /\ tr \in 1..Len(Traces)
  /\ l = 0
  /\ st = InitState(Traces[tr].cfg, Traces[tr].nsess)
  /\ verdict = "running"

(* An exception or any other malformed observation is a string where a set is expected: never equal. *)
Same(e, out) ==
  IF e.op \in {"getm", "peek"} THEN (e.err = "" /\ Range(e.obs) = out) ELSE e.obs = out

TraceNext ==
  /\ verdict = "running"
  /\ tr' = tr
  /\ IF l = Len(Traces[tr].ev)
     THEN verdict' = "ok" /\ UNCHANGED <<l, st>>
     ELSE LET e == Traces[tr].ev[l + 1]
              r == Do(st, e)
          IN IF Same(e, r.out)
             THEN l' = l + 1 /\ st' = r.st /\ verdict' = "running"
             ELSE /\ PrintT("@@DIVERGED " \o ToJson([tr |-> Traces[tr].id, l |-> l + 1, want |-> r.out]))
                  /\ verdict' = "diverged" /\ UNCHANGED <<l, st>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
