---- MODULE TraceSite ----
EXTENDS Site, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st, verdict
vars == <<tr, l, st, verdict>>
H(t) == Traces[t].hdr
TraceInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ st = SiteInit(H(tr).cfg, H(tr).nsess, H(tr).regs) /\ verdict = "running"
TraceNext ==
  /\ verdict = "running" /\ tr' = tr
  /\ IF l = Len(Traces[tr].ev) THEN verdict' = "ok" /\ UNCHANGED <<l, st>>
     ELSE LET e == Traces[tr].ev[l + 1]
              r == DoSite(st, e)
          IN IF {e.obs[i] : i \in DOMAIN e.obs} = r.out THEN l' = l + 1 /\ st' = r.st /\ verdict' = "running"
             ELSE /\ PrintT("@@DIVERGED " \o ToJson([tr |-> Traces[tr].id, l |-> l + 1, want |-> r.out]))
                  /\ verdict' = "diverged" /\ UNCHANGED <<l, st>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
====
