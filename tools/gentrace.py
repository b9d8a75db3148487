"""The trace-validation module of a specification module X with InitState(header) and Do(S, e): written by setup-free
generation so that the four small specifications share one text; see spec/TraceDeps.tla for the commented version."""
TEXT = r'''---- MODULE Trace%(name)s ----
EXTENDS %(name)s, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st, verdict
vars == <<tr, l, st, verdict>>
TraceInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ st = InitState(Traces[tr].hdr) /\ verdict = "running"
TraceNext ==
  /\ verdict = "running" /\ tr' = tr
  /\ IF l = Len(Traces[tr].ev) THEN verdict' = "ok" /\ UNCHANGED <<l, st>>
     ELSE LET e == Traces[tr].ev[l + 1]
              r == Do(st, e)
          IN IF {e.obs[i] : i \in DOMAIN e.obs} = r.out THEN l' = l + 1 /\ st' = r.st /\ verdict' = "running"
             ELSE /\ PrintT("@@DIVERGED " \o ToJson([tr |-> Traces[tr].id, l |-> l + 1, want |-> r.out]))
                  /\ verdict' = "diverged" /\ UNCHANGED <<l, st>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
====
'''
CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n'

if __name__ == '__main__':
    import os
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
    for name in ('Adapter', 'Deferred', 'NoCache', 'FileStore'):
        open(os.path.join(here, 'Trace%s.tla' % name), 'w').write(TEXT % dict(name=name))
        open(os.path.join(here, 'Trace%s.cfg' % name), 'w').write(CFG)
