------------------------------ MODULE CacheRace ------------------------------
(***************************************************************************)
(* The protocol of saves, reads, invalidations and transactions at the     *)
(* granularity of single backend operations: every session runs a program  *)
(* of calls, every call is a sequence of atomic steps, the steps of the    *)
(* sessions, the ticks of the clock and the commits of the database        *)
(* interleave arbitrarily.                                                 *)
(***************************************************************************)
EXTENDS RaceRules, TLC, Json, TLCExt

CONSTANTS Program, Iso, Delay, MaxTicks, KeepHist, ExportMod, Seed

Call(op, key, tags) == [op |-> op, key |-> key, tags |-> tags]
B == Call("begin", "", <<>>)
F == Call("finish", "", <<>>)
I(t) == Call("inv", "", <<t>>)
C(t) == Call("commit", "", <<t>>)
N == Call("snap", "", <<>>)
S(k, t) == Call("save", k, <<t>>)
R(k) == Call("read", k, <<>>)
E(what) == Call("evict", what, <<"t">>)     \* the backend loses entries: "tags" tag versions, "int" all but the records

Writer(t)  == <<B, I(t), C(t), F>>          \* the tag is invalidated before the commit
Writer2(t) == <<B, C(t), I(t), F>>
Reader(k, t) == <<B, N, R(k), S(k, t), F>>

Programs ==
  CASE Program = "w+r"     -> << Writer("t"), Reader("k", "t") >>
    [] Program = "w2+r"    -> << Writer2("t"), Reader("k", "t") >>
    [] Program = "ww+r"    -> << Writer("t") \o Writer("t"), Reader("k", "t") >>
    [] Program = "w+rr"    -> << Writer("t"), Reader("k", "t") \o Reader("k", "t") >>
    [] Program = "w+r+r"   -> << Writer("t"), Reader("k", "t"), Reader("k", "t") >>
    [] Program = "w+w+r"   -> << Writer("t"), Writer("t"), Reader("k", "t") >>
    [] Program = "i+s"     -> << <<I("t"), R("k")>>, <<S("k", "t"), R("k")>> >>
    [] Program = "i+s+s"   -> << <<I("t"), R("k")>>, <<S("k", "t")>>, <<S("k", "t"), R("k")>> >>
    [] Program = "i+i+s"   -> << <<I("t"), R("k")>>, <<I("t")>>, <<S("k", "t"), R("k")>> >>
    [] Program = "tx+s"    -> << <<B, I("t"), F, R("k")>>, <<S("k", "t"), R("k")>> >>
    [] Program = "tx+ss"   -> << <<B, I("t"), S("k", "t"), F, R("k")>>, <<S("k", "t"), R("k"), S("k", "t")>> >>
    [] Program = "tx+s+s"  -> << <<B, I("t"), F, R("k")>>, <<S("k", "t"), R("k")>>, <<B, S("k", "t"), F>> >>
    [] Program = "ii+s"    -> << <<I("t"), I("t"), R("k")>>, <<S("k", "t"), R("k")>> >>
    [] Program = "i+s+e"   -> << <<I("t"), R("k")>>, <<S("k", "t"), R("k")>>, <<E("tags"), E("tags")>> >>
    [] Program = "i+s+s+e" -> << <<I("t"), R("k")>>, <<S("k", "t")>>, <<S("k", "t"), R("k")>>, <<E("tags")>> >>
    [] Program = "tx+s+e"  -> << <<B, I("t"), F, R("k")>>, <<S("k", "t"), R("k")>>, <<E("int")>> >>
    [] Program = "w+r+e"   -> << Writer("t"), Reader("k", "t"), <<E("tags")>> >>
    [] Program = "w2+rr+e" -> << Writer2("t"), Reader("k", "t") \o Reader("k", "t"), <<E("tags"), E("tags")>> >>
    [] Program = "tx+btx"  -> << <<B, I("t"), F>>, <<B, S("k", "t"), F, R("k"), B, S("k", "t"), F, R("k")>> >>

NSess == Len(Programs)
None == [none |-> TRUE]
IsNone(x) == "none" \in DOMAIN x

VARIABLES now, store, tagv, acq, rel, db, ctr, p, hist, pos, sched
vars == <<now, store, tagv, acq, rel, db, ctr, p, hist, pos, sched>>

Put(f, k, v) == (k :> v) @@ f
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE None
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]

FreshP == [i |-> 1, step |-> "idle", tx |-> FALSE, start |-> 0, deps |-> {}, snap |-> <<>>, end |-> 0,
           cur |-> <<>>, rec |-> None, h |-> 0]

Init == /\ now = 0 /\ store = <<>> /\ tagv = <<>> /\ acq = <<>> /\ rel = <<>> /\ ctr = 0
        /\ db = [t \in {"t"} |-> 0] /\ p = [s \in 1..NSess |-> FreshP]
        /\ hist = <<>> /\ pos = 0 /\ sched = <<>>

Cur(s) == Programs[s][p[s].i]
Done(s) == p[s].i > Len(Programs[s])
LockLevel == Iso \in {"REPEATABLE READ", "SERIALIZABLE"}

(* the history *)
HCall(s, c) == Append(hist, [s |-> s, op |-> c.op, key |-> c.key, tags |-> c.tags, val |-> "", data |-> <<>>,
                             call |-> pos + 1, ret |-> 0, t0 |-> now, t1 |-> 0, out |-> ""])
HRet(h, n, out, val, data) ==
  [h EXCEPT ![n].ret = (IF h[n].call = pos + 1 THEN pos + 2 ELSE pos + 1), ![n].t1 = now, ![n].out = out, ![n].val = val,
            ![n].data = data]

Goto(s, step) == p' = [p EXCEPT ![s].step = step]
Next1(s, upd) == [upd EXCEPT !.i = @ + 1, !.step = "idle", !.cur = <<>>, !.rec = None, !.h = 0]

(* the call at which session s is consists of a single step *)
Single(s, upd, out, val, data) ==
  /\ p' = [p EXCEPT ![s] = Next1(s, upd)]
  /\ hist' = IF KeepHist THEN LET h == HCall(s, Cur(s)) IN HRet(h, Len(h), out, val, data) ELSE hist
  /\ pos' = IF KeepHist THEN pos + 2 ELSE pos
(* starts the call, the first internal step comes next *)
Enter(s, upd, step) ==
  /\ p' = [p EXCEPT ![s] = [upd EXCEPT !.step = step, !.h = Len(hist) + 1]]
  /\ hist' = IF KeepHist THEN HCall(s, Cur(s)) ELSE hist
  /\ pos' = IF KeepHist THEN pos + 1 ELSE pos
Leave(s, upd, out, val, data) ==
  /\ p' = [p EXCEPT ![s] = Next1(s, upd)]
  /\ hist' = IF KeepHist THEN HRet(hist, p[s].h, out, val, data) ELSE hist
  /\ pos' = IF KeepHist THEN pos + 1 ELSE pos
Inner(s, upd, step) ==
  p' = [p EXCEPT ![s] = [upd EXCEPT !.step = step]] /\ UNCHANGED <<hist, pos>>

T(s) == Range2(Cur(s).tags)
StartTime(s) == IF p[s].tx THEN p[s].start ELSE now
Locked(s, t) ==
  LET a == Get(acq, t) r == Get(rel, t)
      useR == ~IsNone(r) /\ (IsNone(a) \/ (r.sid = a.sid /\ r.time > a.time))
  IN IF useR THEN r.sid # s /\ StartTime(s) <= r.time + Delay
     ELSE ~IsNone(a) /\ a.sid # s
Valof(s) == "v" \o ToString(s) \o "." \o ToString(p[s].i)

StepBegin(s) == /\ Cur(s).op = "begin" /\ Single(s, [p[s] EXCEPT !.tx = TRUE, !.start = now, !.deps = {}], "", "", <<>>)
                /\ UNCHANGED <<now, store, tagv, acq, rel, db, ctr>>
StepSnap(s) == /\ Cur(s).op = "snap" /\ Single(s, [p[s] EXCEPT !.snap = db], "", "", <<>>)
               /\ UNCHANGED <<now, store, tagv, acq, rel, db, ctr>>
StepCommit(s) == /\ Cur(s).op = "commit" /\ db' = [t \in DOMAIN db |-> IF t \in T(s) THEN db[t] + 1 ELSE db[t]]
                 /\ Single(s, p[s], "", "", <<>>) /\ UNCHANGED <<now, store, tagv, acq, rel, ctr>>

StepEvict(s) ==
  /\ Cur(s).op = "evict" /\ Single(s, p[s], "ok", "", <<>>)
  /\ tagv' = Drop(tagv, T(s))
  /\ IF Cur(s).key = "int" THEN acq' = <<>> /\ rel' = <<>> ELSE UNCHANGED <<acq, rel>>
  /\ UNCHANGED <<now, store, db, ctr>>

(* invalidation *)
StepInv(s) ==
  /\ Cur(s).op = "inv"
  /\ \/ /\ p[s].step = "idle"
        /\ Enter(s, [p[s] EXCEPT !.deps = IF p[s].tx THEN @ \cup T(s) ELSE @],
                 IF p[s].tx /\ LockLevel THEN "acquire" ELSE "delete")
        /\ UNCHANGED <<acq, tagv>>
     \/ /\ p[s].step = "acquire" /\ Inner(s, p[s], "delete")
        /\ acq' = [t \in T(s) |-> [sid |-> s, time |-> p[s].start]] @@ acq /\ UNCHANGED tagv
     \/ /\ p[s].step = "delete" /\ Leave(s, p[s], "ok", "", <<>>)
        /\ tagv' = Drop(tagv, T(s)) /\ UNCHANGED acq
  /\ UNCHANGED <<now, store, rel, db, ctr>>

StepFinish(s) ==
  /\ Cur(s).op = "finish"
  /\ \/ /\ p[s].step = "idle" /\ (p[s].deps = {} \/ Iso = "READ UNCOMMITTED")
        /\ Single(s, [p[s] EXCEPT !.tx = FALSE, !.deps = {}], "ok", "", <<>>) /\ UNCHANGED <<rel, tagv>>
     \/ /\ p[s].step = "idle" /\ p[s].deps # {} /\ Iso # "READ UNCOMMITTED"
        /\ Enter(s, [p[s] EXCEPT !.end = now], IF LockLevel THEN "release" ELSE "delete") /\ UNCHANGED <<rel, tagv>>
     \/ /\ p[s].step = "release" /\ Inner(s, p[s], "delete")
        /\ rel' = [t \in p[s].deps |-> [sid |-> s, time |-> p[s].end]] @@ rel /\ UNCHANGED tagv
     \/ /\ p[s].step = "delete" /\ Leave(s, [p[s] EXCEPT !.tx = FALSE, !.deps = {}], "ok", "", <<>>)
        /\ tagv' = Drop(tagv, p[s].deps) /\ UNCHANGED rel
  /\ UNCHANGED <<now, store, acq, db, ctr>>

StepSave(s) ==
  /\ Cur(s).op = "save"
  /\ \/ /\ p[s].step = "idle" /\ Enter(s, p[s], "versions") /\ UNCHANGED <<tagv, store, ctr>>
     \/ /\ p[s].step = "versions"
        /\ LET cur == [t \in T(s) \cap DOMAIN tagv |-> tagv[t]]
           IN Inner(s, [p[s] EXCEPT !.cur = cur], IF DOMAIN cur = T(s) THEN "locks" ELSE "create")
        /\ UNCHANGED <<tagv, store, ctr>>
     \/ /\ p[s].step = "create"
        /\ LET new == [t \in T(s) \ DOMAIN p[s].cur |-> ctr + 1]
           IN /\ tagv' = new @@ tagv /\ ctr' = ctr + 1 /\ Inner(s, [p[s] EXCEPT !.cur = new @@ @], "locks")
        /\ UNCHANGED store
     \/ /\ p[s].step = "locks"
        /\ IF \E t \in T(s) : Locked(s, t) THEN Leave(s, p[s], "ok", Valof(s), p[s].snap) ELSE Inner(s, p[s], "store")
        /\ UNCHANGED <<tagv, store, ctr>>
     \/ /\ p[s].step = "store"
        /\ store' = Put(store, Cur(s).key, [val |-> Valof(s), deps |-> p[s].cur, data |-> p[s].snap])
        /\ Leave(s, p[s], "ok", Valof(s), p[s].snap) /\ UNCHANGED <<tagv, ctr>>
  /\ UNCHANGED <<now, acq, rel, db>>

Valid(rec) == \A t \in DOMAIN rec.deps : t \in DOMAIN tagv /\ tagv[t] = rec.deps[t]
(* A hit of a reader ends its business: its save is skipped. *)
StepRead(s) ==
  /\ Cur(s).op = "read"
  /\ \/ /\ p[s].step = "idle" /\ Enter(s, p[s], "record")
     \/ /\ p[s].step = "record"
        /\ LET rec == Get(store, Cur(s).key)
           IN IF IsNone(rec) THEN Leave(s, p[s], "none", "", <<>>) ELSE Inner(s, [p[s] EXCEPT !.rec = rec], "validate")
     \/ /\ p[s].step = "validate"
        /\ IF Valid(p[s].rec)
           THEN LET skip == p[s].i < Len(Programs[s]) /\ Programs[s][p[s].i + 1].op = "save"
                    upd == IF skip THEN [p[s] EXCEPT !.i = @ + 1] ELSE p[s]
                IN Leave(s, upd, p[s].rec.val, "", <<>>)
           ELSE Leave(s, p[s], "none", "", <<>>)
  /\ UNCHANGED <<now, store, tagv, acq, rel, db, ctr>>

Tick == /\ now < MaxTicks /\ now' = now + 1 /\ sched' = IF ExportMod > 0 THEN Append(sched, 0) ELSE sched
        /\ UNCHANGED <<store, tagv, acq, rel, db, ctr, p, hist, pos>>

Step(s) == /\ ~Done(s)
           /\ \/ StepBegin(s) \/ StepSnap(s) \/ StepCommit(s) \/ StepEvict(s) \/ StepInv(s) \/ StepFinish(s) \/ StepSave(s) \/ StepRead(s)
           /\ sched' = IF ExportMod > 0 THEN Append(sched, s) ELSE sched
Next == Tick \/ \E s \in 1..NSess : Step(s)
Spec == Init /\ [][Next]_vars

Over == \A s \in 1..NSess : Done(s)

-----------------------------------------------------------------------------
C01 == C01R(hist)
C08 == C08R(hist, Iso)
C10 == C10R(hist, Iso)
C11 == C11R(hist, Iso, Delay) /\ C11bR(hist, Iso, Delay)
C12h == C12R(hist, Iso)
C02 == C02R(hist, Iso, Delay) /\ ValueR(hist)
(* C12 over the state alone: when everything is over nothing that is readable is older than the last commit *)
C12 == (Over /\ LockLevel) => \A k \in DOMAIN store : Valid(store[k]) =>
           \A t \in DOMAIN store[k].deps : store[k].data # <<>> => store[k].data[t] = db[t]
(* after the end of a call nothing of it stays in the session *)
Quiet == \A s \in 1..NSess : Done(s) => p[s].deps = {} \/ p[s].tx

(* one schedule for every final state *)
View == <<now, store, tagv, acq, rel, db, ctr, p, hist, pos>>
Exported == (ExportMod > 0 /\ Over /\ TLCFP(<<Seed, hist, now, tagv>>) % ExportMod = 0) =>
              PrintT("@@SCHED " \o ToJson([sched |-> sched, hist |-> [i \in DOMAIN hist |-> [s |-> hist[i].s, op |-> hist[i].op, out |-> hist[i].out]]]))
=============================================================================
