----------------------------- MODULE RefuteRace -----------------------------
(* Wrong protocols: each takes the place of a definition of CacheRace (see bin/refute.py) and must be refuted. *)
EXTENDS CacheRace

(* the locks are checked before the versions of the tags are created *)
SaveLocksFirst(s) ==
  /\ Cur(s).op = "save"
  /\ \/ /\ p[s].step = "idle" /\ Enter(s, p[s], "locks") /\ UNCHANGED <<tagv, store, ctr>>
     \/ /\ p[s].step = "locks"
        /\ IF \E t \in T(s) : Locked(s, t) THEN Leave(s, p[s], "ok", Valof(s), p[s].snap) ELSE Inner(s, p[s], "versions")
        /\ UNCHANGED <<tagv, store, ctr>>
     \/ /\ p[s].step = "versions"
        /\ LET cur == [t \in T(s) \cap DOMAIN tagv |-> tagv[t]]
           IN Inner(s, [p[s] EXCEPT !.cur = cur], IF DOMAIN cur = T(s) THEN "store" ELSE "create")
        /\ UNCHANGED <<tagv, store, ctr>>
     \/ /\ p[s].step = "create"
        /\ LET new == [t \in T(s) \ DOMAIN p[s].cur |-> ctr + 1]
           IN /\ tagv' = new @@ tagv /\ ctr' = ctr + 1 /\ Inner(s, [p[s] EXCEPT !.cur = new @@ @], "store")
        /\ UNCHANGED store
     \/ /\ p[s].step = "store"
        /\ store' = Put(store, Cur(s).key, [val |-> Valof(s), deps |-> p[s].cur, data |-> p[s].snap])
        /\ Leave(s, p[s], "ok", Valof(s), p[s].snap) /\ UNCHANGED <<tagv, ctr>>
  /\ UNCHANGED <<now, acq, rel, db>>

LockedBy(s, t, a, r, le) ==
  LET useR == ~IsNone(r) /\ (IsNone(a) \/ (r.sid = a.sid /\ r.time > a.time))
  IN IF useR THEN r.sid # s /\ le ELSE ~IsNone(a) /\ a.sid # s
LockedOnlyOpen(s, t) == LockedBy(s, t, Get(acq, t), Get(rel, t), FALSE)
LockedStrict(s, t) == LockedBy(s, t, Get(acq, t), Get(rel, t), ~IsNone(Get(rel, t)) /\ StartTime(s) < Get(rel, t).time + Delay)
NeverLocked(s, t) == FALSE
StartIsNow(s) == now
ValidAlways(rec) == TRUE
ValidIfSame(rec) == \A t \in DOMAIN rec.deps : t \in DOMAIN tagv => tagv[t] = rec.deps[t]
(* the tags are not invalidated again *)
FinishSilent(s) ==
  /\ Cur(s).op = "finish"
  /\ Single(s, [p[s] EXCEPT !.tx = FALSE, !.deps = {}], "ok", "", <<>>)
  /\ rel' = IF LockLevel THEN [t \in p[s].deps |-> [sid |-> s, time |-> now]] @@ rel ELSE rel
  /\ UNCHANGED <<now, store, tagv, acq, db, ctr>>
(* the lock is not released *)
FinishDeletes(s) ==
  /\ Cur(s).op = "finish"
  /\ Single(s, [p[s] EXCEPT !.tx = FALSE, !.deps = {}], "ok", "", <<>>)
  /\ tagv' = Drop(tagv, p[s].deps)
  /\ UNCHANGED <<now, store, rel, acq, db, ctr>>
(* the invalidation is put off to the end of the transaction *)
InvLater(s) ==
  /\ Cur(s).op = "inv"
  /\ Single(s, [p[s] EXCEPT !.deps = IF p[s].tx THEN @ \cup T(s) ELSE @], "ok", "", <<>>)
  /\ tagv' = IF p[s].tx THEN tagv ELSE Drop(tagv, T(s))
  /\ UNCHANGED <<now, store, acq, rel, db, ctr>>
(* one version for ever: what was invalidated comes back with the next save *)
SaveSameVersion(s) ==
  /\ Cur(s).op = "save"
  /\ Single(s, p[s], "ok", Valof(s), p[s].snap)
  /\ tagv' = [t \in T(s) |-> 1] @@ tagv
  /\ store' = Put(store, Cur(s).key, [val |-> Valof(s), deps |-> [t \in T(s) |-> 1], data |-> p[s].snap])
  /\ UNCHANGED <<now, acq, rel, db, ctr>>
=============================================================================
