------------------------------- MODULE Refute -------------------------------
(***************************************************************************)
(* Wrong designs.  Each definition below takes the place of one of         *)
(* CacheDeps (see bin/refute.py); the property it is made to break must be *)
(* violated then.  So no invariant of MCDeps holds for lack of substance.  *)
(***************************************************************************)
EXTENDS MCDeps

DropNothing(S, be, ver, tags) == S
DropOneTag(S, be, ver, tags) == [S EXCEPT !.tags = Del(@, {<<be, ver, t>> : t \in {CHOOSE x \in tags : TRUE}})]
DropAllVersions(S, be, ver, tags) == [S EXCEPT !.tags = Del(@, {k \in DOMAIN @ : k[1] = be /\ k[3] \in tags})]
OneBackend(S, al) == 1
ExpNever(S, timeout) == Never
ExpLess(S, timeout) == IF timeout = Never THEN Never ELSE S.now + timeout - 1
ExpMore(S, timeout) == IF timeout = Never THEN Never ELSE S.now + timeout + 1

(* only the parent gets the tags, the grandparents do not *)
AddUpOnce(nodes, id, ver, tags) ==
  IF id = 0 THEN nodes
  ELSE [nodes EXCEPT ![id].deps = Put(@, ver, NodeDeps(nodes[id], ver) \cup tags)]
(* the build that ends stays open *)
PopKeeps(T, key) == IF key \notin DOMAIN T.data THEN T ELSE [T EXCEPT !.cur = T.nodes[T.data[key]].parent]
(* tags of all versions flow together *)
DepsOfAll(n, ver) == UNION {n.deps[v] : v \in DOMAIN n.deps}
TracksAlways(S, e) == TRUE
AbortSaves(S, e) == [st |-> SetTree(S, e.s, e.al, FinishBuild(Sess(S, e.s, e.al).tree, e.key, "d", Tags)), out |-> "ok"]
(* a bulk read finds everything or nothing *)
GetManyAll(S, e) ==
  LET be == Be(S, e.al)
      all == \A k \in Range(e.keys) : Readable(S, be, e.ver, k)
  IN [st |-> S, out |-> IF all THEN {<<k, S.store[<<be, e.ver, k>>].val>> : k \in Range(e.keys)} ELSE {}]
(* a bulk read which does not report to the tree *)
GetManySilent(S, e) ==
  [st |-> S, out |-> {<<k, S.store[<<Be(S, e.al), e.ver, k>>].val>> : k \in {x \in Range(e.keys) : Readable(S, Be(S, e.al), e.ver, x)}}]

EndForgets(S, s, al) == [S EXCEPT !.sess[s][al].tx = FreshTx]
EndTagsOneVersion(S, s, al, vers) ==
  IF vers = {} THEN S
  ELSE DropTags(S, Be(S, al), CHOOSE v \in vers : TRUE, UNION {S.sess[s][al].tx.deps[v] : v \in vers})
FinishEnds(S, e) == [st |-> EndTx(S, e.s, e.al), out |-> "ok"]
FinishBelow(S, e) == [st |-> LET S1 == EndTx(S, e.s, e.al) IN [S1 EXCEPT !.sess[e.s][e.al].tx.d = 1], out |-> "ok"]

NeverLocked(S, s, al, ver, tag) == FALSE
AlwaysLocked(S, s, al, ver, tag) == Has(S.acq, <<Be(S, al), ver, tag>>, S.now) \/ Has(S.rel, <<Be(S, al), ver, tag>>, S.now)
LockedByStart(S, s, al, ver, tag, le) ==
  LET k    == <<Be(S, al), ver, tag>>
      hasA == Has(S.acq, k, S.now)
      hasR == Has(S.rel, k, S.now)
      useR == hasR /\ (~hasA \/ (S.rel[k].sid = S.acq[k].sid /\ S.rel[k].time > S.acq[k].time))
  IN IF useR THEN S.rel[k].sid # S.sid[s] /\ le ELSE hasA /\ S.acq[k].sid # S.sid[s]
LockedOnlyOpen(S, s, al, ver, tag) == LockedByStart(S, s, al, ver, tag, FALSE)
LockedStrict(S, s, al, ver, tag) ==
  LET k == <<Be(S, al), ver, tag>> IN
  LockedByStart(S, s, al, ver, tag, k \in DOMAIN S.rel /\ StartOf(S, s, al) < S.rel[k].time + S.rel[k].delay)
LockedForLong(S, s, al, ver, tag) == LockedByStart(S, s, al, ver, tag, TRUE)
StartNow(S, s, al) == S.now
AliveForEver(exp, now) == TRUE
(* a blocked save leaves its build open *)
SetKeepsBuild(S, e) ==
  LET be   == Be(S, e.al)
      tags == Range(e.tags)
      T1   == NodeGet(Sess(S, e.s, e.al).tree, e.key)
      all  == tags \cup NodeDeps(T1.nodes[T1.data[e.key]], e.ver)
      S1   == SetTree(S, e.s, e.al, FinishBuild(T1, e.key, e.ver, tags))
  IN IF \E t \in all : TagLocked(S, e.s, e.al, e.ver, t)
     THEN [st |-> S, out |-> "ok"]
     ELSE [st |-> StoreRec(S1, be, e.ver, e.key, e.val, all, e.timeout), out |-> "ok"]
FireNothing(S, due) == [S EXCEPT !.timers = @ \ due]
SetTreeOfAll(S, s, al, T) == [S EXCEPT !.sess = [x \in DOMAIN S.sess |-> [S.sess[x] EXCEPT ![al].tree = T]]]
RenewSame(S, e) == [st |-> [S EXCEPT !.sess[e.s] = [a \in DOMAIN S.cfg |-> FreshSess]], out |-> "ok"]
CloseTreeOnly(S, s, al) == SetTree(S, s, al, FreshTree)
CloseTxOnly(S, s, al) == EndTx(S, s, al)
CloseForgets(S, s, al) == [S EXCEPT !.sess[s][al] = FreshSess]
CloseFirst(S, s, als) == CloseAl(S, s, 1)
(* versions of tags which are not unique: after a loss the old one comes back *)
StoreSameVersion(S, be, ver, key, val, tags, timeout) ==
  LET tags2 == [k \in DOMAIN S.tags \cup {<<be, ver, t>> : t \in tags} |->
                  IF k[1] = be /\ k[2] = ver /\ k[3] \in tags THEN [id |-> 1, exp |-> S.now + TagTTL] ELSE S.tags[k]]
  IN [S EXCEPT !.tags = tags2,
               !.store = Put(@, <<be, ver, key>>, [val |-> val, exp |-> ExpOf(S, timeout), deps |-> [t \in tags |-> 1]])]
(* a missing version of a tag does not invalidate *)
ValidIfSame(S, be, ver, rec) ==
  \A t \in DOMAIN rec.deps : Has(S.tags, <<be, ver, t>>, S.now) => S.tags[<<be, ver, t>>].id = rec.deps[t]
=============================================================================
