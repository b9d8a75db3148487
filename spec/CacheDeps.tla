----------------------------- MODULE CacheDeps -----------------------------
(***************************************************************************)
(* The specification of cache-dependencies at the level of its API.        *)
(*                                                                         *)
(* State: what the cache backends hold (records, tag versions, acquired    *)
(* and released locks), pending timers, the clock, and for every session   *)
(* (thread) and alias its transaction stack and its tree of builds.        *)
(* One action per call of the API; every action is an operator             *)
(* Op(S, e) == [st |-> next state, out |-> what the caller observes].      *)
(* The same operators drive the exhaustive model (MCDeps), the generation  *)
(* of behaviours that are replayed in the code, and the validation of      *)
(* traces recorded from the code (TraceDeps).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sec      == 4                  \* ticks per second of the virtual clock
LockTTL  == 5 * Sec            \* TAG_STATE_TIMEOUT
TagTTL   == 24 * 3600 * Sec    \* TAG_TIMEOUT
Never    == -1

Max2(a, b) == IF a >= b THEN a ELSE b
Put(f, k, v) == (k :> v) @@ f
Del(f, ks)   == [x \in DOMAIN f \ ks |-> f[x]]
Range(s)     == {s[i] : i \in DOMAIN s}
NoF == <<>>

-----------------------------------------------------------------------------
(* State *)

FreshTx    == [d |-> 0, start |-> 0, deps |-> NoF]
FreshTree  == [nodes |-> <<>>, data |-> NoF, cur |-> 0]
FreshSess  == [tx |-> FreshTx, tree |-> FreshTree, ign |-> FALSE]

(* cfg: sequence of aliases, each [iso, delay (ticks), be (backend number)] *)
InitState(cfg, nsess) ==
  [ now    |-> 0,
    cfg    |-> cfg,
    store  |-> NoF,     \* <<be, ver, key>>  -> [val, deps (tag -> id), exp]
    tags   |-> NoF,     \* <<be, ver, tag>>  -> [id, exp]
    acq    |-> NoF,     \* <<be, ver, tag>>  -> [sid, time, exp]
    rel    |-> NoF,     \* <<be, ver, tag>>  -> [sid, time, delay, exp]
    timers |-> {},      \* [at, be, ver, tags]
    ctr    |-> 0,
    sid    |-> [s \in 1..nsess |-> s],     \* identity of the thread (or process) that serves as session s
    sess   |-> [s \in 1..nsess |-> [a \in DOMAIN cfg |-> FreshSess]] ]

Be(S, al)  == S.cfg[al].be
Iso(S, al) == S.cfg[al].iso
RRLike(S, al) == Iso(S, al) \in {"REPEATABLE READ", "SERIALIZABLE"}

Alive(exp, now) == exp = Never \/ now < exp
Has(f, k, now)  == k \in DOMAIN f /\ Alive(f[k].exp, now)

-----------------------------------------------------------------------------
(* The tree of builds of one session and alias.  Node 0: nothing is built.  *)

NodeGet(T, key) ==
  IF key \in DOMAIN T.data THEN T
  ELSE [T EXCEPT !.nodes = Append(@, [parent |-> T.cur, deps |-> NoF]),
                 !.data  = Put(@, key, Len(T.nodes) + 1)]

Begin(T, key) == LET T1 == NodeGet(T, key) IN [T1 EXCEPT !.cur = T1.data[key]]

NodeDeps(n, ver) == IF ver \in DOMAIN n.deps THEN n.deps[ver] ELSE {}

RECURSIVE AddUp(_, _, _, _)
AddUp(nodes, id, ver, tags) ==
  IF id = 0 THEN nodes
  ELSE AddUp([nodes EXCEPT ![id].deps = Put(@, ver, NodeDeps(nodes[id], ver) \cup tags)],
             nodes[id].parent, ver, tags)

PopTree(T, key) ==
  IF key \notin DOMAIN T.data THEN T
  ELSE LET id == T.data[key]
       IN [T EXCEPT !.data = Del(@, {key}),
                    !.cur  = IF @ = id THEN T.nodes[id].parent ELSE @]

FinishBuild(T, key, ver, tags) ==
  IF key \notin DOMAIN T.data THEN T
  ELSE LET id == T.data[key]
       IN [PopTree(T, key) EXCEPT !.nodes = AddUp(@, id, ver, tags)]

-----------------------------------------------------------------------------
(* Validity of records, locks *)

Valid(S, be, ver, rec) ==
  \A t \in DOMAIN rec.deps :
     /\ Has(S.tags, <<be, ver, t>>, S.now)
     /\ S.tags[<<be, ver, t>>].id = rec.deps[t]

Readable(S, be, ver, key) ==
  /\ Has(S.store, <<be, ver, key>>, S.now)
  /\ Valid(S, be, ver, S.store[<<be, ver, key>>])

StartOf(S, s, al) == IF S.sess[s][al].tx.d > 0 THEN S.sess[s][al].tx.start ELSE S.now

TagLocked(S, s, al, ver, tag) ==
  LET k    == <<Be(S, al), ver, tag>>
      hasA == Has(S.acq, k, S.now)
      hasR == Has(S.rel, k, S.now)
      useR == hasR /\ (~hasA \/ ( /\ S.rel[k].sid = S.acq[k].sid
                                  /\ S.rel[k].time > S.acq[k].time))
  IN IF useR THEN S.rel[k].sid # S.sid[s] /\ StartOf(S, s, al) <= S.rel[k].time + S.rel[k].delay
     ELSE hasA /\ S.acq[k].sid # S.sid[s]

-----------------------------------------------------------------------------
(* Reads *)

Sess(S, s, al) == S.sess[s][al]
SetTree(S, s, al, T) == [S EXCEPT !.sess[s][al].tree = T]
Tracks(S, e) == ~e.abort /\ ~Sess(S, e.s, e.al).ign

RecTags(S, be, ver, key) == DOMAIN S.store[<<be, ver, key>>].deps

OpGet(S, e) ==
  LET be == Be(S, e.al)
      T0 == Sess(S, e.s, e.al).tree
      T1 == IF Tracks(S, e) THEN Begin(T0, e.key) ELSE T0
  IN IF Readable(S, be, e.ver, e.key)
     THEN [st  |-> SetTree(S, e.s, e.al,
                     FinishBuild(T1, e.key, e.ver, RecTags(S, be, e.ver, e.key))),
           out |-> S.store[<<be, e.ver, e.key>>].val]
     ELSE [st |-> SetTree(S, e.s, e.al, T1), out |-> e.dflt]

RECURSIVE BeginAll(_, _)
BeginAll(T, keys) ==
  IF keys = <<>> THEN T
  ELSE LET c == T.cur IN BeginAll([Begin(T, Head(keys)) EXCEPT !.cur = c], Tail(keys))

RECURSIVE FinishAll(_, _, _, _, _)
FinishAll(S, be, T, keys, ver) ==
  IF keys = <<>> THEN T
  ELSE FinishAll(S, be,
         IF Readable(S, be, ver, Head(keys))
         THEN FinishBuild(T, Head(keys), ver, RecTags(S, be, ver, Head(keys))) ELSE T,
         Tail(keys), ver)

OpGetMany(S, e) ==
  LET be == Be(S, e.al)
      T0 == Sess(S, e.s, e.al).tree
      T1 == IF Tracks(S, e) THEN BeginAll(T0, e.keys) ELSE T0
      T2 == FinishAll(S, be, T1, e.keys, e.ver)
  IN [st  |-> SetTree(S, e.s, e.al, T2),
      out |-> {<<k, S.store[<<be, e.ver, k>>].val>> :
                 k \in {x \in Range(e.keys) : Readable(S, be, e.ver, x)}}]

(* An observer that leaves no trace in any tree: what is readable now. *)
OpPeek(S, e) ==
  [st  |-> S,
   out |-> {<<a, k[2], k[3], S.store[k].val>> :
              <<a, k>> \in {x \in (DOMAIN S.cfg) \X (DOMAIN S.store) :
                               x[2][1] = Be(S, x[1]) /\ Readable(S, x[2][1], x[2][2], x[2][3])}}]

-----------------------------------------------------------------------------
(* Saves *)

ExpOf(S, timeout) == IF timeout = Never THEN Never ELSE S.now + timeout

StoreRec(S, be, ver, key, val, tags, timeout) ==
  LET new    == {t \in tags : ~Has(S.tags, <<be, ver, t>>, S.now)}
      id     == S.ctr + 1
      tags2  == [k \in DOMAIN S.tags \cup {<<be, ver, t>> : t \in new} |->
                   IF k[1] = be /\ k[2] = ver /\ k[3] \in new
                   THEN [id |-> id, exp |-> S.now + TagTTL] ELSE S.tags[k]]
      rec    == [val |-> val, exp |-> ExpOf(S, timeout),
                 deps |-> [t \in tags |-> tags2[<<be, ver, t>>].id]]
  IN [S EXCEPT !.ctr = id, !.tags = tags2, !.store = Put(@, <<be, ver, key>>, rec)]

OpSet(S, e) ==
  LET be   == Be(S, e.al)
      tags == Range(e.tags)
      T1   == NodeGet(Sess(S, e.s, e.al).tree, e.key)
      all  == tags \cup NodeDeps(T1.nodes[T1.data[e.key]], e.ver)
      S1   == SetTree(S, e.s, e.al, FinishBuild(T1, e.key, e.ver, tags))
  IN IF \E t \in all : TagLocked(S, e.s, e.al, e.ver, t)
     THEN [st |-> S1, out |-> "ok"]
     ELSE [st |-> StoreRec(S1, be, e.ver, e.key, e.val, all, e.timeout), out |-> "ok"]

(* Native writes bypass dependencies, builds and locks. *)
OpNativeSet(S, e) ==
  [st |-> StoreRec(S, Be(S, e.al), e.ver, e.key, e.val, {}, e.timeout), out |-> "ok"]

OpAdd(S, e) ==
  IF Has(S.store, <<Be(S, e.al), e.ver, e.key>>, S.now) THEN [st |-> S, out |-> "False"]
  ELSE [st |-> StoreRec(S, Be(S, e.al), e.ver, e.key, e.val, {}, e.timeout), out |-> "True"]

OpDelete(S, e) ==
  [st |-> [S EXCEPT !.store = Del(@, {<<Be(S, e.al), e.ver, k>> : k \in Range(e.keys)})], out |-> "ok"]

(* get-or-compute: "gos1" is the read; "miss" means that the function is being called, whatever  *)
(* it does comes as events of its own, then "gos2" is the save and returns the computed value.   *)
OpGos1(S, e) ==
  LET r == OpGet(S, [e EXCEPT !.abort = FALSE, !.dflt = "None"])
  IN [st |-> r.st, out |-> IF r.out = "None" THEN "miss" ELSE r.out]
OpGosX(S, e) == [st |-> S, out |-> "raised"]      \* the function raised an exception
OpGos2(S, e) == [st |-> OpSet(S, e).st, out |-> e.val]

-----------------------------------------------------------------------------
(* Invalidation and transactions *)

DropTags(S, be, ver, tags) == [S EXCEPT !.tags = Del(@, {<<be, ver, t>> : t \in tags})]

OpInv(S, e) ==
  LET be   == Be(S, e.al)
      tags == Range(e.tags)
      tx   == Sess(S, e.s, e.al).tx
      S1   == IF tx.d = 0 THEN S
              ELSE [S EXCEPT !.sess[e.s][e.al].tx.deps =
                      Put(@, e.ver, (IF e.ver \in DOMAIN @ THEN @[e.ver] ELSE {}) \cup tags)]
      S2   == IF tx.d = 0 \/ ~RRLike(S, e.al) THEN S1
              ELSE [S1 EXCEPT !.acq =
                      [k \in {<<be, e.ver, t>> : t \in tags} |->
                         [sid |-> S.sid[e.s], time |-> tx.start, exp |-> S.now + LockTTL]] @@ @]
  IN [st |-> DropTags(S2, be, e.ver, tags), out |-> "ok"]

OpTxBegin(S, e) ==
  [st |-> [S EXCEPT !.sess[e.s][e.al].tx =
             IF @.d = 0 THEN [d |-> 1, start |-> S.now, deps |-> NoF] ELSE [@ EXCEPT !.d = @ + 1]],
   out |-> "ok"]

(* The end of the outermost transaction: every tag is invalidated once more. *)
RECURSIVE EndTags(_, _, _, _)
EndTags(S, s, al, vers) ==
  IF vers = {} THEN S
  ELSE LET ver   == CHOOSE v \in vers : TRUE
           be    == Be(S, al)
           delay == S.cfg[al].delay
           tags  == S.sess[s][al].tx.deps[ver]
           tset  == {<<be, ver, t>> : t \in tags}
           S1    == IF RRLike(S, al)
                    THEN [S EXCEPT !.rel = [k \in tset |->
                             [sid |-> S.sid[s], time |-> S.now, delay |-> delay,
                              exp |-> S.now + LockTTL + Max2(delay, Sec)]] @@ @]
                    ELSE IF delay > 0
                         THEN [S EXCEPT !.timers = @ \cup {[at |-> S.now + delay, be |-> be,
                                                            ver |-> ver, tags |-> tags]}]
                         ELSE S
           S2    == IF Iso(S, al) = "READ UNCOMMITTED" THEN S1 ELSE DropTags(S1, be, ver, tags)
       IN EndTags(S2, s, al, vers \ {ver})

EndTx(S, s, al) ==
  IF S.sess[s][al].tx.d = 0 THEN S
  ELSE [EndTags(S, s, al, DOMAIN S.sess[s][al].tx.deps) EXCEPT !.sess[s][al].tx = FreshTx]

OpTxFinish(S, e) ==
  [st |-> IF Sess(S, e.s, e.al).tx.d > 1 THEN [S EXCEPT !.sess[e.s][e.al].tx.d = @ - 1]
          ELSE EndTx(S, e.s, e.al),
   out |-> "ok"]

OpTxFlush(S, e) == [st |-> EndTx(S, e.s, e.al), out |-> "ok"]

CloseAl(S, s, al) == SetTree(EndTx(S, s, al), s, al, FreshTree)
OpClose(S, e) == [st |-> CloseAl(S, e.s, e.al), out |-> "ok"]

RECURSIVE CloseAll(_, _, _)
CloseAll(S, s, als) ==
  IF als = {} THEN S
  ELSE LET a == CHOOSE x \in als : TRUE IN CloseAll(CloseAl(S, s, a), s, als \ {a})
OpRequestEnd(S, e) == [st |-> CloseAll(S, e.s, DOMAIN S.cfg), out |-> "ok"]

OpAbort(S, e) ==
  [st |-> SetTree(S, e.s, e.al, PopTree(Sess(S, e.s, e.al).tree, e.key)), out |-> "ok"]

OpIgnore(S, e) == [st |-> [S EXCEPT !.sess[e.s][e.al].ign = e.on], out |-> "ok"]

(* Use of the cache object of session s by another session: refused, nothing changes. *)
OpForeign(S, e) == [st |-> S, out |-> "RuntimeError"]

(* The thread (or the process) of session s ends, whatever it was doing, and another one takes its place: what was *)
(* open is forgotten, locks and timers stay, and the new one has nothing in common with the old one.               *)
OpRenew(S, e) ==
  [st |-> [S EXCEPT !.sid[e.s] = @ + Len(S.sess), !.sess[e.s] = [a \in DOMAIN S.cfg |-> FreshSess]], out |-> "ok"]

(* A cache with the isolation level e.name is configured and used. *)
Levels == {"READ UNCOMMITTED", "READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE"}
OpLevel(S, e) == [st |-> S, out |-> IF e.name \in Levels THEN "ok" ELSE "rejected"]

-----------------------------------------------------------------------------
(* Environment: the clock, and losses in the backend *)

RECURSIVE FireAll(_, _)
FireAll(S, due) ==
  IF due = {} THEN S
  ELSE LET m == CHOOSE x \in due : TRUE
       IN FireAll(DropTags([S EXCEPT !.timers = @ \ {m}], m.be, m.ver, m.tags), due \ {m})

OpTick(S, e) ==
  LET due == {m \in S.timers : m.at <= S.now + e.n}
  IN [st |-> [FireAll(S, due) EXCEPT !.now = @ + e.n], out |-> "ok"]

OpLoseRec(S, e) ==      \* one record
  [st |-> [S EXCEPT !.store = Del(@, {<<Be(S, e.al), e.ver, e.key>>})], out |-> "ok"]
OpLoseTag(S, e) ==      \* one tag version
  [st |-> DropTags(S, Be(S, e.al), e.ver, {e.tag}), out |-> "ok"]
OfBe(f, be) == {k \in DOMAIN f : k[1] = be}
OpLoseInternal(S, e) == \* everything but the records
  LET be == Be(S, e.al)
  IN [st |-> [S EXCEPT !.tags = Del(@, OfBe(@, be)), !.acq = Del(@, OfBe(@, be)),
                       !.rel = Del(@, OfBe(@, be))], out |-> "ok"]
OpClear(S, e) ==        \* everything
  LET be == Be(S, e.al)
  IN [st |-> [OpLoseInternal(S, e).st EXCEPT !.store = Del(@, OfBe(@, be))], out |-> "ok"]

-----------------------------------------------------------------------------
Do(S, e) ==
  CASE e.op = "get"     -> OpGet(S, e)
    [] e.op = "getm"    -> OpGetMany(S, e)
    [] e.op = "peek"    -> OpPeek(S, e)
    [] e.op = "set"     -> OpSet(S, e)
    [] e.op = "nset"    -> OpNativeSet(S, e)
    [] e.op = "add"     -> OpAdd(S, e)
    [] e.op = "del"     -> OpDelete(S, e)
    [] e.op = "gos1"    -> OpGos1(S, e)
    [] e.op = "gos2"    -> OpGos2(S, e)
    [] e.op = "gosx"    -> OpGosX(S, e)
    [] e.op = "inv"     -> OpInv(S, e)
    [] e.op = "begin"   -> OpTxBegin(S, e)
    [] e.op = "finish"  -> OpTxFinish(S, e)
    [] e.op = "flush"   -> OpTxFlush(S, e)
    [] e.op = "close"   -> OpClose(S, e)
    [] e.op = "reqend"  -> OpRequestEnd(S, e)
    [] e.op = "abort"   -> OpAbort(S, e)
    [] e.op = "ign"     -> OpIgnore(S, e)
    [] e.op = "foreign" -> OpForeign(S, e)
    [] e.op = "renew"   -> OpRenew(S, e)
    [] e.op = "level"   -> OpLevel(S, e)
    [] e.op = "tick"    -> OpTick(S, e)
    [] e.op = "loserec" -> OpLoseRec(S, e)
    [] e.op = "losetag" -> OpLoseTag(S, e)
    [] e.op = "loseint" -> OpLoseInternal(S, e)
    [] e.op = "clear"   -> OpClear(S, e)
=============================================================================
