------------------------------- MODULE MCDeps -------------------------------
(***************************************************************************)
(* Bounded exhaustive model of CacheDeps: every history of at most MaxLen  *)
(* calls over a small alphabet.  The properties C01..C19 are stated        *)
(* declaratively, over the history (log) and over single steps, without    *)
(* using the operational definitions of locks, builds and dependencies     *)
(* wherever that is possible.                                              *)
(* With Export = TRUE every maximal history is printed together with the   *)
(* prescribed observations; the harness replays them in the real code.     *)
(***************************************************************************)
EXTENDS CacheDeps, Json, TLCExt

(* Values for the constants that a configuration file cannot write down *)
IsoRU == <<"READ UNCOMMITTED">>
IsoRC == <<"READ COMMITTED">>
IsoRR == <<"REPEATABLE READ">>
IsoSer == <<"SERIALIZABLE">>
IsoRRRC == <<"REPEATABLE READ", "READ COMMITTED">>
IsoRRRR == <<"REPEATABLE READ", "REPEATABLE READ">>
IsoRCRC == <<"READ COMMITTED", "READ COMMITTED">>
IsoRURC == <<"READ UNCOMMITTED", "READ COMMITTED">>

CONSTANTS NS, NK, NT, Vers, Isos, Delay, Ops, MaxLen, Ticks, MaxTags, AbortReads, Shared, Prefix, ExportMod, Seed

VARIABLES st, log, prev
vars == <<st, log, prev>>

RECURSIVE SetToSeq(_)
SetToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SetToSeq(X \ {x})

Keys == {"k" \o ToString(i) : i \in 0..NK-1}
Tags == {"t" \o ToString(i) : i \in 0..NT-1}
TagSeqs == {<<>>} \cup {<<t>> : t \in Tags}
           \cup (IF MaxTags > 1 THEN {SetToSeq(Tags)} ELSE {})
SessionsOf == 1..NS
Cfg == [a \in DOMAIN Isos |-> [iso |-> Isos[a], delay |-> Delay, be |-> IF Shared THEN 1 ELSE a]]
Als == DOMAIN Isos

NewVal == "v" \o ToString(Len(log) + 1)

Events ==
  UNION {
    IF "get" \in Ops THEN [op : {"get"}, s : SessionsOf, al : Als, ver : Vers, key : Keys, abort : AbortReads, dflt : {"None"}] ELSE {},
    IF "getm" \in Ops THEN [op : {"getm"}, s : SessionsOf, al : Als, ver : Vers, keys : {SetToSeq(Keys)}, abort : AbortReads] ELSE {},
    IF "set" \in Ops THEN [op : {"set"}, s : SessionsOf, al : Als, ver : Vers, key : Keys, val : {NewVal}, tags : TagSeqs, timeout : {Never}] ELSE {},
    IF "sett" \in Ops THEN [op : {"set"}, s : SessionsOf, al : Als, ver : Vers, key : Keys, val : {NewVal}, tags : {<<>>}, timeout : Ticks] ELSE {},
    IF "nset" \in Ops THEN [op : {"nset"}, s : SessionsOf, al : Als, ver : Vers, key : Keys, val : {NewVal}, timeout : {Never}] ELSE {},
    IF "add" \in Ops THEN [op : {"add"}, s : SessionsOf, al : Als, ver : Vers, key : Keys, val : {NewVal}, timeout : {Never}] ELSE {},
    IF "del" \in Ops THEN [op : {"del"}, s : SessionsOf, al : Als, ver : Vers, keys : {<<k>> : k \in Keys}] ELSE {},
    IF "inv" \in Ops THEN [op : {"inv"}, s : SessionsOf, al : Als, ver : Vers, tags : {<<t>> : t \in Tags}] ELSE {},
    UNION {IF o \in Ops THEN [op : {o}, s : SessionsOf, al : Als] ELSE {} : o \in {"begin", "finish", "flush", "close", "clear", "renew"}},
    IF "reqend" \in Ops THEN [op : {"reqend"}, s : SessionsOf, al : {1}] ELSE {},
    IF "abort" \in Ops THEN [op : {"abort"}, s : SessionsOf, al : Als, key : Keys] ELSE {},
    IF "ign" \in Ops THEN [op : {"ign"}, s : SessionsOf, al : Als, on : BOOLEAN] ELSE {},
    IF "tick" \in Ops THEN [op : {"tick"}, n : Ticks] ELSE {},
    IF "loserec" \in Ops THEN [op : {"loserec"}, al : Als, ver : Vers, key : Keys] ELSE {},
    IF "losetag" \in Ops THEN [op : {"losetag"}, al : Als, ver : Vers, tag : Tags] ELSE {},
    IF "loseint" \in Ops THEN [op : {"loseint"}, al : Als] ELSE {} }

(* Histories that the exploration starts from (the constant Prefix selects one) *)
Ev0(o, s) == [op |-> o, s |-> s, al |-> 1]
EvInv(s, t) == [op |-> "inv", s |-> s, al |-> 1, ver |-> "d", tags |-> <<t>>]
EvGet(s, k) == [op |-> "get", s |-> s, al |-> 1, ver |-> "d", key |-> k, abort |-> FALSE, dflt |-> "None"]
EvSet(s, k, v, ts) == [op |-> "set", s |-> s, al |-> 1, ver |-> "d", key |-> k, val |-> v, tags |-> ts, timeout |-> Never]
PrefixOf ==
  CASE Prefix = "none"     -> <<>>
    [] Prefix = "locked"   -> <<Ev0("begin", 1), EvInv(1, "t0")>>
    [] Prefix = "reader"   -> <<Ev0("begin", 2), Ev0("begin", 1), EvInv(1, "t0")>>
    [] Prefix = "released" -> <<Ev0("begin", 2), Ev0("begin", 1), EvInv(1, "t0"), [op |-> "tick", n |-> 1], Ev0("finish", 1)>>
    [] Prefix = "tx2"      -> <<Ev0("begin", 1), Ev0("begin", 1), EvInv(1, "t0")>>
    [] Prefix = "saved"    -> <<EvGet(1, "k0"), EvSet(1, "k0", "v2", <<"t0">>)>>
    [] Prefix = "nested"   -> <<EvGet(1, "k0"), EvGet(1, "k1")>>
    [] Prefix = "cached"   -> <<EvSet(1, "k0", "v1", <<"t0">>), EvGet(1, "k1")>>

(* The log names the acting thread by its identity, not by the session it serves as: after a "renew" it is another. *)
Entry(S, e, out) == [e |-> IF "s" \in DOMAIN e THEN [e EXCEPT !.s = S.sid[e.s]] ELSE e, out |-> out, at |-> S.now]
Slot(w) == ((w - 1) % NS) + 1
Raw(e) == IF "s" \in DOMAIN e THEN [e EXCEPT !.s = Slot(e.s)] ELSE e
RECURSIVE Play(_, _, _, _)
Play(S, P, es, lg) ==
  IF es = <<>> THEN [st |-> S, prev |-> P, log |-> lg]
  ELSE LET r == Do(S, Head(es))
       IN Play(r.st, S, Tail(es), Append(lg, Entry(S, Head(es), r.out)))

Init == LET i == Play(InitState(Cfg, NS), InitState(Cfg, NS), PrefixOf, <<>>)
        IN st = i.st /\ log = i.log /\ prev = i.prev

(* Sessions, keys and tags are interchangeable: each new one is the first that was not used yet. *)
Nm(c, i) == c \o ToString(i)
UsedS == {Slot(log[i].e.s) : i \in {j \in 1..Len(log) : "s" \in DOMAIN log[j].e}}
UsedK == {log[i].e.key : i \in {j \in 1..Len(log) : "key" \in DOMAIN log[j].e}}
         \cup UNION {Range(log[i].e.keys) : i \in {j \in 1..Len(log) : "keys" \in DOMAIN log[j].e}}
UsedT == {log[i].e.tag : i \in {j \in 1..Len(log) : "tag" \in DOMAIN log[j].e}}
         \cup UNION {Range(log[i].e.tags) : i \in {j \in 1..Len(log) : "tags" \in DOMAIN log[j].e}}
FirstFree(c, used, n) == CHOOSE i \in 0..n : Nm(c, i) \notin used /\ \A j \in 0..(i-1) : Nm(c, j) \in used
Canon(e) ==
  /\ "s" \in DOMAIN e => e.s \in UsedS \/ e.s = Cardinality(UsedS) + 1
  /\ "key" \in DOMAIN e => e.key \in UsedK \/ e.key = Nm("k", FirstFree("k", UsedK, NK))
  /\ ("keys" \in DOMAIN e /\ Len(e.keys) = 1) => e.keys[1] \in UsedK \/ e.keys[1] = Nm("k", FirstFree("k", UsedK, NK))
  /\ "tag" \in DOMAIN e => e.tag \in UsedT \/ e.tag = Nm("t", FirstFree("t", UsedT, NT))
  /\ ("tags" \in DOMAIN e /\ Len(e.tags) = 1) => e.tags[1] \in UsedT \/ e.tags[1] = Nm("t", FirstFree("t", UsedT, NT))

Next == /\ Len(log) < MaxLen
        /\ \E e \in {x \in Events : Canon(x)} :
             LET r == Do(st, e)
             IN /\ st' = r.st /\ prev' = st
                /\ log' = Append(log, Entry(st, e, r.out))

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Vocabulary of the history *)

N == Len(log)
Ev == log[N].e
Op(i) == log[i].e.op
IsSave(i) == Op(i) = "set"
Recs == DOMAIN st.store
Live(S, k) == Readable(S, k[1], k[2], k[3])
LiveRecs(S) == {k \in DOMAIN S.store : Live(S, k)}
SaveOf(v) == CHOOSE i \in 1..N : Op(i) \in {"set", "nset", "add"} /\ log[i].e.val = v
BeOf(i) == Be(st, log[i].e.al)
Acts(i) == "s" \in DOMAIN log[i].e       \* events of a session (not of the environment)
Same(i, j) == Acts(i) /\ Acts(j) /\ log[i].e.s = log[j].e.s /\ log[i].e.al = log[j].e.al
InvBy(j, be, ver, t) == Op(j) = "inv" /\ BeOf(j) = be /\ log[j].e.ver = ver /\ t \in Range(log[j].e.tags)

(* depth of the transaction of the session and alias of event i just before event i *)
RECURSIVE DepthBefore(_, _, _)
DepthBefore(i, s, al) ==     \* after events 1..i-1
  IF i = 1 THEN 0
  ELSE LET d == DepthBefore(i - 1, s, al)
           e == log[i - 1].e
       IN IF ~Acts(i - 1) \/ e.s # s THEN d
          ELSE CASE e.op = "begin" /\ e.al = al -> d + 1
                 [] e.op = "finish" /\ e.al = al -> Max2(d - 1, 0)
                 [] e.op \in {"flush", "close"} /\ e.al = al -> 0
                 [] e.op = "reqend" -> 0
                 [] OTHER -> d
(* event j ends the outermost transaction of (s, al) *)
EndsTx(j, s, al) ==
  /\ Acts(j) /\ log[j].e.s = s
  /\ \/ Op(j) = "finish" /\ log[j].e.al = al /\ DepthBefore(j, s, al) = 1
     \/ Op(j) \in {"flush", "close"} /\ log[j].e.al = al /\ DepthBefore(j, s, al) > 0
     \/ Op(j) = "reqend" /\ DepthBefore(j, s, al) > 0
(* invalidation j belongs to the transaction that ends at event i *)
InTxEndedBy(j, i) ==
  /\ j < i /\ Op(j) = "inv"
  /\ EndsTx(i, log[j].e.s, log[j].e.al)
  /\ DepthBefore(j, log[j].e.s, log[j].e.al) > 0
  /\ \A m \in (j+1)..(i-1) : ~EndsTx(m, log[j].e.s, log[j].e.al)
OpenAt(j, i) ==   \* the transaction of invalidation j is still open before event i
  /\ Op(j) = "inv" /\ DepthBefore(j, log[j].e.s, log[j].e.al) > 0
  /\ \A m \in (j+1)..(i-1) : ~EndsTx(m, log[j].e.s, log[j].e.al)
StartTx(i, s, al) ==  \* index of the begin of the transaction open before i, 0 if none
  IF DepthBefore(i, s, al) = 0 THEN 0
  ELSE CHOOSE b \in 1..(i-1) : /\ Op(b) = "begin" /\ log[b].e.s = s /\ log[b].e.al = al
                               /\ DepthBefore(b, s, al) = 0
                               /\ \A m \in (b+1)..(i-1) : ~EndsTx(m, s, al)
TimeAt(i) == log[i].at

-----------------------------------------------------------------------------
(* C01: no readable record carries a tag invalidated after its save *)
C01 == \A k \in LiveRecs(st) :
         LET r == st.store[k] i == SaveOf(r.val)
         IN \A t \in DOMAIN r.deps : \A j \in (i+1)..N : ~InvBy(j, k[1], k[2], t)
(* ... and the tags it carries include the ones given by its save *)
C01b == \A k \in Recs : LET i == SaveOf(st.store[k].val)
                        IN Op(i) = "set" => Range(log[i].e.tags) \subseteq DOMAIN st.store[k].deps

(* C02: losing a record needs a reason *)
Touches(j, k) ==   \* event j may replace or remove the entry k
  LET e == log[j].e IN
  \/ Op(j) \in {"set", "nset", "add"} /\ BeOf(j) = k[1] /\ e.ver = k[2] /\ e.key = k[3]
  \/ Op(j) = "del" /\ BeOf(j) = k[1] /\ e.ver = k[2] /\ k[3] \in Range(e.keys)
  \/ Op(j) = "clear" /\ BeOf(j) = k[1]
  \/ Op(j) = "loserec" /\ BeOf(j) = k[1] /\ e.ver = k[2] /\ e.key = k[3]
TagGone(j, be, ver, t) ==
  \/ InvBy(j, be, ver, t)
  \/ Op(j) = "losetag" /\ BeOf(j) = be /\ log[j].e.ver = ver /\ log[j].e.tag = t
  \/ Op(j) \in {"loseint", "clear"} /\ BeOf(j) = be
  \/ \E m \in 1..(j-1) : InTxEndedBy(m, j) /\ InvBy(m, be, ver, t)
  \/ Op(j) = "tick" /\ Delay > 0 /\ \E m \in 1..(j-1) : InvBy(m, be, ver, t)
                                     /\ \E f \in (m+1)..(j-1) : InTxEndedBy(m, f)
C02 == \A k \in Recs :
         LET r == st.store[k] i == SaveOf(r.val) IN
         ( /\ \A j \in (i+1)..N : \A t \in DOMAIN r.deps : ~TagGone(j, k[1], k[2], t)
           /\ (log[i].e.timeout = Never \/ st.now < TimeAt(i) + log[i].e.timeout) ) => Live(st, k)
(* a stored record stays stored until an event touches it *)
C02b == N > 0 => \A k \in DOMAIN prev.store :
          (k \in DOMAIN st.store /\ st.store[k] = prev.store[k]) \/ Touches(N, k)
C02c == \A k \in LiveRecs(st) : LET i == SaveOf(st.store[k].val)
          IN log[i].e.timeout = Never \/ st.now < TimeAt(i) + log[i].e.timeout
(* a read returns what is stored, or the default *)
C02d == N > 0 /\ Ev.op = "get" =>
          LET k == <<Be(st, Ev.al), Ev.ver, Ev.key>>
          IN log[N].out = IF Live(prev, k) THEN prev.store[k].val ELSE Ev.dflt

(* C03: one step concerns one version and one backend *)
C03 == (N > 0 /\ "ver" \in DOMAIN Ev) =>
         /\ \A k \in DOMAIN prev.store : (k[2] # Ev.ver \/ k[1] # BeOf(N)) => (Live(prev, k) <=> Live(st, k))
         /\ \A k \in DOMAIN st.acq : (k[2] # Ev.ver \/ k[1] # BeOf(N)) => (k \in DOMAIN prev.acq /\ prev.acq[k] = st.acq[k])
         /\ \A s \in 1..NS, a \in Als : \A key \in DOMAIN st.sess[s][a].tree.data :
              LET id == st.sess[s][a].tree.data[key] IN
              \A v \in Vers \ {Ev.ver} :
                 NodeDeps(st.sess[s][a].tree.nodes[id], v)
                   = IF id <= Len(prev.sess[s][a].tree.nodes) THEN NodeDeps(prev.sess[s][a].tree.nodes[id], v) ELSE {}
(* the end of a transaction invalidates in each version only what was invalidated in that version *)
C03b == (N > 0 /\ Acts(N) /\ Ev.op \in {"finish", "flush", "close", "reqend"}) =>
          \A k \in LiveRecs(prev) : ~Live(st, k) =>
             \E t \in DOMAIN prev.store[k].deps : \E j \in 1..(N-1) : InTxEndedBy(j, N) /\ InvBy(j, k[1], k[2], t)
(* C04 / C05: the tags of a record *)
Hits(i) ==  \* keys that event i read successfully (and reported to the tree)
  CASE Op(i) = "get" /\ log[i].out # log[i].e.dflt -> {<<log[i].e.key, log[i].out>>}
    [] Op(i) = "getm" -> log[i].out
    [] OTHER -> {}
IgnBefore(i, s, al) ==
  \E j \in 1..(i-1) : /\ Op(j) = "ign" /\ log[j].e.s = s /\ log[j].e.al = al /\ log[j].e.on
                      /\ \A m \in (j+1)..(i-1) : ~(Op(m) = "ign" /\ log[m].e.s = s /\ log[m].e.al = al)
Tracked(i) == ~log[i].e.abort /\ ~IgnBefore(i, log[i].e.s, log[i].e.al)
Opens(i, key) ==  \* event i is a miss that opens (or keeps open) a build of key
  \/ Op(i) = "get" /\ log[i].e.key = key /\ log[i].out = log[i].e.dflt /\ Tracked(i)
  \/ Op(i) = "getm" /\ key \in Range(log[i].e.keys) /\ key \notin {h[1] : h \in log[i].out} /\ Tracked(i)
Shuts(i, key) ==
  \/ Op(i) \in {"set", "abort"} /\ log[i].e.key = key
  \/ Op(i) \in {"get", "getm"} /\ key \in {h[1] : h \in Hits(i)}
  \/ Op(i) \in {"close", "reqend"}
(* the first miss of the build that save i ends; 0 if none *)
Since(i) ==
  LET e == log[i].e
      M == {m \in 1..(i-1) : /\ Acts(m) /\ log[m].e.s = e.s
                             /\ (log[m].e.al = e.al) /\ Opens(m, e.key)
                             /\ \A x \in (m+1)..(i-1) :
                                  ~(Acts(x) /\ log[x].e.s = e.s /\ (log[x].e.al = e.al \/ Op(x) = "reqend") /\ Shuts(x, e.key))}
  IN IF M = {} THEN 0 ELSE CHOOSE m \in M : \A x \in M : m <= x
RECURSIVE MayCarry(_)
MayCarry(i) ==
  IF Op(i) # "set" THEN {} ELSE
  Range(log[i].e.tags) \cup
  (IF Since(i) = 0 THEN {}
   ELSE UNION {LET c == x IN
               (IF Op(c) = "set" THEN MayCarry(c) ELSE {})
               \cup UNION {MayCarry(SaveOf(h[2])) : h \in Hits(c)}
               : x \in {y \in (Since(i)+1)..(i-1) : Same(y, i) /\ "ver" \in DOMAIN log[y].e /\ log[y].e.ver = log[i].e.ver}})
C05 == \A k \in Recs : LET i == SaveOf(st.store[k].val) IN DOMAIN st.store[k].deps \subseteq MayCarry(i)

OpenBefore(i, s, al, key) ==   \* a build of key is open just before event i
  \E m \in 1..(i-1) : /\ Acts(m) /\ log[m].e.s = s /\ log[m].e.al = al /\ Opens(m, key)
                      /\ \A x \in (m+1)..(i-1) : ~(Acts(x) /\ log[x].e.s = s /\ (log[x].e.al = al \/ Op(x) = "reqend") /\ Shuts(x, key))
(* What save i must carry: everything tracked that was hit or saved since its (single) miss. *)
Plain(i) ==  \* the build that ends at i is an ordinary one
  LET m == Since(i) IN
  /\ m > 0 /\ Op(m) = "get"
  /\ \A x \in m..(i-1) : (Acts(x) /\ log[x].e.s = log[i].e.s /\ log[x].e.al = log[i].e.al) =>
        /\ Op(x) \notin {"abort", "ign", "close", "reqend", "getm"}
        /\ (Op(x) = "get" => Tracked(x))
        /\ ("key" \in DOMAIN log[x].e /\ x # m => ~OpenBefore(m, log[x].e.s, log[x].e.al, log[x].e.key))
        /\ (x # m /\ "key" \in DOMAIN log[x].e => log[x].e.key # log[i].e.key)
  /\ ~IgnBefore(m, log[i].e.s, log[i].e.al)
  /\ ~OpenBefore(m, log[i].e.s, log[i].e.al, log[i].e.key)
RECURSIVE MustCarry(_)
MustCarry(i) ==
  Range(log[i].e.tags) \cup
  (IF ~Plain(i) THEN {}
   ELSE UNION {(IF Op(x) = "set" THEN MustCarry(x) ELSE {})
               \cup UNION {IF Op(SaveOf(h[2])) = "set" THEN MustCarry(SaveOf(h[2])) ELSE {} : h \in Hits(x)}
               : x \in {y \in (Since(i)+1)..(i-1) : Same(y, i) /\ "ver" \in DOMAIN log[y].e /\ log[y].e.ver = log[i].e.ver}})
C04 == \A k \in Recs : LET i == SaveOf(st.store[k].val)
                       IN Op(i) = "set" => MustCarry(i) \subseteq DOMAIN st.store[k].deps

(* C06 *)
TreeOf(S, i) == S.sess[Slot(log[i].e.s)][log[i].e.al].tree
C06 == (N > 0 /\ Ev.op \in {"get", "getm"} /\ ~Tracked(N)) =>
         \* nothing is opened and no tag goes anywhere unless a build of the very key is open
         ( (\A key \in Keys : ~OpenBefore(N, Ev.s, Ev.al, key)) => TreeOf(st, N) = TreeOf(prev, N) )
C06b == (N > 0 /\ Ev.op = "abort") =>
          /\ TreeOf(st, N).nodes = TreeOf(prev, N).nodes
          /\ Ev.key \notin DOMAIN TreeOf(st, N).data

(* C07 *)
C07 == (N > 0 /\ Ev.op = "getm") =>
         log[N].out = {<<k, OpGet(prev, [op |-> "get", s |-> Slot(Ev.s), al |-> Ev.al, ver |-> Ev.ver, key |-> k,
                                          abort |-> TRUE, dflt |-> "?"]).out>> :
                        k \in {x \in Range(Ev.keys) : Live(prev, <<BeOf(N), Ev.ver, x>>)}}
RECURSIVE GetAll(_, _, _)
GetAll(S, e, keys) ==
  IF keys = <<>> THEN S
  ELSE GetAll(OpGet(S, [op |-> "get", s |-> e.s, al |-> e.al, ver |-> e.ver, key |-> Head(keys),
                        abort |-> e.abort, dflt |-> "?"]).st, e, Tail(keys))
OpenDeps(T) == [key \in DOMAIN T.data |-> T.nodes[T.data[key]].deps]
C07b == (N > 0 /\ Ev.op = "getm" /\ \A k \in Range(Ev.keys) : Live(prev, <<BeOf(N), Ev.ver, k>>)) =>
          OpenDeps(TreeOf(st, N)) = OpenDeps(GetAll(prev, Raw(Ev), Ev.keys).sess[Slot(Ev.s)][Ev.al].tree)

(* C08 *)
C08 == \A k \in LiveRecs(st) :
         LET i == SaveOf(st.store[k].val) IN
         \A j \in 1..N, f \in (i+1)..N : \A t \in DOMAIN st.store[k].deps :
            (InTxEndedBy(j, f) /\ InvBy(j, k[1], k[2], t)) => Iso(st, log[j].e.al) = "READ UNCOMMITTED"

(* C09 *)
C09 == (N > 0 /\ Ev.op = "finish" /\ DepthBefore(N, Ev.s, Ev.al) > 1) =>
          /\ st.tags = prev.tags /\ st.acq = prev.acq /\ st.rel = prev.rel /\ st.timers = prev.timers
          /\ st.store = prev.store
C09b == \A s \in 1..NS, a \in Als : st.sess[s][a].tx.d = DepthBefore(N + 1, st.sid[s], a)
C09c == (N > 0 /\ Ev.op \in {"finish", "flush"} /\ DepthBefore(N, Ev.s, Ev.al) = 0) => st = prev

(* C10: locks of open transactions.  Undisturbed: no other session touched the lock of the tag. *)
Undisturbed(j, i, t) ==
  \A x \in 1..(i-1) : (Acts(x) /\ log[x].e.s # log[j].e.s) =>
      ~(InvBy(x, BeOf(j), log[j].e.ver, t) /\ DepthBefore(x, log[x].e.s, log[x].e.al) > 0)
NoLoss(i) == \A x \in 1..i : Op(x) \notin {"loseint", "clear"}
MustBlock(i) ==
  \E t \in (IF Since(i) = 0 THEN Range(log[i].e.tags) ELSE MustCarry(i)) : \E j \in 1..(i-1) :
     /\ InvBy(j, BeOf(i), log[i].e.ver, t) /\ RRLike(st, log[j].e.al)
     /\ log[j].e.s # log[i].e.s /\ OpenAt(j, i) /\ Undisturbed(j, i, t) /\ NoLoss(i)
     /\ TimeAt(i) < TimeAt(j) + LockTTL
C10 == (N > 0 /\ Ev.op = "set" /\ MustBlock(N)) => st.store = prev.store
(* never blocked: no tag it may carry has been invalidated by another session inside a transaction of a locking level *)
MayBlock(i) ==
  \E t \in MayCarry(i) : \E j \in 1..(i-1) :
     /\ InvBy(j, BeOf(i), log[i].e.ver, t) /\ RRLike(st, log[j].e.al) /\ log[j].e.s # log[i].e.s
     /\ DepthBefore(j, log[j].e.s, log[j].e.al) > 0
     /\ \/ TimeAt(i) < TimeAt(j) + LockTTL
        \/ \E f \in (j+1)..(i-1) : InTxEndedBy(j, f) /\ TimeAt(i) < TimeAt(f) + LockTTL + Max2(Delay, Sec)
C10b == (N > 0 /\ Ev.op = "set" /\ ~MayBlock(N)) =>
          LET k == <<BeOf(N), Ev.ver, Ev.key>> IN k \in DOMAIN st.store /\ st.store[k].val = Ev.val

(* C11: a transaction that overlaps a finished invalidation *)
BeganAt(i) == LET b == StartTx(i, log[i].e.s, log[i].e.al) IN IF b = 0 THEN TimeAt(i) ELSE TimeAt(b)
Released(i, j, f) ==
     /\ InvBy(j, BeOf(j), log[j].e.ver, CHOOSE t \in Range(log[j].e.tags) : TRUE)
     /\ RRLike(st, log[j].e.al) /\ log[j].e.s # log[i].e.s /\ InTxEndedBy(j, f) /\ f < i
MustBlockRel(i) ==
  \E t \in Range(log[i].e.tags) : \E j \in 1..(i-1), f \in 1..(i-1) :
     /\ InvBy(j, BeOf(i), log[i].e.ver, t) /\ RRLike(st, log[j].e.al) /\ log[j].e.s # log[i].e.s
     /\ InTxEndedBy(j, f) /\ Undisturbed(j, i, t) /\ NoLoss(i)
     /\ TimeAt(f) > TimeAt(StartTx(j, log[j].e.s, log[j].e.al))
     /\ BeganAt(i) <= TimeAt(f) + Delay /\ TimeAt(i) < TimeAt(f) + LockTTL + Max2(Delay, Sec)
C11 == (N > 0 /\ Ev.op = "set" /\ MustBlockRel(N)) => st.store = prev.store
(* began later than the end of every such transaction plus delay, and none is open: not blocked *)
FreeRel(i) ==
  \A t \in MayCarry(i) : \A j \in 1..(i-1) :
     (InvBy(j, BeOf(i), log[i].e.ver, t) /\ RRLike(st, log[j].e.al) /\ log[j].e.s # log[i].e.s
       /\ DepthBefore(j, log[j].e.s, log[j].e.al) > 0) =>
       \E f \in (j+1)..(i-1) : /\ InTxEndedBy(j, f) /\ BeganAt(i) > TimeAt(f) + Delay
                               /\ TimeAt(f) > TimeAt(StartTx(j, log[j].e.s, log[j].e.al))
C11b == (N > 0 /\ Ev.op = "set" /\ FreeRel(N) /\ NS = 2) =>
          LET k == <<BeOf(N), Ev.ver, Ev.key>> IN k \in DOMAIN st.store /\ st.store[k].val = Ev.val

(* C13: a blocked save treats the tree as any other save; own locks never block *)
C13 == (N > 0 /\ Ev.op = "set") =>
          TreeOf(st, N) = FinishBuild(NodeGet(TreeOf(prev, N), Ev.key), Ev.key, Ev.ver, Range(Ev.tags))
C13b == (N > 0 /\ Ev.op = "set" /\ (\A j \in 1..(N-1) : Op(j) = "inv" => log[j].e.s = Ev.s)) =>
          LET k == <<BeOf(N), Ev.ver, Ev.key>> IN k \in DOMAIN st.store /\ st.store[k].val = Ev.val
C13c == (N > 0 /\ Ev.op = "set" /\ (\A j \in 1..(N-1) : (Op(j) = "inv" /\ log[j].e.s # Ev.s) =>
             ( /\ TimeAt(N) >= TimeAt(j) + LockTTL
               /\ \A f \in 1..(N-1) : InTxEndedBy(j, f) => TimeAt(N) >= TimeAt(f) + LockTTL + Max2(Delay, Sec) ) )) =>
          LET k == <<BeOf(N), Ev.ver, Ev.key>> IN k \in DOMAIN st.store /\ st.store[k].val = Ev.val

(* C14 *)
C14 == \A k \in LiveRecs(st) :
         LET i == SaveOf(st.store[k].val) IN
         \A j \in 1..N, f \in 1..N : \A t \in DOMAIN st.store[k].deps :
            ( /\ InTxEndedBy(j, f) /\ InvBy(j, k[1], k[2], t) /\ ~RRLike(st, log[j].e.al) /\ Delay > 0
              /\ st.now >= TimeAt(f) + Delay )
            => TimeAt(i) >= TimeAt(f) + Delay
C14b == (N > 0 /\ Ev.op = "set" /\ \A a \in Als : ~RRLike(st, a)) =>
          LET k == <<BeOf(N), Ev.ver, Ev.key>> IN k \in DOMAIN st.store /\ st.store[k].val = Ev.val

(* C15 *)
C15 == (N > 0 /\ Acts(N)) => \A s \in (1..NS) \ {Slot(Ev.s)} : st.sess[s] = prev.sess[s]
(* ... and the one which takes the place of another has nothing of it, and changes nothing that is stored *)
C15b == (N > 0 /\ Ev.op = "renew") =>
          LET s == Slot(Ev.s) IN
          /\ \A a \in Als : st.sess[s][a] = FreshSess
          /\ st = [prev EXCEPT !.sess[s] = st.sess[s], !.sid[s] = st.sid[s]]
          /\ st.sid[s] \notin {log[i].e.s : i \in {j \in 1..N : Acts(j)}} \cup Range(prev.sid)
(* C16 *)
C16 == (N > 0 /\ Ev.op \in {"close", "reqend"}) =>
          \A a \in (IF Ev.op = "close" THEN {Ev.al} ELSE Als) :
             /\ st.sess[Slot(Ev.s)][a].tx = FreshTx /\ st.sess[Slot(Ev.s)][a].tree = FreshTree
             /\ st.store = prev.store
             /\ \A s \in (1..NS) \ {Slot(Ev.s)} : st.sess[s] = prev.sess[s]
C16b == (N > 0 /\ Ev.op = "close" /\ prev.sess[Slot(Ev.s)][Ev.al].tx.d > 0) =>
          LET ev == [op |-> "flush", s |-> Slot(Ev.s), al |-> Ev.al] IN
          LET S == Do(prev, ev).st IN st.tags = S.tags /\ st.rel = S.rel /\ st.acq = S.acq /\ st.timers = S.timers

(* C19: a loss never makes anything readable *)
C19 == (N > 0 /\ Ev.op \in {"loserec", "losetag", "loseint", "clear"}) =>
          \A k \in LiveRecs(st) : Live(prev, k) /\ st.store[k] = prev.store[k]
(* only its own save makes a record readable *)
C19b == N > 0 => \A k \in LiveRecs(st) :
          \/ k \in DOMAIN prev.store /\ Live(prev, k) /\ prev.store[k] = st.store[k]
          \/ Ev.op \in {"set", "nset", "add"} /\ k = <<BeOf(N), Ev.ver, Ev.key>>

-----------------------------------------------------------------------------
(* Every maximal history, with its observations, for the harness *)
Exported ==
  (ExportMod > 0 /\ N = MaxLen /\ TLCFP(<<Seed, log>>) % ExportMod = 0) =>
     PrintT("@@LOG " \o ToJson([ev |-> [i \in 1..N |-> Raw(log[i].e)], want |-> [i \in 1..N |-> log[i].out],
                               peek |-> OpPeek(st, 0).out]))
=============================================================================
