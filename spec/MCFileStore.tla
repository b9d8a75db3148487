---------------------------- MODULE MCFileStore ----------------------------
(* Every history of at most MaxLen calls; what is readable is compared with the history. *)
EXTENDS FileStore, Json, TLCExt
CONSTANTS MaxLen, Ops, ExportMod, Seed
VARIABLES st, log
vars == <<st, log>>
N == Len(log)
Ks == [pre : {"", "q"}, ver : {1}, key : {"k0"}] \cup [pre : {""}, ver : {1, 2}, key : {"k0", "k1"}]
Ext(k, r) == [pre |-> k.pre, ver |-> k.ver, key |-> k.key] @@ r
Has1(o) == o \in Ops
Events ==
  UNION {
    IF Has1("set") THEN {Ext(k, [op |-> o, val |-> "v" \o ToString(N), timeout |-> t]) : k \in Ks, o \in {"set"}, t \in {2, 9}} ELSE {},
    IF Has1("add") THEN {Ext(k, [op |-> "add", val |-> "v" \o ToString(N), timeout |-> 9]) : k \in Ks} ELSE {},
    IF Has1("get") THEN {Ext(k, [op |-> "get", dflt |-> "None"]) : k \in Ks} ELSE {},
    IF Has1("has") THEN {Ext(k, [op |-> "has"]) : k \in Ks} ELSE {},
    IF Has1("del") THEN {Ext(k, [op |-> "del"]) : k \in Ks} \cup {[op |-> "clear"]} ELSE {},
    IF Has1("crash") THEN {Ext(k, [op |-> "crash", val |-> "v" \o ToString(N), timeout |-> 9, landed |-> l]) : k \in Ks, l \in {"old", "new"}} ELSE {},
    IF Has1("wipe") THEN {[op |-> "wipe"]} ELSE {},
    IF Has1("tick") THEN {[op |-> "tick", n |-> n] : n \in {1, 2}} ELSE {} }
Init == st = InitState(0) /\ log = <<>>
Next == N < MaxLen /\ \E e \in Events : LET r == Do(st, e) IN st' = r.st /\ log' = Append(log, [e |-> e, out |-> r.out, at |-> st.now])
Spec == Init /\ [][Next]_vars
Mine(e, k) == /\ "key" \in DOMAIN e /\ e.key = k.key /\ e.ver = k.ver /\ e.pre = k.pre
(* the last call which decides about the key *)
Decides(i, k) == \/ log[i].e.op \in {"clear", "wipe"}
                 \/ Mine(log[i].e, k) /\ (log[i].e.op \in {"set", "del"} \/ (log[i].e.op = "add" /\ log[i].out = {"True"})
                                          \/ (log[i].e.op = "crash" /\ log[i].e.landed = "new"))
Want(k) == LET D == {i \in 1..N : Decides(i, k)}
           IN IF D = {} THEN {}
              ELSE LET i == CHOOSE x \in D : \A y \in D : y <= x
                   IN IF log[i].e.op \in {"clear", "wipe", "del"} \/ st.now >= log[i].at + log[i].e.timeout THEN {} ELSE {log[i].e.val}
C27 == \A k \in Ks : (IF Has(st, K(k)) THEN {st.store[K(k)].val} ELSE {}) = Want(k)
C27b == (N > 0 /\ log[N].e.op = "get") => log[N].out = (IF Want(log[N].e) = {} THEN {"None"} ELSE Want(log[N].e))
Exported == (ExportMod > 0 /\ N = MaxLen /\ TLCFP(<<Seed, log>>) % ExportMod = 0) =>
     PrintT("@@LOG " \o ToJson([ev |-> [i \in 1..N |-> log[i].e], want |-> [i \in 1..N |-> log[i].out]]))
=============================================================================
