----------------------------- MODULE MCAdapter -----------------------------
(* Every history of at most MaxLen calls; the derived operations are compared with a reading of the history alone. *)
EXTENDS Adapter, Json, TLCExt
CONSTANTS MaxLen, Ops, ExportMod, Seed
VARIABLES st, log
vars == <<st, log>>

Keys == {"k0", "k1"}
Vers == {1, 2}
Lives == IF MaxLen <= 4 /\ "get" \notin Ops THEN {Never, 0, 2} ELSE {Never, 2}
V(i) == IF i % 2 = 0 THEN IntV(i * 10) ELSE [t |-> "int", n |-> 0, s |-> ""]
Has1(o) == o \in Ops
Events ==
  LET n == Len(log) IN
  UNION {
    IF Has1("get") THEN [op : {"get"}, key : Keys, ver : Vers, dflt : {"None"}] ELSE {},
    IF Has1("set") THEN [op : {"set", "add"}, key : Keys, ver : Vers, val : {V(n)}, timeout : Lives] ELSE {},
    IF Has1("del") THEN [op : {"del"}, key : Keys, ver : Vers] ELSE {},
    IF Has1("bulk") THEN [op : {"getm", "delm"}, keys : {<<"k0", "k1">>}, ver : Vers] ELSE {},
    IF Has1("bulk") THEN [op : {"setm"}, items : {<<[key |-> "k0", val |-> V(n)], [key |-> "k1", val |-> V(n + 1)]>>}, ver : Vers,
                          timeout : Lives] ELSE {},
    IF Has1("in") THEN [op : {"has"}, key : Keys, ver : Vers] \cup [op : {"in"}, key : Keys] ELSE {},
    IF Has1("count") THEN [op : {"incr", "decr"}, key : Keys, ver : Vers, n : {0, 3}] ELSE {},
    IF Has1("move") THEN [op : {"incrv", "decrv"}, key : {"k0"}, ver : Vers, n : {1}] ELSE {},
    IF Has1("tick") THEN [op : {"tick"}, n : {1, 2}] ELSE {} }

Init == st = InitState(0) /\ log = <<>>
Next == Len(log) < MaxLen /\ \E e \in Events : LET r == Do(st, e) IN st' = r.st /\ log' = Append(log, [e |-> e, out |-> r.out, at |-> st.now])
Spec == Init /\ [][Next]_vars
N == Len(log)
Ev == log[N].e

(* the last write of the key and version, read off the history: <<kind, value, expiry>> *)
Writes(i, k, ver) ==
  LET e == log[i].e IN
  CASE e.op = "set" -> e.key = k /\ e.ver = ver
    [] e.op = "add" -> e.key = k /\ e.ver = ver /\ log[i].out = {"True"}
    [] e.op = "setm" -> e.ver = ver
    [] e.op \in {"incr", "decr"} -> e.key = k /\ e.ver = ver /\ log[i].out # {"ValueError"}
    [] e.op \in {"incrv", "decrv"} -> e.key = k /\ log[i].out # {"ValueError"}
                                      /\ (ver = e.ver \/ ver = e.ver + (IF e.op = "incrv" THEN e.n ELSE 0 - e.n))
    [] e.op = "del" -> e.key = k /\ e.ver = ver
    [] e.op = "delm" -> e.ver = ver
    [] OTHER -> FALSE
RECURSIVE Abs(_, _, _)
Abs(n, k, ver) ==       \* what the key holds after n events: a set with at most one <<value, expiry>>
  IF n = 0 THEN {}
  ELSE IF ~Writes(n, k, ver) THEN Abs(n - 1, k, ver)
  ELSE LET e == log[n].e
           old == {x \in Abs(n - 1, k, ver) : x[2] = Never \/ log[n].at < x[2]}
       IN CASE e.op \in {"set", "add"} -> {<<e.val.n, IF e.timeout = Never THEN Never ELSE log[n].at + e.timeout>>}
            [] e.op = "setm" -> {<<(CHOOSE i \in Range(e.items) : i.key = k).val.n, IF e.timeout = Never THEN Never ELSE log[n].at + e.timeout>>}
            [] e.op = "incr" -> {<<x[1] + e.n, Never>> : x \in old}
            [] e.op = "decr" -> {<<x[1] - e.n, Never>> : x \in old}
            [] e.op \in {"incrv", "decrv"} ->
                 IF ver = e.ver THEN {} ELSE {<<x[1], Never>> : x \in {y \in Abs(n - 1, k, e.ver) : y[2] = Never \/ log[n].at < y[2]}}
            [] OTHER -> {}
Now(k, ver) == {x[1] : x \in {y \in Abs(N, k, ver) : y[2] = Never \/ st.now < y[2]}}
C28 == \A k \in Keys, ver \in 0..3 : (IF Has(st, k, ver) THEN {Val(st, k, ver).n} ELSE {}) = Now(k, ver)
C28b == (N > 0 /\ Ev.op = "getm") =>
           log[N].out = {k \o "=i" \o ToString(CHOOSE x \in Now(k, Ev.ver) : TRUE) : k \in {y \in Keys : Now(y, Ev.ver) # {}}}
C28c == (N > 0 /\ Ev.op = "has") => log[N].out = {IF Now(Ev.key, Ev.ver) # {} THEN "True" ELSE "False"}

Exported == (ExportMod > 0 /\ N = MaxLen /\ TLCFP(<<Seed, log>>) % ExportMod = 0) =>
     PrintT("@@LOG " \o ToJson([ev |-> [i \in 1..N |-> log[i].e], want |-> [i \in 1..N |-> log[i].out]]))
=============================================================================
