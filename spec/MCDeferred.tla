----------------------------- MODULE MCDeferred -----------------------------
(* Every program of at most MaxLen calls over Objs objects; the properties are read off the history alone. *)
EXTENDS Deferred, Json, TLCExt
CONSTANTS MaxLen, NObj, Crits, MaxNest, WithStore, ExportMod, Seed
VARIABLES st, log
vars == <<st, log>>
Objs == {"d" \o ToString(i) : i \in 1..NObj}
C(n) == CASE n = 0 -> [x |-> 0, a |-> 0] [] n = 1 -> [x |-> 1, a |-> 0] [] n = 2 -> [x |-> 1, a |-> 1] [] n = 3 -> [x |-> 2, a |-> 0]
N == Len(log)
KeySets == {<<"k0">>, <<"k0", "k1">>}
Unread(o) == o \in DOMAIN st.objs /\ ~Touched(st.objs[o])
Events ==
  UNION {
    [op : {"new"}, o : {o \in Objs : o \notin DOMAIN st.objs}, crit : {C(n) : n \in Crits}],
    [op : {"add"}, o : {o \in Objs : Unread(o)}, id : {N}, keys : KeySets, nest : 0..MaxNest, exc : {FALSE}],
    [op : {"iadd"}, a : {o \in Objs : Unread(o)}, b : {o \in Objs : Unread(o)}],
    [op : {"get"}, o : {o \in DOMAIN st.objs : TRUE}],
    IF WithStore THEN [op : {"put"}, x : {1}, key : {"k0"}, val : {"v" \o ToString(N)}] ELSE {} }
Init == st = [InitState(0) EXCEPT !.store = (1 :> [k \in {"k1"} |-> "a"]) @@ (2 :> [k \in {"k0"} |-> "b"])] /\ log = <<>>
Next == N < MaxLen /\ \E e \in Events : LET r == Do(st, e) IN st' = r.st /\ log' = Append(log, [e |-> e, out |-> r.out])
Spec == Init /\ [][Next]_vars

(* the operations of an object according to the history: ids, oldest first *)
RECURSIVE Ops(_, _)
Ops(n, o) ==
  IF n = 0 THEN <<>>
  ELSE LET e == log[n].e IN
       CASE e.op = "add" /\ e.o = o -> Append(Ops(n - 1, o), e)
         [] e.op = "iadd" /\ e.a = o -> Ops(n - 1, o) \o Ops(n - 1, e.b)
         [] OTHER -> Ops(n - 1, o)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
CalledIn(out) ==       \* callbacks run in one get, in order
  LET cand == {<<i, e>> \in (1..12) \X {log[n].e : n \in {m \in 1..N : log[m].e.op = "add"}} :
                  (ToString(i) \o ".callback:" \o ToString(e.id)) \in out}
      RECURSIVE Sort(_)
      Sort(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x[1] <= y[1] IN <<m[2]>> \o Sort(S \ {m})
  IN Sort(cand)
RECURSIVE Called(_, _)
Called(n, o) == IF n = 0 THEN <<>>
                ELSE IF log[n].e.op = "get" /\ log[n].e.o = o THEN Called(n - 1, o) \o CalledIn(log[n].out) ELSE Called(n - 1, o)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
(* each callback runs once, last added first, and a reader is told to stop only when none is left *)
C20 == \A o \in DOMAIN st.objs : IsPrefix(Called(N, o), Rev(Ops(N, o)))
C20b == (N > 0 /\ log[N].e.op = "get") =>
          LET o == log[N].e.o
          IN (\E s \in log[N].out : \E i \in 1..12 : s = ToString(i) \o ".got:stop") => Len(Called(N, o)) = Len(Ops(N, o))
(* operations with the same executor and arguments are served by one query *)
Queries(o, c) == {<<n, i>> \in (1..N) \X (1..12) : log[n].e.op = "get" /\ log[n].e.o = o /\ (ToString(i) \o ".query:" \o Cid(C(c))) \in log[n].out}
C20c == \A o \in DOMAIN st.objs, c \in Crits : Cardinality(Queries(o, c)) <= 1
Exported == (ExportMod > 0 /\ N = MaxLen /\ log[N].e.op = "get" /\ TLCFP(<<Seed, log>>) % ExportMod = 0) =>
     PrintT("@@LOG " \o ToJson([ev |-> <<[op |-> "put", x |-> 1, key |-> "k1", val |-> "a"], [op |-> "put", x |-> 2, key |-> "k0", val |-> "b"]>>
                                        \o [i \in 1..N |-> log[i].e], want |-> <<{}, {}>> \o [i \in 1..N |-> log[i].out]]))
=============================================================================
