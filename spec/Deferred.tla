------------------------------ MODULE Deferred ------------------------------
(***************************************************************************)
(* Deferred queries (cache_dependencies/defer.py).  An object is a flat    *)
(* sequence of operations: combining appends the operations of the other   *)
(* object, reading takes them off, last added first.  The implementation   *)
(* keeps a chain of nodes (one per run of operations with equal executor   *)
(* and arguments), lazily created iterators and a state shared between     *)
(* them; nothing of this is visible here.                                  *)
(*                                                                         *)
(* A criterion is [x: executor (0 = none), a: arguments].  An operation is *)
(* [id, crit, keys, nest, exc]: its callback takes nest further results of *)
(* the object it belongs to and then, if exc, raises.                      *)
(* Observations carry their position, so that a set of strings is a        *)
(* sequence.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == (k :> v) @@ f
Range(s)     == {s[i] : i \in DOMAIN s}
AtOr(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

(* store: executor number -> key -> value (strings); objs: name -> object *)
InitState(hdr) == [store |-> <<>>, objs |-> <<>>]

(* front: criterion of operations added to it; ops: oldest first; left: how many are not taken yet; got: criterion -> answer *)
NewObj(crit) == [front |-> crit, ops |-> <<>>, left |-> 0, got |-> <<>>, begun |-> FALSE]

Cid(c) == "x" \o ToString(c.x) \o "a" \o ToString(c.a)
Content(S, c) == IF c.x = 0 THEN <<>> ELSE AtOr(S.store, c.x, <<>>)
KeysOf(ob, c) == UNION {Range(ob.ops[i].keys) : i \in {j \in DOMAIN ob.ops : ob.ops[j].crit = c}}

(* Reading: state [ob, out]; out is a sequence of sets of strings, one per observable moment; ret is what the reader gets *)
RECURSIVE Pop(_, _)
RECURSIVE PopN(_, _, _)
PopN(S, st, n) == IF n = 0 THEN st ELSE LET r == Pop(S, st) IN PopN(S, [ob |-> r.ob, out |-> Append(r.out, {"got:" \o r.ret})], n - 1)
Pop(S, st) ==
  IF st.ob.left = 0 THEN [ob |-> st.ob, out |-> st.out, ret |-> "stop"]
  ELSE
    LET op == st.ob.ops[st.ob.left]
        c  == op.crit
        asked == c.x # 0 /\ c \notin DOMAIN st.ob.got
        keys  == KeysOf(st.ob, c)
        held  == Content(S, c)
        answer == [k \in keys \cap DOMAIN held |-> held[k]]
        ob1 == [st.ob EXCEPT !.left = @ - 1, !.got = IF asked THEN Put(@, c, answer) ELSE @]
        out1 == IF asked THEN Append(st.out, {"query:" \o Cid(c)} \cup keys) ELSE st.out
        mine == IF c.x = 0 THEN {"none"} ELSE {k \o "=" \o ob1.got[c][k] : k \in Range(op.keys) \cap DOMAIN ob1.got[c]}
        out2 == Append(out1, {"callback:" \o ToString(op.id)} \cup mine)
        r == PopN(S, [ob |-> ob1, out |-> out2], op.nest)
    IN [ob |-> r.ob, out |-> r.out, ret |-> (IF op.exc THEN "exc" ELSE "res") \o ToString(op.id)]

Number(out) == UNION {{ToString(i) \o "." \o x : x \in out[i]} : i \in DOMAIN out}

(* A bulk read of n records costs at most two reads of the backend; what it finds is as in CacheDeps *)
Reads(S, e) == [st |-> S, out |-> {"cost:ok"} \cup {e.items[i].key : i \in {j \in DOMAIN e.items : e.items[j].stored /\ ~e.items[j].invalid}}]

R(S, out) == [st |-> S, out |-> out]
SetObj(S, o, ob) == [S EXCEPT !.objs = Put(@, o, ob)]
Touched(ob) == ob.begun          \* reading has begun: it is not combined or extended any more

Do(S, e) ==
  CASE e.op = "put"  -> R([S EXCEPT !.store = Put(@, e.x, Put(AtOr(@, e.x, <<>>), e.key, e.val))], {})
    [] e.op = "drop" -> R([S EXCEPT !.store = Put(@, e.x, [k \in DOMAIN AtOr(@, e.x, <<>>) \ {e.key} |-> @[e.x][k]])], {})
    [] e.op = "new"  -> R(SetObj(S, e.o, NewObj(e.crit)), {})
    [] e.op = "add"  -> LET ob == S.objs[e.o]
                        IN R(SetObj(S, e.o, [ob EXCEPT !.ops = Append(@, [id |-> e.id, crit |-> ob.front, keys |-> e.keys, nest |-> e.nest, exc |-> e.exc]),
                                                       !.left = @ + 1]), {})
    [] e.op = "iadd" -> LET a == S.objs[e.a] b == S.objs[e.b]
                        IN R(SetObj(S, e.a, [a EXCEPT !.ops = @ \o b.ops, !.left = @ + b.left, !.front = b.front]), {})
    [] e.op = "get"  -> LET r == Pop(S, [ob |-> S.objs[e.o], out |-> <<>>])
                        IN R(SetObj(S, e.o, [r.ob EXCEPT !.begun = TRUE]), Number(Append(r.out, {"got:" \o r.ret})))
    [] e.op = "reads" -> Reads(S, e)
=============================================================================
