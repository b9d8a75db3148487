------------------------------ MODULE Adapter ------------------------------
(***************************************************************************)
(* The generic backend base class (AbstractCache) over an adapter that     *)
(* implements get, set, delete, add and clear.  Values are records         *)
(* [t, n, s]: t = "int" (n) or "str" (s).  Observations are sets of        *)
(* strings.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Never == -1
Put(f, k, v) == (k :> v) @@ f
Del(f, ks)   == [x \in DOMAIN f \ ks |-> f[x]]
Range(s)     == {s[i] : i \in DOMAIN s}
Str(v) == IF v.t = "int" THEN "i" \o ToString(v.n) ELSE "s" \o v.s
IntV(n) == [t |-> "int", n |-> n, s |-> ""]

InitState(hdr) == [now |-> 0, store |-> <<>>]

Has(S, k, ver) == <<ver, k>> \in DOMAIN S.store
                  /\ (S.store[<<ver, k>>].exp = Never \/ S.now < S.store[<<ver, k>>].exp)
Val(S, k, ver) == S.store[<<ver, k>>].val
ExpOf(S, timeout) == IF timeout = Never THEN Never ELSE S.now + timeout

DoSet(S, k, v, timeout, ver) == [S EXCEPT !.store = Put(@, <<ver, k>>, [val |-> v, exp |-> ExpOf(S, timeout)])]
DoDel(S, ks, ver) == [S EXCEPT !.store = Del(@, {<<ver, k>> : k \in ks})]

RECURSIVE SetAll(_, _, _, _)
SetAll(S, items, timeout, ver) ==
  IF items = <<>> THEN S ELSE SetAll(DoSet(S, items[1].key, items[1].val, timeout, ver), Tail(items), timeout, ver)

R(st, out) == [st |-> st, out |-> {out}]

(* counters: by exactly delta, whatever the value; a missing key is refused and nothing changes *)
Count(S, e, delta) ==
  IF ~Has(S, e.key, e.ver) THEN R(S, "ValueError")
  ELSE LET n == Val(S, e.key, e.ver).n + delta
       IN R(DoSet(S, e.key, IntV(n), Never, e.ver), "i" \o ToString(n))
(* the value moves to another version as it is *)
Move(S, e, delta) ==
  IF ~Has(S, e.key, e.ver) THEN R(S, "ValueError")
  ELSE R(DoDel(DoSet(S, e.key, Val(S, e.key, e.ver), Never, e.ver + delta), {e.key}, e.ver), "i" \o ToString(e.ver + delta))

Bool(b) == IF b THEN "True" ELSE "False"

Do(S, e) ==
  CASE e.op = "get"   -> R(S, IF Has(S, e.key, e.ver) THEN Str(Val(S, e.key, e.ver)) ELSE e.dflt)
    [] e.op = "set"   -> R(DoSet(S, e.key, e.val, e.timeout, e.ver), "ok")
    [] e.op = "add"   -> IF Has(S, e.key, e.ver) THEN R(S, "False") ELSE R(DoSet(S, e.key, e.val, e.timeout, e.ver), "True")
    [] e.op = "del"   -> R(DoDel(S, {e.key}, e.ver), "ok")
    [] e.op = "clear" -> R([S EXCEPT !.store = <<>>], "ok")
    [] e.op = "getm"  -> [st |-> S, out |-> {k \o "=" \o Str(Val(S, k, e.ver)) : k \in {x \in Range(e.keys) : Has(S, x, e.ver)}}]
    [] e.op = "setm"  -> R(SetAll(S, e.items, e.timeout, e.ver), "ok")
    [] e.op = "delm"  -> R(DoDel(S, Range(e.keys), e.ver), "ok")
    [] e.op = "has"   -> R(S, Bool(Has(S, e.key, e.ver)))
    [] e.op = "in"    -> R(S, Bool(Has(S, e.key, 1)))
    [] e.op = "incr"  -> Count(S, e, e.n)
    [] e.op = "decr"  -> Count(S, e, 0 - e.n)
    [] e.op = "incrv" -> Move(S, e, e.n)
    [] e.op = "decrv" -> Move(S, e, 0 - e.n)
    \* a key which is not portable (longer than 250, or with a blank or a control character) is warned about, never refused
    [] e.op = "vkey"  -> R(S, IF e.long /\ e.odd THEN "warned twice" ELSE IF e.long \/ e.odd THEN "warned" ELSE "silent")
    [] e.op = "tick"  -> R([S EXCEPT !.now = @ + e.n], "ok")
=============================================================================
