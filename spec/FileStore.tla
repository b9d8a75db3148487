------------------------------ MODULE FileStore ------------------------------
(***************************************************************************)
(* The file-based backend (django_cache_dependencies/backends.py) as a     *)
(* user sees it: a map from (prefix, version, key) to whole values.  The   *)
(* steps of a store at the level of the file system and crashes between    *)
(* them are in MCFileSteps.                                                *)
(*                                                                         *)
(* crash: a store that did not come to its end (the process is killed or   *)
(*   the write fails at any point); landed: what is readable afterwards,   *)
(*   "old" or "new".                                                       *)
(* inter: a store during which another object stores val2 under the same   *)
(*   key; landed: "1" or "2".                                              *)
(* watch: a store during which another object reads again and again.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == (k :> v) @@ f
InitState(hdr) == [now |-> 0, store |-> <<>>]
K(e) == <<e.pre, e.ver, e.key>>
Has(S, k) == k \in DOMAIN S.store /\ S.now < S.store[k].exp
Write(S, e, v) == [S EXCEPT !.store = Put(@, K(e), [val |-> v, exp |-> S.now + e.timeout])]
R(S, out) == [st |-> S, out |-> {out}]
Bool(b) == IF b THEN "True" ELSE "False"

Do(S, e) ==
  CASE e.op = "get"   -> R(S, IF Has(S, K(e)) THEN S.store[K(e)].val ELSE e.dflt)
    [] e.op = "has"   -> R(S, Bool(Has(S, K(e))))
    [] e.op = "set"   -> R(Write(S, e, e.val), "ok")
    [] e.op = "watch" -> R(Write(S, e, e.val), "old or new")
    [] e.op = "add"   -> IF Has(S, K(e)) THEN R(S, "False") ELSE R(Write(S, e, e.val), "True")
    [] e.op = "del"   -> R([S EXCEPT !.store = [k \in DOMAIN @ \ {K(e)} |-> @[k]]], "ok")
    [] e.op = "bad"   -> R(S, "ok")                     \* a value that can not be pickled: the store fails, nothing changes
    [] e.op \in {"clear", "wipe"} -> R([S EXCEPT !.store = <<>>], "ok")      \* wipe: the directory is removed
    [] e.op = "tick"  -> R([S EXCEPT !.now = @ + e.n], "ok")
    [] e.op = "crash" -> IF e.landed = "new" THEN R(Write(S, e, e.val), "whole")
                         ELSE IF e.landed = "old" THEN R(S, "whole") ELSE R(S, "never damaged")
    [] e.op = "inter" -> IF e.landed = "1" THEN R(Write(S, e, e.val), "whole")
                         ELSE IF e.landed = "2" THEN R(Write(S, e, e.val2), "whole") ELSE R(S, "never damaged")
=============================================================================
