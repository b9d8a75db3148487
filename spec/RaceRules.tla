------------------------------ MODULE RaceRules ------------------------------
(***************************************************************************)
(* What must be true of a concurrent history, whatever the interleaving of *)
(* the steps inside of the calls.  A history H is a sequence of calls      *)
(*   [s, op, key, tags, val, data, call, ret, t0, t1, out]                 *)
(* s: session; call/ret: position of the call and of the return in the     *)
(* global order (ret = 0: has not returned); t0/t1: clock at both moments; *)
(* op: begin, finish, snap, commit, inv, save, read, evict (the backend    *)
(* loses entries: key "tags": tag versions, "int": all but the records,    *)
(* "all").                                                                 *)
(* The same rules judge the model (CacheRace) and the histories recorded   *)
(* from the real code (RaceTrace).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LockTTL == 20      \* ticks

RECURSIVE MaxOf(_)
MaxOf(X) == LET x == CHOOSE y \in X : TRUE IN IF X = {x} THEN x ELSE LET m == MaxOf(X \ {x}) IN IF m > x THEN m ELSE x

Is(H, o) == {i \in 1..Len(H) : H[i].op = o}
Before(H, i, j) == H[i].ret # 0 /\ H[i].ret < H[j].call       \* i returned before j was called
Earlier(H, i, j) == H[i].s = H[j].s /\ H[i].call < H[j].call  \* program order

(* the transaction in which call i is made: index of its begin, 0 if none *)
BeginOf(H, i) ==
  LET B == {b \in Is(H, "begin") : Earlier(H, b, i)
              /\ ~\E f \in Is(H, "finish") : Earlier(H, b, f) /\ Earlier(H, f, i)}
  IN IF B = {} THEN 0 ELSE CHOOSE b \in B : \A c \in B : H[b].call <= H[c].call
FinishOf(H, i) ==
  LET F == {f \in Is(H, "finish") : Earlier(H, i, f)}
  IN IF BeginOf(H, i) = 0 \/ F = {} THEN 0 ELSE CHOOSE f \in F : \A g \in F : H[f].call <= H[g].call
(* invalidations whose transaction is ended by f *)
InvsOf(H, f) == {j \in Is(H, "inv") : FinishOf(H, j) = f}
Range2(s) == {s[x] : x \in DOMAIN s}

Meets(H, i, j) == Range2(H[i].tags) \cap Range2(H[j].tags) # {}

(* save s and read r: r returned what s had saved *)
ReadsOf(H, s) == {r \in Is(H, "read") : H[r].out = H[s].val}

C01R(H) == \A s \in Is(H, "save") : \A r \in ReadsOf(H, s) :
             ~\E j \in Is(H, "inv") : Meets(H, s, j) /\ Before(H, s, j) /\ Before(H, j, r)

C08R(H, iso) ==
  iso # "READ UNCOMMITTED" =>
    \A s \in Is(H, "save") : \A r \in ReadsOf(H, s) :
      ~\E f \in Is(H, "finish") : /\ Before(H, s, f) /\ Before(H, f, r)
                                  /\ \E j \in InvsOf(H, f) : Meets(H, s, j)

RRLike(iso) == iso \in {"REPEATABLE READ", "SERIALIZABLE"}

(* nobody but the session of j has invalidated a tag of j within a transaction before i returned *)
Alone(H, j, i) ==
  ~\E x \in Is(H, "inv") : /\ H[x].s # H[j].s /\ Meets(H, x, j) /\ BeginOf(H, x) # 0
                           /\ (H[i].ret = 0 \/ H[x].call < H[i].ret)

(* the backend may have lost locks between the call i and the return of j; may have lost anything of value to j *)
LocksLost(H, i, j) == \E x \in Is(H, "evict") : H[x].key # "tags" /\ ~Before(H, x, i) /\ ~Before(H, j, x)
Lost(H, i, j) == \E x \in Is(H, "evict") : ~Before(H, x, i) /\ ~Before(H, j, x)

C10R(H, iso) ==
  RRLike(iso) =>
    \A s \in Is(H, "save") : ReadsOf(H, s) # {} =>
      ~\E j \in Is(H, "inv") :
         /\ BeginOf(H, j) # 0 /\ H[j].s # H[s].s /\ Meets(H, s, j) /\ Before(H, j, s)
         /\ (FinishOf(H, j) = 0 \/ (H[s].ret # 0 /\ H[s].ret < H[FinishOf(H, j)].call))
         /\ H[s].t1 < H[j].t0 + LockTTL
         /\ Alone(H, j, s) /\ ~LocksLost(H, j, s)

(* what overlapped a finished invalidation is not stored; what began later is not blocked *)
C11R(H, iso, delay) ==
  RRLike(iso) =>
    \A s \in Is(H, "save") : ReadsOf(H, s) # {} =>
      ~\E f \in Is(H, "finish") : \E j \in InvsOf(H, f) :
         /\ H[f].s # H[s].s /\ Meets(H, s, j) /\ Before(H, f, s)
         /\ BeginOf(H, s) # 0 /\ H[BeginOf(H, s)].t1 <= H[f].t0 + delay
         /\ H[s].t1 < H[f].t0 + LockTTL /\ Alone(H, j, s) /\ ~LocksLost(H, j, s)
C11bR(H, iso, delay) ==
  RRLike(iso) =>
    \A s \in Is(H, "save") : \A r \in Is(H, "read") :
      ( /\ Before(H, s, r) /\ H[r].key = H[s].key /\ BeginOf(H, s) # 0
        /\ H[r].ret # 0 /\ H[r].out # "?" /\ ~Lost(H, s, r)
        /\ ~\E o \in Is(H, "save") : o # s /\ H[o].key = H[s].key /\ ~Before(H, o, s)
        /\ ~\E o \in Is(H, "save") : o # s /\ Meets(H, o, s) /\ ~Before(H, o, s) /\ ~Before(H, s, o)   \* nobody creates the tags at the same time
        /\ \A j \in Is(H, "inv") : Meets(H, j, s) =>
             /\ BeginOf(H, j) # 0 /\ FinishOf(H, j) # 0
             /\ Before(H, FinishOf(H, j), BeginOf(H, s))
             /\ H[BeginOf(H, s)].t0 > H[FinishOf(H, j)].t1 + delay
             /\ H[FinishOf(H, j)].t0 > H[BeginOf(H, j)].t1
             /\ Alone(H, j, s) )
      => H[r].out = H[s].val

(* two writers of one tag whose finishes overlapped (see the known findings) *)
FinishesOverlap(H) ==
  \E f, g \in Is(H, "finish") :
     /\ H[f].s # H[g].s /\ ~Before(H, f, g) /\ ~Before(H, g, f)
     /\ \E j \in InvsOf(H, f), k \in InvsOf(H, g) : Meets(H, j, k)

Commits(H, t) == Cardinality({c \in Is(H, "commit") : t \in Range2(H[c].tags)})
Final(H, r) == \A i \in 1..Len(H) : H[i].op \in {"read"} \/ Before(H, i, r)
C12R(H, iso) ==
  (RRLike(iso) /\ ~FinishesOverlap(H) /\ \A x \in Is(H, "evict") : H[x].key = "tags") =>
    \A s \in Is(H, "save") : \A r \in ReadsOf(H, s) :
       (Final(H, r) /\ BeginOf(H, s) # 0 /\ H[s].data # <<>>) => \A t \in Range2(H[s].tags) : H[s].data[t] = Commits(H, t)

(* What is readable is what somebody has saved under that very key. *)
ValueR(H) ==
  \A r \in Is(H, "read") : (H[r].ret # 0 /\ H[r].out # "none") =>
     \E s \in Is(H, "save") : H[s].key = H[r].key /\ H[s].val = H[r].out /\ H[s].call < H[r].ret

(* What nobody has a reason to touch stays readable. *)
C02R(H, iso, delay) ==
  \A s \in Is(H, "save") : \A r \in Is(H, "read") :
    ( /\ Before(H, s, r) /\ H[r].key = H[s].key /\ H[r].ret # 0 /\ ~Lost(H, s, r)
      /\ ~\E o \in Is(H, "save") : o # s /\ H[o].key = H[s].key /\ ~Before(H, o, s)
      /\ ~\E o \in Is(H, "save") : o # s /\ Meets(H, o, s) /\ ~Before(H, o, s) /\ ~Before(H, s, o)
      /\ \A j \in Is(H, "inv") : Meets(H, j, s) =>
           /\ Before(H, j, s)
           /\ (BeginOf(H, j) # 0 =>
                 /\ FinishOf(H, j) # 0 /\ Before(H, FinishOf(H, j), s)
                 /\ ~RRLike(iso) /\ delay = 0) )
    => H[r].out = H[s].val

(* The delayed invalidation of the levels without locks. *)
C14R(H, iso, delay) ==
  (iso \in {"READ UNCOMMITTED", "READ COMMITTED"} /\ delay > 0) =>
    \A s \in Is(H, "save") : \A r \in ReadsOf(H, s) :
      ~\E f \in Is(H, "finish") : /\ \E j \in InvsOf(H, f) : Meets(H, s, j)
                                  /\ H[s].ret # 0 /\ H[s].t1 < H[f].t0 + delay /\ H[r].t0 > H[f].t1 + delay
=============================================================================
