-------------------------------- MODULE Site --------------------------------
(***************************************************************************)
(* What django_cache_dependencies builds upon the API of CacheDeps:        *)
(* template fragments (C21, C22), cached pages (C24, C25), the transaction *)
(* middleware (C17) and handlers of models (C26).                          *)
(*                                                                         *)
(* A template is a tree of nodes (records with the field k).  Rendering    *)
(* yields tokens [id, n]: the leaf id was evaluated as the n-th one of the *)
(* whole history, so that an output tells what was rendered and when;      *)
(* n = 0 is the text of a nocache block that has not been evaluated.       *)
(***************************************************************************)
EXTENDS CacheDeps

SiteInit(cfg, nsess, regs) ==
  InitState(cfg, nsess) @@ [cnt |-> 0, regs |-> regs, inst |-> NoF]

SetOf(s) == {s[i] : i \in DOMAIN s}
SeqOf(X) == LET RECURSIVE Q(_) Q(Y) == IF Y = {} THEN <<>> ELSE LET y == CHOOSE z \in Y : TRUE IN <<y>> \o Q(Y \ {y}) IN Q(X)
RECURSIVE Text(_)
Text(toks) == IF toks = <<>> THEN ""
              ELSE (IF Head(toks).n = 0 THEN "[" \o Head(toks).id \o "]"
                    ELSE "[" \o Head(toks).id \o "." \o ToString(Head(toks).n) \o "]") \o Text(Tail(toks))

-----------------------------------------------------------------------------
(* Rendering.  R: [st, out, tags, prev, rtags, rprev, bad]                  *)
(*   tags, prev: of the fragment that is being rendered;                    *)
(*   rtags, rprev: tags and prevention collected by the request.            *)
(* x: [s, req]: the session; is the request in the context                  *)

FreshR(S, rtags) == [st |-> S, out |-> <<>>, tags |-> {}, prev |-> FALSE, rtags |-> rtags, rprev |-> FALSE, bad |-> FALSE]

Count(R, id) == [R EXCEPT !.st.cnt = @ + 1, !.out = Append(@, [id |-> id, n |-> R.st.cnt + 1])]

(* the nocache blocks of a text are evaluated in their order *)
RECURSIVE Fill(_, _)
Fill(R, toks) ==
  IF toks = <<>> THEN R
  ELSE Fill(IF Head(toks).n = 0 THEN Count(R, Head(toks).id) ELSE [R EXCEPT !.out = Append(@, Head(toks))], Tail(toks))

GetEv(x, key, abort) == [op |-> "get", s |-> x.s, al |-> 1, ver |-> "d", key |-> key, abort |-> abort, dflt |-> "None"]
SetEv(x, al, key, val, tags, timeout) ==
  [op |-> "set", s |-> x.s, al |-> al, ver |-> "d", key |-> key, val |-> val, tags |-> SeqOf(tags), timeout |-> timeout]

RECURSIVE RSeq(_, _, _), RRep(_, _, _, _), RNode(_, _, _)

RSeq(R, x, ns) == IF ns = <<>> \/ R.bad THEN R ELSE RSeq(RNode(R, x, Head(ns)), x, Tail(ns))
RRep(R, x, ns, n) == IF n = 0 THEN R ELSE RRep(RSeq(R, x, ns), x, ns, n - 1)

Fragment(R, x, nd) ==
  LET S0  == R.st
      hit == Readable(S0, Be(S0, 1), "d", nd.name)
      S1  == OpGet(S0, GetEv(x, nd.name, FALSE)).st
  IN IF hit THEN [R EXCEPT !.st = S1, !.out = S0.store[<<Be(S0, 1), "d", nd.name>>].val]
     ELSE LET r    == RSeq([R EXCEPT !.st = S1, !.out = <<>>, !.tags = SetOf(nd.tags), !.prev = FALSE], x, nd.body)
              prev == R.prev \/ r.prev
          IN IF r.bad THEN r
             ELSE [r EXCEPT !.tags = R.tags, !.prev = prev,
                            !.rtags = IF x.req THEN @ \cup r.tags ELSE @,
                            !.rprev = @ \/ (x.req /\ prev),
                            !.st = IF r.prev THEN OpAbort(@, [s |-> x.s, al |-> 1, key |-> nd.name]).st
                                   ELSE OpSet(@, SetEv(x, 1, nd.name, r.out, r.tags, nd.timeout)).st]

RNode(R, x, nd) ==
  CASE nd.k = "leaf"    -> Count(R, nd.id)
    [] nd.k = "nc"      -> [R EXCEPT !.out = Append(@, [id |-> nd.id, n |-> 0])]
    [] nd.k = "add"     -> [R EXCEPT !.tags = @ \cup SetOf(nd.tags)]
    [] nd.k = "prevent" -> [R EXCEPT !.prev = TRUE]
    [] nd.k = "blk"     -> RRep(R, x, nd.body, nd.n)
    [] nd.k = "pprev"   -> [R EXCEPT !.rprev = TRUE]
    [] nd.k = "boom"    -> [R EXCEPT !.bad = TRUE]
    [] nd.k = "inv"     -> [R EXCEPT !.st = OpInv(@, [s |-> x.s, al |-> 1, ver |-> "d", tags |-> nd.tags]).st]
    [] nd.k = "ext"     -> [R EXCEPT !.st = Do(@, nd.ev).st]           \* another session, at this very moment
    [] nd.k = "look"    ->                                               \* a read that does not build
         LET S == R.st IN
         IF Readable(S, Be(S, 1), "d", nd.name)
         THEN [R EXCEPT !.st = OpGet(S, GetEv(x, nd.name, TRUE)).st, !.out = @ \o S.store[<<Be(S, 1), "d", nd.name>>].val]
         ELSE [R EXCEPT !.st = OpGet(S, GetEv(x, nd.name, TRUE)).st]
    [] nd.k = "rec"     ->                                               \* get-or-compute of a rendered body
         LET S   == R.st
             hit == Readable(S, Be(S, 1), "d", nd.name)
             S1  == OpGet(S, GetEv(x, nd.name, FALSE)).st
         IN IF hit THEN [R EXCEPT !.st = S1, !.out = @ \o S.store[<<Be(S, 1), "d", nd.name>>].val]
            ELSE LET r == RSeq([R EXCEPT !.st = S1, !.out = <<>>], x, nd.body)
                 IN IF r.bad THEN r
                    ELSE [r EXCEPT !.out = R.out \o @, !.st = OpSet(@, SetEv(x, 1, nd.name, r.out, SetOf(nd.tags), nd.timeout)).st]
    [] nd.k = "frag"    ->
         LET r == Fragment(R, x, nd)
         IN IF r.bad THEN r
            ELSE IF nd.nc THEN Fill([r EXCEPT !.out = R.out], r.out)
            ELSE [r EXCEPT !.out = R.out \o @]

OpRender(S, e) ==
  LET r == RSeq(FreshR(S, {}), [s |-> e.s, req |-> e.req], e.body)
  IN [st |-> r.st, out |-> {IF r.bad THEN "raised" ELSE "=" \o Text(r.out)}, toks |-> r.out]

-----------------------------------------------------------------------------
(* Pages: a record of the headers a URL varies on, and a record of every variant. *)

(* lang: the language of the request; "" in a site that has no translations *)
HKey(e) == "H:" \o e.pfx \o ":" \o e.url \o ":" \o e.lang
Varies(e) == SelectSeq(e.vary, LAMBDA h : e.lang = "" \/ h # "Accept-Language")
RECURSIVE Vals(_, _)
Vals(req, hs) ==     \* values of the given headers that the request has
  IF hs = <<>> THEN ""
  ELSE (IF \E i \in DOMAIN req : req[i].h = Head(hs)
        THEN (CHOOSE v \in {req[i].v : i \in {j \in DOMAIN req : req[j].h = Head(hs)}} : TRUE) \o "," ELSE "") \o Vals(req, Tail(hs))
PKey(e, method, hs) == "P:" \o method \o ":" \o e.pfx \o ":" \o e.url \o ":" \o e.lang \o ":" \o Vals(e.hdrs, hs)

PGet(S, e, key) ==   \* [st, hit, val]
  LET be == Be(S, e.al) hit == Readable(S, be, "d", key)
  IN [st  |-> OpGet(S, [GetEv([s |-> e.s], key, FALSE) EXCEPT !.al = e.al]).st,
      hit |-> hit, val |-> IF hit THEN S.store[<<be, "d", key>>].val ELSE <<>>]

(* fetch: [st, hit, val, upd (may the response be stored)] *)
Fetch(S, e) ==
  IF e.method \notin {"GET", "HEAD"} THEN [st |-> S, hit |-> FALSE, val |-> <<>>, upd |-> FALSE]
  ELSE LET h == PGet(S, e, HKey(e))
       IN IF ~h.hit THEN [st |-> h.st, hit |-> FALSE, val |-> <<>>, upd |-> TRUE]
          ELSE LET p == PGet(h.st, e, PKey(e, "GET", h.val))
               IN IF p.hit \/ e.method = "GET" THEN [st |-> p.st, hit |-> p.hit, val |-> p.val, upd |-> TRUE]
                  ELSE LET q == PGet(p.st, e, PKey(e, "HEAD", h.val))
                       IN [st |-> q.st, hit |-> q.hit, val |-> q.val, upd |-> TRUE]

Store(R, e, node) ==
  LET timeout == IF e.maxage >= 0 THEN e.maxage ELSE e.timeout
      S   == R.st
      own == SetOf(e.ptags) \cup R.rtags
      S1  == OpSet(S, SetEv(e, e.al, HKey(e), Varies(e), own, timeout)).st
      nd  == IF node = 0 THEN {} ELSE NodeDeps(S1.sess[e.s][e.al].tree.nodes[node], "d")
  IN OpSet(S1, SetEv(e, e.al, PKey(e, e.method, Varies(e)), R.out, own \cup nd, timeout)).st

OpPage1(S, e) ==
  LET f == Fetch(S, e)
  IN IF f.hit THEN [st |-> f.st, out |-> {"=" \o Text(f.val), "200"}, toks |-> f.val]
     ELSE LET node == f.st.sess[e.s][e.al].tree.cur
              r == RSeq(FreshR(f.st, SetOf(e.rtags)), [s |-> e.s, req |-> TRUE], e.body)
              timeout == IF e.maxage >= 0 THEN e.maxage ELSE e.timeout
              stored == f.upd /\ ~r.rprev /\ ~e.stream /\ e.status = 200 /\ timeout # 0 /\ ~(e.anon /\ e.auth)
          IN IF r.bad THEN [st |-> r.st, out |-> {"raised"}, toks |-> <<>>]
             ELSE [st  |-> IF stored THEN Store(r, e, node) ELSE r.st,
                   out |-> {"=" \o Text(r.out), ToString(e.status)}, toks |-> r.out]

TxEv(e) == [s |-> e.s, al |-> e.txal]
OpPage(S, e) ==
  LET S1 == IF e.txal = 0 THEN S ELSE OpTxBegin(S, TxEv(e)).st
      r  == OpPage1(S1, e)
  IN [st |-> IF e.txal = 0 THEN r.st ELSE OpTxFlush(r.st, TxEv(e)).st, out |-> r.out, toks |-> r.toks]

-----------------------------------------------------------------------------
(* Models: registrations [model, al, pats, when]; a pattern names a field (a, b) of the instance or is a tag itself;  *)
(* a handler may look at the arguments of the signal and answer for new, changed or deleted instances only.          *)

RegTags(reg, inst) == {CASE reg.pats[i] = "a" -> inst.a [] reg.pats[i] = "b" -> inst.b [] OTHER -> reg.pats[i] : i \in DOMAIN reg.pats}

RECURSIVE Notify(_, _, _, _, _, _)
Notify(S, s, model, inst, kind, regs) ==
  IF regs = <<>> THEN S
  ELSE Notify(IF Head(regs).model = model /\ Head(regs).when \in {"any", kind}
              THEN OpInv(S, [s |-> s, al |-> Head(regs).al, ver |-> "d", tags |-> SeqOf(RegTags(Head(regs), inst))]).st ELSE S,
              s, model, inst, kind, Tail(regs))

InstKey(e) == <<e.s, e.model, e.pk>>     \* every session has a database of its own
OpModelSave(S, e) ==
  LET inst == [a |-> e.a, b |-> e.b, up |-> e.up]
      kind == IF InstKey(e) \in DOMAIN S.inst THEN "old" ELSE "new"
  IN [st |-> Notify([S EXCEPT !.inst = Put(@, InstKey(e), inst)], e.s, e.model, inst, kind, S.regs), out |-> {"ok"}, toks |-> <<>>]
OpModelUpdate(S, e) ==   \* a bulk update sends no signals
  [st |-> IF InstKey(e) \in DOMAIN S.inst THEN [S EXCEPT !.inst[InstKey(e)].a = e.a, !.inst[InstKey(e)].b = e.b] ELSE S,
   out |-> {"ok"}, toks |-> <<>>]
(* One instance, or all of the model (pk = 0); instances of m2 are deleted with the instance of m1 they belong to. *)
Chosen(S, e) == {k \in DOMAIN S.inst : k[1] = e.s /\ k[2] = e.model /\ e.pk \in {0, k[3]}}
Gone(S, e) == Chosen(S, e) \cup {k \in DOMAIN S.inst : k[1] = e.s /\ k[2] = "m2" /\ e.model = "m1" /\
                                                   <<e.s, "m1", S.inst[k].up>> \in Chosen(S, e)}
RECURSIVE NotifyGone(_, _)
NotifyGone(S, ks) == IF ks = <<>> THEN S
                     ELSE NotifyGone(Notify(S, Head(ks)[1], Head(ks)[2], S.inst[Head(ks)], "gone", S.regs), Tail(ks))
OpModelDelete(S, e) ==
  LET gone == Gone(S, e)
  IN [st |-> [NotifyGone(S, SeqOf(gone)) EXCEPT !.inst = Del(@, gone)], out |-> {"ok"}, toks |-> <<>>]

-----------------------------------------------------------------------------
DoSite(S, e) ==
  CASE e.op = "render" -> OpRender(S, e)
    [] e.op = "page"   -> OpPage(S, e)
    [] e.op = "msave"  -> OpModelSave(S, e)
    [] e.op = "mupd"   -> OpModelUpdate(S, e)
    [] e.op = "mdel"   -> OpModelDelete(S, e)
    [] OTHER           -> LET r == Do(S, e) IN [st |-> r.st, out |-> {r.out}, toks |-> <<>>]
=============================================================================
