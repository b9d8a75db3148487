------------------------------- MODULE MCSite -------------------------------
(* Every history of at most MaxLen events over a small site.  The properties are read off the tokens: a token tells  *)
(* which leaf was evaluated and when; Own, Carry and the events say whether it may, or has to, be shown once more.    *)
EXTENDS Site, Json, TLCExt
CONSTANTS MaxLen, Mode, Iso2, ExportMod, Seed
VARIABLES st, log, prev
vars == <<st, log, prev>>
N == Len(log)
Ev == log[N].e

L(id) == [k |-> "leaf", id |-> id]
Fr(name, tags, timeout, body) == [k |-> "frag", name |-> name, tags |-> tags, timeout |-> timeout, body |-> body, nc |-> FALSE]
Blk(body) == [k |-> "blk", n |-> 1, body |-> body]
Add(t) == [k |-> "add", tags |-> <<t>>]
Prev == [k |-> "prevent"]
FA  == Fr("f0", <<"t0">>, Never, <<L("L1")>>)
FB  == Fr("f1", <<>>, 8, <<L("L2"), Blk(<<Add("t1")>>), FA>>)
FC  == Fr("f2", <<"t2">>, Never, <<FB, L("L3")>>)
FP  == Fr("f3", <<"t0">>, Never, <<FA, Blk(<<Prev>>), L("L4")>>)
FP2 == Fr("f3", <<"t0">>, Never, <<FA, L("L4")>>)
FQ  == Fr("f4", <<>>, Never, <<L("L5"), Blk(<<FP>>), FB>>)
FQ2 == Fr("f4", <<>>, Never, <<L("L5"), Blk(<<FP2>>), FB>>)
R1  == [k |-> "rec", name |-> "r0", tags |-> <<"t1">>, timeout |-> Never, body |-> <<FA, L("L9")>>]
FM  == Fr("f6", <<>>, Never, <<L("L7"), Blk(<<R1>>)>>)
FX  == Fr("f5", <<>>, Never, <<L("L6"), Add("t2"), [k |-> "ext", ev |-> [op |-> "inv", s |-> 2, al |-> 1, ver |-> "d", tags |-> <<"t2">>]]>>)

(* tags of the innermost fragment of a leaf; tags of that fragment and all that is nested in it *)
Own(id) == CASE id = "L1" -> {"t0"} [] id = "L2" -> {"t1"} [] id = "L3" -> {"t2"} [] id = "L4" -> {"t0"} [] id = "L9" -> {"t1"} [] OTHER -> {}
Carry(id) == CASE id = "L1" -> {"t0"} [] id = "L2" -> {"t0", "t1"} [] id = "L3" -> {"t0", "t1", "t2"}
               [] id = "L4" -> {"t0"} [] id \in {"L5", "L7", "L9"} -> {"t0", "t1"} [] OTHER -> {"t2"}
Prevented(body) == body \in {<<FP>>, <<FQ, FA>>, <<L("L8"), FQ>>, <<FA, FP>>}
(* the body of f3 was rendered, with the prevention in it *)
PreventedAt(i) == /\ log[i].e.op \in {"render", "page"} /\ Prevented(log[i].e.body)
                  /\ \E t \in SetOf(log[i].toks) : t.id = "L4" /\ t.n > log[i].c0
BodyTags(body) == CASE body = <<L("L8")>> -> {} [] body = <<L("L8"), FA>> -> {"t0"} [] body = <<FB, L("L8")>> -> {"t0", "t1"}
                    [] body \in {<<L("L8"), FQ2>>, <<FM, L("L8")>>} -> {"t0", "t1"} [] OTHER -> {"t0", "t1", "t2"}

Rend(body) == [op |-> "render", s |-> 1, req |-> FALSE, body |-> body]
Page(url, m, h, vary, status, maxage, body, tx) ==
  [op |-> "page", s |-> 1, al |-> 1, url |-> url, pfx |-> "", lang |-> "", method |-> m, hdrs |-> IF h = "" THEN <<>> ELSE <<[h |-> "X-A", v |-> h]>>,
   vary |-> vary, status |-> status, stream |-> FALSE, maxage |-> maxage, ptags |-> <<"t1">>, rtags |-> <<>>, timeout |-> 2400,
   anon |-> FALSE, auth |-> FALSE, txal |-> tx, body |-> body]
Inv(s, al, t) == [op |-> "inv", s |-> s, al |-> al, ver |-> "d", tags |-> <<t>>]
Tick(n) == [op |-> "tick", n |-> n]
End == [op |-> "reqend", s |-> 1, al |-> 1]
V1 == <<"X-A">>
SetK(s, al, k, t) == [op |-> "set", s |-> s, al |-> al, ver |-> "d", key |-> k, val |-> "v" \o ToString(N + 1), tags |-> <<t>>, timeout |-> Never]
GetK(s, al, k) == [op |-> "get", s |-> s, al |-> al, ver |-> "d", key |-> k, abort |-> TRUE, dflt |-> "None"]
Save(m, a, b) == [op |-> "msave", s |-> 1, model |-> m, pk |-> 1, a |-> a, b |-> b, up |-> 0]

Events ==
  CASE Mode = "frag" -> {Rend(b) : b \in {<<FA>>, <<FB, L("L8")>>, <<FC, FA>>, <<FX>>}} \cup {Inv(2, 1, t) : t \in {"t0", "t1", "t2"}}
                        \cup {Tick(4), Tick(8)}
    [] Mode = "mix"  -> {Rend(b) : b \in {<<FM>>, <<R1, L("L8")>>, <<FA, FM>>, <<R1, R1>>}} \cup {Inv(s, 1, t) : s \in {1, 2}, t \in {"t0", "t1"}}
                        \cup {Page("u0", "GET", "", <<>>, 200, -1, <<FM, L("L8")>>, 0)} \cup {End}
    [] Mode = "prev" -> {Rend(b) : b \in {<<FP>>, <<FP2>>, <<FQ, FA>>, <<FQ2>>, <<FA, FP>>}} \cup {Inv(2, 1, t) : t \in {"t0", "t1"}}
                        \cup {Page("u0", "GET", "", <<>>, 200, -1, b, 0) : b \in {<<L("L8"), FQ>>, <<L("L8"), FQ2>>}} \cup {End}
    [] Mode = "page" -> {Page(u, m, "", <<>>, 200, -1, <<L("L8")>>, 0) : u \in {"u0", "u1"}, m \in {"GET", "HEAD", "POST"}}
                        \cup {Page("u0", "GET", "", <<>>, s, x, <<L("L8")>>, 0) : s \in {200, 404}, x \in {0, 4}}
                        \cup {Inv(2, 1, t) : t \in {"t0", "t1"}} \cup {Tick(4), End}
    [] Mode = "vary" -> {Page("u0", m, h, V1, 200, -1, <<L("L8")>>, 0) : m \in {"GET", "HEAD"}, h \in {"", "a1", "a2"}}
                        \cup {Inv(2, 1, "t1"), End}
    [] Mode = "both" -> {Page("u0", "GET", h, V1, 200, -1, <<FB, L("L8")>>, 0) : h \in {"a1", "a2"}}
                        \cup {Page("u0", "HEAD", "a1", V1, 200, -1, <<FB, L("L8")>>, 0), Rend(<<FA>>), Rend(<<FB, L("L8")>>)}
                        \cup {Inv(2, 1, t) : t \in {"t0", "t1", "t2"}} \cup {End}
    [] Mode = "tx"   -> {Page("u0", "GET", "", <<>>, 200, -1, b, x) : x \in {0, 1},
                             b \in {<<[k |-> "inv", tags |-> <<"t0">>], L("L8")>>, <<[k |-> "inv", tags |-> <<"t0">>], [k |-> "boom"]>>, <<L("L8")>>}}
                        \cup {[op |-> "begin", s |-> 1, al |-> 1], [op |-> "finish", s |-> 1, al |-> 1], End, Tick(1)}
                        \cup {SetK(2, 1, "k0", "t0"), GetK(2, 1, "k0")}
    [] OTHER         -> {Save("m1", a, "t1") : a \in {"t0", "t1"}} \cup {[Save("m2", "t0", b) EXCEPT !.up = u] : b \in {"t1", "t2"}, u \in {0, 1}} \cup {Save("m3", "t0", "t1")}
                        \cup {[op |-> "mdel", s |-> 1, model |-> m, pk |-> p] : m \in {"m1", "m2"}, p \in {0, 1}}
                        \cup {[op |-> "mupd", s |-> 1, model |-> "m1", pk |-> 1, a |-> "t2", b |-> "t2"]}
                        \cup {SetK(2, al, "k0", t) : al \in {1, 2}, t \in {"t0", "t1", "t2"}}
                        \cup {[op |-> "begin", s |-> 1, al |-> 1], [op |-> "finish", s |-> 1, al |-> 1]}

Cfg == <<[iso |-> Iso2, delay |-> 0, be |-> 1], [iso |-> "READ COMMITTED", delay |-> 0, be |-> 2]>>
Regs == IF Mode # "model" THEN <<>>
        ELSE << [model |-> "m1", al |-> 1, pats |-> <<"a">>, when |-> "any"], [model |-> "m1", al |-> 2, pats |-> <<"t2">>, when |-> "new"],
                [model |-> "m2", al |-> 1, pats |-> <<"b", "t0">>, when |-> "any"], [model |-> "m2", al |-> 2, pats |-> <<"t1">>, when |-> "gone"],
                [model |-> "m1", al |-> 1, pats |-> <<>>, when |-> "old"] >>

Init == st = SiteInit(Cfg, 2, Regs) /\ log = <<>> /\ prev = SiteInit(Cfg, 2, Regs)
Next == /\ N < MaxLen
        /\ \E e \in Events :
             LET r == DoSite(st, e)
             IN /\ st' = r.st /\ prev' = st
                /\ log' = Append(log, [e |-> e, out |-> r.out, toks |-> r.toks, c0 |-> st.cnt, c1 |-> r.st.cnt, at |-> st.now])
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Shows(i) == log[i].e.op \in {"render", "page"}
Born(n) == CHOOSE i \in 1..N : log[i].c0 < n /\ n <= log[i].c1
InvAt(m, T) ==
  \/ log[m].e.op = "inv" /\ log[m].e.al = 1 /\ SetOf(log[m].e.tags) \cap T # {}
  \/ Shows(m) /\ "t2" \in T /\ \E t \in SetOf(log[m].toks) : t.id = "L6" /\ t.n > log[m].c0     \* while FX was rendered
InvBetween(j, i, T) == \E m \in (j+1)..(i-1) : InvAt(m, T)
TickBetween(j, i) == \E m \in (j+1)..(i-1) : log[m].e.op = "tick"
Toks(i) == SetOf(log[i].toks)
Inside == {"L1", "L2", "L3", "L4", "L5", "L6", "L7", "L9"}         \* leaves of fragments

(* nothing is shown after the invalidation of a tag of its fragment, nor after its timeout *)
C21 == (N > 0 /\ Shows(N)) => \A t \in Toks(N) : ~InvBetween(Born(t.n), N, Own(t.id))
C21t == (N > 0 /\ Shows(N) /\ Ev.body = <<FB, L("L8")>>) =>
          \A t \in Toks(N) : t.id = "L2" => st.now < log[Born(t.n)].at + 8
(* a record saved while its own tag was invalidated during the rendering is the later one: not stale *)
(* a leaf is not evaluated again without a reason *)
C21b == (N > 0 /\ Shows(N)) =>
  \A t \in Toks(N) : (t.id \in Inside /\ Born(t.n) = N) =>
     \A j \in 1..(N-1) : (Shows(j) /\ \E u \in Toks(j) : u.id = t.id /\ ~PreventedAt(Born(u.n))) =>
        \/ InvBetween(j, N, Carry(t.id)) \/ TickBetween(1, N)
        \/ \E m \in (j+1)..(N-1) : Shows(m) /\ \E u \in Toks(m) : u.id = t.id /\ Born(u.n) = m
(* rendered at most once in a rendering, however often it occurs *)
C21c == (N > 0 /\ Shows(N)) =>
  \A t, u \in Toks(N) : (t.id = u.id /\ t.id \in Inside /\ ~PreventedAt(N)) => t = u

(* what was rendered with prevention is never shown again *)
C22 == (N > 0 /\ Shows(N)) =>
  \A t \in Toks(N) : (t.id \in {"L4", "L5", "L8"} /\ Born(t.n) < N) => ~PreventedAt(Born(t.n))

(* pages *)
Base(i) == log[i].e
Storable(i) == Base(i).op = "page" /\ Base(i).method \in {"GET", "HEAD"} /\ Base(i).status = 200 /\ Base(i).maxage # 0
SamePage(i, j) == Base(i).url = Base(j).url /\ Base(i).hdrs = Base(j).hdrs /\ (Base(i).method = Base(j).method \/ Base(i).method = "GET")
Life(i) == IF Base(i).maxage >= 0 THEN Base(i).maxage ELSE Base(i).timeout
PageTok(i) == IF \E t \in Toks(i) : t.id = "L8" THEN CHOOSE t \in Toks(i) : t.id = "L8" ELSE [id |-> "", n |-> 0]
Fresh(i) == PageTok(i).n > log[i].c0
C24 == (N > 0 /\ Ev.op = "page" /\ PageTok(N).n > 0 /\ ~Fresh(N)) =>
         LET j == Born(PageTok(N).n)
         IN /\ Storable(j) /\ SamePage(j, N) /\ Ev.method \in {"GET", "HEAD"}
            /\ ~InvBetween(j, N, SetOf(Ev.ptags)) /\ st.now < log[j].at + Life(j)
C24b == (N > 0 /\ Ev.op = "page" /\ Ev.method \in {"GET", "HEAD"} /\ Fresh(N)) =>
          \A j \in 1..(N-1) : (Storable(j) /\ SamePage(j, N) /\ ~PreventedAt(j)) =>
             \/ InvBetween(j, N, SetOf(Ev.ptags) \cup BodyTags(Ev.body)) \/ TickBetween(j, N)
             \/ \E m \in (j+1)..(N-1) : Base(m).op = "page"     \* the list of headers may be a later one
                                         /\ (InvBetween(j, m, SetOf(Ev.ptags) \cup BodyTags(Ev.body)) \/ Base(m).maxage >= 0)
             \/ \E m \in 1..(N-1) : Base(m).op = "page" /\ PreventedAt(m)
C24c == (N > 0 /\ Ev.op = "page" /\ ~Storable(N) /\ Ev.method \notin {"GET", "HEAD"}) =>
          Fresh(N) /\ \A k \in DOMAIN prev.store : k \in DOMAIN st.store /\ st.store[k] = prev.store[k]
(* the whole page, with everything in it, is at most as old as any invalidation of a tag of anything in it *)
C25 == (N > 0 /\ Ev.op = "page" /\ PageTok(N).n > 0 /\ ~Fresh(N)) =>
         ~InvBetween(Born(PageTok(N).n), N, BodyTags(log[Born(PageTok(N).n)].e.body) \cup SetOf(Ev.ptags))

(* the middleware ends what is open, nobody else does *)
Depth(S) == S.sess[1][1].tx.d
C17 == (N > 0 /\ Ev.op = "page") => Depth(st) = IF Ev.txal = 1 THEN 0 ELSE Depth(prev)
C17b == (N > 0 /\ Ev.op = "page" /\ Ev.txal = 1 /\ log[N].out = {"raised"}) =>
          \A k \in DOMAIN st.store : Readable(st, 1, "d", k[3]) => "t0" \notin DOMAIN st.store[k].deps

(* models *)
Ups == {k \in DOMAIN prev.inst : k[2] = "m2" /\ Ev.model = "m1" /\ prev.inst[k].up = 1 /\ <<1, "m1", 1>> \in DOMAIN prev.inst}
Want(be) == IF Ev.op = "mupd" THEN {}
            ELSE IF Ev.op = "msave"
            THEN CASE Ev.model = "m1" /\ be = 1 -> {Ev.a}
                   [] Ev.model = "m1" /\ be = 2 /\ <<1, "m1", 1>> \notin DOMAIN prev.inst -> {"t2"}
                   [] Ev.model = "m2" /\ be = 1 -> {Ev.b, "t0"} [] OTHER -> {}
            ELSE UNION {LET i == prev.inst[k]
                        IN CASE k[2] = "m1" /\ be = 1 -> {i.a} [] k[2] = "m2" /\ be = 1 -> {i.b, "t0"} [] k[2] = "m2" /\ be = 2 -> {"t1"}
                             [] OTHER -> {} : k \in Ups \cup {k \in DOMAIN prev.inst : k[2] = Ev.model}}
C26 == (N > 0 /\ Ev.op \in {"msave", "mupd", "mdel"}) =>
         /\ st.store = prev.store
         /\ \A k \in DOMAIN prev.store :
              Readable(st, k[1], k[2], k[3]) <=> (Readable(prev, k[1], k[2], k[3]) /\ DOMAIN prev.store[k].deps \cap Want(k[1]) = {})
C26b == (N > 0 /\ Ev.op = "finish" /\ Depth(prev) = 1 /\ Iso2 # "READ UNCOMMITTED") =>
         \A k \in DOMAIN st.store : (k[1] = 1 /\ Readable(st, k[1], k[2], k[3])) =>
            \A m \in 1..(N-1) : ( /\ log[m].e.op = "msave" /\ log[m].e.model = "m1"
                                  /\ \A x \in m..(N-1) : log[x].e.op # "finish"
                                  /\ \E b \in 1..(m-1) : log[b].e.op = "begin" /\ \A x \in b..m : log[x].e.op # "finish" )
                                => log[m].e.a \notin DOMAIN st.store[k].deps

Exported == (ExportMod > 0 /\ N = MaxLen /\ TLCFP(<<Seed, log>>) % ExportMod = 0) =>
     PrintT("@@LOG " \o ToJson([hdr |-> [cfg |-> Cfg, nsess |-> 2, regs |-> Regs],
                                ev |-> [i \in 1..N |-> log[i].e], want |-> [i \in 1..N |-> log[i].out]]))
=============================================================================
