------------------------------- MODULE NoCache -------------------------------
(***************************************************************************)
(* Non-cached blocks (cache_dependencies/nocache.py and the template tags  *)
(* nocache / cache_tagging nocache=1).                                     *)
(*                                                                         *)
(* A cached text is a sequence of tokens:                                  *)
(*   [t |-> "lit", s]          text (as an escaped string; escaping is     *)
(*                             character-wise, so that it commutes with    *)
(*                             concatenation); forged blocks are text      *)
(*   [t |-> "blk", data, code] an authentic block: pickled data and code   *)
(* data is a sequence of [k, v] pairs.  code is a sequence of statements:  *)
(*   say s | echo v | n (prints the next number of the serving) |          *)
(*   set v s | if v a b (echo a if v is not empty, else b) |               *)
(*   nest d code (prints a block whose pickled data are the variables d) | *)
(*   look v (echo v, or that there is no such variable: blocks and         *)
(*   servings share nothing but the data of the serving)                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == (k :> v) @@ f
RECURSIVE Load(_, _)
Load(env, pairs) == IF pairs = <<>> THEN env ELSE Load(Put(env, pairs[1].k, pairs[1].v), Tail(pairs))
Lit(s) == [t |-> "lit", s |-> s]

(* running a block: st = [out: tokens printed, env, n] *)
RECURSIVE Exec(_, _)
Exec(st, code) ==
  IF code = <<>> THEN st
  ELSE LET c == code[1]
           r == CASE c.c = "say"  -> [st EXCEPT !.out = Append(@, Lit(c.s))]
                  [] c.c = "echo" -> [st EXCEPT !.out = Append(@, Lit(st.env[c.v]))]
                  [] c.c = "n"    -> [st EXCEPT !.n = @ + 1, !.out = Append(@, Lit("N" \o ToString(st.n + 1)))]
                  [] c.c = "look" -> [st EXCEPT !.out = Append(@, Lit(IF c.v \in DOMAIN st.env THEN st.env[c.v] ELSE "unset"))]
                  [] c.c = "set"  -> [st EXCEPT !.env = Put(@, c.v, c.s)]
                  [] c.c = "if"   -> [st EXCEPT !.out = Append(@, Lit(st.env[IF st.env[c.v] # "" THEN c.a ELSE c.b]))]
                  [] c.c = "nest" -> [st EXCEPT !.out = Append(@, [t |-> "blk", code |-> c.code,
                                                                  data |-> [i \in DOMAIN c.d |-> [k |-> c.d[i], v |-> st.env[c.d[i]]]]])]
       IN Exec(r, Tail(code))

(* serving a text: what a block prints is served in the same way, with the data of the serving (and not of the block) *)
RECURSIVE Serve(_, _, _)
Serve(toks, data, n) ==          \* -> [s, n]
  IF toks = <<>> THEN [s |-> "", n |-> n]
  ELSE LET t == toks[1]
           x == IF t.t = "lit" THEN [out |-> <<>>, env |-> <<>>, n |-> n]
                ELSE Exec([out |-> <<>>, env |-> Load(Load(<<>>, data), t.data), n |-> n], t.code)
           inner == IF t.t = "lit" THEN [s |-> t.s, n |-> n] ELSE Serve(x.out, data, x.n)
           rest == Serve(Tail(toks), data, inner.n)
       IN [s |-> inner.s \o rest.s, n |-> rest.n]

(* Template fragments.  Source tokens: lit | var v (printed when the fragment is rendered) | blk with data = [k, var] pairs,
   whose values are pickled when the fragment is rendered | block output for src = the rendered tokens. *)
InitState(hdr) == [frag |-> <<>>]
Render(src, data) ==
  LET env == Load(<<>>, data)
  IN [i \in DOMAIN src |->
        CASE src[i].t = "lit" -> src[i]
          [] src[i].t = "var" -> Lit(env[src[i].v])
          [] src[i].t = "blk" -> [src[i] EXCEPT !.data = [j \in DOMAIN src[i].data |-> [k |-> src[i].data[j].k, v |-> env[src[i].data[j].v]]]]]

Do(S, e) ==
  CASE e.op = "handle" -> [st |-> S, out |-> {"=" \o Serve(e.tpl, e.data, 0).s}]
    [] e.op = "serve" ->
         LET S1 == IF e.name \in DOMAIN S.frag THEN S ELSE [S EXCEPT !.frag = Put(@, e.name, Render(e.src, e.data))]
         IN [st |-> S1, out |-> {"=" \o Serve(S1.frag[e.name], e.data, 0).s}]
    [] e.op = "inval" -> [st |-> [S EXCEPT !.frag = [k \in DOMAIN @ \ {e.name} |-> @[k]]], out |-> {}]
=============================================================================
