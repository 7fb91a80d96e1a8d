------------------------------ MODULE MC_Make -------------------------------
(***************************************************************************)
(* Bounded models of how records come to be: construction from keywords    *)
(* and from a positional argument, parsing, imports, the hook, and what is *)
(* reported when it fails (C01, C02, C03, C21, C22, C24).                  *)
(***************************************************************************)
EXTENDS Machine

one == Atom("int:1")
five == Atom("int:5")
sa == Atom("str:a")
s12 == Atom("str:12")
OutOf(St, op) == TLCEval(Step(St, op).r)
HasC(St, c) == c \in DOMAIN St.E
SameObj(a, b) == SameShape(a, b) /\ a.i = b.i
(* the same outcome: equal results, or the same kinds of error *)
SameEnd(a, b) == a.o = b.o /\ (a.o = "ok" => SameShape(a.v, b.v)) /\ (a.o = "err" => a.x = b.x /\ a.fl = b.fl)
NotOpen(rs) == \A j \in DOMAIN rs : rs[j].o # "unk"
FldOf(d, n) == d.own[CHOOSE j \in DOMAIN d.own : d.own[j].n = n]
NamesOf(d) == {d.own[j].n : j \in DOMAIN d.own}
ReqOf(d) == {d.own[j].n : j \in {k \in DOMAIN d.own : d.own[k].d = "none"}}
KwNames(kw) == {kw[j][1] : j \in DOMAIN kw}
KwOf(kw, n) == kw[CHOOSE j \in DOMAIN kw : kw[j][1] = n][2]
(* a class with one field of class A alone, which is then required *)
Alone(d, n) == Def([Class("S" \o n, <<[FldOf(d, n) EXCEPT !.d = "none", !.dv = NoneV, !.final = FALSE]>>) EXCEPT !.style = d.style])
WithAlone(d) == <<Def(d)>> \o [j \in DOMAIN d.own |-> Alone(d, d.own[j].n)]
SoloR(St, n, v) == OutOf(St, NewK("S" \o n, n, v))
CountCalls(r, f, p) == Cardinality({j \in DOMAIN r.c : r.c[j].f = f /\ r.c[j].p = p})

(***************************************************************************)
(* C01                                                                     *)
(***************************************************************************)
FKinds(n) ==
  << Fd(n, Cls("int")), FdV(n, Cls("int"), sa), FdF(n, Cls("list"), LV(-1, <<one>>)), Fd(n, CkC("int")), FdV(n, CkC("int"), sa),
     FdF(n, W(CkC("int"), <<CallVa("inc", "v")>>), LV(-1, <<>>)), Fd(n, W(CkC("int"), <<CallCo("to_int", "c")>>)),
     FdV(n, W(CkC("int"), <<CallVa("inc", "v")>>), five), FdV(n, Cls("list"), LV(40, <<one>>)) >>
C01Setups(x) ==
     Prod2(FKinds("xa"), FKinds("yb"), LAMBDA a, b : WithAlone(Class("A", <<a, b>>)))
  \o (IF Big THEN Prod3(FKinds("yb"), FKinds("xa"), FKinds("aa"), LAMBDA a, b, c : WithAlone(Class("A", <<a, b, c>>)))
      ELSE Every(Prod3(FKinds("yb"), FKinds("xa"), FKinds("aa"), LAMBDA a, b, c : WithAlone(Class("A", <<a, b, c>>))), 37))
C01V == <<one, sa, s12>>
Opt(n) == << <<>> >> \o Map1(C01V, LAMBDA v : << <<n, v>> >>)
Kws2 == Prod2(Opt("xa"), Opt("yb"), LAMBDA a, b : a \o b)
Rev(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
C01Kws == Kws2 \o Map1(SelectSeq(Kws2, LAMBDA k : Len(k) = 2), Rev)
          \o Map1(Every(Kws2, 3), LAMBDA k : k \o << <<"zc", one>> >>) \o << << <<"zc", one>>, <<"xa", one>>, <<"yb", one>> >>,
              << <<"aa", s12>>, <<"xa", one>>, <<"yb", one>> >>, << <<"yb", s12>>, <<"aa", one>>, <<"xa", one>> >> >>
C01Probes(St) == IF HasC(St, "A") THEN Map1(C01Kws, LAMBDA k : NewOp("A", <<>>, k, "")) ELSE <<>>
C01Law(h, St, op, X) ==
  LET d == h[1].d
      given == KwNames(op.kw)
      known == given \cap NamesOf(d)
      solo == TLCEval([n \in known |-> SoloR(St, n, KwOf(op.kw, n))])
      fits == ReqOf(d) \subseteq given /\ given \subseteq NamesOf(d)
      r == X.r
  IN IF \E n \in known : solo[n].o = "unk" THEN TRUE
     ELSE IF fits /\ \A n \in known : solo[n].o = "ok" THEN
        /\ r.o = "ok" /\ r.v.k = "rec" /\ r.v.s = "A" /\ r.v.i = -1
        /\ {r.v.e[j].s : j \in DOMAIN r.v.e} = NamesOf(d)
        /\ \A n \in NamesOf(d) :
             LET got == GetFld(r.v, n)
                 f == FldOf(d, n)
             IN IF n \in given THEN LET w == GetFld(solo[n].v, n) IN SameShape(got, w) /\ (w.i > 0 => got.i = w.i)
                ELSE IF f.d = "val" THEN SameObj(got, f.dv) ELSE SameShape(got, f.dv) /\ got.i <= 0
        /\ \A n \in NamesOf(d) : CountCalls(r, "A." \o n, "fac") = IF n \notin given /\ FldOf(d, n).d = "fac" THEN 1 ELSE 0
     ELSE /\ r.o = "err"
          /\ \A n \in known : CountCalls(r, "A." \o n, "fac") = 0
          /\ (~fits /\ \A n \in known : solo[n].o = "ok") => r.x = {"TypeError"} /\ r.fl = {}

(***************************************************************************)
(* C02                                                                     *)
(***************************************************************************)
FieldSets ==
  << <<FdV("xa", CkC("int"), five)>>, <<Fd("xa", CkC("int"))>>, <<Fd("xa", Cls("object"))>>, <<FdV("yb", CkC("int"), sa), Fd("xa", CkC("str"))>>,
     <<Fd("xa", CkC("int")), Fd("yb", CkC("int"))>>, <<Fd("xa", Ck(It("list", Cls("int")))), FdF("yb", Cls("list"), LV(-1, <<>>))>> >>
ParserSets ==
  << <<>>, <<PsrWhen("p1", one, five)>>, <<PsrFn("p1", "raise_value")>>, <<PsrFn("p1", "to_int")>>, <<PsrWhen("p1", sa, Atom("int:0")), PsrFn("p2", "raise_key")>>,
     <<[PsrFn("p1", "ident") EXCEPT !.marked = FALSE]>> >>
Posts == << PostOf("none"), PostRaise("ValueError"), PostRep(Atom("bool:False")) >>
C02Setups(x) ==
  LET all == Prod3(FieldSets, Pairs(<<"none", "yes", "no">>, Posts), ParserSets,
                   LAMBDA f, u, p : <<Def([Class("A", f) EXCEPT !.unary = u[1], !.post = u[2], !.parsers = p])>>)
  IN IF Big THEN all ELSE Every(all, 2)
C02Vals == As(<<"int:1", "str:a", "None", "str:12", "str:{\"xa\": 1}", "str:{\"yb\": 2, \"xa\": 1}">>) \o
  << DV(24, << <<StrV("xa"), one>> >>), DV(25, << <<StrV("xa"), one>>, <<StrV("yb"), five>> >>), DV(26, << <<StrV("q"), one>> >>),
     NV(27, << <<"xa", one>>, <<"yb", five>> >>), NV(28, << <<"xa", sa>> >>), LV(29, <<one>>) >>
C02Probes(St) ==
  IF ~HasC(St, "A") THEN <<>>
  ELSE Map1(C02Vals, LAMBDA v : NewOp("A", <<v>>, <<>>, "")) \o
       Prod2(As(<<"int:1", "str:a">>), << << <<"yb", one>> >>, << <<"xa", one>> >>, << <<"q", one>> >> >>, LAMBDA v, k : NewOp("A", <<v>>, k, ""))
C02Law(h, St, op, X) ==
  LET d == h[1].d
      v == op.pos[1]
      req == ReqOf(d)
      triv == Cardinality(req) = 1
      t == CHOOSE n \in req : TRUE
      unary == op.kw = <<>> /\ (d.unary = "yes" \/ (d.unary = "none" /\ ~triv))
      m == OutOf(St, NewOp("A", <<>>, op.kw \o << <<t, v>> >>, ""))
      p == OutOf(St, ParseOp("A", v))
      good(r) == r.o = "ok"
  IN IF ~triv /\ ~unary THEN X.r.o = "err" /\ X.r.x = {"TypeError"}
     ELSE IF triv /\ ~unary THEN IF t \in KwNames(op.kw) THEN X.r.o = "err" /\ "TypeError" \in X.r.x ELSE SameEnd(X.r, m)
     ELSE IF ~triv THEN (p.o = "ok" /\ IsNone(p.v)) \/ SameEnd(X.r, p)
     ELSE IF p.o = "unk" \/ m.o = "unk" \/ (p.o = "ok" /\ IsNone(p.v)) THEN TRUE
     ELSE IF good(p) /\ good(m) THEN X.r.o = "err" /\ X.r.x \subseteq {"TypeError", "TypeError!"}
     ELSE IF good(p) THEN good(X.r) /\ SameShape(X.r.v, p.v)
     ELSE IF good(m) /\ p.x = {"ParseFailure"} THEN good(X.r) /\ SameShape(X.r.v, m.v)
     ELSE X.r.o = "err"

(***************************************************************************)
(* C03                                                                     *)
(***************************************************************************)
Psrs(n) == << PsrWhen(n, one, five), PsrWhen(n, one, sa), PsrWhen(n, sa, Atom("None")), PsrFn(n, "to_int"), PsrFn(n, "raise_value"), PsrFn(n, "ident"),
              [Psr(n, "newf") EXCEPT !.g = "xa"], [PsrFn(n, "ident") EXCEPT !.marked = FALSE], PsrFn(n, "raise_lookup") >>
Over == << <<>>, <<PsrFn("from_mapping", "raise_value")>>, <<[PsrFn("from_instance", "ident") EXCEPT !.marked = FALSE]>>,
           <<PsrWhen("from_json", sa, five)>>, <<[PsrFn("from_json", "ident") EXCEPT !.marked = FALSE], PsrFn("from_mapping", "c_int5")>> >>
Renamed(p) == [p EXCEPT !.n = CASE p.n = "p1" -> "z9" [] p.n = "p2" -> "a0" [] OTHER -> p.n]
C03Setups(x) ==
  LET mk(f, ps) == << Def([Class("A", f) EXCEPT !.parsers = ps]), Def([Class("B", f) EXCEPT !.parsers = Map1(Rev(ps), Renamed)]),
                      Def([Class("C", <<>>) EXCEPT !.bases = <<"A">>]) >>
      two == Prod2(Psrs("p1"), Psrs("p2"), LAMBDA a, b : <<a, b>>)
      fs == << <<Fd("xa", CkC("int"))>>, <<FdV("xa", CkC("int"), five), FdV("yb", Cls("object"), five)>> >>
      all == Prod3(fs, two, Over, LAMBDA f, t, o : mk(f, t \o o))
  IN IF Big THEN all ELSE Every(all, 5)
C03Probes(St) == IF ~HasC(St, "C") THEN <<>> ELSE Map1(C02Vals, LAMBDA v : ParseOp("A", v)) \o Map1(Every(C02Vals, 2), LAMBDA v : ParseOp("C", v))
C03Law(h, St, op, X) ==
  LET d == h[1].d
      v == op.v
      over(n) == \E j \in DOMAIN d.parsers : d.parsers[j].n = n
      builtin(n) == IF over(n) THEN <<>> ELSE <<OutOf(St, Imp(op.c, n, <<v>>, <<>>, <<>>))>>
      user(p) == CASE p.k = "fn" -> LET r == CallFn(p.g, v) IN [o |-> r.o, v |-> r.v]
                   [] p.k = "when" -> [o |-> IF PyEq(v, p.v1) THEN "ok" ELSE "err", v |-> p.v2]
                   [] OTHER -> LET r == OutOf(St, NewK(op.c, p.g, v)) IN [o |-> r.o, v |-> r.v]
      rs == Map1(builtin("from_mapping") \o builtin("from_instance") \o builtin("from_json"), LAMBDA r : [o |-> r.o, v |-> r.v])
            \o Map1(SelectSeq(d.parsers, LAMBDA p : p.marked), user)
      ok == {j \in DOMAIN rs : rs[j].o = "ok"}
      b == OutOf(St, ParseOp("B", v))
  IN /\ (op.c = "A" /\ X.r.o # "unk" /\ b.o # "unk") => X.r.o = b.o /\ X.r.x = b.x /\ ((X.r.o = "ok" /\ X.r.v.k # "rec") => SameShape(X.r.v, b.v))
     /\ IF Cardinality(ok) > 1 THEN X.r.o = "err" /\ X.r.x = {"TypeError!"}
        ELSE IF ~NotOpen(rs) THEN TRUE
        ELSE IF ok = {} THEN X.r.o = "err" /\ X.r.x = {"ParseFailure"}
        ELSE X.r.o = "ok" /\ SameShape(X.r.v, rs[CHOOSE j \in ok : TRUE].v)

(***************************************************************************)
(* C21                                                                     *)
(***************************************************************************)
KV(n, v) == <<StrV(n), v>>
(* mappings over the keys: absent, or one of two values *)
Ents(n, a, b) == << <<>>, <<KV(n, a)>>, <<KV(n, b)>> >>
Maps0 == Prod3(Ents("xa", one, five), Ents("yb", Atom("int:2"), sa), << <<>>, <<KV("q", one)>> >>, LAMBDA a, b, c : a \o b \o c)
MapAt(i, m) == DV(i, m)
C21Sets == << <<Fd("xa", CkC("int")), FdV("yb", CkC("int"), sa)>>, <<Fd("xa", CkC("int")), Fd("yb", Cls("object"))>>,
              <<FdV("xa", Cls("object"), one), FdF("yb", Cls("object"), LV(-1, <<>>))>>, <<FdV("xa", CkC("int"), five), Fd("yb", CkC("int")), FdV("q", Cls("object"), one)>> >>
Sels == << [EmptySel EXCEPT !.rm = <<"q">>], [EmptySel EXCEPT !.mrm = <<"q">>], [EmptySel EXCEPT !.mrn = << <<"q", "yb">> >>],
           [EmptySel EXCEPT !.rn = << <<"q", "xa">> >>], [EmptySel EXCEPT !.ad = << <<"yb", five>> >>], [EmptySel EXCEPT !.mad = << <<"xa", five>>, <<"yb", sa>> >>] >>
C21Setups(x) ==
  Prod2(C21Sets, Sels, LAMBDA f, s : << Def(Class("A", f)), Qdef("q1", s) >>) \o Map1(C21Sets, LAMBDA f : << Def([Class("A", f) EXCEPT !.frozen = TRUE]) >>)
C21Kws == << <<>>, << <<"xa", five>> >>, << <<"yb", Atom("int:2")>>, <<"q", one>> >>, << <<"q", sa>> >> >>
C21Objs == Map1(Maps0, LAMBDA m : NV(50, Map1(m, LAMBDA e : <<SubSeq(e[1].s, 5, Len(e[1].s)), e[2]>>)))
C21Chain(St) == IF "q1" \in DOMAIN St.Q THEN <<ChSel(<<"q1">>)>> ELSE <<>>
C21Probes(St) ==
  IF ~HasC(St, "A") THEN <<>>
  ELSE LET ch == C21Chain(St)
           n == IF Big THEN 1 ELSE 3
           ms == Every(Maps0, n)
       IN Map1(Maps0, LAMBDA m : Imp("A", "from_mapping", <<MapAt(50, m)>>, <<>>, ch))
       \o Prod3(ms, ms, Every(C21Kws, n), LAMBDA a, b, k : Imp("A", "from_mapping", <<MapAt(50, a), MapAt(51, b)>>, k, ch))
       \o Map1(C21Kws, LAMBDA k : Imp("A", "from_mapping", <<>>, k, ch))
       \o Prod3(C21Objs, << <<>>, <<MapAt(51, <<KV("xa", five)>>)>>, <<MapAt(51, <<KV("yb", five), KV("q", one)>>), MapAt(52, <<KV("yb", one)>>)>> >>,
                Every(C21Kws, n), LAMBDA o, m, k : Imp("A", "from_instance", <<o>> \o m, k, ch))
MKeys(m) == {m[j].e[1].s : j \in DOMAIN m}
MAt(m, k) == m[CHOOSE j \in DOMAIN m : m[j].e[1].s = k].e[2]
(* layers: sequences of pairs, the first that has a key counts *)
Layered(ls) ==
  LET ks == SeqOfSet(UNION {MKeys(ls[j]) : j \in DOMAIN ls})
      at(k) == MAt(ls[CHOOSE j \in DOMAIN ls : k \in MKeys(ls[j]) /\ \A m \in 1..(j - 1) : k \notin MKeys(ls[m])], k)
  IN [j \in DOMAIN ks |-> PairV(StrV(SubSeq(ks[j], 5, Len(ks[j]))), at(ks[j]))]
C21Law(h, St, op, X) ==
  LET d == h[1].d
      q == IF "q1" \in DOMAIN St.Q THEN St.Q["q1"] ELSE EmptySel
      kw == [j \in DOMAIN op.kw |-> PairV(StrV(op.kw[j][1]), op.kw[j][2])]
      maps == IF op.how = "from_mapping" THEN [j \in DOMAIN op.args |-> op.args[j].e] ELSE [j \in 1..(Len(op.args) - 1) |-> op.args[j + 1].e]
      obj == op.args[1]
      \* what is taken from the object
      renamed == {q.rn[j][1] : j \in DOMAIN q.rn} \cup {q.mrn[j][1] : j \in DOMAIN q.mrn}
      want == (NamesOf(d) \cup Rng(q.rm) \cup renamed) \ {q.ad[j][1] : j \in DOMAIN q.ad}
      isdef(n) == n \in NamesOf(d) \ renamed /\ FldOf(d, n).d = "val" /\ PyEq(FldOf(d, n).dv, GetFld(obj, n))
      have == {n \in want : HasFld(obj, n) /\ ~isdef(n)}
      free == (NamesOf(d) \ ReqOf(d)) \cup {q.rn[j][2] : j \in DOMAIN q.rn} \cup {q.mrn[j][2] : j \in DOMAIN q.mrn} \cup {q.mrn[j][1] : j \in DOMAIN q.mrn}
      lost == {n \in want : ~HasFld(obj, n)} \ free
      hs == SeqOfSet(have)
      base == [j \in DOMAIN hs |-> PairV(StrV(hs[j]), GetFld(obj, hs[j]))]
      m == IF op.how = "from_mapping" THEN Layered(maps \o <<kw>>) ELSE Layered(<<kw>> \o Rev(maps) \o <<base>>)
      s == OutOf(St, IF op.chain = <<>> THEN Let("", Val("dict", "", 0, m, 0)) ELSE ApplyOp("q1", Val("dict", "", 0, m, 0)))
      k == OutOf(St, NewOp("A", <<>>, [j \in DOMAIN s.v.e |-> <<SubSeq(s.v.e[j].e[1].s, 5, Len(s.v.e[j].e[1].s)), s.v.e[j].e[2]>>], ""))
  IN IF op.how = "from_instance" /\ lost # {} THEN X.r.o = "err" /\ X.r.x = {"AttributeError"}
     ELSE IF s.o = "err" THEN X.r.o = "err" /\ X.r.x = s.x
     ELSE SameEnd(X.r, k)

(***************************************************************************)
(* C22                                                                     *)
(***************************************************************************)
Hooks == << PostOf("noop"), PostOf("self"), PostOf("look"), PostSet("xa", Atom("int:7")), PostSet("yb", LV(-1, <<one>>)), PostRaise("ValueError"), PostRaise("KeyError"),
            PostRaise("PickyError"), PostRep(NoneV), PostRep(Atom("int:0")), PostRep(Atom("str:")), PostRep(LV(-1, <<>>)), PostRep(sa) >>
When(p, f, v) == [p EXCEPT !.cf = f, !.cv = v]
C22Fields == << <<Fd("xa", W(CkC("int"), <<CallCo("to_int", "c")>>))>>, <<Fd("xa", W(CkC("int"), <<CallVa("inc", "v")>>)), FdV("yb", Cls("object"), sa)>>,
                <<FdV("xa", CkC("int"), sa), FdF("yb", Cls("list"), LV(-1, <<>>))>> >>
C22Setups(x) ==
  Prod3(C22Fields, Hooks \o (IF Big THEN Map1(Hooks, LAMBDA p : When(p, "xa", five)) ELSE <<When(Hooks[6], "xa", five), When(Hooks[4], "xa", five), When(Hooks[10], "xa", five)>>),
        << <<FALSE, TRUE>>, <<TRUE, TRUE>>, <<FALSE, FALSE>> >>,
        LAMBDA f, p, fr : << Def([Class("A", f) EXCEPT !.post = p, !.frozen = fr[1], !.truth = fr[2], !.unary = "no"]),
                             Def([Class("N", f) EXCEPT !.post = PostOf("none"), !.frozen = fr[1], !.unary = "no"]),
                             Def([Class("C", <<FdV("zc", Cls("int"), one)>>) EXCEPT !.bases = <<"A">>, !.unary = "no"]) >>)
C22Kws == << <<>>, << <<"xa", one>> >>, << <<"xa", five>> >>, << <<"xa", sa>> >>, << <<"xa", s12>>, <<"yb", one>> >>, << <<"xa", five>>, <<"yb", sa>> >>, << <<"q", one>> >> >>
C22Probes(St) == IF ~HasC(St, "C") THEN <<>>
  ELSE Prod2(<<"A", "C">>, C22Kws, LAMBDA c, k : NewOp(c, <<>>, k, "")) \o Map1(C22Kws, LAMBDA k : Imp("A", "from_mapping", <<>>, k, <<>>))
       \o <<NewOp("A", <<five>>, <<>>, ""), Imp("A", "from_instance", <<NV(60, << <<"xa", five>> >>)>>, <<>>, <<>>)>>
C22Law(h, St, op, X) ==
  LET d == h[1].d
      p == d.post
      c == op.c
      n0 == OutOf(St, [op EXCEPT !.c = "N"])
      n == IF c = "A" THEN n0 ELSE n0        \* C adds only a default
      posts == {j \in DOMAIN X.r.c : X.r.c[j].p = "post"}
      frozen == IF c = "A" THEN d.frozen ELSE FALSE
      runs == p.cf = "" \/ PyEq(GetFld(n.v, p.cf), p.cv)
      seen == X.r.c[Len(X.r.c)].v
      got == X.r.v
      keeps(except) == \A j \in DOMAIN n.v.e : n.v.e[j].s = except \/ SameShape(GetFld(got, n.v.e[j].s), n.v.e[j].e[1])
  IN IF n.o = "unk" \/ X.r.o = "unk" THEN TRUE
     ELSE IF n.o = "err" THEN X.r.o = "err" /\ posts = {}
     ELSE /\ posts = {Len(X.r.c)}
          /\ \A j \in DOMAIN n.v.e : SameShape(GetFld(seen, n.v.e[j].s), n.v.e[j].e[1])
          /\ IF runs /\ p.k = "raise" THEN X.r.o = "err" /\ X.r.x = {p.f}
             ELSE IF runs /\ p.k = "set" /\ frozen THEN X.r.o = "err" /\ X.r.x = {"TypeError"}
             ELSE /\ X.r.o = "ok"
                  /\ IF runs /\ p.k = "rep" /\ ~IsNone(p.v) THEN SameShape(got, p.v)
                     ELSE IF runs /\ p.k = "set" /\ HasFld(n.v, p.f) THEN got.s = c /\ keeps(p.f) /\ SameShape(GetFld(got, p.f), p.v)
                     ELSE got.s = c /\ keeps("")

(***************************************************************************)
(* C24                                                                     *)
(***************************************************************************)
Faulty(n) ==
  << Fd(n, CkC("int")), Fd(n, W(CkC("int"), <<CallCo("raise_key", "")>>)), Fd(n, W(Cls("int"), <<CallVa("raise_picky", "")>>)),
     Fd(n, W(CkC("int"), <<CallCo("raise_unicode", ""), CallCo("raise_lookup", "")>>)), Fd(n, Ck(Un(<<Cls("int"), Cls("bool")>>))),
     Fd(n, Ck(Lit(<<one>>))), Fd(n, Cls("object")), FdV(n, W(Cls("object"), <<CallVa("raise_zero", "")>>), sa), Fd(n, Ck(It("list", Cls("int")))),
     Fd(n, W(Cls("object"), <<ACall("is_str", "", "PickyError", "no")>>)) >>
C24Setups(x) ==
  LET all == Prod3(Faulty("xa"), Faulty("yb"), Faulty("aa"), LAMBDA a, b, c : WithAlone(Class("A", <<a, b, c>>)))
  IN Prod2(Faulty("yb"), Faulty("xa"), LAMBDA a, b : WithAlone(Class("A", <<a, b>>))) \o (IF Big THEN all ELSE Every(all, 19))
C24Vals == << one, sa, LV(70, <<sa>>) >>
C24Probes(St) ==
  IF ~HasC(St, "A") THEN <<>>
  ELSE LET ns == Map1(St.E["A"].fields, LAMBDA f : f.n)
           some == Pairs(C24Vals, C24Vals)
           kw2 == Map1(some, LAMBDA p : << <<ns[1], p[1]>>, <<ns[2], p[2]>> >>)
           kw == IF Len(ns) = 3 THEN Prod2(kw2, C24Vals, LAMBDA k, v : k \o << <<ns[3], v>> >>) ELSE kw2
           ops == Map1(kw, LAMBDA k : NewOp("A", <<>>, k, ""))
       IN ops \o Map1(Every(kw, 4), LAMBDA k : Imp("A", "from_mapping", <<>>, Rev(k), <<>>))
C24Law(h, St, op, X) ==
  LET d == h[1].d
      given == KwNames(op.kw)
      solo == TLCEval([n \in given |-> SoloR(St, n, KwOf(op.kw, n))])
      bad == {n \in given : solo[n].o = "err"}
      r == X.r
  IN IF \E n \in given : solo[n].o = "unk" THEN TRUE
     ELSE IF bad = {} THEN r.o = "ok"
     ELSE /\ r.o = "err"
          /\ {f.f : f \in r.fl} = bad                    \* each of these may be reported, no other
          /\ \A f \in r.fl : \E g \in solo[f.f].fl : g.x = f.x
=============================================================================
