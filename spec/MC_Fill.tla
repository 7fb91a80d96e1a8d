------------------------------ MODULE MC_Fill -------------------------------
(***************************************************************************)
(* Bounded models of how the values of fields are filled (C04 to C11).     *)
(*                                                                         *)
(* Every behaviour defines classes around one annotation; every value of a *)
(* pool is then tried in it.  The laws restate the properties from the     *)
(* annotation as it is written and the value as it is given.               *)
(***************************************************************************)
EXTENDS Machine

(***************************************************************************)
(* Values                                                                  *)
(***************************************************************************)
AtomPool == As(<<"int:0", "int:1", "int:5", "int:-1", "bool:True", "bool:False", "float:0.0", "float:0.5", "float:1.0", "str:", "str:a",
                 "str:1", "str:12", "bytes:", "bytes:1", "C0:o1", "C1:o2", "C1:o3", "C2:o4", "D0:o5", "E1:o6", "AbsImpl:o7", "type:int",
                 "type:bool", "type:str", "type:C1", "type:E1", "type:object", "None", "Ellipsis", "fn:len", "fn:f_user", "range(0, 3)",
                 "MyInt:2", "complex:(1+0j)", "Fraction:1/2", "Fraction:2", "MyStr:a", "MyStr:1", "range(0, 0)">>)
one == Atom("int:1")
two == Atom("bool:True")
sa == Atom("str:a")
ContPool ==
  << LV(11, <<>>), LV(12, <<one>>), LV(13, <<sa, one>>), Val("MyList", "", 0, <<one>>, 14), TV(15, <<>>), TV(16, <<one>>),
     TV(17, <<one, sa>>), Val("MyTuple", "", 0, <<one>>, 18), Val("NT2", "", 0, <<one, sa>>, 19), Val("set", "", 0, <<one>>, 20),
     Val("set", "", 0, <<>>, 21), Val("frozenset", "", 0, <<one>>, 22), DV(23, <<>>), DV(24, << <<sa, one>> >>),
     Val("MyDict", "", 0, <<PairV(sa, one)>>, 25), Val("OrderedDict", "", 0, <<PairV(sa, one)>>, 26),
     Val("defaultdict", "int", 0, <<PairV(sa, one)>>, 27), Val("deque", "None", 0, <<one>>, 28), Val("deque", "3", 0, <<sa>>, 29),
     Val("Counter", "", 0, <<PairV(sa, one)>>, 30) >>
Pool == AtomPool \o ContPool
SmallPool == As(<<"int:0", "int:1", "int:5", "bool:True", "float:1.0", "float:0.5", "str:", "str:a", "str:1", "str:12", "None", "C1:o2",
                  "E1:o6", "MyInt:2", "MyStr:1", "bytes:1">>) \o <<LV(12, <<one>>), TV(17, <<one, sa>>), DV(24, << <<sa, one>> >>)>>

(***************************************************************************)
(* The outcome of a fill                                                   *)
(***************************************************************************)
News(c, vs) == [j \in DOMAIN vs |-> NewK(c, "xa", vs[j])]
One(St, c, v) == TLCEval(Step(St, NewK(c, "xa", v)).r)
Given(op) == op.kw[1][2]
Stored(r) == GetFld(r.v, "xa")
TheErr(r) == LET f == CHOOSE f \in r.fl : f.f = "xa" IN f.x
RejectedWith(r, es) == r.o = "err" /\ (\E f \in r.fl : f.f = "xa") /\ TheErr(r) \subseteq es
SameObj(a, b) == SameShape(a, b) /\ a.i = b.i
Unknown(r) == r.o = "unk"
Unary(A_, sty) == Def([Class("A", <<Fd("xa", A_)>>) EXCEPT !.style = sty])
Solo(name, T, sty) == Def([Class(name, <<Fd("xa", T)>>) EXCEPT !.style = sty])
(* the style of a field, from what is written *)
StyleOf(T, dflt) == LET s == SelectSeq(T.m, LAMBDA t : t.t = "style") IN IF s = <<>> THEN dflt ELSE s[Len(s)].f
TypeOk(c, s, v) == s = "hollow" \/ (s = "check" /\ IsInst(<<>>, v, c)) \/ (s = "strict" /\ ClassOf(v) = c)
HasA(St) == "A" \in DOMAIN St.E
TheT(h) == h[1].d.own[1].T
TheS(h) == StyleOf(TheT(h), h[1].d.style)

(***************************************************************************)
(* C04                                                                     *)
(***************************************************************************)
AllClasses == SelectSeq(<<"int", "bool", "float", "str", "bytes", "C0", "C1", "D0", "E1", "MyInt", "MyStr", "list", "tuple", "dict", "set",
  "frozenset", "complex", "Fraction", "NT2", "object", "range", "deque", "type", "NoneType", "ellipsis", "Number", "Real", "Integral",
  "Rational", "Complex", "Abs", "Sequence", "Mapping", "Set", "Iterable", "Hashable", "Collection", "MutableSequence",
  "MutableMapping", "Container", "OrderedDict", "defaultdict", "MyList", "MyTuple", "Counter"
  >>, LAMBDA c : c \in ClsNames)
Styles == <<"hollow", "check", "strict">>
StyleToks == << <<>>, <<Hollow>>, <<Check>>, <<Strict>> >>
C04Setups(x) == Prod3(AllClasses, Styles, IF Big THEN StyleToks \o << <<Check, TagT("t1")>>, <<TagT("t1"), Hollow>>, <<TagT("t2")>> >>
                                          ELSE StyleToks,
                      LAMBDA c, s, m : <<Unary(W(Cls(c), m), s)>>)
(* quick: an annotation without a style under every default, and every style under the default that differs most *)
C04Quick(x) == SelectSeq(C04Setups(0), LAMBDA s : LET d == s[1].d
                                                      m == d.own[1].T.m
                                                  IN m = <<>> \/ (d.style = "strict" /\ m[1].f = "hollow")
                                                     \/ (d.style = "hollow" /\ m[1].f \in {"check", "strict"}))
C04All(x) == IF Big THEN C04Setups(0) ELSE C04Quick(0)
C04Probes(St) == IF HasA(St) THEN News("A", Pool) ELSE <<>>
C04Law(h, St, op, X) ==
  LET c == TheT(h).c
      s == TheS(h)
      v == Given(op)
  IN IF TypeOk(c, s, v) THEN X.r.o = "ok" /\ SameObj(Stored(X.r), v) /\ X.r.c = <<>>
     ELSE RejectedWith(X.r, {"TypeError"})

(***************************************************************************)
(* C05                                                                     *)
(***************************************************************************)
CoFns == <<"to_int", "c_int5", "c_true", "c_strA", "raise_value", "raise_key", "ident", "c_none", "c_myint">>
CoLists(n) == IF n = 1 THEN Map1(CoFns, LAMBDA g : <<CallCo(g, "c1")>>)
              ELSE IF n = 2 THEN Prod2(CoFns, CoFns, LAMBDA g, k : <<CallCo(g, "c1"), CallCo(k, "c2")>>)
              ELSE Prod3(CoFns, CoFns, CoFns, LAMBDA g, k, m : <<CallCo(g, "c1"), CallCo(k, "c2"), CallCo(m, "c3")>>)
C05Types == << Ck(Cls("int")), S1(Cls("int"), "strict"), Ck(Cls("str")), S1(Cls("bool"), "strict"), Ck(Cls("Real")), Ck(Cls("NoneType")) >>
C05Setups(x) ==
  Prod2(C05Types, CoLists(1) \o CoLists(2) \o (IF Big THEN CoLists(3) ELSE Every(CoLists(3), 41)),
        LAMBDA T, m : <<Unary(W(T, m), "hollow")>>)
C05Quick(x) == IF Big THEN C05Setups(0) ELSE Every(C05Setups(0), 2)
C05Probes(St) == IF HasA(St) THEN News("A", SmallPool) ELSE <<>>
C05Law(h, St, op, X) ==
  LET T == TheT(h)
      s == TheS(h)
      co == SelectSeq(T.m, LAMBDA t : t.t = "co")
      v == Given(op)
      made == [j \in DOMAIN co |-> CallFn(co[j].g, v)]        \* what the user's function gives for the original value
      good == {j \in DOMAIN co : made[j].o = "ok" /\ TypeOk(T.c, s, made[j].v)}
      k == IF good = {} THEN Len(co) ELSE CHOOSE j \in good : \A m \in good : j <= m
  IN IF TypeOk(T.c, s, v) THEN X.r.o = "ok" /\ SameObj(Stored(X.r), v) /\ X.r.c = <<>>
     ELSE IF \E j \in DOMAIN co : made[j].o = "unk" THEN TRUE
     ELSE /\ Len(X.r.c) = k
          /\ \A j \in 1..k : X.r.c[j].p = co[j].p /\ SameObj(X.r.c[j].v, v)
          /\ IF good # {} THEN X.r.o = "ok" /\ SameShape(Stored(X.r), made[k].v)
             ELSE RejectedWith(X.r, IF made[k].o = "err" THEN made[k].x ELSE {"TypeError"})

(***************************************************************************)
(* C06                                                                     *)
(***************************************************************************)
VaToks(p) == << CallVa("inc", p), CallVa("dbl", p), CallVa("ident", p), CallVa("raise_key", p), CallVa("to_str", p), CallVa("c_none", p),
                ACall("is_pos", p, "", "no"), ACall("is_small", p, "", "no"), ACall("never", p, "KeyError", "no"),
                ACall("is_pos", p, "", "warn"), ACall("falsy0", p, "", "log"), ACall("truthy", p, "", "no") >>
VaLists(n) == IF n = 1 THEN Map1(VaToks("v1"), LAMBDA t : <<t>>)
              ELSE IF n = 2 THEN Pairs(VaToks("v1"), VaToks("v2"))
              ELSE Triples(VaToks("v1"), VaToks("v2"), VaToks("v3"))
C06Types == << Ck(Cls("int")), S1(Cls("int"), "hollow"), S1(Cls("int"), "strict"), W(Ck(Cls("int")), <<CallCo("to_int", "co")>>) >>
C06Setups(x) ==
  Prod2(C06Types, VaLists(1) \o VaLists(2) \o (IF Big THEN VaLists(3) ELSE Every(VaLists(3), 37)),
        LAMBDA T, m : <<Unary(W(T, m), "hollow")>>)
C06Vals == As(<<"int:0", "int:1", "int:5", "int:-1", "bool:True", "float:0.5", "str:12", "str:", "MyInt:2", "None">>)
C06Probes(St) == IF HasA(St) THEN News("A", C06Vals) ELSE <<>>
RECURSIVE Folded(_, _, _, _)
(* the validators one after the other: [o, v, x, vs: what each was given, w: warnings] *)
Folded(va, v, vs, w) ==
  IF va = <<>> THEN [o |-> "ok", v |-> v, x |-> {}, vs |-> vs, w |-> w]
  ELSE LET t == Head(va)
           r == CallFn(t.g, v)
           vs2 == Append(vs, v)
           fail(x) == [o |-> "err", v |-> v, x |-> x, vs |-> vs2, w |-> w]
       IN IF r.o = "unk" THEN [fail({}) EXCEPT !.o = "unk"]
          ELSE IF r.o = "err" THEN fail(r.x)
          ELSE IF t.f = "call" THEN Folded(Tail(va), r.v, vs2, w)
          ELSE IF Truth(r.v) THEN Folded(Tail(va), v, vs2, w)
          ELSE IF t.w # "no" THEN Folded(Tail(va), v, vs2, w + 1)
          ELSE fail({IF t.x = "" THEN "ValueError" ELSE t.x})
C06Law(h, St, op, X) ==
  LET T == TheT(h)
      s == TheS(h)
      co == SelectSeq(T.m, LAMBDA t : t.t = "co")
      va == SelectSeq(T.m, LAMBDA t : t.t = "va")
      v == Given(op)
      c == CallFn("to_int", v)
      typed == TypeOk(T.c, s, v)
      v0 == IF typed THEN v ELSE c.v
      f == Folded(va, v0, <<>>, 0)
      calls == SelectSeq(X.r.c, LAMBDA z : z.p # "co")
  IN IF ~typed /\ (co = <<>> \/ c.o = "err") THEN X.r.o = "err" /\ calls = <<>>     \* no validator runs
     ELSE IF f.o = "unk" \/ (~typed /\ c.o = "unk") THEN TRUE
     ELSE /\ Len(calls) = Len(f.vs)
          /\ \A j \in DOMAIN calls : calls[j].p = va[j].p /\ SameShape(calls[j].v, f.vs[j])
          /\ IF f.o = "ok" THEN X.r.o = "ok" /\ SameShape(Stored(X.r), f.v) /\ X.r.w = f.w ELSE RejectedWith(X.r, f.x)

(***************************************************************************)
(* C07                                                                     *)
(***************************************************************************)
Members == << CkC("int"), S1(Cls("int"), "strict"), CkC("str"), CkC("bool"), Cls("str"), CkC("Real"), W(CkC("int"), <<Co("loose")>>),
              W(CkC("str"), <<CallCo("c_strA", "")>>), W(CkC("int"), <<ACall("is_pos", "", "", "no")>>), NoneT,
              Ck(Lit(<<Atom("int:1"), Atom("str:a")>>)), W(CkC("float"), <<Co("loose")>>), Ck(It("list", Cls("int"))), CkC("object"),
              W(Cls("int"), <<CallVa("inc", "")>>), W(CkC("bool"), <<CallVa("inc", "")>>) >>
UVals == As(<<"int:0", "int:1", "int:5", "bool:True", "float:1.0", "float:0.5", "str:a", "str:1", "str:", "None", "C1:o2", "MyInt:2",
              "MyStr:1", "bytes:1">>) \o <<LV(12, <<one>>), LV(13, <<sa>>)>>
Uni(a, b) == << Solo("A", Un(<<a, b>>), "hollow"), Solo("P", Un(<<b, a>>), "hollow"), Solo("M1", a, "hollow"), Solo("M2", b, "hollow") >>
Uni3(a, b, c) == << Solo("A", Un(<<a, b, c>>), "hollow"), Solo("P", Un(<<c, a, b>>), "hollow"), Solo("M1", a, "hollow"),
                    Solo("M2", b, "hollow"), Solo("M3", c, "hollow") >>
(* tokens on the union as a whole: the same as on each of its members *)
Whole_ == << <<Check>>, <<Strict>>, <<Check, Co("loose")>>, <<Check, CallVa("ident", "")>>, <<ACall("is_pos", "", "", "no")>>,
             <<Check, CallCo("c_int5", "")>> >>
Bases_ == << Cls("int"), Cls("str"), Cls("bool"), Cls("float"), W(Cls("int"), <<Hollow>>), W(Cls("str"), <<CallVa("upper", "")>>), NoneT >>
UniW(a, b, w) == << Solo("A", W(Un(<<a, b>>), w), "hollow"), Solo("P", Un(<<[a EXCEPT !.m = w \o @], [b EXCEPT !.m = w \o @]>>), "hollow") >>
UniW2(a, b, w) == << Solo("A", W(Un(<<a, b>>), w), "hollow"), Solo("P", Un(<<W(b, w), W(a, w)>>), "hollow") >>
C07Setups(x) ==
     Prod2(Members, Members, Uni)
  \o (IF Big THEN Prod3(Members, Members, Members, Uni3) ELSE Every(Prod3(Members, Members, Members, Uni3), 61))
  \o SelectSeq(Prod3(Bases_, Bases_, Whole_, UniW), LAMBDA y : LET a == y[1].d.own[1].T.a IN a[1] # a[2])     \* typing makes Union[T, T] T
(* "exact" 0, subclass 1, coerced 2, unchecked 3 *)
RankOf(T, v) ==
  LET s == StyleOf(T, "hollow")
      c == IF T.t = "none" THEN "NoneType" ELSE IF T.t = "iter" THEN T.c ELSE T.c
  IN IF s = "hollow" THEN 3
     ELSE IF T.t = "lit" THEN (IF \E j \in DOMAIN T.l : T.l[j].k = v.k THEN 0 ELSE IF \E j \in DOMAIN T.l : IsInst(<<>>, v, T.l[j].k) THEN 1 ELSE 2)
     ELSE IF ClassOf(v) = c THEN 0 ELSE IF IsInst(<<>>, v, c) THEN (IF s = "strict" THEN 2 ELSE 1) ELSE 2
C07Probes(St) == IF HasA(St) THEN News("A", UVals) ELSE <<>>
SameFill(a, b) == a.o = b.o /\ (a.o = "ok" => LET x == Stored(a)
                                                  y == Stored(b)
                                              IN SameShape(x, y) /\ (x.i > 0 \/ y.i > 0 => x.i = y.i))
C07Law(h, St, op, X) ==
  LET v == Given(op)
      p == One(St, "P", v)
      T == TheT(h)
      ms == [j \in DOMAIN T.a |-> One(St, "M" \o ToString(j), v)]
      ok == {j \in DOMAIN ms : ms[j].o = "ok"}
      best == {j \in ok : \A k \in ok : RankOf(T.a[j], v) <= RankOf(T.a[k], v)}
      bv == {<<Stored(ms[j]).k, Stored(ms[j]).s, Stored(ms[j]).i>> : j \in best}
  IN /\ Unknown(X.r) \/ Unknown(p) \/ SameFill(X.r, p)
     /\ IF T.m # <<>> \/ "M1" \notin DOMAIN St.E \/ "M2" \notin DOMAIN St.E \/ (Len(T.a) = 3 /\ "M3" \notin DOMAIN St.E) THEN TRUE
        ELSE IF Unknown(X.r) \/ \E j \in DOMAIN ms : Unknown(ms[j]) THEN TRUE
        ELSE IF ok = {} THEN X.r.o = "err"
        ELSE IF Cardinality(bv) = 1 THEN
             IF \E t \in bv : t[3] < 0 THEN TRUE ELSE X.r.o = "ok" /\ \A t \in bv : Stored(X.r).s = t[2] /\ Stored(X.r).k = t[1] /\ Stored(X.r).i = t[3]
        ELSE X.r.o = "err" /\ \E f \in X.r.fl : "ValueError" \in f.x

(***************************************************************************)
(* C08                                                                     *)
(***************************************************************************)
Elems == << CkC("int"), W(CkC("int"), <<Co("loose")>>), W(CkC("int"), <<CallVa("inc", "")>>), CkC("str"), S1(Cls("int"), "strict"),
            W(Cls("int"), <<Check, ACall("is_pos", "", "", "no")>>), Ck(Un(<<Cls("int"), Cls("str")>>)), Ck(Lit(<<Atom("int:1")>>)),
            Ck(Tup(<<Cls("int"), Cls("str")>>)) >>
ConSpecs == << "list", "set", "frozenset", "deque", "Sequence", "MutableSequence", "Set", "MutableSet", "vtuple" >>
ConT(c, e) == IF c = "vtuple" THEN Ck(VTup(e)) ELSE Ck(It(c, e))
EAtoms == As(<<"int:1", "int:5", "str:1", "bool:True", "str:a", "MyInt:2">>)
EPairs == << <<>> >> \o Map1(EAtoms, LAMBDA x : <<x>>) \o Pairs(EAtoms, EAtoms)
ConVals ==
     [j \in DOMAIN EPairs |-> LV(100 + j, EPairs[j])] \o [j \in DOMAIN EPairs |-> TV(200 + j, EPairs[j])]
  \o [j \in DOMAIN EPairs |-> Val("deque", "3", 0, EPairs[j], 300 + j)]
  \o LET ds == SelectSeq(EPairs, LAMBDA e : Len(Distinct(e, <<>>)) = Len(e))
     IN [j \in DOMAIN ds |-> Val("set", "", 0, ds[j], 400 + j)] \o [j \in DOMAIN ds |-> Val("frozenset", "", 0, ds[j], IF ds[j] = <<>> THEN 0 ELSE 500 + j)]
  \o << Val("MyList", "", 0, <<one, sa>>, 601), Val("MyList", "", 0, <<Atom("str:1")>>, 602), Val("NT2", "", 0, <<one, Atom("str:1")>>, 603),
        Val("MyTuple", "", 0, <<Atom("str:1"), one>>, 604), Val("deque", "None", 0, <<Atom("str:1")>>, 605), LV(606, <<TV(607, <<one, sa>>)>>) >>
C08Setups(x) ==
     Prod2(ConSpecs, Elems, LAMBDA c, e : <<Solo("A", ConT(c, e), "hollow"), Solo("B", e, "hollow")>>)
  \o Prod3(<<"dict", "Mapping", "defaultdict", "MutableMapping">>, SubSeq(Elems, 1, 6), SubSeq(Elems, 1, 6),
           LAMBDA c, k, e : <<Solo("A", Ck(Mp(c, k, e)), "hollow"), Solo("B", e, "hollow"), Solo("K", k, "hollow")>>)
  \o Prod2(SubSeq(Elems, 1, 6), SubSeq(Elems, 1, 6),
           LAMBDA a, b : <<Solo("A", Ck(Tup(<<a, b>>)), "hollow"), Solo("B", b, "hollow"), Solo("K", a, "hollow")>>)
MapAtoms == As(<<"int:1", "str:1", "str:a", "int:2", "bool:True">>)
MapVals ==
     <<DV(700, <<>>)>> \o Prod2(MapAtoms, MapAtoms, LAMBDA k, v : DV(1, << <<k, v>> >>))
  \o Prod2(MapAtoms, MapAtoms, LAMBDA k, v : DV(1, IF PyEq(k, sa) THEN << <<k, v>> >> ELSE << <<sa, one>>, <<k, v>> >>))
  \o << Val("defaultdict", "int", 0, <<PairV(Atom("str:1"), Atom("str:1"))>>, 1), Val("OrderedDict", "", 0, <<PairV(Atom("str:1"), one)>>, 1),
        Val("MyDict", "", 0, <<PairV(one, Atom("str:1"))>>, 1), Val("defaultdict", "None", 0, <<PairV(one, one)>>, 1) >>
MapVals2 == [j \in DOMAIN MapVals |-> [MapVals[j] EXCEPT !.i = 700 + j]]
C08Vals(b) == CASE b.t = "map" -> IF Big THEN MapVals2 ELSE Every(MapVals2, 3)
                [] b.t = "tuple" -> SelectSeq(ConVals, LAMBDA v : Fam(v.k) = "tuple") \o <<TV(610, <<one, one, sa>>)>>
                [] OTHER -> LET ok == SelectSeq(ConVals, LAMBDA v : IsInst(<<>>, v, b.c)) IN IF Big THEN ok ELSE Every(ok, 2)
C08Probes(St) == IF HasA(St) THEN News("A", C08Vals(St.E["A"].fields[1].b)) ELSE <<>>
(* what the position of each part of v makes of it, in order: <<old, outcome>> *)
Parts(St, T, v) ==
  IF T.t = "map" THEN [j \in 1..(2 * Len(v.e)) |-> LET p == v.e[(j + 1) \div 2]
                                                       x == IF j % 2 = 1 THEN p.e[1] ELSE p.e[2]
                                                   IN <<x, One(St, IF j % 2 = 1 THEN "K" ELSE "B", x)>>]
  ELSE IF T.t = "tuple" THEN [j \in DOMAIN v.e |-> <<v.e[j], One(St, IF j = 1 THEN "K" ELSE "B", v.e[j])>>]
  ELSE [j \in DOMAIN v.e |-> <<v.e[j], One(St, "B", v.e[j])>>]
PartsOf(T, v) == IF T.t = "map" THEN [j \in 1..(2 * Len(v.e)) |-> v.e[(j + 1) \div 2].e[IF j % 2 = 1 THEN 1 ELSE 2]] ELSE v.e
C08Law(h, St, op, X) ==
  LET T == TheT(h)
      v == Given(op)
      ps == TLCEval(Parts(St, T, v))
      new == [j \in DOMAIN ps |-> Stored(ps[j][2])]
      c == CASE T.t = "vtuple" -> "tuple" [] T.t = "tuple" -> "tuple" [] OTHER -> T.c
      maybe == \E j \in DOMAIN ps : SameShape(ps[j][1], new[j]) /\ ps[j][1].i = new[j].i
      changed == \E j \in DOMAIN ps : ~SameShape(ps[j][1], new[j])
      got == Stored(X.r)
  IN IF ~IsInst(<<>>, v, c) THEN RejectedWith(X.r, {"TypeError"})
     ELSE IF T.t = "tuple" /\ Len(v.e) # 2 THEN RejectedWith(X.r, {"ValueError"})
     ELSE IF \E j \in DOMAIN ps : ps[j][2].o = "unk" THEN TRUE
     ELSE IF \E j \in DOMAIN ps : ps[j][2].o = "err" THEN
          X.r.o = "err" /\ TheErr(X.r) \subseteq UNION {TheErr(ps[j][2]) : j \in {m \in DOMAIN ps : ps[m][2].o = "err"}}
     ELSE IF X.r.o = "unk" THEN TRUE
     ELSE /\ X.r.o = "ok"
          /\ got.k = v.k
          /\ Fam(v.k) \in {"deque", "dict"} => got.s = v.s
          /\ IF Fam(v.k) = "set" THEN (\A j \in DOMAIN new : \E m \in DOMAIN got.e : PyEq(got.e[m], new[j]))
                                      /\ \A m \in DOMAIN got.e : \E j \in DOMAIN new : SameShape(got.e[m], new[j])
             ELSE IF T.t = "map" THEN \A j \in DOMAIN new : j % 2 = 1 => HasKey(got, new[j])
             ELSE Len(got.e) = Len(new) /\ \A j \in DOMAIN new : SameShape(got.e[j], new[j])
          /\ changed => got.i = -1 \/ got.i = 0
          /\ got.i = v.i => ~changed

(***************************************************************************)
(* C09                                                                     *)
(***************************************************************************)
Singles == << NoneT, EllT, CallT, AnyT, Cls("object"), Lit(As(<<"int:1", "str:a">>)), Lit(As(<<"bool:True">>)), Lit(As(<<"int:0", "bool:True", "None">>)),
              Lit(As(<<"str:">>)), Lit(As(<<"bytes:1">>)), Lit(As(<<"int:1", "bool:True", "str:1">>)), TypeT("C0"), TypeT("int"), TypeT("object"), TypeT("bool"), TypeT("E1"), TypeT(""),
              NewT(Cls("int")), NewT(Lit(As(<<"int:5">>))), Bare("list"), Bare("dict"), Bare("tuple"), Bare("Sequence"), Bare("set"), Bare("Mapping") >>
C09Toks == << <<Check>>, <<Strict>>, <<Check, CallCo("c_int5", "c1")>>, <<Check, CallCo("c_o3", "c1")>>, <<Check, CallCo("raise_key", "c1")>>, <<>> >>
C09Setups(x) == Prod2(Singles, C09Toks, LAMBDA T, m : <<Unary(W(T, m), "hollow")>>)
(* once more after each of these fills *)
C09Seeds == As(<<"int:1", "bool:True", "str:a", "None", "type:int", "C1:o2", "float:1.0">>)
C09Moves(St) == IF HasA(St) THEN News("A", C09Seeds) ELSE <<>>
C09Probes(St) == IF HasA(St) THEN News("A", IF Big THEN Pool ELSE SelectSeq(Pool, LAMBDA v : v.k # "Counter")) ELSE <<>>
RECURSIVE RightType(_, _, _), RightValue(_, _)
RightType(T, s, v) ==
  CASE T.t = "none" -> v.k = "NoneType" [] T.t = "ell" -> v.k = "ellipsis"
    [] T.t = "any" -> s = "check" \/ v.k = "object"
    [] T.t = "callable" -> CallableV(v)
    [] T.t = "lit" -> \E j \in DOMAIN T.l : IF s = "strict" THEN T.l[j].k = v.k ELSE IsInst(<<>>, v, T.l[j].k)
    [] T.t = "type" -> v.k = "type"
    [] T.t = "newtype" -> RightType(T.a[1], s, v)
    [] OTHER -> TypeOk(T.c, s, v)
RightValue(T, v) ==
  CASE T.t = "lit" -> \E j \in DOMAIN T.l : T.l[j].k = v.k /\ PyEq(T.l[j], v)
    [] T.t = "type" -> T.c = "" \/ (v.k = "type" /\ IsSubclass(<<>>, v.s, T.c))
    [] T.t = "newtype" -> RightValue(T.a[1], v)
    [] OTHER -> TRUE
C09Law(h, St, op, X) ==
  LET T == TheT(h)
      s == TheS(h)
      v == Given(op)
      co == SelectSeq(T.m, LAMBDA t : t.t = "co")
      w == IF RightType(T, s, v) THEN Ok(v) ELSE IF co = <<>> THEN Err("TypeError") ELSE CallFn(co[1].g, v)
  IN IF s = "hollow" THEN X.r.o = "ok" /\ SameObj(Stored(X.r), v)
     ELSE IF Unknown(X.r) \/ w.o = "unk" THEN TRUE
     ELSE IF w.o = "err" THEN RejectedWith(X.r, w.x)
     ELSE IF ~RightType(T, s, w.v) THEN RejectedWith(X.r, {"TypeError"})
     ELSE IF ~RightValue(T, w.v) THEN RejectedWith(X.r, {"ValueError"})
     ELSE X.r.o = "ok" /\ SameShape(Stored(X.r), w.v)

(***************************************************************************)
(* C10                                                                     *)
(***************************************************************************)
NumAtoms == As(<<"int:0", "int:1", "int:2", "int:5", "int:-1", "int:255", "int:256", "bool:True", "bool:False", "float:0.0", "float:1.0",
                 "float:0.5", "float:2.5", "float:-1.5", "float:3.0", "complex:(1+0j)", "complex:(1+1j)", "complex:0j", "Fraction:2", "Fraction:1/2",
                 "MyInt:2", "MyInt:0">>)
StrAtoms == As(<<"str:", "str:a", "str:1", "str:12", "str: a ", "str:2.5", "str:ff", "str:True", "str:None", "str:1+1", "str:1 +", "str:1/0",
                 "str:[1]", "str:(1,)", "str:int('7')", "str:float('2')", "str:int(float('2'))", "str:float(int('7'))", "str:'a'", "str:C1", "MyStr:1", "MyStr:a", "str:Ellipsis", "str:{1: 2}">>)
OthAtoms == As(<<"None", "Ellipsis", "bytes:1", "bytes:", "C0:o1", "C1:o2", "range(0, 3)", "type:int">>) \o
            << LV(11, <<>>), LV(12, <<one>>), LV(13, <<Atom("int:5"), sa>>), TV(17, <<one, sa>>), DV(24, << <<sa, one>> >>), DV(23, <<>>),
               Val("set", "", 0, <<one>>, 20), LV(31, <<TV(32, <<sa, one>>)>>), Val("deque", "None", 0, <<one>>, 28),
               DV(33, << <<sa, one>>, <<Atom("str:b"), sa>> >>) >>
C10Vals == NumAtoms \o StrAtoms \o OthAtoms
CTargets == <<"int", "float", "str", "bool", "bytes", "list", "tuple", "dict", "set", "NT2", "C1", "complex", "MyInt">>
MapTok(vm, fm) == [Co("map") EXCEPT !.vs = <<vm, fm>>]
Coers ==
  << Co("loose"), [Co("loose") EXCEPT !.cs = <<"str">>], [Co("loose") EXCEPT !.cs = <<"int", "float">>], Co("unpack"),
     [Co("unpack") EXCEPT !.cs = <<"int", "str">>], [Co("unpack") EXCEPT !.cs = <<"int", "...">>], Co("unpackmap"),
     [Co("unpackmap") EXCEPT !.cs = << <<"a", "int">> >>], CoG("eval", "plain"), CoG("eval", "intfloat"), CoG("eval", "bound"), Co("literal"),
     Co("whole"), CoG("tobytes", "auto"), CoG("tobytes", "len1"), CoG("tobytes", "signed"), Co("frombool"), Co("falsish"),
     MapTok(<< <<sa, Atom("int:5")>>, <<Atom("int:1"), Atom("str:A")>> >>, << <<sa, Atom("int:0")>>, <<Atom("str:1"), Atom("int:7")>> >>),
     MapTok(<<>>, << <<Atom("float:0.5"), Val("raise", "KeyError", 0, <<>>, 0)>>, <<Atom("None"), Atom("bool:True")>> >>),
     CoG("cm", "from_bytes"), CoG("cm", "fromhex"), CoG("cm", "make"),
     Compose(<<Co("loose"), CallCo("strip", "")>>), Compose(<<CallCo("to_int", ""), CallCo("to_str", "")>>),
     Compose(<<CallCo("c_int5", ""), CallCo("raise_key", "")>>), Compose(<<Co("falsish"), CallCo("ident", "")>>) >>
(* B: another class with the same token, before or after; one token object *)
Shared(s) == [j \in DOMAIN s |-> [s[j] EXCEPT !.d = [share |-> TRUE] @@ @]]
C10Setups(x) ==
     Prod2(CTargets, Coers, LAMBDA c, t : <<Unary(W(Cls(c), <<Check, t>>), "hollow")>>)
  \o Prod3(<<"int", "float", "C1", "list">>, <<"int", "float", "C1", "list">>, <<Co("loose"), Co("unpack"), CoG("eval", "bound"), Co("literal"), Co("falsish"), CoG("cm", "make")>>,
           LAMBDA c, b, t : Shared(<<Unary(W(Cls(c), <<Check, t>>), "hollow"), Solo("B", W(Cls(b), <<Check, t>>), "hollow")>>))
C10Probes(St) == IF HasA(St) THEN News("A", IF Big THEN C10Vals ELSE Every(C10Vals, 2) \o As(<<"str:1", "str:a", "float:1.0">>)) ELSE <<>>
C10Law(h, St, op, X) ==
  LET T == TheT(h)
      t == T.m[2]
      v == Given(op)
      r == X.r
      got == Stored(r)
      fails == r.o = "err"
  IN IF TypeOk(T.c, "check", v) THEN r.o = "ok" /\ SameObj(Stored(r), v)
     ELSE IF Unknown(r) THEN TRUE
     ELSE /\ r.o = "ok" => TypeOk(T.c, "check", got)             \* never a value of another type
          /\ CASE t.f = "whole" -> IF v.k \notin NumKinds \/ v.n = NoNum \/ v.n % 2 # 0 THEN fails
                                   ELSE (r.o = "ok" /\ T.c \in {"int", "MyInt", "complex"}) => got.n = v.n
               [] t.f = "frombool" -> IF PyEq(v, Atom("int:0")) THEN got = FalseV ELSE IF PyEq(v, Atom("int:1")) THEN got = TrueV ELSE fails
               [] t.f = "falsish" -> IF Truth(v) THEN fails ELSE (r.o = "ok" /\ T.c # "C1") => ~Truth(got)
               [] t.f = "map" ->
                    LET at(s) == {j \in DOMAIN s : PyEq(s[j][1], v)}
                        want == IF Unhashable(v) THEN {} ELSE IF at(t.vs[1]) # {} THEN {t.vs[1][j][2] : j \in at(t.vs[1])} ELSE {t.vs[2][j][2] : j \in at(t.vs[2])}
                    IN IF \E w \in want : w.k # "raise" /\ TypeOk(T.c, "check", w) THEN r.o = "ok" /\ \A w \in want : SameShape(got, w) ELSE fails
               [] t.f = "loose" -> (t.cs # <<>> /\ ~InstOf(<<>>, v, t.cs)) => fails
               [] t.f = "unpack" -> (t.cs = <<"int", "str">> /\ Iter(v).o = "ok" /\ Len(Iter(v).e) # 2) => fails
               [] t.f = "tobytes" -> (~IsInst(<<>>, v, "Integral")) => fails
               [] t.f = "compose" ->
                    LET in == Coerce(St.E, St.E["A"].fields[1].b, t.a[2], v)
                        out == Coerce(St.E, St.E["A"].fields[1].b, t.a[1], in.v)
                    IN IF in.o = "err" THEN fails ELSE IF in.o = "unk" \/ out.o = "unk" THEN TRUE
                       ELSE IF out.o = "err" THEN fails ELSE (r.o = "ok") = TypeOk(T.c, "check", out.v) /\ (r.o = "ok" => SameShape(got, out.v))
               [] OTHER -> TRUE

(***************************************************************************)
(* C11                                                                     *)
(***************************************************************************)
Nums == As(<<"int:-3", "int:-1", "int:0", "int:1", "int:2", "int:3", "int:5", "float:-1.5", "float:-0.5", "float:0.0", "float:0.5", "float:1.0", "float:2.5",
             "bool:True", "bool:False", "MyInt:2", "Fraction:1/2", "Fraction:2", "float:3.0">>)
Bnds == << <<>>, <<Atom("int:-1")>>, <<Atom("int:0")>>, <<Atom("float:0.5")>>, <<Atom("int:2")>>, <<Atom("int:3")>>, <<Atom("float:2.5")>> >>
Flags == << <<TRUE, FALSE>>, <<TRUE, TRUE>>, <<FALSE, FALSE>>, <<FALSE, TRUE>> >>
C11Toks ==
     Prod3(Bnds, Bnds, Flags, LAMBDA a, b, f : Range("within", a, b, f[1], f[2]))
  \o Prod2(Bnds, Bnds, LAMBDA a, b : Range("clamp", a, b, TRUE, FALSE))
  \o Prod2(Tail(Bnds), Tail(Bnds), LAMBDA a, b : Range("cyclic", a, b, TRUE, FALSE))
  \o << [Range("within", <<one>>, <<Atom("int:3")>>, TRUE, FALSE) EXCEPT !.w = "warn"],
        [Range("within", <<one>>, <<Atom("int:3")>>, TRUE, FALSE) EXCEPT !.x = "KeyError"] >>
MatchToks == Map1(<<"p_a", "p_alt", "p_az", "p_dig", "p_opt">>, LAMBDA g : [Va("match") EXCEPT !.g = g]) \o << Va("truth"), [Va("truth") EXCEPT !.w = "log"] >>
(* cyclic ranges of no length are not specified *)
C11Good(t) == t.f # "cyclic" \/ t.vs[1][1].n < t.vs[2][1].n
C11Setups(x) == Map1(SelectSeq(C11Toks, C11Good), LAMBDA t : <<Unary(W(Cls("object"), <<t>>), "hollow")>>)
             \o Map1(MatchToks, LAMBDA t : <<Unary(W(Cls("object"), <<t>>), "hollow")>>)
C11Probes(St) == IF ~HasA(St) THEN <<>>
                 ELSE IF St.E["A"].fields[1].b.va[1].f \in {"match", "truth"} THEN News("A", As(<<"str:", "str:a", "str:ab", "str:abc", "str:1", "str:12", "str:A", "str: a ", "MyStr:a", "MyStr:1", "str:b",
                                                                                           "int:0", "int:1", "None", "bytes:", "float:0.0", "C1:o2">>) \o <<LV(11, <<>>), LV(12, <<one>>), DV(23, <<>>)>>)
                 ELSE News("A", Nums \o As(<<"str:a", "None">>))
Low(t) == t.vs[1]
High(t) == t.vs[2]
C11Law(h, St, op, X) ==
  LET t == TheT(h).m[1]
      v == Given(op)
      r == X.r
      got == Stored(r)
      num == v.k \in RealKinds
      inLow(strict) == Low(t) = <<>> \/ (IF strict THEN v.n > Low(t)[1].n ELSE v.n >= Low(t)[1].n)
      inHigh(strict) == High(t) = <<>> \/ (IF strict THEN v.n < High(t)[1].n ELSE v.n <= High(t)[1].n)
  IN IF t.f = "within" THEN
        IF ~num THEN (IF Low(t) = <<>> /\ High(t) = <<>> THEN r.o = "ok" ELSE RejectedWith(r, {"TypeError"}))
        ELSE IF (inLow(~t.fl[1]) /\ inHigh(~t.fl[2])) \/ t.w # "no" THEN r.o = "ok" /\ SameObj(got, v)
        ELSE RejectedWith(r, {IF t.x = "" THEN "ValueError" ELSE t.x})
     ELSE IF t.f = "clamp" THEN
        IF ~num THEN (IF Low(t) = <<>> /\ High(t) = <<>> THEN r.o = "ok" ELSE RejectedWith(r, {"TypeError"}))
        ELSE /\ r.o = "ok"
             /\ IF inLow(FALSE) /\ inHigh(FALSE) THEN SameObj(got, v)
                ELSE IF ~inLow(FALSE) THEN SameShape(got, Low(t)[1]) ELSE SameShape(got, High(t)[1])
     ELSE IF t.f = "cyclic" THEN
        IF ~num THEN RejectedWith(r, {"TypeError"})
        ELSE IF Unknown(r) THEN TRUE
        ELSE /\ r.o = "ok"
             /\ got.n >= Low(t)[1].n /\ got.n < High(t)[1].n
             /\ (got.n - v.n) % (High(t)[1].n - Low(t)[1].n) = 0
     ELSE IF t.f = "truth" THEN IF Truth(v) \/ t.w # "no" THEN r.o = "ok" /\ SameObj(got, v) ELSE RejectedWith(r, {"ValueError"})
     ELSE IF v.k \notin StrKinds THEN RejectedWith(r, {"TypeError"})
     ELSE Unknown(r) \/ (r.o = "ok" /\ SameObj(got, v)) \/ RejectedWith(r, {"ValueError"})
(* bounds that contradict each other never get as far as a class *)
C11State(St) == TRUE
C11Init(h, St) == TRUE
=============================================================================
