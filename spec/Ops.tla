-------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* The operations of a program that uses the library, as transitions of    *)
(* its state.  Step(St, op) is the outcome the library must have and the   *)
(* state it must leave behind.                                             *)
(***************************************************************************)
EXTENDS Records

NoClasses == [x \in {} |-> 0]
InitSt == [S |-> [_ |-> NoneV], E |-> NoClasses, Q |-> [_ |-> EmptySel], H |-> [_ |-> 0], G |-> {}, m |-> 999]

(* references to variables of the program inside a value *)
RECURSIVE Deref(_, _)
Deref(S, v) == IF v.k = "ref" THEN S[v.s]
               ELSE IF v.e = <<>> THEN v
               ELSE [v EXCEPT !.e = [j \in DOMAIN v.e |-> Deref(S, v.e[j])]]
Derefs(S, vs) == [j \in DOMAIN vs |-> Deref(S, vs[j])]
KwPairs(S, kw) == [j \in DOMAIN kw |-> PairV(StrV(kw[j][1]), Deref(S, kw[j][2]))]
SelDesc(S, d) == [d EXCEPT !.ad = [j \in DOMAIN d.ad |-> <<d.ad[j][1], Deref(S, d.ad[j][2])>>],
                           !.mad = [j \in DOMAIN d.mad |-> <<d.mad[j][1], Deref(S, d.mad[j][2])>>]]

(* what a step leaves: r the outcome, mode how its value is to be compared, the new state *)
Out(St, r) == [r |-> r, mode |-> "exact", S |-> St.S, E |-> St.E, Q |-> St.Q, H |-> St.H]
Mode(o, m) == [o EXCEPT !.mode = m]

SubstAll(St, i, new) ==
  [S |-> [x \in DOMAIN St.S |-> Subst(St.S[x], i, new)],
   E |-> [c \in DOMAIN St.E |-> [St.E[c] EXCEPT !.fields = [j \in DOMAIN St.E[c].fields |->
            [St.E[c].fields[j] EXCEPT !.dv = IF St.E[c].fields[j].d = "val" THEN Subst(@, i, new) ELSE @]]]]]

RECURSIVE Walk(_, _)
Walk(v, path) ==     \* path: field names and positions
  IF path = <<>> THEN v
  ELSE LET p == Head(path)
       IN Walk(IF p.k = "f" THEN GetFld(v, p.s) ELSE IF p.k = "v" THEN v.e[p.n].e[2] ELSE v.e[p.n], Tail(path))

(* comparison operators *)
SortKey(E, v) == LET fs == SelectSeq(E[v.s].fields, LAMBDA f : ~Has(f.tags, ExcludeTag))
                 IN Val("list", "", 0, [j \in DOMAIN fs |-> GetFld(v, fs[j].n)], 0)
Flip(f) == CASE f = "lt" -> "gt" [] f = "gt" -> "lt" [] f = "le" -> "ge" [] OTHER -> "le"
Holds(f, r) == CASE f = "lt" -> r = "lt" [] f = "gt" -> r = "gt" [] f = "le" -> r # "gt" [] OTHER -> r # "lt"
OneSide(E, f, a, b) ==     \* a's own operator: "no" where it does not apply
  IF a.k # "rec" THEN "no"
  ELSE IF ~E[a.s].ordered THEN "err"
  ELSE IF ~(b.k = "rec" /\ IsInst(E, b, a.s)) THEN "no"
  ELSE LET r == Cmp(SortKey(E, a), SortKey(E, b)) IN IF r \in {"err", "unk"} THEN r ELSE IF Holds(f, r) THEN "true" ELSE "false"
Compare(E, f, a, b) ==
  LET swap == a.k = "rec" /\ b.k = "rec" /\ a.s # b.s /\ IsInst(E, b, a.s)
      r1 == IF swap THEN OneSide(E, Flip(f), b, a) ELSE OneSide(E, f, a, b)
      r2 == IF swap THEN OneSide(E, f, a, b) ELSE OneSide(E, Flip(f), b, a)
      r == IF r1 = "no" THEN r2 ELSE r1
  IN IF (a.k = "rec" /\ ~NoAttrs(a)) \/ (b.k = "rec" /\ ~NoAttrs(b)) THEN RUnk
     ELSE IF r \in {"no", "err"} THEN RErr("TypeError")
     ELSE IF r = "unk" THEN RUnk
     ELSE ROk(BoolV(r = "true"))

(* what equals its default may be left out of the hash, so it need not be hashable *)
RECURSIVE HashIn(_, _)
HashIn(E, v) ==
  CASE v.k = "rec" ->
         IF ~E[v.s].frozen THEN "no"
         ELSE IF \E j \in DOMAIN v.e : Murky(v.e[j]) THEN "unk"
         ELSE LET isdef(j) == LET f == FieldOf(E[v.s], v.e[j].s) IN f.d = "val" /\ PyEq(f.dv, v.e[j].e[1])
                  ss == {LET h == HashIn(E, v.e[j].e[1]) IN IF h = "no" /\ isdef(j) THEN "unk" ELSE h :
                           j \in {m \in DOMAIN v.e : v.e[m].k = "fld"}}
              IN AllSt(ss)
    [] Fam(v.k) = "tuple" -> AllSt({HashIn(E, v.e[j]) : j \in DOMAIN v.e})
    [] OTHER -> HashSt(v)
HashOutcome(E, v) ==
  LET h == HashIn(E, v) IN IF h = "yes" THEN ROk(NothingV) ELSE IF h = "no" THEN RErr("TypeError") ELSE RUnk

FldVals(v) == [j \in DOMAIN v.e |-> v.e[j].e[1]]
RoundTrip(E, how, v) ==
  LET fs == FldVals(v)
      base == AllAccept(E, v)
      pick == base /\ ~HasOpaque(v)
      json == base /\ \A j \in DOMAIN fs : JsonNative(fs[j])
  IN IF \E j \in DOMAIN fs : Murky(fs[j]) THEN RUnk
     ELSE CASE how \in {"dict", "dicti", "inst"} -> IF base THEN Vague(ROk(v)) ELSE RUnk
            [] how \in {"json", "jsoni", "json_io"} -> IF json THEN Vague(ROk(v)) ELSE RUnk
            [] how \in {"pickle", "pickle_io", "xpickle"} -> IF pick THEN Vague(ROk(v)) ELSE RUnk
            [] how \in {"repr", "repri"} -> IF base /\ Reprable(v) THEN Vague(ROk(v)) ELSE RUnk
            [] OTHER -> RUnk

(* configured exporters *)
RECURSIVE Chain(_, _, _)
Chain(St, h, ch) ==
  IF ch = <<>> THEN h
  ELSE LET s == Head(ch)
           h2 == IF s.w = "sel" THEN [h EXCEPT !.q = MergeSels(h.q, [j \in DOMAIN s.q |-> St.Q[s.q[j]]])]
                 ELSE [h EXCEPT !.o = MergeOpts(h.o, s.o)]
       IN Chain(St, h2, Tail(ch))
RunExport(E, h, obj, o) ==
  LET ex == Extract(E, IF h.c = "" THEN obj.s ELSE h.c, obj, MergeOpts(h.o, o))
      s == ApplySel(h.q, AsDict(ex.e, -1))
      j == Jsonify(s.v)
      r == IF ex.o = "unk" THEN RUnk
           ELSE IF ex.o = "err" THEN RErrs(ex.x)
           ELSE IF s.o = "err" THEN RErrs(s.x)
           ELSE IF h.how = "to_dict" THEN ROk(s.v)
           ELSE IF j.o = "unk" THEN RUnk
           ELSE IF j.o = "err" THEN RErr("TypeError")
           ELSE ROk(j.v)
  IN [r EXCEPT !.c = ex.c]

RunImport(E, h, args, kw) ==
  CASE h.how = "from_mapping" -> FromMapping(E, h.c, args, kw, h.q)
    [] h.how = "from_instance" -> FromInstance(E, h.c, args[1], Tail(args), kw, h.q)
    [] OTHER -> FromJson(E, h.c, args[1], h.q)

MutOf(m, v, key, x) ==
  CASE m = "append" -> [v EXCEPT !.e = Append(@, x)]
    [] m = "clear" -> [v EXCEPT !.e = <<>>]
    [] m = "put" -> PutKey(v, key, x)
    [] m = "add" -> [v EXCEPT !.e = IF \E j \in DOMAIN @ : PyEq(@[j], x) THEN @ ELSE Append(@, x)]
    [] m = "set0" -> [v EXCEPT !.e = [@ EXCEPT ![1] = x]]
    [] OTHER -> v

SetOn(St, t, f, x) ==
  LET nv == IF HasFld(t, f) THEN [t EXCEPT !.e = [j \in DOMAIN t.e |-> IF t.e[j].s = f THEN [t.e[j] EXCEPT !.e = <<x>>] ELSE t.e[j]]]
            ELSE [t EXCEPT !.e = Append(@, Val("attr", f, 0, <<x>>, 0))]
  IN SubstAll(St, t.i, nv)
DelOn(St, t, f) == SubstAll(St, t.i, [t EXCEPT !.e = SelectSeq(@, LAMBDA p : p.s # f)])

ClassInfo(C) == [frozen |-> C.frozen,
                 fields |-> [j \in DOMAIN C.fields |-> [n |-> C.fields[j].n, o |-> C.fields[j].own, d |-> C.fields[j].d,
                                                        t |-> Rng(C.fields[j].tags)]]]

Put(f, x, v) == (x :> v) @@ f

Step(St, op) ==
  LET S == St.S
      E == St.E
      d(v) == Deref(S, v)
      out(r) == IF r.o = "ok" /\ op.out # "" THEN [Out(St, r) EXCEPT !.S = Put(S, op.out, r.v)] ELSE Out(St, r)
  IN CASE op.op = "def" ->
            LET x == Define(E, op.d)
            IN IF x.o = "ok" THEN [Out(St, ROk(NothingV)) EXCEPT !.E = Put(E, op.d.name, x.C)]
               ELSE Out(St, RErrs(x.x))
       [] op.op = "let" -> out(ROk(d(op.v)))
       [] op.op = "new" -> out(New(E, op.c, Derefs(S, op.pos), KwPairs(S, op.kw)))
       [] op.op = "parse" -> out(Parse(E, op.c, d(op.v)))
       [] op.op = "imp" ->
            LET h0 == IF op.hf # "" THEN St.H[op.hf] ELSE [how |-> op.how, c |-> op.c, q |-> EmptySel, o |-> NoOpts, v |-> NoneV]
                h  == Chain(St, h0, op.chain)
            IN IF op.save # "" THEN [Out(St, ROk(NothingV)) EXCEPT !.H = Put(St.H, op.save, h)]
               ELSE out(RunImport(E, h, Derefs(S, op.args), KwPairs(S, op.kw)))
       [] op.op = "exp" ->
            LET h0 == IF op.hf # "" THEN St.H[op.hf] ELSE [how |-> op.how, c |-> op.c, q |-> EmptySel, o |-> NoOpts, v |-> op.v]
                h  == Chain(St, h0, op.chain)
                obj == IF op.hf # "" /\ h.c = "" THEN d(h.v) ELSE d(op.v)
            IN IF op.save # "" THEN [Out(St, ROk(NothingV)) EXCEPT !.H = Put(St.H, op.save, h)]
               ELSE Mode(out(RunExport(E, h, obj, op.o)), IF SelEmpty(h.q) THEN "exact" ELSE "entries")
       [] op.op = "set" ->
            LET t == Walk(d(op.t), op.path)
                z == SetOn(St, t, op.f, d(op.v))
            IN IF t.k = "rec" /\ E[t.s].frozen THEN Out(St, RErr("TypeError"))
               ELSE [Out(St, ROk(NothingV)) EXCEPT !.S = z.S, !.E = z.E]
       [] op.op = "del" ->
            LET t == Walk(d(op.t), op.path)
                z == DelOn(St, t, op.f)
            IN IF t.k = "rec" /\ E[t.s].frozen THEN Out(St, RErr("TypeError"))
               ELSE IF ~HasFld(t, op.f) THEN Out(St, RErr("AttributeError"))
               ELSE [Out(St, ROk(NothingV)) EXCEPT !.S = z.S, !.E = z.E]
       [] op.op = "get" -> out(ROk(Walk(d(op.t), op.path)))
       [] op.op = "mut" ->
            LET t == Walk(d(op.t), op.path)
                z == SubstAll(St, t.i, MutOf(op.m, t, op.key, d(op.v)))
            IN [Out(St, ROk(NothingV)) EXCEPT !.S = z.S, !.E = z.E]
       [] op.op = "hash" -> Mode(Out(St, HashOutcome(E, d(op.v))), "hash")
       [] op.op = "eq" -> Out(St, IF Murky(d(op.a)) \/ Murky(d(op.b)) THEN RUnk
                                  ELSE ROk(BoolV(IF op.f = "eq" THEN PyEq(d(op.a), d(op.b)) ELSE ~PyEq(d(op.a), d(op.b)))))
       [] op.op = "cmp" -> Out(St, Compare(E, op.f, d(op.a), d(op.b)))
       [] op.op = "copy" ->
            LET v == d(op.v)
            IN IF E[v.s].frozen THEN out(Vague(ROk(v)))
               ELSE IF AllAccept(E, v) /\ ~\E j \in DOMAIN v.e : Murky(v.e[j]) THEN out(Vague(ROk([v EXCEPT !.i = -1])))
               ELSE out(RUnk)
       [] op.op = "deep" ->
            LET v == d(op.v)
            IN IF AllAccept(E, v) /\ ~HasOpaque(v) /\ ~Murky(v) THEN out(Vague(ROk(DeepCopy(v)))) ELSE out(RUnk)
       [] op.op = "rt" -> Mode(out(RoundTrip(E, op.how, d(op.v))), "equal")
       [] op.op = "unpick" ->
            LET v == d(op.v)
            IN IF v.k = "rec" /\ IsInst(E, v, op.c)
               THEN Mode(out(IF AllAccept(E, v) /\ ~HasOpaque(v) /\ ~Murky(v) THEN Vague(ROk(v)) ELSE RUnk), "equal")
               ELSE IF HasOpaque(v) \/ Murky(v) \/ ~AllAccept(E, v) THEN out(RUnk)
               ELSE LET r == Parse(E, op.c, v) IN out(IF r.o = "ok" THEN [r EXCEPT !.v = Anew(@)] ELSE r)
       [] op.op = "qdef" -> [Out(St, ROk(NothingV)) EXCEPT !.Q = Put(St.Q, op.q, SelDesc(S, op.d))]
       [] op.op = "qmerge" ->
            [Out(St, ROk(NothingV)) EXCEPT !.Q =
               Put(St.Q, op.q, MergeSel(MergeSels(St.Q[op.base], [j \in DOMAIN op.with |-> St.Q[op.with[j]]]), SelDesc(S, op.kw)))]
       [] op.op = "apply" ->
            LET v == d(op.v)
                r == ApplySel(St.Q[op.q], [v EXCEPT !.i = 0])
            IN Mode(out(IF r.o = "ok" THEN ROk([r.v EXCEPT !.i = 0]) ELSE RErrs(r.x)), "entries")
       [] op.op = "fields" -> Out(St, ROk(NothingV))
       [] op.op = "tok" ->       \* nothing can be added once the class is there (and never to what is not a type)
            LET b == FieldOf(E[op.c], op.f).b
                at == IF op.key < 0 THEN b ELSE b.a[op.key + 1]
            IN Out(St, IF at.t = "dumb" \/ \E j \in DOMAIN at.a : at.a[j].t = "dumb" THEN RErrs({"RuntimeError", "TypeError"})
                       ELSE RErr("RuntimeError"))
       [] op.op = "str" -> Out(St, ROk(NothingV))
       [] OTHER -> Out(St, RUnk)
=============================================================================
