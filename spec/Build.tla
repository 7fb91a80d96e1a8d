------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Constructors for annotations, tokens, classes and operations, used by   *)
(* the bounded models (MC_*.tla) to say what they range over.              *)
(***************************************************************************)
EXTENDS Ops

Big == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
A(s) == Atom(s)
As(ss) == [j \in DOMAIN ss |-> Atom(ss[j])]
LV(i, es) == Val("list", "", 0, es, i)
TV(i, es) == Val("tuple", "", 0, es, IF es = <<>> THEN 0 ELSE i)
DV(i, kvs) == Val("dict", "", 0, [j \in DOMAIN kvs |-> PairV(kvs[j][1], kvs[j][2])], i)
NV(i, kvs) == Val("ns", "", 0, [j \in DOMAIN kvs |-> Val("attr", kvs[j][1], 0, <<kvs[j][2]>>, 0)], i)
Ref(s) == Val("ref", s, 0, <<>>, 0)

(* the products of sequences *)
Prod2(as, bs, F(_, _)) == TLCEval([i \in 1..(Len(as) * Len(bs)) |-> F(as[((i - 1) \div Len(bs)) + 1], bs[((i - 1) % Len(bs)) + 1])])
Prod3(as, bs, cs, F(_, _, _)) ==
  TLCEval([i \in 1..(Len(as) * Len(bs) * Len(cs)) |->
     F(as[((i - 1) \div (Len(bs) * Len(cs))) + 1], bs[(((i - 1) \div Len(cs)) % Len(bs)) + 1], cs[((i - 1) % Len(cs)) + 1])])
Pairs(as, bs) == Prod2(as, bs, LAMBDA x, y : <<x, y>>)
Triples(as, bs, cs) == Prod3(as, bs, cs, LAMBDA x, y, z : <<x, y, z>>)
(* every step-th element, from the first *)
Every(s, step) == [j \in 1..((Len(s) + step - 1) \div step) |-> s[(j - 1) * step + 1]]
Map1(s, F(_)) == [j \in DOMAIN s |-> F(s[j])]

(* annotations *)
Ty(t, c, a, l) == [t |-> t, c |-> c, a |-> a, l |-> l, m |-> <<>>]
Cls(c) == Ty("cls", c, <<>>, <<>>)
AnyT == Ty("any", "", <<>>, <<>>)
NoneT == Ty("none", "", <<>>, <<>>)
EllT == Ty("ell", "", <<>>, <<>>)
CallT == Ty("callable", "", <<>>, <<>>)
Lit(ls) == Ty("lit", "", <<>>, ls)
TypeT(c) == Ty("type", c, <<>>, <<>>)
Tup(as) == Ty("tuple", "", as, <<>>)
VTup(a) == Ty("vtuple", "", <<a>>, <<>>)
It(c, a) == Ty("iter", c, <<a>>, <<>>)
Gn(c, a) == Ty("gen", c, <<a>>, <<>>)
Mp(c, a, b) == Ty("map", c, <<a, b>>, <<>>)
Un(as) == Ty("union", "", as, <<>>)
NewT(a) == Ty("newtype", "", <<a>>, <<>>)
Bare(c) == Ty("bare", c, <<>>, <<>>)
Dumb == Ty("dumb", "", <<>>, <<>>)
ClassVarT == Ty("classvar", "", <<>>, <<>>)
PlainT == Ty("plain", "", <<>>, <<>>)
W(T, toks) == [T EXCEPT !.m = @ \o toks]

(* tokens *)
Tok(t, f) == [t |-> t, f |-> f, g |-> "", a |-> <<>>, cs |-> <<>>, vs |-> <<>>, fl |-> <<TRUE, FALSE>>, x |-> "", w |-> "no",
              p |-> "", pf |-> "", lo |-> FALSE]
Sty(s) == Tok("style", s)
Hollow == Sty("hollow")
Check == Sty("check")
Strict == Sty("strict")
TagT(n) == Tok("tag", n)
Co(f) == Tok("co", f)
CoG(f, g) == [Tok("co", f) EXCEPT !.g = g]
CallCo(g, p) == [Tok("co", "call") EXCEPT !.g = g, !.p = p]
Compose(as) == [Tok("co", "compose") EXCEPT !.a = as]
Va(f) == Tok("va", f)
CallVa(g, p) == [Tok("va", "call") EXCEPT !.g = g, !.p = p]
ACall(g, p, x, w) == [Tok("va", "acall") EXCEPT !.g = g, !.p = p, !.x = x, !.w = w]
Range(f, lo, hi, gi, li) == [Tok("va", f) EXCEPT !.vs = <<lo, hi>>, !.fl = <<gi, li>>]
S1(T, s) == W(T, <<Sty(s)>>)
Ck(T) == W(T, <<Check>>)
CkC(c) == Ck(Cls(c))

(* fields *)
Fd(n, T) == [n |-> n, T |-> T, d |-> "none", dv |-> NoneV, final |-> FALSE]
FdV(n, T, v) == [Fd(n, T) EXCEPT !.d = "val", !.dv = v]
FdF(n, T, v) == [Fd(n, T) EXCEPT !.d = "fac", !.dv = v]

(* which field a callback belongs to; lo: any number of times *)
RECURSIVE GrpTok(_, _, _), Grp(_, _, _)
GrpTok(t, pf, lo) ==
  [t EXCEPT !.pf = IF t.f \in {"call", "acall"} THEN pf ELSE @, !.lo = IF t.f \in {"call", "acall"} THEN lo ELSE @,
            !.a = [j \in DOMAIN t.a |-> GrpTok(t.a[j], pf, lo)]]
Grp(T, pf, lo) ==
  [T EXCEPT !.m = [j \in DOMAIN T.m |-> GrpTok(T.m[j], pf, lo)],
            !.a = [j \in DOMAIN T.a |-> Grp(T.a[j], pf, lo \/ T.t \in {"tuple", "vtuple", "iter", "map"})]]

(* classes *)
Post0 == [k |-> "inherit", f |-> "", v |-> NoneV, cf |-> "", cv |-> NoneV]
PostOf(k) == [Post0 EXCEPT !.k = k]
PostRep(v) == [Post0 EXCEPT !.k = "rep", !.v = v]
PostSet(f, v) == [Post0 EXCEPT !.k = "set", !.f = f, !.v = v]
PostRaise(e) == [Post0 EXCEPT !.k = "raise", !.f = e]
Class(name, own) ==
  [name |-> name, bases |-> <<>>, mix |-> FALSE, frozen |-> FALSE, ordered |-> FALSE, unary |-> "none", style |-> "hollow",
   own |-> [j \in DOMAIN own |-> [own[j] EXCEPT !.T = Grp(@, name \o "." \o own[j].n, FALSE)]],
   pre |-> <<>>, preset |-> FALSE, post |-> Post0, parsers |-> <<>>, truth |-> TRUE]
Psr(n, k) == [n |-> n, marked |-> TRUE, k |-> k, g |-> "", v1 |-> NoneV, v2 |-> NoneV]
PsrFn(n, g) == [Psr(n, "fn") EXCEPT !.g = g]
PsrWhen(n, a, b) == [Psr(n, "when") EXCEPT !.v1 = a, !.v2 = b]

(* operations *)
Def(d) == [op |-> "def", d |-> d]
Let(x, v) == [op |-> "let", v |-> v, out |-> x]
NewOp(c, pos, kw, x) == [op |-> "new", c |-> c, pos |-> pos, kw |-> kw, out |-> x]
NewK(c, f, v) == NewOp(c, <<>>, << <<f, v>> >>, "")
ParseOp(c, v) == [op |-> "parse", c |-> c, v |-> v, out |-> ""]
Imp(c, how, args, kw, chain) == [op |-> "imp", c |-> c, how |-> how, args |-> args, kw |-> kw, chain |-> chain, hf |-> "",
                                 save |-> "", out |-> ""]
Exp(c, how, v, o, chain) == [op |-> "exp", c |-> c, how |-> how, v |-> v, o |-> o, chain |-> chain, hf |-> "", save |-> "",
                             out |-> ""]
SetOp(x, f, v) == [op |-> "set", t |-> Ref(x), path |-> <<>>, f |-> f, v |-> v]
DelOp(x, f) == [op |-> "del", t |-> Ref(x), path |-> <<>>, f |-> f]
PF(f) == [k |-> "f", s |-> f, n |-> 0]
PI(j) == [k |-> "i", s |-> "", n |-> j]
MutAt(x, path, m, key, v) == [op |-> "mut", t |-> Ref(x), path |-> path, m |-> m, key |-> key, v |-> v]
HashOp(v) == [op |-> "hash", v |-> v]
EqOp(f, a, b) == [op |-> "eq", f |-> f, a |-> a, b |-> b]
CmpOp(f, a, b) == [op |-> "cmp", f |-> f, a |-> a, b |-> b]
CopyOp(x, y) == [op |-> "copy", v |-> Ref(x), out |-> y]
DeepOp(x, y) == [op |-> "deep", v |-> Ref(x), out |-> y]
Rt(how, x) == [op |-> "rt", how |-> how, v |-> Ref(x), out |-> ""]
Qdef(q, d) == [op |-> "qdef", q |-> q, d |-> d]
Qmerge(q, base, with, kw) == [op |-> "qmerge", q |-> q, base |-> base, with |-> with, kw |-> kw]
ApplyOp(q, v) == [op |-> "apply", q |-> q, v |-> v, out |-> ""]
FieldsOp(c, tag) == [op |-> "fields", c |-> c, tag |-> tag]
TokOp(c, f, key, t) == [op |-> "tok", c |-> c, f |-> f, key |-> key, t |-> t]
StrOp(v) == [op |-> "str", v |-> v]
ChSel(q) == [w |-> "sel", q |-> q, o |-> NoOpts]
ChOpt(o) == [w |-> "opt", q |-> <<>>, o |-> o]

(***************************************************************************)
(* New objects get labels of their own.                                    *)
(***************************************************************************)
RECURSIVE Conc(_, _, _), ConcAll(_, _, _, _)
(* shared: label below -1 -> new label;  the value and the last label used *)
Conc(v, m, shared) ==
  LET here == IF v.i = -1 THEN m + 1 ELSE IF v.i < -1 THEN shared[v.i] ELSE v.i
      m1 == IF v.i = -1 THEN m + 1 ELSE m
      r == ConcAll(v.e, 1, m1, shared)
  IN IF v.e = <<>> THEN [v |-> [v EXCEPT !.i = here], m |-> m1] ELSE [v |-> [v EXCEPT !.i = here, !.e = r.v], m |-> r.m]
ConcAll(s, j, m, shared) ==
  IF j > Len(s) THEN [v |-> s, m |-> m]
  ELSE LET r == Conc(s[j], m, shared) IN ConcAll([s EXCEPT ![j] = r.v], j + 1, r.m, shared)
Fresh(v, m) ==
  LET negs == SeqOfSet({x \in LabelsIn(v) : x < -1})
      shared == [x \in Rng(negs) |-> m + IdxOf(negs, x)]
  IN Conc(v, m + Len(negs), shared)

(* the state after an operation, concrete *)
After1(St, op, X) ==
  LET out == IF "out" \in DOMAIN op /\ op.out # "" /\ X.r.o = "ok" THEN op.out ELSE ""
      c == Fresh(X.S[out], St.m)
      S == IF out = "" THEN X.S ELSE [X.S EXCEPT ![out] = c.v]
  IN [S |-> S, E |-> X.E, Q |-> X.Q, H |-> X.H, G |-> {}, m |-> IF out = "" THEN St.m ELSE c.m]
Do(St, op) == After1(St, op, Step(St, op))
RECURSIVE RunAll(_, _)
RunAll(St, ops) == IF ops = <<>> THEN St ELSE RunAll(TLCEval(Do(St, Head(ops))), Tail(ops))
=============================================================================
