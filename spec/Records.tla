------------------------------ MODULE Records -------------------------------
(***************************************************************************)
(* The Records library: annotations and the fillers they are bound to,     *)
(* record classes, construction and parsing, imports, exports, selections, *)
(* copies, comparison.  Everything is described by what a user observes:   *)
(* for each call the outcome (value with identities, or the kinds of error *)
(* that are allowed), the calls of user callbacks it makes, the warnings   *)
(* it issues, and the state it leaves behind.                              *)
(*                                                                         *)
(* The state St of a program using the library:                            *)
(*   S  variables of the program -> values                                 *)
(*   E  record classes that have been defined -> their descriptions        *)
(*   Q  selections -> the six lists of instructions                        *)
(*   H  configured exporters and import factories                          *)
(*   G  hashes observed so far                                             *)
(*                                                                         *)
(* Outcomes are records  [o, v, x, fl, c, w, cu]:                          *)
(*   o   "ok", "err", or "unk" where the specification does not say        *)
(*   v   the result                                                        *)
(*   x   allowed error classes ("TypeError!" excludes ParseFailure)        *)
(*   fl  [f, x]: fields whose rejection may be reported, with the allowed  *)
(*       classes of the cause                                              *)
(*   c   calls of user callbacks, cu: whether they are not specified       *)
(*   w   number of warnings, -1 where it is not specified                  *)
(***************************************************************************)
EXTENDS PyValues

Plus(a, b) == IF a < 0 \/ b < 0 THEN -1 ELSE a + b
RECURSIVE SumW(_)
SumW(s) == IF s = <<>> THEN 0 ELSE Plus(Head(s), SumW(Tail(s)))
AnyErr == {"Exception"}

(***************************************************************************)
(* Selections                                                              *)
(***************************************************************************)
EmptySel == [rm |-> <<>>, mrm |-> <<>>, rn |-> <<>>, mrn |-> <<>>, ad |-> <<>>, mad |-> <<>>]
SelEmpty(q) == q.rm = <<>> /\ q.mrm = <<>> /\ q.rn = <<>> /\ q.mrn = <<>> /\ q.ad = <<>> /\ q.mad = <<>>
MergeSel(a, b) == [rm |-> a.rm \o b.rm, mrm |-> a.mrm \o b.mrm, rn |-> a.rn \o b.rn, mrn |-> a.mrn \o b.mrn,
                   ad |-> a.ad \o b.ad, mad |-> a.mad \o b.mad]
RECURSIVE MergeSels(_, _)
MergeSels(q, qs) == IF qs = <<>> THEN q ELSE MergeSels(MergeSel(q, Head(qs)), Tail(qs))

(* one instruction: [k |-> kind, a |-> key name, b |-> new key name, v |-> value]; m: a mapping *)
SelOk(m)  == [o |-> "ok", v |-> m, x |-> {}]
SelErr(e) == [o |-> "err", v |-> NothingV, x |-> {e}]
Instr(m, t) ==
  LET a == StrV(t.a)
      b == StrV(t.b)
  IN CASE t.k = "rm"  -> IF HasKey(m, a) THEN SelOk(DelKey(m, a)) ELSE SelErr("KeyError")
       [] t.k = "mrm" -> SelOk(DelKey(m, a))
       [] t.k = "rn"  -> IF ~HasKey(m, a) THEN (IF HasKey(m, b) THEN [SelErr("KeyError") EXCEPT !.x = {"KeyError", "ValueError"}]
                                                ELSE SelErr("KeyError"))
                         ELSE IF HasKey(m, b) THEN SelErr("ValueError")
                         ELSE SelOk(PutKey(DelKey(m, a), b, GetKey(m, a)))
       [] t.k = "mrn" -> IF ~HasKey(m, a) THEN SelOk(m)
                         ELSE IF HasKey(m, b) THEN SelErr("ValueError")
                         ELSE SelOk(PutKey(DelKey(m, a), b, GetKey(m, a)))
       [] t.k = "ad"  -> IF HasKey(m, a) THEN SelErr("ValueError") ELSE SelOk(PutKey(m, a, t.v))
       [] OTHER       -> IF HasKey(m, a) THEN SelOk(m) ELSE SelOk(PutKey(m, a, t.v))
RECURSIVE RunInstr(_, _)
RunInstr(m, ts) == IF ts = <<>> THEN SelOk(m)
                   ELSE LET r == Instr(m, Head(ts)) IN IF r.o = "ok" THEN RunInstr(r.v, Tail(ts)) ELSE r
Ins(k, a, b, v) == [k |-> k, a |-> a, b |-> b, v |-> v]
Instructions(q) ==
     [j \in DOMAIN q.rm  |-> Ins("rm", q.rm[j], "", NothingV)]
  \o [j \in DOMAIN q.mrm |-> Ins("mrm", q.mrm[j], "", NothingV)]
  \o [j \in DOMAIN q.rn  |-> Ins("rn", q.rn[j][1], q.rn[j][2], NothingV)]
  \o [j \in DOMAIN q.mrn |-> Ins("mrn", q.mrn[j][1], q.mrn[j][2], NothingV)]
  \o [j \in DOMAIN q.ad  |-> Ins("ad", q.ad[j][1], "", q.ad[j][2])]
  \o [j \in DOMAIN q.mad |-> Ins("mad", q.mad[j][1], "", q.mad[j][2])]
(* m: a value of kind dict; the result is a fresh dict unless there is nothing to do *)
ApplySel(q, m) ==
  LET r == RunInstr(m, Instructions(q))
  IN IF r.o = "ok" THEN [r EXCEPT !.v = Val("dict", "", 0, r.v.e, IF SelEmpty(q) THEN m.i ELSE -1)] ELSE r

(***************************************************************************)
(* Binding annotations to fillers                                          *)
(***************************************************************************)
IterClasses == {"list", "set", "frozenset", "deque", "Sequence", "MutableSequence", "Set", "MutableSet"}
MapClasses  == {"dict", "defaultdict", "Mapping", "MutableMapping"}
LiteralOrigins == {"int", "str", "float", "complex", "set", "tuple", "dict", "list", "bool"}
ContainerTs == {"tuple", "vtuple", "iter", "map", "gen"}

(* aliases *)
RECURSIVE Norm(_)
Norm(T) ==
  CASE T.t = "any"  -> [T EXCEPT !.t = "cls", !.c = "object"]
    [] T.t = "none" -> [T EXCEPT !.t = "cls", !.c = "NoneType"]
    [] T.t = "ell"  -> [T EXCEPT !.t = "cls", !.c = "ellipsis"]
    [] T.t = "bare" -> [T EXCEPT !.t = "cls"]
    [] T.t = "type" /\ T.c = "" -> [T EXCEPT !.t = "cls", !.c = "type"]
    [] T.t = "newtype" -> Norm([T.a[1] EXCEPT !.m = T.m])
    [] OTHER -> T

IsCo(t) == t.t = "co"
IsVa(t) == t.t = "va"
IsStyle(t) == t.t = "style"

HasMethod(c, g) == \/ g = "from_bytes" /\ c \in {"int", "MyInt", "bool"}
                   \/ g = "fromhex" /\ c = "float"
                   \/ g = "make" /\ c \in {"C1", "E1"}

(* whether a coercion token can work for an origin class ("" where the origin is not a class) *)
RECURSIVE CoOk(_, _, _)
CoOk(T, c, t) ==
  CASE t.f \in {"loose", "unpack", "unpackmap"} -> c # "" /\ ~Abstract(c)
    [] t.f = "literal" -> c \in LiteralOrigins
    [] t.f = "frombool" -> T.t = "cls" /\ c = "bool"
    [] t.f = "cm" -> HasMethod(c, t.g)
    [] t.f = "compose" -> \A j \in DOMAIN t.a : CoOk(T, c, t.a[j])
    [] OTHER -> TRUE

(* bounds that contradict each other are refused when the token is created *)
BadBounds(t) ==
  /\ t.t = "va"
  /\ t.f \in {"within", "clamp"}
  /\ Len(t.vs[1]) = 1 /\ Len(t.vs[2]) = 1
  /\ LET r == Cmp(t.vs[1][1], t.vs[2][1])
     IN \/ r \in {"gt", "err"}
        \/ r = "eq" /\ t.f = "within" /\ ~(t.fl[1] /\ t.fl[2])

Origin(T) ==
  CASE T.t \in {"cls", "iter", "map", "gen"} -> T.c
    [] T.t = "type" -> "type"
    [] T.t \in {"tuple", "vtuple"} -> "tuple"
    [] OTHER -> ""

BoundF(T, st, co, va, a) == [t |-> T.t, c |-> Origin(T), st |-> st, co |-> co, va |-> va, a |-> a, l |-> T.l, b |-> T.c]
Bad == [ok |-> FALSE, b |-> BoundF([t |-> "dumb", c |-> "", l |-> <<>>], "hollow", <<>>, <<>>, <<>>)]

RECURSIVE HollowB(_)
HollowB(b) == CASE b.t = "union" -> \A j \in DOMAIN b.a : HollowB(b.a[j])
                [] b.t = "dumb" -> TRUE
                [] OTHER -> b.st = "hollow"

(* pre: tokens applied before those of the annotation; spre: seq of [key, tok] for the direct sub-positions *)
RECURSIVE Bind(_, _, _, _)
Bind(T0, pre, spre, dflt) ==
  LET T    == Norm(T0)
      toks == SelectSeq(pre \o T.m, LAMBDA t : t.t # "tag")
      sty  == SelectSeq(toks, IsStyle)
      co   == SelectSeq(toks, IsCo)
      va   == SelectSeq(toks, IsVa)
      st   == IF sty = <<>> THEN dflt ELSE sty[Len(sty)].f
      subpre(j) == LET s == SelectSeq(spre, LAMBDA p : p.key = j - 1) IN [n \in DOMAIN s |-> s[n].tok]
      nsub == CASE T.t = "union" -> Len(T.a) [] T.t = "tuple" -> Len(T.a) [] T.t = "vtuple" -> 1
                [] T.t = "iter" -> 1 [] T.t = "map" -> 2 [] OTHER -> 0
      keysOk == \A n \in DOMAIN spre : spre[n].key \in 0..(nsub - 1)
  IN IF ~keysOk \/ \E n \in DOMAIN toks : BadBounds(toks[n]) THEN Bad
     ELSE IF T.t = "dumb" THEN
        IF T0.m # <<>> \/ pre # <<>> \/ dflt # "hollow" THEN Bad
        ELSE [ok |-> TRUE, b |-> BoundF(T, "hollow", <<>>, <<>>, <<>>)]
     ELSE IF T.t = "union" THEN
        LET subs == TLCEval([j \in DOMAIN T.a |-> Bind(T.a[j], subpre(j) \o SelectSeq(T.m, LAMBDA t : t.t # "tag") \o pre, <<>>, dflt)])
        IN IF \E j \in DOMAIN subs : ~subs[j].ok THEN Bad
           ELSE [ok |-> TRUE, b |-> BoundF(T, "", <<>>, <<>>, [j \in DOMAIN subs |-> subs[j].b])]
     ELSE
        LET subs == TLCEval([j \in DOMAIN T.a |-> Bind(T.a[j], subpre(j), <<>>, dflt)])
            okSubs == T.t \in ContainerTs => \A j \in DOMAIN subs : subs[j].ok
            someChecked == T.t \in ContainerTs /\ \E j \in DOMAIN subs : ~HollowB(subs[j].b)
        IN IF \/ ~okSubs
              \/ \E j \in DOMAIN co : ~CoOk(T, Origin(T), co[j])
              \/ st = "hollow" /\ co # <<>>
              \/ st = "strict" /\ Origin(T) # "" /\ Abstract(Origin(T))
              \/ someChecked /\ (st = "hollow" \/ T.t = "gen")
           THEN Bad
           ELSE [ok |-> TRUE, b |-> BoundF(T, st, co, va, IF T.t \in ContainerTs THEN [j \in DOMAIN subs |-> subs[j].b] ELSE <<>>)]

(***************************************************************************)
(* Filling                                                                 *)
(*   tp  how the type matched: 0 exact, 1 subclass, 2 coerced, 3 unchecked *)
(*   th  whether a callback may have replaced the value by an equal one    *)
(***************************************************************************)
Ok(v)    == [o |-> "ok", v |-> v, tp |-> 0, x |-> {}, c |-> <<>>, w |-> 0, th |-> FALSE, cu |-> FALSE]
Err(e)   == [Ok(NothingV) EXCEPT !.o = "err", !.x = {e}]
Errs(es) == [Ok(NothingV) EXCEPT !.o = "err", !.x = es]
Unk      == [Ok(NothingV) EXCEPT !.o = "unk", !.cu = TRUE, !.w = -1]
Touch(r) == [r EXCEPT !.th = TRUE]
OfPrim(p) == IF p.o = "ok" THEN Touch(Ok(p.v)) ELSE IF p.o = "err" THEN Err(p.x) ELSE Unk

FnAny == Rng(Facts.fnany)       \* callbacks that ignore their argument
CallFn(g, v) ==
  IF Known(v) THEN (IF g \in {"ident", "truthy"} THEN Ok(v) ELSE OfPrim(Facts.prims["fn:" \o g][v.s]))
  ELSE LET gen == Facts.fngen[g]
       IN IF g \in {"ident", "truthy"} THEN Ok(v)
          ELSE IF g \notin FnAny /\ Fam(v.k) = "atom" /\ ~IsFresh(v) THEN Unk
          ELSE IF gen = "unknown" THEN Unk
          ELSE IF gen \in WrapNames THEN Err(gen)
          ELSE Touch(Ok(Atom(gen)))

(* whether two values are the same object: "same" "diff" "maybe" *)
Singleton(v) == v.k \in {"bool", "NoneType", "ellipsis", "type", "function", "builtin_function"}
                \/ v.k \in OpaqueNames \/ (v.k = "int" /\ v.n >= -10 /\ v.n <= 512)
Ident(a, b, touched) ==
  IF a.i # 0 \/ b.i # 0 THEN (IF a.i = b.i /\ a.i > 0 THEN "same" ELSE "diff")
  ELSE IF SameShape(a, b) THEN (IF ~touched \/ Singleton(a) THEN "same" ELSE "maybe")
  ELSE "diff"

LogCall(t, v) == IF t.p = "" THEN <<>> ELSE <<[f |-> t.pf, p |-> t.p, lo |-> t.lo, v |-> v]>>

(* class (args...) for classes that are not record classes *)
CtorAtom(name, v) == IF name \in PrimNames THEN OfPrim(Facts.prims[name][v.s]) ELSE Unk
PairLike(v) == Fam(v.k) \in {"list", "tuple", "deque"} /\ Len(v.e) = 2
RECURSIVE AsPairs(_)
AsPairs(es) == IF es = <<>> THEN <<>>
               ELSE <<PairV(Head(es).e[1], Head(es).e[2])>> \o AsPairs(Tail(es))
Ctor1(c, variant, v) ==
  LET name == "ctor:" \o c \o variant
      it == Iter(v)
  IN IF Known(v) THEN CtorAtom(name, v)
     ELSE IF c = "bool" THEN Ok(BoolV(Truth(v)))
     ELSE IF Fam(v.k) = "atom" /\ ~IsFresh(v) THEN Unk
     ELSE IF c = "NT1" THEN Ok(Val("NT1", "", 0, <<v>>, -1))
     ELSE IF c = "NT2" THEN Ok(Val("NT2", "", 0, <<v, Atom("int:0")>>, -1))
     ELSE IF c = "VT" THEN Ok(Val("VT", "", 0, <<v>>, -1))
     ELSE IF variant # "" THEN Unk
     ELSE IF c \in {"int", "float", "complex", "Fraction", "MyInt", "C0", "C1", "C2", "D0", "E1", "AbsImpl", "object",
                    "NoneType", "ellipsis", "range"} THEN Err("TypeError")
     ELSE IF c \in {"list", "MyList", "MyTuple", "tuple", "deque", "set", "frozenset"} THEN
        IF it.o = "err" THEN Err("TypeError")
        ELSE IF c \in {"tuple", "frozenset"} /\ v.k = c THEN Ok(v)
        ELSE IF it.o = "unk" /\ ~(c \in {"set", "frozenset"} /\ Fam(v.k) = "set") THEN Unk
        ELSE IF c \in {"set", "frozenset"} THEN
           IF AllSt({HashSt(it.e[j]) : j \in DOMAIN it.e}) = "unk" THEN Unk
           ELSE IF \A j \in DOMAIN it.e : Hashable(it.e[j]) THEN Ok(Val(c, "", 0, Distinct(it.e, <<>>), IF it.e = <<>> /\ c = "frozenset" THEN 0 ELSE -1))
           ELSE Err("TypeError")
        ELSE Ok(Val(c, IF c = "deque" THEN "None" ELSE "", 0, it.e, IF c = "tuple" /\ it.e = <<>> THEN 0 ELSE -1))
     ELSE IF c \in {"dict", "MyDict", "OrderedDict"} THEN
        IF Fam(v.k) = "dict" THEN Ok(Val(c, "", 0, v.e, -1))
        ELSE IF it.o = "err" THEN Err("TypeError")
        ELSE IF it.o = "ok" /\ it.e = <<>> THEN Ok(Val(c, "", 0, <<>>, -1))
        ELSE IF it.o = "ok" /\ \A j \in DOMAIN it.e : PairLike(it.e[j]) THEN
           IF AllSt({HashSt(it.e[j].e[1]) : j \in DOMAIN it.e}) = "unk" THEN Unk
           ELSE IF \A j \in DOMAIN it.e : Hashable(it.e[j].e[1]) THEN Ok(Val(c, "", 0, InsertPairs(AsPairs(it.e), <<>>), -1))
           ELSE Err("TypeError")
        ELSE Unk
     ELSE Unk
CtorN(c, variant, args) ==
  IF Len(args) = 1 THEN Ctor1(c, variant, args[1])
  ELSE IF variant # "" THEN Unk
  ELSE IF c = "VT" THEN Ok(Val("VT", "", 0, args, IF args = <<>> THEN 0 ELSE -1))
  ELSE IF c = "NT2" THEN (IF Len(args) = 2 THEN Ok(Val("NT2", "", 0, args, -1)) ELSE Err("TypeError"))
  ELSE IF c = "NT1" THEN Err("TypeError")
  ELSE IF args = <<>> THEN (IF c \in EmptyNames THEN OfPrim(Facts.empty[c]) ELSE Unk)
  ELSE IF c \in {"list", "MyList", "tuple", "MyTuple", "set", "frozenset", "dict", "MyDict", "OrderedDict", "bool", "float",
                 "C0", "C1", "C2", "D0", "E1", "AbsImpl", "NoneType", "ellipsis", "object"} THEN Err("TypeError")
  ELSE Unk
(* class called with the items of the mapping v as keywords *)
CtorKw(c, v) ==
  IF c = "OrderedDict" /\ Fam(v.k) = "dict" /\ \E j \in DOMAIN v.e : v.e[j].e[1].k \notin StrKinds THEN Unk
  ELSE IF Fam(v.k) # "dict" \/ \E j \in DOMAIN v.e : v.e[j].e[1].k \notin StrKinds THEN Err("TypeError")
  ELSE IF v.e = <<>> THEN CtorN(c, "", <<>>)
  ELSE IF c = "NT2" THEN
     IF (\A j \in DOMAIN v.e : v.e[j].e[1].s \in {"str:a", "str:b"}) /\ HasKey(v, StrV("a"))
     THEN Ok(Val("NT2", "", 0, <<GetKey(v, StrV("a")), IF HasKey(v, StrV("b")) THEN GetKey(v, StrV("b")) ELSE Atom("int:0")>>, -1))
     ELSE Err("TypeError")
  ELSE IF c = "NT1" THEN
     IF \A j \in DOMAIN v.e : v.e[j].e[1].s = "str:a" THEN Ok(Val("NT1", "", 0, <<v.e[1].e[2]>>, -1)) ELSE Err("TypeError")
  ELSE IF c \in {"dict", "MyDict", "OrderedDict"} THEN Ok(Val(c, "", 0, v.e, -1))
  ELSE IF c \in {"C0", "C1", "C2", "D0", "E1", "VT", "NoneType", "bool", "float", "list", "tuple", "set", "frozenset"} THEN Err("TypeError")
  ELSE Unk

IntAtom(h) == "int:" \o ToString(h \div 2)

InstOf(E, v, names) == \E j \in DOMAIN names : IsInst(E, v, names[j])

(* type checking: "exact" "inexact" "no" "unk" *)
TypeCheck(E, b, v) ==
  IF v.k = "other" THEN "unk"
  ELSE CASE b.t = "callable" -> IF CallableV(v) THEN "exact" ELSE "no"
         [] b.t = "lit" ->
              IF \E j \in DOMAIN b.l : b.l[j].k = ClassOf(v) THEN "exact"
              ELSE IF \E j \in DOMAIN b.l : IsInst(E, v, b.l[j].k) THEN "inexact" ELSE "no"
         [] OTHER -> IF ClassOf(v) = b.c THEN "exact" ELSE IF IsInst(E, v, b.c) THEN "inexact" ELSE "no"

(***************************************************************************)
(* Validators                                                              *)
(***************************************************************************)
(* the outcome of an assertion: cond "yes" "no" "unk" or an error class in e *)
Assertion(t, cond, v) ==
  IF cond = "unk" THEN Unk
  ELSE IF cond = "yes" THEN Ok(v)
  ELSE IF t.w # "no" THEN [Ok(v) EXCEPT !.w = 1]
  ELSE Err(IF t.x = "" THEN "ValueError" ELSE t.x)

Bound(bs, v, strictOk(_)) ==       \* bs: <<>> or <<bound>>
  IF bs = <<>> THEN "yes"
  ELSE LET r == Cmp(v, bs[1]) IN IF r \in {"err", "unk"} THEN r ELSE IF strictOk(r) THEN "yes" ELSE "no"

NumKind(v, a, b) == IF "Fraction" \in {v.k, a.k, b.k} THEN "unk"
                    ELSE IF "float" \in {v.k, a.k, b.k} THEN "float"
                    ELSE "int"
(* atoms named by number *)
NumAtom(k, n) ==
  IF k = "int" THEN IF n % 2 = 0 THEN Val("int", "int:" \o ToString(n \div 2), n, <<>>, 0) ELSE NothingV
  ELSE LET neg == n < 0
           m == IF neg THEN -n ELSE n
       IN Val("float", "float:" \o (IF neg THEN "-" ELSE "") \o ToString(m \div 2) \o (IF m % 2 = 0 THEN ".0" ELSE ".5"), n, <<>>, 0)

Validate(E, b, t, v) ==
  IF t.f = "call" THEN
     LET r == CallFn(t.g, v) IN [r EXCEPT !.c = LogCall(t, v)]
  ELSE IF t.f = "acall" THEN
     LET r == CallFn(t.g, v)
         a == IF r.o # "ok" THEN r ELSE Assertion(t, IF Murky(r.v) THEN "unk" ELSE IF Truth(r.v) THEN "yes" ELSE "no", v)
     IN [a EXCEPT !.c = LogCall(t, v)]
  ELSE IF t.f = "within" THEN
     LET lo == Bound(t.vs[1], v, LAMBDA r : r = "gt" \/ (r = "eq" /\ t.fl[1]))
         hi == Bound(t.vs[2], v, LAMBDA r : r = "lt" \/ (r = "eq" /\ t.fl[2]))
     IN IF lo = "err" THEN Err("TypeError")
        ELSE IF lo = "unk" THEN Unk
        ELSE IF lo = "no" THEN (IF hi = "err" \/ hi = "unk" THEN Unk ELSE Assertion(t, "no", v))
        ELSE IF hi = "err" THEN Err("TypeError")
        ELSE Assertion(t, hi, v)
  ELSE IF t.f = "clamp" THEN
     LET lo == Bound(t.vs[1], v, LAMBDA r : r # "lt")
         hi == Bound(t.vs[2], v, LAMBDA r : r # "gt")
     IN IF lo = "err" \/ hi = "err" THEN Err("TypeError")
        ELSE IF lo = "unk" \/ hi = "unk" THEN Unk
        ELSE IF lo = "no" THEN Ok(t.vs[1][1])
        ELSE IF hi = "no" THEN Ok(t.vs[2][1])
        ELSE Ok(v)
  ELSE IF t.f = "cyclic" THEN
     LET lo == t.vs[1][1]
         hi == t.vs[2][1]
         rl == Cmp(v, lo)
         rh == Cmp(v, hi)
         k == NumKind(v, lo, hi)
     IN IF rl = "err" \/ rh = "err" THEN Err("TypeError")
        ELSE IF rl = "unk" \/ rh = "unk" THEN Unk
        ELSE IF rl # "lt" /\ rh = "lt" THEN Ok(v)
        ELSE IF v.k \notin RealKinds \/ k = "unk" THEN Unk
        ELSE LET n == lo.n + ((v.n - lo.n) % (hi.n - lo.n))
             IN Touch(Ok(NumAtom(k, n)))
  ELSE IF t.f = "match" THEN
     IF v.k \in StrKinds THEN
        IF ~Known(v) THEN Unk
        ELSE LET p == Facts.prims["match:" \o t.g][v.s] IN Assertion(t, IF p.v.s = "bool:True" THEN "yes" ELSE "no", v)
     ELSE Err("TypeError")
  ELSE IF t.f = "truth" THEN Assertion(t, IF Truth(v) THEN "yes" ELSE "no", v)
  ELSE Unk

(* the rest of a sequence of steps after one of them; pre: what has happened so far *)
After(pre, r) == [r EXCEPT !.c = pre.c \o r.c, !.w = Plus(pre.w, r.w), !.th = pre.th \/ r.th, !.cu = pre.cu \/ r.cu]

RECURSIVE Validators(_, _, _, _)
Validators(E, b, ts, r) ==
  IF r.o # "ok" \/ ts = <<>> THEN r
  ELSE Validators(E, b, Tail(ts), After(r, Validate(E, b, Head(ts), r.v)))

(* a union of checks that a container rebuilds itself from its processed elements *)
Rebuild(v, es, maybe) ==
  LET i == IF maybe THEN 0 ELSE -1
  IN CASE Fam(v.k) = "list" -> Ok(Val(v.k, "", 0, es, i))
       [] v.k = "VT" -> Unk
       [] Fam(v.k) = "tuple" -> Ok(Val(v.k, "", 0, es, i))
       [] Fam(v.k) = "deque" -> Ok(Val(v.k, v.s, 0, es, i))
       [] Fam(v.k) = "set" -> IF AllSt({HashSt(es[j]) : j \in DOMAIN es}) = "unk" THEN Unk
                              \* which of several equal elements stays depends on the order of the set
                              ELSE IF \E j, m \in DOMAIN es : PyEq(es[j], es[m]) /\ ~SameShape(es[j], es[m]) THEN Unk
                              ELSE IF \A j \in DOMAIN es : Hashable(es[j]) THEN Ok(Val(v.k, "", 0, Distinct(es, <<>>), i))
                              ELSE Err("TypeError")
       [] OTHER -> Unk
RebuildMap(v, ps, maybe) ==
  IF v.k = "Counter" /\ \E j \in DOMAIN ps : ps[j].e[2].k \notin {"int", "bool", "MyInt"} THEN Unk
  ELSE IF AllSt({HashSt(ps[j].e[1]) : j \in DOMAIN ps}) = "unk" THEN Unk
  ELSE IF \A j \in DOMAIN ps : Hashable(ps[j].e[1])
  THEN Ok(Val(v.k, v.s, 0, InsertPairs(ps, <<>>), IF maybe THEN 0 ELSE -1))
  ELSE Err("TypeError")

(* what the fill of the elements, one after the other, amounts to; rs: their outcomes, ordered or not *)
Elements(rs, ordered) ==
  LET n == Len(rs)
      bad == {j \in 1..n : rs[j].o = "err"}
      unk == {j \in 1..n : rs[j].o = "unk"}
      first == CHOOSE j \in bad : \A m \in bad : j <= m
      upto(k) == [Ok(NothingV) EXCEPT !.c = FlatSeq([j \in 1..k |-> rs[j].c]),
                                      !.w = SumW([j \in 1..k |-> rs[j].w]),
                                      !.cu = \E j \in 1..k : rs[j].cu,
                                      !.th = \E j \in 1..k : rs[j].th]
  IN IF bad = {} /\ unk = {} THEN upto(n)
     ELSE IF bad = {} THEN [Unk EXCEPT !.c = <<>>]
     ELSE IF ordered /\ \A j \in unk : j > first THEN [upto(first) EXCEPT !.o = "err", !.x = rs[first].x]
     ELSE [upto(n) EXCEPT !.o = "err", !.w = -1, !.cu = TRUE,
                          !.x = UNION {rs[j].x : j \in bad} \cup (IF unk = {} THEN {} ELSE AnyErr)]

(***************************************************************************)
(* Records                                                                 *)
(***************************************************************************)
Res(o, v, x) == [o |-> o, v |-> v, x |-> x, fl |-> {}, c |-> <<>>, w |-> 0, cu |-> FALSE]
ROk(v)   == Res("ok", v, {})
RErr(e)  == Res("err", NothingV, {e})
RErrs(e) == Res("err", NothingV, e)
RUnk     == [Res("unk", NothingV, {}) EXCEPT !.w = -1, !.cu = TRUE]
Vague(r) == [r EXCEPT !.cu = TRUE, !.w = -1]

FieldNames(C) == [j \in DOMAIN C.fields |-> C.fields[j].n]
FieldOf(C, n) == C.fields[CHOOSE j \in DOMAIN C.fields : C.fields[j].n = n]
IsField(C, n) == \E j \in DOMAIN C.fields : C.fields[j].n = n
Required(C) == {C.fields[j].n : j \in {m \in DOMAIN C.fields : C.fields[m].d = "none"}}
MkRec(C, vals, i) ==            \* vals: field name -> value
  Val("rec", C.name, (IF C.truth THEN 1 ELSE 0) + (IF C.frozen THEN 2 ELSE 0),
      [j \in DOMAIN C.fields |-> FldV(C.fields[j].n, vals[C.fields[j].n])], i)
KwName(C, key) == CHOOSE n \in Rng(FieldNames(C)) : "str:" \o n = key.s
KwKnown(C, key) == key.k = "str" /\ \E n \in Rng(FieldNames(C)) : "str:" \o n = key.s
WrapOf(e) == IF e \in WrapNames THEN Facts.wrap[e] ELSE "Exception"
(* the error classes under which a construction failure may surface *)
Surface(r) == r.x \cup UNION {{WrapOf(e) : e \in f.x} : f \in r.fl}

ExcludeTag == "X"

RECURSIVE Fill(_, _, _), Coerce(_, _, _, _), Coercers(_, _, _, _, _), New(_, _, _, _), Parse(_, _, _),
          FromMapping(_, _, _, _, _), FromInstance(_, _, _, _, _, _), FromJson(_, _, _, _)

(* class called with args, where the class may be a record class *)
Construct(E, c, variant, args) ==
  IF c \in DOMAIN E THEN
     IF Len(args) > 1 \/ variant # "" THEN Err("TypeError")
     ELSE LET r == New(E, c, args, <<>>)
          IN [Ok(r.v) EXCEPT !.o = r.o, !.x = Surface(r), !.cu = TRUE, !.w = -1]
  ELSE CtorN(c, variant, args)
ConstructKw(E, c, v) ==
  IF c \in DOMAIN E THEN
     IF Fam(v.k) # "dict" \/ \E j \in DOMAIN v.e : v.e[j].e[1].k # "str" THEN Err("TypeError")
     ELSE LET r == New(E, c, <<>>, v.e)
          IN [Ok(r.v) EXCEPT !.o = r.o, !.x = Surface(r), !.cu = TRUE, !.w = -1]
  ELSE CtorKw(c, v)

(* one coercion token *)
Coerce(E, b, t, v) ==
  CASE t.f = "call" -> LET r == CallFn(t.g, v) IN [r EXCEPT !.c = LogCall(t, v)]
    [] t.f = "loose" ->
         IF t.cs # <<>> /\ ~InstOf(E, v, t.cs) THEN Err("TypeError") ELSE Construct(E, b.c, t.g, <<v>>)
    [] t.f = "unpack" ->
         LET it == Iter(v)
         IN IF it.o = "err" THEN Err("TypeError")
            ELSE IF it.o = "unk" THEN Unk
            ELSE IF t.cs = <<>> THEN Construct(E, b.c, "", it.e)
            ELSE IF Len(t.cs) = 2 /\ t.cs[2] = "..." THEN
               IF \A j \in DOMAIN it.e : IsInst(E, it.e[j], t.cs[1]) THEN Construct(E, b.c, "", it.e) ELSE Err("TypeError")
            ELSE IF Len(it.e) = Len(t.cs) /\ \A j \in DOMAIN it.e : IsInst(E, it.e[j], t.cs[j])
                 THEN Construct(E, b.c, "", it.e) ELSE Err("TypeError")
    [] t.f = "unpackmap" ->
         IF t.cs = <<>> THEN ConstructKw(E, b.c, v)
         ELSE IF Fam(v.k) # "dict" THEN Errs({"TypeError", "AttributeError"})
         ELSE IF \A j \in DOMAIN v.e : \E m \in DOMAIN t.cs :
                   v.e[j].e[1].k = "str" /\ v.e[j].e[1].s = "str:" \o t.cs[m][1] /\ IsInst(E, v.e[j].e[2], t.cs[m][2])
              THEN ConstructKw(E, b.c, v) ELSE Err("TypeError")
    [] t.f = "eval" ->
         IF v.k \notin StrKinds THEN Err("TypeError")
         ELSE IF ~Known(v) THEN Unk
         ELSE LET p == "eval:" \o (IF t.g = "bound" THEN b.c ELSE t.g)
              IN IF p \in PrimNames THEN OfPrim(Facts.prims[p][v.s]) ELSE Unk
    [] t.f = "literal" ->
         IF v.k \notin StrKinds THEN Ok(v)
         ELSE IF ~Known(v) THEN Unk
         ELSE LET r == OfPrim(Facts.prims["literal"][v.s])
              IN IF r.o = "err" THEN Errs(r.x \cup {"TypeError", "SyntaxError", "ValueError"}) ELSE r
    [] t.f = "whole" ->
         LET h == IF v.k \in NumKinds THEN v.n ELSE NoNum
         IN IF v.k \notin NumKinds THEN Err("TypeError")
            ELSE IF h = NoNum THEN (IF v.k = "complex" THEN Err("TypeError") ELSE Unk)
            ELSE IF h % 2 # 0 THEN Err("TypeError")
            ELSE LET x == IF v.k \in {"float", "complex"} THEN NumAtom("float", h) ELSE NumAtom("int", h)
                 IN IF Known(x) THEN Construct(E, b.c, t.g, <<x>>) ELSE Unk
    [] t.f = "tobytes" ->
         IF ~IsInst(E, v, "Integral") THEN Err("TypeError")
         ELSE IF ~Known(v) \/ b.c # "bytes" THEN Unk
         ELSE OfPrim(Facts.prims["tobytes:bytes/" \o t.g][v.s])
    [] t.f = "frombool" ->
         IF Murky(v) THEN Unk
         ELSE IF PyEq(v, Atom("int:0")) THEN Ok(FalseV) ELSE IF PyEq(v, Atom("int:1")) THEN Ok(TrueV) ELSE Err("TypeError")
    [] t.f = "falsish" ->
         IF Murky(v) THEN Unk ELSE IF Truth(v) THEN Err("TypeError") ELSE Construct(E, b.c, "", <<>>)
    [] t.f = "map" ->
         IF Unhashable(v) THEN Err("TypeError")
         ELSE IF Murky(v) \/ ~Hashable(v) THEN Unk
         ELSE LET hit  == {j \in DOMAIN t.vs[1] : PyEq(t.vs[1][j][1], v)}
                  hit2 == {j \in DOMAIN t.vs[2] : PyEq(t.vs[2][j][1], v)}
              IN IF hit # {} THEN Ok(t.vs[1][CHOOSE j \in hit : TRUE][2])
                 ELSE IF hit2 # {} THEN
                    LET x == t.vs[2][CHOOSE j \in hit2 : TRUE][2]
                    IN IF x.k = "raise" THEN Err(x.s) ELSE Touch(Ok(x))
                 ELSE Err("TypeError")
    [] t.f = "cm" ->
         LET p == "cm:" \o (IF t.g = "from_bytes" THEN "int" ELSE IF t.g = "fromhex" THEN "float" ELSE "C1") \o "." \o t.g
         IN IF b.c \notin {"int", "float", "C1", "E1"} THEN Unk
            ELSE IF Known(v) THEN OfPrim(Facts.prims[p][v.s])
            ELSE IF t.g = "fromhex" /\ Fam(v.k) # "atom" THEN Err("TypeError")
            ELSE IF t.g = "make" /\ (Fam(v.k) # "atom" \/ IsFresh(v)) THEN Err("LookupError")
            ELSE Unk
    [] t.f = "compose" ->
         LET RECURSIVE Go(_, _)
             Go(j, r) == IF j = 0 \/ r.o # "ok" THEN r ELSE Go(j - 1, After(r, Coerce(E, b, t.a[j], r.v)))
         IN Go(Len(t.a), Ok(v))
    [] OTHER -> Unk

(* coercers in turn, each on the original value, up to the first that yields the type *)
Coercers(E, b, ts, v, done) ==
  LET r0 == After(done, Coerce(E, b, Head(ts), v))
      tc == IF r0.o = "ok" THEN TypeCheck(E, b, r0.v) ELSE "no"
      r  == IF r0.o = "ok" /\ ~(tc = "exact" \/ (tc = "inexact" /\ b.st = "check"))
            THEN [r0 EXCEPT !.o = "err", !.x = {"TypeError"}] ELSE r0
  IN IF r0.o = "unk" \/ tc = "unk" THEN Unk
     ELSE IF r.o = "ok" THEN [r EXCEPT !.tp = 2]
     ELSE IF Len(ts) = 1 THEN r
     ELSE Coercers(E, b, Tail(ts), v, [Ok(NothingV) EXCEPT !.c = r.c, !.w = r.w, !.cu = r.cu])

TypeStage(E, b, v) ==
  IF b.st = "hollow" THEN [Ok(v) EXCEPT !.tp = 3]
  ELSE LET tc == TypeCheck(E, b, v)
       IN IF tc = "unk" THEN Unk
          ELSE IF tc = "exact" THEN Ok(v)
          ELSE IF tc = "inexact" /\ b.st = "check" THEN [Ok(v) EXCEPT !.tp = 1]
          ELSE IF b.co = <<>> THEN Err("TypeError")
          ELSE Coercers(E, b, b.co, v, Ok(NothingV))

RECURSIVE Quiet(_)
Quiet(b) == b.va = <<>> /\ \A j \in DOMAIN b.a : Quiet(b.a[j])
(* a container whose elements are all unchecked; whether validators on unchecked elements run is not specified *)
Unprocessed(b, r) == IF \A j \in DOMAIN b.a : Quiet(b.a[j]) THEN r ELSE After(r, Unk)

(* the checks and processing that belong to the annotation itself, after the declared validators *)
OwnStage(E, b, r) ==
  LET v == r.v
  IN IF b.st = "hollow" THEN r
     ELSE IF b.t = "lit" THEN
        IF Murky(v) \/ ~Hashable(v) THEN After(r, Unk)
        ELSE IF \E j \in DOMAIN b.l : b.l[j].k = ClassOf(v) /\ PyEq(b.l[j], v) THEN r ELSE After(r, Err("ValueError"))
     ELSE IF b.t = "type" THEN
        IF v.k # "type" THEN After(r, Err("TypeError"))
        ELSE IF ~Known(v) /\ ~(\E x \in DOMAIN E : "type:" \o x = v.s) THEN After(r, Unk)
        ELSE IF IsSubclass(E, v.s, b.b) THEN r ELSE After(r, Err("ValueError"))
     ELSE IF b.t = "tuple" THEN
        IF Fam(v.k) # "tuple" THEN After(r, Unk)
        ELSE IF Len(v.e) # Len(b.a) THEN After(r, Err("ValueError"))
        ELSE IF \A j \in DOMAIN b.a : HollowB(b.a[j]) THEN Unprocessed(b, r)
        ELSE LET rs == TLCEval([j \in DOMAIN v.e |-> Fill(E, b.a[j], v.e[j])])
                 es == Elements(rs, TRUE)
                 ids == {Ident(v.e[j], rs[j].v, rs[j].th) : j \in DOMAIN v.e}
             IN IF es.o # "ok" THEN After(r, es)
                ELSE IF ids \subseteq {"same"} THEN After(r, [es EXCEPT !.v = v])
                ELSE After(r, After(es, Rebuild(v, [j \in DOMAIN v.e |-> rs[j].v], "diff" \notin ids)))
     ELSE IF b.t \in {"vtuple", "iter"} THEN
        IF HollowB(b.a[1]) THEN Unprocessed(b, r) ELSE
        LET it == Iter(v)
        IN IF it.o = "err" \/ (it.o = "unk" /\ Fam(v.k) # "set") THEN After(r, Unk)
           ELSE LET rs == TLCEval([j \in DOMAIN it.e |-> Fill(E, b.a[1], it.e[j])])
                    es == Elements(rs, Fam(v.k) # "set")
                    ids == {Ident(it.e[j], rs[j].v, rs[j].th) : j \in DOMAIN it.e}
                IN IF es.o # "ok" THEN After(r, es)
                   ELSE IF ids \subseteq {"same"} THEN After(r, [es EXCEPT !.v = v])
                   ELSE After(r, After(es, Rebuild(v, [j \in DOMAIN it.e |-> rs[j].v], "diff" \notin ids)))
     ELSE IF b.t = "map" THEN
        IF HollowB(b.a[1]) /\ HollowB(b.a[2]) THEN Unprocessed(b, r)
        ELSE IF Fam(v.k) # "dict" THEN After(r, Unk)
        ELSE LET rs == TLCEval([j \in 1..(2 * Len(v.e)) |->
                          IF j % 2 = 1 THEN Fill(E, b.a[1], v.e[(j + 1) \div 2].e[1]) ELSE Fill(E, b.a[2], v.e[j \div 2].e[2])])
                 es == Elements(rs, FALSE)
                 ids == {Ident(v.e[(j + 1) \div 2].e[IF j % 2 = 1 THEN 1 ELSE 2], rs[j].v, rs[j].th) : j \in DOMAIN rs}
             IN IF es.o # "ok" THEN After(r, es)
                ELSE IF ids \subseteq {"same"} THEN After(r, [es EXCEPT !.v = v])
                ELSE After(r, After(es, RebuildMap(v, [j \in DOMAIN v.e |-> PairV(rs[2 * j - 1].v, rs[2 * j].v)], "diff" \notin ids)))
     ELSE r

FillUnion(E, b, v) ==
  LET rs == TLCEval([j \in DOMAIN b.a |-> Fill(E, b.a[j], v)])
      ok == {j \in DOMAIN rs : rs[j].o = "ok"}
      best == {j \in ok : \A m \in ok : rs[j].tp <= rs[m].tp}
      pairs == {<<j, m>> \in best \X best : j < m}
      ids == {Ident(rs[p[1]].v, rs[p[2]].v, rs[p[1]].th \/ rs[p[2]].th) : p \in pairs}
  IN IF \E j \in DOMAIN rs : rs[j].o = "unk" THEN Unk
     ELSE IF ok = {} THEN Vague(Errs(AnyErr))
     ELSE IF "diff" \in ids THEN Vague(Err("ValueError"))
     ELSE IF "maybe" \in ids THEN Unk
     ELSE Vague(rs[CHOOSE j \in best : TRUE])

Fill(E, b, v) ==
  IF b.t = "dumb" THEN [Ok(v) EXCEPT !.tp = 3]
  ELSE IF b.t = "union" THEN FillUnion(E, b, v)
  ELSE LET ts == TypeStage(E, b, v)
           vs == Validators(E, b, b.va, ts)
           r  == IF vs.o = "ok" THEN OwnStage(E, b, vs) ELSE vs
       IN [r EXCEPT !.tp = ts.tp]

(***************************************************************************)
(* Construction                                                            *)
(***************************************************************************)
(* the hook that runs on the complete instance *)
PostRuns(C, inst) == C.post.k # "none" /\ (C.post.cf = "" \/ PyEq(GetFld(inst, C.post.cf), C.post.cv))
Post(E, C, inst) ==
  IF C.post.k = "none" THEN ROk(inst)
  ELSE IF C.post.cf # "" /\ Murky(GetFld(inst, C.post.cf)) THEN RUnk
  ELSE LET call == <<[f |-> "", p |-> "post", lo |-> FALSE, v |-> inst]>>
           r == IF ~PostRuns(C, inst) THEN ROk(inst)
                ELSE CASE C.post.k = "set" ->
                            IF C.frozen THEN RErr("TypeError")
                            ELSE IF HasFld(inst, C.post.f)
                            THEN ROk([inst EXCEPT !.e = [j \in DOMAIN inst.e |->
                                        IF inst.e[j].s = C.post.f THEN FldV(C.post.f, C.post.v) ELSE inst.e[j]]])
                            ELSE ROk([inst EXCEPT !.e = Append(@, Val("attr", C.post.f, 0, <<C.post.v>>, 0))])
                       [] C.post.k = "raise" -> RErr(C.post.f)
                       [] C.post.k = "rep" -> ROk(IF IsNone(C.post.v) THEN inst ELSE C.post.v)
                       [] OTHER -> ROk(inst)      \* "noop", "self"
       IN [r EXCEPT !.c = call]

(* kw: sequence of pairs of distinct keys and values *)
NewKw(E, cn, kw) ==
  LET C == E[cn]
      allStr == \A j \in DOMAIN kw : kw[j].e[1].k \in StrKinds
      known(j) == KwKnown(C, kw[j].e[1])
      good == {j \in DOMAIN kw : known(j)}
      name(j) == KwName(C, kw[j].e[1])
      fill == TLCEval([j \in good |-> Fill(E, FieldOf(C, name(j)).b, kw[j].e[2])])
      bad == {j \in good : fill[j].o = "err"}
      unk == {j \in good : fill[j].o = "unk"}
      given == {name(j) : j \in good}
      missing == Required(C) \ given
      calls == FlatSeq([j \in DOMAIN kw |-> IF j \in good THEN fill[j].c ELSE <<>>])
      cu == \E j \in good : fill[j].cu
      warns == IF good = {} THEN 0 ELSE SumW([j \in DOMAIN kw |-> IF j \in good THEN fill[j].w ELSE 0])
      omitted == SelectSeq(C.fields, LAMBDA f : f.n \notin given)
      facs == SelectSeq(omitted, LAMBDA f : f.d = "fac")
      facCalls == [j \in DOMAIN facs |-> [f |-> facs[j].own \o "." \o facs[j].n, p |-> "fac", lo |-> FALSE, v |-> NothingV]]
      facErr == {facs[j].dv.s : j \in {m \in DOMAIN facs : facs[m].dv.k = "raise"}}
      fl == {[f |-> name(j), x |-> fill[j].x] : j \in bad} \cup {[f |-> name(j), x |-> AnyErr] : j \in unk}
      vals == [n \in Rng(FieldNames(C)) |->
                 IF n \in given THEN fill[CHOOSE j \in good : name(j) = n].v ELSE FieldOf(C, n).dv]
      inst == MkRec(C, vals, -1)
  IN IF ~allStr \/ \E j \in DOMAIN kw : kw[j].e[1].k # "str" THEN Vague(RErr("TypeError"))
     ELSE IF \E j \in DOMAIN kw : ~known(j) THEN
        [Vague(RErr("TypeError")) EXCEPT !.fl = IF bad = {} THEN {} ELSE fl]
     ELSE IF bad # {} \/ missing # {} THEN
        [RErrs(IF missing # {} THEN {"TypeError"} ELSE {}) EXCEPT !.fl = IF bad = {} /\ missing = {} THEN {} ELSE fl,
                                                               !.c = calls \o facCalls, !.cu = cu, !.w = -1]
     ELSE IF unk # {} THEN RUnk
     ELSE IF facErr # {} THEN [RErrs(facErr) EXCEPT !.c = calls \o facCalls, !.cu = cu, !.w = -1]
     ELSE LET p == Post(E, C, inst)
          IN [p EXCEPT !.c = calls \o facCalls \o p.c, !.cu = cu \/ p.cu, !.w = Plus(warns, p.w)]

New(E, cn, pos, kw) ==
  LET C == E[cn]
      req == Required(C)
      parsed == Parse(E, cn, pos[1])
      triv == CHOOSE n \in req : TRUE
      made == NewKw(E, cn, kw \o <<PairV(StrV(triv), pos[1])>>)
  IN IF pos = <<>> THEN NewKw(E, cn, kw)
     ELSE IF kw = <<>> /\ C.unary THEN
        IF parsed.o = "unk" THEN RUnk
        ELSE IF parsed.o = "ok" /\ IsNone(parsed.v) THEN RUnk      \* a parser that returns None: not specified
        ELSE IF parsed.o = "err" /\ "TypeError!" \in parsed.x THEN Vague(parsed)
        ELSE IF Cardinality(req) # 1 THEN Vague(parsed)
        ELSE IF made.o = "unk" THEN RUnk
        ELSE IF made.o = "err" /\ parsed.o = "ok" THEN Vague(parsed)
        ELSE IF made.o = "ok" /\ parsed.o = "ok" THEN Vague(RErr("TypeError!"))
        ELSE Vague(made)
     ELSE IF Cardinality(req) # 1 THEN Vague(RErr("TypeError"))
     ELSE IF \E j \in DOMAIN kw : kw[j].e[1].s = "str:" \o triv THEN Vague(RErr("TypeError"))
     ELSE made

(***************************************************************************)
(* Exporting to a mapping                                                  *)
(*   o: [incl, sort, bl, wl]                                               *)
(***************************************************************************)
NoOpts == [incl |-> "-", sort |-> "-", bl |-> [g |-> FALSE, t |-> <<>>], wl |-> [g |-> FALSE, t |-> <<>>]]
MergeOpts(a, b) == [incl |-> IF b.incl = "-" THEN a.incl ELSE b.incl, sort |-> IF b.sort = "-" THEN a.sort ELSE b.sort,
                    bl |-> IF b.bl.g THEN b.bl ELSE a.bl, wl |-> IF b.wl.g THEN b.wl ELSE a.wl]

HasAttr(v, n) == (v.k = "rec" \/ v.k = "ns") /\ HasFld(v, n)
NameRank(n, by) ==        \* the names used by scenarios, by name, by last letter, by length, and all the same
  LET byName == [Xa |-> 0, _u |-> 1, aa |-> 2, q |-> 3, ve |-> 4, wd |-> 5, xa |-> 6, yb |-> 7, zc |-> 8]
      byLast == [Xa |-> 0, aa |-> 0, xa |-> 0, yb |-> 1, zc |-> 2, wd |-> 3, ve |-> 4, q |-> 5, _u |-> 6]
  IN CASE by = "last" -> byLast[n] [] by = "len" -> (IF n = "q" THEN 0 ELSE 1) [] by = "const" -> 0 [] OTHER -> byName[n]
RECURSIVE SortRanked(_)
SortRanked(s) ==        \* stable; s: [r: rank, p: item]
  IF s = <<>> THEN <<>>
  ELSE LET m == CHOOSE j \in DOMAIN s : \A k \in DOMAIN s : s[j].r < s[k].r \/ (s[j].r = s[k].r /\ j <= k)
       IN <<s[m].p>> \o SortRanked(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))
SortNames(s, by, sign) == SortRanked([j \in DOMAIN s |-> [r |-> sign * NameRank(s[j].n, by), p |-> s[j]]])

(* [o, e: pairs of name and value, x, c: factories called] *)
Extract(E, cn, obj, opts) ==
  LET C == E[cn]
      wl(f) == Has(opts.wl.t, f.n)
      keep(f) == wl(f) \/ ~\E j \in DOMAIN f.tags : Has(opts.bl.t, f.tags[j])
      fs == SelectSeq(C.fields, keep)
      has(f) == HasAttr(obj, f.n)
      isdef(f) == f.d = "val" /\ PyEq(f.dv, GetFld(obj, f.n))
      val(f) == IF has(f) THEN (IF wl(f) \/ opts.incl = "yes" \/ ~isdef(f) THEN <<[n |-> f.n, v |-> GetFld(obj, f.n)]>> ELSE <<>>)
                ELSE IF opts.incl = "yes" /\ f.d # "none" THEN <<[n |-> f.n, v |-> f.dv]>> ELSE <<>>
      got == FlatSeq([j \in DOMAIN fs |-> val(fs[j])])
      sorted == CASE opts.sort \in {"-", "no"} -> got
                  [] opts.sort = "asc" -> SortNames(got, "name", 1)
                  [] opts.sort = "desc" -> SortNames(got, "name", -1)
                  [] opts.sort \in {"last", "len", "const"} -> SortNames(got, opts.sort, 1)
                  [] OTHER -> got
      murky == \E j \in DOMAIN fs : has(fs[j]) /\ fs[j].d = "val" /\ (Murky(GetFld(obj, fs[j].n)) \/ Murky(fs[j].dv))
      made == IF opts.incl = "yes" THEN SelectSeq(fs, LAMBDA f : ~has(f) /\ f.d = "fac") ELSE <<>>
      calls == [j \in DOMAIN made |-> [f |-> made[j].own \o "." \o made[j].n, p |-> "fac", lo |-> FALSE, v |-> NothingV]]
      out(o, e, x) == [o |-> o, e |-> e, x |-> x, c |-> calls]
  IN IF obj.k = "other" THEN out("unk", <<>>, {})
     ELSE IF \E j \in DOMAIN fs : ~has(fs[j]) /\ fs[j].d = "none" THEN out("err", <<>>, {"AttributeError"})
     ELSE IF murky THEN out("unk", <<>>, {})
     ELSE IF \E j \in DOMAIN made : made[j].dv.k = "raise" THEN out("err", <<>>, AnyErr)
     ELSE out("ok", sorted, {})
AsDict(ps, i) == Val("dict", "", 0, [j \in DOMAIN ps |-> PairV(StrV(ps[j].n), ps[j].v)], i)

(***************************************************************************)
(* Importing                                                               *)
(***************************************************************************)
(* construction from a dict *)
FromDict(E, cn, d) == New(E, cn, <<>>, d.e)

(* the mapping a positional argument of from_mapping amounts to *)
AsMapping(v) ==
  IF Fam(v.k) = "dict" THEN [o |-> "ok", e |-> v.e]
  ELSE IF Fam(v.k) \in {"list", "tuple", "deque", "set"} /\ v.e = <<>> THEN [o |-> "ok", e |-> <<>>]
  ELSE IF Fam(v.k) = "atom" /\ Known(v) /\ Facts.atoms[v.s].isiter /\ Facts.atoms[v.s].iter = <<>> THEN [o |-> "ok", e |-> <<>>]
  ELSE IF Fam(v.k) = "atom" /\ v.k \in {"other"} THEN [o |-> "unk", e |-> <<>>]
  ELSE [o |-> "err", e |-> <<>>]

FromMapping(E, cn, maps, kw, sel) ==
  LET ms == TLCEval([j \in DOMAIN maps |-> AsMapping(maps[j])])
      later == <<[o |-> "ok", e |-> kw]>>
      RECURSIVE Merge(_)
      Merge(j) == IF j > Len(ms) THEN InsertPairs(kw, <<>>) ELSE InsertPairs(ms[j].e, Merge(j + 1))
      d == Val("dict", "", 0, Merge(1), -1)
      s == ApplySel(sel, d)
  IN IF \E j \in DOMAIN ms : ms[j].o = "err" THEN Vague(RErrs(AnyErr))
     ELSE IF \E j \in DOMAIN ms : ms[j].o = "unk" THEN RUnk
     ELSE IF s.o = "err" THEN RErrs(s.x)
     ELSE FromDict(E, cn, s.v)

(* the attributes an import through a selection needs beyond the fields *)
FromInstance(E, cn, v, maps, kw, sel) ==
  LET C == E[cn]
      removed == sel.rm
      renamed == {sel.rn[j][1] : j \in DOMAIN sel.rn} \cup {sel.mrn[j][1] : j \in DOMAIN sel.mrn}
      targets == {sel.rn[j][2] : j \in DOMAIN sel.rn} \cup {sel.mrn[j][2] : j \in DOMAIN sel.mrn}
      maybe == {sel.mrn[j][1] : j \in DOMAIN sel.mrn}
      added == {sel.ad[j][1] : j \in DOMAIN sel.ad}
      optional == Rng(FieldNames(C)) \ Required(C)
      plain == {n \in Rng(FieldNames(C)) : n \notin renamed}
      mock == (Rng(removed) \ Rng(FieldNames(C))) \cup renamed
      wanted == (plain \cup mock) \ added
      missingOk == optional \cup targets \cup maybe
      isdef(n) == n \in plain /\ FieldOf(C, n).d = "val" /\ PyEq(FieldOf(C, n).dv, GetFld(v, n))
      take == {n \in wanted : HasAttr(v, n) /\ ~isdef(n)}
      lost == {n \in wanted : ~HasAttr(v, n) /\ n \notin missingOk}
      RECURSIVE Seqs(_)
      Seqs(ns) == IF ns = {} THEN <<>> ELSE LET n == CHOOSE x \in ns : TRUE IN <<PairV(StrV(n), GetFld(v, n))>> \o Seqs(ns \ {n})
      base == Val("dict", "", 0, Seqs(take), -1)
      RECURSIVE Over(_, _)
      Over(d, ms) == IF ms = <<>> THEN d ELSE Over([d EXCEPT !.e = InsertPairs(Head(ms).e, d.e)], Tail(ms))
      d == Over(Over(base, maps), <<[e |-> kw]>>)
      s == ApplySel(sel, d)
      murky == \E n \in plain : HasAttr(v, n) /\ FieldOf(C, n).d = "val" /\ Murky(GetFld(v, n))
  IN IF v.k = "other" THEN RUnk
     ELSE IF SelEmpty(sel) /\ C.frozen /\ maps = <<>> /\ kw = <<>> /\ v.k = "rec" /\ IsInst(E, v, cn) THEN ROk(v)
     ELSE IF lost # {} THEN RErr("AttributeError")
     ELSE IF murky THEN RUnk
     ELSE IF \E j \in DOMAIN maps : Fam(maps[j].k) # "dict" THEN RUnk
     ELSE IF s.o = "err" THEN RErrs(s.x)
     ELSE FromDict(E, cn, s.v)

FromJson(E, cn, v, sel) ==
  LET p == Facts.prims["json"][v.s]
  IN IF v.k \notin {"str", "MyStr", "bytes"} THEN (IF v.k = "other" THEN RUnk ELSE Vague(RErrs(AnyErr)))
     ELSE IF ~Known(v) THEN RUnk
     ELSE IF p.o = "unk" THEN RUnk
     ELSE IF p.o = "err" THEN Vague(RErrs(AnyErr))
     ELSE IF p.v.k # "dict" THEN (IF Fam(p.v.k) # "atom" /\ p.v.e = <<>> THEN RUnk ELSE Vague(RErrs(AnyErr)))
     ELSE LET s == ApplySel(sel, p.v)
          IN IF s.o = "err" THEN RErrs(s.x) ELSE FromDict(E, cn, s.v)

(***************************************************************************)
(* Parsing                                                                 *)
(***************************************************************************)
RunParser(E, cn, ps, v) ==
  CASE ps.k = "from_mapping"  -> FromMapping(E, cn, <<v>>, <<>>, EmptySel)
    [] ps.k = "from_instance" -> FromInstance(E, cn, v, <<>>, <<>>, EmptySel)
    [] ps.k = "from_json"     -> FromJson(E, cn, v, EmptySel)
    [] ps.k = "fn" -> LET r == CallFn(ps.g, v) IN [Res(r.o, r.v, r.x) EXCEPT !.cu = TRUE]
    [] ps.k = "newf" -> Vague(New(E, cn, <<>>, <<PairV(StrV(ps.g), v)>>))
    [] ps.k = "when" ->     \* succeeds with a value for one argument only
         IF Murky(v) THEN RUnk ELSE IF PyEq(v, ps.v1) THEN ROk(ps.v2) ELSE RErr("ValueError")
    [] OTHER -> RUnk
Parse(E, cn, v) ==
  LET C == E[cn]
      rs == TLCEval([j \in DOMAIN C.parsers |-> RunParser(E, cn, C.parsers[j], v)])
      ok == {j \in DOMAIN rs : rs[j].o = "ok"}
      unk == {j \in DOMAIN rs : rs[j].o = "unk"}
  IN IF Cardinality(ok) > 1 THEN Vague(RErr("TypeError!"))
     ELSE IF unk # {} THEN RUnk
     ELSE IF ok = {} THEN Vague(RErr("ParseFailure"))
     ELSE Vague(ROk(rs[CHOOSE j \in ok : TRUE].v))

(***************************************************************************)
(* Class definition                                                        *)
(***************************************************************************)
FieldItems(d) == SelectSeq(d.own, LAMBDA f : f.T.t \notin {"classvar", "plain"})
TagsOf(T) == LET ts == SelectSeq(T.m, LAMBDA t : t.t = "tag") IN [j \in DOMAIN ts |-> ts[j].f]
Builtins == <<"from_instance", "from_json", "from_mapping">>

(* explicit definitions of parser names, nearest class first *)
RECURSIVE PickParsers(_, _)
PickParsers(defs, seen) ==
  IF defs = <<>> THEN <<>>
  ELSE LET p == Head(defs)
       IN IF p.n \in seen THEN PickParsers(Tail(defs), seen)
          ELSE <<p>> \o PickParsers(Tail(defs), seen \cup {p.n})

Define(E, d) ==
  LET recs == SelectSeq(d.bases, LAMBDA b : ~E[b].mix)
      inherited == FlatSeq([j \in DOMAIN recs |-> E[recs[j]].fields])
      items == FieldItems(d)
      inNames == [j \in DOMAIN inherited |-> inherited[j].n]
      ownNames == [j \in DOMAIN items |-> items[j].n]
      dupl == \/ \E j \in DOMAIN ownNames : Has(inNames, ownNames[j])
              \/ \E j, k \in DOMAIN inNames : j # k /\ inNames[j] = inNames[k]
      preOf(n, sub) == LET s == SelectSeq(d.pre, LAMBDA p : p.f = n /\ (p.key >= 0) = sub)
                       IN IF sub THEN [j \in DOMAIN s |-> [key |-> s[j].key, tok |-> s[j].tok]] ELSE [j \in DOMAIN s |-> s[j].tok]
      bound == TLCEval([j \in DOMAIN items |-> Bind(items[j].T, preOf(items[j].n, FALSE), preOf(items[j].n, TRUE), d.style)])
      fld(j) == [n |-> items[j].n, own |-> d.name, d |-> items[j].d, dv |-> items[j].dv, b |-> bound[j].b,
                 tags |-> TagsOf(items[j].T)]
      inhPre == \E j \in DOMAIN d.bases : E[d.bases[j]].pre # <<>>
      firstPre == IF \E j \in DOMAIN d.bases : E[d.bases[j]].preset
                  THEN E[d.bases[CHOOSE j \in DOMAIN d.bases : E[d.bases[j]].preset /\
                          \A k \in DOMAIN d.bases : E[d.bases[k]].preset => j <= k]].pre ELSE <<>>
      effPre == IF d.preset THEN d.pre ELSE firstPre
      fields == inherited \o [j \in DOMAIN items |-> fld(j)]
      tokBad == \E j \in DOMAIN d.pre : BadBounds(d.pre[j].tok)
      preBad == \* a token for a field that is not the class's own and new
         \E j \in DOMAIN effPre : ~Has(ownNames, effPre[j].f)
      finalBad == \E j \in DOMAIN items : items[j].final /\ ~d.frozen
      postOf == IF d.post.k # "inherit" THEN d.post
                ELSE LET hs == SelectSeq(d.bases, LAMBDA b : E[b].post.k # "none")
                     IN IF hs = <<>> THEN [d.post EXCEPT !.k = "none"] ELSE E[hs[1]].post
      defs == d.parsers \o FlatSeq([j \in DOMAIN d.bases |-> E[d.bases[j]].pdefs])
      explicit == PickParsers(defs, {})
      marked == SelectSeq(explicit, LAMBDA p : p.marked)
      builtin == SelectSeq(Builtins, LAMBDA n : ~\E j \in DOMAIN explicit : explicit[j].n = n)
      parsers == [j \in DOMAIN builtin |-> [n |-> builtin[j], marked |-> TRUE, k |-> builtin[j], g |-> "", v1 |-> NoneV, v2 |-> NoneV]]
                 \o marked
      nreq == Cardinality({j \in DOMAIN fields : fields[j].d = "none"})
      C == [name |-> d.name, mix |-> d.mix, frozen |-> d.frozen, ordered |-> d.ordered,
            unary |-> IF d.unary = "none" THEN nreq # 1 ELSE d.unary = "yes",
            style |-> d.style, fields |-> fields, bases |-> d.bases,
            anc |-> <<d.name>> \o FlatSeq([j \in DOMAIN d.bases |-> E[d.bases[j]].anc]),
            post |-> postOf, parsers |-> parsers, pdefs |-> defs, pre |-> effPre, preset |-> d.preset \/ inhPre,
            truth |-> d.truth]
  IN IF d.mix THEN [o |-> "ok", x |-> {}, C |-> [C EXCEPT !.fields = <<>>]]
     ELSE IF dupl THEN [o |-> "err", x |-> IF (\E j \in DOMAIN bound : ~bound[j].ok) \/ finalBad \/ preBad \/ tokBad THEN AnyErr ELSE {"ValueError"}, C |-> C]
     ELSE IF fields = <<>> THEN [o |-> "err", x |-> {"ValueError"}, C |-> C]
     ELSE IF finalBad \/ tokBad \/ preBad \/ \E j \in DOMAIN bound : ~bound[j].ok THEN
        [o |-> "err", C |-> C,
         x |-> IF (\E j \in DOMAIN items : \E k \in DOMAIN items[j].T.m : BadBounds(items[j].T.m[k])
                     /\ Cmp(items[j].T.m[k].vs[1][1], items[j].T.m[k].vs[2][1]) # "err")
                  /\ Len(items) = 1 /\ ~finalBad /\ ~tokBad /\ ~preBad /\ items[1].T.t = "cls"
               THEN {"ValueError"}
               ELSE IF preBad /\ ~finalBad /\ ~tokBad /\ (\A j \in DOMAIN bound : bound[j].ok)
                       /\ (\A j \in DOMAIN effPre : Has(inNames, effPre[j].f) \/ Has(ownNames, effPre[j].f))
                       /\ (\A j \in DOMAIN inherited : inherited[j].b.t # "dumb" /\ \A k \in DOMAIN inherited[j].b.a : inherited[j].b.a[k].t # "dumb")
               THEN {"RuntimeError"}
               ELSE AnyErr]
     ELSE [o |-> "ok", x |-> {}, C |-> C]

(***************************************************************************)
(* Which records a class accepts unchanged (the domain of round trips)     *)
(***************************************************************************)
NoAttrs(v) == \A j \in DOMAIN v.e : v.e[j].k = "fld"
RECURSIVE Accepts(_, _)
Accepts(E, v) ==
  LET C == E[v.s]
  IN /\ NoAttrs(v) /\ C.post.k \in {"none", "noop"}
     /\ Len(v.e) = Len(C.fields)
     /\ \A j \in DOMAIN C.fields :
          LET x == GetFld(v, C.fields[j].n)
              r == Fill(E, C.fields[j].b, x)
          IN r.o = "ok" /\ Ident(x, r.v, r.th) = "same"
RECURSIVE HasOpaque(_)
HasOpaque(v) == v.k \in OpaqueNames \cup {"other", "VT", "function", "builtin_function"} \/ \E j \in DOMAIN v.e : HasOpaque(v.e[j])
RECURSIVE AllAccept(_, _)        \* including the records inside
AllAccept(E, v) == /\ (v.k = "rec" => v.s \in DOMAIN E /\ Accepts(E, v))
                   /\ \A j \in DOMAIN v.e : AllAccept(E, v.e[j])

(* objects whose identity does not matter *)
RECURSIVE Anew(_)
Anew(v) == [v EXCEPT !.i = 0, !.e = [j \in DOMAIN v.e |-> Anew(v.e[j])]]

(* what becomes of a value in JSON and back: [o, v] *)
RECURSIVE Jsonify(_)
Jsonify(v) ==
  CASE Fam(v.k) = "atom" ->
         IF ~Known(v) THEN (IF v.k \in {"str", "int"} THEN [o |-> "ok", v |-> v]
                            ELSE IF IsFresh(v) THEN [o |-> "err", v |-> v] ELSE [o |-> "unk", v |-> v])
         ELSE IF ~Facts.atoms[v.s].jsonable THEN [o |-> "err", v |-> v]
         ELSE IF v.k = "MyInt" THEN [o |-> "ok", v |-> NumAtom("int", v.n)]
         ELSE IF v.k = "MyStr" THEN [o |-> "unk", v |-> v]
         ELSE [o |-> "ok", v |-> v]
    [] Fam(v.k) \in {"list", "tuple"} ->
         LET es == TLCEval([j \in DOMAIN v.e |-> Jsonify(v.e[j])])
         IN IF \E j \in DOMAIN es : es[j].o = "err" THEN [o |-> "err", v |-> v]
            ELSE IF \E j \in DOMAIN es : es[j].o = "unk" THEN [o |-> "unk", v |-> v]
            ELSE [o |-> "ok", v |-> Val("list", "", 0, [j \in DOMAIN v.e |-> es[j].v], -1)]
    [] Fam(v.k) = "dict" ->
         LET es == TLCEval([j \in DOMAIN v.e |-> Jsonify(v.e[j].e[2])])
         IN IF \E j \in DOMAIN v.e : v.e[j].e[1].k # "str" THEN [o |-> "unk", v |-> v]
            ELSE IF \E j \in DOMAIN es : es[j].o = "err" THEN [o |-> "err", v |-> v]
            ELSE IF \E j \in DOMAIN es : es[j].o = "unk" THEN [o |-> "unk", v |-> v]
            ELSE [o |-> "ok", v |-> Val("dict", "", 0, [j \in DOMAIN v.e |-> PairV(v.e[j].e[1], es[j].v)], -1)]
    [] OTHER -> [o |-> "err", v |-> v]
JsonNative(v) == LET r == Jsonify(v) IN r.o = "ok" /\ SameShape(r.v, v)

(* values whose repr evaluates to an equal value, given the classes *)
RECURSIVE Reprable(_)
Reprable(v) ==
  CASE v.k \in {"int", "bool", "float", "str", "NoneType", "ellipsis", "bytes", "range", "complex", "Fraction"} -> v.n # NoNum
    [] v.k \in {"list", "tuple", "set", "frozenset", "dict", "deque", "OrderedDict", "NT1", "NT2", "rec"} ->
         \A j \in DOMAIN v.e : v.e[j].k # "attr" /\ (IF v.e[j].k \in {"fld", "pair"} THEN \A m \in DOMAIN v.e[j].e : Reprable(v.e[j].e[m])
                               ELSE Reprable(v.e[j]))
    [] OTHER -> FALSE
=============================================================================
