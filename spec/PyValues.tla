------------------------------ MODULE PyValues ------------------------------
(***************************************************************************)
(* Python values as the specification sees them.                           *)
(*                                                                         *)
(* A value is a record  [k, s, n, e, i] :                                  *)
(*   k  its class ("int", "list", ...; "rec" for an instance of a record   *)
(*      class, "fld"/"attr"/"pair" for parts of one)                       *)
(*   s  a key that identifies an atom ("int:5", "str:ab"); the class name  *)
(*      of a record, the maxlen of a deque, the factory of a defaultdict   *)
(*   n  twice the numeric value of a number; the truth and hash flags of a *)
(*      record (1: truthy, 2: frozen class)                                *)
(*   e  its parts                                                          *)
(*   i  its identity: 0 where identity cannot be observed, a positive      *)
(*      label for an object that is known, -1 for an object created by the *)
(*      operation at hand, another negative label for such an object that  *)
(*      may occur more than once                                           *)
(*                                                                         *)
(* What Python's own builtins and the user's helper functions do with      *)
(* atoms is a table of facts, extracted from the interpreter.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Facts == JsonDeserialize(IOEnv.VERIF_FACTS)

Rng(s) == {s[j] : j \in DOMAIN s}

AtomNames == DOMAIN Facts.atoms
PrimNames == DOMAIN Facts.prims
FamNames  == DOMAIN Facts.fam
ClsNames  == DOMAIN Facts.classes
WrapNames == DOMAIN Facts.wrap
EmptyNames == DOMAIN Facts.empty
FnGenNames == DOMAIN Facts.fngen
KindSets  == [k \in DOMAIN Facts.kinds |-> Rng(Facts.kinds[k])]
KindNames == DOMAIN KindSets
SubSets   == [c \in ClsNames |-> Rng(Facts.classes[c].issub)]
TypeNames == DOMAIN Facts.types
TypeSets  == [c \in TypeNames |-> Rng(Facts.types[c])]
OpaqueNames == {"C0", "C1", "C2", "D0", "E1", "AbsImpl", "object"}

NoNum == 2000003          \* the n of a number that is not a half-integer in range

Val(k, s, n, e, i) == [k |-> k, s |-> s, n |-> n, e |-> e, i |-> i]
Atom(s) == Facts.atoms[s].v
NoneV   == Atom("None")
TrueV   == Atom("bool:True")
FalseV  == Atom("bool:False")
BoolV(b) == IF b THEN TrueV ELSE FalseV
NothingV == Val("none", "", 0, <<>>, 0)     \* no value at all
PairV(a, b) == Val("pair", "", 0, <<a, b>>, 0)
StrV(s) == Val("str", "str:" \o s, 0, <<>>, 0)

Fam(k) == IF k \in FamNames THEN Facts.fam[k]
          ELSE IF k \in {"rec", "ns", "pair", "fld", "attr"} THEN k ELSE "atom"
Known(v) == Fam(v.k) = "atom" /\ v.s \in AtomNames
IsFresh(v) == v.k \in OpaqueNames /\ v.s = v.k \o ":fresh"
NumKinds == {"int", "bool", "float", "MyInt", "Fraction", "complex"}
RealKinds == {"int", "bool", "float", "MyInt", "Fraction"}
StrKinds == {"str", "MyStr"}
IsNone(v) == v.k = "NoneType"
IsType(v) == v.k = "type"

(* Sequence helpers *)
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))
Has(s, x) == \E j \in DOMAIN s : s[j] = x
IdxOf(s, x) == CHOOSE j \in DOMAIN s : s[j] = x

(***************************************************************************)
(* Equality, truth, hashability, order                                     *)
(***************************************************************************)
RECURSIVE PyEq(_, _)
PyEq(a, b) ==
  LET fa == Fam(a.k)
      fb == Fam(b.k)
  IN IF fa # fb THEN FALSE
     ELSE CASE fa = "atom" ->
                 IF a.s = b.s /\ a.k = b.k THEN a.i = b.i
                 ELSE IF Known(a) /\ Known(b) THEN Facts.atoms[a.s].q = Facts.atoms[b.s].q
                 ELSE a.k \in RealKinds /\ b.k \in RealKinds /\ a.n = b.n /\ a.n # NoNum
            [] fa \in {"list", "tuple", "deque"} ->
                 Len(a.e) = Len(b.e) /\ \A j \in DOMAIN a.e : PyEq(a.e[j], b.e[j])
            [] fa = "set" ->
                 Len(a.e) = Len(b.e) /\ \A j \in DOMAIN a.e : \E m \in DOMAIN b.e : PyEq(a.e[j], b.e[m])
            [] fa = "dict" ->
                 /\ Len(a.e) = Len(b.e)
                 /\ IF a.k = "OrderedDict" /\ b.k = "OrderedDict"
                    THEN \A j \in DOMAIN a.e : PyEq(a.e[j].e[1], b.e[j].e[1]) /\ PyEq(a.e[j].e[2], b.e[j].e[2])
                    ELSE \A j \in DOMAIN a.e : \E m \in DOMAIN b.e :
                            PyEq(a.e[j].e[1], b.e[m].e[1]) /\ PyEq(a.e[j].e[2], b.e[m].e[2])
            [] fa = "rec" ->
                 /\ a.s = b.s
                 /\ \A j \in DOMAIN a.e : a.e[j].k = "fld" =>
                       \E m \in DOMAIN b.e : b.e[m].k = "fld" /\ b.e[m].s = a.e[j].s /\ PyEq(a.e[j].e[1], b.e[m].e[1])
            [] fa = "ns" ->
                 /\ Len(a.e) = Len(b.e)
                 /\ \A j \in DOMAIN a.e : \E m \in DOMAIN b.e : b.e[m].s = a.e[j].s /\ PyEq(a.e[j].e[1], b.e[m].e[1])
            [] OTHER -> FALSE

(* equality the specification cannot decide: parts that are outside the universe *)
RECURSIVE Murky(_)
Murky(v) == \/ v.k = "other"
            \/ v.n = NoNum
            \/ (v.k = "type" /\ ~Known(v))
            \/ \E j \in DOMAIN v.e : Murky(v.e[j])

Truth(v) ==
  CASE Fam(v.k) = "atom" -> IF Known(v) THEN Facts.atoms[v.s].truth
                            ELSE IF v.k \in NumKinds THEN v.n # 0
                            ELSE TRUE     \* unknown strings are never empty
    [] v.k = "rec" -> v.n % 2 = 1
    [] v.k = "ns"  -> TRUE
    [] OTHER -> v.e # <<>>

(* "yes" "no" "unk": a frozen record may leave out of its hash what equals a default *)
RECURSIVE HashSt(_)
AllSt(ss) == IF "no" \in ss THEN "no" ELSE IF "unk" \in ss THEN "unk" ELSE "yes"
HashSt(v) ==
  CASE Fam(v.k) = "atom" -> IF ~Known(v) \/ Facts.atoms[v.s].hash THEN "yes" ELSE "no"
    [] Fam(v.k) = "tuple" -> AllSt({HashSt(v.e[j]) : j \in DOMAIN v.e})
    [] v.k = "frozenset" -> "yes"
    [] v.k = "rec" -> IF v.n \div 2 # 1 THEN "no"
                      ELSE IF \A j \in DOMAIN v.e : v.e[j].k = "fld" => HashSt(v.e[j].e[1]) = "yes" THEN "yes" ELSE "unk"
    [] OTHER -> "no"
Hashable(v) == HashSt(v) = "yes"
Unhashable(v) == HashSt(v) = "no"

RECURSIVE Cmp(_, _)
Cmp(a, b) ==          \* "lt" "eq" "gt" "err" "unk"
  LET fa == Fam(a.k)
      fb == Fam(b.k)
  IN IF fa = "atom" /\ fb = "atom" THEN
        IF a.k \in RealKinds /\ b.k \in RealKinds THEN
           IF a.n = NoNum \/ b.n = NoNum THEN "unk"
           ELSE IF a.n < b.n THEN "lt" ELSE IF a.n > b.n THEN "gt" ELSE "eq"
        ELSE IF (a.k \in StrKinds /\ b.k \in StrKinds) \/ (a.k = "bytes" /\ b.k = "bytes") THEN
           IF ~Known(a) \/ ~Known(b) THEN "unk"
           ELSE LET ra == Facts.atoms[a.s].rank
                    rb == Facts.atoms[b.s].rank
                IN IF ra < rb THEN "lt" ELSE IF ra > rb THEN "gt" ELSE "eq"
        ELSE "err"
     ELSE IF fa # fb THEN (IF "rec" \in {fa, fb} THEN "unk" ELSE "err")
     ELSE IF fa \in {"list", "tuple", "deque"} THEN
        LET m == IF Len(a.e) < Len(b.e) THEN Len(a.e) ELSE Len(b.e)
            diff == {j \in 1..m : ~PyEq(a.e[j], b.e[j])}
        IN IF diff # {} THEN LET j == CHOOSE x \in diff : \A y \in diff : x <= y IN Cmp(a.e[j], b.e[j])
           ELSE IF Len(a.e) < Len(b.e) THEN "lt" ELSE IF Len(a.e) > Len(b.e) THEN "gt" ELSE "eq"
     ELSE IF fa \in {"set", "rec"} THEN "unk"
     ELSE "err"

(***************************************************************************)
(* Classes.  E maps the names of the record classes that exist to their    *)
(* descriptions; everything else is in the table of facts.                 *)
(***************************************************************************)
IsInst(E, v, c) ==
  IF v.k = "rec" THEN c = "object" \/ (v.s \in DOMAIN E /\ c \in Rng(E[v.s].anc))
  ELSE v.k \in KindNames /\ c \in KindSets[v.k]
ClassOf(v) == IF v.k = "rec" THEN v.s ELSE v.k
IsSubclass(E, name, c) ==       \* name: the s of a type object, e.g. "type:int"
  IF name \in TypeNames THEN c \in TypeSets[name]
  ELSE c = "object" \/ \E x \in DOMAIN E : "type:" \o x = name /\ c \in Rng(E[x].anc)
Abstract(c) == c \in ClsNames /\ Facts.classes[c].abstract
CallableV(v) == (Known(v) /\ Facts.atoms[v.s].callable) \/ IsType(v)

(***************************************************************************)
(* Iteration and container building                                        *)
(***************************************************************************)
(* [o |-> "ok"/"err"/"unk", e |-> elements] *)
Iter(v) ==
  CASE Fam(v.k) \in {"list", "tuple", "deque"} -> [o |-> "ok", e |-> v.e]
    [] Fam(v.k) = "set" -> [o |-> IF Len(v.e) <= 1 THEN "ok" ELSE "unk", e |-> v.e]
    [] Fam(v.k) = "dict" -> [o |-> "ok", e |-> [j \in DOMAIN v.e |-> v.e[j].e[1]]]
    [] v.k \in {"rec", "ns"} -> [o |-> "err", e |-> <<>>]
    [] OTHER -> IF Known(v) THEN IF Facts.atoms[v.s].isiter THEN [o |-> "ok", e |-> Facts.atoms[v.s].iter]
                                 ELSE [o |-> "err", e |-> <<>>]
                ELSE IF v.k \in NumKinds \/ IsFresh(v) THEN [o |-> "err", e |-> <<>>]
                ELSE [o |-> "unk", e |-> <<>>]

(* the distinct elements, as a set or dict keeps them: the first of equals *)
RECURSIVE Distinct(_, _)
Distinct(s, acc) ==
  IF s = <<>> THEN acc
  ELSE IF \E j \in DOMAIN acc : PyEq(acc[j], Head(s)) THEN Distinct(Tail(s), acc)
  ELSE Distinct(Tail(s), Append(acc, Head(s)))

(* insertion of a sequence of pairs: the first of equal keys, the last of their values *)
RECURSIVE InsertPairs(_, _)
InsertPairs(s, acc) ==
  IF s = <<>> THEN acc
  ELSE LET p == Head(s)
           hit == {j \in DOMAIN acc : PyEq(acc[j].e[1], p.e[1])}
       IN IF hit = {} THEN InsertPairs(Tail(s), Append(acc, p))
          ELSE LET j == CHOOSE x \in hit : TRUE
               IN InsertPairs(Tail(s), [acc EXCEPT ![j] = PairV(acc[j].e[1], p.e[2])])

Keys(v) == [j \in DOMAIN v.e |-> v.e[j].e[1]]
HasKey(v, k) == \E j \in DOMAIN v.e : PyEq(v.e[j].e[1], k)
GetKey(v, k) == v.e[CHOOSE j \in DOMAIN v.e : PyEq(v.e[j].e[1], k)].e[2]
DelKey(v, k) == [v EXCEPT !.e = SelectSeq(v.e, LAMBDA p : ~PyEq(p.e[1], k))]
PutKey(v, k, x) == [v EXCEPT !.e = InsertPairs(<<PairV(k, x)>>, v.e)]

(* record parts *)
FldV(f, x) == Val("fld", f, 0, <<x>>, 0)
HasFld(v, f) == \E j \in DOMAIN v.e : v.e[j].s = f
GetFld(v, f) == v.e[CHOOSE j \in DOMAIN v.e : v.e[j].s = f].e[1]

(***************************************************************************)
(* Identity.  Comparing an expected value to an observed one gives a set   *)
(* of pairs of labels to be reconciled, on top of equality of shape.       *)
(***************************************************************************)
RECURSIVE SameShape(_, _)
SameShape(a, b) ==
  /\ a.k = b.k
  /\ Len(a.e) = Len(b.e)
  /\ IF a.s = b.s THEN TRUE ELSE FALSE
  /\ a.n = b.n
  /\ IF Fam(a.k) = "set"
     THEN \A j \in DOMAIN a.e : \E m \in DOMAIN b.e : SameShape(a.e[j], b.e[m])
     ELSE IF a.k \in {"rec", "ns"}
     THEN \A j \in DOMAIN a.e : \E m \in DOMAIN b.e : SameShape(a.e[j], b.e[m])
     ELSE \A j \in DOMAIN a.e : SameShape(a.e[j], b.e[j])

RECURSIVE LabelPairs(_, _)
LabelPairs(a, b) ==            \* for values of the same shape
  LET here == IF a.i = 0 THEN {} ELSE {<<a.i, b.i>>}
      match(j) == IF Fam(a.k) = "set" \/ a.k \in {"rec", "ns"}
                  THEN b.e[CHOOSE m \in DOMAIN b.e : SameShape(a.e[j], b.e[m])]
                  ELSE b.e[j]
  IN here \cup UNION {LabelPairs(a.e[j], match(j)) : j \in DOMAIN a.e}

(* same entries, in any order (for mappings whose order is not specified) *)
SameEntries(a, b) ==
  /\ a.k = b.k /\ Len(a.e) = Len(b.e)
  /\ \A j \in DOMAIN a.e : \E m \in DOMAIN b.e : SameShape(a.e[j], b.e[m])

(* the entries of a in the order of b *)
Reorder(a, b) ==
  [a EXCEPT !.e = [j \in DOMAIN b.e |-> a.e[CHOOSE m \in DOMAIN a.e : SameShape(a.e[m], b.e[j])]]]

RECURSIVE LabelsIn(_)
LabelsIn(v) == (IF v.i = 0 THEN {} ELSE {v.i}) \cup UNION {LabelsIn(v.e[j]) : j \in DOMAIN v.e}

(* known: the labels of the objects that existed before *)
LabelsOk(pairs, known) ==
  /\ \A p \in pairs : IF p[1] > 0 THEN p[2] = p[1] ELSE p[2] \notin known
  /\ \A p \in pairs, q \in pairs : (p[1] < -1 /\ q[1] < -1) =>
        /\ (p[1] = q[1]) => p[2] = q[2]
        /\ (p[2] = q[2] /\ p[2] # 0) => p[1] = q[1]

(* replace the object labelled i, wherever it occurs *)
RECURSIVE Subst(_, _, _)
Subst(v, i, new) ==
  IF v.i = i THEN new
  ELSE IF v.e = <<>> THEN v
  ELSE [v EXCEPT !.e = [j \in DOMAIN v.e |-> Subst(v.e[j], i, new)]]

(* A deep copy: every mutable object, and everything that contains one, is a new object (the negative of its
   label, so that what was shared stays shared); whether immutable ones are copied does not matter (0). *)
RECURSIVE Mutable(_)
Mutable(v) ==
  CASE Fam(v.k) = "atom" -> v.k \in OpaqueNames
    [] Fam(v.k) \in {"tuple", "fld", "attr", "pair"} \/ v.k = "frozenset" \/ (v.k = "rec" /\ v.n \div 2 = 1) ->
         \E j \in DOMAIN v.e : Mutable(v.e[j])
    [] OTHER -> TRUE
RECURSIVE Unlabel(_)
Unlabel(v) == [v EXCEPT !.i = 0, !.e = [j \in DOMAIN v.e |-> Unlabel(v.e[j])]]
RECURSIVE DeepCopy(_)
DeepCopy(v) ==
  IF ~Mutable(v) THEN Unlabel(v)
  ELSE IF Fam(v.k) = "atom" THEN Val(v.k, v.k \o ":fresh", 0, <<>>, IF v.i > 0 THEN -v.i ELSE -1)
  ELSE [v EXCEPT !.e = [j \in DOMAIN v.e |-> DeepCopy(v.e[j])], !.i = IF v.i > 1 THEN -v.i ELSE v.i]
=============================================================================
