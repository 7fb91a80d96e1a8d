----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Decides whether behaviours recorded from the real library are           *)
(* behaviours of the specification: every recorded step must be the step   *)
(* Step(St, op) that the specification takes from the recorded state.      *)
(*                                                                         *)
(* A case is [id, ops, ev]: operations and what was observed for each.     *)
(* Every case is an initial state, so TLC decides them independently.      *)
(* The verdict of a case is "" or the name of the clause that fails.       *)
(***************************************************************************)
EXTENDS Ops

Cases == JsonDeserialize(IOEnv.VERIF_TRACES)

Prop == IF "VERIF_PROP" \in DOMAIN IOEnv THEN IOEnv.VERIF_PROP ELSE ""

VARIABLES case, l, st, verdict, decided, other, open      \* open: operations the specification leaves open
vars == <<case, l, st, verdict, decided, other, open>>

(***************************************************************************)
(* Errors                                                                  *)
(***************************************************************************)
IsErr(e, mro) == IF e = "TypeError!" THEN Has(mro, "TypeError") /\ ~Has(mro, "ParseFailure") ELSE Has(mro, e)
FailNames(r) == {f.f : f \in r.fl}
ReportedAs(r, ev) ==      \* the failure of a field, reported by name
  /\ ev.cx # <<>>
  /\ \E f \in r.fl : Has(ev.nm, f.f) /\ \E e \in f.x : IsErr(e, ev.cx)
  /\ Rng(ev.nm) \subseteq FailNames(r)
  /\ ev.x[1] = ev.cw
ErrVerdict(r, ev) ==
  IF \E e \in r.x : IsErr(e, ev.x) THEN ""
  ELSE IF r.fl = {} THEN "error class"
  ELSE IF ReportedAs(r, ev) THEN ""
  ELSE IF ~\E f \in r.fl : Has(ev.nm, f.f) THEN "error does not name a rejected field"
  ELSE IF ~(Rng(ev.nm) \subseteq FailNames(r)) THEN "error names an acceptable field"
  ELSE IF ev.cx = <<>> THEN "error has no cause"
  ELSE IF ev.x[1] # ev.cw THEN "error class is not that of the failure"
  ELSE "cause of the error"

(***************************************************************************)
(* Values                                                                  *)
(***************************************************************************)
Labels2(pairs, m0) ==
  /\ \A p \in pairs : IF p[1] > 0 THEN p[2] = p[1] ELSE (p[2] = 0 \/ p[2] > m0)
  /\ \A p \in pairs, q \in pairs : (p[1] < -1 /\ q[1] < -1) =>
        /\ (p[1] = q[1]) => p[2] = q[2]
        /\ (p[2] = q[2] /\ p[2] # 0) => p[1] = q[1]

(* the entries of the expected mapping, in the observed order *)
InOrderOf(mode, a, b) == IF mode = "entries" /\ Fam(a.k) = "dict" /\ SameEntries(a, b) THEN Reorder(a, b) ELSE a

SameOut(mode, a, b) ==
  IF mode = "equal" THEN a.k = b.k /\ (a.k = "rec" => a.s = b.s) /\ PyEq(a, b)
  ELSE SameShape(InOrderOf(mode, a, b), b)
OutPairs(mode, a, b) == IF mode = "equal" THEN {} ELSE LabelPairs(InOrderOf(mode, a, b), b)

(***************************************************************************)
(* Calls of user callbacks                                                 *)
(***************************************************************************)
CallsOf(cs, f) == SelectSeq(cs, LAMBDA c : c.f = f /\ ~c.lo)
Loose(cs) == SelectSeq(cs, LAMBDA c : c.lo)
SameCall(a, b) == a.p = b.p /\ a.f = b.f /\ SameShape(a.v, b.v)
SameCalls(as, bs) == Len(as) = Len(bs) /\ \A j \in DOMAIN as : SameCall(as[j], bs[j])
Count(cs, c) == Cardinality({j \in DOMAIN cs : SameCall(c, cs[j])})
SameBag(as, bs) == Len(as) = Len(bs) /\ \A j \in DOMAIN as : Count(as, as[j]) = Count(bs, as[j])
CallFields(cs) == {cs[j].f : j \in DOMAIN cs}
CallPairs(as, bs) == UNION {LabelPairs(as[j].v, bs[j].v) : j \in DOMAIN as}

CallsVerdict(r, ev) ==
  LET fs == CallFields(r.c) \cup CallFields(ev.calls)
      same(f) == SameCalls(CallsOf(r.c, f), CallsOf(ev.calls, f))
      posted == CallsOf(ev.calls, "")
  IN IF r.cu THEN ""
     ELSE IF r.o = "ok" \/ CallsOf(r.c, "") # <<>> THEN
        IF \E f \in fs : ~same(f) THEN "calls of callbacks"
        ELSE IF ~SameBag(Loose(r.c), Loose(ev.calls)) THEN "calls of element callbacks"
        ELSE IF posted # <<>> /\ ev.calls[Len(ev.calls)].f # "" THEN "post_new before the instance is complete"
        ELSE ""
     ELSE IF posted # <<>> THEN "post_new called"
     ELSE IF \E f \in fs : ~(same(f) \/ CallsOf(ev.calls, f) = <<>>) THEN "calls of callbacks"
     ELSE ""
(* labels of what the callbacks were given *)
CallLabels(r, ev) ==
  IF r.cu \/ r.o # "ok" THEN {}
  ELSE UNION {CallPairs(CallsOf(r.c, f), CallsOf(ev.calls, f)) : f \in CallFields(r.c)}

(***************************************************************************)
(* The verdict on one step                                                 *)
(***************************************************************************)
ObservedDefault(ev, c, f) == LET s == SelectSeq(ev.D, LAMBDA d : d.c = c /\ d.f = f) IN s
DefaultsOf(E) ==
  UNION {{[c |-> c, f |-> E[c].fields[j].n, v |-> E[c].fields[j].dv] :
            j \in {m \in DOMAIN E[c].fields : E[c].fields[m].d = "val" /\ E[c].fields[m].own = c}} : c \in DOMAIN E}

InfoOk(C, inf) ==
  /\ inf.frozen = C.frozen
  /\ Len(inf.fields) = Len(C.fields)
  /\ \A j \in DOMAIN C.fields :
       /\ inf.fields[j].n = C.fields[j].n
       /\ inf.fields[j].o = C.fields[j].own
       /\ inf.fields[j].d = C.fields[j].d
       /\ Rng(inf.fields[j].t) = Rng(C.fields[j].tags)

HashBad(St, v, ev) ==
  v.k = "rec" /\ \E g \in St.G : ~Murky(g.v) /\ ~Murky(v) /\ PyEq(g.v, v) /\ g.h # ev.h

Verdict(St, op, ev, X) ==
  LET r == X.r
      hasOut == "out" \in DOMAIN op /\ op.out # "" /\ ev.o = "ok"
      others == (DOMAIN X.S) \ (IF hasOut THEN {op.out} ELSE {})
      okRes == r.o = "ok" /\ ev.o = "ok"
      statePairs == UNION {LabelPairs(X.S[s], ev.S[s]) : s \in others}
      ds == DefaultsOf(X.E)
      defOk(d) == LET s == ObservedDefault(ev, d.c, d.f) IN s # <<>> /\ SameShape(d.v, s[1].v)
      defPairs == UNION {LabelPairs(d.v, ObservedDefault(ev, d.c, d.f)[1].v) : d \in ds}
      pairs == statePairs \cup defPairs \cup (IF okRes THEN OutPairs(X.mode, r.v, ev.v) ELSE {}) \cup CallLabels(r, ev)
  IN IF r.o = "ok" /\ ev.o # "ok" THEN "fails where it must succeed"
     ELSE IF r.o = "err" /\ ev.o # "err" THEN "succeeds where it must fail"
     ELSE IF r.o = "err" /\ ErrVerdict(r, ev) # "" THEN ErrVerdict(r, ev)
     ELSE IF okRes /\ ~SameOut(X.mode, r.v, ev.v) THEN "result"
     ELSE IF okRes /\ X.mode = "equal" /\ ev.h # "" THEN "result: " \o ev.h
     ELSE IF r.o # "unk" /\ CallsVerdict(r, ev) # "" THEN CallsVerdict(r, ev)
     ELSE IF okRes /\ r.w >= 0 /\ ev.w # r.w THEN "warnings"
     ELSE IF others \ DOMAIN ev.S # {} \/ (DOMAIN ev.S) \ (others \cup (IF hasOut THEN {op.out} ELSE {})) # {} THEN "variables"
     ELSE IF \E s \in others : ~SameShape(X.S[s], ev.S[s]) THEN "another object was changed"
     ELSE IF \E d \in ds : ~defOk(d) THEN "a declared default was changed"
     ELSE IF ~Labels2(pairs, ev.m0) THEN "identity of objects"
     ELSE IF okRes /\ X.mode = "hash" /\ HashBad(St, Deref(St.S, op.v), ev) THEN "equal records hash differently"
     ELSE IF \E j \in DOMAIN ev.infos : ~(ev.infos[j].c \in DOMAIN X.E /\ InfoOk(X.E[ev.infos[j].c], ev.infos[j])) THEN "fields of a class"
     ELSE IF op.op = "fields" /\ op.tag # "" /\
             Rng(ev.nm) # {X.E[op.c].fields[j].n : j \in {m \in DOMAIN X.E[op.c].fields : Has(X.E[op.c].fields[m].tags, op.tag)}}
          THEN "fields with a tag"
     ELSE ""

(***************************************************************************)
(* Which disagreements contradict which property.  A step that disagrees   *)
(* in a way that is another property's business is adopted as observed.    *)
(***************************************************************************)
Naming == {"error does not name a rejected field", "error names an acceptable field", "error has no cause",
           "error class is not that of the failure"}
StateClauses == {"another object was changed", "a declared default was changed", "identity of objects"}
Kinds ==   \* the error classes are part of the property
  {"C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C13", "C19", "C20", "C21", "C22", "C23", "C24"}
OpsOf(p) ==
  CASE p = "C01" -> {"new", "str"}
    [] p \in {"C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10"} -> {"new"}
    [] p = "C03" -> {"parse"}
    [] p = "C11" -> {"new", "def"}
    [] p = "C12" -> {"exp"}
    [] p = "C13" -> {"qdef", "qmerge", "apply", "exp", "imp"}
    [] p = "C14" -> {"rt", "unpick"}
    [] p = "C15" -> {"hash", "eq"}
    [] p = "C16" -> {"set", "del", "hash"}
    [] p = "C17" -> {"copy", "deep", "eq", "set", "mut"}
    [] p = "C18" -> {"cmp"}
    [] p = "C19" -> {"def", "fields", "new", "cmp", "exp", "hash", "set"}
    [] p = "C20" -> {"def", "tok", "new"}
    [] p = "C21" -> {"imp"}
    [] p = "C22" -> {"new", "imp", "parse"}
    [] p = "C23" -> {"let", "new", "imp", "qdef", "parse", "apply", "str", "exp", "eq", "cmp", "fields"}
    [] p = "C24" -> {"new", "imp"}
    [] OTHER -> {}
Relevant(p, op, vd) ==
  CASE p = "" -> TRUE
    [] p \in {"C16", "C23"} /\ vd \in StateClauses -> TRUE
    [] p = "C17" /\ vd = "another object was changed" -> TRUE
    [] p \in {"C19", "C23"} /\ vd = "fields of a class" -> TRUE
    [] ~(op.op \in OpsOf(p)) -> FALSE
    [] p = "C16" /\ op.op = "hash" -> FALSE
    [] vd \in Naming -> p = "C24"
    [] vd \in {"error class", "cause of the error"} -> p \in Kinds \cup {"C12", "C15", "C16", "C18"} \/ (p = "C01" /\ vd = "error class")
    [] p = "C24" -> vd = "fails where it must succeed"
    [] OTHER -> TRUE

(* the state after a step: what was observed *)
Adopt(St, op, ev, X) ==
  [S |-> ev.S, E |-> X.E, Q |-> X.Q, H |-> X.H, m |-> 0,
   G |-> IF X.mode = "hash" /\ X.r.o = "ok" /\ ev.o = "ok" THEN St.G \cup {[v |-> Deref(St.S, op.v), h |-> ev.h]} ELSE St.G]

Init == /\ case \in DOMAIN Cases
        /\ l = 0
        /\ st = InitSt
        /\ verdict = ""
        /\ decided = 0
        /\ other = 0
        /\ open = <<>>

Done == l = Len(Cases[case].ops) \/ verdict # ""

TakeStep ==
  /\ ~Done
  /\ LET op == Cases[case].ops[l + 1]
         ev == Cases[case].ev[l + 1]
         X  == TLCEval(Step(st, op))
         found == Verdict(st, op, ev, X)
         vd == IF found # "" /\ Relevant(Prop, op, found) THEN found ELSE ""
         \* where the library has defined other classes than it should, what follows cannot be followed
         lost == found # "" /\ vd = "" /\ op.op = "def"
         end == l + 1 = Len(Cases[case].ops) \/ lost
     IN /\ verdict' = IF lost THEN "lost" ELSE vd
        /\ l' = l + 1
        /\ st' = IF vd = "" /\ ~lost THEN Adopt(st, op, ev, X) ELSE st
        /\ decided' = decided + (IF X.r.o = "unk" THEN 0 ELSE 1)
        /\ other' = other + (IF found # "" THEN 1 ELSE 0)
        /\ open' = IF X.r.o = "unk" THEN Append(open, op.op) ELSE open
        /\ IF vd # "" THEN PrintT(<<"VERDICT", Cases[case].id, l + 1, vd, ToJson([exp |-> X.r, mode |-> X.mode])>>)
           ELSE IF end THEN PrintT(<<"DONE", Cases[case].id, l + 1, decided', other', ToJson(open')>>)
           ELSE TRUE
  /\ UNCHANGED case

Next == TakeStep
Spec == Init /\ [][Next]_vars
=============================================================================
