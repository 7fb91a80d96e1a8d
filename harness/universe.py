"""The value universe shared by the specification (through spec/facts.json) and the harness.

Everything here is *Python's* behaviour (builtins, user-defined helper classes and callbacks), never behaviour of the
library under test: this module does not import ``records``.
"""
import ast
import collections
import collections.abc as cabc
import json
import numbers
import re
import typing
from abc import ABC, abstractmethod
from collections import Counter, OrderedDict, defaultdict, deque, namedtuple
from fractions import Fraction
from types import SimpleNamespace


# ---------------------------------------------------------------- helper classes
class MyInt(int):
    pass


class MyStr(str):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class VT(tuple):
    """a tuple class constructed from separate arguments"""

    def __new__(cls, *args):
        return super().__new__(cls, args)


NT2 = namedtuple('NT2', 'a b', defaults=(0,))
NT1 = namedtuple('NT1', 'a')


class C0:
    pass


class C1(C0):
    @classmethod
    def make(cls, v):
        if isinstance(v, str):
            return OBJ['C1:o3']
        raise LookupError('not a string')


class C2:
    def __call__(self):
        return None


class D0(C0):
    pass


class E1(C1, D0):
    pass


class Abs(ABC):
    @abstractmethod
    def m(self):
        pass


class AbsImpl(Abs):
    def m(self):
        pass


class PickyError(Exception):
    """cannot be constructed from a message alone"""

    def __init__(self, a, b):
        super().__init__(a, b)


class OddError(LookupError):
    pass


for _c in (MyInt, MyStr, MyList, MyTuple, MyDict, VT, NT2, NT1, C0, C1, C2, D0, E1, Abs, AbsImpl):
    _c.__module__ = 'universe'

OBJ = {'C0:o1': C0(), 'C1:o2': C1(), 'C1:o3': C1(), 'C2:o4': C2(), 'D0:o5': D0(), 'E1:o6': E1(), 'AbsImpl:o7': AbsImpl()}
OBJ_BY_ID = {id(v): k for k, v in OBJ.items()}


def f_user(*_):
    return None


FUNS = {'fn:len': len, 'fn:f_user': f_user}
FUN_BY_ID = {id(v): k for k, v in FUNS.items()}

# classes that types, isinstance constraints and type-object values may name
CLASSES = {
    'object': object, 'int': int, 'bool': bool, 'float': float, 'complex': complex, 'str': str, 'bytes': bytes,
    'bytearray': bytearray, 'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': dict,
    'deque': deque, 'defaultdict': defaultdict, 'OrderedDict': OrderedDict, 'Counter': Counter, 'range': range,
    'type': type, 'NoneType': type(None), 'ellipsis': type(...), 'Fraction': Fraction,
    'MyInt': MyInt, 'MyStr': MyStr, 'MyList': MyList, 'MyTuple': MyTuple, 'MyDict': MyDict, 'VT': VT, 'NT2': NT2,
    'NT1': NT1, 'C0': C0, 'C1': C1, 'C2': C2, 'D0': D0, 'E1': E1, 'Abs': Abs, 'AbsImpl': AbsImpl,
    'Number': numbers.Number, 'Complex': numbers.Complex, 'Real': numbers.Real, 'Rational': numbers.Rational,
    'Integral': numbers.Integral,
    'Sequence': cabc.Sequence, 'MutableSequence': cabc.MutableSequence, 'Set': cabc.Set, 'MutableSet': cabc.MutableSet,
    'Mapping': cabc.Mapping, 'MutableMapping': cabc.MutableMapping, 'Iterable': cabc.Iterable,
    'Iterator': cabc.Iterator, 'Collection': cabc.Collection, 'Container': cabc.Container, 'Hashable': cabc.Hashable,
    'Callable': cabc.Callable, 'Reversible': cabc.Reversible, 'Generator': cabc.Generator,
    'AsyncGenerator': cabc.AsyncGenerator, 'AsyncIterator': cabc.AsyncIterator, 'AsyncIterable': cabc.AsyncIterable,
    'Exception': Exception, 'ValueError': ValueError, 'BaseException': BaseException,
}
NAME_BY_CLASS = {id(v): k for k, v in CLASSES.items()}

# ---------------------------------------------------------------- atoms
# numeric atoms carry n = twice their value

JSON_DOCS = [
    '{"xa": 1}', '{"xa": 1, "yb": 2}', '{"xa": "1", "yb": 2}', '{"yb": 2}', '{"xa": 1, "zc": 3}',
    '{"xa": 1, "yb": 2, "zc": 3}', '{"xa": 1, "q": 2}', '{}', '[1]', 'null', '{"xa": null}', '{"yb": 2, "xa": 1}',
    '{"xa": [1, 2]}', '{"zc": 3}',
]
STRS = ['', 'a', 'b', 'A', 'ab', 'abc', ' a ', '1', '12', '2.5', '-1', '1+1', 'True', 'None', '[1, 2]', "'a'", '(1,)',
        "int('7')", '1/0', 'ff', '5', 'C1', '1 +', '{1: 2}', '1.0', '0', "'12'", '"1"', "float('2')", "int(float('2'))", "float(int('7'))"] + JSON_DOCS


def base_atoms():
    r = [None, ..., True, False]
    r += [-3, -1, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 255, 256, 300]
    r += [MyInt(2), MyInt(5)]
    r += [-1.5, -0.5, 0.0, 0.5, 1.0, 2.0, 2.5, 3.0, 4.5, 10.0]
    r += [1 + 0j, 2 + 0j, 1 + 1j, Fraction(1, 2), Fraction(4, 2), Fraction(3, 1)]
    r += STRS + [MyStr('a'), MyStr('1')]
    r += [b'', b'ab', b'1', b'\x01', b'\xff']
    r += list(OBJ.values()) + list(FUNS.values())
    r += [CLASSES[c] for c in ('int', 'bool', 'str', 'object', 'Exception', 'ValueError', 'BaseException', 'C0', 'C1',
                               'E1', 'MyInt', 'list', 'NoneType', 'ellipsis')]
    r += [range(0, 3), range(0, 0)]
    return r


FAMILY = {'list': 'list', 'MyList': 'list', 'tuple': 'tuple', 'MyTuple': 'tuple', 'VT': 'tuple', 'NT2': 'tuple',
          'NT1': 'tuple', 'set': 'set', 'frozenset': 'set', 'dict': 'dict', 'MyDict': 'dict', 'OrderedDict': 'dict',
          'defaultdict': 'dict', 'Counter': 'dict', 'deque': 'deque'}

OPAQUE = (C0, C1, C2, D0, E1, AbsImpl, object)

DEFAULT_FACTORIES = {'int': int, 'list': list, 'None': None}


def half(v):
    """twice the value of a real number, None if not a half-integer in a small range"""
    try:
        if isinstance(v, complex):
            if v.imag:
                return None
            v = v.real
        t = v * 2
        if t == int(t) and abs(t) < 10 ** 6:
            return int(t)
    except Exception:
        return None
    return None


NO_NUM = 2000003  # not a half-integer in range


class Unencodable(Exception):
    pass


def V(k, s='', n=0, e=(), i=0):
    return {'k': k, 's': s, 'n': n, 'e': list(e), 'i': i}


def enc_atom(v):
    """encode an atom, or None if it is not one"""
    t = type(v)
    if v is None:
        return V('NoneType', 'None')
    if v is ...:
        return V('ellipsis', 'Ellipsis')
    if t in (bool, int, MyInt, float, Fraction, complex):
        h = half(v)
        if t is complex and v.imag:
            return V('complex', f'complex:{v}', NO_NUM)
        if h is None:
            return V(t.__name__, f'{t.__name__}:{v}?', NO_NUM)
        if t is float:
            return V('float', f'float:{v}', h)
        if t is complex:
            return V('complex', f'complex:{v}', h)
        if t is MyInt:
            return V('MyInt', f'MyInt:{int(v)}', h)
        return V(t.__name__, f'{t.__name__}:{v}', h)
    if t in (str, MyStr):
        return V(t.__name__, f'{t.__name__}:{str(v)}')
    if t is bytes:
        return V('bytes', 'bytes:' + v.decode('latin1').encode('unicode_escape').decode())
    if t is range:
        return V('range', repr(v))
    if id(v) in OBJ_BY_ID and OBJ[OBJ_BY_ID[id(v)]] is v:
        return V(t.__name__, OBJ_BY_ID[id(v)])
    if id(v) in FUN_BY_ID and FUNS[FUN_BY_ID[id(v)]] is v:
        return V('builtin_function' if v is len else 'function', FUN_BY_ID[id(v)])
    if isinstance(v, type) and id(v) in NAME_BY_CLASS and CLASSES[NAME_BY_CLASS[id(v)]] is v:
        return V('type', 'type:' + NAME_BY_CLASS[id(v)])
    return None


def atom_sort_key(a):
    return (a['k'], a['s'])


def enc_struct(v, label=lambda o: 0, extra=None):
    """encode any value; `label` gives the identity label of containers, `extra` handles further kinds"""
    a = enc_atom(v)
    if a is not None:
        return a
    t = type(v)
    if t in (list, MyList, tuple, MyTuple, VT, NT2, NT1, deque, set, frozenset, bytearray, dict, MyDict, OrderedDict,
             defaultdict, Counter):
        name = t.__name__
        i = 0 if (t in (tuple, frozenset) and not v) else label(v)
        if t is bytearray:
            return V(name, 'bytearray:' + bytes(v).decode('latin1').encode('unicode_escape').decode(), 0, (), i)
        s = ''
        if t is deque:
            s = str(v.maxlen)
        if t is defaultdict:
            s = next((k for k, f in DEFAULT_FACTORIES.items() if f is v.default_factory), '?')
        if FAMILY[name] == 'dict':
            e = [V('pair', '', 0, [enc_struct(k, label, extra), enc_struct(x, label, extra)]) for k, x in v.items()]
        elif FAMILY[name] == 'set':
            e = sorted((enc_struct(x, label, extra) for x in v), key=lambda x: json.dumps(x, sort_keys=True))
        else:
            e = [enc_struct(x, label, extra) for x in v]
        return V(name, s, 0, e, i)
    if t in OPAQUE:
        return V(t.__name__, t.__name__ + ':fresh', 0, (), label(v))
    if extra is not None:
        r = extra(v)
        if r is not None:
            return r
    return V('other', t.__name__)


# ---------------------------------------------------------------- user callbacks
def _num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def fn_ident(v):
    return v


def fn_to_int(v):
    if isinstance(v, (str, float, bytes)):
        return int(v)
    raise TypeError('to_int')


def fn_to_str(v):
    if isinstance(v, (str, int, float)):
        return str(v)
    raise TypeError('to_str')


def fn_inc(v):
    return v + 1


def fn_dbl(v):
    return v * 2


def fn_neg(v):
    return -v


def fn_upper(v):
    return v.upper()


def fn_strip(v):
    return v.strip()


def fn_bang(v):
    return v + '!'


def fn_raise_type(v):
    raise TypeError('user type')


def fn_raise_value(v):
    raise ValueError('user value')


def fn_raise_key(v):
    raise KeyError('user key')


def fn_raise_lookup(v):
    raise OddError('user odd')


def fn_raise_picky(v):
    raise PickyError(1, 2)


def fn_raise_unicode(v):
    return b'\xff'.decode('ascii')


def fn_raise_zero(v):
    return 1 // 0


def _const(c):
    def f(v):
        return c

    return f


# conditions
def fn_is_pos(v):
    return v > 0


def fn_is_small(v):
    return v < 5


def fn_truthy(v):
    return v


def fn_always(v):
    return True


def fn_never(v):
    return False


def fn_falsy0(v):
    return 0


def fn_is_str(v):
    return isinstance(v, str)


FNS = {k[3:]: f for k, f in list(globals().items()) if k.startswith('fn_')}
CONSTS = {'c_int5': 5, 'c_int0': 0, 'c_true': True, 'c_myint': MyInt(5), 'c_float': 2.5, 'c_strA': 'A', 'c_none': None,
          'c_fn': f_user, 'c_o3': OBJ['C1:o3'], 'c_o1': OBJ['C0:o1'], 'c_E1': OBJ['E1:o6'], 'c_bytes': b'ab',
          'c_strb': 'b', 'c_mystr': MyStr('a'), 'c_type': int, 'c_ell': ...}
for _k, _c in CONSTS.items():
    FNS[_k] = _const(_c)

# how the callbacks treat containers, records and other structured values
FN_GEN = {k: 'unknown' for k in FNS}
FN_GEN.update({'ident': 'ident', 'truthy': 'truthy', 'to_int': 'TypeError', 'to_str': 'TypeError', 'always': 'bool:True',
               'never': 'bool:False', 'falsy0': 'int:0', 'is_str': 'bool:False', 'raise_type': 'TypeError',
               'raise_value': 'ValueError', 'raise_key': 'KeyError', 'raise_lookup': 'OddError',
               'raise_picky': 'PickyError', 'raise_unicode': 'UnicodeDecodeError', 'raise_zero': 'ZeroDivisionError',
               'is_pos': 'TypeError', 'is_small': 'TypeError', 'bang': 'TypeError', 'upper': 'AttributeError', 'strip': 'AttributeError', 'inc': 'TypeError'})
FN_GEN.update({k: enc_atom(c)['s'] for k, c in CONSTS.items()})

PATTERNS = {'p_az': '[a-z]+', 'p_dig': r'\d+', 'p_a': 'a', 'p_opt': 'a?', 'p_alt': 'a|ab'}


def literal(v):
    while isinstance(v, str):
        try:
            v = ast.literal_eval(v)
        except ValueError:
            raise TypeError
    return v


def ev(ns):
    def f(v):
        if not isinstance(v, str):
            raise TypeError
        try:
            return eval(v, {'__builtins__': ns})
        except Exception:
            raise TypeError

    return f


def tobytes(origin, *args, **kw):
    def f(v):
        if not isinstance(v, numbers.Integral):
            raise TypeError
        a = args
        if not a and 'length' not in kw:
            a = ((v.bit_length() + 7 + kw.get('signed', False)) // 8,)
        return origin(v.to_bytes(*a, **kw))

    return f


# named unary functions on atoms; the names are what the specification refers to
PRIMS = {}
for _n in ('int', 'float', 'str', 'bool', 'complex', 'bytes', 'bytearray', 'list', 'tuple', 'set', 'frozenset', 'dict',
           'deque', 'Fraction', 'MyInt', 'MyStr', 'MyList', 'MyTuple', 'VT', 'NT2', 'NT1', 'range', 'C0', 'C1', 'D0', 'E1', 'C2', 'type',
           'NoneType', 'ellipsis', 'object', 'OrderedDict', 'Counter', 'defaultdict', 'MyDict', 'AbsImpl'):
    PRIMS['ctor:' + _n] = CLASSES[_n]
PRIMS['ctor:int/16'] = lambda v: int(v, 16)
PRIMS['ctor:str/ascii'] = lambda v: str(v, encoding='ascii')
PRIMS['ctor:bytes/ascii'] = lambda v: bytes(v, encoding='ascii')
PRIMS['eval:plain'] = ev({})
PRIMS['eval:intfloat'] = ev({'int': int, 'float': float})
PRIMS['eval:int'] = ev({'int': int})
PRIMS['eval:float'] = ev({'float': float})
PRIMS['eval:C1'] = ev({'C1': C1})
PRIMS['literal'] = literal
PRIMS['tobytes:bytes/auto'] = tobytes(bytes, byteorder='big')
PRIMS['tobytes:bytes/len1'] = tobytes(bytes, 1, byteorder='big')
PRIMS['tobytes:bytes/len2'] = tobytes(bytes, length=2, byteorder='little')
PRIMS['tobytes:bytes/signed'] = tobytes(bytes, byteorder='big', signed=True)
PRIMS['cm:int.from_bytes'] = lambda v: int.from_bytes(v, byteorder='big')
PRIMS['cm:float.fromhex'] = float.fromhex
PRIMS['cm:C1.make'] = C1.make
PRIMS['json'] = json.loads
for _n, _p in PATTERNS.items():
    PRIMS['match:' + _n] = lambda v, _p=_p: bool(re.compile(_p).fullmatch(v))
for _n, _f in FNS.items():
    PRIMS['fn:' + _n] = _f

ERRS = [TypeError, ValueError, KeyError, OddError, PickyError, LookupError, AttributeError, ZeroDivisionError,
        OverflowError, UnicodeDecodeError, SyntaxError, IndexError, AssertionError, RuntimeError, NameError]


NAMES = sorted(['xa', 'yb', 'zc', 'wd', 've', 'q', 'Xa', 'aa', '_u'])


def build_facts():
    atoms = {}
    order = []

    def add(v, depth):
        a = enc_atom(v)
        if a['s'] not in atoms:
            atoms[a['s']] = (v, a, depth)
            order.append(a['s'])

    for v in base_atoms():
        add(v, 0)
    prims = {p: {} for p in PRIMS}
    done = 0
    while done < len(order):
        s = order[done]
        done += 1
        v, a, depth = atoms[s]
        for p, f in PRIMS.items():
            try:
                r = f(v)
            except Exception as e:
                prims[p][s] = {'o': 'err', 'x': type(e).__name__, 'v': V('none')}
                continue
            x = enc_struct(r, lambda o: -1)

            def known(x):
                if x['e'] or x['k'] in FAMILY or x['k'] == 'bytearray':
                    return all(known(y) for y in x['e'])
                if x['k'] == 'pair':
                    return all(known(y) for y in x['e'])
                return x['s'] in atoms or x['s'].endswith(':fresh') or x['s'][4:] in NAMES

            if p.startswith('match') or x['s'] in atoms:
                pass
            elif enc_atom(r) is not None and depth < 1 and len(order) < 262 and '?' not in x['s'] \
                    and len(x['s']) < 24 and p not in ('fn:bang',):
                add(r, depth + 1)
            if known(x):
                prims[p][s] = {'o': 'ok', 'x': '', 'v': x}
    for p in prims:
        for a in order:
            prims[p].setdefault(a, {'o': 'unk', 'x': '', 'v': V('none')})
    kinds = {}
    for k in set(a['k'] for _, a, _ in atoms.values()):
        sample = next(v for v, a, _ in atoms.values() if a['k'] == k)
        kinds[k] = [n for n, c in CLASSES.items() if isinstance(sample, c)]
    for k in FAMILY:
        c = CLASSES[k]
        sample = c((1,)) if k not in ('dict', 'MyDict', 'OrderedDict', 'Counter', 'defaultdict') else c()
        kinds[k] = [n for n, cc in CLASSES.items() if isinstance(sample, cc)]
    kinds['bytearray'] = [n for n, cc in CLASSES.items() if isinstance(bytearray(), cc)]
    kinds['object'] = ['object', 'Hashable']
    kinds['ns'] = [n for n, cc in CLASSES.items() if isinstance(SimpleNamespace(), cc)]
    # instances of record classes: frozen ones are hashable
    kinds['rec'] = ['object']
    at = {}
    reps = {}
    for s in order:
        v, a, _ = atoms[s]
        q = None
        for rq, rv in reps.items():
            try:
                same = bool(rv == v)
            except Exception:
                same = False
            if same:
                q = rq
                break
        if q is None:
            q = s
            reps[q] = v
        try:
            hash(v)
            h = True
        except TypeError:
            h = False
        num = isinstance(v, (int, float, Fraction)) and a['n'] is not None
        at[s] = {'v': a, 'q': q, 'truth': bool(v), 'hash': h,
                 'ord': 'num' if num else 'str' if isinstance(v, str) else 'bytes' if isinstance(v, bytes) else 'no',
                 'rank': 0, 'jsonable': isinstance(v, (str, int, float, type(None))), 'callable': callable(v),
                 'repr': repr(v) if type(v) in (int, bool, float, str, type(None), type(...), bytes, complex, range)
                 else '', 'iter': [enc_struct(x) for x in v] if isinstance(v, (str, bytes, range)) else [],
                 'isiter': isinstance(v, (str, bytes, range))}
    for grp in ('str', 'bytes'):
        g = sorted((s for s in order if at[s]['ord'] == grp), key=lambda s: atoms[s][0])
        rank = -1
        prev = None
        for s in g:
            if prev is None or atoms[s][0] != prev:
                rank += 1
            prev = atoms[s][0]
            at[s]['rank'] = rank
    for s in order:
        if at[s]['ord'] == 'num':
            at[s]['rank'] = atoms[s][1]['n']
    types = {'type:' + n: [m for m, d in CLASSES.items() if issubclass(c, d)] for n, c in CLASSES.items()}
    wrap = {}
    for e in ERRS:
        try:
            e('msg')
            wrap[e.__name__] = e.__name__
        except TypeError:
            wrap[e.__name__] = 'ValueError'
    errsup = {e.__name__: [b.__name__ for b in e.__mro__] for e in ERRS}
    empty = {}
    for n, c in CLASSES.items():
        try:
            r = c()
        except Exception as e:
            empty[n] = {'o': 'err', 'x': type(e).__name__, 'v': V('none')}
            continue
        x = enc_struct(r, lambda o: -1)
        if x['k'] != 'other':
            empty[n] = {'o': 'ok', 'x': '', 'v': x}
    from inspect import isabstract
    return {'atoms': at, 'prims': prims, 'kinds': kinds, 'types': types, 'wrap': wrap, 'errsup': errsup,
            'empty': empty, 'fngen': FN_GEN,
            'fnany': sorted(list(CONSTS) + [k for k in FNS if k.startswith('raise_')] + ['always', 'never', 'falsy0']), 'fam': FAMILY,
            'classes': {n: {'abstract': isabstract(c), 'issub': types['type:' + n]} for n, c in CLASSES.items()},
            'names': NAMES}


if __name__ == '__main__':
    import os

    f = build_facts()
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'facts.json')
    with open(p, 'w') as fh:
        json.dump(f, fh, separators=(',', ':'), sort_keys=True)
    print(len(f['atoms']), {k: len(v) for k, v in f['prims'].items()})
