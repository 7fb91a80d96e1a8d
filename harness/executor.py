"""Runs scenarios (cases of the specification) on the real library and records what happens.

usage: executor.py IN.json OUT.json         cases in, traces out
       executor.py --helper                 another process, with another hash seed, for pickles
"""
import base64
import copy
import json
import logging
import operator
import os
import re
import signal
import subprocess
import sys
import types
import typing
import warnings
import zlib
from io import BytesIO, StringIO

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.dont_write_bytecode = True

import universe as U  # noqa: E402
import records  # noqa: E402
from records import (AssertCallValidation, CallCoercion, CallValidation, Clamp, ClassMethodCoercion,  # noqa: E402
                     ComposeCoercer, Cyclic, Eval, Factory, Falsish, FromInteger, FullMatch, LiteralEval, Loose,
                     LooseUnpack, LooseUnpackMap, MapCoercion, RecordBase, SelectableFactory, Tag, Truth, TypeCheckStyle,
                     Whole, Within, exclude_from_ordering, parser)
from records.fillers.builtin_fillers.std_fillers import ToBytes  # noqa: E402
from records.select import Select  # noqa: E402

assert os.path.abspath(records.__file__).startswith(os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))), records

V = U.V
NOTHING = V('none')
NAMES = {'xa', 'yb', 'zc', 'wd', 've', 'q', 'Xa', 'aa', '_u'}
TAGS = ('t1', 't2', 't3', 'X')
ERRS = {e.__name__: e for e in U.ERRS}
ERRS['Exception'] = Exception
STYLES = {'hollow': TypeCheckStyle.hollow, 'check': TypeCheckStyle.check, 'strict': TypeCheckStyle.check_strict}
TV = typing.TypeVar('TV')
SCN = types.ModuleType('scn')
sys.modules['scn'] = SCN
sys.modules.setdefault('universe', U)
TYPING_ITER = {'list': typing.List, 'set': typing.Set, 'frozenset': typing.FrozenSet, 'deque': typing.Deque,
               'Sequence': typing.Sequence, 'MutableSequence': typing.MutableSequence, 'Set': typing.AbstractSet,
               'MutableSet': typing.MutableSet, 'dict': typing.Dict, 'defaultdict': typing.DefaultDict,
               'Mapping': typing.Mapping, 'MutableMapping': typing.MutableMapping, 'Iterable': typing.Iterable,
               'Iterator': typing.Iterator, 'Collection': typing.Collection, 'Container': typing.Container,
               'Reversible': typing.Reversible, 'Generator': typing.Generator, 'AsyncGenerator': typing.AsyncGenerator,
               'AsyncIterator': typing.AsyncIterator, 'AsyncIterable': typing.AsyncIterable, 'tuple': typing.Tuple, 'type': typing.Type}


class CountingHandler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, record):
        self.n += 1


LOG = logging.Logger('verif')
HANDLER = CountingHandler()
LOG.addHandler(HANDLER)


class Timeout(Exception):
    pass


def make_error(name):
    if name == 'PickyError':
        return U.PickyError(1, 2)
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('ascii', b'\xff', 0, 1, 'x')
    return ERRS[name]('custom')


def tag_of(t):
    return exclude_from_ordering if t == 'X' else Tag(t)


def sort_key_const(k):
    return 0


def sort_key_last(k):
    return k[-1]


class Helper:
    proc = None

    @classmethod
    def ask(cls, msg):
        if cls.proc is None:
            env = dict(os.environ, PYTHONHASHSEED='4242')
            cls.proc = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--helper'], stdin=subprocess.PIPE,
                                        stdout=subprocess.PIPE, env=env, text=True)
        cls.proc.stdin.write(json.dumps(msg) + '\n')
        cls.proc.stdin.flush()
        return json.loads(cls.proc.stdout.readline())

    @classmethod
    def close(cls):
        if cls.proc is not None:
            cls.proc.stdin.close()
            cls.proc.wait()


class Scenario:
    def __init__(self, case):
        self.case = case
        self.slots = {'_': None}
        self.classes = {}
        self.descs = {}
        self.names = {}  # id(class) -> name
        self.sels = {}
        self.handles = {}
        self.by_label = {}
        self.labels = {}
        self.keep = []
        self.m = 999
        self.calls = []
        self.token_memo = {}
        self.share = zlib.crc32(case.get('id', '').encode()) % 2 == 1 or any(o['op'] == 'def' and o['d'].get('share') for o in case['ops'])
        for k in list(vars(SCN)):
            if not k.startswith('__'):
                delattr(SCN, k)

    # ------------------------------------------------------------ values
    def label(self, o):
        i = self.labels.get(id(o))
        if i is None:
            self.m += 1
            i = self.m
            self.labels[id(o)] = i
            self.keep.append(o)
        return i

    def enc(self, v, depth=0):
        def extra(x):
            return self.enc_extra(x, depth)

        return U.enc_struct(v, self.label, extra)

    def enc_extra(self, x, depth):
        t = type(x)
        if id(t) in self.names:
            if depth > 12:
                return V('other', 'deep')
            name = self.names[id(t)]
            d = self.descs[name]
            n = (1 if d['truth'] else 0) + (2 if t.is_frozen() else 0)
            dct = vars(x)
            fields = field_names(t)
            e = [V('fld', f, 0, [self.enc(dct[f], depth + 1)]) for f in fields if f in dct]
            e += [V('attr', f, 0, [self.enc(dct[f], depth + 1)]) for f in sorted(dct)
                  if f not in fields and f in NAMES]
            return V('rec', name, n, e, self.label(x))
        if t is types.SimpleNamespace:
            e = [V('attr', f, 0, [self.enc(y, depth + 1)]) for f, y in sorted(vars(x).items())]
            return V('ns', '', 0, e, self.label(x))
        if isinstance(x, type) and id(x) in self.names:
            return V('type', 'type:' + self.names[id(x)])
        return None

    def dec(self, v):
        i = v['i']
        if i > 0 and i in self.by_label:
            return self.by_label[i]
        o = self.dec_new(v)
        if i > 0:
            self.by_label[i] = o
            self.labels[id(o)] = i
            self.keep.append(o)
        return o

    def dec_new(self, v):
        k, s, e = v['k'], v['s'], v['e']
        if k == 'ref':
            return self.slots[s]
        if k in ATOMS_BY_KIND and s in ATOMS:
            return ATOMS[s]
        if s.endswith(':fresh'):
            return U.CLASSES[k]()
        if k == 'type':
            return self.classes[s[5:]]
        if k == 'ns':
            return types.SimpleNamespace(**{x['s']: self.dec(x['e'][0]) for x in e})
        fam = U.FAMILY.get(k)
        if fam == 'dict':
            ps = [(self.dec(p['e'][0]), self.dec(p['e'][1])) for p in e]
            if k == 'defaultdict':
                return U.defaultdict(U.DEFAULT_FACTORIES[s] if s != 'None' else None, ps)
            return U.CLASSES[k](dict(ps))
        if fam:
            es = [self.dec(x) for x in e]
            if k == 'deque':
                return U.deque(es, None if s in ('', 'None') else int(s))
            if k in ('NT2', 'NT1', 'VT'):
                return U.CLASSES[k](*es)
            return U.CLASSES[k](es)
        if k == 'int':
            return int(s[4:])
        if k == 'float':
            return float(s[6:])
        if k == 'str':
            return s[4:]
        raise ValueError(f'cannot decode {v}')

    # ------------------------------------------------------------ annotations
    def cls_of(self, c):
        return self.classes[c] if c in self.classes else U.CLASSES[c]

    def log(self, f, p, lo, v):
        self.calls.append({'f': f, 'p': p, 'lo': lo, 'v': v})

    def func(self, t):
        g = U.FNS[t['g']]
        if not t['p']:
            return g

        def logged(v):
            self.log(t['pf'], t['p'], t['lo'], self.enc(v))
            return g(v)

        return logged

    def constraint(self, c):
        return ... if c == '...' else self.cls_of(c)

    def assert_kw(self, t):
        kw = {}
        if t['x']:
            kw['err'] = 'custom message' if t['x'] == 'ValueError' and t['w'] == 'no' and t['lo'] else make_error(t['x'])
        if t['w'] == 'warn':
            kw['warn'] = True
        elif t['w'] == 'log':
            kw['warn'] = LOG
        return kw

    def bounds(self, t, names):
        return {n: self.dec(b[0]) for n, b in zip(names, t['vs']) if b}

    def token(self, t):
        if not self.share:
            return self.token_new(t)
        # one and the same token object for the same token wherever it occurs
        key = json.dumps({n: x for n, x in t.items() if n not in ('pf', 'lo')} if t['f'] not in ('call', 'acall') else t, sort_keys=True)
        if key not in self.token_memo:
            self.token_memo[key] = self.token_new(t)
        return self.token_memo[key]

    def token_new(self, t):
        k, f, g = t['t'], t['f'], t['g']
        if k == 'style':
            return STYLES[f]
        if k == 'tag':
            return exclude_from_ordering if f == 'X' else Tag(f)
        if k == 'co':
            if f == 'call':
                return CallCoercion(self.func(t))
            if f == 'loose':
                m = Loose
                if t['cs']:
                    cs = tuple(self.constraint(c) for c in t['cs'])
                    m = Loose.constrain(cs[0] if len(cs) == 1 else cs)
                if g == '/16':
                    return m(16)
                if g == '/ascii':
                    return m(encoding='ascii')
                return m if t['lo'] else m()
            if f == 'unpack':
                m = LooseUnpack.constrain(*[self.constraint(c) for c in t['cs']]) if t['cs'] else LooseUnpack
                return m if t['lo'] else m()
            if f == 'unpackmap':
                m = LooseUnpackMap.constrain(**{a: self.cls_of(b) for a, b in t['cs']}) if t['cs'] else LooseUnpackMap
                return m if t['lo'] else m()
            if f == 'eval':
                return Eval if g == 'plain' and t['lo'] else Eval() if g == 'plain' else Eval(int, float=float) \
                    if g == 'intfloat' else Eval(...)
            if f == 'literal':
                return LiteralEval if t['lo'] else LiteralEval()
            if f == 'whole':
                return Whole if t['lo'] else Whole()
            if f == 'tobytes':
                return {'auto': lambda: ToBytes(byteorder='big'), 'len1': lambda: ToBytes(1, byteorder='big'),
                        'len2': lambda: ToBytes(length=2, byteorder='little'),
                        'signed': lambda: ToBytes(byteorder='big', signed=True)}[g]()
            if f == 'frombool':
                return FromInteger if t['lo'] else FromInteger()
            if f == 'falsish':
                return Falsish if t['lo'] else Falsish()
            if f == 'map':
                vm = {self.dec(a): self.dec(b) for a, b in t['vs'][0]}
                fm = {self.dec(a): self.factory(b) for a, b in t['vs'][1]}
                return MapCoercion(vm, fm)
            if f == 'cm':
                return ClassMethodCoercion('from_bytes', byteorder='big') if g == 'from_bytes' else ClassMethodCoercion(g)
            if f == 'compose':
                return ComposeCoercer(*[self.token(x) for x in t['a']])
        if k == 'va':
            if f == 'call':
                return CallValidation(self.func(t))
            if f == 'acall':
                return AssertCallValidation(self.func(t), **self.assert_kw(t))
            if f == 'within':
                return Within(**self.bounds(t, ('ge', 'lt')), g_eq=t['fl'][0], l_eq=t['fl'][1], **self.assert_kw(t))
            if f == 'clamp':
                return Clamp(**self.bounds(t, ('ge', 'le')))
            if f == 'cyclic':
                return Cyclic(self.dec(t['vs'][0][0]), self.dec(t['vs'][1][0]))
            if f == 'match':
                p = U.PATTERNS[g]
                return FullMatch(re.compile(p) if t['lo'] else p, **self.assert_kw(t))
            if f == 'truth':
                kw = self.assert_kw(t)
                return Truth if t['lo'] and not kw else Truth(**kw)
        raise ValueError(t)

    def factory(self, v):
        def f():
            if v['k'] == 'raise':
                raise make_error(v['s'])
            return self.dec(v)

        return f

    def annotation(self, T):
        base = self.base(T)
        toks = [self.token(t) for t in T['m']]
        if toks:
            for clear in typing._cleanups:
                clear()  # unions in another order are equal, and typing would return the one it has made before
            return typing.Annotated.__class_getitem__((base, *toks))
        return base

    def base(self, T):
        t, c, a = T['t'], T['c'], T['a']
        if t == 'cls':
            return self.cls_of(c)
        if t == 'none':
            return type(None)
        if t == 'ell':
            return type(...)
        if t == 'any':
            return typing.Any
        if t == 'bare':
            return TYPING_ITER[c][TV] if a and c not in ('tuple', 'dict', 'defaultdict', 'Mapping', 'MutableMapping') \
                else TYPING_ITER[c]
        if t == 'newtype':
            return typing.NewType('NewT', self.annotation(a[0]))
        if t == 'callable':
            return {'': typing.Callable, 'plain': callable, 'args': typing.Callable[..., int]}[c]
        if t == 'lit':
            return typing.Literal.__getitem__(tuple(self.dec(x) for x in T['l']))
        if t == 'type':
            return typing.Type[self.cls_of(c)] if c else typing.Type
        if t == 'tuple':
            return typing.Tuple.__getitem__(tuple(self.annotation(x) for x in a) if a else ())
        if t == 'vtuple':
            return typing.Tuple.__getitem__((self.annotation(a[0]), ...))
        if t in ('iter', 'gen'):
            return TYPING_ITER[c].__getitem__(self.annotation(a[0]) if len(a) == 1 else tuple(self.annotation(x) for x in a))
        if t == 'map':
            return TYPING_ITER[c].__getitem__((self.annotation(a[0]), self.annotation(a[1])))
        if t == 'union':
            for clear in typing._cleanups:
                clear()
            return typing.Union.__getitem__(tuple(self.annotation(x) for x in a))
        if t == 'dumb':
            return typing.NoReturn if T['m'] or c else 15
        if t == 'classvar':
            return typing.ClassVar[self.annotation(a[0])] if a else typing.ClassVar
        raise ValueError(T)

    # ------------------------------------------------------------ classes
    def define(self, d):
        name = d['name']
        body = {'__module__': 'scn', '__annotations__': {}, '__qualname__': d.get('qual', name)}
        for f in d['own']:
            T = f['T']
            if f['d'] == 'val':
                body[f['n']] = self.dec(f['dv'])
            elif f['d'] == 'fac':
                body[f['n']] = Factory(self.default_factory(name, f))
            if T['t'] == 'plain':
                continue
            ann = self.annotation({**T, 'm': []} if f['final'] else T)
            if f['final']:
                ann = typing.Final[ann]
                if T['m']:
                    ann = typing.Annotated.__class_getitem__((ann, *[self.token(t) for t in T['m']])) \
                        if d.get('finalout') else typing.Final[self.annotation(T)]
            body['__annotations__'][f['n']] = ann
        if d['preset']:
            body['pre_bind'] = classmethod(lambda cls: self.pre_bind(cls, d['pre']))
        if not d['mix'] or not d['truth']:
            truth = d['truth']
            if not d['mix']:
                body['__bool__'] = lambda self_: truth
        if d['post']['k'] != 'inherit' and d['post']['k'] != 'none':
            body['post_new'] = self.post(d['post'])
        elif d['post']['k'] == 'none' and not d['mix']:
            pass
        for p in d['parsers']:
            body[p['n']] = self.parser_(p)
        kw = {}
        if not d['mix']:
            if d['frozen']:
                kw['frozen'] = True
            if d['ordered']:
                kw['ordered'] = True
            if d['unary'] != 'none':
                kw['unary_parse'] = d['unary'] == 'yes'
            if d['style'] != 'hollow':
                kw['default_type_check'] = STYLES[d['style']]
        bases = tuple(self.classes[b] for b in d['bases'])
        if not d['mix'] and not any(issubclass(b, RecordBase) for b in bases):
            bases = (*bases, RecordBase)
        cls = types.new_class(d.get('qual', name), bases or (object,), kw, lambda ns: ns.update(body))
        self.classes[name] = cls
        self.descs[name] = d
        self.names[id(cls)] = name
        setattr(SCN, name, cls)

    def default_factory(self, cname, f):
        v = f['dv']

        def fac():
            self.log(cname + '.' + f['n'], 'fac', False, NOTHING)
            if v['k'] == 'raise':
                raise make_error(v['s'])
            return self.dec(v)

        return fac

    def pre_bind(self, cls, pre):
        for p in pre:
            self.add_token(cls, p['f'], p['key'], p['tok'], p.get('deco', False))

    def add_token(self, cls, f, key, t, deco=False):
        field = getattr(cls, f)
        kw = {}
        if key >= 0:
            kw['sub_key'] = key
        if t['t'] == 'co':
            add = field.add_coercer
        elif t['f'] == 'acall':
            add = field.add_assert_validator
            kw.update(self.assert_kw(t))
        else:
            add = field.add_validator
        if kw:
            add(**kw)(self.func(t))
        else:
            add(self.func(t))

    def post(self, p):
        def post_new(self_):
            self.log('', 'post', False, self.enc(self_))
            if p['cf'] and not vars(self_)[p['cf']] == self.dec(p['cv']):
                return None
            if p['k'] == 'self':
                return self_
            if p['k'] == 'look':
                self_ == self_
                repr(self_)
                try:
                    hash(self_)
                except TypeError:
                    pass
                return None
            if p['k'] == 'set':
                setattr(self_, p['f'], self.dec(p['v']))
                return None
            if p['k'] == 'raise':
                raise make_error(p['f'])
            if p['k'] == 'rep':
                return self.dec(p['v'])
            return None

        return post_new

    def parser_(self, p):
        if p['k'] == 'fn':
            g = U.FNS[p['g']]

            def fn(cls, v):
                return g(v)
        elif p['k'] == 'newf':
            def fn(cls, v):
                return cls(**{p['g']: v})
        else:
            def fn(cls, v):
                if v == self.dec(p['v1']):
                    return self.dec(p['v2'])
                raise ValueError('no')
        r = classmethod(fn)
        return parser(r) if p['marked'] else r

    # ------------------------------------------------------------ operations
    def walk(self, v, path):
        for p in path:
            if p['k'] == 'f':
                v = vars(v)[p['s']]
            elif p['k'] == 'v':
                v = list(v.values())[p['n'] - 1]
            else:
                v = v[p['n'] - 1]
        return v

    def opts(self, o):
        kw = {}
        if o['incl'] != '-':
            kw['include_defaults'] = o['incl'] == 'yes'
        if o['sort'] != '-':
            kw['sort'] = {'no': None, 'asc': True, 'desc': -1, 'last': sort_key_last, 'len': len,
                          'const': sort_key_const}[o['sort']]
        for k, n in (('bl', 'blacklist_tags'), ('wl', 'whitelist_keys')):
            if o[k]['g']:
                xs = [(exclude_from_ordering if x == 'X' else Tag(x)) if k == 'bl' else x for x in o[k]['t']]
                form = o.get('form', 0) % 4
                kw[n] = (xs[0] if len(xs) == 1 and form in (0, 1) else list(xs) if form == 2 else tuple(xs) if form == 3
                         else frozenset(xs))
        return kw

    def sel_kw(self, d):
        form = d.get('form', 0)
        kw = {}
        for k, n in (('rm', 'keys_to_remove'), ('mrm', 'keys_to_maybe_remove')):
            xs = d[k]
            if xs:
                kw[n] = xs[0] if len(xs) == 1 and form % 2 else (x for x in xs) if form % 3 == 1 else list(xs)
        for k, n in (('rn', 'keys_to_rename'), ('mrn', 'keys_to_maybe_rename'), ('ad', 'keys_to_add'),
                     ('mad', 'keys_to_maybe_add')):
            xs = [(a, self.dec(b) if k in ('ad', 'mad') else b) for a, b in d[k]]
            if xs:
                uniq = len({a for a, _ in xs}) == len(xs)
                kw[n] = dict(xs) if uniq and form % 2 else (x for x in xs) if form % 3 == 1 else tuple(xs)
        return kw

    def chain(self, h, ch):
        for s in ch:
            if s['w'] == 'sel':
                h = h.select(*[self.sels[q] for q in s['q']])
            else:
                h = h.export_with(**self.opts(s['o']))
        return h

    def applies(self, op):
        """whether what the operation refers to exists (an earlier operation may have failed)"""
        k = op['op']

        def missing(x):
            if isinstance(x, dict):
                if x.get('k') == 'ref' and 's' in x:
                    return x['s'] not in self.slots
                if x.get('k') == 'type' and str(x.get('s', '')).startswith('type:'):
                    return x['s'] not in ATOMS and x['s'][5:] not in self.classes
                if x.get('t') == 'cls' and 'c' in x and x['c'] not in self.classes and x['c'] not in U.CLASSES:
                    return True
                return any(missing(y) for y in x.values())
            if isinstance(x, list):
                return any(missing(y) for y in x)
            return False

        if missing({n: x for n, x in op.items()}):
            return False
        if k == 'def':
            return op['d']['name'] not in self.classes and all(b in self.classes for b in op['d']['bases'])
        if op.get('c') and op['c'] not in self.classes:
            return False
        if op.get('hf') and op['hf'] not in self.handles:
            return False
        for s in op.get('chain', ()):
            if any(q not in self.sels for q in s['q']):
                return False
        if k == 'apply' and op['q'] not in self.sels:
            return False
        if k == 'qmerge' and any(q not in self.sels for q in [op['base'], *op['with']]):
            return False
        if k in ('copy', 'deep', 'rt') or (k == 'exp' and not op['c'] and not op['hf']):
            v = op['v']
            return v['k'] == 'ref' and id(type(self.slots[v['s']])) in self.names
        if k in ('set', 'del', 'get', 'mut'):
            try:
                t = self.walk(self.slots[op['t']['s']], op['path'])
            except (KeyError, IndexError, TypeError, AttributeError):
                return False
            if k in ('set', 'mut') and self.reaches(op['v'], id(t)):
                return False  # would be cyclic
            return k not in ('set', 'del') or id(type(t)) in self.names
        return True

    def reaches(self, v, target):
        """whether the object with this id is part of the value v"""
        seen = set()

        def inside(o):
            if id(o) == target:
                return True
            if id(o) in seen or not isinstance(o, (list, tuple, set, frozenset, dict, U.deque, RecordBase, types.SimpleNamespace)):
                return False
            seen.add(id(o))
            if hasattr(o, '__dict__') and any(inside(x) for x in vars(o).values()):
                return True
            if isinstance(o, dict):
                return any(inside(x) or inside(y) for x, y in o.items())
            return not isinstance(o, (RecordBase, types.SimpleNamespace)) and any(inside(x) for x in o)

        return inside(self.slots[v['s']]) if v['k'] == 'ref' else any(self.reaches(x, target) for x in v['e']) \
            or (v['i'] in self.by_label and id(self.by_label[v['i']]) == target)

    def run(self, op):
        k = op['op']
        d = self.dec
        if k == 'def':
            self.define(op['d'])
            return None
        if k == 'let':
            return d(op['v'])
        if k == 'new':
            kw = {n: d(v) for n, v in op['kw']}
            return self.classes[op['c']](*[d(v) for v in op['pos']], **kw)
        if k == 'parse':
            return self.classes[op['c']].parse(d(op['v']))
        if k == 'imp':
            h = self.handles[op['hf']] if op['hf'] else getattr(self.classes[op['c']], op['how'])
            h = self.chain(h, op['chain'])
            if op['save']:
                self.handles[op['save']] = h
                return None
            args = [d(v) for v in op['args']]
            if op['how'] == 'from_json_io':
                args = [StringIO(args[0])]
            return h(*args, **{n: d(v) for n, v in op['kw']})
        if k == 'exp':
            obj = d(op['v'])
            if op['hf']:
                h = self.handles[op['hf']]
            else:
                h = getattr(self.classes[op['c']] if op['c'] else obj, op['how'])
            h = self.chain(h, op['chain'])
            if op['save']:
                self.handles[op['save']] = h
                return None
            args = [] if type(h).__name__ == 'Bound' else [obj]
            if op['how'] == 'to_dict':
                return h(*args, **self.opts(op['o']))
            if op.get('io'):
                io = StringIO()
                h(*args, io=io)
                return json.loads(io.getvalue())
            r = h(*args)
            if not isinstance(r, str):
                return r
            return json.loads(r)
        if k == 'set':
            setattr(self.walk(d(op['t']), op['path']), op['f'], d(op['v']))
            return None
        if k == 'del':
            delattr(self.walk(d(op['t']), op['path']), op['f'])
            return None
        if k == 'get':
            return self.walk(d(op['t']), op['path'])
        if k == 'mut':
            t = self.walk(d(op['t']), op['path'])
            m = op['m']
            if m == 'append':
                t.append(d(op['v']))
            elif m == 'clear':
                t.clear()
            elif m == 'put':
                t[d(op['key'])] = d(op['v'])
            elif m == 'add':
                t.add(d(op['v']))
            elif m == 'set0':
                t[0] = d(op['v'])
            return None
        if k == 'hash':
            self.h = str(hash(d(op['v'])))
            return None
        if k == 'eq':
            r = d(op['a']) == d(op['b']) if op['f'] == 'eq' else d(op['a']) != d(op['b'])
            return r
        if k == 'cmp':
            return getattr(operator, op['f'])(d(op['a']), d(op['b']))
        if k == 'copy':
            return copy.copy(d(op['v']))
        if k == 'deep':
            return copy.deepcopy(d(op['v']))
        if k == 'rt':
            v = d(op['v'])
            r = self.round_trip(op['how'], v)
            self.h = self.equal(v, r) if self.h == '' else self.h
            return r
        if k == 'unpick':
            v = d(op['v'])
            b = U_PICKLE.dumps(v, protocol=op.get('proto', 4))
            if op.get('io'):
                return self.classes[op['c']].from_pickle_io(BytesIO(b))
            return self.classes[op['c']].from_pickle(b)
        if k == 'qdef':
            self.sels[op['q']] = Select(**self.sel_kw(op['d']))
            return None
        if k == 'qmerge':
            self.sels[op['q']] = self.sels[op['base']].merge(*[self.sels[q] for q in op['with']],
                                                             **self.sel_kw(op['kw']))
            return None
        if k == 'apply':
            v = d(op['v'])
            m = dict(v) if type(v) is dict else copy.copy(v)
            return self.sels[op['q']](m)
        if k == 'fields':
            c = self.classes[op['c']]
            if op['tag']:
                self.nm = list(c._fields.filter_by_tag(tag_of(op['tag'])))
            return None
        if k == 'tok':
            self.add_token(self.classes[op['c']], op['f'], op['key'], op['t'])
            return None
        if k == 'str':
            repr(d(op['v']))
            return None
        raise ValueError(k)

    def equal(self, a, b):
        if not (a == b) or a != b or not (b == a):
            return 'copies that differ'
        if type(a).is_frozen():
            try:
                x = hash(a)
            except TypeError:
                return ''
            if hash(b) != x:
                return 'hash differs'
        return ''

    def round_trip(self, how, v):
        c = type(v)
        if how == 'dict':
            return c.from_mapping(v.to_dict())
        if how == 'dicti':
            return c.from_mapping(v.to_dict(include_defaults=True))
        if how == 'inst':
            return c.from_instance(v)
        if how == 'json':
            return c.from_json(v.to_json())
        if how == 'jsoni':
            return c.from_json(v.to_json.export_with(include_defaults=True)())
        if how == 'json_io':
            io = StringIO()
            v.to_json(io=io)
            io.seek(0)
            return c.from_json_io(io)
        if how == 'pickle':
            return c.from_pickle(v.to_pickle())
        if how == 'pickle_io':
            io = BytesIO()
            v.to_pickle(io=io)
            io.seek(0)
            return c.from_pickle_io(io)
        if how == 'xpickle':
            defs = [o['d'] for o in self.case['ops'] if o['op'] == 'def' and o['d']['name'] in self.classes]
            ans = Helper.ask({'defs': defs, 'p': base64.b64encode(v.to_pickle()).decode()})
            if 'err' in ans:
                raise RuntimeError('in another process: ' + ans['err'])
            self.h = ans['h']
            return c.from_pickle(base64.b64decode(ans['p']))
        ns = {**U.CLASSES, **self.classes, 'datetime': None}
        if how == 'repr':
            return eval(repr(v), ns)
        if how == 'repri':
            return eval(v.__repr__(include_defaults=True), ns)
        raise ValueError(how)

    def infos(self, op):
        r = []
        if op['op'] not in ('def', 'fields', 'tok'):
            return r
        for n, c in self.classes.items():
            if self.descs[n]['mix']:
                continue
            fs = []
            for f in field_names(c):
                x = c._fields[f]
                own = self.names.get(id(x.owner), '?')
                dd = 'none' if not x.has_default else 'fac' if x.default_is_factory else 'val'
                tags = [t for t in TAGS if tag_of(t) in x.tags]
                fs.append({'n': f, 'o': own, 'd': dd, 't': tags})
            r.append({'c': n, 'frozen': c.is_frozen(), 'fields': fs})
        return r

    def defaults(self):
        r = []
        for n, c in self.classes.items():
            for f in self.descs[n]['own']:
                if f['d'] == 'val' and f['T']['t'] not in ('plain', 'classvar') and not self.descs[n]['mix']:
                    r.append({'c': n, 'f': f['n'], 'v': self.enc(getattr(c, f['n']).default)})
        return r

    def step(self, op):
        self.calls = []
        self.h = ''
        self.nm = []
        m0 = self.m
        HANDLER.n = 0
        ev = {'o': 'ok', 'v': NOTHING, 'x': [], 'cx': [], 'cw': '', 'nm': [], 'w': 0, 'h': ''}
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                r = self.run(op)
            except Timeout:
                raise
            except Exception as e:
                ev['o'] = 'err'
                ev['x'] = [b.__name__ for b in type(e).__mro__]
                c = e.__cause__
                if c is not None:
                    ev['cx'] = [b.__name__ for b in type(c).__mro__]
                    ev['cw'] = wrap_of(type(c))
                ev['nm'] = sorted(n for n in NAMES if re.search(rf'(?<![\w]){n}(?![\w])', str(e)))
                r = None
        ev['w'] = len([w for w in ws if not issubclass(w.category, (DeprecationWarning, SyntaxWarning))]) + HANDLER.n
        if ev['o'] == 'ok':
            out = op.get('out', '')
            if out:
                self.slots[out] = r
            if op['op'] not in ('def', 'hash', 'set', 'del', 'mut', 'qdef', 'qmerge', 'fields', 'tok', 'str') \
                    and not op.get('save'):
                ev['v'] = self.enc(r)
            ev['nm'] = self.nm
            ev['h'] = self.h
        calls = self.calls
        ev['calls'] = calls
        ev['infos'] = self.infos(op)
        ev['S'] = {s: self.enc(v) for s, v in self.slots.items()}
        ev['D'] = self.defaults()
        ev['m0'] = m0
        return ev


def wrap_of(t):
    try:
        t('msg')
        return t.__name__
    except TypeError:
        return 'ValueError'


def field_names(c):
    return list(c._fields)


ATOMS = {}
ATOMS_BY_KIND = set()


def load_atoms():
    facts = json.load(open(os.path.join(HERE, '..', 'spec', 'facts.json')))
    for s, a in facts['atoms'].items():
        v = a['v']
        k = v['k']
        ATOMS_BY_KIND.add(k)
    for v in U.base_atoms():
        ATOMS[U.enc_atom(v)['s']] = v
    for s, a in facts['atoms'].items():
        if s in ATOMS:
            continue
        k = a['v']['k']
        t = s.split(':', 1)[1] if ':' in s else s
        if k == 'int':
            ATOMS[s] = int(t)
        elif k == 'float':
            ATOMS[s] = float(t)
        elif k == 'str':
            ATOMS[s] = t
        elif k == 'MyStr':
            ATOMS[s] = U.MyStr(t)
        elif k == 'MyInt':
            ATOMS[s] = U.MyInt(t)
        elif k == 'complex':
            ATOMS[s] = complex(t)
        elif k == 'Fraction':
            ATOMS[s] = U.Fraction(t)
        elif k == 'bytes':
            ATOMS[s] = t.encode().decode('unicode_escape').encode('latin1')
        elif k == 'range':
            ATOMS[s] = eval(s)


import pickle as U_PICKLE  # noqa: E402


def on_alarm(*_):
    raise Timeout()


def run_case(case):
    sc = Scenario(case)
    ev = []
    ops = []
    for op in case['ops']:
        if not sc.applies(op):
            continue
        ops.append(op)
        signal.setitimer(signal.ITIMER_VIRTUAL, 10)
        try:
            e = sc.step(op)
        except Timeout:
            e = {'o': 'err', 'v': NOTHING, 'x': ['Timeout'], 'cx': [], 'cw': '', 'nm': [], 'w': 0, 'h': '', 'calls': [],
                 'infos': [], 'S': {s: NOTHING for s in sc.slots}, 'D': [], 'm0': sc.m}
            ev.append(e)
            break
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        ev.append(e)
    return {'id': case['id'], 'ops': ops, 'ev': ev}


def helper():
    for line in sys.stdin:
        msg = json.loads(line)
        try:
            sc = Scenario({'ops': []})
            for d in msg['defs']:
                sc.define(d)
            b = base64.b64decode(msg['p'])
            r = U_PICKLE.loads(b)
            again = type(r).from_mapping(r.to_dict())
            h = sc.equal(r, again)
            ans = {'h': 'in another process: ' + h if h else '', 'p': base64.b64encode(r.to_pickle()).decode()}
        except Exception as e:
            ans = {'err': repr(e)}
        sys.stdout.write(json.dumps(ans) + '\n')
        sys.stdout.flush()


def main():
    load_atoms()
    signal.signal(signal.SIGVTALRM, on_alarm)
    if sys.argv[1] == '--helper':
        return helper()
    cases = json.load(open(sys.argv[1]))
    out = [run_case(c) for c in cases]
    Helper.close()
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f, separators=(',', ':'))


if __name__ == '__main__':
    main()
