"""Seeded scenario generators: programs that use the library, in the vocabulary of the specification.

A scenario only says what is done; what must happen is decided by the specification (spec/TraceCheck.tla).
"""
import copy
import json
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
FACTS = json.load(open(os.path.join(HERE, '..', 'spec', 'facts.json')))
ATOMS = FACTS['atoms']
FIELDS = ['xa', 'yb', 'zc', 'wd', 've']
EXTRA = ['q', 'Xa', 'aa']
# names that mean something on every record class, none of them fields
RESERVED = ['parse', 'to_dict', 'from_mapping', '_fields', 'post_new', 'is_frozen', '_hash', '__class__', '_u']

INTS = ['int:%d' % i for i in (0, 1, 2, 3, 5, -1, 7, 10)]
MORE_INTS = ['int:%d' % i for i in (-3, 4, 6, 9, 12, 255, 256, 300)]
BOOLS = ['bool:True', 'bool:False']
FLOATS = ['float:0.0', 'float:0.5', 'float:1.0', 'float:2.5', 'float:-1.5', 'float:3.0']
STRS = ['str:', 'str:a', 'str:b', 'str:ab', 'str:A', 'str:1', 'str:12', 'str:2.5', 'str: a ', 'str:True', 'str:abc', "str:'12'"]
BYTES = ['bytes:', 'bytes:ab', 'bytes:1']
OBJS = ['C0:o1', 'C1:o2', 'C1:o3', 'C2:o4', 'D0:o5', 'E1:o6', 'AbsImpl:o7']
TYPES = ['type:int', 'type:bool', 'type:str', 'type:object', 'type:C0', 'type:C1', 'type:E1', 'type:ValueError', 'type:NoneType']
MISC = ['None', 'Ellipsis', 'fn:len', 'fn:f_user', 'range(0, 3)', 'range(0, 0)']
NUMS2 = ['MyInt:2', 'MyInt:5', 'complex:(1+0j)', 'complex:(1+1j)', 'Fraction:1/2', 'Fraction:2', 'Fraction:3']
MYSTR = ['MyStr:a', 'MyStr:1']
ALL_ATOMS = [a for a in INTS + MORE_INTS + BOOLS + FLOATS + STRS + BYTES + OBJS + TYPES + MISC + NUMS2 + MYSTR if a in ATOMS]
MISSING = [a for a in INTS + MORE_INTS + BOOLS + FLOATS + STRS + BYTES + OBJS + TYPES + MISC + NUMS2 + MYSTR if a not in ATOMS]
assert not MISSING, MISSING

CONCRETE = ['int', 'bool', 'float', 'str', 'bytes', 'C0', 'C1', 'D0', 'E1', 'MyInt', 'MyStr', 'list', 'tuple', 'dict', 'set',
            'frozenset', 'complex', 'Fraction', 'NT2', 'object', 'range', 'deque', 'type']
ABSTRACT = ['Number', 'Real', 'Integral', 'Rational', 'Complex', 'Abs', 'Sequence', 'Mapping', 'Set', 'Iterable', 'Hashable',
            'Collection', 'MutableSequence', 'MutableMapping', 'Container']
ITERS = ['list', 'set', 'frozenset', 'deque', 'Sequence', 'MutableSequence', 'Set', 'MutableSet']
MAPS = ['dict', 'defaultdict', 'Mapping', 'MutableMapping']
GENS = ['Iterable', 'Collection', 'Container', 'Reversible', 'Iterator']
IMPL = {'list': ['list', 'MyList'], 'set': ['set'], 'frozenset': ['frozenset'], 'deque': ['deque'],
        'Sequence': ['list', 'tuple', 'deque', 'MyList', 'MyTuple', 'NT2'], 'MutableSequence': ['list', 'MyList', 'deque'],
        'Set': ['set', 'frozenset'], 'MutableSet': ['set'], 'dict': ['dict', 'MyDict', 'OrderedDict', 'defaultdict', 'Counter'],
        'defaultdict': ['defaultdict'], 'Mapping': ['dict', 'MyDict', 'OrderedDict', 'defaultdict', 'Counter'],
        'MutableMapping': ['dict', 'MyDict', 'defaultdict'], 'tuple': ['tuple', 'MyTuple', 'NT2'],
        'Iterable': ['list', 'tuple', 'set', 'dict', 'deque'], 'Collection': ['list', 'tuple', 'set', 'dict'],
        'Container': ['list', 'tuple', 'set', 'dict'], 'Reversible': ['list', 'tuple', 'dict', 'deque'], 'Iterator': [], 'Generator': [], 'AsyncGenerator': [],
        'AsyncIterator': [], 'AsyncIterable': []}

EXACT = {'int': INTS, 'bool': BOOLS, 'float': FLOATS, 'str': STRS, 'bytes': BYTES, 'MyInt': ['MyInt:2', 'MyInt:5'],
         'MyStr': MYSTR, 'C0': ['C0:o1'], 'C1': ['C1:o2', 'C1:o3'], 'C2': ['C2:o4'], 'D0': ['D0:o5'], 'E1': ['E1:o6'],
         'complex': ['complex:(1+0j)', 'complex:(1+1j)'], 'Fraction': ['Fraction:1/2', 'Fraction:2'],
         'range': ['range(0, 3)', 'range(0, 0)'], 'type': TYPES, 'NoneType': ['None'], 'ellipsis': ['Ellipsis'],
         'Abs': [], 'AbsImpl': ['AbsImpl:o7']}
INST = {}
for _c in FACTS['classes']:
    INST[_c] = [a for a in ALL_ATOMS if _c in FACTS['kinds'].get(ATOMS[a]['v']['k'], ())]
CONT_KINDS = ['list', 'MyList', 'tuple', 'MyTuple', 'NT2', 'set', 'frozenset', 'dict', 'MyDict', 'OrderedDict', 'defaultdict',
              'deque', 'Counter']


def V(k, s='', n=0, e=(), i=0):
    return {'k': k, 's': s, 'n': n, 'e': list(e), 'i': i}


NONE = V('NoneType', 'None')


def atom(s):
    return copy.deepcopy(ATOMS[s]['v'])


def sv(s):
    return V('str', 'str:' + s)


def ref(slot):
    return V('ref', slot)


def pair(a, b):
    return V('pair', '', 0, [a, b])


def T(t, c='', a=(), l=(), m=()):
    return {'t': t, 'c': c, 'a': list(a), 'l': list(l), 'm': list(m)}


def tok(t, f, g='', a=(), cs=(), vs=(), fl=(True, False), x='', w='no', p='', lo=False):
    return {'t': t, 'f': f, 'g': g, 'a': list(a), 'cs': list(cs), 'vs': list(vs), 'fl': list(fl), 'x': x, 'w': w, 'p': p,
            'pf': '', 'lo': lo}


def style(s):
    return tok('style', s)


OPTS0 = {'incl': '-', 'sort': '-', 'bl': {'g': False, 't': []}, 'wl': {'g': False, 't': []}, 'form': 0}
POST0 = {'k': 'inherit', 'f': '', 'v': NONE, 'cf': '', 'cv': NONE}
SEL0 = {'rm': [], 'mrm': [], 'rn': [], 'mrn': [], 'ad': [], 'mad': [], 'form': 0}


def fdesc(n, t, d='none', dv=None, final=False):
    return {'n': n, 'T': t, 'd': d, 'dv': dv or NONE, 'final': final}


def cdesc(name, own, bases=(), mix=False, frozen=False, ordered=False, unary='none', style='hollow', pre=(), post=None,
          parsers=(), truth=True, preset=None, share=False):
    d = {'name': name, 'bases': list(bases), 'mix': mix, 'frozen': frozen, 'ordered': ordered, 'unary': unary, 'style': style,
         'own': list(own), 'pre': list(pre), 'preset': bool(pre) if preset is None else preset, 'post': post or dict(POST0),
         'parsers': list(parsers), 'truth': truth}
    if share:       # one token object wherever the token occurs
        d['share'] = True
    for f in d['own']:
        group(f['T'], name + '.' + f['n'], False)
    for p in d['pre']:
        group_tok(p['tok'], name + '.' + p['f'], p['key'] >= 0)
    return d


def group_tok(t, pf, lo):
    if t['f'] in ('call', 'acall'):
        t['pf'] = pf
        if t['f'] == 'call':
            t['lo'] = lo
        else:
            t['lo'] = lo
    for x in t['a']:
        group_tok(x, pf, lo)


def group(t, pf, lo):
    """the field a token belongs to; element positions are filled any number of times"""
    for x in t['m']:
        group_tok(x, pf, lo)
    for x in t['a']:
        group(x, pf, lo or t['t'] in ('tuple', 'vtuple', 'iter', 'map'))


def key_of(v):
    """equal keys iff equal values (for hashables in the universe)"""
    if v['s'] in ATOMS and v['k'] == ATOMS[v['s']]['v']['k']:
        return ATOMS[v['s']]['q']
    fam = FACTS['fam'].get(v['k'])
    if fam == 'tuple':
        return 'tuple', tuple(key_of(x) for x in v['e'])
    return fam or v['k'], v['s'], tuple(key_of(x) for x in v['e']), v['i'] if not v['e'] else 0


def hashable(v):
    if v['s'] in ATOMS and v['k'] == ATOMS[v['s']]['v']['k']:
        return ATOMS[v['s']]['hash']
    if v['k'] == 'ref':
        return False
    if FACTS['fam'].get(v['k']) == 'tuple':
        return all(hashable(x) for x in v['e'])
    return v['k'] == 'frozenset'


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.ops = []
        self.lab = 1
        self.pid = 0
        self.vars = 0
        self.classes = {}
        self.slots = {}   # slot -> class name of the record in it, '' if something else

    # ------------------------------------------------------------ basics
    def ch(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def label(self):
        self.lab += 1
        return self.lab

    def call_id(self):
        self.pid += 1
        return 'p%d' % self.pid

    def slot(self):
        self.vars += 1
        return 's%d' % self.vars

    def op(self, **kw):
        self.ops.append(kw)
        return kw

    # ------------------------------------------------------------ values
    def atom(self, pool=None):
        return atom(self.ch(pool or ALL_ATOMS))

    def container(self, k, es, fresh=False):
        """k a concrete class; es the elements (pairs for mappings)"""
        fam = FACTS['fam'][k]
        if fam in ('set', 'dict'):
            seen, ks = [], set()
            for x in es:
                y = x['e'][0] if fam == 'dict' else x
                if not hashable(y) or key_of(y) in ks:
                    continue
                ks.add(key_of(y))
                seen.append(x)
            es = seen
        if k == 'Counter':
            es = [pair(x['e'][0], x['e'][1] if x['e'][1]['k'] == 'int' else atom('int:2')) for x in es]
        if k == 'NT1':
            es = (es + [atom('int:1')])[:1]
        if k == 'NT2':
            es = (es + [atom('int:1'), atom('int:2')])[:2]
        s = ''
        if k == 'deque':
            s = self.ch(['None', 'None', '3', '5'])
            if s != 'None':
                es = es[:int(s)]
        if k == 'defaultdict':
            s = self.ch(['int', 'list', 'None'])
        i = -1 if fresh else self.label()
        if not es and k in ('tuple', 'frozenset'):
            i = 0
        return V(k, s, 0, es, i)

    def any_container(self, depth=1):
        k = self.ch(CONT_KINDS)
        return self.container(k, self.elements(k, depth))

    def elements(self, k, depth, el=None):
        n = self.ch([0, 1, 1, 2, 2, 3])
        el = el or (lambda: self.value(depth - 1))
        if FACTS['fam'][k] == 'dict':
            return [pair(self.atom(STRS + INTS), el()) for _ in range(n)]
        return [el() for _ in range(n)]

    def value(self, depth=1, extra=()):
        x = self.r.random()
        if extra and x < .15:
            return self.ch(extra)
        if depth > 0 and x > .75:
            return self.any_container(depth)
        return self.atom()

    def matching(self, t, depth=2):
        """a value that is likely to be accepted by the annotation"""
        k, c = t['t'], t['c']
        if k in ('cls', 'bare'):
            if c in self.classes:
                ss = [s for s, x in self.slots.items() if x == c or (x and c in self.anc(x))]
                return ref(self.ch(ss)) if ss else self.value(1)
            if c in IMPL and IMPL[c] and c not in EXACT:
                kk = self.ch(IMPL[c])
                return self.container(kk, self.elements(kk, 0))
            if c in FACTS['fam'] and c != 'VT':
                return self.container(c, self.elements(c, 0))
            if c in EXACT and EXACT[c] and self.p(.7):
                return self.atom(EXACT[c])
            if INST.get(c):
                return self.atom(INST[c])
            return self.value(1)
        if k == 'any':
            return self.value(1)
        if k == 'none':
            return atom('None')
        if k == 'ell':
            return atom('Ellipsis')
        if k == 'newtype':
            return self.matching(t['a'][0], depth)
        if k == 'callable':
            return self.atom(['fn:len', 'fn:f_user', 'C2:o4', 'type:int', 'type:C0'])
        if k == 'lit':
            return copy.deepcopy(self.ch(t['l']))
        if k == 'type':
            pool = [x for x in TYPES if not c or c in FACTS['types'][x]]
            return self.atom(pool or TYPES)
        if k == 'union':
            return self.matching(self.ch(t['a']), depth)
        if k == 'tuple':
            es = [self.near(x, depth - 1) for x in t['a']]
            if self.p(.1):
                es = es[:-1] if es and self.p(.5) else es + [self.atom()]
            kk = self.ch(['tuple', 'tuple', 'MyTuple']) if len(es) != 2 else self.ch(['tuple', 'tuple', 'MyTuple', 'NT2'])
            return self.container(kk, es)
        if k == 'vtuple':
            kk = self.ch(['tuple', 'tuple', 'MyTuple', 'NT2'])
            es = self.elements(kk, 0, lambda: self.near(t['a'][0], depth - 1))
            if kk == 'NT2':
                es = [self.near(t['a'][0], depth - 1) for _ in range(2)]
            return self.container(kk, es)
        if k in ('iter', 'gen') and IMPL[c]:
            kk = self.ch(IMPL[c])
            n = self.ch([0, 1, 2, 2, 3, 4])
            if FACTS['fam'][kk] == 'dict':
                return self.container(kk, [pair(self.atom(STRS), self.atom()) for _ in range(n)])
            return self.container(kk, [self.near(t['a'][0], depth - 1) for _ in range(2 if kk == 'NT2' else n)])
        if k == 'map':
            kk = self.ch(IMPL[c])
            return self.container(kk, [pair(self.near(t['a'][0], depth - 1), self.near(t['a'][1], depth - 1))
                                       for _ in range(self.ch([0, 1, 2, 2, 3]))])
        return self.value(1)

    def near(self, t, depth=2):
        """mostly a value the annotation (or one of its coercers) accepts"""
        x = self.r.random()
        if x < .72:
            return self.matching(t, depth)
        if x < .9:
            return self.coercible(t)
        return self.value(1)

    def coercible(self, t):
        c = t['c']
        return self.atom({'int': ['str:1', 'str:12', 'float:1.0', 'float:2.5', 'bool:True', 'bytes:1', 'str:a'],
                          'str': ['int:1', 'float:2.5', 'MyStr:a', 'None'],
                          'float': ['int:1', 'str:2.5', 'str:1', 'bool:True'],
                          'bool': ['int:0', 'int:1', 'str:', 'int:2', 'float:1.0']}.get(c, ALL_ATOMS))

    def anc(self, c):
        d = self.classes[c]
        r = [c]
        for b in d['bases']:
            r += self.anc(b)
        return r

    # ------------------------------------------------------------ annotations
    def simple(self, pool=None):
        c = self.ch(pool or (['int', 'str', 'float', 'bool', 'int', 'str'] * 2 + CONCRETE + ABSTRACT))
        return T('cls', c)

    def literal(self):
        pool = ['int:0', 'int:1', 'int:2', 'int:5', 'str:a', 'str:b', 'str:', 'bool:True', 'bool:False', 'None', 'bytes:ab', 'str:1']
        vs, seen = [], set()
        for s in self.r.sample(pool, self.ch([1, 1, 2, 2, 3, 4])):
            if s not in seen:
                vs.append(atom(s))
                seen.add(s)
        return T('lit', l=vs)

    def special(self):
        x = self.ch(['none', 'ell', 'any', 'bare', 'newtype', 'callable', 'lit', 'lit', 'type', 'type', 'obj'])
        if x in ('none', 'ell', 'any'):
            return T(x)
        if x == 'obj':
            return T('cls', 'object')
        if x == 'bare':
            return T('bare', self.ch(['list', 'dict', 'set', 'tuple', 'Sequence', 'Mapping', 'frozenset', 'deque', 'Iterable']),
                     [T('any')] if self.p(.5) else [])
        if x == 'newtype':
            return T('newtype', '', [self.ch([self.simple(), T('lit', l=[atom('int:1'), atom('str:a')]), T('none'),
                                              T('iter', 'list', [T('cls', 'int')])])])
        if x == 'callable':
            return T('callable', self.ch(['', 'plain', 'args']))
        if x == 'type':
            return T('type', self.ch(['', 'int', 'C0', 'Exception', 'object', 'str', 'Number', 'Sequence']))
        return self.literal()

    def ctype(self, depth, sub):
        """a container annotation; sub makes the element annotations"""
        x = self.ch(['iter', 'iter', 'iter', 'map', 'map', 'tuple', 'vtuple'])
        if x == 'iter':
            return T('iter', self.ch(ITERS), [sub(depth - 1)])
        if x == 'map':
            return T('map', self.ch(MAPS), [sub(0), sub(depth - 1)])
        if x == 'vtuple':
            return T('vtuple', '', [sub(depth - 1)])
        return T('tuple', '', [sub(depth - 1) for _ in range(self.ch([1, 2, 2, 3]))])

    def sig(self, t):
        """what typing sees of an annotation, without the identity of callbacks"""
        t = copy.deepcopy(t)

        def strip(x):
            if isinstance(x, dict):
                for k in ('p', 'pf', 'lo'):
                    if k in x and 't' in x and 'f' in x:
                        x[k] = ''
                for y in x.values():
                    strip(y)
            elif isinstance(x, list):
                for y in x:
                    strip(y)

        strip(t)
        return json.dumps(t, sort_keys=True)

    def union(self, member, n=None):
        n = n or self.ch([2, 2, 2, 3, 3, 4])
        ms, seen = [], set()
        for _ in range(20):
            if len(ms) == n:
                break
            m = member()
            if m['t'] == 'union':
                continue
            s = self.sig(m)
            if s in seen:
                continue
            seen.add(s)
            ms.append(m)
        if len(ms) < 2:
            ms = [T('cls', 'int'), T('cls', 'str')]
        return T('union', a=ms)

    def call_co(self, pool=None):
        return tok('co', 'call', self.ch(pool or ['to_int', 'to_str', 'c_int5', 'c_true', 'c_myint', 'c_float', 'c_strA',
                                                  'c_none', 'c_o3', 'c_E1', 'c_mystr', 'raise_type', 'raise_value',
                                                  'raise_key', 'raise_lookup', 'ident', 'c_bytes', 'upper', 'raise_picky']),
                   p=self.call_id())

    def call_va(self, pool=None):
        return tok('va', 'call', self.ch(pool or ['ident', 'inc', 'dbl', 'neg', 'upper', 'strip', 'bang', 'c_int5', 'c_strA',
                                                  'raise_value', 'raise_key', 'c_none', 'raise_type', 'ident', 'ident']),
                   p=self.call_id())

    def errcfg(self):
        x = self.ch(['', '', '', 'KeyError', 'TypeError', 'OddError', 'ValueError', 'PickyError', 'ZeroDivisionError'])
        w = self.ch(['no', 'no', 'no', 'warn', 'log'])
        return {'x': x, 'w': w}

    def assert_va(self, pool=None):
        return tok('va', 'acall', self.ch(pool or ['is_pos', 'is_small', 'truthy', 'always', 'never', 'falsy0', 'is_str',
                                                   'raise_value', 'is_pos', 'is_small', 'raise_zero']),
                   p=self.call_id(), **self.errcfg())

    def bound_pair(self, kind=None):
        kind = kind or self.ch(['int', 'int', 'float', 'str', 'mix'])
        pool = {'int': INTS, 'float': FLOATS, 'str': ['str:a', 'str:b', 'str:ab', 'str:A', 'str:abc', 'str:1'],
                'mix': INTS + FLOATS + BOOLS}[kind]
        a, b = self.atom(pool), self.atom(pool)
        ra, rb = ATOMS[a['s']]['rank'], ATOMS[b['s']]['rank']
        if ra > rb and self.p(.93):
            a, b = b, a
        return ([a] if self.p(.8) else []), ([b] if self.p(.8) else [])

    def builtin_va(self, kind=None):
        f = self.ch(['within', 'within', 'within', 'clamp', 'clamp', 'cyclic', 'match', 'truth'])
        if f in ('within', 'clamp'):
            lo, hi = self.bound_pair(kind)
            t = tok('va', f, vs=[lo, hi], fl=(self.p(.5), self.p(.5)))
        elif f == 'cyclic':
            a, b = self.r.sample(self.ch([INTS, INTS, FLOATS, FLOATS[1:] + INTS]), 2)
            if ATOMS[a]['v']['n'] > ATOMS[b]['v']['n']:
                a, b = b, a
            if ATOMS[a]['v']['n'] == ATOMS[b]['v']['n']:
                a, b = 'int:0', 'int:5'
            t = tok('va', f, vs=[[atom(a)], [atom(b)]])
        elif f == 'match':
            t = tok('va', f, self.ch(['p_az', 'p_dig', 'p_a', 'p_opt', 'p_alt']), lo=self.p(.5))
        else:
            t = tok('va', f, lo=self.p(.5))
        if f in ('within', 'match', 'truth'):
            t.update(self.errcfg())
        return t

    def builtin_co(self, c):
        f = self.ch(['loose', 'loose', 'loose', 'unpack', 'unpackmap', 'eval', 'literal', 'whole', 'tobytes', 'frombool',
                     'falsish', 'map', 'cm', 'compose'])
        lo = self.p(.5)
        if f == 'loose':
            g = ''
            if c in ('int', 'MyInt') and self.p(.2):
                g = '/16'
            if c in ('str', 'bytes') and self.p(.2):
                g = '/ascii'
            cs = self.r.sample(['str', 'int', 'bytes', 'float', 'list', 'Sequence', 'Number', 'object', 'bool', 'C1'],
                               self.ch([1, 1, 2])) if self.p(.35) else []
            return tok('co', f, g, cs=cs, lo=lo)
        if f == 'unpack':
            cs = self.ch([[], [], ['int', '...'], ['str', '...'], ['int', 'int'], ['int', 'str'], ['object'], ['str'],
                          ['Number', '...'], ['int', 'int', 'int']])
            return tok('co', f, cs=cs, lo=lo)
        if f == 'unpackmap':
            cs = self.ch([[], [], [['a', 'int']], [['a', 'object'], ['b', 'int']], [['xa', 'int']], [['xa', 'object'], ['yb', 'object']]])
            return tok('co', f, cs=cs, lo=lo)
        if f == 'eval':
            return tok('co', f, self.ch(['plain', 'intfloat', 'bound']), lo=lo)
        if f == 'tobytes':
            return tok('co', f, self.ch(['auto', 'len1', 'len2', 'signed']), lo=lo)
        if f == 'map':
            ks = self.r.sample(['int:0', 'int:1', 'int:2', 'str:a', 'str:b', 'str:1', 'None', 'float:0.5', 'bool:True'], 4)
            if 'bool:True' in ks and 'int:1' in ks:
                ks.remove('bool:True')
            vs = [[atom(k), self.matching(T('cls', c), 1) if self.p(.6) else self.atom()] for k in ks[:2]]
            fs = [[atom(k), self.ch([atom(self.ch(EXACT.get(c) or ALL_ATOMS)), V('raise', self.ch(['KeyError', 'TypeError', 'OddError'])),
                                     V('list', '', 0, [atom('int:1')], -1)])]
                  for k in (ks[1:] if self.p(.5) else ks[2:])]
            return tok('co', f, vs=[vs, fs])
        if f == 'cm':
            return tok('co', f, {'int': 'from_bytes', 'MyInt': 'from_bytes', 'float': 'fromhex', 'C1': 'make', 'E1': 'make'}.get(c, 'make'))
        if f == 'compose':
            return tok('co', f, a=[self.ch([self.call_co(), self.builtin_co(c) if self.p(.4) else tok('co', 'loose')])
                                   for _ in range(self.ch([1, 2, 2, 3]))])
        return tok('co', f, lo=lo)

    def styles(self, p=.6):
        r = [style(self.ch(['hollow', 'check', 'check', 'strict']))] if self.p(p) else []
        if r and self.p(.12):
            r.append(style(self.ch(['hollow', 'hollow', 'check', 'strict'])))   # the last one counts
        return r

    def twice(self, m, p=.08):
        """sometimes one of the tokens is listed twice"""
        if m and self.p(p):
            t = copy.deepcopy(self.ch(m))
            if t['t'] != 'style':
                m.insert(self.r.randrange(len(m) + 1), t)
        return m

    # ------------------------------------------------------------ classes
    def define(self, d):
        self.classes[d['name']] = d
        self.op(op='def', d=d)
        return d

    def all_fields(self, c):
        d = self.classes[c]
        r = []
        for b in d['bases']:
            if not self.classes[b]['mix']:
                r += self.all_fields(b)
        return r + [f for f in d['own'] if f['T']['t'] not in ('classvar', 'plain')]

    def default(self, f, t, p_def=.4):
        x = self.r.random()
        if x < p_def * .6:
            f['d'] = 'val'
            f['dv'] = self.matching(t, 1) if self.p(.7) else self.value(1)
            if f['dv']['k'] == 'ref':
                f['dv'] = self.atom()
        elif x < p_def:
            f['d'] = 'fac'
            f['dv'] = self.container(self.ch(['list', 'dict', 'set']), [], True) if self.p(.5) else \
                self.atom() if self.p(.8) else V('raise', self.ch(['KeyError', 'ValueError', 'OddError']))
        return f

    def new(self, c, kw, pos=(), out=None):
        out = self.slot() if out is None else out
        self.op(op='new', c=c, pos=list(pos), kw=[[n, v] for n, v in kw], out=out)
        if out:
            self.slots[out] = c
        return out

    def kwargs(self, c, p_omit=.5, p_bad=.0, p_miss=.03, near=None):
        kw = []
        for f in self.all_fields(c):
            if f['d'] != 'none' and self.p(p_omit):
                continue
            if f['d'] == 'none' and self.p(p_miss):
                continue
            if self.p(.12) and f['d'] == 'val' and f['dv']['k'] != 'ref':
                v = copy.deepcopy(f['dv'])
            else:
                v = self.value(1) if self.p(p_bad) else (near or self.near)(f['T'])
            kw.append([f['n'], v])
        self.r.shuffle(kw)
        return kw
