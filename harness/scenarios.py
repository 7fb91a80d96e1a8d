"""One generator of random scenarios per property."""
import copy
import json
import random

from gen import *  # noqa: F401,F403
from gen import Gen, T, V, atom, cdesc, fdesc, pair, ref, style, sv, tok, ATOMS, ALL_ATOMS, INTS, STRS, FLOATS, BOOLS, FIELDS, \
    OPTS0, POST0, SEL0, NONE, EXACT, MAPS, ITERS, GENS, TYPES, OBJS, BYTES, CONCRETE, ABSTRACT, MISC, IMPL, RESERVED, hashable


def light_type(g, checked=.5):
    """an annotation with little processing"""
    t = g.ch([T('cls', 'int'), T('cls', 'str'), T('any'), T('cls', 'int'), T('cls', 'float'), T('bare', 'list'), T('cls', 'C0'),
              T('iter', 'list', [T('cls', 'int')]), T('lit', l=[atom('int:1'), atom('str:a')]), T('cls', 'bool')])
    t = copy.deepcopy(t)
    if g.p(checked):
        t['m'].append(style(g.ch(['check', 'check', 'strict'])))
        if t['t'] == 'cls' and t['c'] in ('int', 'str', 'float', 'bool') and g.p(.35):
            t['m'].append(g.ch([tok('co', 'loose'), g.call_co()]))
    if g.p(.15) and t['t'] == 'cls' and t['c'] in ('int', 'float'):
        t['m'].append(g.builtin_va('mix') if g.p(.5) else g.assert_va())
    return t


def settings(g):
    return {'frozen': g.p(.4), 'ordered': g.p(.3), 'style': g.ch(['hollow', 'hollow', 'check', 'strict'])}


def cls(g, name, n=None, bases=(), names=None, field=light_type, p_def=.5, **kw):
    taken = {f['n'] for b in bases if not g.classes[b]['mix'] for f in g.all_fields(b)}
    names = [x for x in (names or FIELDS) if x not in taken]
    n = n if n is not None else g.ch([1, 2, 2, 3, 3, 4])
    own = []
    for f in names[:n]:
        t = field(g)
        own.append(g.default(fdesc(f, t), t, p_def))
    s = settings(g)
    s.update(kw)
    d = cdesc(name, own, bases, **s)
    if s['style'] != 'hollow':
        legal(g, d)
    return d


def legal(g, d):
    """avoid the annotations that a checking class refuses"""
    return d


def rand_kw(g, c, p_extra=.1, **k):
    kw = g.kwargs(c, **k)
    if g.p(p_extra):
        kw.insert(g.r.randrange(len(kw) + 1), [g.ch(['q', 'aa', 'xa', 'yb'] if g.p(.5) else RESERVED), g.value(1)])
        seen, r = set(), []
        for n, v in kw:
            if n not in seen:
                r.append([n, v])
                seen.add(n)
        kw = r
    return kw


def s01(g):
    k = g.ch([0, 0, 0, 1])
    g.define(cls(g, 'A', p_def=.6))
    c = 'A'
    if k:
        g.define(cls(g, 'B', n=g.ch([1, 2]), bases=['A'], p_def=.6))
        c = 'B'
    for _ in range(g.ch([3, 4, 5])):
        g.new(c, rand_kw(g, c, .15, p_bad=.05, p_miss=.06))
    if g.p(.3):
        s = g.ch(sorted(g.slots))
        g.op(op='str', v=ref(s))


def parser_pool(g, names, vals):
    ps = []
    for n in names:
        k = g.ch(['fn', 'fn', 'newf', 'when', 'when', 'when'])
        p = {'n': n, 'marked': g.p(.85), 'k': k, 'g': '', 'v1': NONE, 'v2': NONE}
        if k == 'fn':
            p['g'] = g.ch(['to_int', 'upper', 'c_int5', 'raise_type', 'raise_value', 'raise_key', 'ident', 'c_o3', 'raise_lookup', 'inc',
                           'raise_type', 'raise_picky', 'raise_value'])
        elif k == 'newf':
            p['g'] = g.ch(FIELDS[:3])
        else:
            p['v1'] = copy.deepcopy(g.ch(vals))
            p['v2'] = g.ch([atom('int:0'), atom('int:7'), atom('str:'), atom('bool:False'), atom('C1:o2')])
        ps.append(p)
    return ps


JSONS = [a for a in ATOMS if a.startswith('str:{') or a in ('str:[1]', 'str:null')]


def sources(g, c):
    """things that the built-in parsers may take"""
    names = [f['n'] for f in g.all_fields(c)]
    r = []
    kw = g.kwargs(c, p_omit=.5, p_miss=.1)
    if g.p(.15):
        kw.append([g.ch(['q', 'aa']), g.atom()])
    x = g.ch(['map', 'map', 'ns', 'json', 'ref', 'atom', 'cont', 'odd'])
    if x == 'map':
        return g.container(g.ch(['dict', 'dict', 'OrderedDict', 'MyDict', 'defaultdict']), [pair(sv(n), v) for n, v in kw])
    if x == 'ns':
        return V('ns', '', 0, [V('attr', n, 0, [v]) for n, v in sorted(kw, key=lambda z: z[0])], g.label())
    if x == 'json':
        return g.atom(JSONS)
    if x == 'ref' and g.slots:
        return ref(g.ch(sorted(g.slots)))
    if x == 'cont':
        return g.any_container(1)
    if x == 'odd':
        return g.ch([g.container('list', []), g.container('tuple', []), atom('str:'), atom('range(0, 0)'), g.container('dict', []),
                     V('ns', '', 0, [], g.label())])
    return g.atom()


def post_of(g, names, frozen):
    k = g.ch(['inherit', 'inherit', 'noop', 'self', 'set', 'raise', 'rep', 'rep', 'look'])
    p = dict(POST0, k=k)
    if k == 'set':
        p['f'] = g.ch(names)
        p['v'] = g.atom()
    elif k == 'raise':
        p['f'] = g.ch(['ValueError', 'TypeError', 'KeyError', 'OddError', 'PickyError', 'RuntimeError'])
    elif k == 'rep':
        p['v'] = g.ch([atom('int:0'), atom('int:7'), atom('str:'), atom('bool:False'), atom('C1:o2'), atom('None'),
                       V('list', '', 0, [], -1)])
    if k in ('set', 'raise', 'rep', 'self') and g.p(.5):
        p['cf'] = g.ch(names)
        p['cv'] = g.atom(INTS + STRS)
    return p


def s02(g):
    nreq = g.ch([0, 1, 1, 1, 1, 2])
    nopt = g.ch([0, 0, 1, 1, 2])
    if nreq + nopt == 0:
        nopt = 1
    vals = [g.atom(), g.atom(), g.atom(INTS), g.container('dict', [pair(sv('xa'), g.atom(INTS))]), g.container('list', [])]
    own = []
    kinds = ['none'] * nreq + ['x'] * nopt
    if g.p(.3):
        g.r.shuffle(kinds)
    for n, k in zip(FIELDS, kinds):
        t = light_type(g)
        f = fdesc(n, t)
        if k == 'x':
            while f['d'] == 'none':
                g.default(f, t, .95)
        own.append(f)
    s = settings(g)
    names = [f['n'] for f in own]
    g.define(cdesc('A', own, unary=g.ch(['none', 'none', 'yes', 'yes', 'no']), truth=g.p(.6),
                   parsers=parser_pool(g, g.r.sample(['p_a', 'z_b', 'm_c'], g.ch([0, 0, 1, 1, 2])), vals),
                   post=post_of(g, names, s['frozen']), **s))
    if g.p(.4):
        g.new('A', g.kwargs('A'))
    for _ in range(g.ch([3, 4, 5])):
        x = g.r.random()
        v = copy.deepcopy(g.ch(vals)) if x < .4 else sources(g, 'A') if x < .7 else g.near(own[0]['T'])
        kw = []
        if g.p(.2):
            kw = rand_kw(g, 'A', .1)
            kw = kw[:g.ch([1, 1, 2])]
        g.new('A', kw, [v])


def s03(g):
    vals = [g.atom(), g.atom(INTS), g.container('dict', [pair(sv('xa'), g.atom(INTS))]), g.atom(STRS),
            g.container('list', []), g.atom(JSONS)]
    names = g.r.sample(['p_a', 'z_b', 'm_c', 'k_d'], g.ch([0, 1, 1, 2, 2, 3]))
    if g.p(.15):
        names.append(g.ch(['from_json', 'from_mapping', 'from_instance']))
    bases = []
    if g.p(.3):
        g.define(cdesc('M1', [], mix=True, parsers=parser_pool(g, g.r.sample(['p_a', 'm_c', 'b_e'], g.ch([1, 2])), vals)))
        bases.append('M1')
    d = cls(g, 'A', n=g.ch([1, 1, 2, 3]), bases=bases, truth=g.p(.5), unary=g.ch(['none', 'yes', 'no']),
            parsers=parser_pool(g, names, vals))
    g.define(d)
    c = 'A'
    if g.p(.4):
        g.define(cls(g, 'B', n=g.ch([0, 1]), bases=['A'], truth=g.p(.5),
                     parsers=parser_pool(g, g.r.sample(['p_a', 'z_b', 'a_f', 'zz'], g.ch([0, 1, 2])), vals)))
        c = 'B'
    if g.p(.5):
        g.new(c, g.kwargs(c))
    for _ in range(g.ch([4, 5, 6])):
        v = copy.deepcopy(g.ch(vals)) if g.p(.5) else sources(g, c)
        g.op(op='parse', c=g.ch([c, c, 'A']), v=v, out=g.slot())


def check_type(g, depth=1, toks=None):
    """annotations of every kind with styles"""
    x = g.r.random()
    if depth > 0 and x < .25:
        t = g.ctype(depth, lambda d: check_type(g, d, toks))
    elif x < .45:
        t = g.special()
    else:
        t = g.simple()
    if t['t'] != 'newtype':
        t['m'] += g.styles(.55)
        if toks:
            toks(t)
    return t


def one_field(g, t, name='xa', n_vals=(5, 6, 7), vals=None, sty=None, also=None, **kw):
    own = [fdesc(name, t)]
    if also:
        own = [fdesc(name, t, 'val', atom('int:1')), fdesc('yb', also, 'val', atom('int:1'))]
    elif g.p(.25):
        own.append(fdesc('yb', T('any'), 'val', atom('int:1')))
    c = 'A'
    g.define(cdesc(c, own, frozen=g.p(.3), style=sty or g.ch(['hollow', 'hollow', 'check', 'check', 'strict']), unary='no', **kw))
    pool = []
    for _ in range(g.ch(n_vals)):
        v = vals(t) if vals else g.near(t)
        if pool and g.p(.15):
            v = copy.deepcopy(g.ch(pool))
        pool.append(v)
        x = g.r.random()
        other = [['yb', vals(also) if vals and g.p(.7) else copy.deepcopy(v)]] if also and x < .6 else []
        g.new(c, ([[name, v]] if not other or x < .25 else []) + other)


def s04(g):
    if g.p(.3):
        names = FIELDS[:g.ch([2, 3])]
        own = [fdesc(n, check_type(g)) for n in names]
        g.define(cdesc('A', own, style=g.ch(['hollow', 'check', 'strict']), frozen=g.p(.3)))
        for _ in range(4):
            g.new('A', g.kwargs('A', p_miss=0, near=lambda t: g.matching(t) if g.p(.85) else g.value(1)))
        return
    if g.p(.15):
        g.define(cls(g, 'B', n=1, field=lambda g_: T('any')))
        g.define(cls(g, 'C', n=1, bases=['B'], field=lambda g_: T('any'), p_def=1))
        g.new('B', [['xa', g.atom()]])
        g.new('C', [['xa', g.atom()]])
        t = g.ch([T('cls', 'B'), T('cls', 'C'), T('iter', 'list', [T('cls', 'B')])])
        t['m'] += g.styles(.7)
        own = [fdesc('zc', t)]
        g.define(cdesc('A', own, style=g.ch(['hollow', 'check', 'strict']), unary='no'))
        for s in sorted(g.slots):
            g.new('A', [['zc', ref(s) if t['t'] == 'cls' else g.container('list', [ref(s)])]])
        g.new('A', [['zc', g.value()]])
        return

    def toks(t):
        if g.p(.12) and t['t'] == 'cls':
            t['m'].append(g.call_co())

    one_field(g, check_type(g, 1, toks), vals=lambda t: g.matching(t) if g.p(.6) else g.near(t) if g.p(.6) else g.value(1))


def s05(g):
    def co(c):
        return g.ch([g.call_co(), g.call_co(), g.call_co(['c_int5', 'c_myint', 'c_true', 'c_strA', 'c_mystr', 'c_E1', 'c_o3', 'c_o1']),
                     tok('co', 'loose'), g.builtin_co(c)])

    x = g.r.random()
    t = g.simple(['int', 'str', 'float', 'bool', 'C0', 'C1', 'MyInt', 'object', 'Integral', 'Hashable']) if x < .6 else g.special()
    while t['t'] == 'newtype':
        t = g.special()
    n = g.ch([0, 1, 1, 2, 2, 3, 3, 4])
    cos = [co(t['c']) for _ in range(n)]
    if t['t'] != 'cls':
        cos = [g.call_co() for _ in range(n)]
    if t['t'] in ('cls',) and t['c'] in ('Integral', 'Hashable'):
        cos = [g.call_co() for _ in range(n)]
    split = g.ch([n, n, 0, g.r.randrange(n + 1)])
    pre = []
    late = [c for c in cos[split:]]
    for c in late:
        if c['f'] == 'call':
            pre.append({'f': 'xa', 'key': -1, 'tok': c})
    st = [style(g.ch(['check', 'check', 'check', 'strict']))]
    va = [g.call_va(['ident', 'c_int5', 'ident'])] if g.p(.3) else []
    m = st + cos[:split] + va
    g.r.shuffle(m)
    t['m'] = g.twice(m, .12)
    if g.p(.25):
        t = T(g.ch(['iter']), 'list', [t], m=[style('check')])
        pre = [dict(p, key=0) for p in pre]
    one_field(g, t, vals=lambda t: g.value(1) if g.p(.5) else g.near(t), pre=pre)


def s06(g):
    t = g.ch([g.simple(['int', 'str', 'float', 'bool', 'list', 'object', 'int', 'str']), g.simple(), g.special()])
    while t['t'] == 'newtype':
        t = g.special()

    def va():
        return g.ch([g.call_va(), g.assert_va(), g.builtin_va(), g.call_va(['ident', 'inc', 'dbl', 'strip', 'upper'])])

    n = g.ch([1, 2, 2, 3, 3, 4])
    vas = [va() for _ in range(n)]
    split = g.ch([n, n, 0, g.r.randrange(n + 1)])
    pre = [{'f': 'xa', 'key': -1, 'tok': v} for v in vas[split:] if v['f'] in ('call', 'acall')]
    m = vas[:split]
    s = g.ch(['hollow', 'check', 'check', 'strict'])
    st = [style(s)] if s != 'hollow' or g.p(.5) else []
    cos = []
    if s != 'hollow' and t['t'] == 'cls' and g.p(.5):
        cos = [g.ch([g.call_co(['to_int', 'to_str', 'c_int5', 'raise_value']), g.call_co()])]
    for x in st + cos:
        m.insert(g.r.randrange(len(m) + 1), x)
    t['m'] = g.twice(m)
    if g.p(.25):
        t = T(g.ch(['iter', 'vtuple']), 'list', [t], m=[style('check')])
        if t['t'] == 'vtuple':
            t['c'] = ''
        pre = [dict(p, key=g.ch([0, 0, -1])) for p in pre]
    own = [fdesc('xa', t)]
    if g.p(.4):
        g.default(own[0], t, 1)
        while own[0]['d'] == 'none':
            g.default(own[0], t, 1)
    g.define(cdesc('A', own, frozen=g.p(.3), unary='no', pre=pre, style=g.ch(['hollow', 'hollow', 'hollow', 'check'])))
    for _ in range(g.ch([4, 5, 6])):
        v = g.matching(t) if g.p(.6) else g.near(t)
        g.new('A', [['xa', v]] if own[0]['d'] == 'none' or g.p(.8) else [])


def umember(g, depth=1):
    x = g.r.random()
    if x < .2:
        t = T('none')
    elif x < .3:
        t = g.literal()
    elif x < .42 and depth:
        t = g.ctype(1, lambda d: umember(g, 0))
    elif x < .5:
        t = g.special()
        while t['t'] in ('newtype', 'bare'):
            t = g.special()
    else:
        t = g.simple(['int', 'str', 'float', 'bool', 'C0', 'C1', 'E1', 'MyInt', 'Number', 'Integral', 'list', 'dict', 'object'])
    if t['t'] == 'cls' and t['c'] == 'NoneType':
        t = T('none')
    t['m'] += g.styles(.5)
    hollow = any(s['t'] == 'style' and s['f'] == 'hollow' for s in t['m'])
    if t['t'] == 'cls' and not hollow and g.p(.45):
        t['m'] += [style('check')] if not t['m'] else []
        t['m'].append(g.ch([g.call_co(['to_int', 'to_str', 'c_int5', 'c_strA', 'raise_value', 'c_true', 'c_o3']),
                            tok('co', 'loose') if t['c'] not in ('Number', 'Integral') else g.call_co()]))
    if g.p(.25):
        t['m'].append(g.ch([g.call_va(['ident', 'raise_value', 'c_int5', 'inc']), g.assert_va(), g.builtin_va('int')]))
    return t


def s07(g):
    t = g.union(lambda: umember(g))
    if g.p(.2):
        t['m'].append(g.ch([g.call_va(['ident', 'raise_value']), g.assert_va(), style('check'), g.builtin_va('int')]))
    pre = []
    if g.p(.15):
        pre = [{'f': 'xa', 'key': g.ch([-1, 0, 1]), 'tok': g.ch([g.call_va(['ident', 'inc', 'raise_value']), g.assert_va()])}]
    sty = g.ch(['hollow', 'check', 'check', 'strict'])
    own = [fdesc('xa', t)]
    g.define(cdesc('A', own, style=sty, unary='no', pre=pre))
    t2 = copy.deepcopy(t)
    perm = list(range(len(t['a'])))
    g.r.shuffle(perm)
    t2['a'] = [copy.deepcopy(t['a'][j]) for j in perm]
    pre2 = [dict(copy.deepcopy(p), key=p['key'] if p['key'] < 0 else perm.index(p['key'])) for p in pre]
    if g.p(.2):
        t2 = T('union', a=[t2, T('cls', 'C2', m=[style('check')])]) if False else t2
    g.define(cdesc('B', [fdesc('xa', t2)], style=sty, unary='no', pre=pre2))
    for _ in range(g.ch([4, 5])):
        v = g.ch([lambda: g.matching(t), lambda: g.near(t), lambda: g.value(1), lambda: g.atom(INTS + STRS + BOOLS)])()
        g.new('A', [['xa', v]])
        g.new('B', [['xa', copy.deepcopy(v)]])


def el_type(g, depth):
    x = g.r.random()
    if depth > 0 and x < .45:
        t = g.ctype(depth, lambda d: el_type(g, d))
    elif x < .55:
        t = g.union(lambda: umember(g, 0), 2)
    elif x < .62:
        t = g.literal()
    else:
        t = g.simple(['int', 'str', 'int', 'str', 'float', 'bool', 'object', 'Number', 'C0'])
    if t['t'] == 'union':
        return t
    if t['t'] in ('iter', 'map', 'tuple', 'vtuple'):
        t['m'] += [style(g.ch(['check', 'check', 'check', 'strict']))] if g.p(.5) and t['c'] not in MAPS[2:] + ITERS[4:] else \
            [style('check')] if g.p(.4) else []
        return t
    if g.p(.75):
        t['m'] += [style(g.ch(['check', 'check', 'check', 'strict']))]
        if t['c'] in ('Number',):
            t['m'] = [style('check')]
        if t['t'] == 'cls' and g.p(.7) and t['c'] not in ('Number', 'object'):
            t['m'].append(g.ch([tok('co', 'loose'), tok('co', 'loose'), g.call_co(['to_int', 'to_str', 'c_int5', 'c_strA'])]))
        elif t['t'] == 'cls' and g.p(.3):
            t['m'].append(g.call_va(['ident', 'inc', 'dbl', 'upper', 'raise_value']))
        elif g.p(.2):
            t['m'].append(g.builtin_va('mix'))
    return t


def s08(g):
    t = g.ctype(2, lambda d: el_type(g, d))
    if g.p(.6):
        t['m'].append(style('strict' if t['c'] not in MAPS[2:] + ITERS[4:] and g.p(.15) else 'check'))
    if g.p(.1):
        t['m'].append(g.ch([tok('co', 'loose') if t['c'] not in MAPS[1:] + ITERS[4:] else g.call_va(['ident']), g.call_va(['ident'])]))
    one_field(g, t, sty=g.ch(['check', 'check', 'check', 'hollow']), n_vals=(4, 5, 6),
              vals=lambda t: g.matching(t) if g.p(.85) else g.value(2))


def s09(g):
    t = g.special()
    if t['t'] != 'newtype':
        t['m'] += g.styles(.5)
        if g.p(.3):
            t['m'] = [style('check'), g.call_co()] + ([g.call_co()] if g.p(.3) else [])
        if g.p(.1):
            t['m'].append(g.call_va())
    if g.p(.15):
        t = T('iter', 'list', [t], m=[style('check')])
    if g.p(.3):
        for s in ['type:A', 'type:B']:
            pass
    one_field(g, t, n_vals=(7, 9, 11), sty=g.ch(['check', 'check', 'check', 'hollow', 'strict']),
              vals=lambda t: g.matching(t) if g.p(.4) else g.atom(['int:0', 'int:1', 'int:2', 'int:5', 'str:a', 'str:b', 'str:', 'bool:True', 'bool:False',
                                                                 'None', 'bytes:ab', 'str:1', 'float:1.0', 'MyInt:5', 'MyStr:a', 'Ellipsis', 'fn:len'])
              if g.p(.6) else g.atom(TYPES) if g.p(.4) else g.value(1))


CO_TARGETS = ['int', 'str', 'float', 'bool', 'bytes', 'list', 'tuple', 'set', 'dict', 'frozenset', 'complex', 'MyInt', 'NT2', 'NT1',
              'C1', 'E1', 'VT', 'deque', 'Fraction', 'OrderedDict', 'MyList']


def s10(g):
    c = g.ch(CO_TARGETS + ['int', 'bool', 'str', 'float'])
    m = [style(g.ch(['check', 'check', 'strict']))]
    n = g.ch([1, 1, 1, 2])
    fav = {'bool': 'frombool', 'bytes': 'tobytes', 'int': 'whole', 'float': 'cm', 'C1': 'cm', 'NT2': 'unpack', 'dict': 'unpackmap', 'VT': 'unpack',
           'list': 'literal', 'complex': 'eval', 'MyInt': 'whole', 'tuple': 'literal'}
    for _ in range(n):
        co = g.builtin_co(c)
        if g.p(.3) and c in fav:
            for _ in range(40):
                co = g.builtin_co(c)
                if co['f'] == fav[c]:
                    break
        m.append(co)
    g.twice(m, .05)
    t = T('cls', c, m=m)
    if c in ('list', 'set', 'dict', 'tuple') and g.p(.2):
        t = T('map', 'dict', [T('any'), T('any')], m=m) if c == 'dict' else T('vtuple', '', [T('any')], m=m) if c == 'tuple' else \
            T('iter', c, [T('any')], m=m)
    cs = set()
    for x in m:
        if x['f'] == 'unpackmap':
            cs |= {k for k, _ in x['cs']}

    def val(t):
        x = g.r.random()
        f = m[-1]['f']
        if f in ('unpack', 'unpackmap', 'loose') and x < .3:
            if f == 'unpackmap':
                ks = g.r.sample(['a', 'b', 'xa', 'q', 'A'], g.ch([0, 1, 1, 2]))
                if g.p(.5):
                    ks = sorted(set(['a']) | set(ks[:1]))
                return g.container(g.ch(['dict', 'dict', 'OrderedDict']), [pair(sv(k) if g.p(.95) else g.atom(INTS), g.atom()) for k in ks])
            k = g.ch(['list', 'tuple', 'deque', 'set', 'NT2'])
            return g.container(k, [g.atom(INTS + STRS[:3]) for _ in range(g.ch([0, 1, 2, 2, 3]))])
        if f in ('eval', 'literal') and x < .7:
            return g.atom([a for a in ATOMS if a.startswith('str:')])
        if f == 'cm' and x < .5:
            return g.atom(['bytes:', 'bytes:ab', 'bytes:1', 'str:ff', 'str:5', 'str:1', 'str:a', 'str:2.5'])
        if f in ('whole', 'tobytes', 'frombool') and x < .75:
            return g.atom([a for a in ATOMS if ATOMS[a]['v']['k'] in ('int', 'float', 'bool', 'MyInt', 'Fraction', 'complex')])
        if f == 'map' and x < .7:
            return g.atom(['int:0', 'int:1', 'int:2', 'str:a', 'str:b', 'str:1', 'None', 'float:0.5', 'bool:True', 'float:1.0'])
        if f == 'falsish' and x < .5:
            return g.ch([atom('None'), atom('int:0'), atom('str:'), atom('bool:False'), atom('float:0.0'), g.container('list', []),
                         g.container('dict', []), atom('bytes:')])
        return g.value(1)

    also = None
    kw = {}
    if g.p(.06):
        m = [style('check'), tok('co', 'eval', 'bound')]
        cs_ = ['int', 'float', 'C1']
        t, also = (T('cls', c_, m=copy.deepcopy(m)) for c_ in g.r.sample(cs_, 2))
        kw['share'] = True
    elif g.p(.25) and all(x['t'] == 'style' or x['f'] in ('loose', 'unpack', 'eval', 'whole', 'falsish', 'map') for x in m):
        # another field with the very same tokens
        also = T('cls', g.ch(['int', 'float', 'str', 'C1', 'list', 'complex', 'tuple']), m=copy.deepcopy(m))
    one_field(g, t, vals=val, n_vals=(7, 8, 9), also=also, **kw)


def s11(g):
    kind = g.ch(['int', 'float', 'mix', 'str', 'mix'])
    n = g.ch([1, 1, 1, 2])
    vas = [g.builtin_va(kind) for _ in range(n)]
    c = g.ch(['object', 'int', 'float', 'str']) if g.p(.3) else 'object'
    t = T('cls', c, m=([style('check')] if g.p(.3) else []) + vas)
    pool = {'int': INTS + ['int:4', 'int:6', 'int:-3', 'int:12'], 'float': FLOATS + ['float:2.0', 'float:-0.5', 'float:4.5', 'float:10.0'],
            'str': STRS + ['MyStr:a', 'str:ff', 'str:5'], 'mix': INTS + FLOATS + BOOLS + ['MyInt:2', 'float:2.0', 'float:10.0', 'MyInt:5']}

    def val(t):
        x = g.r.random()
        f = vas[0]['f']
        if f == 'match' and x < .8:
            return g.atom(pool['str'])
        if f == 'truth' and x < .6:
            return g.value(1)
        if f == 'cyclic' and x < .8:
            return g.atom(pool['mix'])
        if x < .85:
            return g.atom(pool[kind])
        return g.value(1)

    one_field(g, t, vals=val, n_vals=(8, 10, 12), sty='hollow')


# ---------------------------------------------------------------- records as data
def data_type(g, checked=.4):
    x = g.r.random()
    if x < .3:
        t = T('any')
    elif x < .75:
        t = T('cls', g.ch(['int', 'str', 'float', 'int', 'bool', 'object']))
    elif x < .87:
        t = T('iter', g.ch(['list', 'list', 'set']), [T('cls', 'int')])
    else:
        t = T('bare', g.ch(['list', 'dict', 'tuple', 'set']))
    if g.p(checked) and t['t'] == 'cls':
        t['m'].append(style('check'))
    return t


TAGS = ['t1', 't2', 't3', 'X']


def data_class(g, name, bases=(), n=None, tags=.4, p_def=.5, field=data_type, **kw):
    d = cls(g, name, n=n, bases=bases, p_def=p_def, field=field, **kw)
    d['style'] = kw.get('style', 'hollow')
    for f in d['own']:
        if g.p(tags):
            f['T']['m'] += [tok('tag', x) for x in g.r.sample(TAGS, g.ch([1, 1, 2]))]
            g.r.shuffle(f['T']['m'])
        if f['d'] == 'fac' and f['dv']['k'] == 'raise' and g.p(.8):
            f['dv'] = V('list', '', 0, [], -1)
    return d


def data_value(g, t):
    return g.matching(t, 1)


def make(g, c, **k):
    return g.new(c, g.kwargs(c, p_omit=k.pop('p_omit', .45), p_miss=0, near=lambda t: data_value(g, t)))


def names_of(g, c):
    return [f['n'] for f in g.all_fields(c)]


def opts(g, c):
    o = copy.deepcopy(OPTS0)
    o['form'] = g.r.randrange(5)
    if g.p(.45):
        o['incl'] = g.ch(['yes', 'yes', 'no'])
    if g.p(.4):
        o['sort'] = g.ch(['no', 'asc', 'desc', 'last', 'len', 'const'])
    if g.p(.4):
        o['bl'] = {'g': True, 't': g.r.sample(TAGS, g.ch([0, 1, 1, 2]))}
    if g.p(.35):
        o['wl'] = {'g': True, 't': g.r.sample(names_of(g, c) + ['q'], g.ch([0, 1, 1]))}
    return o


def selection(g, c, size=None):
    q = copy.deepcopy(SEL0)
    q['form'] = g.r.randrange(6)
    names = names_of(g, c)
    for _ in range(size or g.ch([1, 1, 2, 2, 3])):
        k = g.ch(['rm', 'mrm', 'rn', 'rn', 'mrn', 'mrn', 'ad', 'mad'])
        n = g.ch(names) if g.p(.75) else g.ch(['q', 'Xa', 'aa'])
        if k in ('rm', 'mrm'):
            q[k].append(n)
        elif k in ('rn', 'mrn'):
            q[k].append([n, g.ch(['q', 'Xa', 'aa', 'q', 'Xa'] + names)])
        else:
            q[k].append([g.ch(['q', 'Xa', 'aa'] + names), g.atom(INTS + STRS)])
    return q


def qdef(g, c, size=None):
    n = 'q%d' % g.r.randrange(10 ** 6)
    g.op(op='qdef', q=n, d=selection(g, c, size))
    return n


def exp(g, v, c='', how='to_dict', chain=(), o=None, hf='', save='', io=False, out=None):
    out = g.slot() if out is None else out
    g.op(op='exp', how=how, v=v, c=c, chain=list(chain), o=o or copy.deepcopy(OPTS0), hf=hf, save=save, io=io,
         out='' if save else out)
    return out


def slot_of(g, *cs):
    xs = sorted(s for s, c in g.slots.items() if c in cs)
    return g.ch(xs)


def s12(g):
    field = data_type if g.p(.7) else lambda g_: T('any')
    g.define(data_class(g, 'A', n=g.ch([1, 2, 3, 4, 5]), field=field))
    cs = ['A']
    if g.p(.4):
        g.define(data_class(g, 'B', bases=['A'], n=g.ch([0, 1, 2])))
        cs.append('B')
    for c in cs:
        make(g, c, p_omit=.6)
        make(g, c, p_omit=.3)
    saved = []
    for _ in range(g.ch([5, 6, 7])):
        c = g.ch(cs)
        s = slot_of(g, c)
        src = ref(s)
        bind = ''
        if g.p(.3):
            bind = g.ch(cs)
            if g.p(.3):
                kw = g.kwargs(bind, p_omit=.3, p_miss=.1, near=lambda t: data_value(g, t))
                src = V('ns', '', 0, [V('attr', n, 0, [v]) for n, v in sorted(kw, key=lambda z: z[0])], g.label())
        cc = bind or c
        chain = []
        for _ in range(g.ch([0, 0, 0, 1, 1, 2, 3])):
            chain.append({'w': 'with', 'q': [], 'o': opts(g, cc)} if g.p(.75) else
                         {'w': 'sel', 'q': [qdef(g, cc)], 'o': copy.deepcopy(OPTS0)})
        how = g.ch(['to_dict', 'to_dict', 'to_dict', 'to_json'])
        if g.p(.2):
            h = 'h%d' % g.r.randrange(10 ** 6)
            exp(g, src, bind, how, chain, save=h)
            saved.append((h, how, cc, bind))
        elif saved and g.p(.4):
            h, how, cc, bind = g.ch(saved)
            v = ref(slot_of(g, cc)) if bind else ref(s)
            exp(g, v, bind, how, [{'w': 'with', 'q': [], 'o': opts(g, cc)}] if g.p(.5) else [],
                opts(g, cc) if how == 'to_dict' and g.p(.5) else None, hf=h)
        else:
            exp(g, src, bind, how, chain, opts(g, cc) if how == 'to_dict' and g.p(.7) else None, io=how == 'to_json' and g.p(.3))


def sel_dict(g, c):
    names = g.r.sample(names_of(g, c) + ['q', 'Xa', 'aa'], g.ch([1, 2, 3, 4]))
    return g.container('dict', [pair(sv(n), g.atom(INTS + STRS) if g.p(.7) else g.atom(['None', 'int:0', 'str:', 'bool:False']))
                                for n in names])


def s13(g):
    g.define(data_class(g, 'A', n=g.ch([2, 3]), tags=0, field=lambda g_: T('any')))
    make(g, 'A', p_omit=.2)
    qs = []
    for _ in range(g.ch([2, 3])):
        qs.append(qdef(g, 'A'))
    for _ in range(g.ch([1, 2])):
        n = 'm%d' % g.r.randrange(10 ** 6)
        w = [g.ch(qs) for _ in range(g.ch([0, 1, 1, 2]))]
        kw = selection(g, 'A') if g.p(.4) or not w else copy.deepcopy(SEL0)
        g.op(op='qmerge', q=n, base=g.ch(qs), **{'with': w}, kw=kw)
        qs.append(n)
    for _ in range(g.ch([4, 5, 6])):
        x = g.r.random()
        q = g.ch(qs)
        if x < .6:
            g.op(op='apply', q=q, v=sel_dict(g, 'A'), out=g.slot())
        elif x < .75:
            exp(g, ref(slot_of(g, 'A')), chain=[{'w': 'sel', 'q': [q] + ([g.ch(qs)] if g.p(.3) else []), 'o': copy.deepcopy(OPTS0)}])
        else:
            imp(g, 'A', 'from_mapping', [sel_dict(g, 'A')], [], [{'w': 'sel', 'q': [q], 'o': copy.deepcopy(OPTS0)}])


def imp(g, c, how, args, kw=(), chain=(), hf='', save='', out=None):
    out = g.slot() if out is None else out
    g.op(op='imp', how=how, c=c, args=list(args), kw=[list(x) for x in kw], chain=list(chain), hf=hf, save=save, out='' if save else out)
    return out


def s14(g):
    kind = g.ch(['json', 'pickle', 'any', 'any'])

    def ft(g_):
        x = g.r.random()
        if kind == 'json' or x < .5:
            t = g.ch([T('any'), T('cls', 'int'), T('cls', 'str'), T('cls', 'float'), T('cls', 'bool'), T('bare', 'list'), T('none'),
                      T('union', a=[T('cls', 'int'), T('none')]), T('iter', 'list', [T('cls', 'int')])])
        else:
            t = g.ch([T('any'), T('bare', 'tuple'), T('bare', 'set'), T('cls', 'bytes'), T('cls', 'MyInt'), T('bare', 'deque'),
                      T('cls', 'Fraction'), T('cls', 'object'), T('cls', 'NT2'), T('bare', 'frozenset')])
        t = copy.deepcopy(t)
        if g.p(.4) and t['t'] not in ('union',):
            t['m'].append(style('check'))
            if t['c'] == 'int' and t['t'] == 'cls' and g.p(.3):
                t['m'].append(g.builtin_va('int'))
        return t

    d = data_class(g, 'A', n=g.ch([1, 2, 3, 4]), tags=.1, field=ft, truth=g.p(.8), frozen=g.p(.6), unary=g.ch(['none', 'yes', 'no']))
    g.define(d)
    c = 'A'
    if g.p(.3):
        g.define(data_class(g, 'B', bases=['A'], n=g.ch([0, 1, 1]), field=ft, frozen=g.p(.6)))
        c = 'B'
    xs = [make(g, c), make(g, c, p_omit=.2)]
    if g.p(.2):
        g.define(data_class(g, 'C', n=2, names=['xa', 'yb'], field=lambda g_: T('any'), frozen=g.p(.5)))
        xs.append(g.new('C', [['xa', ref(xs[0])], ['yb', g.atom()]]))
    if g.p(.3) and not d['frozen'] and c == 'A':
        g.op(op='set', t=ref(xs[0]), path=[], f=g.ch(names_of(g, 'A')), v=g.atom())
    for _ in range(g.ch([4, 5, 6])):
        v = g.ch(xs)
        if g.p(.35):
            g.op(op='hash', v=ref(v))
        if g.p(.12):
            g.op(op='unpick', c=g.ch([c, 'A']), v=g.ch([ref(v), ref(v), g.container('dict', [pair(sv('xa'), g.atom(INTS))]), atom('str:{"xa": 1}')]),
                 io=g.p(.3), out=g.slot())
        how = {'json': ['json', 'jsoni', 'json_io', 'dict'], 'pickle': ['pickle', 'xpickle', 'pickle_io'],
               'any': ['dict', 'dicti', 'inst', 'json', 'pickle', 'repr', 'repri', 'xpickle']}[kind]
        g.op(op='rt', how=g.ch(how), v=ref(v), out=g.slot())


def vals_eq(g):
    """values that are equal without being the same, and others"""
    return g.ch([['int:1', 'bool:True', 'float:1.0', 'complex:(1+0j)'], ['int:0', 'bool:False', 'float:0.0'], ['str:a', 'MyStr:a'],
                 ['int:2', 'MyInt:2', 'Fraction:2'], ['None', 'int:5', 'MyInt:5'], ['int:3', 'float:3.0', 'Fraction:3']])


def s15(g):
    pool = vals_eq(g) + vals_eq(g)

    def dflt(f):
        x = g.r.random()
        if x < .35:
            f['d'], f['dv'] = 'val', g.atom(pool)
        elif x < .42:
            f['d'], f['dv'] = 'val', g.container('list', [])
        elif x < .5:
            f['d'], f['dv'] = 'fac', g.atom(pool)
        return f

    names = FIELDS[:g.ch([1, 2, 2, 3])]
    own = [dflt(fdesc(n, T('any'))) for n in names]
    g.define(cdesc('A', own, frozen=g.p(.8), ordered=g.p(.2), truth=g.p(.8)))
    cs = ['A']
    if g.p(.5):
        g.define(cdesc('B', [dflt(fdesc('wd', T('any')))] if g.p(.4) else [], ['A'], frozen=g.p(.8), ordered=g.p(.2)))
        cs.append('B')
    if g.p(.2):
        g.define(cdesc('C', [dflt(fdesc(n, T('any'))) for n in names], frozen=True))
        cs.append('C')

    def val():
        x = g.r.random()
        if x < .75:
            return g.atom(pool)
        if x < .85:
            return g.container(g.ch(['tuple', 'tuple', 'frozenset']), [g.atom(pool) for _ in range(g.ch([1, 2]))])
        if x < .93:
            return g.container(g.ch(['list', 'dict', 'set']), [])
        ss = [s for s, c in g.slots.items()]
        return ref(g.ch(sorted(ss))) if ss else g.atom(pool)

    xs = []
    for _ in range(g.ch([4, 5, 6])):
        c = g.ch(cs)
        kw = []
        for f in g.all_fields(c):
            if f['d'] != 'none' and g.p(.4):
                continue
            kw.append([f['n'], copy.deepcopy(f['dv']) if f['d'] == 'val' and g.p(.3) else val()])
        g.r.shuffle(kw)
        xs.append(g.new(c, kw))
    for _ in range(g.ch([8, 10, 12])):
        x = g.r.random()
        a, b = g.ch(xs), g.ch(xs)
        if x < .45:
            g.op(op='hash', v=ref(a))
        elif x < .9:
            g.op(op='eq', f=g.ch(['eq', 'eq', 'ne']), a=ref(a), b=ref(b) if g.p(.92) else g.value(1))
        elif x < .95 and not g.classes[g.slots[a]]['frozen']:
            g.op(op='set', t=ref(a), path=[], f=g.ch(names), v=val())
        else:
            g.op(op='rt', how=g.ch(['pickle', 'dict', 'inst']), v=ref(a), out='')


def s16(g):
    g.define(data_class(g, 'A', n=g.ch([1, 2, 3]), tags=0, frozen=g.p(.6), field=lambda g_: g.ch([T('any'), T('cls', 'int', m=[style('check')])])))
    cs = ['A']
    if g.p(.7):
        g.define(data_class(g, 'B', bases=['A'], n=g.ch([0, 1]), tags=0, frozen=g.p(.5), field=lambda g_: T('any')))
        cs.append('B')
    if g.p(.3) and len(cs) == 2:
        g.define(data_class(g, 'C', bases=['B'], n=g.ch([0, 1]), names=['ve', 'wd', 'zc'], tags=0, frozen=g.p(.5), field=lambda g_: T('any')))
        cs.append('C')
    xs = [make(g, g.ch(cs)) for _ in range(3)]
    for _ in range(g.ch([6, 8, 9])):
        a = g.ch(xs)
        c = g.slots[a]
        x = g.r.random()
        f = g.ch(names_of(g, c) + ['q', 'Xa', '_u'])
        if x < .4:
            g.op(op='set', t=ref(a), path=[], f=f, v=g.value(1) if g.p(.9) else ref(g.ch(xs)))
        elif x < .6:
            g.op(op='del', t=ref(a), path=[], f=g.ch(['q', 'Xa', '_u'] + (names_of(g, c) if g.classes[c]['frozen'] else [])))
        elif x < .72:
            g.op(op='hash', v=ref(a))
        elif x < .85:
            g.op(op='eq', f='eq', a=ref(a), b=ref(g.ch(xs)))
        else:
            exp(g, ref(a))


def s17(g):
    # records with mutable contents, copied and then changed
    def ft(g_):
        return g.ch([T('any'), T('any'), T('bare', 'list'), T('iter', 'list', [T('any')]), T('cls', 'object')])

    g.define(data_class(g, 'A', n=g.ch([1, 2, 3]), tags=0, frozen=g.p(.4), field=ft, style=g.ch(['hollow', 'hollow', 'check']),
                        truth=g.p(.8)))
    g.define(cdesc('C', [fdesc('xa', T('any')), fdesc('yb', T('any'), 'val', g.container('list', []))], frozen=g.p(.4)))
    cs = ['A', 'A']
    if g.p(.4):
        g.define(data_class(g, 'B', bases=['A'], n=g.ch([0, 1]), tags=0, frozen=g.p(.4), field=ft))
        cs = ['B', g.ch(['A', 'B'])]
    shared = g.container(g.ch(['list', 'dict', 'set', 'deque']), [])

    def val():
        x = g.r.random()
        if x < .25:
            return copy.deepcopy(shared)
        if x < .35:
            return g.container('list', [copy.deepcopy(shared), copy.deepcopy(shared)])
        if x < .5:
            return g.container(g.ch(['list', 'dict', 'tuple']), [])
        if x < .65:
            k = g.ch(['list', 'tuple', 'dict'])
            return g.container(k, [pair(sv('k'), copy.deepcopy(shared))] if k == 'dict' else [g.atom(), copy.deepcopy(shared)])
        if x < .8 and g.slots:
            return ref(g.ch(sorted(g.slots)))
        return g.atom()

    def mk(c):
        kw = []
        for f in g.all_fields(c):
            if f['d'] != 'none' and g.p(.5):
                continue
            if f['d'] == 'val' and g.p(.3):
                v = copy.deepcopy(f['dv'])
                if v['i'] > 1 and g.p(.6):
                    v['i'] = g.label()
                kw.append([f['n'], v])
                continue
            kw.append([f['n'], val() if f['T']['t'] in ('any', 'cls') else g.container('list', [val()])])
        return g.new(c, kw)

    xs = [mk(c) for c in cs]
    if g.p(.6):
        xs.append(mk('C'))
    ys = []
    for s in g.r.sample(xs, g.ch([1, 2])):
        o = g.slot()
        g.op(op=g.ch(['copy', 'deep', 'deep']), v=ref(s), out=o)
        ys.append((s, o))
    if g.p(.3):
        o = g.slot()
        src = g.container('list', [ref(xs[0]), ref(xs[0])])
        n = g.slot()
        g.op(op='let', v=src, out=n)
    for _ in range(g.ch([2, 3, 4])):
        s, o = g.ch(ys)
        t = g.ch([s, o])
        c = g.slots[s]
        f = g.ch(names_of(g, c))
        if g.p(.4) and not g.classes[c]['frozen']:
            g.op(op='set', t=ref(t), path=[], f=f, v=g.atom())
        else:
            mutate(g, s, t, c)
    for s, o in ys:
        g.op(op='eq', f='eq', a=ref(s), b=ref(o))


def mutate(g, s, t, c):
    """change a container inside a record; the initial kinds are what the scenario put there"""
    for op in g.ops:
        if op['op'] == 'new' and op['out'] == s:
            for n, v in op['kw']:
                if v['k'] in ('list', 'dict', 'set', 'deque') and v['i'] > 1 and g.p(.7):
                    if any(o['op'] == 'set' and o['f'] == n for o in g.ops):
                        continue
                    if v['k'] in ('list', 'deque'):
                        g.op(op='mut', t=ref(t), path=[{'k': 'f', 's': n, 'n': 0}], m='append' if v['s'] in ('', 'None') else 'clear',
                             key=NONE, v=g.atom())
                    elif v['k'] == 'dict':
                        g.op(op='mut', t=ref(t), path=[{'k': 'f', 's': n, 'n': 0}], m='put', key=sv('a'), v=g.atom())
                    else:
                        g.op(op='mut', t=ref(t), path=[{'k': 'f', 's': n, 'n': 0}], m='clear', key=NONE, v=NONE)
                    return


def s18(g):
    kinds = [INTS[:4], STRS[:4], BOOLS + ['int:0', 'int:1', 'float:0.5'], FLOATS[:3] + INTS[:3]]

    def own(names):
        r = []
        for n in names:
            f = fdesc(n, T('any', m=[tok('tag', 'X')] if g.p(.3) else [tok('tag', 't1')] if g.p(.15) else []))
            pools[n] = g.ch(kinds)
            if g.p(.35):
                f['d'], f['dv'] = g.ch(['val', 'val', 'fac']), g.atom(pools[n])
            r.append(f)
        return r

    pools = {}
    k = g.ch([1, 2, 2, 3, 4])
    g.define(cdesc('A', own(FIELDS[:k]), ordered=g.p(.85), frozen=g.p(.4)))
    cs = ['A']
    if g.p(.6):
        g.define(cdesc('B', own(FIELDS[k:k + g.ch([0, 1, 1])]), ['A'], ordered=g.p(.75), frozen=g.p(.4)))
        cs.append('B')
    if g.p(.25):
        g.define(cdesc('C', own(FIELDS[:1]), ordered=g.p(.8)))
        cs.append('C')
    if g.p(.2) and 'B' in cs:
        g.define(cdesc('D', [], ['B'], ordered=g.p(.75)))
        cs.append('D')
    xs = []
    for _ in range(g.ch([3, 4, 5])):
        c = g.ch(cs)
        kw = [[f['n'], g.atom(pools[f['n']]) if g.p(.96) else g.value(1)] for f in g.all_fields(c) if f['d'] == 'none' or g.p(.6)]
        if xs and g.p(.5):
            pick = g.ch(xs)
            prev = next(o for o in g.ops if o['op'] == 'new' and o['out'] == pick)
            names = names_of(g, c)
            d = {n: v for n, v in prev['kw'] if n in names}
            kw = [[n, copy.deepcopy(d[n]) if n in d and g.p(.8) else v] for n, v in kw]
        xs.append(g.new(c, kw))
    for _ in range(g.ch([8, 10, 12])):
        g.op(op='cmp', f=g.ch(['lt', 'le', 'gt', 'ge']), a=ref(g.ch(xs)), b=ref(g.ch(xs)) if g.p(.95) else g.value(1))


def hier_field(g, n):
    x = g.r.random()
    if x < .08:
        return fdesc(n, T('classvar', '', [T('cls', 'int')] if g.p(.6) else []), 'val' if g.p(.6) else 'none', atom('int:1'))
    if x < .14:
        return fdesc(n, T('plain'), 'val', atom('int:1'))
    t = g.ch([T('any'), T('cls', 'int', m=[style('check')]), T('cls', 'int'), T('cls', 'str', m=[style('strict')]),
              T('cls', 'int', m=[style('check'), tok('co', 'loose')])])
    t = copy.deepcopy(t)
    if g.p(.3):
        t['m'] += [tok('tag', x) for x in g.r.sample(TAGS, g.ch([1, 2]))]
    f = fdesc(n, t)
    if g.p(.45):
        f['d'], f['dv'] = g.ch([('val', g.matching(t, 1)), ('fac', V('list', '', 0, [], -1)), ('val', atom('int:1')), ('fac', atom('int:1'))])
    f['final'] = g.p(.06)
    return f


def s19(g):
    names = FIELDS + ['q', 'aa']
    defined = []
    for name in ['A', 'B', 'C', 'D'][:g.ch([2, 3, 3, 4])]:
        bases = []
        if defined and g.p(.85):
            bases = g.r.sample(defined, 1 if g.p(.8) or len(defined) == 1 else 2)
            if len(bases) == 2 and (bases[0] in g.anc(bases[1]) or bases[1] in g.anc(bases[0])):
                bases = bases[:1]
        if g.p(.12) and not any(g.classes.get('M1') and b for b in []):
            if 'M1' not in g.classes:
                g.define(cdesc('M1', [], mix=True, post=dict(POST0, k='noop') if g.p(.5) else None))
            bases = ['M1'] + bases if not any('M1' in g.anc(b) for b in bases) else bases
        taken = [f['n'] for b in bases if not g.classes[b]['mix'] for f in g.all_fields(b)]
        # attributes of a base that are not fields would be defaults of a subclass's fields
        attrs = [f['n'] for b in bases for a in g.anc(b) for f in g.classes[a]['own'] if f['T']['t'] in ('classvar', 'plain')]
        free = [n for n in names if n not in taken and n not in attrs]
        k = g.ch([0, 1, 1, 2, 2, 3])
        mine = g.r.sample(free, min(k, len(free)))
        if g.p(.08) and taken:
            mine.append(g.ch(taken))
        own = [hier_field(g, n) for n in mine]
        d = cdesc(name, own, bases, frozen=g.p(.4), ordered=g.p(.3), unary=g.ch(['none', 'none', 'yes', 'no']),
                  style=g.ch(['hollow', 'hollow', 'check', 'strict']), truth=True)
        if defined and g.p(.1):
            d['qual'] = g.ch(defined)    # the class is defined again under the name of another
        ok = legal_hier(g, d)
        if ok:
            g.define(d)
            defined.append(name)
        else:
            g.op(op='def', d=d)
        if g.p(.5) and defined:
            use(g, g.ch(defined))
    for c in defined:
        use(g, c)
    for c in defined:
        g.op(op='fields', c=c, tag=g.ch(['', 't1', 't2', 'X']))
        if g.p(.4):
            use(g, c)


def legal_hier(g, d):
    taken = [f['n'] for b in d['bases'] if not g.classes[b]['mix'] for f in g.all_fields(b)]
    mine = [f for f in d['own'] if f['T']['t'] not in ('classvar', 'plain')]
    if len(set(taken)) != len(taken) or any(f['n'] in taken for f in mine):
        return False
    if not taken and not mine:
        return False
    if any(f['final'] for f in mine) and not d['frozen']:
        return False
    return True


def use(g, c):
    x = g.r.random()
    s = make(g, c)
    if x < .3:
        exp(g, ref(s), o=opts(g, c))
    elif x < .5:
        g.op(op='hash', v=ref(s))
    elif x < .65:
        s2 = make(g, c)
        g.op(op='cmp', f='lt', a=ref(s), b=ref(s2))
    elif x < .8:
        g.op(op='set', t=ref(s), path=[], f=g.ch(names_of(g, c)), v=g.atom())
    else:
        g.new(c, [], [g.value(1)])


def bind_type(g, depth):
    x = g.r.random()
    if depth > 0 and x < .4:
        if g.p(.2):
            t = g.ch([lambda: T('gen', g.ch(GENS), [bind_type(g, depth - 1)]),
                      lambda: T('gen', g.ch(['AsyncIterator', 'AsyncIterable']), [bind_type(g, 0)]),
                      lambda: T('gen', 'Generator', [bind_type(g, 0) if g.p(.5) else T('any') for _ in range(3)]),
                      lambda: T('gen', 'AsyncGenerator', [bind_type(g, 0) if g.p(.5) else T('any') for _ in range(2)])])()
        else:
            t = g.ctype(depth, lambda d: bind_type(g, d))
    elif x < .5 and depth >= 0:
        t = g.union(lambda: bind_type(g, -1), 2)
    elif x < .62:
        t = g.special()
    elif x < .66:
        t = T('dumb', g.ch(['', 'v']) if depth == 2 else 'v')
    else:
        t = g.simple()
    if t['t'] == 'newtype':
        return t
    if g.p(.4) and not (t['t'] == 'dumb' and not t['c']):
        n = g.ch([1, 1, 2])
        for _ in range(n):
            t['m'].append(g.ch([lambda: style(g.ch(['check', 'check', 'strict', 'hollow'])), lambda: g.builtin_co(t['c']),
                                lambda: g.call_co(['to_int', 'c_int5']), lambda: tok('co', 'loose'), lambda: g.builtin_va(),
                                lambda: g.call_va(['ident'])])())
    return t


def s20(g):
    sty = g.ch(['hollow', 'hollow', 'check', 'check', 'strict'])
    own = [fdesc('xa', bind_type(g, 2))]
    if g.p(.25):
        own.append(fdesc('yb', bind_type(g, 1)))
    pre = []
    if g.p(.35):
        for _ in range(g.ch([1, 2])):
            pre.append({'f': g.ch(['xa'] + [f['n'] for f in own]), 'key': g.ch([-1, -1, 0, 0, 1, 2]),
                        'tok': g.ch([g.call_va(['ident', 'inc', 'dbl']), g.assert_va(['is_pos', 'always', 'never']),
                                     g.call_co(['c_int5', 'to_int'])])})
    g.define(cdesc('A', own, style=sty, pre=pre, frozen=g.p(.3), unary='no'))
    # what follows applies when the definition is legal; the driver drops it otherwise
    g.cond = True

    def full():
        return [[f['n'], g.matching(f['T']) if g.p(.7) else g.value(1)] for f in own]

    g.new('A', full())
    for _ in range(g.ch([1, 2])):
        key = g.ch([-1, -1, 0, 1])
        g.op(op='tok', c='A', f='xa', key=valid_key(own[0]['T'], key), t=g.ch([g.call_va(['c_int5']), g.assert_va(['never']), g.call_co(['c_int5'])]))
        v = full()
        g.new('A', v)
    if g.p(.5):
        g.define(cdesc('B', [fdesc('zc', T('any'), 'val', atom('int:1'))], ['A'],
                       pre=[] if g.p(.75) or pre else [{'f': 'xa', 'key': -1, 'tok': g.call_va(['c_int5'])}], preset=None if g.p(.8) else True))
        g.new('A', full())
        if g.p(.5):
            g.op(op='tok', c='A', f='xa', key=-1, t=g.call_va(['c_int5']))
            g.new('A', full())


def valid_key(t, k):
    n = {'union': len(t['a']), 'tuple': len(t['a']), 'vtuple': 1, 'iter': 1, 'map': 2}.get(t['t'], 0)
    return k if k < n else -1


def s21(g):
    g.define(data_class(g, 'A', n=g.ch([1, 2, 3, 3, 4]), tags=0, frozen=g.p(.4), p_def=.5))
    cs = ['A']
    if g.p(.4):
        g.define(data_class(g, 'B', bases=['A'], n=g.ch([0, 1]), tags=0, frozen=g.p(.4)))
        cs.append('B')
    for c in cs:
        make(g, c)

    def amap(c, p=.5):
        names = [n for n in names_of(g, c) if g.p(p)] + ([g.ch(['q', 'aa'])] if g.p(.06) else [])
        g.r.shuffle(names)
        k = g.ch(['dict', 'dict', 'OrderedDict', 'defaultdict', 'MyDict'])
        return g.container(k, [pair(sv(n), g.atom(INTS + STRS)) for n in names])

    handles = []
    for _ in range(g.ch([4, 5, 6])):
        c = g.ch(cs)
        how = g.ch(['from_mapping', 'from_mapping', 'from_instance', 'from_instance', 'from_json', 'from_json_io'])
        chain = []
        if g.p(.35):
            chain = [{'w': 'sel', 'q': [qdef(g, c, g.ch([1, 2]))], 'o': copy.deepcopy(OPTS0)}]
        kw = [[n, g.atom(INTS + STRS)] for n in names_of(g, c) if g.p(.3)] + ([['q', g.atom()]] if g.p(.05) else [])
        if how == 'from_mapping':
            args = [amap(c, .7) for _ in range(g.ch([0, 1, 2, 2, 3]))]
            if g.p(.06):
                args.append(g.value(1))
        elif how == 'from_instance':
            kw0 = g.kwargs(c, p_omit=.4, p_miss=.05, near=lambda t: data_value(g, t))
            if g.p(.3):
                kw0 += [[n, g.atom()] for n in ('q', 'aa') if g.p(.6)]
            if chain and g.p(.7):
                kw0 += [[n, g.atom()] for n in ('q', 'Xa', 'aa') if n not in dict(kw0)]
            ns = V('ns', '', 0, [V('attr', n, 0, [v]) for n, v in sorted(kw0, key=lambda z: z[0])], g.label())
            src = ns if g.p(.55) else ref(slot_of(g, *cs))
            args = [src] + [amap(c) for _ in range(g.ch([0, 0, 1, 1, 2]))]
            if g.p(.5):
                kw = []
        else:
            args = [g.atom(JSONS)]
            kw = []
        if handles and g.p(.15):
            h, hc, hhow = g.ch(handles)
            if hhow == how:
                imp(g, hc, how, args, kw, chain, hf=h)
                continue
        if g.p(.12):
            h = 'h%d' % g.r.randrange(10 ** 6)
            imp(g, c, how, [], [], chain, save=h)
            handles.append((h, c, how))
            imp(g, c, how, args, kw, [], hf=h)
            continue
        imp(g, c, how, args, kw, chain)


def s22(g):
    n = g.ch([1, 2, 2, 3])
    frozen = g.p(.4)
    post = post_of(g, FIELDS[:n], frozen)
    while post['k'] == 'inherit':
        post = post_of(g, FIELDS[:n], frozen)
    bases = []
    if g.p(.2):
        g.define(cdesc('M1', [], mix=True, post=post))
        bases, post = ['M1'], None
    d = cls(g, 'A', n=n, bases=bases, truth=g.p(.5), frozen=frozen, unary=g.ch(['none', 'none', 'yes']), post=post,
            parsers=parser_pool(g, ['p_a'] if g.p(.4) else [], [atom('int:1'), atom('str:a'), g.atom()]))
    g.define(d)
    c = 'A'
    if g.p(.3):
        p2 = post_of(g, FIELDS[:n], False)
        f2 = g.p(.4)
        g.define(cls(g, 'B', n=g.ch([0, 1]), bases=['A'], truth=g.p(.5), frozen=f2, post=p2 if g.p(.5) else None))
        c = g.ch(['B', 'B', 'A'])
    pool = [g.atom(INTS + STRS) for _ in range(2)]
    for _ in range(g.ch([5, 6])):
        x = g.r.random()
        kw = g.kwargs(c, p_miss=.02)
        cv = [d2['post'] for d2 in g.classes.values() if d2['post']['cf']]
        if cv and g.p(.5):
            for e in kw:
                if e[0] == cv[0]['cf']:
                    e[1] = copy.deepcopy(cv[0]['cv'])
        if x < .55:
            g.new(c, kw)
        elif x < .7:
            g.new(c, [], [sources(g, c) if g.p(.5) else g.atom(INTS + STRS)])
        elif x < .8:
            g.op(op='parse', c=c, v=sources(g, c), out=g.slot())
        elif x < .9:
            imp(g, c, 'from_mapping', [g.container('dict', [pair(sv(n_), v) for n_, v in kw])])
        else:
            kw.sort(key=lambda z: z[0])
            imp(g, c, 'from_instance', [V('ns', '', 0, [V('attr', n_, 0, [v]) for n_, v in kw], g.label())])


def s23(g):
    """long histories over several classes, the same things again and again"""
    def ft(g_):
        x = g.r.random()
        if x < .25:
            t = g.literal()
            t['m'] = [style('check')] + ([g.call_co()] if g.p(.3) else [])
            return t
        if x < .45:
            t = g.ctype(1, lambda d: T('cls', g.ch(['int', 'str']), m=[style('check'), tok('co', 'loose')]))
            t['m'] = [style('check')]
            return t
        if x < .6:
            return g.union(lambda: umember(g, 0), 2)
        return light_type(g)

    cs = []
    for name in ['A', 'B'][:g.ch([1, 2, 2])]:
        d = cls(g, name, n=g.ch([1, 2, 3]), bases=['A'] if name == 'B' and g.p(.4) else (), field=ft, truth=g.p(.7), style='hollow',
                unary=g.ch(['none', 'yes', 'no']))
        for f in d['own']:
            if g.p(.15):
                f['d'], f['dv'] = 'val', g.container(g.ch(['list', 'dict', 'set']), [])
            elif g.p(.15):
                f['d'], f['dv'] = 'fac', V(g.ch(['list', 'dict']), '', 0, [], -1)
        if cs and g.p(.25):
            d['qual'] = 'A'     # defined again under the name of the first
        for f in d['own']:
            if g.p(.25) and f['T']['t'] != 'union':
                f['T']['m'] += [tok('tag', x) for x in g.r.sample(TAGS, g.ch([1, 2]))]
        g.define(d)
        cs.append(name)
    qs = [qdef(g, g.ch(cs)) for _ in range(g.ch([0, 1, 2]))]
    kws = {c: [g.kwargs(c, p_omit=.6, p_miss=.05) for _ in range(3)] for c in cs}
    objs = []
    for i in range(2):
        n = g.slot()
        g.op(op='let', v=g.ch([lambda: g.any_container(1), lambda: g.container('dict', [pair(sv(k), v) for k, v in kws[cs[0]][0] if v['i'] == 0])])(), out=n)
        objs.append(n)
    done = []
    for _ in range(g.ch([8, 10, 12, 14])):
        c = g.ch(cs)
        x = g.r.random()
        if done and x < .25:
            o = copy.deepcopy(g.ch(done))
            if o.get('out'):
                o['out'] = g.slot()
            g.ops.append(o)
            continue
        n0 = len(g.ops)
        if x < .55:
            kw = copy.deepcopy(g.ch(kws[c]))
            if g.p(.3) and kw:
                e = g.ch(kw)
                e[1] = ref(g.ch(objs)) if g.p(.5) else g.value(1)
            out = g.slot()
            g.op(op='new', c=c, pos=[], kw=kw, out=out)
        elif x < .65:
            g.op(op='parse', c=c, v=ref(g.ch(objs)) if g.p(.5) else sources(g, c), out=g.slot())
        elif x < .75:
            imp(g, c, 'from_mapping', [ref(g.ch(objs))] if g.p(.6) else [sources(g, c)], [],
                [{'w': 'sel', 'q': [g.ch(qs)], 'o': copy.deepcopy(OPTS0)}] if qs and g.p(.5) else [])
        elif x < .8 and qs:
            g.op(op='apply', q=g.ch(qs), v=sel_dict(g, c), out=g.slot())
        elif x < .86:
            g.new(c, [], [ref(g.ch(objs)) if g.p(.3) else g.value(1)], out=g.slot())
        elif x < .93 and any(o['op'] == 'new' and o['c'] == c and o['kw'] for o in done):
            g.op(op='fields', c=c, tag=g.ch(['', 't1', 't2', 'X']))
        else:
            kw = copy.deepcopy(g.ch(kws[c]))
            ks = sorted(kw, key=lambda z: z[0])
            imp(g, c, 'from_instance', [V('ns', '', 0, [V('attr', n_, 0, [v]) for n_, v in ks], g.label())])
        done += g.ops[n0:]


def s24(g):
    def ft(g_):
        t = g.ch([g.simple(['int', 'str', 'float', 'C0']), g.literal(), T('iter', 'list', [T('cls', 'int', m=[style('check')])]),
                  T('type', 'int'), T('tuple', '', [T('cls', 'int', m=[style('check')])]), T('cls', 'int')])
        t['m'].append(style(g.ch(['check', 'check', 'strict'])))
        if g.p(.4) and t['t'] == 'cls':
            t['m'].append(g.call_co(['to_int', 'raise_picky', 'raise_unicode', 'raise_key', 'raise_lookup', 'c_int5', 'raise_value', 'raise_zero']))
        if g.p(.5):
            t['m'].append(g.ch([g.call_va(['raise_picky', 'raise_unicode', 'raise_key', 'raise_lookup', 'raise_zero', 'ident', 'raise_value']),
                                g.assert_va(), g.builtin_va('int')]))
        return t

    d = cls(g, 'A', n=g.ch([1, 2, 3, 4]), p_def=.3, field=ft, style='hollow', truth=g.p(.8), unary=g.ch(['none', 'no']))
    g.define(d)
    c = 'A'
    if g.p(.25):
        g.define(cls(g, 'B', n=1, bases=['A'], p_def=.3, field=ft, style='hollow'))
        c = 'B'
    for _ in range(g.ch([5, 6, 7])):
        kw = g.kwargs(c, p_omit=.3, p_miss=.02, near=lambda t: g.matching(t) if g.p(.55) else g.near(t))
        x = g.r.random()
        if x < .7:
            g.new(c, kw)
        elif x < .85:
            imp(g, c, 'from_mapping', [g.container('dict', [pair(sv(n), v) for n, v in kw])])
        elif x < .93 and kw:
            g.new(c, kw[1:], [kw[0][1]])
        else:
            kw.sort(key=lambda z: z[0])
            imp(g, c, 'from_instance', [V('ns', '', 0, [V('attr', n, 0, [v]) for n, v in kw], g.label())])


GENS_BY_PROP = {'C%02d' % i: globals()['s%02d' % i] for i in range(1, 25)}


def cases(prop, seed, n, start=0):
    f = GENS_BY_PROP[prop]
    r = []
    for j in range(start, start + n):
        g = Gen(random.Random(f'{prop}/{seed}/{j}'))
        f(g)
        ops = g.ops
        if g.p(.12):
            ops = rename(ops, 'zc', '_u') if g.p(.5) else rename(ops, 'xa', '_u')
        r.append({'id': f'{prop}-{seed}-{j}', 'ops': ops})
    return r


def rename(ops, a, b):
    """the same program with another field name"""
    t = json.dumps(ops)
    if f'"{b}"' in t:
        return ops
    return json.loads(t.replace(f'"{a}"', f'"{b}"').replace(f'"str:{a}"', f'"str:{b}"').replace(f'.{a}"', f'.{b}"'))
