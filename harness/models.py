"""Bounded models of the specification (spec/MC_*.tla), explored by TLC: the property is checked on the specification
in every state, and every behaviour explored is returned as a case to be replayed on the library."""
import json
import os
import re
import shutil

MODULES = {**{p: 'MC_Fill' for p in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11')},
           **{p: 'MC_Make' for p in ('C01', 'C02', 'C03', 'C21', 'C22', 'C24')}}
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
CASE = re.compile(r'^<<"CASE", (".*"), (".*")>>$')
PROBES = 100     # tried in one run of the program


def labelled(x, found):
    """the labelled objects inside an operation"""
    if isinstance(x, dict):
        if 'k' in x and 'i' in x and isinstance(x['i'], int) and x['i'] > 1:
            found.append(x)
        for y in x.values():
            labelled(y, found)
    elif isinstance(x, list):
        for y in x:
            labelled(y, found)


def program(hist, probes):
    """one program: a label is one object, so an object with other contents gets another label"""
    ops = json.loads(json.dumps(hist + probes))
    content, top = {}, 900
    for o in ops:
        found, moved = [], {}
        labelled(o, found)
        new = {}
        for x in found:
            new.setdefault(x['i'], json.dumps([x['k'], x['s'], x['e']], sort_keys=True))
        for i, c in new.items():
            if content.setdefault(i, c) != c:
                moved[i] = top
                top -= 1
        for x in found:
            if x['i'] in moved:
                x['i'] = moved[x['i']]
        content.update({j: new[i] for i, j in moved.items()})
    return ops


def explore(prop, tier, seed, work, tlc, stats, cores):
    module = MODULES.get(prop)
    if not module:
        return {'states': 0, 'transitions': 0, 'cases': []}
    meta = os.path.join(work, 'mc.meta')
    limit = 600 if tier == 'quick' else 1500
    out = tlc(['-workers', str(cores), '-noTE', '-metadir', meta, '-config', f'MC_{prop}.cfg', module + '.tla'],
              {'VERIF_TIER': tier}, limit, heap='6g')
    shutil.rmtree(meta, ignore_errors=True)
    cases, behaviours = [], 0
    for line in out.split('\n'):
        m = CASE.match(line)
        if m:
            behaviours += 1
            hist, probes = (json.loads(json.loads(x)) for x in m.groups())
            for j in range(0, max(1, len(probes)), PROBES):
                cases.append({'id': f'{prop}-m{len(cases)}', 'ops': program(hist, probes[j:j + PROBES])})
    gen, distinct = stats(out)
    if 'Model checking completed. No error has been found' not in out:
        rest = [x for x in out.split('\n') if not x.startswith('<<"CASE"')]
        return {'violated': '\n'.join(rest)[-4000:]}
    return {'module': module, 'states': distinct, 'transitions': gen, 'behaviours': behaviours, 'cases': cases,
            'laws_checked_on_outcomes': sum(len(c['ops']) for c in cases), 'exhaustive': False,
            'bounds': 'the pools and depths written in spec/%s.tla and spec/MC_%s.cfg (%s tier), explored completely' % (module, prop, tier)}
