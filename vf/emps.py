"""Scenarios "make an emplacable (or an unsized value), consume it": kind|src,sink,n,m,fault."""
import random

SINKS = ['box', 'pin', 'rc', 'rcp', 'rci', 'arc', 'arcp', 'arci', 'vec', 'vec2', 'mem']
QUIET = ['drop', 'forget', 'null', 'none', 'pan0', 'keep', 'fn']
SLICE = ['ref', 'box', 'vec', 'arr', 'arru', 'arrn', 'val', 'vals', 'valu', 'arrb', 'arrc', 'iter', 'iterb', 'iterc',
         'iterl', 'iterp', 'nest', 'pop', 'rem', 'cus', 'many', 'manyb', 'manyc']
NS = [0, 1, 2, 3, 4, 5, 7]

SIZED = ('v8', 'v300', 'z4', 'z32')
SRC = {}
for t in ('l1', 'l2', 'l16', 'lz', 'lz32'):
    SRC[t] = SLICE
SRC['cp'] = ['ref', 'iter']
SRC['d'] = ['box', 'cus', 'uns', 'unsb', 'unsc', 'pop', 'rem']
for t in SIZED:
    SRC[t] = ['val', 'box', 'cus', 'pop', 'rem']
for t in ('str', 'cstr', 'os', 'path'):
    SRC[t] = ['ref', 'box', 'cus', 'pop', 'rem']
SRC['str'] = SRC['str'] + ['bytes', 'bytesr', 'bytesc']

OWN = {'str': ['istr', 'fstr'], 'cstr': ['own'], 'os': ['own'], 'path': ['own']}
PARTS = ('arrc', 'iterc', 'manyc')


def sinks(t, src):
    if src[:4] == 'many':
        return ['ext', 'coll']
    s = SINKS + (QUIET[:5] if src in ('pop', 'rem') else QUIET)
    if t in SIZED and src not in ('pop', 'rem') or src in ('arrn', 'val'):
        s = s + ['get', 'ext', 'coll']
    elif t[0] == 'l' and src not in ('pop', 'rem') or t == 'cp' or src in ('bytes', 'bytesr', 'bytesc'):
        s = s + ['ivec', 'fvec']
    elif t in OWN and src not in ('pop', 'rem'):
        s = s + OWN[t]
    return s


HELP = [('d', 'box'), ('d', 'uns'), ('l2', 'box'), ('l2', 'uns'), ('l16', 'uns'), ('t', 'box'), ('str', 'box'), ('str', 'lit'),
        ('v8', 'val'), ('z4', 'val'), ('z32', 'val'), ('v300', 'val')]
HSINKS = ['bn', 'bp', 'rn', 'rp', 'an', 'ap', 'push', 'wefu', 'wefp', 'weff']


def sizes(t, src, r=None):
    """(n, m) pairs worth trying"""
    if t == 'd':
        ns = range(22)
    elif t in ('str', 'cstr', 'os', 'path'):
        ns = [0, 1, 2, 5, 17, 64]
    elif t in SIZED:
        ns = [0]
    else:
        ns = NS + ([33] if t in ('l1', 'l2') else []) + ([300] if t in ('l2', 'cp') else []) + ([1100] if t in ('l2', 'cp') and src in ('ref', 'vec', 'iter') else [])
    for n in ns:
        if src == 'rem':
            ms = [0, 1, 2]
        elif src == 'iterl':
            ms = sorted({0, max(0, n - 1), n, n + 1, n + 3})
        elif src == 'nest':
            ms = [0, 1, 2, 3, 4]
        elif src == 'vec':
            ms = [0, 3]
        elif src[:4] == 'many':
            ms = range(6)
        elif t in ('str', 'cstr', 'os', 'path') and src not in ('pop', 'rem'):
            ms = [0] + ([3] if t in ('os', 'path') else []) + [m for m in range(4, 10) if n in (0, 2) and (m, t) != (8, 'cstr')]
        else:
            ms = [0]
        for m in ms:
            yield n, m


def faults(t, src, sink, n, m):
    fs = []
    if src in PARTS:
        fs += [f'p{p}:{k}' for p in range(4) for k in sorted({*range(1, min(n, 7) + 1), n}) if k]
    if src in ('cus', 'unsc', 'bytesc'):
        fs += [f'p{p}:1' for p in range(4)]
    if src == 'iterp' or src == 'many':
        fs += [f'iter:{k}' for k in sorted({*range(1, min(n, 7) + 2), n, n + 1}) if k]
    if src == 'ref' and t[0] == 'l':
        fs += [f'clone:{k}' for k in sorted({*range(1, min(n, 7) + 1), n}) if k]
    # an emplacer must not unwind once it has the value
    if sink != 'mem' and t[0] in 'lvzd':
        fs += ['dtor:1', 'dtor:2'] if n or t[0] in 'vzd' else []
    if sink in SINKS and sink != 'mem' or sink in ('ivec', 'fvec', 'istr', 'own', 'ext', 'coll'):
        fs += ['alloc:1', 'allocs:1', 'alloc:2']
    return fs


def everything():
    """every source against every receiver, over sizes, without faults; then with each fault"""
    for t, ss in SRC.items():
        for src in ss:
            for sink in sinks(t, src):
                for n, m in sizes(t, src):
                    if n >= 300 and sink in ('pin', 'rcp', 'rci', 'arcp', 'arci', 'vec2', 'null', 'none', 'pan0'):
                        continue
                    yield f'e:{t}|{src},{sink},{n},{m},none', 0
                    for f in faults(t, src, sink, n, m):
                        yield f'e:{t}|{src},{sink},{n},{m},{f}', 1


def helpers():
    for t, src in HELP:
        ns = range(22) if t == 'd' else range(8) if t in ('l2', 't') and src == 'box' else [0, 1, 3, 17, 64] if (t, src) == ('str', 'box') \
            else range(6) if (t, src) == ('str', 'lit') else [0]
        for n in ns:
            for sink in HSINKS + ['wef:' + s for s in SINKS + QUIET]:
                yield f'h:{t}|{src},{sink},{n},0,none', 0
                fs = ['dtor:1'] if t not in ('str',) and sink not in ('wef:mem', 'weff', 'wefp') else []
                if sink[:4] not in ('wefu', 'wefp') and sink[4:] not in QUIET and sink != 'wef:mem':
                    fs += ['alloc:1', 'allocs:1']
                for f in fs:
                    yield f'h:{t}|{src},{sink},{n},0,{f}', 1


COMPOSITE = {'arr', 'arru', 'arrn', 'arrb', 'arrc', 'iter', 'iterb', 'iterc', 'iterl', 'iterp', 'nest', 'uns', 'unsb', 'valu', 'vals', 'bytes', 'bytesr', 'bytesc', 'unsc', 'many', 'manyb', 'manyc'}


def scripts(prop, seed, count):
    if prop == 'C17':
        l = list(helpers())
    else:
        l = list(everything()) + (list(helpers()) if prop == 'C07' else [])
        if prop == 'C15':
            l = [x for x in l if x[0].split('|')[1].split(',')[0] in COMPOSITE]
    plain = [s for s, f in l if not f]
    faulty = [s for s, f in l if f]
    r = random.Random(f'emp/{prop}/{seed}')
    r.shuffle(plain)
    r.shuffle(faulty)
    share = {'C13': 0.8, 'C18': 0.85, 'C14': 0.4, 'C15': 0.5, 'C17': 0.6}.get(prop, 0.6)
    a = plain[:int(count * share)]
    b = faulty[:count - len(a)]
    if len(a) + len(b) < count:
        a = plain[:count - len(b)]
    return a + b


if __name__ == '__main__':
    import sys
    l = list(everything())
    print(len(l), sum(1 for x in l if not x[1]), len(list(helpers())), file=sys.stderr)
    for s, _ in l + list(helpers()):
        print(s)
