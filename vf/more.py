"""Scripts for iterator sessions, long runs and comparisons."""
import itertools
import random

# ---------------------------------------------------------------- iterators
ITER_KINDS = {'s4': 3, 's1': 1, 's0': 1, 's32': 1, 's24': 1, 'l0': 1, 'l1': 1, 'l2': 4, 'l12': 1, 'l16': 1, 'lh': 1, 'str': 2, 'cstr': 1, 'os': 1, 'd': 9, 't': 2}
HOW = ['iter', 'mut', 'for', 'formut', 'sl']
# what happened to the vec before
PAST = ['', '', '', '+front', '+rem', '+empty', '+up', '+down', '+coll']
OPS = ['nx', 'nb', 'nt', 'ntb', 'all', 'any', 'pos', 'rpos', 'find', 'rfind', 'fmap', 'tf', 'trf', 'take']
# the closure unwinds
PAN = ['p.all', 'p.any', 'p.pos', 'p.rpos', 'p.find', 'p.rfind', 'p.fmap', 'p.tf', 'p.trf']
ENDS = ['count', 'last', 'fe', 'fold', 'rfold', 'rev', 'for', 'skip', 'revskip', 'step', 'fused']
NOARG = {'nx', 'nb', 'count', 'last', 'fe', 'fold', 'rfold', 'rev', 'for'}


def elems(kind, n, r):
    es = []
    for j in range(n):
        if kind == 'd':
            es.append(f'{r.randrange(22)}.0')
        else:
            es.append(f'0.{r.choice([0, 1, 1, 2, 3, 5])}')
    return '/'.join(es)


def itop(r, n):
    o = r.choice(OPS + ['nx', 'nb', 'nx', 'nb', 'nt', 'ntb', r.choice(PAN)])
    if o in NOARG:
        return o
    k = r.choice([0, 0, 1, 1, 2, n - 1, n, n + 1]) if r.random() < 0.93 else r.choice(['max', 'maxm', 'half', 'w32', 'w33', 'w60'])
    return f'{o},{max(0, k) if isinstance(k, int) else k}'


def itend(r, n):
    o = r.choice(ENDS)
    return o if o in NOARG else f'{o},{r.randrange(n + 2)}'


def how(kind, r):
    h = r.choice(HOW if kind in ('s4', 's1', 's0', 's32', 's24') else HOW[:4])
    return h + r.choice(PAST)


def iters_random(seed, count):
    r = random.Random(f'iter/{seed}')
    out = []
    for _ in range(count):
        kind = r.choices(list(ITER_KINDS), list(ITER_KINDS.values()))[0]
        n = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 8]) if r.random() < 0.98 else r.choice([16, 17, 40, 70])
        ops = [itop(r, n) for _ in range(r.randrange(1, 8))]
        if r.random() < 0.5:
            ops.append(itend(r, n))
        out.append(f'it:{kind}|{how(kind, r)};{elems(kind, n, r)};' + ';'.join(ops))
    return out


def iters_window(seed, maxn):
    """every window reachable by nx/nb, every call on it, then what is left, for every kind"""
    r = random.Random(f'window/{seed}')
    out = []
    for kind in ITER_KINDS:
        for n in range(maxn + 1):
            for a in range(n + 1):
                for b in range(n + 1 - a):
                    pre = ['nx'] * a + ['nb'] * b
                    r.shuffle(pre)
                    rem = n - a - b
                    calls = []
                    for o in OPS + PAN:
                        for k in ([0] if o in NOARG else range(rem + 2)):
                            calls.append([o if o in NOARG else f'{o},{k}', r.choice(['nx', 'nb']), r.choice(['for', 'rev'])])
                    for o in ENDS:
                        for k in ([0] if o in NOARG else range(rem + 2)):
                            calls.append([o if o in NOARG else f'{o},{k}'])
                    for c in calls:
                        out.append(f'it:{kind}|{how(kind, r)};{elems(kind, n, r)};' + ';'.join(pre + c))
    return out


# ---------------------------------------------------------------- long runs
RUN_KINDS = ['s4', 's1', 's0', 's32', 'l0', 'l1', 'l2', 'l16', 'str', 'cstr', 'os', 'd', 't']
RUN_HOW = ['push', 'val', 'uns', 'ins', 'insv', 'alt', 'ext', 'extl', 'res', 'resb', 'mix']


def runs(seed, deep):
    r = random.Random(f'run/{seed}')
    out = []
    for kind in RUN_KINDS:
        for h in RUN_HOW:
            # unsizing needs a kind it applies to
            if h == 'uns' and kind not in ('d', 'l1', 'l2', 'l16', 't'):
                continue
            shapes = [0, 2, 3, 9, 17, 21, 99] if kind == 'd' else [0]
            ncs = [0, 1, 9, 10, 11] if kind[0] in 'lto' or 'str' in kind else [0]
            for sh in shapes if deep else [r.choice(shapes), r.choice(shapes)]:
                for nc in ncs if deep else [r.choice(ncs)]:
                    for start in range(9) if deep else [r.randrange(9)]:
                        for n in ([300, 2500, 6000] if deep else [r.choice([40, 300]), 4000]):
                            # the bound needs runs that are long compared to its slack
                            chunk = r.choice([1, 1, 2, 7, 50])
                            out.append(f'run:{kind}|{h},{n},{sh},{nc},{start},{chunk}')
    return out


# ---------------------------------------------------------------- comparisons
def seqs(k, maxlen, alphabet):
    for n in range(maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)


def enc(k, s):
    return '/'.join(s)


def cmps(seed, count, deep):
    """all pairs of short sequences (of each element kind), then random longer ones"""
    r = random.Random(f'cmp/{seed}')
    out = []
    small = {
        'p': ['0', '1', '9'], 'pq': ['0', '1', '9'], 'o': ['0', '1'], 'd': ['0', '1', '2'],
        'lp': ['', '0', '0.9', '0.1'], 'lo': ['', '0', '0.1', '1'], 'str': ['', '0', '0.1', '1'],
    }
    for k, al in small.items():
        ss = [enc(k, s) for s in seqs(k, 3 if len(al) < 4 else 2, al)]
        ss = [s for s in ss if s != '' or True]
        pairs = [(a, b) for a in ss for b in ss]
        for a, b in pairs:
            out.append((k, a, b))
    big = {'p': 10, 'pq': 10, 'o': 9, 'd': 9, 'lp': 10, 'lo': 9, 'str': 9}
    long = [9, 16, 17, 33] * 20 + [65, 100, 129, 257, 300] * 4
    for t in range(count + len(long)):
        k = r.choice(list(big))
        one = lambda: '.'.join(str(r.randrange(big[k])) for _ in range(r.choice([0, 1, 1, 2, 3]))) if k in ('lp', 'lo', 'str') else str(r.randrange(big[k]))
        a = [one() for _ in range(r.randrange(7) if t < count else long[t - count])]
        b = list(a)
        for _ in range(r.randrange(3 if t < count else 2)):
            c = r.random()
            if c < 0.4 and b:
                b[r.randrange(len(b))] = one()
            elif c < 0.7:
                b.insert(r.randrange(len(b) + 1), one())
            elif b:
                b.pop(r.randrange(len(b)))
        out.append((k, '/'.join(a), '/'.join(b)))
    res = []
    for k, a, b in out:
        # a single empty element cannot be told from no element
        if k in ('lp', 'lo', 'str'):
            a, b = ('.' if a == '' and r.random() < 0.5 else a), ('.' if b == '' and r.random() < 0.5 else b)
        hs = [(h1, h2) for h1 in range(12) for h2 in range(12)]
        for h1, h2 in (r.sample(hs, 4) if deep else [r.choice(hs)]):
            res.append(f'cmp:{k}|{h1};{h2};{a};{b}')
    return res
