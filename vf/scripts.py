"""Random operation scripts for the worlds (one script = one history of up to three vecs).

A script line is  kind|op;op;...  and an op is
name,v,w,i,n,b,a,shape,ncomp,src/sink,fault.  Indices >= 2000 mean "modulo len+1", >= 1000 "modulo
len"; negative indices and amounts are symbolic (see world.rs)."""
import random

KINDS = {
    's4': 's', 's1': 's', 's0': 's', 's32': 's', 's24': 's',
    'l0': 'a', 'l1': 'a', 'l2': 'a', 'l12': 'a', 'l16': 'a', 'lh': 'a', 'str': 'a', 'cstr': 'a',
    'os': 'u', 'd': 'u', 't': 'u',
}
# how often each kind is picked
WEIGHT = {'s4': 3, 's1': 1, 's0': 1, 's32': 1, 's24': 1, 'l0': 1, 'l1': 1, 'l2': 4, 'l12': 1, 'l16': 2, 'lh': 1,
          'str': 2, 'cstr': 1, 'os': 1, 'd': 10, 't': 2}
NSHAPES = 22
SMALL = [0, 2, 3, 4, 9, 12, 17, 18, 21]          # dyn shapes with alignment at most 8
SRC = {
    's': ['val', 'val', 'box', 'cus', 'emp'],
    'l': ['val', 'box', 'cus', 'uns', 'unse', 'arr', 'vec', 'iter', 'ref'],
    'lh': ['val', 'box', 'cus', 'uns', 'unse', 'ref'],
    'str': ['val', 'box', 'cus', 'ref'],
    'd': ['val', 'box', 'cus', 'uns', 'uns', 'unse'],
    't': ['val', 'box', 'cus', 'uns', 'unse'],
}
SINK = ['drop', 'forget', 'box', 'pin', 'rc', 'rcp', 'arc', 'arcp', 'rci', 'arci', 'null', 'none', 'mem', 'keep', 'fn']


def srcs(kind):
    if kind in ('str', 'cstr', 'os'):
        return SRC['str']
    if kind == 'lh':
        return SRC['lh']
    return SRC[kind[0]]


def sinks(kind):
    s = list(SINK)
    if kind[0] == 's' and kind != 'str':
        s += ['get', 'ext', 'get']
    if kind[0] == 'l' and kind != 'lh' or kind == 'str':
        s += ['vec', 'vec']
    if kind in ('str', 'cstr', 'os'):
        s += ['get', 'get']
    return s


def op(name, v=1, w=0, i=0, n=0, b=0, a=0, sh=0, nc=0, src='', f='none'):
    return f'{name},{v},{w},{i},{n},{b},{a},{sh},{nc},{src},{f}'


ALIGNS = [1, 2, 4, 8, 16, 32, 64]


class Gen:
    """mix: weights of op families; pf: probability of a fault"""

    def __init__(self, rng, mix, pf=0.0, pa=0.0, huge=0.0, oor=0.03, length=(4, 14), kinds=None, vecs=(1, 1, 1, 1, 2, 3), fits=False):
        self.r = rng
        self.mix = mix
        self.pf, self.pa, self.huge, self.oor = pf, pa, huge, oor
        self.length = length
        self.kinds = kinds or WEIGHT
        self.vecs = vecs
        self.fits = fits

    def amount(self, hi):
        r = self.r
        if r.random() < self.huge:
            return r.choice([-1, -2, -3, -4, -8, -9])
        if r.random() < 0.15:
            return r.choice([-5, -6])
        if self.large and r.random() < 0.3:
            return r.choice([4, 7, 8, 15, 16, 17, 31, 33, 64, 100, 257])
        return r.choice([0, 1, 1, 2, 3, r.randrange(hi)])

    def nbytes(self, hi):
        r = self.r
        if r.random() < self.huge:
            return r.choice([-1, -2, -3, -4, -8, -9])
        if r.random() < 0.15:
            return r.choice([-5, -6])
        if self.large and r.random() < 0.3:
            return r.choice([63, 64, 65, 127, 255, 256, 257, 511, 1000, 1024, 4095, 4096, 5000])
        return r.choice([0, 1, 3, 8, 16, r.randrange(hi)])

    def alloc_fault(self, p=None):
        r = self.r
        if r.random() < (self.pa if p is None else p):
            return r.choice(['alloc:1', 'alloc:1', 'alloc:2', 'allocs:1', 'allocs:2', 'alloc:3'])
        return 'none'

    def align(self):
        r = self.r
        if r.random() < self.huge * 0.5:
            return r.choice([1 << 29, 1 << 30, 1 << 40, 1 << 62])
        if self.large and r.random() < 0.1:
            return r.choice([128, 256, 1024, 4096])
        return r.choice(ALIGNS)

    def shape(self):
        r = self.r
        if self.kind == 'd':
            if self.hi_align:
                return r.randrange(NSHAPES)
            return r.choice(SMALL)
        return 0

    def ncomp(self):
        if self.large and self.kind != 'l1' and self.r.random() < 0.15:     # one-byte identities run out
            return self.r.choice([8, 9, 15, 16, 17, 31, 32, 40, 64, 65, 130])
        return self.r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7])

    def count(self):
        if self.large and self.r.random() < 0.5:
            return self.r.choice([5, 6, 7, 8, 9, 12, 16, 17, 20])
        return self.r.randrange(5)

    def add(self, v):
        r = self.r
        src = r.choice(srcs(self.kind))
        f = 'none'
        name = r.choice(['push', 'push', 'ins'])
        i = 0
        if name == 'ins':
            i = 2000 + r.randrange(40)
            if r.random() < self.oor:
                i = r.choice([-2, -2, -2, -3, -4, -5, -6, -7, -8])
        if i >= 0:
            if r.random() < self.pf:
                if r.random() < 0.7 or self.kind[0] != 'l':
                    src, f = 'cus', r.choice(['p0', 'p1', 'p2', 'p2', 'p3'])
                else:
                    src, f = 'ref', 'clone:%d' % r.randrange(1, 5)
            else:
                f = self.alloc_fault()
        return op(name, v, 0, i, 0, 0, 0, self.shape(), self.ncomp(), src, f)

    def take(self, v, w):
        r = self.r
        name = r.choice(['pop', 'rem', 'rem'])
        i = 1000 + r.randrange(40)
        if name == 'rem' and r.random() < self.oor:
            i = r.choice([-1, -1, -1, -2, -3, -5, -6, -7, -8])
        s = r.choice(sinks(self.kind))
        f = 'none'
        if w and r.random() < 0.4:
            s = r.choice(['slot', 'slotins'])
            f = self.alloc_fault()
        elif r.random() < self.pf:
            if r.random() < 0.4:
                s = 'pan0'
            else:
                s, f = r.choice(['drop', 'null', 'box', 'rc', 'arc', 'drop', 'pin']), 'dtor:%d' % r.choice([1, 1, 1, 2])
        elif s in ('box', 'pin', 'rc', 'arc', 'vec', 'rcp', 'arcp', 'get'):
            f = self.alloc_fault()
        return op(name, v, w, i, r.randrange(9), 0, 0, 0, 0, s, f)

    def reserve(self, v):
        r = self.r
        name = r.choice(['res', 'rese', 'resb', 'reseb', 'resba', 'reseba'])
        if r.random() < 0.5:
            name = 't' + name
        n, b, a = self.amount(9), self.nbytes(120), self.align()
        if self.kind == 's0' and name not in ('res', 'rese', 'tres', 'trese'):
            b = 0                                     # excluded by the property
        return op(name, v, 0, 0, n, b, a, f=self.alloc_fault())

    def shrink(self, v):
        r = self.r
        name = r.choice(['stf', 'st', 'stb', 'stba', 'stba'])
        return op(name, v, 0, 0, self.amount(9), self.nbytes(120), r.choice(ALIGNS), f=self.alloc_fault())

    def conv(self, v, w, alive):
        r = self.r
        c = r.random()
        if c < 0.35:
            f = 'none'
            n = self.count()
            if r.random() < self.pf:
                f = 'iter:%d' % r.randrange(1, n + 2)
            else:
                f = self.alloc_fault()
            return op('ext', v, 0, 0, n, r.randrange(2), r.randrange(3), self.shape(), r.randrange(3), '', f)
        if c < 0.65 and w and w != v and w in alive and self.kind[0] == 's' and KINDS[self.kind] == 's':
            return op('clone', v, w, src='from', f='clone:%d' % r.randrange(1, 5) if r.random() < self.pf else self.alloc_fault())
        if c < 0.65 and w and w not in alive and self.kind[0] == 's' and KINDS[self.kind] == 's':
            f = 'clone:%d' % r.randrange(1, 5) if r.random() < self.pf else self.alloc_fault()
            alive.add(w) if f == 'none' else None
            return op('clone', v, w, f=f)
        return op('rt', v)

    def create(self, v):
        r = self.r
        c = r.random()
        n, b, a = self.amount(7), self.nbytes(100), self.align()
        if self.kind == 's0':
            b = 0
        if c < 0.4:
            return op('new', v)
        if c < 0.5:
            return op('default', v)
        if c < 0.58:
            return op('wc', v, 0, 0, n, f=self.alloc_fault())
        if c < 0.66:
            return op('wcb', v, 0, 0, n, b, f=self.alloc_fault())
        if c < 0.75:
            return op('wcba', v, 0, 0, n, b, a, f=self.alloc_fault())
        if c < 0.88:
            sh = self.shape() if self.kind == 'd' else self.ncomp()
            return op('from', v, 0, 0, self.count(), r.choice([0, 0, 1, 2, 3, 4, 5, 7, 9, 16, 40]), 0, sh, f=self.alloc_fault())
        n = self.count()
        if c < 0.94:
            src = r.choice(['val', 'val', 'box'] + (['uns'] * 3 if self.kind == 'd' or self.kind[0] == 'l' else []))
            sh = self.ncomp() if src == 'uns' and self.kind[0] == 'l' else self.shape()
            return op('mac', v, 0, 0, r.randrange(6), 0, 0, sh, r.randrange(3), src, self.alloc_fault())
        f = 'iter:%d' % r.randrange(1, n + 2) if r.random() < self.pf else self.alloc_fault()
        return op('collect', v, 0, 0, n, r.randrange(2), r.randrange(3), self.shape(), r.randrange(3), '', f)

    def script(self):
        r = self.r
        self.kind = r.choices(list(self.kinds), list(self.kinds.values()))[0]
        self.hi_align = r.random() < 0.6
        self.large = r.random() < 0.2
        nv = r.choice(self.vecs)
        ops, alive = [], set()
        fams = list(self.mix)
        wts = list(self.mix.values())
        for _ in range(r.randint(*self.length)):
            v = r.randint(1, nv)
            if v not in alive:
                ops.append(self.create(v))
                alive.add(v)
                continue
            w = 0
            if nv > 1:
                w = r.choice([x for x in range(1, nv + 1) if x != v])
            fam = r.choices(fams, wts)[0]
            if fam == 'add':
                ops.append(self.add(v))
                if self.large and r.random() < 0.15:
                    ops += [self.add(v) for _ in range(r.choice([5, 9, 17, 33]))]
            elif fam == 'take':
                ops.append(self.take(v, w if w in alive else 0))
            elif fam == 'reserve':
                ops.append(self.reserve(v))
            elif fam == 'use':
                # reserve, then add within what was reserved
                ops.append(self.reserve(v))
                for _ in range(r.randrange(1, 4)):
                    ops.append(self.add(v))
            elif fam == 'shrink':
                ops.append(self.shrink(v))
            elif fam == 'set':
                ops.append(op('set', v, 0, 1000 + r.randrange(40), src=r.choice(['get', 'idx', 'it', 'itb', 'for', 'unc'])))
            elif fam == 'get':
                i = r.choice([1000 + r.randrange(40), -1, -2, -3, -4, -5, -6, -7, -8])
                ops.append(op('get', v, 0, i, src=r.choice(['get', 'getm', 'idx', 'idxm'])))
            elif fam == 'conv':
                ops.append(self.conv(v, w, alive))
            elif fam == 'drop':
                f = 'none'
                if r.random() < self.pf:
                    f = 'dtor:%d' % r.choice([1, 1, 2, 3])
                ops.append(op('drop', v, f=f))
                alive.discard(v)
        return self.kind + '|' + ';'.join(ops)


MIX = dict(add=10, take=5, reserve=2, shrink=2, set=1, get=1, conv=1.5, drop=0.4)


def profile(prop, rng):
    g = lambda **k: Gen(rng, **k)
    mix = lambda **k: {**MIX, **k}
    if prop == 'C03':
        return [g(mix=mix(drop=1.5, conv=3), pf=0.45), g(mix=mix(drop=1), pf=0.25, length=(8, 20))]
    if prop == 'C05':
        return [g(mix=mix(use=8, take=2, shrink=1)), g(mix=mix(use=8, take=3, shrink=1), length=(10, 24))]
    if prop == 'C06':
        return [g(mix=mix(shrink=8, reserve=5)), g(mix=mix(shrink=6, reserve=5), pa=0.15, length=(8, 20))]
    if prop == 'C07':
        return [g(mix=mix(shrink=4, reserve=4, conv=4)), g(mix=mix(shrink=3, reserve=4), pa=0.1, huge=0.1)]
    if prop == 'C08':
        return [g(mix=mix(reserve=10, shrink=3), pa=0.3, huge=0.25), g(mix=mix(reserve=6, shrink=3, conv=3), pa=0.4)]
    if prop == 'C12':
        return [g(mix=mix(conv=10), vecs=(1, 2, 3)), g(mix=mix(conv=6, reserve=4, shrink=3), vecs=(1, 2, 3))]
    if prop == 'C13':
        return [g(mix=mix(take=12), vecs=(1, 2, 3)), g(mix=mix(take=12, add=14), vecs=(1, 2, 2))]
    if prop == 'C14':
        return [g(mix=mix(take=12), pf=0.15, vecs=(1, 2, 3), oor=0.1)]
    if prop == 'C16':
        return [g(mix=mix(get=10), oor=0.5), g(mix=mix(get=4), oor=0.4, length=(2, 8))]
    if prop == 'C02':
        return [g(mix=mix(take=8, conv=3), vecs=(1, 2, 3)), g(mix=mix(), pa=0.05, length=(10, 24))]
    return [g(mix=MIX), g(mix=MIX, length=(10, 30)), g(mix=mix(shrink=4, reserve=4, conv=3), vecs=(1, 2, 3))]


def scripts(prop, seed, count):
    rng = random.Random(f'{prop}/{seed}')
    ps = profile(prop, rng)
    return [ps[k % len(ps)].script() for k in range(count)]


if __name__ == '__main__':
    import sys
    for s in scripts(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])):
        print(s)
