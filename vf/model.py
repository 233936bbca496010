"""The design model: bounds per property, and histories for the real code out of its transitions."""
import json
import random

from .more import NOARG

RES = ['res', 'tres', 'rese', 'trese', 'resb', 'tresb', 'reseb', 'treseb', 'resba', 'tresba', 'reseba', 'treseba']
ADD = ['push', 'ins']
TAKE = ['pop', 'rem']
SHR = ['st', 'stf', 'stb', 'stba']
NEW = ['new', 'wc', 'wcb', 'wcba']
BIG = 2000000000
USER = ['p0', 'p1', 'p2', 'p3', 'dtor', 'pan0']

# what of the model matters to each property
FOCUS = {
    'C01': dict(ops=['new', 'from'] + ADD + TAKE + ['get', 'resba', 'stf', 'drop'], extra=['from']),
    'C02': dict(ops=['new', 'from'] + ADD + TAKE + ['drop', 'ext'], extra=['from', 'ext']),
    'C03': dict(ops=['new', 'wcba', 'from'] + ADD + TAKE + ['resba', 'get'], user=USER, extra=['from']),
    'C04': dict(ops=['new', 'wcba', 'from'] + ADD + TAKE + ['resba', 'stf', 'stba'], extra=['from']),
    'C05': dict(ops=NEW + RES + ADD + ['pop', 'ext'], extra=['ext'], amts=[0, 1, 2]),
    'C06': dict(ops=['new', 'wcba'] + SHR + ADD + ['pop', 'resba']),
    'C07': dict(ops=NEW + ['from', 'collect', 'reseba', 'stf', 'stba'] + ADD + TAKE + ['drop', 'rt'], extra=['from', 'collect', 'rt']),
    'C08': dict(ops=NEW + RES + SHR + ADD + ['ext', 'collect'], alloc=[1, 2, 99], amts=[0, 1, BIG], bytes=[0, 3, BIG], extra=['ext', 'collect']),
    'C12': dict(ops=['new', 'from', 'collect', 'ext', 'rt', 'stf', 'resba'] + ADD + TAKE + ['drop'], extra=['from', 'ext', 'collect', 'rt']),
    'C16': dict(ops=['new', 'from', 'wcba', 'get'] + ADD + TAKE, extra=['from']),
}
# provider, shapes, kind, bounds (quick), bounds (thorough)
#                               len cap bytes
SPACES = [
    ('u', 'ShapesU', 'd', (2, 4, 48), (3, 4, 64)),
    ('u', 'ShapesU2', 'd', (2, 4, 32), (3, 4, 48)),
    ('u', 'ShapesU3', 'd', (0, 0, 0), (3, 4, 32)),
    ('u', 'ShapesU4', 'd', (0, 0, 0), (2, 4, 96)),
    ('a', 'ShapesA2', 'l2', (2, 4, 12), (3, 4, 18)),
    ('a', 'ShapesA1', 'l1', (2, 4, 6), (3, 4, 10)),
    ('s', 'ShapesS4', 's4', (3, 8, 32), (5, 16, 64)),
    ('s', 'ShapesS1', 's1', (2, 8, 16), (4, 16, 16)),
    ('s', 'ShapesS0', 's0', (2, 8, 16), (4, 8, 16)),
]


def tset(xs):
    return '{' + ', '.join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + '}'


def cfg(space, deep, focus, bug='none', emit=True):
    prov, shapes, _, q, t = space
    ln, cap, bc = t if deep else q
    return '\n'.join([
        'SPECIFICATION Spec', 'CONSTANTS', f' Prov = "{prov}"', f' Shapes <- {shapes}', f' MaxLen = {ln}', f' MaxCap = {cap}', f' MaxBc = {bc}',
        f' Amts = {tset(focus.get("amts", [0, 1]))}', f' Bytes = {tset(focus.get("bytes", [0, 3]))}', f' Aligns = {tset(focus.get("aligns", [1, 16]) if prov == "u" else [1])}',
        f' AllocFaults = {tset(focus.get("alloc", []))}', f' UserFaults = {tset(focus.get("user", []))}', f' Extra = {tset(focus.get("extra", []))}',
        f' Ops = {tset(focus.get("ops", []))}', f' Emit = {"TRUE" if emit else "FALSE"}', f' Bug = "{bug}"',
        'VIEW View', 'INVARIANT Holds', 'CHECK_DEADLOCK FALSE', ''])


def start(ctx, deep):
    """Starts the model-checking runs of a property."""
    focus = FOCUS[ctx.prop]
    hs = []
    for sp in SPACES:
        if (sp[4] if deep else sp[3])[0] == 0:
            continue
        name = f'{sp[0]}.{sp[1][6:]}'
        hs.append((sp, ctx.tlc('MCVec', cfg(sp, deep, focus), 'model.' + name, workers=2 if deep else 1, timeout=820, mem='4g')))
    return hs


def transitions(text):
    g = {}
    for ln in text.splitlines():
        if ln.startswith('"<<\\"T\\"'):
            _, a, o, b = json.loads(ln[1:-1].replace('\\"', '"').replace('<<', '[').replace('>>', ']'))
            g.setdefault(json.dumps(a), {})[json.dumps(o)] = json.dumps(b)
    return g


def amount(n):
    return -2 if n == BIG else n


def op(o):
    name, i, n, b, a, (sh, nc), src, f, fk = json.loads(o)
    fault = f'{f}:{fk}' if fk else f
    if name == 'from':
        sh = sh or nc
    return f'{name},1,2,{i},{amount(n)},{amount(b)},{a},{sh},{nc},{src},{fault}'


def walks(g, kind, seed, limit, length=50):
    """Histories that together take every transition (or `limit` of them, at random)."""
    r = random.Random(f'walk/{seed}')
    root = json.dumps([0, 0, 0, 0, 0, []])
    todo = {s: list(ts) for s, ts in g.items()}
    total = sum(map(len, todo.values()))
    if total > limit:
        keep = limit / total
        todo = {s: [t for t in ts if r.random() < keep] for s, ts in todo.items()}
    for ts in todo.values():
        r.shuffle(ts)
    left = sum(map(len, todo.values()))
    want = left
    out, plan = [], []
    used = {s: list(ts) for s, ts in g.items()}

    def path(s):
        seen, queue = {s: None}, [s]
        for q in queue:
            if todo.get(q):
                p = []
                while seen[q]:
                    q, t = seen[q]
                    p.append(t)
                return p[::-1]
            ts = used.get(q, ())
            for t in ts if len(ts) < 40 else r.sample(ts, 40):
                n = g[q][t]
                if n not in seen:
                    seen[n] = (q, t)
                    queue.append(n)
        return None
    stuck = 0
    while left and stuck < 200:
        cur, ops, ends = root, [], []
        before = left
        while len(ops) < length:
            if todo.get(cur):
                t = todo[cur].pop()
                left -= 1
                step = [t]
            else:
                step = path(cur)
                if step is None:
                    break
            for t in step:
                ops.append(op(t))
                cur = g[cur][t]
                ends.append(cur)
        if ops:
            out.append(f'{kind}|' + ';'.join(ops))
            plan.append(ends)
        stuck = stuck + 1 if left == before else 0
    return out, plan, want - left


def drift(files, plans):
    """How often the real vec's capacities differ from the model's prediction (informational)."""
    same = diff = 0
    first = None
    HUGE = 10 ** 9
    for f in files:
        ep, k = None, 0
        for ln in open(f):
            e = json.loads(ln)
            if e['t'] == 'new':
                ep, k = e['ep'], 0
            elif e['t'] == 'op' and ep is not None and k < len(plans[ep]):
                w = json.loads(plans[ep][k])
                k += 1
                p = e['ps'][0]
                got = [0, 0, 0, 0] if p['ex'] == 0 else [1, p['cap'], p['bc'], p['al']]
                exp = [w[0], min(w[1], HUGE), w[2], w[3]]
                if got == exp and (p['ex'] == 0 or [[x['s'], x['a']] for x in p['e']] == w[5]):
                    same += 1
                else:
                    diff += 1
                    first = first or dict(op=e['op'], predicted=w, observed=got)
    return same, diff, first


def conform(ctx, hs, limit):
    """Waits for the runs, and replays their transitions on the real code."""
    all_scripts, all_plans = [], []
    for sp, h in hs:
        text = ctx.model(h)
        g = transitions(text)
        s, p, n = walks(g, sp[2], ctx.seed, limit)
        ctx.detail['model ' + h['name']].update(transitions_replayed=n, transitions_in_bounds=sum(map(len, g.values())), histories=len(s))
        all_scripts += s
        all_plans += p
    files = ctx.harness(all_scripts, 'model')
    same, diff, first = drift(files, all_plans)
    ctx.detail['states predicted by the model'] = dict(as_predicted=same, otherwise=diff, example=first)
    ctx.say(f'model predictions: {same} as predicted, {diff} otherwise')
    ctx.validate(files, 'model', all_scripts)


# ---------------------------------------------------------------- the emplacer protocol

def start_emp(ctx, deep):
    c = '\n'.join(['SPECIFICATION Spec', 'CONSTANTS', f' MaxN = {5 if deep else 3}', ' Emit = TRUE', ' Bug = "none"',
                   'INVARIANTS Safe Holds Ends', 'CHECK_DEADLOCK FALSE', ''])
    return ctx.tlc('EmplImpl', c, 'model.emplacer', workers=1, timeout=820, mem='4g')


EMP_KINDS = {'l2': 2, 'l1': 1, 'l16': 16}


def conform_emp(ctx, h, release=False):
    """Every scenario of the protocol model on the real code, compared with the predicted outcome."""
    text = ctx.model(h)
    want, scripts = {}, []
    for ln in text.splitlines():
        if not ln.startswith('"<<\\"T\\"'):
            continue
        _, src, sink, n, m, f, fk, res, nout, dr, calls, ann, live, ask = json.loads(ln[1:-1].replace('\\"', '"').replace('<<', '[').replace('>>', ']'))
        lend = src == 'lend'
        if lend != (ctx.prop == 'C17') or ctx.prop == 'C15' and src not in ('arr', 'arrb', 'arrc', 'iter', 'iterb', 'iterc', 'iterl', 'iterp'):
            continue
        for k, es in EMP_KINDS.items():
            if lend and k != 'l2':
                continue
            s = f'{"h" if lend else "e"}:{k}|{"box" if lend else src},{"wef:" * lend}{sink},{n},{m},{f}' + (f':{fk}' if fk else '')
            want[len(scripts)] = (res, nout, dr, calls, [ann[0] * es // 2, ann[1]] if src != 'val' or calls != 1 else [ann[0] * es // 2, -1], live, ask)
            scripts.append(s)
    files = ctx.harness(scripts, 'emplacer model')
    same = diff = 0
    first = None
    ep = None
    for fl in files:
        for ln in open(fl):
            e = json.loads(ln)
            if e['t'] == 'new':
                ep = e['ep']
            elif e['t'] == 'emp':
                w = want[ep]
                ids = e['x'][0]['c']
                # unwritten clones have no identity yet
                dr = [ids.index(d) + 1 + (100 if e['src'] == 'ref' else 0) if d in ids else -1 for d in e['dr']]
                if e['h']:
                    # what is destroyed again may be gone already (the known finding)
                    dr = [w[2][j] if j < len(w[2]) and w[2][j] in w[2][:j] and d == -1 else d for j, d in enumerate(dr)]
                mem = e['mem'] + e['mem2']
                live = sum(1 if x['t'] == 'A' else -1 if x['t'] == 'D' else 0 for x in mem)
                got = (e['res'], len(e['out']), dr, e['calls'], [e['ann'][0], e['ann'][2]] if e['calls'] == 1 else [0, 0], live, e['ask'])
                if got == w:
                    same += 1
                else:
                    diff += 1
                    first = first or dict(script=scripts[ep], predicted=w, observed=got)
    ctx.detail['outcomes predicted by the protocol model'] = dict(as_predicted=same, otherwise=diff, example=first)
    ctx.say(f'protocol model predictions: {same} as predicted, {diff} otherwise')
    if diff:
        ctx.say(f'    {first}')
    ctx.validate(files, 'emplacer model', scripts)


# ---------------------------------------------------------------- the iterators

#             kind  bound (quick, thorough)
ITER_SPACES = [('u', 'ShapesU', 'd', 3, 4), ('u', 'ShapesU4', 'd', 2, 4), ('a', 'ShapesA2', 'l2', 3, 4)]


def iter_cfg(sp, deep, bug='none', emit=True):
    return '\n'.join(['SPECIFICATION Spec', 'CONSTANTS', f' Prov = "{sp[0]}"', f' Shapes <- {sp[1]}', f' MaxLen = {sp[4] if deep else sp[3]}',
                      f' Emit = {"TRUE" if emit else "FALSE"}', f' Bug = "{bug}"', 'INVARIANTS Holds Agrees Placed', 'CHECK_DEADLOCK FALSE', ''])


def start_iter(ctx, deep):
    return [(sp, ctx.tlc('MCIter', iter_cfg(sp, deep), f'model.iter.{sp[0]}.{sp[1][6:]}', workers=4 if deep else 2, timeout=820, mem='4g')) for sp in ITER_SPACES]


def conform_iter(ctx, hs, limit):
    """Sessions on the real iterators that together take every transition of the model (or `limit` of them)."""
    out, taken = [], 0
    for sp, h in hs:
        r = random.Random(f'iter walk/{ctx.seed}')
        g = {}
        for ln in ctx.model(h).splitlines():
            if ln.startswith('"<<\\"T\\"'):
                _, es, up, lo, hi, o, k, lo2, hi2 = json.loads(ln[1:-1].replace('\\"', '"').replace('<<', '[').replace('>>', ']'))
                g.setdefault((tuple(map(tuple, es)), up), {}).setdefault((lo, hi), {})[o, k] = (lo2, hi2)
        total = sum(len(ts) for v in g.values() for ts in v.values())
        keep = min(1, limit / len(hs) / total)
        for (es, up), v in g.items():
            todo = {s: [t for t in ts if r.random() < keep] for s, ts in v.items()}
            taken += sum(map(len, todo.values()))
            for ts in todo.values():
                r.shuffle(ts)
            while any(todo.values()):
                cur, ops = (0, len(es)), []
                while cur in v and len(ops) < 12:
                    if todo[cur]:
                        # calls that leave something first
                        t = todo[cur].pop()
                    else:
                        live = [t for t, n in v[cur].items() if n in v and n != cur and any(todo[m] for m in todo if m[0] >= n[0] and m[1] <= n[1])]
                        if not live:
                            break
                        t = r.choice(live)
                    ops.append(t[0] if t[0] in NOARG else f'{t[0]},{t[1]}')
                    cur = v[cur][t]
                if not ops:
                    break
                how = r.choice(['iter', 'mut', 'for', 'formut']) + ('+up' if up else r.choice(['', '', '+front', '+rem', '+down', '+coll']))
                out.append(f'it:{sp[2]}|{how};{"/".join(f"{a}.{b}" for a, b in es)};' + ';'.join(ops))
        ctx.detail['model ' + h['name']].update(transitions_in_bounds=total)
    ctx.detail['iterator sessions from the model'] = dict(transitions_replayed=taken, sessions=len(out))
    r = random.Random(ctx.seed)
    r.shuffle(out)
    ctx.conform(out, 'iterator model')
