#!/usr/bin/env python3
"""Re-seeds known mistakes into the design models: the contracts must reject each of them."""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, model          # noqa: E402


def bugs(module):
    text = open(os.path.join(core.SPEC, module + '.tla')).read()
    return sorted(set(re.findall(r'Bug (?:=|#) "([^"]+)"', text)) | {b for m in re.findall(r'Bug \\in \{([^}]*)\}', text) for b in re.findall(r'"([^"]+)"', m)})


def main():
    ctx = core.Ctx('mutants', 'thorough', 1)
    missed = []
    focus = dict(ops=[], user=model.USER, alloc=[1, 2, 99], extra=['from', 'ext', 'collect', 'rt'], bytes=[0, 3])
    bounds = {'u': (2, 4, 64), 'a': (3, 4, 18), 's': (3, 8, 32)}
    for b in ['none'] + bugs('UVecImpl'):
        by = None
        for sp in model.SPACES:
            if sp[3][0] == 0 or by and b != 'none':
                continue
            sp = sp[:3] + (bounds[sp[0]],) * 2
            c = model.cfg(sp, False, focus, bug=b, emit=False)
            rc, text = ctx.tlc_wait(ctx.tlc('MCVec', c, 'mutant', workers=8, timeout=3600, mem='8g'))
            if 'Invariant Holds is violated' in text:
                by = sp[1] + ': ' + ' '.join(sorted(set(re.findall(r'"([a-z][a-z ,-]+)", \{"C', text)))[:3])
            elif rc != 0:
                print(core.tail(text))
                return 2
        if by is None and b != 'none':
            # longer vecs, fewer calls
            c = model.cfg(model.SPACES[0][:3] + ((3, 4, 64),) * 2, False, dict(ops=['new', 'from', 'push', 'resba'], extra=['from']), bug=b, emit=False)
            rc, text = ctx.tlc_wait(ctx.tlc('MCVec', c, 'mutant', workers=8, timeout=3600, mem='8g'))
            by = 'ShapesU, 3 elements: ' if 'Invariant Holds is violated' in text else None
        if by is None and b != 'none':
            # amounts that nothing can serve
            c = model.cfg(model.SPACES[0][:3] + ((1, 4, 32),) * 2, False, model.FOCUS['C08'], bug=b, emit=False)
            rc, text = ctx.tlc_wait(ctx.tlc('MCVec', c, 'mutant', workers=8, timeout=3600, mem='8g'))
            by = 'ShapesU, huge amounts: ' if 'Invariant Holds is violated' in text else None
        print(f'UVecImpl {b}: {by or "accepted"}', flush=True)
        if (by is None) != (b == 'none'):
            missed.append(b)
    for b in ['none'] + bugs('EmplImpl'):
        c = '\n'.join(['SPECIFICATION Spec', 'CONSTANTS', ' MaxN = 3', ' Emit = FALSE', f' Bug = "{b}"',
                       'INVARIANTS Safe Holds Ends', 'CHECK_DEADLOCK FALSE', ''])
        rc, text = ctx.tlc_wait(ctx.tlc('EmplImpl', c, 'mutant', workers=8, timeout=3600))
        m = re.search(r'Invariant (\w+) is violated', text)
        print(f'EmplImpl {b}: {m.group(1) if m else "accepted"}', flush=True)
        if (m is None) != (b == 'none'):
            missed.append(b)
    for b in ['none'] + bugs('UIterImpl'):
        rc, text = ctx.tlc_wait(ctx.tlc('MCIter', model.iter_cfg(model.ITER_SPACES[0], False, b, False), 'mutant', workers=8, timeout=3600))
        m = re.search(r'Invariant (\w+) is violated', text)
        print(f'UIterImpl {b}: {m.group(1) if m else "accepted"}', flush=True)
        if (m is None) != (b == 'none'):
            missed.append(b)
    for mod, nxt, cinit in [('CapImpl', 'Reserving', 'Short'), ('CapImpl', 'Reserving', 'Double'), ('CapImpl', 'Reserving', 'Forgets'),
                            ('CapImpl', 'Shrinking', 'Unpadded'), ('CapImpl', 'Shrinking', 'Other'), ('AmortImpl', 'Next', 'Exact')]:
        ok = ctx.proved(ctx.apalache(mod, cinit, ['--cinit=ConstInit' + cinit, '--init=IndInit', '--next=' + nxt, '--length=1', '--inv=Ind']))
        print(f'{mod} {cinit}: {"accepted" if ok else "Ind"}', flush=True)
        if ok:
            missed.append(cinit)
    print('not as expected:', missed)
    return 1 if missed else 0


if __name__ == '__main__':
    sys.exit(main())
