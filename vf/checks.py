"""What each property's check runs."""
import random

from . import emps, model, more, scripts

ASSUMPTIONS = [
    'the harness observes through the public interface and its own global allocator; what they cannot see is not judged',
    'x86-64 Linux, the pinned nightly toolchain; a debug build and one without overflow checks and debug assertions',
]

UVEC = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C12', 'C13', 'C14', 'C16'}
EMPS = {'C07', 'C13', 'C14', 'C15', 'C17', 'C18'}
LEAVING = {'C02', 'C03', 'C04'}     # of the emplacer scenarios, those of elements leaving a vec


def run(ctx):
    quick = ctx.tier == 'quick'
    p = ctx.prop
    ctx.start_builds()
    hs = model.start(ctx, not quick) if p in model.FOCUS else []
    he = model.start_emp(ctx, not quick) if p in EMPS else None
    hi = model.start_iter(ctx, not quick) if p == 'C09' else None
    ha = None
    if p == 'C10':
        ha = ctx.induction('AmortImpl', 'Bounded')
    if p in ('C05', 'C06', 'C08'):
        ha = ctx.induction('CapImpl', 'Promised', ['Reserving', 'Pushing', 'Popping', 'Shrinking'])
    ctx.bin()
    if ha:
        ctx.inductive(ha)
    if hi:
        model.conform_iter(ctx, hi, 24000 if quick else 10 ** 6)
    if he:
        model.conform_emp(ctx, he)
    if hs:
        model.conform(ctx, hs, 6000 if quick else 10 ** 6)
    for release in (False, True):
        # the release build gets histories of its own
        seed = ctx.seed + 1000 * release
        part = 3 if release and quick else 1
        name = (lambda s: s + ', release build') if release else str
        ctx.bin(release)
        if p in UVEC:
            ctx.conform(scripts.scripts(p, seed, (9000 if quick else 60000) // part), name('random'), release)
        if p in EMPS:
            ctx.conform(emps.scripts(p, seed, 10 ** 6 if not release or not quick else 30000), name('emplacables'), release)
        if p in LEAVING:
            ctx.conform([s for s in emps.scripts('C18', seed, 10 ** 6) if '|pop,' in s or '|rem,' in s], name('leaving elements'), release)
        if p == 'C18':
            ctx.conform(scripts.scripts('C13', seed, (3000 if quick else 20000) // part), name('leaving a vec'), release)
        if p == 'C09':
            if not release:
                ctx.conform(more.iters_window(ctx.seed, 3 if quick else 5), 'windows')
            ctx.conform(more.iters_random(seed, (9000 if quick else 60000) // part), name('sessions'), release)
        if p == 'C10':
            ctx.conform(more.runs(seed, not quick), name('runs'), release)
        if p == 'C11':
            ctx.conform(more.cmps(seed, (6000 if quick else 40000) // part, not quick), name('comparisons'), release)


_U = ('Every recorded call of histories run against the real code is checked by TLC against the contract {}. '
      'Trusts the harness\'s recording and TLC; covers the explored histories.')
NOTES = {p: _U.format('UVec.tla') for p in sorted(UVEC)}
NOTES.update({p: _U.format('Emplace.tla') for p in sorted(EMPS)})
NOTES['C13'] = NOTES['C14'] = _U.format('UVec.tla and Emplace.tla')
NOTES['C09'] = _U.format('UIter.tla')
NOTES['C10'] = _U.format('Amort.tla')
NOTES['C11'] = _U.format('Order.tla')

_D = ' The contract is also the invariant of a design model ({}), explored exhaustively by TLC within bounds; {}.'
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C12', 'C16'):
    NOTES[_p] += _D.format('UVecImpl.tla', 'its transitions are replayed on the real code')
for _p in ('C13', 'C14', 'C15', 'C17', 'C18'):
    NOTES[_p] += _D.format('EmplImpl.tla', 'all its scenarios are replayed on the real code')
NOTES['C09'] += _D.format('UIterImpl.tla', 'its transitions are replayed on the real code')
for _p, _m in (('C05', 'CapImpl.tla'), ('C06', 'CapImpl.tla'), ('C08', 'CapImpl.tla'), ('C10', 'AmortImpl.tla')):
    NOTES[_p] += f' The arithmetic is proved inductive for unbounded integers ({_m}, Apalache): of the model, not of the code.'
