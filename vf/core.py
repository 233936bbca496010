"""Building, running the harness, running TLC, and reporting."""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
TARGET = os.path.join(HARNESS, 'target')
KNOWN = os.path.join(ROOT, 'known_findings.json')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = max(2, min(8, os.cpu_count() or 2))
MAXVIOL = 5


class ToolError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='nightly-2025-07-01-x86_64-unknown-linux-gnu',
             CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0',
             CARGO_TARGET_DIR=TARGET, RUSTFLAGS='-Csymbol-mangling-version=v0', RUSTC_WRAPPER='', RUSTC_ICE='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e


def tail(s, n=30):
    return '\n'.join(s.splitlines()[-n:])


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(ROOT, 'out', prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []          # (what, replay path)
        self.known = {}               # what -> count
        self.other = {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.detail = {}
        self.open = []
        if os.path.exists(KNOWN):
            self.open = [f for f in json.load(open(KNOWN))['findings'] if f['property'] == prop]
        self.procs = []
        self._bins, self._builds = {}, {}

    def say(self, s):
        print(f'[{time.time() - self.t0:6.1f}s] {s}', flush=True)

    # -- build ------------------------------------------------------------
    def start_build(self, release=False):
        cmd = ['cargo', 'build', '--offline'] + (['--release'] if release else [])
        log = open(self.build_log(release), 'w')
        return subprocess.Popen(cmd, cwd=HARNESS, env=cargo_env(), stdout=log, stderr=subprocess.STDOUT)

    def build_log(self, release):
        return os.path.join(self.dir, f'build.{"release" if release else "debug"}.log')

    def wait_build(self, p, release=False):
        rc = p.wait()
        if rc != 0:
            print(tail(open(self.build_log(release)).read(), 60))
            raise ToolError('the harness does not build')
        return os.path.join(TARGET, 'release' if release else 'debug', 'harness')

    def start_builds(self):
        """Both variants at once: with and without overflow checks and debug assertions."""
        for r in (False, True):
            self._builds['release' if r else 'debug'] = self.start_build(r)

    def bin(self, release=False):
        key = 'release' if release else 'debug'
        if key not in self._bins:
            self._bins[key] = self.wait_build(self._builds.pop(key, None) or self.start_build(release), release)
            self.say(f'harness built ({key})')
        return self._bins[key]

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, name, env=None, workers=1, mem='3g', timeout=840, extra=()):
        """Starts TLC; returns a handle for tlc_wait."""
        d = os.path.join(self.dir, 'tlc.' + name)
        os.makedirs(d, exist_ok=True)
        cf = os.path.join(d, 'm.cfg')
        open(cf, 'w').write(cfg)
        log = os.path.join(d, 'log')
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss32m',
               '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', os.path.join(d, 'states'),
               '-config', cf, *extra, os.path.join(SPEC, module + '.tla')]
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=open(log, 'w'), stderr=subprocess.STDOUT)
        return dict(p=p, log=log, end=time.time() + timeout, name=name, dir=d)

    def tlc_wait(self, h):
        try:
            rc = h['p'].wait(max(1, h['end'] - time.time()))
        except subprocess.TimeoutExpired:
            h['p'].kill()
            raise ToolError(f'TLC run {h["name"]} timed out')
        text = open(h['log'], errors='replace').read()
        shutil.rmtree(os.path.join(h['dir'], 'states'), ignore_errors=True)
        return rc, text

    def model(self, h, expect_ok=True):
        """Waits for a model-checking run and counts its states."""
        rc, text = self.tlc_wait(h)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        if not m or (rc != 0) == expect_ok:
            print(tail(text, 60))
            raise ToolError(f'TLC run {h["name"]} ended with {rc}')
        gen, dist = int(m[-1][0]), int(m[-1][1])
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        self.detail['model ' + h['name']] = dict(distinct_states=dist, states_generated=gen)
        self.say(f'model {h["name"]}: {dist} distinct states, {gen} generated')
        return text

    def apalache(self, module, name, args, timeout=800):
        """Starts an Apalache run (an unbounded, symbolic check); returns a handle for proved()."""
        d = os.path.join(self.dir, 'apalache.' + name)
        os.makedirs(d, exist_ok=True)
        log = os.path.join(d, 'log')
        cmd = ['apalache-mc', 'check', '--out-dir=' + d, *args, os.path.join(SPEC, module + '.tla')]
        p = subprocess.Popen(cmd, cwd=d, stdout=open(log, 'w'), stderr=subprocess.STDOUT)
        return dict(p=p, log=log, end=time.time() + timeout, name=name, dir=d)

    def proved(self, h):
        try:
            h['p'].wait(max(1, h['end'] - time.time()))
        except subprocess.TimeoutExpired:
            h['p'].kill()
            raise ToolError(f'Apalache run {h["name"]} timed out')
        text = open(h['log'], errors='replace').read()
        ok = 'EXITCODE: OK' in text
        if not ok and 'violation' not in text and 'Checker has found an error' not in text:
            print(tail(text))
            raise ToolError(f'Apalache run {h["name"]} failed')
        return ok

    def induction(self, module, bound, steps=('Next',), cinit='ConstInit'):
        """Init => Ind, Ind /\\ each step => Ind', Ind => bound: all in parallel."""
        c = ['--cinit=' + cinit]
        return [self.apalache(module, f'{module}.{k}', c + a) for k, a in [
            ('init', ['--init=Init', '--length=0', '--inv=Ind']),
            *[(n, ['--init=IndInit', '--next=' + n, '--length=1', '--inv=Ind']) for n in steps],
            ('bound', ['--init=IndInit', '--length=0', '--inv=' + bound])]]

    def inductive(self, hs):
        for h in hs:
            if not self.proved(h):
                print(tail(open(h['log']).read()))
                raise ToolError(f'the design model {h["name"]} does not keep its invariant')
        self.detail['induction ' + hs[0]['name'].split('.')[0]] = [h['name'] for h in hs]
        self.say(f'{hs[0]["name"].split(".")[0]}: inductive for unbounded integers')

    # -- harness and trace validation -------------------------------------
    def harness(self, scripts, name, release=False):
        """Runs scripts against the real code; returns the trace files.  A crash or hang is a violation."""
        exe = self.bin(release)
        d = os.path.join(self.dir, 'run.' + name)
        os.makedirs(d, exist_ok=True)
        sf = os.path.join(d, 'scripts')
        open(sf, 'w').write('\n'.join(scripts) + '\n')
        procs = []
        per = (len(scripts) + CORES - 1) // CORES
        for k in range(CORES):
            lo, hi = k * per, min(len(scripts), (k + 1) * per)
            if lo < hi:
                procs.append([k, lo, hi, 0, None])
        files = []

        def start(q):
            k, lo, hi, gen, _ = q
            prefix = os.path.join(d, f'{k}.{gen}')
            q[4] = subprocess.Popen([exe, 'run', sf, prefix, '1', str(lo), str(hi)], stdout=subprocess.DEVNULL,
                                    stderr=open(prefix + '.err', 'w'), cwd=d,
                                    preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        for q in procs:
            start(q)
        todo = list(procs)
        crashes = 0
        while todo:
            q = todo.pop(0)
            try:
                rc = q[4].wait(600)
            except subprocess.TimeoutExpired:
                q[4].kill()
                raise ToolError('harness run timed out')
            prefix = os.path.join(d, f'{q[0]}.{q[3]}')
            f = prefix + '.0.ndjson'
            if rc == 0:
                files.append(f)
                continue
            err = open(prefix + '.err', errors='replace').read()
            cur = open(prefix + '.cur').read().split() if os.path.exists(prefix + '.cur') else []
            if rc > 0 and rc != 3 or not cur or cur[0] == 'done':
                print(tail(err))
                raise ToolError(f'harness ended with {rc}')
            trim(f)
            files.append(f)
            ep = int(cur[0])
            crashes += 1
            try:
                sig = signal.Signals(-rc).name
            except ValueError:
                sig = str(rc)
            what = ('hang' if sig == 'SIGALRM' else f'crash ({sig})') + ' in ' + ' '.join(cur[2:3]) + f' (op {cur[1]})'
            note = next((ln for ln in err.splitlines() if ln.strip()), '')
            self.violation(what + (': ' + note[:160] if note else ''), scripts[ep], release)
            if ep + 1 < q[2] and crashes < 30:
                q[1], q[3] = ep + 1, q[3] + 1
                start(q)
                todo.append(q)
        return [f for f in files if os.path.exists(f) and os.path.getsize(f) > 0]

    def validate(self, files, name, scripts, release=False):
        """Replays the recorded events through the specification with TLC, shards in parallel."""
        # balance the shards
        lines = []
        for f in files:
            lines.append(open(f).read().splitlines())
        eps, cur = [], []
        for ls in lines:
            for ln in ls:
                if ln.startswith('{"t":"new"') and cur:
                    eps.append(cur)
                    cur = []
                cur.append(ln)
            if cur:
                eps.append(cur)
                cur = []
        n = CORES
        shards = [[] for _ in range(n)]
        size = [0] * n
        for ep in sorted(eps, key=lambda e: -sum(map(len, e))):
            k = size.index(min(size))
            shards[k] += ep
            size[k] += sum(map(len, ep)) + 200
        hs = []
        cfg = (f'SPECIFICATION Spec\nCONSTANT Prop = "{self.prop}"\nPOSTCONDITION Done\nCHECK_DEADLOCK FALSE\n')
        events = 0
        for k, sh in enumerate(shards):
            if not sh:
                continue
            f = os.path.join(self.dir, f'{name}.{k}.ndjson')
            open(f, 'w').write('\n'.join(sh) + '\n')
            events += len(sh)
            hs.append((sh, self.tlc('Conform', cfg, f'{name}.{k}', env={'TRACE': f}, mem='2500m')))
        def epof(sh, at):
            for j in range(at, -1, -1):
                if sh[j].startswith('{"t":"new"'):
                    return j, json.loads(sh[j])['ep']
            return at, None
        rounds = 0
        while hs:
            sh, h = hs.pop(0)
            rc, text = self.tlc_wait(h)
            text = text.replace('\n  ', ' ')
            bad = None
            if rc != 0 or 'Model checking completed. No error has been found.' not in text:
                # an event outside the contract's vocabulary cannot even be evaluated: what was recorded is not
                # something the specification allows
                st = re.findall(r'^(?:/\\ )?l = (\d+)', text, re.M)
                if not st or 'OutOfMemory' in text or 'Parsing or semantic analysis failed' in text or rounds > 20:
                    print(tail(text, 60))
                    raise ToolError(f'trace validation {h["name"]} ended with {rc}')
                bad = int(st[-1]) - 1
            for m in re.finditer(r'<<"(VIOL|OTHER)", (\d+), (.*?)>>$', text, re.M):
                at = int(m.group(2)) - 1
                _, ep = epof(sh, at)
                ev = json.loads(sh[at])
                what = f'{m.group(3)} at {ev.get("op", ev["t"])}'
                if m.group(1) == 'OTHER':
                    self.other[what] = self.other.get(what, 0) + 1
                else:
                    self.violation(what, scripts[ep] if ep is not None else '', release)
            if bad is not None:
                rounds += 1
                j, ep = epof(sh, bad)
                ev = json.loads(sh[bad])
                self.violation(f'event outside the contract at {ev.get("op", ev["t"])}', scripts[ep] if ep is not None else '', release)
                k = bad + 1
                while k < len(sh) and not sh[k].startswith('{"t":"new"'):
                    k += 1
                rest = sh[k:]
                if rest:
                    f = os.path.join(self.dir, f'{name}.again{rounds}.ndjson')
                    open(f, 'w').write('\n'.join(rest) + '\n')
                    hs.append((rest, self.tlc('Conform', cfg, f'{name}.again{rounds}', env={'TRACE': f}, mem='2500m')))
        self.cov['traces_validated_against_impl'] += len(eps)
        self.cov['states'] += events
        self.cov['transitions'] += events
        d = self.detail.setdefault('conformance ' + name, dict(histories=0, events=0))
        d['histories'] += len(eps)
        d['events'] += events
        self.say(f'conformance {name}: {len(eps)} histories, {events} events validated')
        return eps

    def conform(self, scripts, name, release=False):
        if not scripts:
            return []
        files = self.harness(scripts, name, release)
        eps = self.validate(files, name, scripts, release)
        for s in scripts[:2] + scripts[len(scripts) // 2:][:1]:
            if len(self.cov['samples']) < 12:
                self.cov['samples'].append(dict(run=name, script=s))
        shutil.rmtree(os.path.join(self.dir, 'run.' + name), ignore_errors=True)
        return eps

    # -- reporting --------------------------------------------------------
    def violation(self, what, script, release=False):
        for f in self.open:
            if re.search(f['script'], script) and re.search(f['what'], what):
                self.known.setdefault(f['text'], 0)
                self.known[f['text']] += 1
                return
        k = len(self.violations) + 1
        path = os.path.join('out', self.prop, f'replay.{k}.json')
        if k <= MAXVIOL:
            json.dump(dict(property=self.prop, what=what, script=script, release=release, seed=self.seed),
                      open(os.path.join(ROOT, path), 'w'), indent=1)
        self.violations.append((what, path))

    def finish(self, assumptions=()):
        for t, n in self.known.items():
            print(f'KNOWN-FINDING: property={self.prop} {t}')
        for what, path in self.violations[:MAXVIOL]:
            print(f'VIOLATION property={self.prop} replay={path}')
            print('   ', what)
        if len(self.violations) > MAXVIOL:
            print(f'    ... and {len(self.violations) - MAXVIOL} more')
        cov = dict(self.cov)
        cov['runs'] = self.detail
        cov['clauses_of_other_properties_broken'] = dict(list(self.other.items())[:20])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            elif n.endswith('.ndjson'):
                os.unlink(p)
        self.say('done')
        return 1 if self.violations else 0


def trim(f):
    """Drops the unfinished last episode of a crashed run."""
    if not os.path.exists(f):
        return
    s = open(f, errors='replace').read()
    lines = s.split('\n')
    lines.pop()                      # '' or a partial line
    last = max((k for k, ln in enumerate(lines) if ln.startswith('{"t":"end"')), default=-1)
    open(f, 'w').write('\n'.join(lines[:last + 1]) + ('\n' if last >= 0 else ''))
