#!/usr/bin/env python3
"""Decide one property: python3 check.py C01

1. build the harness against /repo's working tree,
2. model-check the design specifications of the property (TLC, exhaustive within
   the constants of their .cfg files),
3. let TLC generate behaviours where the property has a generator specification,
4. run the real code over generated and seeded inputs, recording what it did,
5. validate every recorded run against the specification with TLC.

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.
Exit 2: the check itself failed.
"""
import json, os, random, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
from checks import CHECKS

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, 'spec')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
REPO = '/repo'


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, replay):
        self.text, self.replay = text, replay


def log(*a):
    print(*a, flush=True)


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


# scenario families of the harness, where the name is not the scenario's
FAMILY = {'sliding': 'history', 'far-sliding': 'far', 'trees': 'far', 'model': 'predictor', 'listing': 'report', 'simulation': 'report'}


def build(scenarios=None):
    """the harness; or only what some scenarios need, if all of it cannot be built"""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, 'target'),
               RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
               RUSTC_WRAPPER='', RUSTFLAGS='--cfg demixer_verif -Awarnings')
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'],
                       cwd=os.path.join(ROOT, 'harness'), env=env, capture_output=True, text=True)
    if r.returncode and scenarios:
        log('  the harness as a whole does not build; building what this check needs')
        families = ','.join(sorted({FAMILY.get(s, s) for s in scenarios}))
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet', '--no-default-features',
                            '--features', families],
                           cwd=os.path.join(ROOT, 'harness'), env=env, capture_output=True, text=True)
    if r.returncode:
        raise ToolError('harness does not build:\n' + r.stderr[-3000:])


def build_programs():
    """the executables of the repository itself"""
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
               RUSTC_WRAPPER='', RUSTFLAGS='-Awarnings', CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS='true')
    r = subprocess.run(['cargo', 'build', '--release', '--bins', '--locked', '--offline', '--quiet',
                        '--manifest-path', os.path.join(REPO, 'Cargo.toml'),
                        '--target-dir', os.path.join(ROOT, 'target/repo')], env=env, capture_output=True, text=True)
    if r.returncode:
        raise ToolError('the programs do not build:\n' + r.stderr[-3000:])


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.conf = CHECKS[pid]
        self.work = os.path.join(ROOT, 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts = [], []
        self.lock = threading.Lock()

    # -- building -------------------------------------------------------------
    def build(self):
        build([sc['name'] for sc in self.conf['scenarios']])
        if self.conf.get('programs'):
            build_programs()

    # -- TLC ------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=4, extra=(), timeout=600, heap='6g'):
        with self.lock:
            self.meta_n = getattr(self, 'meta_n', 0) + 1
            meta = os.path.join(self.work, f'tlc{self.meta_n}')
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfg, *extra, module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})),
                               capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f'TLC timed out on {module}/{cfg} after {timeout}s')
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def counts(out):
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
        if not m:
            return 0, 0
        gen, dist = (int(x.replace(',', '')) for x in m[-1])
        init = re.findall(r'Finished computing initial states: (\d[\d,]*)', out)
        return gen - (int(init[-1].replace(',', '')) if init else 0), dist

    def model_check(self, module, cfg, workers=4):
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=workers)
        if rc != 0:
            # the specification itself is wrong: that says nothing about the code
            raise ToolError(f'specification {module}/{cfg} fails its own properties (rc {rc}):\n' + out[-3000:])
        gen, dist = self.counts(out)
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.parts.append(dict(kind='design', spec=module, cfg=cfg, states=dist, transitions=gen,
                                   wall_s=round(time.time() - t, 1)))
        log(f'  design {module}/{cfg}: {dist} states, {gen} transitions')

    def generate(self, module, cfg, num, depth):
        """behaviours of a generator specification, one per line"""
        rc, out = self.tlc(module, cfg, workers=1,
                           extra=['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(self.seed)])
        lines = re.findall(r'^"?GEN ([^"\n]*)"?$', out, re.M)
        if not lines:
            raise ToolError(f'generator {module} produced nothing (rc {rc}):\n' + out[-2000:])
        # TLC prints every last step of a behaviour: keep a few of each
        groups = {}
        for l in lines:
            groups.setdefault(tuple(l.split()[:-2]), []).append(l)
        rnd = random.Random(self.seed)
        lines = [l for g in groups.values() for l in rnd.sample(g, min(3, len(g)))]
        path = os.path.join(self.work, module + '.gen')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        log(f'  generated {len(lines)} behaviours from {module}')
        with self.lock:
            self.parts.append(dict(kind='generated behaviours', spec=module, behaviours=len(lines)))
        return path

    def generate_calls(self, module, cover, walk, num, depth):
        """sequences of calls: every call in every state, and random walks; in the form the harness reads"""
        lines = []
        for cfg, extra in ((cover, []), (walk, ['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(self.seed)])):
            rc, out = self.tlc(module, cfg, workers=1, extra=extra)
            if rc != 0:
                raise ToolError(f'generator {module}/{cfg} fails (rc {rc}):\n' + out[-2000:])
            found = [json.loads(json.loads(x)[4:]) for x in re.findall(r'^("GEN .*")$', out, re.M)]
            if not found:
                raise ToolError(f'generator {module}/{cfg} produced nothing')
            if extra:   # TLC prints every last step of a walk: keep a few of each
                groups = {}
                for g in found:
                    groups.setdefault(json.dumps([g['m'], g['c'][:-1]]), []).append(g)
                rnd = random.Random(self.seed)
                found = [g for gs in groups.values() for g in rnd.sample(gs, min(3, len(gs)))]
            else:
                gen, dist = self.counts(out)
                with self.lock:
                    self.states += dist
                    self.transitions += gen
            log(f'  generated {len(found)} behaviours from {module}/{cfg}')
            with self.lock:
                self.parts.append(dict(kind='generated behaviours', spec=module, cfg=cfg, behaviours=len(found)))
            lines += found

        def flat(v):
            return ','.join(map(str, v)) if isinstance(v, list) else str(v)
        path = os.path.join(self.work, module + '.gen')
        with open(path, 'w') as f:
            for g in lines:
                m = {k: v for k, v in g['m'].items() if k != 'tuples'}
                head = ' '.join([m['kind']] + [f'{k}={flat(v)}' for k, v in m.items() if k != 'kind'])
                calls = ';'.join(' '.join(map(str, c)) for c in g['c'])
                f.write(f'{json.dumps(m)}\t{head}\t{calls}\n')
        return path

    # -- the real code ----------------------------------------------------------
    def harness(self, scenario, seed, inp=None):
        out = os.path.join(self.work, f'{scenario}-{seed}.ndjson')
        cmd = [os.path.join(ROOT, 'target/release/harness'), scenario, str(seed), self.tier, out]
        if inp:
            cmd.append(inp)
        limit = 240 if self.tier == 'quick' else 3000
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit, preexec_fn=limits(14),
                               cwd=self.work,
                               env=dict(os.environ, REPO_BINS=os.path.join(ROOT, 'target/repo/release')))
            why = None if r.returncode == 0 else f'the code under test ended the process ({r.returncode}): {r.stderr[-600:]}'
            if r.returncode == 2:
                raise ToolError(r.stderr[-600:])
        except subprocess.TimeoutExpired:
            why = f'the code under test did not finish within {limit}s'
        if why:
            try:
                what = open(out + '.journal').read()
            except OSError:
                what = ''
            self.violate(why, dict(scenario=scenario, seed=seed, tier=self.tier, input=what, command=cmd))
        return out

    def violate(self, text, info):
        path = os.path.join(self.work, 'violation.json')
        info = dict(property=self.pid, what=text, **info)
        with open(path, 'w') as f:
            json.dump(info, f, indent=1)
        raise Violation(text, path)

    # -- trace validation ---------------------------------------------------------
    def validate(self, module, cfg, path, scenario, seed, workers=8):
        t = time.time()
        rc, out = self.tlc(module, cfg, env={'TRACE': path}, workers=workers,
                           timeout=700 if self.tier == 'quick' else 7200,
                           heap='6g' if self.tier == 'quick' else '12g')
        gen, dist = self.counts(out)
        if rc != 0:
            if rc >= 150 or rc in (1, 255) or 'java.lang.OutOfMemoryError' in out or not re.search(r'^Error: ', out, re.M):
                raise ToolError(f'TLC failed on {module}/{cfg} (rc {rc}):\n' + out[-3000:])
            err = re.search(r'^Error: (.*(?:\n(?!State|Error).*){0,3})', out, re.M).group(1)
            trn = re.findall(r'/\\ tr = (\d+)', out)
            idx = re.findall(r'/\\ at = (\d+)', out)
            line = None
            if trn:
                with open(path) as f:
                    for n, l in enumerate(f, 1):
                        if n == int(trn[-1]):
                            line = json.loads(l)
            a = out.find('Error: ')
            self.violate(f'{module}: {err.strip()[:300]}',
                         dict(scenario=scenario, seed=seed, tier=self.tier, spec=module, cfg=cfg,
                              run=int(trn[-1]) if trn else None, event=int(idx[-1]) if idx else None,
                              recorded=line, tlc=out[a:a + 6000]))
        n, samples = 0, []
        with open(path) as f:
            for l in f:
                n += 1
                if n % 97 == 5 and len(samples) < 3:
                    samples.append(l.strip()[:600])
        if n == 0:
            raise ToolError('empty trace')
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += n
            self.samples += [dict(spec=module, recorded=s) for s in samples]
            self.parts.append(dict(kind='trace validation', spec=module, cfg=cfg, scenario=scenario, seed=seed,
                                   runs=n, states=dist, wall_s=round(time.time() - t, 1)))
        log(f'  trace {module}/{cfg} <- {scenario}: {n} recorded runs, {dist} states')

    # -----------------------------------------------------------------------------
    def seeds(self):
        if self.tier == 'quick':
            return [self.seed]
        return [self.seed + 1000 * k for k in range(self.conf.get('thorough_seeds', 3))]

    def main(self):
        with ThreadPoolExecutor(8) as pool:
            mcs = [pool.submit(self.model_check, m, c, 3)
                   for m, c in self.conf.get('mc', []) + (self.conf.get('mc_thorough', []) if self.tier == 'thorough' else [])]
            self.build()
            violation = None
            try:
                for seed in self.seeds():
                    for sc in self.conf['scenarios']:
                        inp = None
                        if 'gen' in sc:
                            g = sc['gen']
                            inp = self.generate(g[0], g[1], g[2] * (1 if self.tier == 'quick' else 10), g[3])
                        if 'calls' in sc:
                            g = sc['calls']
                            inp = self.generate_calls(g[0], g[1], g[2], g[3] * (1 if self.tier == 'quick' else 10), g[4])
                        path = self.harness(sc['name'], seed, inp)
                        for m, c in sc['traces']:
                            self.validate(m, c, path, sc['name'], seed)
                        if not os.environ.get('KEEP'):
                            os.remove(path)
            except Violation as v:
                violation = v
            for f in mcs:
                f.result()
            if violation:
                raise violation

    def evidence(self, wall, violations):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples[:12] or ['none'], parts=self.parts, exhaustive=False,
                   explanation=self.conf['covers'])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=cov, assumptions=self.conf.get('assumptions', []) + [
                      'TLC, the TLA+ community modules and rustc are correct',
                      'the harness records what the public API returned, without judging it'],
                  wall_s=round(wall, 1), violations=violations)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)


def main():
    pid = sys.argv[1]
    if pid == 'setup':
        build()
        build_programs()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1) & 0x7fffffff
    t = time.time()
    run = Run(pid, tier, seed)
    try:
        run.main()
    except Violation as v:
        run.evidence(time.time() - t, 1)
        log(f'{pid}: {v.text}')
        log(f'VIOLATION property={pid} replay={v.replay}')
        return 1
    except ToolError as e:
        log(f'{pid}: check error: {e}')
        return 2
    run.evidence(time.time() - t, 0)
    log(f'{pid}: held ({run.states} states, {run.transitions} transitions, {run.traces} recorded runs, '
        f'{time.time() - t:.1f}s)')
    return 0


if __name__ == '__main__':
    sys.exit(main())
