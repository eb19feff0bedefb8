#!/usr/bin/env python3
"""Runs one check: builds the workloads it needs from /repo, runs them under the monitors and reports.

usage: check.py PROPERTY [quick|thorough]
exit 0: held on everything explored; 1: violated (a VIOLATION line is printed); 2: the check itself could not run.
environment: VERIF_SEED (default 1), VERIF_REPO (default /repo), VERIF_JOBS (default 8), VERIF_VERBOSE
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
VERBOSE = bool(os.environ.get('VERIF_VERBOSE'))

ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
KINDS = ['sparse_set', 'sparse_map', 'ordered_sparse_set', 'ordered_sparse_map', 'stable_set', 'stable_map', 'ordered_stable_set',
         'ordered_stable_map', 'dense_set', 'dense_map', 'ordered_dense_set', 'ordered_dense_map']
STABLE, ORDERED, MAPS = [4, 5, 6, 7], [2, 3, 6, 7, 10, 11], [1, 3, 5, 7, 9, 11]
ALL = list(range(12))


class Unit:
    """A program to build."""
    def __init__(self, name, src, defs, cxx='g++', std='c++17', opt='-O1', san=ASAN, extra=()):
        self.name, self.src, self.defs, self.cxx, self.std, self.opt, self.san, self.extra = name, src, defs, cxx, std, opt, list(san), list(extra)
        self.runs = []

    def command(self, out):
        return ([self.cxx, '-std=' + self.std, self.opt, '-g1', '-w'] + self.san + self.extra + ['-D' + d for d in self.defs] +
                ['-I' + REPO, '-I' + os.path.join(HERE, 'harness'), os.path.join(HERE, 'harness', self.src), '-o', out, '-pthread'])

    def emulated(self):
        return any('/emu/' in x for x in self.extra)

    def add(self, profile, count, first=0, shards=1, seed=None, digest=None):
        step = -(-count // shards)
        for a in range(first, first + count, step):
            self.runs.append(Run(self, profile, a, min(step, first + count - a), SEED if seed is None else seed, digest))
        return self


class Run:
    def __init__(self, unit, profile, first, count, seed, digest):
        self.unit, self.profile, self.first, self.count, self.seed, self.digest = unit, profile, first, count, seed, digest

    def args(self):
        return [self.profile, str(self.seed), str(self.first), str(self.count)]


def engine(kind, props=0, transparent=0, **kw):
    extra = kw.pop('flags', [])
    return Unit('%s.a%d.t%d%s' % (KINDS[kind], props, transparent, kw.pop('tag', '')), 'main_engine.cpp',
                ['KIND=%d' % kind, 'ALLOC_PROPS=%d' % props, 'TRANSPARENT=%d' % transparent] + extra, **kw)


def multi(keys, map_, props=0, transparent=0, **kw):
    extra = kw.pop('flags', [])
    return Unit('multi%d%s.a%d.t%d%s' % (keys, 'ms'[not map_], props, transparent, kw.pop('tag', '')), 'main_multi.cpp',
                ['KEYS=%d' % keys, 'MAP=%d' % map_, 'ALLOC_PROPS=%d' % props, 'TRANSPARENT=%d' % transparent] + extra, **kw)


def types(part, **kw):
    extra = kw.pop('flags', [])
    return Unit('types%d%s' % (part, kw.pop('tag', '')), 'main_types.cpp', ['PART=%d' % part] + extra, **kw)


def refs(profile, count, many):
    return [Unit('refs.17', 'main_refs.cpp', []).add(profile, count * many, shards=2),
            Unit('refs.20', 'main_refs.cpp', ['NDEBUG'], cxx='clang++', std='c++20', opt='-O0').add(profile, count * many, shards=2, seed=SEED + 40)]


def cost(kind):
    return Unit('cost%d' % kind, 'main_cost.cpp', ['KIND=%d' % kind], san=['-fsanitize-coverage=trace-pc'])


# Allocator behaviours: bits 1 POCCA, 2 POCMA, 4 POCS, 8 always equal, 16 select_on_container_copy_construction gives another one.
# In the quick tier each family of containers (the first, second and third four entries) meets each trait alone and all others without it.
PROPS = [2, 37, 1, 39,  4, 51, 24, 35,  18, 5, 63, 38]
PROPS2 = [33, 6, 35, 20]


def plan(pid, thorough):
    """The programs and runs that decide a property."""
    units = []
    many = 12 if thorough else 1

    def singles(profile, count, kinds=ALL, props=(0,), transparents=None, dense2=None, **kw):
        for i, k in enumerate(kinds):
            # quick: one configuration for each container, rotating (two where the allocator matters); thorough: all of them
            for p in (props + ([0, 8, 16] if props is PROPS else []) if thorough else [props[i % len(props)]] + ([dense2[k - 8]] if dense2 and k >= 8 else [])):
                for t in ([0, 1] if thorough and transparents is None else [transparents if transparents is not None else (k // 2 + k) % 2]):
                    u = engine(k, p, t, **kw)
                    u.add(profile, count * many, shards=3 * (4 if thorough else 1))
                    units.append(u)
                    if k < 8:
                        # The swiss tables have another buffer layout with clang and NDEBUG, and another group width without vector instructions.
                        q = props[(i + 5) % len(props)] if not thorough else p
                        wide = (k + k // 2 + SEED) % 2 if not thorough else t
                        v = engine(k, q, t, **dict(kw, cxx='clang++', tag=kw.get('tag', '') + ('.clang' if wide else '.clang.nosimd'),
                                                   flags=kw.get('flags', []) + ['NDEBUG'] + ([] if wide else ['TPP_NO_SIMD'])))
                        v.add(profile, count * many * 2 // 3, shards=2 * (4 if thorough else 1), seed=SEED + 10)
                        units.append(v)

    def multis(profile, count, which=((2, 1), (3, 0)), props=(0,), transparents=None, **kw):
        for i, (k, m) in enumerate(([(k, m) for k in (1, 2, 3, 4) for m in (0, 1)]) if thorough else which):
            for p in (props if thorough else [props[i % len(props)]]):
                for t in ([0, 1] if thorough and transparents is None else [(i + 1) % 2 if transparents is None else transparents]):
                    u = multi(k, m, p, t, **kw)
                    u.add(profile, count * many, shards=2 * (4 if thorough else 1))
                    units.append(u)

    if pid == 'P01':
        singles('semantics', 900)
    elif pid == 'P02':
        singles('iteration', 800)
        multis('iteration', 500)
        units += refs('positions', 1200, many)
    elif pid == 'P03':
        singles('order', 1500, kinds=ORDERED, props=(0, 7))
        for p in (1, 3, 5):
            units.append(types(p, san=['-fsanitize=address', '-fno-sanitize-recover=all']).add('types', 500 * many, shards=2))
    elif pid == 'P04':
        multis('multikey', 700, which=[(k, m) for k in (1, 2, 3, 4) for m in (0, 1)])
    elif pid == 'P05':
        singles('transfer', 700, props=PROPS, dense2=PROPS2)
        multis('transfer', 500, props=PROPS)
    elif pid == 'P06':
        singles('lifetime', 700, props=(0, 7, 24))
        multis('lifetime', 500, props=(0, 7))
        for p in range(7):
            units.append(types(p, san=['-fsanitize=address', '-fno-sanitize-recover=all']).add('types', 600 * many, shards=2))
    elif pid == 'P07':
        singles('memory', 700, props=PROPS, dense2=PROPS2)
        multis('memory', 500, props=PROPS)
        for p in range(7): # allocators that create objects of trivial types (those of the stable maps of movable objects have to be equal)
            units.append(types(p, tag='.own', flags=['OWNALLOC=%d' % (32, 33, 40, 47, 36, 39, 34)[p]], san=['-fsanitize=address', '-fno-sanitize-recover=all']).add('types', 400 * many, shards=2))
    elif pid == 'P08':
        singles('stability', 700)
        multis('stability', 400)
        for p in (2, 3):
            units.append(types(p, san=['-fsanitize=address', '-fno-sanitize-recover=all']).add('types', 500 * many, shards=2))
    elif pid == 'P09':
        singles('nodes', 1500, kinds=STABLE, props=(0, 7, 24, 2))
        singles('nodes', 600, kinds=STABLE, props=(1, 4), tag='.x')
    elif pid == 'P10':
        singles('fault', 700, props=(0, 7, 24, 2))
        multis('fault', 500, props=(0, 7))
        units += refs('throwing', 1200, many)
    elif pid == 'P11':
        singles('capacity', 500)
        multis('capacity', 300)
        for k in range(14):
            units.append(cost(k).add('bounded', 60 * many, shards=1))
    elif pid == 'P12':
        portable(units, thorough)
    elif pid == 'P13':
        for p in range(7):
            u = Unit('threads%d' % p, 'main_threads.cpp', ['PART=%d' % p], san=['-fsanitize=thread'])
            u.add('threads', 400 * many, shards=4)
            units.append(u)
            if thorough:
                u = Unit('threads%d.clang' % p, 'main_threads.cpp', ['PART=%d' % p, 'TPP_NO_SIMD', 'NDEBUG'], cxx='clang++', san=['-fsanitize=thread'])
                u.add('threads', 400 * many, shards=4, seed=SEED + 100)
                units.append(u)
    elif pid == 'P14':
        full = ['-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
        for p in range(7):
            units.append(types(p, san=full).add('types', 800 * many, shards=4))
            units.append(types(p, tag='.msan', cxx='clang++', san=['-fsanitize=memory'], flags=['PLAIN']).add('types', 500 * many, shards=2, seed=SEED + 50))
            if p < 4 and (thorough or p % 2 == 0):
                units.append(types(p, tag='.clang.nosimd', cxx='clang++', san=full, flags=['TPP_NO_SIMD']).add('types', 400 * many, shards=2, seed=SEED + 60))
            if p < 4 and (thorough or p % 2 == 1):
                units.append(types(p, tag='.clang.ssse3', cxx='clang++', san=full, flags=['NDEBUG'], extra=['-mssse3']).add('types', 400 * many, shards=2, seed=SEED + 70))
        singles('selfarg', 300)
        multis('selfarg', 200)
    elif pid == 'P15':
        singles('equality', 800)
        multis('equality', 400)
        units += refs('references', 1200, many)
    elif pid == 'P16':
        singles('functors', 800, transparents=1)
        multis('functors', 400, props=(0, 7), transparents=1)
    elif pid == 'P17':
        for k in range(14):
            units.append(cost(k).add('cost', 234 * (3 if thorough else 1), shards=2))
    elif pid == 'P18':
        singles('bulk', 800)
        multis('bulk', 400)
    elif pid == 'ALL':
        # Not a property: everything in small amounts, for experiments (tools/mutate.py).
        profiles = 'semantics iteration transfer lifetime memory stability fault capacity selfarg equality functors bulk'.split()
        for i, k in enumerate(ALL):
            configs = [dict(props=PROPS[i])]
            if k < 8:
                configs.append(dict(props=PROPS[(i + 5) % 12], cxx='clang++', tag='.clang.nosimd' if i % 2 else '.clang', flags=['NDEBUG'] + (['TPP_NO_SIMD'] if i % 2 else [])))
            for c in configs:
                u = engine(k, c.pop('props'), (k + k // 2 + SEED) % 2, **c)
                for p in profiles + (['order'] if k in ORDERED else []) + (['nodes'] if k in STABLE else []):
                    u.add(p, 150)
                units.append(u)
        for k, m, p, t in ((2, 1, 2, 1), (3, 0, 5, 0)):
            u = multi(k, m, p, t)
            for p in profiles[1:] + ['multikey']:
                u.add(p, 150)
            units.append(u)
        for p in range(7):
            units.append(types(p, san=['-fsanitize=address,undefined', '-fno-sanitize-recover=all']).add('types', 300))
        for u in refs('positions', 150, 1):
            units.append(u.add('references', 150).add('throwing', 150))
        for k in range(14):
            units.append(cost(k).add('cost', 117).add('bounded', 30))
    else:
        sys.exit('unknown property ' + pid)
    if thorough:
        # the deep tier repeats everything with the portable table groups and without assertions
        more = []
        for u in units:
            if u.src in ('main_engine.cpp', 'main_multi.cpp') and pid != 'P12':
                if u.cxx != 'g++':
                    continue
                v = Unit(u.name + '.nosimd', u.src, u.defs + ['TPP_NO_SIMD', 'NDEBUG'], u.cxx, u.std, u.opt, u.san, u.extra)
                for r in u.runs:
                    v.runs.append(Run(v, r.profile, r.first, max(1, r.count // 3), r.seed + 1000, r.digest))
                more.append(v)
        units += more
    return units


def portable(units, thorough):
    """Build configurations whose results have to be the same."""
    configs = [dict(tag='.sse2', flags=[]),
               dict(tag='.nosimd', cxx='clang++', std='c++20', flags=['TPP_NO_SIMD', 'NDEBUG'], opt='-O2'),
               dict(tag='.ssse3', std='c++20', flags=[], extra=['-mssse3']),
               dict(tag='.nosimd.debug', flags=['TPP_NO_SIMD'])]
    emu, ub = os.path.join(HERE, 'harness', 'emu'), ['-fsanitize=undefined', '-fno-sanitize-recover=all']
    emulated = [dict(tag='.generic', flags=[], extra=ub + ['-include', emu + '/generic.hpp']),
                dict(tag='.neon', flags=['NDEBUG'], extra=ub + ['-I' + emu, '-include', emu + '/neon.hpp'])]
    if thorough:
        configs = []
        for cxx in ('g++', 'clang++'):
            for std in ('c++17', 'c++20'):
                for simd in ('sse2', 'ssse3', 'avx2', 'nosimd'):
                    for debug in (0, 1):
                        opt = {'sse2': '-O0' if debug else '-O3', 'ssse3': '-O1', 'avx2': '-O2', 'nosimd': '-O3' if debug else '-O1'}[simd]
                        configs.append(dict(tag='.%s.%s.%s.%s' % (cxx, std, simd, 'debug' if debug else 'ndebug'), cxx=cxx, std=std, opt=opt,
                                            flags=(['TPP_NO_SIMD'] if simd == 'nosimd' else []) + ([] if debug else ['NDEBUG']),
                                            extra=['-mssse3'] if simd == 'ssse3' else ['-mavx2'] if simd == 'avx2' else []))
        emulated += [dict(tag='.generic.clang', cxx='clang++', flags=['NDEBUG'], extra=emulated[0]['extra']),
                     dict(tag='.neon.debug', flags=[], std='c++20', extra=emulated[1]['extra'])]
    configs += emulated
    n = 3000 if thorough else 700
    for k in ALL:
        for i, c in enumerate(configs):
            if k >= 8 and not thorough and i >= 2:
                continue  # the dense tables do not use vector instructions
            units.append(engine(k, 0, k % 2, san=[], **dict(c)).add('portable', n, shards=2 if thorough else 1, digest='k%d' % k))
    for key, m in ((2, 1), (3, 0)):
        for i, c in enumerate(configs):
            if not thorough and i >= 2:
                continue
            units.append(multi(key, m, 0, 1, san=[], **dict(c)).add('portable', n, shards=2 if thorough else 1, digest='m%d%d' % (key, m)))


RULES = {
    'cost': 'a case is a deterministic growth or churn history (size, pattern and load swept); work is counted in hash calls, comparisons, relocations, allocations and executed basic blocks',
    'threads': 'a case is a container with a random history read by 2-6 threads at once (each also mutates a container of its own); all cases differ by seed; overlapped operations are counted',
    'positions': 'a case is one container after a random history; all positions of its traversals are compared with each other and with the elements they designate',
    'references': 'a case is a pair of containers after a random history; references to their elements are compared like pairs',
    'throwing': 'a case is a pair of maps; each comparison of mapped objects throws in turn',
    'types': 'a case is a random history of 60-220 operations on one container type, checked against a table; cases differ by seed and element type',
}
RULE = ('a case is a random history of operations on up to four containers (single-key) or three (multi-key) with random hash quality, key range and '
        'operation mix, every result compared with a reference model; a case counts as non-trivial if it inserts and erases at least three elements, '
        'and as distinct by the digest of its operations')


class Stop(Exception):
    pass


class Checker:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.dir = tempfile.mkdtemp(prefix='tpp-verif-')
        self.lock = threading.Lock()
        self.failure = None
        self.error = None
        self.known = []
        self.stats = []
        self.skipped = []
        self.digests = {}
        self.t0 = time.time()
        self.budget = 840 if tier == 'quick' else 14000

    def left(self):
        return self.budget - (time.time() - self.t0)

    def say(self, s):
        if VERBOSE:
            with self.lock:
                print('[%6.1f] %s' % (time.time() - self.t0, s), file=sys.stderr, flush=True)

    def execute(self, cmd, timeout, env=None):
        out = tempfile.TemporaryFile(dir=self.dir)
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=env, cwd=self.dir, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.terminate()
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
            rc = None
        out.seek(0)
        text = out.read().decode('utf-8', 'replace')
        return rc, text

    def environment(self, leaks):
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=0' % leaks
        env['UBSAN_OPTIONS'] = 'abort_on_error=1:print_stacktrace=1'
        env['TSAN_OPTIONS'] = 'halt_on_error=1:second_deadlock_stack=1'
        env['MSAN_OPTIONS'] = 'exit_code=1'
        return env

    def build(self, u):
        if self.failure or self.error:
            return None
        exe = os.path.join(self.dir, u.name)
        t = time.time()
        rc, text = self.execute(u.command(exe), max(60, self.left()))
        self.say('built %s in %.1f s: %s' % (u.name, time.time() - t, rc))
        if rc != 0 and u.emulated():
            # The emulation may lack what the code uses: only what the compiler for the real processor rejects as well is a violation.
            rc2, text2 = self.execute(self.aarch64(), 200) if '.neon' in u.name else (0, '')
            with self.lock:
                if rc2 and re.search('^' + re.escape(REPO) + r'/tpp/.*error: ', text2, re.M):
                    self.failure = self.failure or (Run(u, 'portable', 0, 1, SEED, None), text2, 'does not compile for processors with NEON: ' + re.search(r'.*error: .*', text2).group(0))
                else:
                    self.skipped.append(u.name)
            return None
        if rc != 0:
            with self.lock:
                self.error = self.error or 'cannot build %s:\n%s\n%s' % (u.name, ' '.join(u.command(exe)), '\n'.join([l for l in text.split('\n') if 'error' in l][:12]) or text[-2000:])
            return None
        return exe

    def aarch64(self):
        emu = os.path.join(HERE, 'harness', 'emu')
        cmd = ['clang++', '-std=c++17', '-w', '--target=aarch64-linux-gnu', '-fsyntax-only', '-D__x86_64__', '-include', emu + '/neon.hpp', '-I' + REPO]
        for d in ('/usr/include/c++/13', '/usr/include/x86_64-linux-gnu/c++/13', '/usr/include/x86_64-linux-gnu', '/usr/include'):
            cmd += ['-isystem', d]
        return cmd + [emu + '/aarch64.cpp']

    def run(self, r, exe):
        if self.failure or self.error or exe is None:
            return
        out = os.path.join(self.dir, '%s.%s.%d.%d.json' % (r.unit.name, r.profile, r.seed, r.first))
        t = time.time()
        limit = max(30, min(self.left() - 20, 300 if self.tier == 'quick' else 3600))
        rc, text = self.execute([exe] + r.args() + [out], limit, self.environment(1))
        if rc not in (0, None) and 'LeakSanitizer has encountered a fatal error' in text:
            rc, text = self.execute([exe] + r.args() + [out], limit, self.environment(0))
        self.say('ran %s %s in %.1f s: %s' % (r.unit.name, ' '.join(r.args()), time.time() - t, rc))
        if rc is None:
            if self.failure or self.error:
                return
            # Out of time. Only a case that does not end is a violation: give the case that was running a chance of its own.
            m = re.findall(r'^case kind=.* case=(-?\d+) ', text, re.M)
            if m:
                one = Run(r.unit, r.profile, int(m[-1]), 1, r.seed, r.digest)
                rc2, text2 = self.execute([exe] + one.args(), 120, self.environment(0))
                if rc2 is None or rc2 != 0:
                    return self.report(one, text + '\n--- alone:\n' + text2, 'the case does not end')
            elif r.unit.src == 'main_threads.cpp':
                rc2, text2 = self.execute([exe] + r.args(), 200, self.environment(0))
                if rc2 != 0:
                    return self.report(r, text2, 'the case does not end')
            with self.lock:
                self.error = self.error or 'out of time in %s %s' % (r.unit.name, ' '.join(r.args()))
            return
        if rc == 3:
            with self.lock:
                self.error = self.error or 'bad usage: %s %s\n%s' % (r.unit.name, r.args(), text[-500:])
            return
        if rc != 0:
            m = re.findall(r'^case kind=.* case=(-?\d+) ', text, re.M)
            one = Run(r.unit, r.profile, int(m[-1]), 1, r.seed, r.digest) if m else r
            return self.report(one, text, summary(text, rc))
        with open(out) as f:
            st = json.load(f)
        with self.lock:
            st['unit'] = r.unit.name
            self.stats.append(st)
            if r.digest is not None:
                for m in re.finditer(r'^DIGEST (\d+) (\w+)$', text, re.M):
                    self.digests.setdefault((r.digest, r.profile, r.seed, int(m.group(1))), {}).setdefault(m.group(2), []).append(r)

    def report(self, r, text, what):
        for k in known_findings(self.pid):
            if k['kind'] == r.unit.name.split('.')[0] and re.search(k['match'], what):
                with self.lock:
                    self.known.append(k['what'])
                return
        with self.lock:
            if self.failure:
                return
            self.failure = (r, text, what)

    def compare_digests(self):
        for (group, profile, seed, case), by in sorted(self.digests.items(), key=lambda x: x[0][3]):
            if len(by) > 1:
                runs = [v[0] for v in by.values()]
                r = runs[1]
                what = 'case %d of %s: results differ between the builds %s' % (case, group, ' | '.join('%s: %s' % (d, ' '.join(x.unit.name for x in rs)) for d, rs in by.items()))
                return self.report(Run(r.unit, profile, case, 1, seed, group), what, what)

    def replay(self):
        r, text, what = self.failure
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.sh' % self.pid)
        lines = text.strip().split('\n')
        if len(lines) > 220:
            lines = lines[:120] + ['...'] + lines[-100:]
        with open(path, 'w') as f:
            f.write('#!/bin/bash\n# %s: %s\nset -e\nd=$(mktemp -d); trap "rm -r $d" EXIT\n' % (self.pid, what.replace('\n', ' ')))
            if 'does not compile' in what:
                f.write(' '.join(self.aarch64()) + '\nexit\n')
            f.write(' '.join("'%s'" % c if any(x in c for x in ' ()') else c for c in r.unit.command('$d/x')).replace("'$d/x'", '$d/x') + '\n')
            e = self.environment(1)
            f.write(' '.join('%s=%s' % (k, e[k]) for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS', 'TSAN_OPTIONS', 'MSAN_OPTIONS')) + ' $d/x ' + ' '.join(r.args()) + '\n')
            f.write(''.join('# %s\n' % l for l in lines))
        os.chmod(path, 0o755)
        return path

    def main(self):
        units = plan(self.pid, self.tier == 'thorough')
        with ThreadPoolExecutor(JOBS) as builders, ThreadPoolExecutor(JOBS) as runners:
            # One pool of slots for compilers and workloads.
            slots = threading.Semaphore(JOBS)

            def job(f, *a):
                with slots:
                    try:
                        return f(*a)
                    except Exception as e:  # noqa
                        with self.lock:
                            self.error = self.error or 'internal: %r' % e
            waiting = []

            def whole(u):
                exe = job(self.build, u)
                fs = [runners.submit(job, self.run, r, exe) for r in u.runs]
                with self.lock:
                    waiting.append((exe, fs))
            for f in [builders.submit(whole, u) for u in units]:
                f.result()
            for _, fs in waiting:
                for f in fs:
                    f.result()
        if not self.failure and not self.error:
            self.compare_digests()
        if not self.failure and self.error:
            print('ERROR: ' + self.error)
            return 2
        self.evidence(units)
        for k in sorted(set(self.known)):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.failure:
            path = self.replay()
            r, text, what = self.failure
            print('\n'.join(text.strip().split('\n')[:40])[:4000])
            print('failed: %s %s: %s' % (r.unit.name, ' '.join(r.args()), what))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        tot = self.total
        print('%s %s: %d cases, %d distinct and non-trivial, %d operations, %d checks of %d programs in %.1f s' %
              (self.pid, self.tier, tot['cases'], tot['distinct'], tot['ops'], tot['checks'], len(units), time.time() - self.t0))
        return 0

    def evidence(self, units):
        tot = {}
        feat, by_unit, samples = {}, {}, []
        for st in self.stats:
            for k, v in st.items():
                if isinstance(v, int):
                    tot[k] = tot.get(k, 0) + v
            for k, v in st['feat'].items():
                feat[k] = feat.get(k, 0) + v
            by_unit[st['unit']] = by_unit.get(st['unit'], 0) + st['cases']
            if len(samples) < 12 and st['samples'] and not any(s.startswith(st['unit'] + ':') for s in samples):
                samples.append(st['unit'] + ': ' + st['samples'][0])
        self.total = {k: tot.get(k, 0) for k in ('cases', 'distinct', 'ops', 'checks', 'elements')}
        rules = [RULES[p] for p in sorted({r.profile for u in units for r in u.runs}) if p in RULES]
        if any(u.src in ('main_engine.cpp', 'main_multi.cpp') for u in units):
            rules.insert(0, RULE)
        cov = dict(evaluations=tot.get('cases', 0), distinct_nontrivial=tot.get('distinct', 0), rule='; '.join(rules), samples=samples or ['none: stopped at the first violation'],
                   operations=tot.get('ops', 0), full_comparisons_with_model=tot.get('checks', 0), elements_compared=tot.get('elements', 0),
                   monitored=dict(hash_calls=tot.get('hash_calls', 0), key_comparisons=tot.get('eq_calls', 0), allocations=tot.get('allocs', 0),
                                  constructions=tot.get('constructed', 0), moves=tot.get('moves', 0), injected_faults=tot.get('faults', 0)),
                   situations_reached=dict(sorted(feat.items())), cases_by_program=dict(sorted(by_unit.items())))
        if self.digests:
            cov['compared_digests'] = len(self.digests)
            cov['builds_that_the_emulation_cannot_compile'] = sorted(self.skipped)
            cov['builds_per_digest'] = max(sum(len(v) for v in by.values()) for by in self.digests.values())
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level='fault_enumeration' if self.pid == 'P10' else 'exploration', coverage=cov,
                  assumptions=['sanitizers and the standard library of the installed compilers', 'the reference models and monitors in /verif/harness'],
                  wall_s=round(time.time() - self.t0, 1), violations=1 if self.failure else 0)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def summary(text, rc):
    for pat in (r'MONITOR-FAIL .*', r'.*runtime error: .*', r'.*ERROR: \w+Sanitizer.*', r'.*WARNING: \w+Sanitizer.*', r'.*Assertion.*', r'.*terminate called.*'):
        m = re.search(pat, text)
        if m:
            return m.group(0).strip()[:300]
    return 'ends with status %s' % rc


def known_findings(pid):
    path = os.path.join(HERE, 'known-findings.txt')
    found = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\w+) kind=(\S+) match=/(.*)/ (.*)', l)
            if m and m.group(1) == pid:
                found.append(dict(kind=m.group(2), match=m.group(3), what=m.group(4)))
    return found


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = Checker(pid, tier)
    try:
        rc = c.main()
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
