#!/usr/bin/env python3
"""Makes small random changes in a scratch copy of the library, drops those that do not build or fail the tests, and runs all monitors in small
amounts (check.py ALL) against the others; prints the ones that nothing notices. usage: mutate.py SEED COUNT OUT [FILES...]"""
import os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), open(sys.argv[3], 'a', buffering=1)
files = sys.argv[4:] or ['tpp/detail/dense_table.hpp', 'tpp/detail/swiss_table.hpp', 'tpp/detail/table_common.hpp', 'tpp/detail/utility.hpp']
rnd = random.Random(seed)
SWAPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '),
         (r' && ', ' || '), (r' \|\| ', ' && '), (r'\+\+', '--'), (r'--', '++'), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'if \((?!constexpr)', 'if (!'), (r'std::move\(', '('),
         (r'\bother\.', ''), (r'\bfirst\b', 'last'), (r'\bprev\b', 'next'), (r'\bnext\b', 'prev'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'copy_assignment', 'move_assignment'), (r'move_assignment', 'copy_assignment'), (r'container_swap', 'container_move_assignment'), (r'std::forward<\w+>\(', '(')]


def mutants(f):
    ls = open('/repo/' + f).read().split('\n')
    in_comment = False
    for i, l in enumerate(ls):
        s = l.strip()
        if s.startswith('/*') and '*/' not in s: in_comment = True
        if in_comment:
            if '*/' in s: in_comment = False
            continue
        if not s or s.startswith(('//', '#', '*', '/*', 'using ', 'template', 'static_assert', 'TPP_ASSERT', 'friend class', 'public:', 'private:', 'namespace')): continue
        if re.match(r'^[\w:>*()\[\]\-.&<]+.*;$', s) and not re.match(r'^(return|const|auto|static|constexpr|\[\[|typename|using|bool|size_type|iterator|friend|inline|template|else|break|swiss|dense)\b', s) and '{' not in s:
            yield i, l, l.replace(s, ';')  # drop a statement
        for a, b in SWAPS:
            for m in re.finditer(a, l):
                if '#include' in l or 'operator' in l[max(0, m.start() - 9):m.start()]: continue
                yield i, l, l[:m.start()] + b + l[m.end():]


pool = [(f, ) + m for f in files for m in mutants(f)]
rnd.shuffle(pool)
d = tempfile.mkdtemp(prefix='mutate-')
r = d + '/repo'
subprocess.check_call('cp -a /repo %s && mkdir %s/verif && cp -a %s/check.py %s/harness %s/known-findings.txt %s/verif/' % (r, d, HERE, HERE, HERE, d), shell=True)
sh = lambda c, t: subprocess.run(c, shell=True, cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
sh('rm -r -f _build; CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DTPP_TESTS=ON', 300)
n = tried = 0
try:
    for f, i, a, b in pool:
        if n >= count: break
        tried += 1
        ls = open('/repo/' + f).read().split('\n')
        ls[i] = b
        open(r + '/' + f, 'w').write('\n'.join(ls))
        try:
            if sh('ninja -C _build', 300).returncode == 0 and '100% tests passed' in sh('ctest --test-dir _build -j8 --timeout 20 --stop-on-failure', 300).stdout:
                n += 1
                t = time.time()
                p = subprocess.run(['python3', d + '/verif/check.py', 'ALL', 'quick'], env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=str(rnd.randrange(1000))), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=1500)
                how = [l for l in p.stdout.split('\n') if l.startswith('failed:')]
                res = {0: 'ALIVE', 1: 'killed', 2: 'ERROR'}.get(p.returncode, '?')
                out.write('%s %s:%d %.0fs | %s | -> | %s | %s\n' % (res, f, i + 1, time.time() - t, a.strip(), b.strip(), (how or p.stdout.strip().split('\n')[-1:])[0][:140]))
            else:
                out.write('tests %s:%d | %s\n' % (f, i + 1, b.strip()[:100]))
        except subprocess.TimeoutExpired:
            out.write('timeout %s:%d | %s\n' % (f, i + 1, b.strip()[:100]))
        shutil.copy('/repo/' + f, r + '/' + f)
finally:
    shutil.rmtree(d, ignore_errors=True)
out.write('done: %d tried of %d, %d survive the tests\n' % (tried, len(pool), n))
