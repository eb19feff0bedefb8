#!/usr/bin/env python3
"""Plants bugs from a specification file (a Python list BUGS of dicts) into scratch copies of /repo, confirms them and keeps them in seeded/.
usage: seed.py SPEC.py [ID...]      (then: tools/catch.py ID... runs the checks against them)
A dict has: id, property, edits [(file, old, new)], needs, breaks, demo (C++ source), flags (compiler flags of the demo), optional cxx
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '8d58ca3'
DEMO = '''#!/bin/bash
# Builds and runs demo.cpp against the headers of the current directory; exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 1
trap 'rm -r "$d"' EXIT
%(cxx)s -std=c++17 -O1 -g -w %(flags)s -I. "$here/demo.cpp" -o "$d/demo" -pthread || exit 2
%(env)stimeout 120 "$d/demo"
'''


def sh(cmd, cwd, timeout=400):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout


def one(b):
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        sh('cp -a /repo %s/repo' % d, '/')
        r = d + '/repo'
        orig_lines = {}
        for f, old, new in b['edits']:
            s = open(r + '/' + f).read()
            if s.count(old) != b.get('count', 1):
                return b['id'], 'edit matches %d times in %s: %r' % (s.count(old), f, old[:60])
            open(r + '/' + f, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', r)
        # the changed lines have to be lines of the original repository
        touched = 0
        for f in {e[0] for e in b['edits']}:
            rc, hunks = sh('git diff -U0 -- %s' % f, r)
            rc, blame = sh('git blame -s HEAD -- %s' % f, r)
            bl = blame.split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', hunks, re.M):
                for i in range(int(m.group(1)), int(m.group(1)) + int(m.group(2) or 1)):
                    if bl[i - 1].startswith('^') or subprocess.call(['git', '-C', r, 'merge-base', '--is-ancestor', bl[i - 1].split()[0].lstrip('^'), BASE]) == 0:
                        touched += 1
                    else:
                        return b['id'], 'changes a line that is not original: ' + bl[i - 1]
        if not touched:
            return b['id'], 'changes no original line'
        out = os.path.join(d, 'seeded')
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.cpp', 'w').write(b['demo'].lstrip('\n'))
        fl = b.get('flags', '-fsanitize=address,undefined -fno-sanitize-recover=all')
        open(out + '/demo.sh', 'w').write(DEMO % dict(cxx=b.get('cxx', 'g++'), flags=fl, env=b.get('env', '')))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        rc, o = sh('bash %s/demo.sh' % out, r)
        if rc == 0:
            return b['id'], 'demo passes with the patch'
        if rc == 2:
            return b['id'], 'demo does not build:\n' + o[-1500:]
        rc, o2 = sh('bash %s/demo.sh' % out, '/repo')
        if rc != 0:
            return b['id'], 'demo fails on the unchanged tree:\n' + o2[-1500:]
        rc, t = sh('rm -r _build; CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DTPP_TESTS=ON >/dev/null && ninja -C _build >/dev/null && ctest --test-dir _build -j4 --timeout 100 2>&1 | tail -8', r)
        if '100% tests passed, 0 tests failed out of 28' not in t:
            return b['id'], 'tests: ' + t[-900:]
        dst = os.path.join(HERE, 'seeded', b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return b['id'], 'kept (demo: %s)' % (re.findall(r'.*(?:Sanitizer|runtime error|FAIL|Assert|terminate).*', o) or [o[-100:]])[0][:140]
    except subprocess.TimeoutExpired:
        return b['id'], 'timeout'
    finally:
        shutil.rmtree(d, ignore_errors=True)


bugs = runpy.run_path(sys.argv[1])['BUGS']
if len(sys.argv) > 2:
    bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
with ThreadPoolExecutor(6) as ex:
    for i, m in ex.map(one, bugs):
        print(i, m, flush=True)
