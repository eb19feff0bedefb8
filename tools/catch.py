#!/usr/bin/env python3
"""Runs the check of each planted bug's property (or of the given properties) against a scratch copy with the bug.
usage: catch.py [-p P01,P02] [ID...]"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props = None
if args[:1] == ['-p']:
    props = args[1].split(',')
    args = args[2:]
for i in args or sorted(os.listdir(HERE + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, i)))
    d = tempfile.mkdtemp(prefix='catch-')
    try:
        subprocess.check_call('cp -a /repo %s/repo && cp -a %s %s/verif && rm -r -f %s/verif/seeded && git -C %s/repo apply %s/seeded/%s/patch.diff' % (d, HERE, d, d, d, HERE, i), shell=True)
        for p in props or [meta['property']]:
            t = time.time()
            r = subprocess.run(['python3', d + '/verif/check.py', p, 'quick'], env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED=os.environ.get('VERIF_SEED', '1')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            how = [l for l in r.stdout.split('\n') if l.startswith('failed:')]
            print('%-34s %s %s %5.1f s %s' % (i, p, {0: 'MISSED', 1: 'caught', 2: 'ERROR'}.get(r.returncode, r.returncode), time.time() - t, (how or r.stdout.strip().split('\n')[-1:] or [''])[0][:150]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
