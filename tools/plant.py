#!/usr/bin/env python3
"""plant.py [-n] ID...: apply seeded/ID to a scratch copy of /repo, confirm that it builds, passes the
tests, that its demonstration tells the two trees apart, and run the property's check against it."""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd, env=None, t=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t,
                           env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ''


def main():
    a = sys.argv[1:]
    nocheck = '-n' in a
    nodemo = '-c' in a
    ids = [x for x in a if not x.startswith('-')] or sorted(os.listdir(ROOT + '/seeded'))
    for i in ids:
        d = os.path.join(ROOT, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        w = tempfile.mkdtemp(prefix='plant-')
        try:
            t = w + '/repo'
            shutil.copytree('/repo', t, symlinks=True, ignore=shutil.ignore_patterns('_build'))
            out = []
            run('cp -a %s %s/d && rm -f %s/d/*.diff %s/d/meta.json' % (d, w, w, w), w)
            if not nodemo:
                rc, o = run('bash %s/d/demo.sh' % w, t)
                out.append('demo clean %d' % rc)
                if rc:
                    out.append(o[-600:])
            rc, o = run('git apply %s/patch.diff' % d, t)
            if rc:
                print(i, 'DOES NOT APPLY', o)
                continue
            if not nodemo:
                rc, o = run('cmake -S . -B _build -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '
                            '-DBUILD_TESTS=ON -DBUILD_SAMPLE=ON -DCMAKE_C_FLAGS=-Wno-error -Wno-dev && ninja -C _build && cd _build && ./squash_tests', t)
                out.append('build+tests %d' % rc)
                if rc:
                    out.append(o[-600:])
                rc, o = run('bash %s/d/demo.sh' % w, t)
                out.append('demo planted %d (%s)' % (rc, ' '.join([l for l in o.split('\n') if 'FAILED' in l or 'ERROR' in l][:1])[:150]))
            if not nocheck:
                t0 = time.time()
                rc, o = run('python3-vt %s/check.py %s' % (ROOT, meta['property']), ROOT, dict(VERIF_REPO=t, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
                out.append('check %s: %s %.0fs: %s' % (meta['property'], {0: 'MISSED', 1: 'caught'}.get(rc, 'rc %d' % rc), time.time() - t0,
                                                     ' | '.join([l for l in o.split('\n') if l][-2:])[:260]))
            print(i, '\n   '.join([''] + out), flush=True)
        finally:
            shutil.rmtree(w)


main()
