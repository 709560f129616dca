#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description in tools/bugs_*.py, and confirms it in a scratch copy of /repo:
it builds, the stable tests pass, the demonstration passes without and fails with it; then tells which checks see it.
usage: plant.py [--check] [--also C01,C02] id..."""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
COPY = os.environ.get('PLANT_COPY', '/tmp/rp')
REPO = os.environ.get('PLANT_REPO', '/repo')


def bugs():
    out = {}
    for f in sorted(glob.glob(HERE + '/bugs_*.py')):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in out
            out[b['id']] = b
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.isdir(COPY):
        shutil.copytree(REPO, COPY, symlinks=True)
        shutil.rmtree(COPY + '/_build', True)
    sh(['git', '-C', COPY, 'checkout', '-q', '--', '.'])
    a, b = (sh(['git', '-C', d, 'rev-parse', 'HEAD']).stdout for d in (COPY, REPO))
    assert a == b, 'the scratch copy is old'


def original(copy, diff):
    """Each removed line must be one of the original repository."""
    base = os.environ.get('PLANT_BASE', 'f4f664d')
    bad, removed, f, n = [], 0, None, 0
    for l in diff.splitlines():
        if l.startswith('+++'):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l)[1])
        elif l.startswith('-') and not l.startswith('---'):
            who = sh(['git', '-C', copy, 'blame', '-s', '-L%d,%d' % (n, n), 'HEAD', '--', f]).stdout
            anc = sh(['git', '-C', copy, 'merge-base', '--is-ancestor', who.split()[0].lstrip('^'), base]).returncode == 0
            removed += 1
            if not anc:
                bad.append(n)
            n += 1
        elif l.startswith(' '):
            n += 1
    return ('NOT ORIGINAL %s' % bad if bad else '') + ('' if removed else 'NO LINE REMOVED')


def demo(d):
    r = sh(['bash', d + '/demo.sh'], cwd=COPY, timeout=300)
    return r.returncode, r.stdout[-600:]


def main(args):
    check = '--check' in args
    also = []
    if '--also' in args:
        i = args.index('--also')
        also = args[i + 1].split(',')
        del args[i:i + 2]
    all_ = bugs()
    names = [a for a in args if not a.startswith('-')] or sorted(all_)
    for name in names:
        b = all_[name]
        d = os.path.join(VERIF, 'seeded', name)
        os.makedirs(d, exist_ok=True)
        fresh()
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(COPY, 'src/HybridSolver/main', f)
            t = open(p, newline='').read()
            if t.count(old) != 1:
                print(name, 'EDIT matches', t.count(old), 'times in', f, ':', old[:60])
                ok = False
                break
            open(p, 'w', newline='').write(t.replace(old, new))
        if not ok:
            fresh()
            continue
        diff = sh(['git', '-C', COPY, 'diff']).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']), open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec %s -B "$(dirname "$0")/demo.py"\n' % b.get('python', '/usr/bin/python3'))
        for l in b.get('libs', ['demolib.py']):
            shutil.copy(os.path.join(HERE, l), d)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        for x in os.listdir(d):
            if x not in ['patch.diff', 'meta.json', 'demo.sh', 'demo.py'] + [os.path.basename(l) for l in b.get('libs', ['demolib.py'])]:
                print('extra file', d, x)
        # tests on the patched copy
        h = COPY + '-harness'
        shutil.rmtree(h, True)
        shutil.copytree('/opt/vp', h)
        for f in ('build.sh', 'test.sh', 'harness/common.sh', 'harness/inject.cmake', 'harness/gen_driver.py', 'results.py'):
            p = os.path.join(h, f)
            t = open(p).read().replace('/opt/vp', h).replace('/repo', COPY)
            open(p, 'w').write(t)
        r = sh(['bash', h + '/build.sh'])
        built = r.returncode == 0
        sh(['bash', h + '/test.sh', h + '/o.json'])
        passed = json.load(open(h + '/o.json'))['passed']
        shutil.rmtree(h, True)
        t0 = time.time()
        code, text = demo(d)
        t1 = time.time()
        verdicts = [l for l in [original(COPY, diff)] if l]
        if check:
            for c in [b['property']] + also:
                q = sh(['python3', VERIF + '/check.py', c], env=dict(os.environ, VERIF_REPO=COPY, VERIF_SEED='1', VERIF_TIER='quick'))
                v = re.findall(r'VIOLATION property=\S+ .*', q.stdout)
                verdicts.append('%s:%s' % (c, 'CAUGHT' if q.returncode == 1 and v else 'missed' if q.returncode == 0 else 'ERROR %d %s' % (q.returncode, q.stdout[-300:])))
        fresh()
        code0, text0 = demo(d)
        good = built and len(passed) == 24 and code not in (0,) and code0 == 0
        print('%-22s %s built=%s tests=%d patched=%s (%.0f s) clean=%s %s' % (name, 'OK ' if good else 'BAD', built, len(passed), code, t1 - t0, code0, ' '.join(verdicts)), flush=True)
        if not good or '-v' in args:
            print('   patched:', text.strip().replace('\n', '\n      '), '\n   clean:', text0.strip().replace('\n', '\n      '))


if __name__ == '__main__':
    main(sys.argv[1:])
