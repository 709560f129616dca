#!/usr/bin/env python3
"""check.py <property>: decides one property by simulated runs (see DESIGN.md).
Exit 0: held in every run; 1 with a VIOLATION line; anything else is an error of the check."""
import json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import cbuild

CHECKS = json.load(open(os.path.join(VERIF, 'checks.json')))
PYTHON = '/opt/veriftools/pyvenv/bin/python3'
PYSIM = os.path.join(VERIF, 'pysim', 'pysim.py')


class CheckError(Exception):
    pass


def run_chunk(cmd, stats, limit, found):
    """found[0]: when a violation was reported elsewhere; a chunk still at work some time after that is not waited for."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    end = time.time() + limit + 240
    while True:
        try:
            out, err = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            enough = found and time.time() > found[0] + 15
            if enough or time.time() > end:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                if enough:
                    return None
                raise CheckError('%s\ndoes not end' % ' '.join(cmd))
    if p.returncode not in (0, 1) or not os.path.exists(stats):
        raise CheckError('%s\nended with %s\n%s\n%s' % (' '.join(cmd), p.returncode, out.decode(errors='replace')[-2000:], err.decode(errors='replace')[-4000:]))
    s = json.load(open(stats))
    os.unlink(stats)
    s['stderr'] = err.decode(errors='replace')
    if (p.returncode == 1) != bool(s['violation']):
        raise CheckError('chunk exit status and its statistics disagree')
    return s


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
            if m and m[1] == prop:
                out.append((m[2], m[3].strip()))
    return out


def main():
    prop = sys.argv[1]
    conf = CHECKS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    workers = int(os.environ.get('VERIF_WORKERS', os.cpu_count() or 4))
    t0 = time.time()
    plan = conf[tier] if tier in conf else conf['quick']
    replays = os.path.join(VERIF, 'replays')
    scratch = os.path.join(VERIF, 'build', 'run-%s-%d' % (prop, os.getpid()))
    evidence = os.path.join(VERIF, 'evidence')
    for d in (replays, scratch, evidence):
        os.makedirs(d, exist_ok=True)
    try:
        exes = {}
        if conf['engine'] == 'c':
            exes = cbuild.build([c for c, _, _ in plan], workers)
            def engine(config): return [exes[config]]
        else:
            if conf.get('solvers'):
                exes = cbuild.build([x[1] for x in conf['solvers']], workers)
                os.environ['PYSIM_SOLVERS'] = json.dumps({x[0]: exes[x[1]] for x in conf['solvers']})
            def engine(config): return [PYTHON, PYSIM, '--config', config]
        t_build = time.time() - t0
        limit = float(conf.get('limit', {}).get(tier, 300 if tier == 'quick' else 3000))
        jobs = []
        for config, total, chunk in plan:
            for a in range(0, total, chunk):
                jobs.append((config, a, min(total, a + chunk)))
        # long ones first would need knowledge; interleave the configurations instead
        jobs.sort(key=lambda j: (j[1] / max(c[1] for c in plan if c[0] == j[0]), j[0]))
        stop = []
        results = []

        def one(job):
            config, a, b = job
            left = limit - (time.time() - t0)
            if stop or left < 1:
                return job, None
            stats = os.path.join(scratch, '%s-%d.json' % (config, a))
            s = run_chunk(engine(config) + ['run', prop, str(seed), str(a), str(b), replays, stats, '%.1f' % left], stats, left, stop)
            if s and s['violation']:
                stop.append(time.time())
            return job, s
        with ThreadPoolExecutor(workers) as pool:
            for job, s in pool.map(one, jobs):
                if s:
                    results.append((job, s))
        # gate: a violation must come back, the same way, in a fresh process
        status, lines = 0, []
        known = known_findings(prop)
        viol = 0
        for job, s in results:
            if not s['violation']:
                continue
            path = s['violation']
            viol += 1
            p = subprocess.run(engine(job[0]) + ['replay', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED='77'))
            out = p.stdout.decode(errors='replace')
            if p.returncode != 1 or 'same_class=1' not in out or 'same_hash=1' not in out:
                raise CheckError('violation does not replay: %s\n%s\n%s' % (path, out, p.stderr.decode(errors='replace')))
            print(s['stderr'].strip())
            print(out.strip())
            print('replay with: %s%s replay %s' % ('PYSIM_SOLVERS=\'%s\' ' % os.environ['PYSIM_SOLVERS'] if conf.get('solvers') else '', ' '.join(engine(job[0])), path))
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
            status = 1
        for match, what in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        write_evidence(prop, conf, tier, seed, plan, results, viol, t0, t_build, evidence)
        for l in lines[:1]:
            print(l)
        return status
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(prop, conf, tier, seed, plan, results, viol, t0, t_build, evidence):
    wall = time.time() - t0
    hashes, fired, ends, probes = set(), {}, {}, {}
    runs = cases = asked = 0
    sim_us = 0
    per = {}
    samples = []
    for (config, a, b), s in results:
        hashes.update(s['hashes'])
        runs += s['runs']; cases += s['cases']; asked += s['asked']; sim_us += s['sim_us']
        p = per.setdefault(config, {'cases': 0, 'runs': 0})
        p['cases'] += s['cases']; p['runs'] += s['runs']
        for k, v in s['fired'].items():
            f = fired.setdefault(k, [0, 0]); f[0] += v[0]; f[1] += v[1]
        for k, v in s['ends'].items():
            ends[k] = ends.get(k, 0) + v
        for k, v in s.get('probes', {}).items():
            probes[k] = probes.get(k, 0) + v
        if s['sample'] and len(samples) < 3 and a == 0:
            samples.append(s['sample'])
    planned = sum(c[1] for c in plan)
    search = max(wall - t_build, 0.001)
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(hashes),
        'rule': conf['rule'],
        'samples': samples or ['none'],
        'cases': cases,
        'cases_planned': planned,
        'seeds_per_hour': round(cases / search * 3600),
        'runs_per_hour': round(runs / search * 3600),
        'simulated_hours': round(sim_us / 3.6e9, 3),
        'faults_fired': {k: {'times': v[0], 'in_runs': v[1]} for k, v in sorted(fired.items()) if v[0]},
        'fault_kinds_never_fired': sorted(k for k, v in fired.items() if not v[0]),
        'ends_of_runs': {k: v for k, v in sorted(ends.items()) if v},
        'per_configuration': per,
        'distinct_measure': conf['measure'],
        'real_components': conf['real'],
        'stub_components': conf['stub'],
        'build_s': round(t_build, 1),
    }
    if probes:
        cov['probes'] = probes
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': conf['assumptions'], 'wall_s': round(wall, 2), 'violations': viol}
    path = os.path.join(evidence, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(doc, f, indent=1)
    os.rename(path + '.tmp', path)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception as e:
        print('ERROR of the check: %s' % e)
        sys.exit(2)
