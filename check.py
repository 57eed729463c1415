#!/usr/bin/env python3
"""check.py <PID> [--tier quick|thorough] : builds from /repo, runs the property, writes evidence/<PID>.json.
exit 0 held / 1 VIOLATION / 2 machinery error."""
import json, os, subprocess, sys, time, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'pbt'))
import build

RULES = json.load(open(os.path.join(V, 'rules.json')))
KF = os.path.join(V, 'known_findings.txt')

def known(pid):
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l[len('known: property=%s ' % pid):])
    return out

def evidence(pid, tier, seed, cov, wall, violations, assumptions):
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov, wall_s=round(wall, 2), violations=violations, assumptions=assumptions)
    p = os.path.join(V, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)

# How far the quick tier of each property is multiplied so that the cheap ones use their share of the time too.
QUICK = dict(P01=8, P02=6, P03=5, P04=6, P05=4, P06=2, P07=4, P08=2, P09=1.5, P10=1.5, P11=6, P12=4, P13=2, P14=4, P15=5, P16=4, P17=16,
             P18=1.5, P19=1.5, P20=5, P21=10, P22=3, P23=1.5, P24=3, P27=1.5)

ASAN = 'detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:handle_segv=1:exitcode=66:abort_on_error=0:symbolize=1:quarantine_size_mb=16'

def run_c(pid, tier, seed):
    t0 = time.time()
    binary = build.prop_binary(pid)
    rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True)
    stats = tempfile.mktemp(prefix='stats')
    cap = '420' if tier == 'quick' else '3000'
    cmd = [binary, '--prop', pid, '--seed', str(seed), '--tier', tier, '--out', stats, '--replaydir', rdir, '--maxsec', os.environ.get('VERIF_MAXSEC', cap), '--workers', os.environ.get('VERIF_WORKERS', '8')]
    if os.environ.get('VERIF_SHRINKSEC'): cmd += ['--shrinksec', os.environ['VERIF_SHRINKSEC']]
    scale = float(os.environ.get('VERIF_SCALE') or 1) * (QUICK.get(pid, 1) if tier == 'quick' else 1)
    if scale != 1: cmd += ['--scale', '%g' % scale]
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS='print_stacktrace=0:exitcode=66', LC_ALL='C', MALLOC_PERTURB_='0')
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    out = r.stdout
    st = json.load(open(stats)) if os.path.exists(stats) else {'workers': [], 'violation': 'machinery'}
    if os.path.exists(stats): os.unlink(stats)
    W = st['workers']
    labels, persub, samples = {}, {}, []
    for w in W:
        for k, v in w['labels'].items(): labels[k] = labels.get(k, 0) + v
        for k, v in w['persub'].items(): persub[k] = persub.get(k, 0) + v
    for i in range(12):
        for w in W:
            if i < len(w['samples']) and len(samples) < 10: samples.append(w['samples'][i][:1500])
    cov = dict(evaluations=sum(w['evals'] for w in W), distinct_nontrivial=sum(w['nontriv'] for w in W), rule=RULES.get(pid, ''),
               samples=samples, discarded=sum(w['discarded'] for w in W), cases_per_check=persub, classes=labels,
               time_capped_workers=sum(1 for w in W if w['timedout']))
    rc, lines = r.returncode, out.strip().splitlines()
    return rc, out, cov, time.time() - t0

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if os.path.exists(os.path.join(V, 'pyprops', pid + '.py')):
        sys.path.insert(0, os.path.join(V, 'pyprops'))
        import pyrunner
        rc, out, cov, wall = pyrunner.run(pid, tier, seed, RULES.get(pid, ''))
    else:
        rc, out, cov, wall = run_c(pid, tier, seed)
    o = out.strip(); print(o if len(o) < 6500 else o[:3000] + '\n ... \n' + o[-3000:])
    viol = 0
    replay = None
    for l in out.splitlines():
        if l.startswith('REPLAY '): replay = l[7:].strip()
    if rc == 1 and replay:
        viol = 1
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    evidence(pid, tier, seed, cov, wall, viol, ['the C compiler, sanitizers and libm are correct', 'generated inputs stay in the domain described by rule'])
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs' % (pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], wall))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if rc != 0:
        print('machinery error: engine exit code', rc)
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
