"""Runs a Python property (pyprops/<PID>.py) in worker processes.  run() -> (rc, output, coverage, wall seconds)
pyrunner.py --replay FILE re-runs a recorded case."""
import json, os, shutil, subprocess, sys, tempfile, time
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import pybuild

def env(scratch):
    e = dict(os.environ, LD_PRELOAD=pybuild.libasan(), PYTHONMALLOC='malloc', PYTHONNOUSERSITE='1', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', OPENBLAS_NUM_THREADS='1', TMPDIR=scratch,
             ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:handle_segv=1:exitcode=66:abort_on_error=0:symbolize=1:quarantine_size_mb=16:detect_stack_use_after_return=0:verify_asan_link_order=0')
    e.pop('PYTHONPATH', None); return e

def run(pid, tier, seed, rule):
    t0 = time.time()
    d, shim = pybuild.bindings()
    T = tempfile.mkdtemp(prefix='verifpy')
    rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True)
    nw = int(os.environ.get('VERIF_WORKERS', '8')); cap = float(os.environ.get('VERIF_MAXSEC', '240' if tier == 'quick' else '3000')); scale = os.environ.get('VERIF_SCALE', '1')
    tool = [pybuild.PY, H + '/pbtpy.py']
    out = ''; rc = 0
    try:
        ps = []
        for w in range(nw):
            os.makedirs('%s/w%d' % (T, w))
            ps.append(subprocess.Popen(tool + ['run', pid, d, shim, str(seed), tier, str(w), str(nw), '%s/map%d' % (T, w), '%s/out%d' % (T, w), str(cap), scale],
                      cwd='%s/w%d' % (T, w), env=env('%s/w%d' % (T, w)), stdout=open('%s/so%d' % (T, w), 'w'), stderr=open('%s/se%d' % (T, w), 'w')))
        bad = None
        while True:
            rcs = [p.poll() for p in ps]
            b = [w for w, r in enumerate(rcs) if r not in (None, 0)]
            if b: bad = b[0]; break
            if None not in rcs: break
            if time.time() - t0 > cap + 300: bad = rcs.index(None); break
            time.sleep(0.1)
        for p in ps:
            if p.poll() is None: p.kill(); p.wait()
        W = [json.load(open('%s/out%d' % (T, w))) for w in range(nw) if os.path.exists('%s/out%d' % (T, w))]
        if bad is not None:
            err = open('%s/se%d' % (T, bad), errors='replace').read()
            r = ps[bad].returncode
            sys.path.insert(0, H); import pbtpy
            if not os.path.exists('%s/map%d' % (T, bad)):
                return 2, 'worker did not start: exit %d\n%s' % (r, err[-3000:]), cover(W, rule), time.time() - t0
            sh = pbtpy.Shared('%s/map%d' % (T, bad))
            names = json.loads(subprocess.run([sys.executable, '-c', 'import re,sys,json; print(json.dumps(re.findall(r"^\\s*\\(\'(\\w+)\', *\\d+, *\\d+", open(sys.argv[1]).read(), re.M)))', '%s/%s.py' % (H, pid)], stdout=subprocess.PIPE, text=True).stdout)
            sub = names[sh.q[1]] if sh.q[1] < len(names) else '?'
            if sh.q[3] in (1, 3):                     # not within a case: the engine itself failed
                return 2, 'worker failed outside of a case: exit %d\n%s' % (r, err[-3000:]), cover(W, rule), time.time() - t0
            msg = sh.msg() if r == 3 and sh.q[3] == 2 else ('endless run' if r in (-14, -9) else 'crash of the interpreter (exit %d)' % r)
            case = dict(prop=pid, sub=sub, case=sh.q[2], seed=seed, choices=sh.choices(), msg=msg)
            out += 'failing case of %s: %s\n' % (sub, msg)
            if r != 3: out += err[-2500:] + '\n'
            cf = T + '/case'; json.dump(case, open(cf, 'w')); os.makedirs(T + '/s')
            try: subprocess.run(tool + ['shrink', pid, d, shim, cf, T + '/min', '60' if tier == 'quick' else '300'], cwd=T + '/s', env=env(T + '/s'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=500)
            except subprocess.TimeoutExpired: pass
            rep = '%s/%s-%s-%d.replay' % (rdir, pid, sub, seed)
            m = json.load(open(T + '/min')) if os.path.exists(T + '/min') else case
            json.dump(m, open(rep, 'w')); json.dump(m, open(cf, 'w')); os.makedirs(T + '/r')
            q = subprocess.run(tool + ['replay', pid, d, shim, cf], cwd=T + '/r', env=env(T + '/r'), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
            out += 'minimal (%d choices): %s\n%s\nREPLAY %s\n' % (len(m['choices']), m['msg'], q.stderr[-2500:], rep)
            rc = 1
        return rc, out, cover(W, rule), time.time() - t0
    finally:
        shutil.rmtree(T, ignore_errors=True)

def cover(W, rule):
    labels, persub, samples = {}, {}, []
    for w in W:
        for k, v in w['labels'].items(): labels[k] = labels.get(k, 0) + v
        for k, v in w['persub'].items(): persub[k] = persub.get(k, 0) + v
        for s in w['samples']:
            if not any(x.split(':')[0] == s.split(':')[0] for x in samples): samples.append(s)
    return dict(evaluations=sum(w['evals'] for w in W), distinct_nontrivial=sum(w['nontriv'] for w in W), rule=rule, samples=samples[:14], discarded=sum(w['discarded'] for w in W),
                cases_per_check=persub, classes=labels, time_capped_workers=sum(1 for w in W if w['timedout']))

if __name__ == '__main__':
    f = sys.argv[sys.argv.index('--replay') + 1]; d, shim = pybuild.bindings(); T = tempfile.mkdtemp(prefix='verifpy')
    shutil.copy(f, T + '/case'); c = json.load(open(f)); os.makedirs(T + '/r')
    r = subprocess.run([pybuild.PY, H + '/pbtpy.py', 'replay', c['prop'], d, shim, T + '/case'], cwd=T + '/r', env=env(T + '/r')); shutil.rmtree(T); sys.exit(r.returncode)
