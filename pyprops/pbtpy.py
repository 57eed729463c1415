"""Choice-sequence property-based testing engine for the Python bindings (the counterpart of pbt/pbt.h): every random
decision is a draw recorded in shared memory, so that a crash of the interpreter leaves the failing case behind.
Run by pyrunner.py under the bindings' interpreter:
  pbtpy.py run PID DIR SHIM seed tier worker nworkers mapfile outfile maxsec scale
  pbtpy.py shrink PID DIR SHIM casefile outfile maxsec
  pbtpy.py replay PID DIR SHIM casefile"""
import sys, os, json, mmap, random, signal, struct, time, math, traceback, hashlib

MAXCH = 1 << 17
HDR = 4 + 512            # n, sub, case, status + 4096 bytes of message
class Fail(Exception): pass
class Discard(Exception): pass

def fail(msg, *a): raise Fail(msg % a if a else msg)
def check(c, msg, *a):
    if not c: fail(msg, *a)

class Shared:
    def __init__(self, path):
        size = (HDR + MAXCH) * 8
        if not os.path.exists(path) or os.path.getsize(path) != size:
            with open(path, 'wb') as f: f.truncate(size)
        self.f = open(path, 'r+b'); self.m = mmap.mmap(self.f.fileno(), size); self.q = memoryview(self.m).cast('Q')
    def setmsg(self, s):
        b = s.encode('utf-8', 'replace')[:4090]; self.m[32:32 + len(b) + 1] = b + b'\0'
    def msg(self): return bytes(self.m[32:32 + 4096]).split(b'\0')[0].decode('utf-8', 'replace')
    def choices(self): return list(self.q[HDR:HDR + self.q[0]])

class Src:
    def __init__(self, sh, rng=None, rep=None, verbose=False):
        self.sh, self.q, self.rng, self.rep, self.verbose = sh, sh.q, rng, rep, verbose
        self.desc = []; self.nontriv = False; self.labels = {}; self.q[0] = 0; self.want = False
    def draw(self, mx):
        k = self.q[0]
        if self.rep is not None:
            v = self.rep[k] if k < len(self.rep) else 0
            if v > mx: v = mx
        else: v = self.rng.randint(0, mx) if mx else 0
        if k >= MAXCH: raise Discard()
        self.q[HDR + k] = v; self.q[0] = k + 1
        return v
    def i(self, lo, hi): return lo + self.draw(hi - lo) if hi > lo else lo
    def b(self): return bool(self.draw(1))
    def chance(self, num, den): return self.draw(den - 1) >= den - num
    def u(self): return self.draw((1 << 40) - 1) / float(1 << 40)
    def r(self, lo, hi): return lo + (hi - lo) * (self.draw(1 << 40) / float(1 << 40))
    def r0(self, lo, hi):
        neg = lo < 0 and self.draw(1); m = -lo if neg else hi
        v = m * (self.draw(1 << 40) / float(1 << 40)); return -v if neg else v
    def pick(self, l): return l[self.draw(len(l) - 1)]
    def label(self, s): self.labels[s] = self.labels.get(s, 0) + 1
    def nontrivial(self): self.nontriv = True
    def note(self, s, *a):
        if self.verbose or self.want: self.desc.append(s % a if a else s)
        if self.verbose: sys.stderr.write((s % a if a else s) + '\n')
    def discard(self): raise Discard()

def run_case(sh, fn, rng=None, rep=None, verbose=False, want=False, limit=60):
    """returns (status, src): 1 ok, 2 failed, 3 discarded"""
    s = Src(sh, rng, rep, verbose); s.want = want
    sh.q[3] = 0
    signal.alarm(limit)
    try:
        fn(s); st = 1
    except Discard: st = 3
    except Fail as e: st = 2; sh.setmsg(str(e))
    except Exception as e:
        st = 2; tb = traceback.extract_tb(e.__traceback__)
        sh.setmsg('unexpected %s: %s at %s' % (type(e).__name__, e, ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])))
    signal.alarm(0)
    sh.q[3] = st
    return st, s

def load(pid, d, shim):
    sys.path.insert(0, d); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import common; common.init(shim)
    m = __import__(pid)
    return m.SUBS

def main():
    mode, pid, d, shim = sys.argv[1:5]; a = sys.argv[5:]
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    subs = load(pid, d, shim)
    keep = os.dup(1); os.dup2(os.open('/dev/null', os.O_WRONLY), 1)       # the library prints; keep that away
    if mode == 'run':
        seed, tier, w, nw, mapf, outf, maxsec, scale = int(a[0]), a[1], int(a[2]), int(a[3]), a[4], a[5], float(a[6]), float(a[7])
        sh = Shared(mapf); t0 = time.time(); labels, persub, samples, seen = {}, {}, [], set()
        ev = disc = 0; timed = False; nontriv = 0
        for si, (name, quick, thorough, fn) in enumerate(subs):
            total = max(1, int((quick if tier == 'quick' else thorough) * scale)); persub[name] = 0; ts = time.time()
            for c in range(w, total, nw):
                # a share of the time for each part
                if time.time() - t0 > maxsec * (si + 1) / len(subs): timed = True; break
                sh.q[1] = si; sh.q[2] = c
                rng = random.Random('%s/%d/%s/%d' % (pid, seed, name, c))
                st, s = run_case(sh, fn, rng, want=(persub[name] < 2))
                ev += 1; persub[name] += 1
                for k, v in s.labels.items(): labels[name + ': ' + k] = labels.get(name + ': ' + k, 0) + v
                if st == 2: os._exit(3)
                if st == 3: disc += 1; continue
                if s.nontriv:
                    h = hashlib.blake2b(struct.pack('%dQ' % sh.q[0], *sh.q[HDR:HDR + sh.q[0]]), digest_size=8, key=name.encode()[:60]).digest()
                    if h not in seen: seen.add(h); nontriv += 1
                    if s.desc and sum(1 for x in samples if x.startswith(name + ':')) < 1: samples.append(name + ': ' + ' | '.join(s.desc)[:700])
        json.dump(dict(evals=ev, nontriv=nontriv, discarded=disc, labels=labels, persub=persub, samples=samples, timedout=timed), open(outf, 'w'))
        os._exit(0)
    case = json.load(open(a[0])); fn = [x[3] for x in subs if x[0] == case['sub']][0]
    if mode == 'replay':
        sh = Shared(a[0] + '.map'); st, s = run_case(sh, fn, rep=case['choices'], verbose=True, limit=300); os.unlink(a[0] + '.map')
        sys.stderr.write({1: 'HELD\n', 3: 'DISCARDED\n'}.get(st) or 'FAILED %s\n' % sh.msg()); os._exit(1 if st == 2 else 0)
    if mode == 'shrink':
        sh = Shared(a[0] + '.map'); t0 = time.time(); maxsec = float(a[2]); best = [case['choices'], case['msg']]; tries = [0]
        null = os.open('/dev/null', os.O_WRONLY); child = [None]
        def serve():
            """a child that tries one case after the other, until one of them ends it"""
            ra, wa = os.pipe(); rb, wb = os.pipe(); p = os.fork()
            if p:
                os.close(ra); os.close(wb); child[0] = (p, os.fdopen(wa, 'w'), os.fdopen(rb, 'r')); return
            os.close(wa); os.close(rb); os.dup2(null, 2); inp = os.fdopen(ra, 'r')
            for line in inp:
                st, s = run_case(sh, fn, rep=json.loads(line), limit=20); os.write(wb, b'%d\n' % st)
            os._exit(0)
        def attempt(ch):
            if time.time() - t0 > maxsec: return False
            tries[0] += 1
            if child[0] is None: serve()
            p, w, r = child[0]
            w.write(json.dumps(ch) + '\n'); w.flush(); ans = r.readline().strip()
            if ans: bad, why = ans == '2', None
            else:
                _, rc = os.waitpid(p, 0); child[0] = None; w.close(); r.close()
                bad, why = ('endless' in case['msg']) == (os.WIFSIGNALED(rc) and os.WTERMSIG(rc) == signal.SIGALRM), 'crash of the interpreter (%s)' % ('signal %d' % os.WTERMSIG(rc) if os.WIFSIGNALED(rc) else 'exit %d' % os.WEXITSTATUS(rc))
            if bad:
                new = sh.choices()
                if (len(new), new) < (len(best[0]), best[0]):
                    best[0] = new; best[1] = why or sh.msg()
                    return True
            return False
        imp = True
        while imp and time.time() - t0 < maxsec:
            imp = False
            k = max(1, len(best[0]) // 2)
            while k >= 1:
                p = 0
                while p < len(best[0]) and time.time() - t0 < maxsec:
                    if attempt(best[0][:p] + best[0][p + k:]): imp = True
                    else: p += k
                k //= 2
            p = 0
            while p < len(best[0]) and time.time() - t0 < maxsec:
                v = best[0][p]
                if v:
                    for nv in (0, 1, v // 2, v - 1):
                        if nv < v and attempt(best[0][:p] + [nv] + best[0][p + 1:]): imp = True; break
                p += 1
        if child[0]: child[0][1].close(); os.waitpid(child[0][0], 0)
        case['choices'], case['msg'] = best; case['tries'] = tries[0]
        json.dump(case, open(a[1], 'w')); os.unlink(a[0] + '.map'); os._exit(0)

if __name__ == '__main__':
    sys.modules['pbtpy'] = sys.modules['__main__']     # one Fail class, also for the properties
    main()
