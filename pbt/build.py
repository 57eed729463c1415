"""Builds the instrumented C library from /repo's working tree and a property binary from /verif/props."""
import hashlib, os, threading, subprocess, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern']
CF = ['-g1', '-O1', '-w', '-fPIC'] + SAN

ENG = threading.Lock()

def h(paths, extra=''):
    m = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        m.update(p.encode()); m.update(open(p, 'rb').read())
    return m.hexdigest()[:20]

def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        sys.stdout.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd)[:300], r.stdout[:2000]))
        sys.exit(2)
    return r.stdout

def repo_sources():
    return sorted(glob.glob(REPO + '/liboptv/src/*.c')), sorted(glob.glob(REPO + '/liboptv/include/*.h'))

def lib(tag='asan', cc='gcc', flags=CF):
    src, hdr = repo_sources()
    key = h(src + hdr, tag + cc + ' '.join(flags))
    d = os.path.join(BUILD, tag + '-' + key)
    if not os.path.exists(d + '/ok'):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        def one(s):
            run([cc] + flags + ['-I' + REPO + '/liboptv/include', '-c', s, '-o', os.path.join(d, os.path.basename(s)[:-2] + '.o')])
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(one, src))
        open(d + '/ok', 'w').close()
    return d, [os.path.join(d, os.path.basename(s)[:-2] + '.o') for s in src]

def comma_locale():
    """a locale with decimal commas, for the checks of files (the checks go without where there is no localedef)"""
    d = os.path.join(BUILD, 'loc')
    with ENG:
        if not os.path.exists(d + '/de_DE.UTF-8/LC_NUMERIC') and shutil.which('localedef'):
            os.makedirs(d, exist_ok=True)
            t = '%s/tmp%d' % (d, os.getpid())
            subprocess.run(['localedef', '-i', 'de_DE', '-f', 'UTF-8', t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(t):
                try: os.rename(t, d + '/de_DE.UTF-8')
                except OSError: shutil.rmtree(t, ignore_errors=True)
    return d

def prop_binary(pid):
    """returns the path of the binary for property pid (props/<pid>.cc)"""
    src = os.path.join(V, 'props', pid + '.cc')
    first = open(src).readline()               # "// build: plain wrap=malloc,realloc"
    opts = first.split()[2:] if first.startswith('// build:') else []
    wrap = ['-Wl,--wrap=' + w for o in opts if o.startswith('wrap=') for w in o[5:].split(',')]
    d, objs = lib('plain', 'gcc', [f for f in CF if 'auto-var-init' not in f]) if 'plain' in opts else lib()
    deps = [src, V + '/pbt/pbt.cc', V + '/pbt/pbt.h'] + glob.glob(V + '/props/*.h')
    key = h(deps, d + ' '.join(CF + wrap))
    out = os.path.join(BUILD, 'bin', pid + '-' + key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        for old in glob.glob(os.path.join(BUILD, 'bin', pid + '-*')):
            os.unlink(old)
        eng = os.path.join(BUILD, 'bin', 'pbt-' + h([V + '/pbt/pbt.cc', V + '/pbt/pbt.h'], ' '.join(CF)) + '.o')
        cxx = ['g++', '-std=c++17', '-fpermissive', '-DLOCDIR="%s"' % comma_locale()] + CF + ['-I' + REPO + '/liboptv/include', '-I' + V + '/props']
        tmp = '%s.%d' % (out, os.getpid())
        obj = os.path.join(BUILD, 'obj', pid + '-' + h(deps, ''.join(open(x, encoding='latin-1').read() for x in repo_sources()[1]) + ' '.join(cxx)) + '.o')
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        def cprop():
            if not os.path.exists(obj):
                for old in glob.glob(os.path.join(BUILD, 'obj', pid + '-*')):
                    os.unlink(old)
                run(cxx + ['-c', src, '-o', tmp + '.o']); os.replace(tmp + '.o', obj)
        def ceng():
            with ENG:
                if not os.path.exists(eng):
                    t = '%s.%d' % (eng, os.getpid()); run(cxx + ['-c', V + '/pbt/pbt.cc', '-o', t]); os.replace(t, eng)
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(ceng); b = ex.submit(cprop); a.result(); b.result()
        run(['g++'] + SAN + wrap + [obj, eng] + objs + ['-lm', '-o', tmp])
        os.replace(tmp, out)
    return out

if __name__ == '__main__':
    print(prop_binary(sys.argv[1]))
