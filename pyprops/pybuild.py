"""Builds the Python bindings of /repo's working tree out of tree, with AddressSanitizer, and the oracle library
(shim.c linked with the same liboptv objects).  bindings() returns (directory for sys.path, path of the shim)."""
import glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/pbt')
import build
PY = '/opt/optv-venv/bin/python'
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern']
CF = ['-g1', '-O1', '-w', '-fPIC', '-ffp-contract=off'] + ASAN

def out(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()

def libasan():
    return out(['gcc', '-print-file-name=libasan.so'])

def bindings():
    R = build.REPO
    src, hdr = build.repo_sources()
    pyx = sorted(glob.glob(R + '/py_bind/optv/*.p*'))
    pyx = [p for p in pyx if p.endswith(('.pyx', '.pxd', '.py'))]
    shim = V + '/pyprops/shim.c'
    m = hashlib.sha256(' '.join(CF).encode())
    for p in src + hdr + pyx + [shim, V + '/pyprops/pybuild.py']:
        m.update(os.path.basename(p).encode()); m.update(open(p, 'rb').read())
    d = os.path.join(build.BUILD, 'py-' + m.hexdigest()[:20])
    if os.path.exists(d + '/ok'): return d, d + '/libshim.so'
    for old in glob.glob(os.path.join(build.BUILD, 'py-*')): shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d + '/optv'); os.makedirs(d + '/inc/optv'); os.makedirs(d + '/o')
    for h in hdr: shutil.copy(h, d + '/inc/optv')
    for p in pyx: shutil.copy(p, d + '/optv')
    npinc = out([PY, '-c', 'import numpy; print(numpy.get_include())'])
    pyinc = out([PY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'])
    ext = out([PY, '-c', 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))'])
    inc = ['-I' + npinc, '-I' + d, '-I' + d + '/inc', '-I' + d + '/inc/optv', '-I' + pyinc]
    mods = [os.path.basename(p)[:-4] for p in pyx if p.endswith('.pyx')]
    def cobj(s):
        o = d + '/o/' + os.path.basename(s)[:-2] + '.lib.o'
        build.run(['gcc'] + CF + inc + ['-c', s, '-o', o]); return o
    def mod(x):
        build.run([PY, '-m', 'cython', '-2', 'optv/%s.pyx' % x], cwd=d)
        build.run(['gcc'] + [f if f != '-O1' else '-O0' for f in CF] + inc + ['-c', '%s/optv/%s.c' % (d, x), '-o', '%s/o/%s.ext.o' % (d, x)])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        fm = [ex.submit(mod, x) for x in mods]
        fo = [ex.submit(cobj, s) for s in src]
        fs = ex.submit(build.run, ['gcc'] + CF + inc + ['-c', shim, '-o', d + '/o/shim.o'])
        objs = [f.result() for f in fo]; fs.result()
        [f.result() for f in fm]
        fl = [ex.submit(build.run, ['gcc', '-shared'] + ASAN + ['%s/o/%s.ext.o' % (d, x)] + objs + ['-lm', '-o', '%s/optv/%s%s' % (d, x, ext)]) for x in mods]
        fl.append(ex.submit(build.run, ['gcc', '-shared'] + ASAN + ['-Wl,-Bsymbolic', d + '/o/shim.o'] + objs + ['-lm', '-o', d + '/libshim.so']))
        [f.result() for f in fl]
    shutil.rmtree(d + '/o')
    open(d + '/ok', 'w').close()
    return d, d + '/libshim.so'

if __name__ == '__main__':
    print(bindings())
