"""Generators shared by the Python properties, and the oracle library (shim.c)."""
import ctypes, math, os
import numpy as np
L = None
D = ctypes.c_double
def init(path):
    global L
    L = ctypes.CDLL(path)
    L.s_dumbbell.restype = D
def dp(a): return a.ctypes.data_as(ctypes.c_void_p)
def vec(a): return np.ascontiguousarray(a, dtype=np.float64)

def bits(a, b):
    """same shape and same values (NaN equals NaN)"""
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))

# --- scenes as plain numbers ---------------------------------------------------------------------------------
def gen_cal(s, glass_z, simple=False, spread=1.0):
    """a camera above the glass, aimed near the origin: the 19 numbers of shim.c"""
    z = s.r(glass_z + 150, glass_z + 700); x = s.r0(-200 * spread, 200 * spread); y = s.r0(-200 * spread, 200 * spread)
    r = math.sqrt(x * x + y * y + z * z)
    phi = math.asin(x / r) + s.r0(-.02, .02); om = math.atan2(-y, z) + s.r0(-.02, .02); ka = s.r0(-3.2, 3.2) if s.b() else s.r0(-.1, .1)
    v = [x, y, z, om, phi, ka, s.r0(-1, 1), s.r0(-1, 1), s.r(20, 90)]
    if simple or s.chance(1, 3): v += [0, 0, 0, 0, 0, 1, 0]
    else: v += [s.r0(-1e-4, 1e-4), s.r0(-1e-7, 1e-7), s.r0(-1e-10, 1e-10), s.r0(-1e-4, 1e-4), s.r0(-1e-4, 1e-4), s.r(.95, 1.05), s.r0(-.05, .05)]
    return v + [s.r0(-5, 5), s.r0(-5, 5), glass_z]

def gen_mm(s):
    n = s.i(1, 3)
    if s.chance(1, 4): return [1, 1, 1, 1, 1, 1, 1, 0, 0]
    return [n, s.r(1, 1.1), s.r(1, 1.5)] + [s.r(1, 1.6) if k < n else 1 for k in range(3)] + [s.r(.1, 10) if k < n else 0 for k in range(3)]

class Scene(object):
    """numbers of a rig, and the objects of the bindings made of them"""
    def __init__(self, s, ncam=None, field=0, maxim=2048, simple=False, eps=None):
        from optv.calibration import Calibration
        from optv.parameters import ControlParams, VolumeParams
        self.ncam = ncam or s.i(1, 4)
        self.gz = s.r(40, 120)
        self.cals = [gen_cal(s, self.gz, simple) for _ in range(self.ncam)]
        self.mm = gen_mm(s)
        self.imx, self.imy = s.i(64, maxim), s.i(64, maxim)
        # a sensor that sees the region around the origin
        f = max(c[8] / math.sqrt(c[0] ** 2 + c[1] ** 2 + c[2] ** 2) for c in self.cals)
        px = 140 * f / self.imx; py = px * s.r(.8, 1.25) * (1. if s.b() else float(self.imx) / self.imy)
        self.cpar = [self.ncam, self.imx, self.imy, px, py, field, 0] + self.mm
        z0, z1 = s.r(-30, -5), s.r(0, 25); t = 0 if s.b() else s.r0(-5, 5)
        self.vpar = [s.r(-50, -10), s.r(10, 50), z0, z0 + t, z1, z1 + t, .3, .3, .3, .01, eps or s.r(.01, .3), s.r(1, 30)]
        self.pycals = [mkcal(c) for c in self.cals]
        self.pycpar = mkcpar(self.cpar); self.pyvpar = mkvpar(self.vpar)
    def ccals(self): return vec(self.cals).ravel()
    def points(self, s, n):
        return np.array([[s.r0(-40, 40), s.r0(-40, 40), s.r0(-25, 20)] for _ in range(n)]).reshape(n, 3)
    def project(self, cam, pts):
        """distorted metric image coordinates"""
        pts = vec(pts); o = np.empty((len(pts), 2)); L.s_project(1, dp(vec(self.cals[cam])), dp(vec(self.mm)), len(pts), dp(pts), dp(o)); return o
    def pixels(self, cam, pts):
        m = self.project(cam, pts); o = np.empty((len(m), 2)); L.s_transform(1, dp(vec(self.cals[cam])), dp(vec(self.cpar)), len(m), dp(m), dp(o), D(1e-5)); return o

def mkcal(c):
    from optv.calibration import Calibration
    return Calibration(pos=np.array(c[0:3]), angs=np.array(c[3:6]), prim_point=np.array(c[6:9]), rad_dist=np.array(c[9:12]), decent=np.array(c[12:14]), affine=np.array(c[14:16]), glass=np.array(c[16:19]))
def mkmm(m):
    from optv.parameters import MultimediaParams
    n = int(m[0]); return MultimediaParams(n1=m[1], n2=m[3:3 + n], d=m[6:6 + n], n3=m[2])
def mkcpar(c):
    from optv.parameters import ControlParams
    n = int(c[7]); m = c[7:]
    p = ControlParams(int(c[0]), ['allcam'] if c[6] else [], (int(c[1]), int(c[2])), (c[3], c[4]), m[1], m[3:3 + n], m[6:6 + n], m[2]); p.set_chfield(int(c[5])); return p
def mkvpar(v):
    from optv.parameters import VolumeParams
    return VolumeParams(x_span=(v[0], v[1]), z_spans=[(v[2], v[4]), (v[3], v[5])], pixels_tot=v[6], pixels_x=v[7], pixels_y=v[8], ref_gray=v[9], epipolar_band=v[10], min_correlation=v[11])
def mktargs(rows):
    """rows of x y n nx ny sumg pnr tnr"""
    from optv.tracking_framebuf import TargetArray
    t = TargetArray(len(rows))
    for i, r in enumerate(rows):
        q = t[i]; q.set_pos((r[0], r[1])); q.set_pixel_counts(int(r[2]), int(r[3]), int(r[4])); q.set_sum_grey_value(int(r[5])); q.set_pnr(int(r[6])); q.set_tnr(int(r[7]))
    return t
def rowsof(t):
    return np.array([list(q.pos()) + list(q.count_pixels()) + [q.sum_grey_value(), q.pnr(), q.tnr()] for q in [t[i] for i in range(len(t))]], dtype=float).reshape(len(t), 8)

def layout(s, a):
    """the same values in another memory layout"""
    a = np.array(a, dtype=np.float64); k = s.i(0, 4)
    if k == 0: return a
    if k == 1: return np.asfortranarray(a)
    if k == 2:
        big = np.full(tuple(2 * n + 1 for n in a.shape), 777.); v = big[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]; v[...] = a; return v
    if k == 3: return np.ascontiguousarray(a[::-1])[::-1]
    return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
