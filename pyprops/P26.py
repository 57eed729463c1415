"""P26: the Python interface is memory-safe and fails with exceptions.  AddressSanitizer watches the bindings and the library;
an unset result shows as the allocator's fill pattern."""
import gc, math, os, shutil
import numpy as np
from pbtpy import check, fail
import common as C
from common import layout

UNSET = 0xBEBEBEBEBEBEBEBE
def settled(r, what):
    """no element of a result was left unset"""
    if isinstance(r, np.ndarray) and r.dtype.itemsize == 8 and r.dtype.kind in 'fi' and r.size:
        k = np.argwhere(np.ascontiguousarray(r).view(np.uint64) == UNSET)
        check(not len(k), '%s: element %s of the result was never set', what, k[:1].tolist())
    elif isinstance(r, (list, tuple)):
        for q in r: settled(q, what)

def attempt(s, what, f, *a, **kw):
    """any exception but a broken one is fine"""
    try: r = f(*a, **kw)
    except SystemError as e: fail('%s: %s', what, e)
    except Exception as e: s.label('raised ' + type(e).__name__); return None
    settled(r, what); s.label('done'); return r

def num(s):
    k = s.i(0, 12)
    if k == 12: return s.pick([float('nan'), float('inf'), -float('inf'), 1e300, -1e300, 1e-300])
    return 0. if k == 0 else float(s.i(-3, 3)) if k < 4 else s.r0(-1000, 1000) if k < 8 else s.r0(-2, 2)
def nums(s, n): return [num(s) for _ in range(n)]
def cnt(s): return s.pick([0, 1, 2, 3]) if s.b() else s.i(0, 12)
def fname(s):
    k = s.i(0, 9)
    if k == 0: return 'x' * s.i(200, 300) + '/y'
    if k == 1: return 'nodir/f'
    if k == 2: return 'z' * s.i(190, 400)
    return s.pick(['fa', 'fb', 'fc', 'fd'])
def idx(s): return s.i(-2, 5) if not s.chance(1, 10) else s.pick([-2**31, 2**31 - 1, 1000, -1000])
def seq(s, l):
    k = s.i(0, 3)
    return l if k == 0 else tuple(l) if k == 1 else np.array(l, dtype=float) if k == 2 else layout(s, l) if len(l) else np.array(l)

def arr2(s, n, w):
    if s.chance(1, 8): w = s.i(0, 4)
    if s.chance(1, 10): a = np.array(nums(s, n * w)).reshape(n, w)
    else: a = np.array([s.r0(-60, 60) for _ in range(n * w)]).reshape(n, w)
    return layout(s, a)

# --- random histories over all objects ------------------------------------------------------------------------
class World(object):
    def __init__(self, s): self.s = s; self.p = {}; self.noread = []; self.trace = []
    def add(self, kind, o):
        if o is None: return
        l = self.p.setdefault(kind, []); l.append(o)
        if len(l) > 6: l.pop(self.s.i(0, 5))
    def get(self, kind):
        l = self.p.get(kind)
        if not l or self.s.chance(1, 12): MAKE[kind](self); l = self.p.get(kind)
        for _ in range(8):
            if l: break
            MAKE[kind](self); l = self.p.get(kind)
        if not l: self.s.discard()
        return l[self.s.i(0, len(l) - 1)]

def sane(w, ncam=None):
    """a consistent rig, so that calls get beyond their argument checks"""
    s = w.s; sc = C.Scene(s, ncam or s.i(1, 4), maxim=256); w.rig = sc; return sc

def mk_cal(w):
    from optv.calibration import Calibration
    s = w.s; k = s.i(0, 3)
    if k == 0: w.add('cal', Calibration())
    elif k == 1: w.add('cal', attempt(s, 'Calibration', Calibration, *[np.array(nums(s, n if not s.chance(1, 9) else s.i(0, 4))) for n in (3, 3, 3, 3, 2, 2, 3)]))
    else: w.add('cal', sane(w).pycals[0])
def mk_mm(w):
    from optv.parameters import MultimediaParams
    s = w.s; w.add('mm', attempt(s, 'MultimediaParams', MultimediaParams, n1=num(s), n2=seq(s, nums(s, s.i(0, 4))), n3=num(s), d=seq(s, nums(s, s.i(0, 4)))) if s.b() else C.mkmm(C.gen_mm(s)))
def mk_cpar(w):
    from optv.parameters import ControlParams
    s = w.s
    if s.chance(1, 3): w.add('cpar', attempt(s, 'ControlParams', ControlParams, s.i(1, 4), [f for f in ('hp', 'allcam', 'headers') if s.b()], (s.i(0, 64), s.i(0, 64)), (num(s), num(s)), num(s), nums(s, s.i(0, 4)), nums(s, s.i(0, 4)), num(s)))
    elif s.chance(1, 4): w.add('cpar', attempt(s, 'ControlParams', ControlParams, s.i(1, 4)))
    else: w.add('cpar', sane(w).pycpar)
def mk_vpar(w):
    from optv.parameters import VolumeParams
    s = w.s
    if s.chance(1, 3): w.add('vpar', attempt(s, 'VolumeParams', VolumeParams, x_span=seq(s, nums(s, 2)), z_spans=[nums(s, 2), nums(s, 2)], pixels_tot=num(s), epipolar_band=num(s)))
    elif s.chance(1, 5): w.add('vpar', VolumeParams())
    else: w.add('vpar', sane(w).pyvpar)
def mk_tpar(w):
    from optv.parameters import TrackingParams
    s = w.s; v = s.r(.1, 20); w.add('tpar', attempt(s, 'TrackingParams', TrackingParams, accel_lim=num(s), angle_lim=s.r(0, 200), velocity_lims=[[-v, v]] * 3, add_particle=s.i(0, 1)) if s.b() else TrackingParams())
def mk_spar(w):
    from optv.parameters import SequenceParams
    s = w.s; f = s.i(-1, 4); w.add('spar', attempt(s, 'SequenceParams', SequenceParams, image_base=[fname(s) for _ in range(s.i(1, 4))], frame_range=(f, f + s.i(-1, 4))) if s.b() else SequenceParams(num_cams=s.i(1, 4)))
def mk_gpar(w):
    from optv.parameters import TargetParams
    s = w.s; w.add('gpar', attempt(s, 'TargetParams', TargetParams, s.i(0, 60), [s.i(-5, 150) for _ in range(s.i(0, 5))], (s.i(0, 5), s.i(0, 300)), (s.i(0, 3), s.i(0, 40)), (s.i(0, 3), s.i(0, 40)), s.i(0, 300), s.i(0, 5)) if s.b() else TargetParams())
def mk_targs(w):
    from optv.tracking_framebuf import TargetArray, read_targets
    s = w.s; k = s.i(0, 3)
    if k == 0: w.add('targs', attempt(s, 'TargetArray', TargetArray, s.i(-3, 20)))
    elif k == 1: w.add('targs', attempt(s, 'read_targets', read_targets, fname(s), s.i(-1, 3)))
    else: w.add('targs', C.mktargs([[s.r(0, 250), s.r(0, 250), s.i(0, 20), s.i(0, 6), s.i(0, 6), s.i(0, 900), s.i(-2, 9) if s.chance(1, 5) else i, s.i(-2, 5)] for i in range(cnt(s))]))
def mk_targ(w):
    from optv.tracking_framebuf import Target
    s = w.s
    if s.chance(1, 4): w.add('targ', attempt(s, 'Target', Target, pnr=s.i(-5, 5), x=num(s), y=num(s), n=s.i(-1, 9))); return
    t = w.get('targs'); w.add('targ', attempt(s, 'indexing', t.__getitem__, s.i(-1, len(t))))
    if not w.p.get('targ'): w.add('targ', Target())
def mk_mc(w):
    from optv.correspondences import MatchedCoords
    s = w.s; w.add('mc', attempt(s, 'MatchedCoords', MatchedCoords, w.get('targs'), w.get('cpar'), w.get('cal'), s.pick([1e-5, 0., -1., float('nan'), 1.]), s.b()))
    if not w.p.get('mc'): w.add('mc', MatchedCoords(C.mktargs([]), w.get('cpar'), w.get('cal')))
def mk_view(w):
    s = w.s; k = s.i(0, 5)
    if k == 0: w.add('view', attempt(s, 'get_n2', w.get('mm').get_n2, copy=False))
    elif k == 1: w.add('view', w.get('mm').get_d(copy=False))
    elif k < 5: w.add('view', getattr(w.get('vpar'), ['get_X_lay', 'get_Zmin_lay', 'get_Zmax_lay'][k - 2])(copy=False))
    else: w.add('view', attempt(s, 'get_grey_thresholds', w.get('gpar').get_grey_thresholds, s.i(-1, 6), copy=False))
    if not w.p.get('view'): w.add('view', w.get('vpar').get_X_lay(copy=False))
def mk_frame(w):
    from optv.tracking_framebuf import Frame
    s = w.s; n = s.i(1, 4)
    if s.b(): w.add('frame', Frame(n))
    else: w.add('frame', attempt(s, 'Frame', Frame, n, corres_file_base=fname(s).encode(), linkage_file_base=fname(s).encode(), prio_file_base=s.pick([None, b'fd']), target_file_base=[fname(s).encode() for _ in range(s.i(0, 5))], frame_num=s.i(-1, 3)))
    if not w.p.get('frame'): w.add('frame', Frame(n))
MAKE = dict(cal=mk_cal, mm=mk_mm, cpar=mk_cpar, vpar=mk_vpar, tpar=mk_tpar, spar=mk_spar, gpar=mk_gpar, targs=mk_targs, targ=mk_targ, mc=mk_mc, view=mk_view, frame=mk_frame)

# operations
def o_make(w): k = w.s.pick(sorted(MAKE)); MAKE[k](w); return 'make ' + k
def o_drop(w):
    s = w.s; k = s.pick(sorted(MAKE)); l = w.p.get(k)
    if l: l.pop(s.i(0, len(l) - 1))
    if s.chance(1, 4): gc.collect()
    return 'drop ' + k
def o_view(w):
    s = w.s; v = w.get('view'); float(v.sum())
    if len(v): v[s.i(0, len(v) - 1)] = s.i(0, 3)
    return 'view'
def o_target(w):
    s = w.s; t = w.get('targ'); k = s.i(0, 5)
    if k == 0: t.set_pos((num(s), num(s)))
    if k == 1: attempt(s, 'set_pos', t.set_pos, seq(s, nums(s, s.i(0, 3))))
    if k == 2: t.set_pnr(s.i(-9, 9))
    if k == 3: t.set_tnr(s.i(-9, 9))
    if k == 4: attempt(s, 'set_pixel_counts', t.set_pixel_counts, s.i(0, 9), s.i(0, 9), s.i(0, 9))
    settled(np.array(t.pos()), 'Target.pos'); t.pnr(); t.tnr(); t.count_pixels(); t.sum_grey_value(); return 'target'
def o_targs(w):
    s = w.s; t = w.get('targs'); k = s.i(0, 3)
    if k == 0: t.sort_y()
    elif k == 1: attempt(s, 'TargetArray.write', t.write, fname(s).encode(), s.i(-1, 3))
    elif k == 2: [q.pos() for q in t]
    else: r = attempt(s, 'indexing', t.__getitem__, idx(s)); check(r is None or len(t) > 0, 'an item of an empty TargetArray')
    return 'targs %d' % k
def o_mc(w):
    s = w.s; m = w.get('mc')
    if s.b(): settled(m.as_arrays(), 'as_arrays')
    else: attempt(s, 'get_by_pnrs', m.get_by_pnrs, np.array([s.i(-1, 12) for _ in range(s.i(0, 4))], dtype=int))
    return 'mc'
def o_set(w):
    s = w.s; kind = s.pick(['cal', 'mm', 'cpar', 'vpar', 'tpar', 'spar', 'gpar']); o = w.get(kind); names = sorted(n for n in dir(o) if n.startswith('set_')); n = s.pick(names); k = s.i(0, 9)
    if 'name' in n: a = (idx(s), fname(s) if s.b() else 'n' * s.i(230, 250))
    elif n == 'set_layers': a = (seq(s, nums(s, s.i(0, 5))), seq(s, nums(s, s.i(0, 5))))
    elif n == 'set_image_size': a = ((s.i(0, 64), s.i(0, 64)),) if k else (tuple(s.i(0, 9) for _ in range(s.i(0, 3))),)
    elif n == 'set_pixel_size' or n.endswith('bounds'): a = (seq(s, [s.i(0, 40), s.i(0, 40)]) if k else seq(s, nums(s, s.i(0, 3))),)
    elif kind == 'cal' or n.endswith('_lay') or n == 'set_grey_thresholds': a = (seq(s, nums(s, s.i(0, 6) if s.b() else 2 if n.endswith('_lay') or n in ('set_affine_trans', 'set_decentering') else 3)),)
    elif kind in ('tpar', 'vpar', 'mm'): a = (num(s),)
    else: a = (s.i(0, 5) if k else s.i(-2**31, 2**31 - 1),)
    if n in ('set_first', 'set_last'): a = (s.i(-1, 5),)
    if n in ('set_chfield',): a = (s.i(-1, 3),)
    attempt(s, n, getattr(o, n), *a); return '%s.%s%r' % (kind, n, a)
def o_get(w):
    s = w.s; kind = s.pick(['cal', 'mm', 'cpar', 'vpar', 'tpar', 'spar', 'gpar']); o = w.get(kind); n = s.pick(sorted(n for n in dir(o) if n.startswith('get_')))
    a = (idx(s),) if 'name' in n or n == 'get_grey_thresholds' else ()
    r = attempt(s, n, getattr(o, n), *a)
    if n == 'get_multimedia_params': w.add('mm', r)
    if 'name' in n and r is not None: check(0 <= a[0] < 4, 'a name for camera %d', a[0])
    if s.chance(1, 5): str(o); o == w.get(kind); o != w.get(s.pick(['cal', 'mm', 'cpar', 'vpar'])); o == 3
    return '%s.%s%r' % (kind, n, a)
def o_io(w):
    s = w.s; k = s.i(0, 8); f = fname(s).encode(); c = w.get('cal')
    if k == 0: attempt(s, 'from_file', c.from_file, f, s.pick([None, fname(s).encode()]), s.pick([None, fname(s).encode()]))
    if k == 1: attempt(s, 'Calibration.write', c.write, f, fname(s).encode())
    if k == 2: attempt(s, 'read_track_par', w.get('tpar').read_track_par, f)
    if k == 3: o = w.get('spar'); n = s.i(1, 4); any(o is x for x in w.noread) or attempt(s, 'read_sequence_par', o.read_sequence_par, f, n)
    if k == 4: attempt(s, 'read_volume_par', w.get('vpar').read_volume_par, f)
    if k == 5: o = w.get('cpar'); any(o is x for x in w.noread) or attempt(s, 'read_control_par', o.read_control_par, f)
    if k == 6: attempt(s, 'TargetParams.read', w.get('gpar').read, f)
    if k >= 7: attempt(s, 'Frame.read', w.get('frame').read, f, fname(s).encode(), [fname(s).encode() for _ in range(s.i(0, 5))], s.i(-1, 3), s.pick([None, fname(s).encode()]))
    return 'io %d' % k
def o_frame(w):
    s = w.s; f = w.get('frame'); attempt(s, 'Frame.positions', f.positions); r = attempt(s, 'target_positions_for_camera', f.target_positions_for_camera, idx(s)); return 'frame'
def o_file(w):
    s = w.s; f = s.pick(['fa', 'fb', 'fc', 'fd']); sx = s.pick(['', '', '.1', '.2', '_targets', '0001_targets', '0002_targets']); k = s.i(0, 5); N = lambda: '%g' % (s.r0(-100, 100) if s.b() else s.i(0, 9))
    if k == 0: t = ''
    elif k < 4:
        n = s.i(0, 6); width = 8 if sx.endswith('targets') else s.pick([5, 6, 8]) if sx else s.pick([1, 1, 3, 9])
        t = ('%d\n' % (n + s.i(-1, 2)) if sx else '') + '\n'.join(' '.join((N() if not s.chance(1, 12) else s.pick(['x', '-1', '999999', '', 'nan'])) for _ in range(width)) for _ in range(n if sx else s.i(0, 25))) + '\n' * s.i(0, 1)
    else: t = '\n'.join(s.pick(['4', '1', 'fa', 'fb', '0', '1.5', '64', '0.01']) for _ in range(s.i(0, 24))) + '\n'
    open(f + sx, 'w').write(t); return 'file ' + f + sx
def image(s, cp):
    imx, imy = cp.get_image_size()
    if s.chance(1, 8): imx, imy = s.i(0, 40), s.i(0, 40)
    if imx * imy > 10000: imx, imy = 20, 20
    a = np.zeros((imy, imx), dtype=np.uint8)
    if a.size:
        for _ in range(s.i(0, 8)): y, x = s.i(0, imy - 1), s.i(0, imx - 1); a[y:y + s.i(1, 3), x:x + s.i(1, 3)] = s.i(0, 255)
    k = s.i(0, 2)
    return a if k == 0 else np.asfortranarray(a) if k == 1 else np.ascontiguousarray(a[::-1])[::-1]
def o_image(w):
    from optv.segmentation import target_recognition
    from optv.image_processing import preprocess_image
    s = w.s; cp = w.get('cpar')
    if s.b(): cp.set_image_size((s.i(0, 40), s.i(0, 40)))
    a = image(s, cp)
    if s.b():
        r = lambda n: None if s.b() else (s.i(-2, n + 2), s.i(-2, n + 2)); w.add('targs', attempt(s, 'target_recognition', target_recognition, a, w.get('gpar'), s.i(-1, 4), cp, subrange_x=r(a.shape[1]), subrange_y=r(a.shape[0]))); return 'target_recognition %s' % (a.shape,)
    attempt(s, 'preprocess_image', preprocess_image, a, s.i(-1, 3), cp, s.i(-1, 25) if not s.chance(1, 8) else s.pick([2**30, 2**31 - 1, -2**31]), s.pick([None, 'fa', b'fb', 'nofile', 'z' * 300]), None if s.b() else image(s, cp)); return 'preprocess_image %s' % (a.shape,)
def o_points(w):
    from optv import transforms as T, imgcoord as I, epipolar as E
    s = w.s; k = s.i(0, 7); n = cnt(s); out = None if s.b() else arr2(s, n if not s.chance(1, 6) else cnt(s), 2)
    if k == 0: attempt(s, 'convert_arr_pixel_to_metric', T.convert_arr_pixel_to_metric, arr2(s, n, 2), w.get('cpar'), out)
    if k == 1: attempt(s, 'convert_arr_metric_to_pixel', T.convert_arr_metric_to_pixel, arr2(s, n, 2), w.get('cpar'), out)
    if k == 2: attempt(s, 'correct_arr_brown_affine', T.correct_arr_brown_affine, arr2(s, n, 2), w.get('cal'), out)
    if k == 3: attempt(s, 'distort_arr_brown_affine', T.distort_arr_brown_affine, arr2(s, n, 2), w.get('cal'), out)
    if k == 4: attempt(s, 'distorted_to_flat', T.distorted_to_flat, arr2(s, n, 2), w.get('cal'), out, s.pick([1e-5, 0., -1., float('nan')]))
    if k in (5, 6): attempt(s, 'image_coordinates', [I.image_coordinates, I.flat_image_coordinates][k - 5], arr2(s, n, 3), w.get('cal'), w.get('mm'), out)
    if k == 7: attempt(s, 'epipolar_curve', E.epipolar_curve, layout(s, [s.r0(-9, 300) for _ in range(2 if not s.chance(1, 8) else s.i(0, 3))]), w.get('cal'), w.get('cal'), s.i(-1, 12), w.get('cpar'), w.get('vpar'))
    return 'points %d (%d)' % (k, n)
def o_positions(w):
    from optv import orientation as O
    s = w.s; k = s.i(0, 3); n, m = cnt(s), s.i(0, 5); t = np.array([s.r0(-20, 20) if not s.chance(1, 20) else num(s) for _ in range(n * m * 2)]).reshape(n, m, 2)
    if s.chance(1, 8): t = t.reshape(n, 2 * m, 1)
    cals = [w.get('cal') for _ in range(s.i(0, 5) if s.b() else m)]
    if k < 3: t = layout(s, t)
    if k == 0: attempt(s, 'point_positions', O.point_positions, t, w.get('cpar'), cals, w.get('vpar'))
    if k == 1: attempt(s, 'single_cam_point_positions', O.single_cam_point_positions, t, w.get('cpar'), cals, w.get('vpar'))
    if k == 2: attempt(s, 'multi_cam_point_positions', O.multi_cam_point_positions, t, w.get('cpar'), cals)
    if k == 3: attempt(s, 'dumbbell_target_func', O.dumbbell_target_func, t, w.get('cpar'), cals, num(s), num(s))
    return 'positions %d %s, %d calibrations' % (k, t.shape, len(cals))
def o_calib(w):
    from optv import orientation as O
    s = w.s; k = s.i(0, 2); c = w.get('cal'); n = cnt(s); p = arr2(s, n, 3); cp = w.get('cpar')
    if k == 0: w.add('targs', attempt(s, 'match_detection_to_ref', O.match_detection_to_ref, c, p, w.get('targs'), cp, s.i(-1, 40)))
    if k == 1: attempt(s, 'external_calibration', O.external_calibration, c, p, arr2(s, cnt(s) if s.b() else n, 2), cp)
    if k == 2: attempt(s, 'full_calibration', O.full_calibration, c, p, w.get('targs'), cp, [f for f in ['cc', 'xh', 'yh', 'k1', 'k2', 'k3', 'p1', 'p2', 'scale', 'shear', 'bogus'] if s.chance(1, 4)])
    return 'calib %d (%d)' % (k, n)
def o_match(w):
    from optv.correspondences import correspondences, single_cam_correspondence, MatchedCoords
    s = w.s
    if s.b():                                             # consistent
        sc = sane(w, s.i(1, 4)); tg = [w.get('targs') for _ in range(sc.ncam)]; mc = [MatchedCoords(t, sc.pycpar, c, reset_numbers=s.b()) for t, c in zip(tg, sc.pycals)]
        if s.chance(1, 3) and len(tg[0]): tg[0][s.i(0, len(tg[0]) - 1)].set_pnr(s.i(-3, 20))
        attempt(s, 'correspondences', correspondences, tg, mc, sc.pycals, w.get('vpar') if s.b() else sc.pyvpar, sc.pycpar); return 'match rig'
    n = s.i(0, 5); L = lambda k: [w.get(k) for _ in range(n if not s.chance(1, 4) else s.i(0, 5))]
    attempt(s, 'correspondences', correspondences, L('targs'), L('mc'), L('cal'), w.get('vpar'), w.get('cpar')); return 'match %d' % n
OPS = [o_make, o_make, o_drop, o_drop, o_view, o_target, o_targs, o_mc, o_set, o_set, o_get, o_io, o_io, o_frame, o_file, o_file, o_image, o_points, o_positions, o_calib, o_match]

def clean():
    for f in os.listdir('.'):
        if os.path.isfile(f) or os.path.islink(f): os.unlink(f)
        else: shutil.rmtree(f)

def history(s):
    clean(); w = World(s); n = s.i(1, 25); tr = []
    for _ in range(n):
        if s.verbose: s.note('next of: %s', len(tr))
        t = s.pick(OPS)(w); tr.append(t)
        if s.verbose: s.note('  %s', t)
    s.note('%s', '; '.join(tr)[:900])
    if n > 3: s.nontrivial()
    w.p.clear()

# --- the same operations on few kinds: lifetimes -----------------------------------------------------------------
def lifetimes(s):
    """views and items outlive their owners, with the values they had"""
    from optv.parameters import MultimediaParams, VolumeParams, TargetParams, ControlParams
    from optv.tracking_framebuf import TargetArray
    clean(); held = []; n = s.i(1, 12); tr = []
    for _ in range(n):
        k = s.i(0, 6); v = [s.r0(-9, 9) for _ in range(3)]
        if k == 0: o = MultimediaParams(n2=v, d=v[::-1]); held += [(o.get_n2(copy=False), np.array(v)), (o.get_d(copy=False), np.array(v[::-1]))]
        elif k == 1: o = VolumeParams(); o.set_X_lay(v[:2]); o.set_Zmax_lay(v[1:]); held += [(o.get_X_lay(copy=False), np.array(v[:2])), (o.get_Zmax_lay(copy=False), np.array(v[1:]))]
        elif k == 2: g = [s.i(0, 200) for _ in range(4)]; o = TargetParams(0, g, (1, 2), (1, 2), (1, 2), 1, 1); held.append((o.get_grey_thresholds(copy=False), np.array(g)))
        elif k == 3: m = s.i(1, 6); o = C.mktargs([[v[0] + i, v[1], 1, 2, 3, 4, i, 5] for i in range(m)]); i = s.i(0, m - 1); held.append((o[i], (v[0] + i, v[1], i)))
        elif k == 4: o = ControlParams(s.i(1, 4), [], (64, 64), (.1, .1), 1., [v[0]], [v[1]], 1.5); q = o.get_multimedia_params(); held.append((q.get_n2(copy=False) if s.b() else q, np.array([v[0]])))
        elif k == 5: o = VolumeParams(); a = o.get_X_lay(copy=False); a[:] = v[:2]; b = o.get_X_lay(copy=False); held += [(a, np.array(v[:2])), (b, np.array(v[:2]))]
        elif held: held.pop(s.i(0, len(held) - 1)); o = None
        tr.append(k)
        if s.b(): o = None; gc.collect()
        if s.chance(1, 3): junk = [bytearray(b'\xee' * s.i(1, 400)) for _ in range(20)]; del junk
        for h, e in held:
            if isinstance(h, np.ndarray): check(np.array_equal(h[:len(e)], e), 'a view holds %s instead of %s', h, e)
            elif isinstance(h, MultimediaParams): check(h.get_n2()[0] == e[0] and h.get_n3() == 1.5, 'MultimediaParams of a deleted ControlParams')
            else: check((h.pos()[0], h.pos()[1], h.pnr()) == e, 'a target holds %s instead of %s', (h.pos(), h.pnr()), e)
    s.note('kinds %s', tr)
    if len(held) > 1: s.nontrivial()

def tracker(s):
    """trackers over few, many, missing or broken files, their arguments possibly gone"""
    from optv.tracker import Tracker
    from optv.parameters import TrackingParams, SequenceParams
    clean(); nc = s.i(1, 4); sc = C.Scene(s, nc, simple=True, maxim=1024); nf = s.i(1, 6); n = s.i(0, 8); first = s.pick([0, 1, 9, 10001]); step = s.r(.1, 2)
    p = sc.points(s, n) * .6; v = np.array([[s.r0(-step, step) for _ in range(3)] for _ in range(n)]).reshape(n, 3); hurt = s.i(0, 3)
    def put(name, text):
        if hurt and s.chance(1, 6):
            k = s.i(0, 5)
            if k == 0: return
            if k == 1: text = text[:s.i(0, len(text))]
            if k == 2: text = ''
            if k == 3: text = '%d\n' % s.pick([-1, 0, n + 1, 30000, 2147483647]) + text.split('\n', 1)[1]
            if k == 4: l = text.split('\n'); i = s.i(0, len(l) - 1); f = l[i].split(); f and f.__setitem__(s.i(0, len(f) - 1), s.pick(['-1', '999', 'nan', 'x', '1e99', '-2147483648'])); l[i] = ' '.join(f); text = '\n'.join(l)
            if k == 5: text += text
            s.label('broken file')
        open(name, 'w').write(text)
    for f in range(nf):
        pts = p + v * f; ix = []
        for c in range(nc):
            px = sc.pixels(c, pts); o = np.argsort(px[:, 1], kind='stable'); inv = [-1] * n; lines = []
            for j, i in enumerate(o): inv[i] = j; lines.append('%4d %9.4f %9.4f %5d %5d %5d %5d %5d' % (j, px[i, 0], px[i, 1], 9, 3, 3, 500, i))
            ix.append(inv); put('cam%d.%04d_targets' % (c, first + f) if first + f else 'cam%d._targets' % c, '%d\n' % n + '\n'.join(lines) + '\n')
        put('rt_is.%d' % (first + f), '%d\n' % n + ''.join('%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n' % ((i + 1,) + tuple(pts[i]) + tuple(ix[c][i] if c < nc else -1 for c in range(4))) for i in range(n)))
        if s.chance(1, 5): put('ptv_is.%d' % (first + f), '%d\n' % n + ''.join('%4d %4d %9.3f %9.3f %9.3f\n' % ((s.i(-1, n), s.i(-2, n)) + tuple(pts[i])) for i in range(n)))
        if s.chance(1, 5): put('added.%d' % (first + f), '%d\n' % n + ''.join('%4d %4d %9.3f %9.3f %9.3f %d %f\n' % ((s.i(-1, n), s.i(-2, n)) + tuple(pts[i]) + (4, 1.)) for i in range(n)))
    lim = step * s.r(1.1, 3)
    def make():
        sp = SequenceParams(image_base=['cam%d.' % c if not s.chance(1, 15) else 'q' * 230 for c in range(nc)], frame_range=(first + s.i(-1, 0), first + nf - 1 + s.i(-1, 1)))
        tt = TrackingParams(accel_lim=s.r(0, 3) * step, angle_lim=s.r(0, 200), velocity_lims=[[-lim, lim]] * 3, add_particle=s.i(0, 1))
        sp.set_img_base_name(0, 'cam0.'); names = dict(corres=bytes('rt_is', 'ascii'), linkage=bytes('ptv_is', 'ascii'), prio=bytes(s.pick(['added', 'nodir/added', 'a' * 260]), 'ascii'))
        return Tracker(sc.pycpar, sc.pyvpar, tt, sp, list(sc.pycals), names, s.pick([1e-4, 1e-6])), sp, tt
    t, sp, tt = make()
    if s.b(): sp = tt = None; sc = None; gc.collect()
    calls = []
    for _ in range(s.i(1, 9)):
        k = s.i(0, 7) if not hurt or s.b() else s.pick([1, 2, 4, 5]); calls.append(k)
        if k == 0: attempt(s, 'restart', t.restart)
        elif k < 4: attempt(s, 'step_forward', t.step_forward)
        elif k == 4: attempt(s, 'full_forward', t.full_forward)
        elif k == 5: attempt(s, 'full_backward', t.full_backward)
        elif k == 6: attempt(s, 'finalize', t.finalize)
        else:
            attempt(s, 'current_step', t.current_step)
            if sp is not None: sp.set_last(first + s.i(-1, nf))
            if tt is not None: tt.set_dvxmax(s.r0(-lim, 2 * lim)); tt.set_add(s.i(0, 1))
        if s.verbose: s.note('call %d', k)
    s.note('%d cameras, %d frames, %d particles, broken files %s, calls %s', nc, nf, n, hurt > 0, calls); s.nontrivial()

# --- requests that cannot be fulfilled -----------------------------------------------------------------------------
def impossible(s):
    from optv import transforms as T, imgcoord as I, orientation as O
    from optv.parameters import MultimediaParams, TrackingParams, SequenceParams, VolumeParams, ControlParams, TargetParams
    from optv.tracking_framebuf import Target, TargetArray, Frame, read_targets
    from optv.calibration import Calibration
    from optv.correspondences import MatchedCoords, correspondences
    from optv.segmentation import target_recognition
    from optv.image_processing import preprocess_image
    from optv.tracker import Tracker
    clean(); k = s.i(0, 25); n = s.i(1, 4); sc = C.Scene(s, n, maxim=64); bad = s.pick([n, n + 1, 4 if n < 4 else 5, 100, -1, -5, 2**31 - 1, -2**31]); m = s.i(0, 6); w = None
    def wrong(good): w = s.i(0, 7); return good + 1 if w == good else w
    def must(what, f, *a, **kw):
        try: f(*a, **kw)
        except SystemError as e: fail('%s: %s', what, e)
        except Exception: return
        fail('%s did not raise', what)
    if k == 0: o = SequenceParams(num_cams=n); must('name of camera %d of %d' % (bad, n), o.get_img_base_name, bad); must('setting the name of camera %d of %d' % (bad, n), o.set_img_base_name, bad, 'x')
    elif k == 1: o = sc.pycpar; [must('%s for camera %d of %d' % (f, bad, n), getattr(o, f), *((bad, 'x') if f[0] == 's' else (bad,))) for f in ('get_img_base_name', 'set_img_base_name', 'get_cal_img_base_name', 'set_cal_img_base_name')]
    elif k == 2: x = 'y' * s.i(240, 600); must('a name of %d characters' % len(x), sc.pycpar.set_img_base_name, 0, x); must('a name of %d characters' % len(x), sc.pycpar.set_cal_img_base_name, 0, x); must('a name of %d characters' % len(x), SequenceParams(num_cams=1).set_img_base_name, 0, x)
    elif k == 3: t = TargetArray(m); i = s.pick([m, m + 1, -1, 2**31 - 1, -2**31]); must('item %d of %d' % (i, m), t.__getitem__, i)
    elif k == 4: f = Frame(n); must('positions of an empty frame', f.positions); must('targets of an empty frame', f.target_positions_for_camera, 0); must('frame with few names', f.read, b'a', b'b', [b'c'] * (n - 1), 1, None)
    elif k == 5:
        open('rt.1', 'w').write('1\n1 1.0 2.0 3.0 -1 -1 -1 -1\n'); open('pt.1', 'w').write('1\n-1 -2 1.0 2.0 3.0\n'); [open('c%d0001_targets' % c, 'w').write('0\n') for c in range(n)]
        f = Frame(n); f.read(b'rt', b'pt', [b'c%d' % c for c in range(n)], 1, None); must('targets of camera %d of %d' % (bad, n), f.target_positions_for_camera, bad); check(f.positions().tolist() == [[1., 2., 3.]], 'positions of a frame')
    elif k == 6:
        f = [Calibration().from_file, TrackingParams().read_track_par, lambda x: SequenceParams(num_cams=1).read_sequence_par(x, n), VolumeParams().read_volume_par, ControlParams(n).read_control_par, TargetParams().read][s.i(0, 5)]
        must('reading a missing file', f, s.pick([b'missing', b'no/dir', b'm' * 300]))
    elif k == 7: must('reading missing targets', read_targets, s.pick(['missing', 'no/dir', 'm' * 300]), s.i(0, 9))
    elif k == 8: must('writing targets to a missing directory', C.mktargs([[1, 2, 3, 4, 5, 6, 0, 0]] * s.i(0, 3)).write, b'no/dir', s.i(0, 9)); must('writing a calibration to a missing directory', sc.pycals[0].write, b'no/dir', b'x'); must('writing distortion to a missing directory', sc.pycals[0].write, b'x', b'no/dir')
    elif k == 9: f, g = s.pick([('set_pos', 3), ('set_angles', 3), ('set_primary_point', 3), ('set_radial_distortion', 3), ('set_decentering', 2), ('set_affine_trans', 2), ('set_glass_vec', 3)]); q = wrong(g); must('%s with %d numbers' % (f, q), getattr(sc.pycals[0], f), np.zeros(q))
    elif k == 10: a, b = s.i(0, 7), s.i(0, 7); a == b and a <= 3 and s.discard(); must('layers of %d and %d numbers' % (a, b), MultimediaParams().set_layers, seq(s, [1.5] * a), seq(s, [1.5] * b))
    elif k == 11: f = s.pick(['set_X_lay', 'set_Zmin_lay', 'set_Zmax_lay']); q = wrong(2); must('%s with %d numbers' % (f, q), getattr(sc.pyvpar, f), seq(s, [1.] * q))
    elif k == 12: q = s.i(5, 9); must('%d grey thresholds' % q, TargetParams().set_grey_thresholds, seq(s, [1] * q)); must('reading %d grey thresholds' % q, TargetParams().get_grey_thresholds, q); must('reading -1 grey thresholds', TargetParams().get_grey_thresholds, -1)
    elif k == 13:
        q = wrong(2); a = np.zeros((m, q)); f, p = s.pick([(T.convert_arr_pixel_to_metric, sc.pycpar), (T.convert_arr_metric_to_pixel, sc.pycpar), (T.correct_arr_brown_affine, sc.pycals[0]), (T.distort_arr_brown_affine, sc.pycals[0]), (T.distorted_to_flat, sc.pycals[0])])
        must('transform of %d columns' % q, f, a, p); must('transform into another shape', f, np.zeros((m, 2)), p, np.zeros((m + s.i(1, 3), 2))); must('transform into another shape', f, np.zeros((m + 1, 2)), p, np.zeros((m, 2))); must('transform into %d columns' % q, f, np.zeros((m, 2)), p, np.zeros((m, q)))
    elif k == 14: q = wrong(3); f = s.pick([I.image_coordinates, I.flat_image_coordinates]); mm = sc.pycpar.get_multimedia_params(); must('projection of %d columns' % q, f, np.zeros((m, q)), sc.pycals[0], mm); must('projection into another shape', f, np.zeros((m + 1, 3)), sc.pycals[0], mm, np.zeros((m, 2))); must('projection into another shape', f, np.zeros((m, 3)), sc.pycals[0], mm, np.zeros((m, 3)))
    elif k == 15:
        imx, imy = s.i(1, 20), s.i(1, 20); cp = sc.pycpar; cp.set_image_size((imx, imy)); sh = [(imy + s.i(1, 3), imx), (imy, imx + s.i(1, 3)), (imy - 1, imx), (imy, imx - 1)][s.i(0, 3)]; a = np.zeros(sh, dtype=np.uint8)
        must('preprocessing an image of another size', preprocess_image, a, 0, cp); must('recognition in an image of another size', target_recognition, a, TargetParams(), 0, cp); g = np.zeros((imy, imx), dtype=np.uint8)
        must('preprocessing into an image of another size', preprocess_image, g, 0, cp, output_img=a); must('recognition in camera %d' % bad, target_recognition, g, TargetParams(), s.pick([4, 5, -1, 2**31 - 1]), cp)
        r = s.pick([(-1, 1), (0, imx + 1)]); must('recognition in columns %s of %d' % (r, imx), target_recognition, g, TargetParams(), 0, cp, subrange_x=r); r = s.pick([(-1, 1), (0, imy + 1)]); must('recognition in rows %s of %d' % (r, imy), target_recognition, g, TargetParams(), 0, cp, subrange_y=r)
        must('a negative grey threshold', target_recognition, g, TargetParams(0, [-s.i(1, 9)] * 4, (1, 2), (1, 2), (1, 2), 1, 1), 0, cp); must('a negative filter span', preprocess_image, g, 0, cp, s.pick([-1, -2**31])); must('a filter without a file', preprocess_image, g, 2, cp); must('a filter of a missing file', preprocess_image, g, 2, cp, 1, s.pick(['missing', b'missing', 'm' * 300]))
    elif k == 16:
        t = [C.mktargs([[1, 2, 3, 4, 5, 6, i, 0] for i in range(m)]) for _ in range(n)]; mc = [MatchedCoords(a, sc.pycpar, c) for a, c in zip(t, sc.pycals)]; d = s.i(0, 4)
        if d == 0: must('correspondences of a missing camera', correspondences, t[:-1], mc, sc.pycals, sc.pyvpar, sc.pycpar)
        if d == 1: must('correspondences of missing coordinates', correspondences, t, mc[:-1], sc.pycals, sc.pyvpar, sc.pycpar)
        if d == 2: must('correspondences of a missing calibration', correspondences, t, mc, sc.pycals[:-1], sc.pyvpar, sc.pycpar)
        if d == 3: must('correspondences of other targets', correspondences, t[:-1] + [C.mktargs([[1, 2, 3, 4, 5, 6, 0, 0]] * (m + 1))], mc, sc.pycals, sc.pyvpar, sc.pycpar)
        if d == 4 and m:
            t[0][s.i(0, m - 1)].set_pnr(m + s.i(0, 3)); mc[0] = MatchedCoords(t[0], sc.pycpar, sc.pycals[0], reset_numbers=False); must('correspondences of numbers without a target', correspondences, t, mc, sc.pycals, sc.pyvpar, sc.pycpar)
    elif k == 17: must('positions without a camera', O.point_positions, np.zeros((m, 0, 2)), sc.pycpar, [], sc.pyvpar); must('positions of more cameras', O.point_positions, np.zeros((m, n + s.i(1, 3) if n > 1 else 0, 2)), sc.pycpar, sc.pycals, sc.pyvpar); must('positions of 3 columns', O.point_positions, np.zeros((m, n, 3)), sc.pycpar, sc.pycals, sc.pyvpar)
    elif k == 18: must('dumbbells of more cameras', O.dumbbell_target_func, np.zeros((2 * m, n + s.i(1, 3), 2)), sc.pycpar, sc.pycals, 1., 1.); must('multiple cameras without calibrations', O.multi_cam_point_positions, np.zeros((m, n + 1, 2)), sc.pycpar, sc.pycals)
    elif k == 19:
        p = sc.points(s, m + 1); must('external calibration of few points', O.external_calibration, sc.pycals[0], p, np.zeros((m, 2)), sc.pycpar); must('external calibration of 2 columns', O.external_calibration, sc.pycals[0], p[:, :2], np.zeros((m + 1, 2)), sc.pycpar); must('external calibration with 3 columns', O.external_calibration, sc.pycals[0], p, np.zeros((m + 1, 3)), sc.pycpar)
        must('full calibration of few points', O.full_calibration, sc.pycals[0], p, TargetArray(m), sc.pycpar); must('full calibration of 2 columns', O.full_calibration, sc.pycals[0], p[:, :2], TargetArray(m + 1), sc.pycpar); must('matching of 2 columns', O.match_detection_to_ref, sc.pycals[0], p[:, :2], TargetArray(m + 1), sc.pycpar)
    elif k in (20, 21):
        nm = dict(corres=b'a', linkage=b'b', prio=b'c'); sp = SequenceParams(image_base=['c'] * n, frame_range=(1, 2)); tp = TrackingParams()
        if k == 20: must('tracker without a calibration', Tracker, sc.pycpar, sc.pyvpar, tp, sp, sc.pycals[:-1], nm); n > 1 and must('tracker without an image name', Tracker, sc.pycpar, sc.pyvpar, tp, SequenceParams(num_cams=n - 1), sc.pycals, nm); must('tracker of other objects', Tracker, sc.pycpar, sc.pyvpar, tp, sp, [3] * n, nm); must('tracker without names', Tracker, sc.pycpar, sc.pyvpar, tp, sp, sc.pycals, dict(corres=b'a'))
        else: t = Tracker(sc.pycpar, sc.pyvpar, tp, sp, sc.pycals, nm); must('a step before the start', t.step_forward); must('the end before the start', t.finalize)
    elif k == 22: must('positions with other objects', O.point_positions, np.zeros((m, n, 2)), sc.pycpar, [s.pick([3, 'x', sc.pycpar])] * n, sc.pyvpar)
    elif k == 23: a = sc.pycpar; f = s.pick(['set_image_size', 'set_pixel_size']); q = wrong(2); q < 2 and must('%s with %d numbers' % (f, q), getattr(a, f), (1,) * q)
    elif k == 24: must('image names beyond the cameras', SequenceParams, image_base=['z' * s.i(240, 400)], frame_range=(1, 2))
    else: q = s.pick(['set_pixel_count_bounds', 'set_xsize_bounds', 'set_ysize_bounds']); must('%s with one number' % q, getattr(TargetParams(), q), (1,)); must('epipolar curve of one coordinate', __import__('optv.epipolar').epipolar.epipolar_curve, np.zeros(1), sc.pycals[0], sc.pycals[0], 3, sc.pycpar, sc.pyvpar)
    s.note('request %d', k); s.label('request %d' % k); s.nontrivial()

SUBS = [
    ('history', 6000, 120000, history),
    ('lifetimes', 3000, 40000, lifetimes),
    ('tracker', 1200, 20000, tracker),
    ('impossible', 3000, 40000, impossible),
]
