"""P25: the Python interface returns what the C library computes."""
import ctypes, math, os, shutil
import numpy as np
from pbtpy import check, fail
import common as C
from common import dp, vec, bits, D, Scene, layout

def untouched(a, a0, what): check(bits(a, a0), '%s changed its input', what)

def same(got, want, what, *a):
    got = np.asarray(got); want = np.asarray(want)
    check(got.shape == want.shape, '%s: shape %s, expected %s', what % a if a else what, got.shape, want.shape)
    if not bits(got, want):
        k = np.argwhere(~((got == want) | ((got != got) & (want != want))))[0]
        fail('%s: element %s is %r, the library computes %r', what % a if a else what, tuple(k), got[tuple(k)], want[tuple(k)])

def transforms(s):
    from optv import transforms as T
    op = s.i(0, 4); sc = Scene(s, 1, field=s.i(0, 2)); n = s.i(0, 9)
    if op == 0: pts = [[s.r0(-10, sc.imx + 10), s.r0(-10, sc.imy + 10)] for _ in range(n)]
    else: pts = [[s.r0(-8, 8), s.r0(-8, 8)] for _ in range(n)]
    pts = np.array(pts, dtype=float).reshape(n, 2)
    inp = layout(s, pts); keep = inp.copy(); mode = s.i(0, 3); tol = s.pick([1e-5, 1e-8, .1])
    out = None if mode == 0 else inp if mode == 1 else layout(s, np.full((n, 2), 99.))
    s.note('op %d n %d out %s', op, n, ['new', 'in place', 'given', 'given'][mode])
    want = np.empty((n, 2)); C.L.s_transform(op, dp(vec(sc.cals[0])), dp(vec(sc.cpar)), n, dp(vec(pts)), dp(want), D(tol if op == 4 else 1e-5))
    if op < 2: r = [T.convert_arr_pixel_to_metric, T.convert_arr_metric_to_pixel][op](inp, sc.pycpar, out)
    elif op < 4: r = [T.correct_arr_brown_affine, T.distort_arr_brown_affine][op - 2](inp, sc.pycals[0], out)
    else: r = T.distorted_to_flat(inp, sc.pycals[0], out, tol)
    if op == 4 and r is None: fail('distorted_to_flat returned nothing')
    if out is not None: check(r is out, 'the given output array is not returned')
    same(r, want, 'transform %d', op)
    if mode != 1: untouched(inp, keep, 'transform %d' % op)
    if n: s.nontrivial()
    s.label('empty' if n == 0 else 'points')

def projection(s):
    from optv.imgcoord import image_coordinates, flat_image_coordinates
    op = s.i(0, 1); sc = Scene(s, 1); n = s.i(0, 8); pts = sc.points(s, n); inp = layout(s, pts)
    out = None if s.b() else layout(s, np.full((n, 2), 7.))
    s.note('distorted %d n %d out %s', op, n, out is not None)
    want = np.empty((n, 2)); C.L.s_project(op, dp(vec(sc.cals[0])), dp(vec(sc.mm)), n, dp(vec(pts)), dp(want))
    mm = C.mkmm(sc.mm) if s.b() else sc.pycpar.get_multimedia_params()
    r = [flat_image_coordinates, image_coordinates][op](inp, sc.pycals[0], mm, out) if out is not None else [flat_image_coordinates, image_coordinates][op](inp, sc.pycals[0], mm)
    if out is not None: check(r is out, 'the given output array is not returned')
    same(r, want, 'projection'); untouched(inp, pts, 'projection')
    if n: s.nontrivial()

def epipolar(s):
    from optv.epipolar import epipolar_curve
    sc = Scene(s, 2, field=s.i(0, 2)); sc.vpar[3] = sc.vpar[2]; sc.vpar[5] = sc.vpar[4]; vp = C.mkvpar(sc.vpar)
    n = s.i(1, 9); pt = layout(s, [s.r(0, sc.imx), s.r(0, sc.imy)]); keep = pt.copy()
    z = np.linspace(sc.vpar[2], sc.vpar[4], n); want = np.empty((n, 2))
    C.L.s_epi(dp(vec(keep)), dp(vec(sc.cals[0])), dp(vec(sc.cals[1])), dp(vec(sc.cpar)), n, dp(z), dp(want))
    s.note('point %s, %d points', keep, n)
    same(epipolar_curve(pt, sc.pycals[0], sc.pycals[1], n, sc.pycpar, vp), want, 'epipolar curve'); untouched(pt, keep, 'epipolar_curve')
    if n > 1: s.nontrivial()

def positions(s):
    from optv.orientation import point_positions
    sc = Scene(s); n = s.i(0, 6); pts = sc.points(s, n)
    t = np.empty((n, sc.ncam, 2)); cals = vec(sc.cals)
    for c in range(sc.ncam):
        p = sc.project(c, pts); C.L.s_transform(4, dp(cals[c].copy()), dp(vec(sc.cpar)), n, dp(p.copy()), dp(p), D(1e-8)); t[:, c] = p
    t += np.array([s.r0(-.01, .01) for _ in range(t.size)]).reshape(t.shape) if s.b() and t.size else 0
    if sc.ncam > 2 and n and s.b(): t[s.i(0, n - 1), s.i(0, sc.ncam - 1)] = -1e10     # COORD_UNUSED
    arr = layout(s, t); keep = arr.copy(); s.note('%d cameras, %d points', sc.ncam, n)
    res, rcm = point_positions(arr, sc.pycpar, sc.pycals, sc.pyvpar)
    wr, wm = np.empty((n, 3)), np.zeros(n)
    if sc.ncam == 1: C.L.s_single(dp(cals[0].copy()), dp(vec(sc.mm)), dp(vec(sc.vpar)), n, 1, dp(vec(t)), dp(wr))
    else: C.L.s_positions(sc.ncam, dp(cals), dp(vec(sc.mm)), n, dp(vec(t)), dp(wr), dp(wm))
    same(res, wr, 'positions of %d cameras', sc.ncam); same(rcm, wm, 'ray convergence of %d cameras', sc.ncam); untouched(arr, keep, 'point_positions')
    if sc.ncam > 1 and n and t.min() > -1e9 and np.all(np.abs(t) < 1e3): s.label('multi camera')
    if n: s.nontrivial()
    s.label('cameras %d' % sc.ncam)

def dumbbell(s):
    from optv.orientation import dumbbell_target_func
    sc = Scene(s, s.i(2, 4)); n = 2 * s.i(1, 4); pts = sc.points(s, n); t = np.empty((n, sc.ncam, 2))
    for c in range(sc.ncam): t[:, c] = sc.project(c, pts)
    ln = s.r(1, 50) if s.b() else float(s.i(1, 50)); w = s.r(0, 3); keep = t.copy()
    s.note('%d cameras, %d points, length %g weight %g', sc.ncam, n, ln, w)
    want = C.L.s_dumbbell(sc.ncam, dp(sc.ccals()), dp(vec(sc.mm)), n, dp(vec(t)), D(ln), D(w))
    same(dumbbell_target_func(t, sc.pycpar, sc.pycals, ln, w), want, 'dumbbell target function'); untouched(t, keep, 'dumbbell_target_func')
    s.nontrivial()

def gen_image(s, imx, imy):
    img = np.zeros((imy, imx), dtype=np.uint8)
    if s.b(): img += np.uint8(s.i(0, 30))
    for _ in range(s.i(0, 7)):
        x, y, r, g = s.i(1, imx - 2), s.i(1, imy - 2), s.i(0, 3), s.i(40, 255)
        for dy in range(-r, r + 1):
            for dx in range(-r, r + 1):
                if 0 <= y + dy < imy and 0 <= x + dx < imx and dx * dx + dy * dy <= r * r: img[y + dy, x + dx] = max(img[y + dy, x + dx], g - (g // 3) * (abs(dx) + abs(dy)) // (r + 1))
    return img

def img_layout(s, img):
    k = s.i(0, 3)
    if k == 1: return np.asfortranarray(img)
    if k == 2:
        b = np.full((2 * img.shape[0] + 1, 2 * img.shape[1] + 1), 200, dtype=np.uint8); v = b[1::2, 1::2]; v[...] = img; return v
    if k == 3: return np.ascontiguousarray(img[::-1])[::-1]
    return img.copy()

def recognition(s):
    from optv.segmentation import target_recognition
    from optv.parameters import TargetParams
    imx, imy = s.i(8, 48), s.i(8, 48); img = gen_image(s, imx, imy)
    tp = [s.i(20, 120) for _ in range(4)] + [s.i(0, 60), s.i(1, 4), s.i(20, 200), s.i(1, 3), s.i(8, 30), s.i(1, 3), s.i(8, 30), s.i(0, 300), 2]
    par = TargetParams(tp[4], tp[:4], (tp[5], tp[6]), (tp[7], tp[8]), (tp[9], tp[10]), tp[11], tp[12]); cam = s.i(0, 3)
    cp = [4, imx, imy, .01, .01, 0, 0, 1, 1, 1, 1, 1, 1, 0, 0, 0]; pc = C.mkcpar(cp)
    b = [0, imx, 0, imy]; kw = {}
    if s.b(): b[0] = s.i(0, imx - 4); b[1] = s.i(b[0] + 1, imx); kw['subrange_x'] = (b[0], b[1])
    if s.b(): b[2] = s.i(0, imy - 4); b[3] = s.i(b[2] + 1, imy); kw['subrange_y'] = (b[2], b[3])
    inp = img_layout(s, img)
    got = C.rowsof(target_recognition(inp, par, cam, pc, **kw))
    want = np.zeros((imx * imy + 1, 8)); im2 = img.copy()
    n = C.L.s_targ_rec(dp(im2), dp(np.array(tp, dtype=np.int32)), dp(np.array(b, dtype=np.int32)), cam, dp(vec(cp)), dp(want), len(want))
    s.note('%dx%d camera %d thresholds %s range %s: %d targets', imx, imy, cam, tp[:4], b, n)
    same(got, want[:n], 'recognised targets'); check(np.array_equal(inp, img), 'target_recognition changed its input')
    if n: s.nontrivial()
    s.label('%s targets' % ('no' if n == 0 else 'some'))

def preprocess(s):
    from optv.image_processing import preprocess_image
    imx, imy = s.i(3, 30), s.i(3, 30); img = np.array([s.i(0, 255) for _ in range(imx * imy)], dtype=np.uint8).reshape(imy, imx) if s.b() else gen_image(s, imx, imy)
    cp = [1, imx, imy, .01, .01, s.i(0, 2), 0, 1, 1, 1, 1, 1, 1, 0, 0, 0]; pc = C.mkcpar(cp)
    span = s.i(0, (min(imx, imy) - 1) // 2); filt = s.i(0, 2); ff = None
    if filt == 2:
        k = [s.r0(-1, 2) for _ in range(9)]; k[4] += 3
        open('filter.par', 'w').write('\n'.join(' '.join('%.6f' % v for v in k[3 * r:3 * r + 3]) for r in range(3)) + '\n'); ff = s.pick(['filter.par', b'filter.par'])
    inp = img_layout(s, img); out = None if s.b() else img_layout(s, np.full((imy, imx), 3, dtype=np.uint8))
    kw = dict(lowpass_dim=span)
    if ff is not None: kw['filter_file'] = ff
    if out is not None: kw['output_img'] = out
    r = preprocess_image(inp, filt, pc, **kw)
    want = np.full((imy, imx), 3, dtype=np.uint8) if out is not None else np.empty((imy, imx), dtype=np.uint8); im2 = img.copy()
    ok = C.L.s_prepare(dp(im2), dp(want), span, filt, b'filter.par' if filt == 2 else b'', dp(vec(cp)))
    check(ok == 1, 'the library refuses what the binding accepts')
    s.note('%dx%d field %d span %d filter %d', imx, imy, int(cp[5]), span, filt)
    if out is not None: check(r is out, 'the given output image is not returned')
    check(r.dtype == np.uint8 and r.shape == img.shape, 'result is %s %s', r.dtype, r.shape)
    if int(cp[5]) == 0 or out is not None: check(np.array_equal(r, want), 'preprocessed image differs from the library\'s at %s', np.argwhere(r != want)[:1].tolist())
    check(np.array_equal(inp, img), 'preprocess_image changed its input')
    s.nontrivial(); s.label('filter %d' % filt)

def matching(s):
    from optv.correspondences import MatchedCoords, correspondences
    nc = s.i(1, 4); sc = Scene(s, nc, simple=s.b(), eps=s.pick([.02, .05, .2])); sc.cpar[6] = s.i(0, 1); sc.pycpar = C.mkcpar(sc.cpar); n = s.i(0, 9); pts = sc.points(s, n)
    rows, pyt, mc, crd = [], [], [], []
    for c in range(nc):
        px = sc.pixels(c, pts); r = []
        for i in range(n):
            if s.chance(1, 6): continue
            r.append([px[i][0] + s.r0(-.2, .2), px[i][1] + s.r0(-.2, .2), s.i(9, 14), s.i(3, 4), s.i(3, 4), s.i(800, 1200), 0, -1])
        for _ in range(s.i(0, 2)): r.append([s.r(0, sc.imx), s.r(0, sc.imy), s.i(2, 30), s.i(1, 6), s.i(1, 6), s.i(100, 2000), 0, -1])
        if r and s.b(): k = s.i(0, len(r) - 1); r = r[k:] + r[:k]
        for k, x in enumerate(r): x[6] = k
        rows.append(vec(r).reshape(len(r), 8)); t = C.mktargs(r); pyt.append(t); tol = s.pick([1e-5, 1e-8])
        m = MatchedCoords(t, sc.pycpar, sc.pycals[c], tol) if s.b() else MatchedCoords(t, sc.pycpar, sc.pycals[c], tol, reset_numbers=False)
        mc.append(m); w = np.empty((len(r), 3)); C.L.s_matched(dp(rows[-1]), len(r), dp(vec(sc.cpar)), dp(vec(sc.cals[c])), D(tol), dp(w)); crd.append(w)
        pos, pnr = m.as_arrays(); same(pos, w[:, :2], 'matched coordinates of camera %d', c); same(pnr, w[:, 2].astype(int), 'numbers of matched coordinates of camera %d', c)
        check(not np.all(np.isfinite(pos)) or bool(np.all(np.diff(pos[:, 0]) >= 0)), 'matched coordinates are not sorted by x: %s', pos[:, 0].tolist())
        if len(r):
            q = np.array([s.i(0, len(r) - 1) for _ in range(s.i(0, 3))], dtype=int); q = np.unique(q)[::-1].copy() if s.b() else np.unique(q)
            g = m.get_by_pnrs(q); same(g, np.array([w[w[:, 2] == v][0, :2] for v in q]).reshape(len(q), 2), 'get_by_pnrs')
    pos, ids, num = correspondences(pyt, mc, sc.pycals, sc.pyvpar, sc.pycpar)
    if nc == 1:
        check(len(pos) == 1 and len(ids) == 1 and num == len(rows[0]), 'one camera: %d, %d groups, %s targets of %d', len(pos), len(ids), num, len(rows[0]))
        order = crd[0][:, 2].astype(int); same(ids[0], order.reshape(1, -1), 'one camera: identifiers'); same(pos[0][0], rows[0][order, :2], 'one camera: positions'); s.label('1 camera')
        for k, i in enumerate(order): check(pyt[0][int(i)].tnr() == k, 'one camera: target %d has tnr %d, not %d', i, pyt[0][int(i)].tnr(), k)
        if n: s.nontrivial()
        return
    PT = ctypes.c_void_p * nc; nt = np.array([len(r) for r in rows], dtype=np.int32); cnt = np.zeros(4, dtype=np.int32); out = np.zeros((4000, 4), dtype=np.int32); rr = [r.copy() for r in rows]
    tot = C.L.s_correspond(nc, dp(nt), PT(*[r.ctypes.data for r in rr]), PT(*[w.ctypes.data for w in crd]), dp(sc.ccals()), dp(vec(sc.vpar)), dp(vec(sc.cpar)), dp(cnt), dp(out), len(out))
    s.note('%d cameras, targets %s: quadruplets, triplets, pairs %s', nc, nt.tolist(), cnt.tolist())
    check(num == tot, 'total %s, the library has %d', num, tot); check(len(pos) == nc - 1 and len(ids) == nc - 1, '%d groups of positions, %d of identifiers for %d cameras', len(pos), len(ids), nc)
    k = 0
    for g in range(nc - 1):
        m = int(cnt[4 - nc + g]); wi = np.full((nc, m), -1); wp = np.full((nc, m, 2), -999.)
        for p in range(m):
            for c in range(nc):
                j = out[k + p, c]
                if j >= 0: t = int(crd[c][j, 2]); wi[c, p] = t; wp[c, p] = rows[c][t, :2]
        k += m
        check(ids[g].shape == wi.shape, 'identifiers of group %d: shape %s, expected %s', g, ids[g].shape, wi.shape)
        same(np.where(ids[g] < 0, -1, ids[g]), wi, 'identifiers of group %d', g); same(pos[g], wp, 'positions of group %d', g)
        if m: check(bool(np.all((ids[g] >= 0).sum(axis=0) == nc - g)), 'group %d has matches of other than %d targets', g, nc - g)
    for c in range(nc): same(C.rowsof(pyt[c]), rr[c], 'targets of camera %d after matching', c)
    if tot: s.nontrivial(); s.label('%d cameras' % nc)

def calibration(s):
    from optv.orientation import match_detection_to_ref, external_calibration, full_calibration
    from optv.tracking_framebuf import TargetArray
    sc = Scene(s, 1); op = s.i(0, 2); cp = dp(vec(sc.cpar))
    if op == 0:
        n = s.i(0, 8); pts = sc.points(s, n); px = sc.pixels(0, pts); r = []
        for i in range(n):
            if not s.chance(1, 5): r.append([px[i][0] + s.r0(-4, 4), px[i][1] + s.r0(-4, 4), 9, 3, 3, 500, 0, 5])
        for _ in range(s.i(0, 3)): r.append([s.r(0, sc.imx), s.r(0, sc.imy), 4, 2, 2, 100, 0, 5])
        if r and s.b(): r.reverse()
        eps = s.i(1, 30); inp = layout(s, pts); rows = vec(r).reshape(len(r), 8); t = C.mktargs(r)
        got = match_detection_to_ref(sc.pycals[0], inp, t, sc.pycpar, eps); want = np.zeros((n, 8)); C.L.s_sortgrid(dp(vec(sc.cals[0])), cp, n, dp(vec(pts)), dp(rows), len(r), eps, dp(want))
        check(len(got) == n, '%d sorted targets for %d points', len(got), n)
        g = C.rowsof(got); same(g[:, 6], want[:, 6], 'numbers of sorted targets'); m = want[:, 6] >= 0; same(g[m], want[m], 'sorted targets'); untouched(inp, pts, 'match_detection_to_ref'); same(C.rowsof(t), rows, 'targets after sorting')
        s.note('%d points %d detections: %d found', n, len(r), int(m.sum()))
        if m.any(): s.nontrivial(); s.label('sorted')
        return
    n = s.i(6, 14); pts = sc.points(s, n); start = list(sc.cals[0]); px = sc.pixels(0, pts)
    for k in range(3): start[k] += s.r0(-3, 3); start[3 + k] += s.r0(-.02, .02)
    cal = C.mkcal(start); cv = vec(start); extra = s.i(0, 2)
    if op == 1:
        img = layout(s, np.vstack([px, np.full((extra, 2), 50.)])); keep = img.copy(); inp = layout(s, pts)
        got = external_calibration(cal, inp, img, sc.pycpar); rows = np.zeros((n, 8)); rows[:, :2] = px; rows[:, 6] = 0
        ok = C.L.s_raw(dp(cv), cp, n, dp(vec(pts)), dp(rows)); check(got is bool(ok), 'external_calibration returned %r, the library %d', got, ok); untouched(img, keep, 'external_calibration'); untouched(inp, pts, 'external_calibration'); s.label('external %s' % ok)
    else:
        names = ['cc', 'xh', 'yh', 'k1', 'k2', 'k3', 'p1', 'p2', 'scale', 'shear']; fl = np.array([1 if s.chance(1, 4) else 0 for _ in names], dtype=np.int32)
        flags = [a for a, f in zip(names, fl) if f]
        rows = np.zeros((n + extra, 8)); rows[:n, :2] = px; rows[:, 6] = [-999 if s.chance(1, 8) else i for i in range(n)] + [-999] * extra
        t = C.mktargs(rows); inp = layout(s, pts); resi = np.zeros((n, 2)); err = np.zeros(40); npar = ctypes.c_int(0)
        cs = cv.copy(); ok = C.L.s_orient(dp(cs), cp, n, dp(vec(pts)), dp(rows[:n].copy()), dp(fl), dp(resi), dp(err), ctypes.byref(npar))
        if not ok:
            try: full_calibration(cal, inp, t, sc.pycpar, flags)
            except ValueError: pass
            else: fail('full_calibration did not raise although the library failed')
            s.label('full failed')
        else:
            cv = cs; ret, used, e = full_calibration(cal, inp, t, sc.pycpar, flags)
            wu = np.array([i for i in range(n) if rows[i, 6] == i], dtype=int)
            same(used, wu, 'targets used'); same(ret, resi[:len(wu)], 'residuals'); check(len(e) >= npar.value + 1, 'error estimates: %d', len(e)); same(e[:npar.value + 1], err[:npar.value + 1], 'error estimates')
            s.label('full ok'); 
            if len(wu) < n: s.label('some unmatched')
        untouched(inp, pts, 'full_calibration')
        s.note('flags %s, %d points, %d unmatched', flags, n, int((rows[:n, 6] < 0).sum()))
    got = np.concatenate([cal.get_pos(), cal.get_angles(), cal.get_primary_point(), cal.get_radial_distortion(), cal.get_decentering(), cal.get_affine(), cal.get_glass_vec()])
    same(got, cv, 'calibration'); dm = np.empty((3, 3)); C.L.s_rotation(dp(cv), dp(dm))
    s.nontrivial()

# --- objects as records: what is set is read back -------------------------------------------------------------
def val(s):
    k = s.i(0, 5)
    return 0. if k == 0 else float(s.i(-5, 5)) if k == 1 else s.r0(-1e6, 1e6) if k == 2 else s.r0(-1, 1)
def ival(s): return s.i(0, 10) - 3 if s.b() else s.i(-2**31, 2**31 - 1) if s.b() else s.i(0, 70000)
def seqof(s, l):
    k = s.i(0, 2); return l if k == 0 else tuple(l) if k == 1 else np.array(l)
def name(s): return ''.join(s.pick('abcxyz019/._-%') for _ in range(s.i(0, 12))) + ('é' if s.chance(1, 8) else '') + ('n' * s.i(100, 215) if s.chance(1, 12) else '')

def other(v): return np.where(np.asarray(v) == -1, 5., np.asarray(v) * 2 + 1) if isinstance(v, np.ndarray) else 5. if v == -1 else v * 2 + 1

def records(s):
    from optv import parameters as P
    from optv.calibration import Calibration
    from optv.tracking_framebuf import Target
    kind = s.i(0, 7); steps = s.i(1, 12)
    def sc(o, m, attr, g, conv=lambda x: x):
        v = g(s); getattr(o, 'set_' + attr)(v); m[attr] = conv(v)
    def chk(o, m, kindname):
        for k, v in m.items():
            if isinstance(k, tuple): got = getattr(o, 'get_' + k[0])(k[1])
            else: got = getattr(o, 'get_' + k)()
            ok = bits(np.asarray(got), np.asarray(v)) if isinstance(v, np.ndarray) else got == v
            check(ok, '%s: %s is %r, %r was set', kindname, k, got, v)
    f = lambda n: (lambda s: [val(s) for _ in range(n)])
    if kind == 0:
        kw = {}; m = {}
        o = P.MultimediaParams(); m = dict(nlay=1, n1=1., n3=1., n2=np.array([1., 1., 1.]), d=np.array([0., 0., 0.]))
        if s.b():
            n = s.i(1, 3); n2, d = f(n)(s), f(n)(s); n1, n3 = val(s), val(s); o = P.MultimediaParams(n1=n1, n2=seqof(s, n2), n3=n3, d=seqof(s, d)); m.update(n1=n1, n3=n3, nlay=n); m['n2'][:n] = n2; m['d'][:n] = d
        for _ in range(steps):
            k = s.i(0, 3)
            if k == 0: sc(o, m, 'n1', val)
            if k == 1: sc(o, m, 'n3', val)
            if k == 2:
                n = s.i(1, 3); n2, d = f(n)(s), f(n)(s); o.set_layers(seqof(s, n2), seqof(s, d)); m['nlay'] = n; m['n2'] = m['n2'].copy(); m['d'] = m['d'].copy(); m['n2'][:n] = n2; m['d'][:n] = d
            if k == 3:
                v = o.get_n2(copy=s.b()); v2 = o.get_d(copy=False); x = val(s); v2[s.i(0, 2)] = x; m['d'] = v2.copy()
                w = o.get_n2(copy=True); w[0] = 1e33
            chk(o, m, 'MultimediaParams')
        p = P.MultimediaParams(n1=m['n1'], n2=m['n2'], d=m['d'], n3=m['n3'])
        if m['nlay'] == 3: check((p == o) and not (p != o), 'equal MultimediaParams do not compare equal')
        p.set_n1(m['n1'] + 1.); check(p != o and not (p == o), 'different MultimediaParams compare equal')
    elif kind == 1:
        o = P.TrackingParams(); m = {a: 0 for a in ['dacc', 'dangle', 'dvxmax', 'dvxmin', 'dvymax', 'dvymin', 'dvzmax', 'dvzmin', 'dsumg', 'dn', 'dnx', 'dny', 'add']}
        if s.b():
            v = [val(s) for _ in range(8)]; a = s.i(0, 1); o = P.TrackingParams(accel_lim=v[0], angle_lim=v[1], velocity_lims=seqof(s, [[v[2], v[3]], [v[4], v[5]], [v[6], v[7]]]), add_particle=a)
            m.update(dacc=v[0], dangle=v[1], dvxmin=v[2], dvxmax=v[3], dvymin=v[4], dvymax=v[5], dvzmin=v[6], dvzmax=v[7], add=a)
        for _ in range(steps):
            a = s.pick(sorted(m)); sc(o, m, a, ival if a in ('dsumg', 'dn', 'dnx', 'dny') else (lambda s: s.i(0, 1)) if a == 'add' else val); chk(o, m, 'TrackingParams')
        p = P.TrackingParams(); [getattr(p, 'set_' + a)(v) for a, v in m.items()]; check(p == o and not (p != o), 'equal TrackingParams do not compare equal')
        a = s.pick(['dacc', 'dangle', 'dvxmax', 'dvxmin', 'dvymax', 'dvymin', 'dvzmax', 'dvzmin']); getattr(p, 'set_' + a)(other(m[a])); check(p != o and not (p == o), 'TrackingParams that differ in %s compare equal', a)
    elif kind == 2:
        n = s.i(1, 4); m = {}; names = [name(s) for _ in range(n)]; r = (ival(s), ival(s))
        if s.b(): o = P.SequenceParams(image_base=names, frame_range=r); m = dict(first=r[0], last=r[1]); m.update({('img_base_name', c): names[c].encode('utf-8') for c in range(n)})
        else: o = P.SequenceParams(num_cams=n)
        for _ in range(steps):
            k = s.i(0, 2)
            if k == 0: sc(o, m, 'first', ival)
            if k == 1: sc(o, m, 'last', ival)
            if k == 2: c = s.i(0, n - 1); v = name(s); o.set_img_base_name(c, v); m[('img_base_name', c)] = v.encode('utf-8')
            chk(o, m, 'SequenceParams')
        if len(m) == n + 2:
            p = P.SequenceParams(num_cams=n); p.set_first(m['first']); p.set_last(m['last']); [p.set_img_base_name(c, m[('img_base_name', c)].decode('utf-8')) for c in range(n)]
            check(p == o and not (p != o), 'equal SequenceParams do not compare equal'); p.set_img_base_name(n - 1, p.get_img_base_name(n - 1).decode('utf-8') + 'q'); check(p != o, 'SequenceParams of different names compare equal')
    elif kind == 3:
        o = P.VolumeParams(); m = {}; ks = ['cn', 'cnx', 'cny', 'csumg', 'eps0', 'corrmin']; ar = ['X_lay', 'Zmin_lay', 'Zmax_lay']
        if s.b():
            v = [val(s) for _ in range(12)]; o = P.VolumeParams(x_span=seqof(s, v[:2]), z_spans=[(v[2], v[3]), (v[4], v[5])], pixels_tot=v[6], pixels_x=v[7], pixels_y=v[8], ref_gray=v[9], epipolar_band=v[10], min_correlation=v[11])
            m = dict(X_lay=np.array(v[:2]), Zmin_lay=np.array([v[2], v[4]]), Zmax_lay=np.array([v[3], v[5]]), cn=v[6], cnx=v[7], cny=v[8], csumg=v[9], eps0=v[10], corrmin=v[11])
        for _ in range(steps):
            if s.b(): sc(o, m, s.pick(ks), val)
            else: a = s.pick(ar); v = f(2)(s); getattr(o, 'set_' + a)(seqof(s, v)); m[a] = np.array(v)
            if s.chance(1, 4): a = s.pick(ar); w = getattr(o, 'get_' + a)(); w[:] = 1e9; w = getattr(o, 'get_' + a)(copy=False); w[1] = val(s); m[a] = w.copy()
            chk(o, m, 'VolumeParams')
        p = P.VolumeParams(); q = P.VolumeParams(); check(p == q, 'empty VolumeParams differ')
        for a in ks + ar:
            if a in m: getattr(p, 'set_' + a)(m[a])
        if len(m) == 9: check(p == o and not (p != o), 'equal VolumeParams do not compare equal'); a = s.pick(ks + ar); getattr(p, 'set_' + a)(other(m[a])); check(p != o and not (p == o), 'VolumeParams that differ in %s compare equal', a)
    elif kind == 4:
        n = s.i(1, 4); fl = [a for a in ['hp', 'allcam', 'headers'] if s.b()]; m = {}; sz = (s.i(1, 5000), s.i(1, 5000)); px = (val(s), val(s))
        o = P.ControlParams(n, fl, sz, px, 1.5, [1.25], [3.], 1.75) if s.b() else P.ControlParams(n, flags=fl, image_size=seqof(s, list(sz)), pixel_size=seqof(s, list(px)), cam_side_n=1.5, wall_ns=[1.25], wall_thicks=[3.], object_side_n=1.75)
        m = dict(num_cams=n, hp_flag='hp' in fl, allCam_flag='allcam' in fl, tiff_flag='headers' in fl, image_size=sz, pixel_size=px, chfield=0); mm = o.get_multimedia_params(); check((mm.get_n1(), mm.get_n3(), mm.get_n2()[0], mm.get_d()[0], mm.get_nlay()) == (1.5, 1.75, 1.25, 3., 1), 'media of ControlParams')
        for _ in range(steps):
            k = s.i(0, 8)
            if k < 3: sc(o, m, ['hp_flag', 'allCam_flag', 'tiff_flag'][k], lambda s: s.b())
            if k == 3: sc(o, m, 'image_size', lambda s: (s.i(0, 9000), s.i(0, 9000)))
            if k == 4: sc(o, m, 'pixel_size', lambda s: (val(s), val(s)))
            if k == 5: sc(o, m, 'chfield', lambda s: s.i(0, 2))
            if k == 6: c = s.i(0, n - 1); v = name(s); o.set_img_base_name(c, v); m[('img_base_name', c)] = v.encode('utf-8')
            if k == 7: c = s.i(0, n - 1); v = name(s); o.set_cal_img_base_name(c, v); m[('cal_img_base_name', c)] = v.encode('utf-8')
            if k == 8: o.get_multimedia_params().set_n1(s.r(1, 2))
            chk(o, m, 'ControlParams')
    elif kind == 5:
        o = P.TargetParams(); m = dict(max_discontinuity=0, grey_thresholds=np.zeros(4), pixel_count_bounds=(0, 1000), xsize_bounds=(0, 100), ysize_bounds=(0, 100), min_sum_grey=0, cross_size=2)
        if s.b(): v = [ival(s) for _ in range(13)]; o = P.TargetParams(v[0], seqof(s, v[1:5]), (v[5], v[6]), (v[7], v[8]), (v[9], v[10]), v[11], v[12]); m = dict(max_discontinuity=v[0], grey_thresholds=np.array(v[1:5]), pixel_count_bounds=(v[5], v[6]), xsize_bounds=(v[7], v[8]), ysize_bounds=(v[9], v[10]), min_sum_grey=v[11], cross_size=v[12])
        for _ in range(steps):
            a = s.pick(sorted(m))
            if a.endswith('bounds'): sc(o, m, a, lambda s: (ival(s), ival(s)))
            elif a == 'grey_thresholds': n = s.i(0, 4); v = [ival(s) for _ in range(n)]; o.set_grey_thresholds(seqof(s, v)); m[a] = np.concatenate([np.array(v, dtype=float), m[a][n:]])
            else: sc(o, m, a, ival)
            chk(o, m, 'TargetParams'); n = s.i(0, 4); check(bits(o.get_grey_thresholds(n), m['grey_thresholds'][:n]), 'first %d thresholds', n)
    elif kind == 6:
        o = Calibration(); m = dict(pos=np.zeros(3), angles=np.zeros(3), primary_point=np.zeros(3), radial_distortion=np.zeros(3), decentering=np.zeros(2), affine=np.array([1., 0]), glass_vec=np.zeros(3)); st = dict(affine='affine_trans')
        if s.b():
            v = {k: np.array(f(len(x))(s)) for k, x in m.items()}; o = Calibration(v['pos'], v['angles'], v['primary_point'], v['radial_distortion'], v['decentering'], v['affine'], v['glass_vec']); m = v
        for _ in range(steps):
            a = s.pick(sorted(m)); v = f(len(m[a]))(s)
            if a == 'angles': v = [math.fmod(x, 7) for x in v]
            getattr(o, 'set_' + st.get(a, a))(seqof(s, v) if a in ('pos', 'angles') else np.array(v)); m[a] = np.array(v); chk(o, m, 'Calibration')
            dm = np.empty((3, 3)); c = np.concatenate([m['pos'], m['angles'], np.zeros(13)]); C.L.s_rotation(dp(c), dp(dm)); same(o.get_rotation_matrix(), dm, 'rotation matrix')
    else:
        v = [val(s), val(s)] + [ival(s) for _ in range(6)]
        o = Target(pnr=v[2], tnr=v[3], x=v[0], y=v[1], n=v[4], nx=v[5], ny=v[6], sumg=v[7])
        for _ in range(steps):
            check((o.pos(), o.pnr(), o.tnr(), o.count_pixels(), o.sum_grey_value()) == ((v[0], v[1]), v[2], v[3], (v[4], v[5], v[6]), v[7]), 'target %r, set %r', (o.pos(), o.pnr(), o.tnr(), o.count_pixels(), o.sum_grey_value()), v)
            k = s.i(0, 4)
            if k == 0: v[:2] = [val(s), val(s)]; o.set_pos(seqof(s, v[:2]))
            if k == 1: v[2] = ival(s); o.set_pnr(v[2])
            if k == 2: v[3] = ival(s); o.set_tnr(v[3])
            if k == 3: v[4:7] = [ival(s) for _ in range(3)]; o.set_pixel_counts(*v[4:7])
            if k == 4: v[7] = ival(s); o.set_sum_grey_value(v[7])
        check((o.pos(), o.pnr(), o.tnr(), o.count_pixels(), o.sum_grey_value()) == ((v[0], v[1]), v[2], v[3], (v[4], v[5], v[6]), v[7]), 'target after the last change')
    s.note('kind %d, %d steps', kind, steps); s.label('kind %d' % kind); s.nontrivial()

def files(s):
    from optv import parameters as P
    kind = s.i(0, 5); num = lambda: float('%.6g' % s.r0(-500, 500)); pos = lambda: s.i(0, 900)
    W = lambda nm, l: open(nm, 'w').write('\n'.join(str(x) for x in l) + '\n')
    if kind == 0:
        v = [num() for _ in range(8)]; a = s.i(0, 1); W('t.par', v + [a]); o = P.TrackingParams(); o.read_track_par(b't.par')
        got = [o.get_dvxmin(), o.get_dvxmax(), o.get_dvymin(), o.get_dvymax(), o.get_dvzmin(), o.get_dvzmax(), o.get_dangle(), o.get_dacc(), o.get_add()]; same(got, v + [a], 'tracking parameters read')
    elif kind == 1:
        n = s.i(1, 4); nm = [''.join(s.pick('abc/_.1') for _ in range(s.i(1, 9))) for _ in range(n)]; r = [pos(), pos()]; W('s.par', nm + r); o = P.SequenceParams(num_cams=s.i(1, 4)); o.read_sequence_par(b's.par', n)
        check([o.get_img_base_name(c) for c in range(n)] == [x.encode() for x in nm] and [o.get_first(), o.get_last()] == r, 'sequence parameters read')
    elif kind == 2:
        v = [num() for _ in range(12)]; W('v.par', v); o = P.VolumeParams(); o.read_volume_par(b'v.par')
        got = [o.get_X_lay()[0], o.get_Zmin_lay()[0], o.get_Zmax_lay()[0], o.get_X_lay()[1], o.get_Zmin_lay()[1], o.get_Zmax_lay()[1], o.get_cnx(), o.get_cny(), o.get_cn(), o.get_csumg(), o.get_corrmin(), o.get_eps0()]; same(got, v, 'volume parameters read')
    elif kind == 3:
        n = s.i(1, 4); nm = [''.join(s.pick('abc/_.1') for _ in range(s.i(1, 9))) for _ in range(2 * n)]; fl = [s.i(0, 1) for _ in range(3)]; sz = [pos() + 1, pos() + 1]; px = [abs(num()), abs(num())]; ch = s.i(0, 2); md = [1 + s.i(0, 9) / 10., 1 + s.i(0, 9) / 10., 1 + s.i(0, 9) / 10., abs(num())]
        W('c.par', [n] + nm + fl + sz + px + [ch] + md); o = P.ControlParams(s.i(1, 4)); mm = o.get_multimedia_params() if s.b() else None; o.read_control_par(b'c.par')
        check([o.get_num_cams()] + [bool(x) for x in [o.get_hp_flag(), o.get_allCam_flag(), o.get_tiff_flag()]] + list(o.get_image_size()) + list(o.get_pixel_size()) + [o.get_chfield()] == [n] + [bool(x) for x in fl] + sz + px + [ch], 'control parameters read')
        check([o.get_img_base_name(c) for c in range(n)] == [x.encode() for x in nm[0::2]] and [o.get_cal_img_base_name(c) for c in range(n)] == [x.encode() for x in nm[1::2]], 'names of control parameters read')
        for q in [mm, o.get_multimedia_params()]:
            if q is not None: same([q.get_n1(), q.get_n2()[0], q.get_n3(), q.get_d()[0], q.get_nlay()], md + [1], 'media read')
    elif kind == 4:
        v = [pos() for _ in range(13)]; W('r.par', v); o = P.TargetParams(); o.read(b'r.par')
        got = list(o.get_grey_thresholds()) + [o.get_max_discontinuity()] + list(o.get_pixel_count_bounds()) + list(o.get_xsize_bounds()) + list(o.get_ysize_bounds()) + [o.get_min_sum_grey(), o.get_cross_size()]; same(got, v, 'target parameters read')
    else:
        from optv.calibration import Calibration
        c = C.gen_cal(s, 80.); o = C.mkcal(c); o.write(b'a.ori', b'a.addpar'); w = np.empty(19); dm = np.empty((3, 3)); check(C.L.s_read_cal(b'a.ori', b'a.addpar', None, dp(w), dp(dm)) == 1, 'written calibration cannot be read')
        check(bool(np.all(np.abs(w - c) <= np.where((np.arange(19) > 5) & (np.arange(19) < 9), 6e-5, 1e-6 * np.maximum(1, np.abs(c))))), 'written calibration differs: %s, %s', w.tolist(), c)
        q = Calibration(); how = s.i(0, 2)
        if os.path.exists('none'): os.unlink('none')
        if how == 0: q.from_file(b'a.ori', b'a.addpar')
        elif how == 1: q.from_file(b'a.ori', b'none', b'a.addpar')
        else: q.from_file(ori_file=b'a.ori', add_file=b'a.addpar', fallback_file=b'none')
        got = np.concatenate([q.get_pos(), q.get_angles(), q.get_primary_point(), q.get_radial_distortion(), q.get_decentering(), q.get_affine(), q.get_glass_vec()]); same(got, w, 'calibration read'); same(q.get_rotation_matrix(), dm, 'rotation matrix read')
    s.note('kind %d', kind); s.label('kind %d' % kind); s.nontrivial()

def targets(s):
    from optv.tracking_framebuf import TargetArray, read_targets, Frame
    n = s.i(0, 12); rows = [[round(s.r(0, 900), 4), round(s.r(0, 900), 4), s.i(0, 900), s.i(0, 30), s.i(0, 30), s.i(0, 9999), i, s.i(-1, 5)] for i in range(n)]
    t = C.mktargs(rows); same(C.rowsof(t), vec(rows).reshape(n, 8), 'targets set'); check(len(t) == n and len(list(t)) == n, 'length %d of %d', len(t), n)
    fr = s.pick([0, 1, 77, 10001, s.i(1, 99999)]); t.write(b'cam', fr); nm = 'cam%04d_targets' % fr if fr else 'cam_targets'; check(os.path.exists(nm), 'no file %s', nm)
    t2 = read_targets('cam', fr); os.unlink(nm); same(C.rowsof(t2), vec(rows).reshape(n, 8), 'targets read back')
    t2.sort_y(); g = C.rowsof(t2); check(bool(np.all(np.diff(g[:, 1]) >= 0)), 'not sorted by y'); same(g[:, 6], np.arange(n), 'numbers after sorting')
    a = sorted(map(tuple, g[:, [0, 1, 2, 3, 4, 5, 7]].tolist())); b = sorted(map(tuple, vec(rows).reshape(n, 8)[:, [0, 1, 2, 3, 4, 5, 7]].tolist())); check(a == b, 'sorting changed the targets')
    # a frame
    nc = s.i(1, 4); k = s.i(1, 8); pts = [[round(s.r0(-90, 90), 3) for _ in range(3)] for _ in range(k)]; tr = []
    for c in range(nc):
        m = s.i(0, 6); r = [[round(s.r(0, 900), 4), round(s.r(0, 900), 4), 9, 3, 3, 100, i, -1] for i in range(m)]; tr.append(r); C.mktargs(r).write(('f%d_' % c).encode(), 5)
    cor = [[s.i(-1, len(tr[c]) - 1) if c < nc else -1 for c in range(4)] for _ in range(k)]
    open('rt.5', 'w').write('%d\n' % k + ''.join('%d %.3f %.3f %.3f %d %d %d %d\n' % tuple([i + 1] + pts[i] + cor[i]) for i in range(k)))
    open('pt.5', 'w').write('%d\n' % k + ''.join('-1 -2 %.3f %.3f %.3f\n' % tuple(pts[i]) for i in range(k)))
    tb = [('f%d_' % c).encode() for c in range(nc)]
    if s.b(): f = Frame(nc, corres_file_base=b'rt', linkage_file_base=b'pt', target_file_base=tb, frame_num=5)
    else: f = Frame(nc); f.read(b'rt', b'pt', tb, 5, None)
    same(f.positions(), vec(pts), 'frame positions')
    for c in range(nc): same(f.target_positions_for_camera(c), np.array([tr[c][q[c]][:2] if q[c] >= 0 else [np.nan, np.nan] for q in cor]), 'targets of camera %d', c)
    s.note('%d targets, frame of %d cameras with %d particles', n, nc, k)
    if n: s.nontrivial()

def tracker(s):
    from optv.tracker import Tracker
    from optv.parameters import TrackingParams, SequenceParams
    nc = s.i(2, 4); sc = Scene(s, nc, simple=True); nf = s.i(3, 6); n = s.i(1, 6); first = s.pick([1, 101, 10001]); step = s.r(.1, 2)
    p = sc.points(s, n) * .6; v = np.array([[s.r0(-step, step) for _ in range(3)] for _ in range(n)]).reshape(n, 3); dirs = ['a', 'b']
    for d in dirs: shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in range(nf):
        pts = p + v * f + np.array([[s.r0(-.05, .05) * step for _ in range(3)] for _ in range(n)]).reshape(n, 3); ix = []
        for c in range(nc):
            px = sc.pixels(c, pts); o = np.argsort(px[:, 1], kind='stable'); inv = [-1] * n; lines = []
            drop = s.i(0, n - 1) if s.chance(1, 5) else -1
            for j, i in enumerate(k for k in o if k != drop): inv[i] = j; lines.append([px[i, 0], px[i, 1], 9, 3, 3, 500, j, i])
            ix.append(inv); 
            for d in dirs: open('%s/cam%d.%04d_targets' % (d, c, first + f), 'w').write('%d\n' % len(lines) + ''.join('%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n' % (l[6], l[0], l[1], l[2], l[3], l[4], l[5], l[7]) for l in lines))
        miss = s.i(0, n - 1) if n > 1 and s.chance(1, 6) else -1; kept = [i for i in range(n) if i != miss]
        for d in dirs: open('%s/rt_is.%d' % (d, first + f), 'w').write('%d\n' % len(kept) + ''.join('%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n' % ((q + 1,) + tuple(pts[i]) + tuple(ix[c][i] if c < nc else -1 for c in range(4))) for q, i in enumerate(kept)))
    lim = step * s.r(1.1, 2); tp = [s.r(.3, 3) * step, s.r(20, 120), -lim, lim, -lim, lim, -lim, lim, s.i(0, 1)]; mode = s.i(0, 2); tol = s.pick([1e-4, 1e-6]); last = first + nf - 1
    here = os.getcwd()
    try:
        os.chdir('b'); NM = ctypes.c_char_p * nc
        C.L.s_track(0 if mode < 2 else 2, nc, dp(sc.ccals()), dp(vec(sc.vpar)), dp(vec(sc.cpar)), dp(vec(tp)), first, last, NM(*[b'cam%d.' % c for c in range(nc)]), b'rt_is', b'ptv_is', b'added', D(tol))
        os.chdir(here + '/a')
        sp = SequenceParams(image_base=['cam%d.' % c for c in range(nc)], frame_range=(first, last)); tt = TrackingParams(accel_lim=tp[0], angle_lim=tp[1], velocity_lims=[[tp[2], tp[3]], [tp[4], tp[5]], [tp[6], tp[7]]], add_particle=tp[8])
        t = Tracker(sc.pycpar, sc.pyvpar, tt, sp, sc.pycals, dict(corres=b'rt_is', linkage=b'ptv_is', prio=b'added'), tol)
        if mode == 0:
            t.restart(); k = first; check(t.current_step() == first, 'first step is %d, not %d', t.current_step(), first)
            while t.step_forward(): k += 1; check(t.current_step() == k, 'step %d instead of %d', t.current_step(), k)
            check(k == last, 'stopped at %d of %d', k, last); t.finalize()
        else:
            t.full_forward()
            if mode == 2: t.full_backward()
    finally: os.chdir(here)
    A, B = sorted(os.listdir('a')), sorted(os.listdir('b')); check(A == B, 'files %s, the library writes %s', A, B); links = 0
    for f in A:
        x, y = open('a/' + f, 'rb').read(), open('b/' + f, 'rb').read(); check(x == y, 'file %s differs from the library\'s:\n%s\n%s', f, x.decode(), y.decode())
        if f.startswith('ptv_is'): links += sum(1 for l in y.decode().split('\n')[1:] if l.split()[1:2] and int(l.split()[1]) >= 0)
    s.note('%d cameras %d frames %d particles mode %d: %d links', nc, nf, n, mode, links); s.label('mode %d' % mode)
    if links: s.nontrivial()

SUBS = [
    ('transforms', 12000, 240000, transforms),
    ('projection', 9000, 180000, projection),
    ('epipolar', 6000, 120000, epipolar),
    ('positions', 7500, 150000, positions),
    ('dumbbell', 3600, 72000, dumbbell),
    ('recognition', 4500, 90000, recognition),
    ('preprocess', 3600, 72000, preprocess),
    ('matching', 6000, 120000, matching),
    ('calibration', 3600, 72000, calibration),
    ('records', 12000, 240000, records),
    ('files', 4500, 90000, files),
    ('targets', 2100, 42000, targets),
    ('tracker', 900, 18000, tracker),
]
