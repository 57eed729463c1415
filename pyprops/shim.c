/* Oracle of the binding checks: the library's own functions behind flat arrays (no Python, no Cython). */
#include <stdlib.h>
#include <string.h>
#include "parameters.h"
#include "calibration.h"
#include "tracking_frame_buf.h"
#include "correspondences.h"
#include "segmentation.h"
#include "image_processing.h"
#include "epi.h"
#include "imgcoord.h"
#include "multimed.h"
#include "orientation.h"
#include "ray_tracing.h"
#include "sortgrid.h"
#include "track.h"
#include "trafo.h"

/* cal: x0 y0 z0 omega phi kappa | xh yh cc | k1 k2 k3 | p1 p2 | scx she | glass xyz */
static void mkcal(Calibration *c, double *v) {
    memset(c, 0, sizeof(*c));
    c->ext_par.x0 = v[0]; c->ext_par.y0 = v[1]; c->ext_par.z0 = v[2];
    c->ext_par.omega = v[3]; c->ext_par.phi = v[4]; c->ext_par.kappa = v[5];
    c->int_par.xh = v[6]; c->int_par.yh = v[7]; c->int_par.cc = v[8];
    c->added_par.k1 = v[9]; c->added_par.k2 = v[10]; c->added_par.k3 = v[11];
    c->added_par.p1 = v[12]; c->added_par.p2 = v[13]; c->added_par.scx = v[14]; c->added_par.she = v[15];
    c->glass_par.vec_x = v[16]; c->glass_par.vec_y = v[17]; c->glass_par.vec_z = v[18];
    c->mmlut.data = NULL;
    rotation_matrix(&c->ext_par);
}
static void unmkcal(Calibration *c, double *v) {
    v[0] = c->ext_par.x0; v[1] = c->ext_par.y0; v[2] = c->ext_par.z0;
    v[3] = c->ext_par.omega; v[4] = c->ext_par.phi; v[5] = c->ext_par.kappa;
    v[6] = c->int_par.xh; v[7] = c->int_par.yh; v[8] = c->int_par.cc;
    v[9] = c->added_par.k1; v[10] = c->added_par.k2; v[11] = c->added_par.k3;
    v[12] = c->added_par.p1; v[13] = c->added_par.p2; v[14] = c->added_par.scx; v[15] = c->added_par.she;
    v[16] = c->glass_par.vec_x; v[17] = c->glass_par.vec_y; v[18] = c->glass_par.vec_z;
}
static Calibration **mkcals(int n, double *v) {
    Calibration **r = malloc((n + 1) * sizeof(*r)), *c = malloc((n + 1) * sizeof(*c)); int i;
    for (i = 0; i < n; i++) { r[i] = c + i; mkcal(c + i, v + 19 * i); }
    r[n] = c;
    return r;
}
static void freecals(Calibration **r, int n) { free(r[n]); free(r); }
/* mm: nlay n1 n3 n2[3] d[3] */
static void mkmm(mm_np *m, double *v) {
    int i; memset(m, 0, sizeof(*m)); m->nlay = (int) v[0]; m->n1 = v[1]; m->n3 = v[2];
    for (i = 0; i < 3; i++) { m->n2[i] = v[3 + i]; m->d[i] = v[6 + i]; }
}
/* cpar: num_cams imx imy pix_x pix_y chfield allcam | mm */
static void mkcpar(control_par *c, mm_np *m, double *v) {
    memset(c, 0, sizeof(*c)); c->num_cams = (int) v[0]; c->imx = (int) v[1]; c->imy = (int) v[2]; c->pix_x = v[3]; c->pix_y = v[4];
    c->chfield = (int) v[5]; c->allCam_flag = (int) v[6]; mkmm(m, v + 7); c->mm = m;
}
/* vpar: X0 X1 Zmin0 Zmin1 Zmax0 Zmax1 cn cnx cny csumg eps0 corrmin */
static void mkvpar(volume_par *p, double *v) {
    memset(p, 0, sizeof(*p)); p->X_lay[0] = v[0]; p->X_lay[1] = v[1]; p->Zmin_lay[0] = v[2]; p->Zmin_lay[1] = v[3];
    p->Zmax_lay[0] = v[4]; p->Zmax_lay[1] = v[5]; p->cn = v[6]; p->cnx = v[7]; p->cny = v[8]; p->csumg = v[9]; p->eps0 = v[10]; p->corrmin = v[11];
}
/* targets: x y n nx ny sumg pnr tnr */
static void mktargs(target *t, double *v, int n) {
    int i; for (i = 0; i < n; i++, v += 8) { t[i].x = v[0]; t[i].y = v[1]; t[i].n = (int) v[2]; t[i].nx = (int) v[3]; t[i].ny = (int) v[4];
        t[i].sumg = (int) v[5]; t[i].pnr = (int) v[6]; t[i].tnr = (int) v[7]; }
}
static void unmktargs(target *t, double *v, int n) {
    int i; for (i = 0; i < n; i++, v += 8) { v[0] = t[i].x; v[1] = t[i].y; v[2] = t[i].n; v[3] = t[i].nx; v[4] = t[i].ny; v[5] = t[i].sumg; v[6] = t[i].pnr; v[7] = t[i].tnr; }
}
void s_rotation(double *cal, double *dm) { Calibration c; mkcal(&c, cal); memcpy(dm, c.ext_par.dm, 9 * sizeof(double)); }
void s_transform(int op, double *cal, double *cpar, int n, double *in, double *out, double tol) {
    Calibration c; control_par cp; mm_np m; int i; mkcal(&c, cal); mkcpar(&cp, &m, cpar);
    for (i = 0; i < n; i++) { double x = in[2*i], y = in[2*i+1], *ox = out + 2*i, *oy = out + 2*i + 1;
        if (op == 0) pixel_to_metric(ox, oy, x, y, &cp);
        if (op == 1) metric_to_pixel(ox, oy, x, y, &cp);
        if (op == 2) correct_brown_affin(x, y, c.added_par, ox, oy);
        if (op == 3) distort_brown_affin(x, y, c.added_par, ox, oy);
        if (op == 4) dist_to_flat(x, y, &c, ox, oy, tol); }
}
void s_project(int op, double *cal, double *mm, int n, double *in, double *out) {
    Calibration c; mm_np m; int i; mkcal(&c, cal); mkmm(&m, mm);
    for (i = 0; i < n; i++) if (op) img_coord(in + 3*i, &c, &m, out + 2*i, out + 2*i + 1); else flat_image_coord(in + 3*i, &c, &m, out + 2*i, out + 2*i + 1);
}
/* depth z of points on the ray of a pixel, seen by another camera */
void s_epi(double *pt, double *cal1, double *cal2, double *cpar, int n, double *z, double *out) {
    Calibration a, b; control_par cp; mm_np m; double x, y; vec3d v, d, p; int i; mkcal(&a, cal1); mkcal(&b, cal2); mkcpar(&cp, &m, cpar);
    pixel_to_metric(&x, &y, pt[0], pt[1], &cp);
    dist_to_flat(x, y, &a, &x, &y, 0.00001);
    ray_tracing(x, y, &a, m, v, d);
    for (i = 0; i < n; i++) { move_along_ray(z[i], v, d, p); img_coord(p, &b, &m, &x, &y); metric_to_pixel(out + 2*i, out + 2*i + 1, x, y, &cp); }
}
void s_positions(int ncam, double *cals, double *mm, int n, double *targ, double *res, double *rcm) {
    Calibration **c = mkcals(ncam, cals); mm_np m; int i; mkmm(&m, mm);
    for (i = 0; i < n; i++) rcm[i] = point_position((vec2d *)(targ + 2 * ncam * i), ncam, &m, c, res + 3*i);
    freecals(c, ncam);
}
void s_single(double *cal, double *mm, double *vpar, int n, int stride, double *targ, double *res) {
    Calibration c; mm_np m; volume_par v; int i; mkcal(&c, cal); mkmm(&m, mm); mkvpar(&v, vpar);
    for (i = 0; i < n; i++) epi_mm_2D(targ[2*stride*i], targ[2*stride*i + 1], &c, &m, &v, res + 3*i);
}
double s_dumbbell(int ncam, double *cals, double *mm, int n, double *targ, double len, double w) {
    Calibration **c = mkcals(ncam, cals); mm_np m; int i; double r; vec2d **t = malloc((n + 1) * sizeof(*t)); mkmm(&m, mm);
    for (i = 0; i < n; i++) t[i] = (vec2d *)(targ + 2 * ncam * i);
    r = weighted_dumbbell_precision(t, n, ncam, &m, c, len, w);
    free(t); freecals(c, ncam); return r;
}
int s_targ_rec(unsigned char *img, int *tp, int *b, int cam, double *cpar, double *out, int max) {
    control_par cp; mm_np m; target_par t; target *p = calloc((size_t) cpar[1] * (size_t) cpar[2] + 1, sizeof(target)); int n; mkcpar(&cp, &m, cpar);
    t.gvthres[0] = tp[0]; t.gvthres[1] = tp[1]; t.gvthres[2] = tp[2]; t.gvthres[3] = tp[3]; t.discont = tp[4]; t.nnmin = tp[5]; t.nnmax = tp[6];
    t.nxmin = tp[7]; t.nxmax = tp[8]; t.nymin = tp[9]; t.nymax = tp[10]; t.sumg_min = tp[11]; t.cr_sz = tp[12];
    n = targ_rec(img, &t, b[0], b[1], b[2], b[3], &cp, cam, p);
    unmktargs(p, out, n < max ? n : max); free(p); return n;
}
int s_prepare(unsigned char *img, unsigned char *out, int span, int filt, char *file, double *cpar) {
    control_par cp; mm_np m; mkcpar(&cp, &m, cpar); return prepare_image(img, out, span, filt, file, &cp);
}
/* crd: x y pnr per target, in the order of the library */
void s_matched(double *targs, int n, double *cpar, double *cal, double tol, double *crd) {
    control_par cp; mm_np m; Calibration c; coord_2d *b = malloc((n + 1) * sizeof(*b)); int i; mkcpar(&cp, &m, cpar); mkcal(&c, cal);
    for (i = 0; i < n; i++) { double x, y; pixel_to_metric(&x, &y, targs[8*i], targs[8*i+1], &cp); dist_to_flat(x, y, &c, &x, &y, tol); b[i].x = x; b[i].y = y; b[i].pnr = (int) targs[8*i+6]; }
    quicksort_coord2d_x(b, n);
    for (i = 0; i < n; i++) { crd[3*i] = b[i].x; crd[3*i+1] = b[i].y; crd[3*i+2] = b[i].pnr; }
    free(b);
}
/* out: 4 indices (into crd, -1 or -2 for none) per match; targets' tnr are updated in targs */
int s_correspond(int ncam, int *nt, double **targs, double **crd, double *cals, double *vpar, double *cpar, int *counts, int *out, int max) {
    Calibration **c = mkcals(ncam, cals); control_par cp; mm_np m; volume_par v; frame f; coord_2d *cc[4]; n_tupel *r; int i, k, n = 0;
    mkcpar(&cp, &m, cpar); mkvpar(&v, vpar); memset(&f, 0, sizeof f);
    f.targets = calloc(4, sizeof(target *)); f.num_targets = calloc(4, sizeof(int)); f.num_cams = ncam;
    for (i = 0; i < ncam; i++) { f.targets[i] = malloc((nt[i] + 1) * sizeof(target)); f.num_targets[i] = nt[i]; mktargs(f.targets[i], targs[i], nt[i]);
        cc[i] = malloc((nt[i] + 1) * sizeof(coord_2d)); for (k = 0; k < nt[i]; k++) { cc[i][k].x = crd[i][3*k]; cc[i][k].y = crd[i][3*k+1]; cc[i][k].pnr = (int) crd[i][3*k+2]; } }
    r = correspondences(&f, cc, &v, &cp, c, counts);
    n = counts[3];
    for (i = 0; i < n && i < max; i++) for (k = 0; k < 4; k++) out[4*i+k] = r[i].p[k];
    for (i = 0; i < ncam; i++) { unmktargs(f.targets[i], targs[i], nt[i]); free(f.targets[i]); free(cc[i]); }
    free(r); free(f.targets); free(f.num_targets); freecals(c, ncam); return n;
}
void s_sortgrid(double *cal, double *cpar, int nfix, double *fix, double *targs, int n, int eps, double *out) {
    Calibration c; control_par cp; mm_np m; target *t = malloc((n + 1) * sizeof(*t)), *s; mkcal(&c, cal); mkcpar(&cp, &m, cpar); mktargs(t, targs, n);
    s = sortgrid(&c, &cp, nfix, (vec3d *) fix, n, eps, t); unmktargs(s, out, nfix); free(s); free(t);
}
int s_raw(double *cal, double *cpar, int n, double *fix, double *targs) {
    Calibration c; control_par cp; mm_np m; target *t = calloc(n + 1, sizeof(*t)); int r; mkcal(&c, cal); mkcpar(&cp, &m, cpar); mktargs(t, targs, n);
    r = raw_orient(&c, &cp, n, (vec3d *) fix, t); unmkcal(&c, cal); free(t); return r;
}
/* flags: cc xh yh k1 k2 k3 p1 p2 scale shear; resi: 2 per used target; err: NPAR + 1 values */
int s_orient(double *cal, double *cpar, int n, double *fix, double *targs, int *fl, double *resi, double *err, int *npar) {
    Calibration c; control_par cp; mm_np m; target *t = calloc(n + 1, sizeof(*t)); double *r; orient_par o; int i; mkcal(&c, cal); mkcpar(&cp, &m, cpar); mktargs(t, targs, n);
    memset(&o, 0, sizeof o); o.ccflag = fl[0]; o.xhflag = fl[1]; o.yhflag = fl[2]; o.k1flag = fl[3]; o.k2flag = fl[4]; o.k3flag = fl[5]; o.p1flag = fl[6]; o.p2flag = fl[7]; o.scxflag = fl[8]; o.sheflag = fl[9];
    *npar = NPAR;
    r = orient(&c, &cp, n, (vec3d *) fix, t, &o, err); unmkcal(&c, cal); free(t);
    if (!r) return 0;
    for (i = 0; i < 2 * n; i++) resi[i] = r[i];
    free(r); return 1;
}
/* mode 0: all forward steps, 1: backward pass, 2: forward then backward.  tpar: dacc dangle vx- vx+ vy- vy+ vz- vz+ add; names: per camera */
void s_track(int mode, int ncam, double *cals, double *vpar, double *cpar, double *tpar, int first, int last, char **names, char *corres, char *linkage, char *prio, double tol) {
    Calibration **c = mkcals(ncam, cals); control_par cp; mm_np m; volume_par v; track_par t; sequence_par s; tracking_run *r; int i;
    mkcpar(&cp, &m, cpar); mkvpar(&v, vpar); memset(&t, 0, sizeof t);
    t.dacc = tpar[0]; t.dangle = tpar[1]; t.dvxmin = tpar[2]; t.dvxmax = tpar[3]; t.dvymin = tpar[4]; t.dvymax = tpar[5]; t.dvzmin = tpar[6]; t.dvzmax = tpar[7]; t.add = (int) tpar[8];
    s.num_cams = ncam; s.img_base_name = names; s.first = first; s.last = last;
    r = tr_new(&s, &t, &v, &cp, TR_BUFSPACE, MAX_TARGETS, corres, linkage, prio, c, tol);
    if (mode != 1) { track_forward_start(r); for (i = first; i < last; i++) trackcorr_c_loop(r, i); trackcorr_c_finish(r, last); }
    if (mode != 0) trackback_c(r);
    fb_free(r->fb); free(r->fb); free(r); freecals(c, ncam);
}
int s_read_cal(char *ori, char *add, char *fb, double *out, double *dm) {
    Calibration *c = read_calibration(ori, add, fb); if (!c) return 0;
    unmkcal(c, out); memcpy(dm, c->ext_par.dm, 9 * sizeof(double)); free(c); return 1;
}
