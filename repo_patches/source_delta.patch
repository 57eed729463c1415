From 472e773c5fd165632b0ff647360993be2f4bc384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 01/96] fix: set the result of distorting/correcting a point at
 the sensor center

distort_brown_affin() and correct_brown_affine_exact() returned without
writing their outputs for the point (0,0), so callers read whatever the output
variables held before.
---
 liboptv/src/trafo.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 8690a20..8b6a041 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -171,7 +171,12 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
   
   
   r = sqrt (x*x + y*y);
-  if (r != 0)
+  if (r == 0)
+    {
+      /* The sensor center is not moved by any of the distortion terms. */
+      *x1 = 0;  *y1 = 0;
+    }
+  else
     {
       x += x * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
 	+ ap.p1 * (r*r + 2*x*x) + 2*ap.p2*x*y;
@@ -210,7 +215,10 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     double  r, rq, xq, yq;
     int itnum = 0;
   
-    if ((x == 0) && (y == 0)) return;
+    if ((x == 0) && (y == 0)) {
+        *x1 = 0; *y1 = 0;
+        return;
+    }
     
     /* Initial guess for the flat point is the distorted point, assuming 
        distortion is small. */
-- 
2.43.0


From bcb9d916c8fb958b0dc3947ecbdce1fae18c3a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 02/96] fix: use the undistorted x in the y decentering
 distortion

The y term of the Brown decentering distortion was computed with the already
distorted x, unlike the x term and unlike the inverse in
correct_brown_affine_exact(), so correcting did not invert distorting.
---
 liboptv/src/trafo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 8b6a041..42f3556 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -167,7 +167,7 @@ void metric_to_pixel(double * x_pixel
     double *x1, *y1 - output metric distorted parameters.
 */
 void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
-  double		r;
+  double		r, x_flat = x;
   
   
   r = sqrt (x*x + y*y);
@@ -182,7 +182,7 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
 	+ ap.p1 * (r*r + 2*x*x) + 2*ap.p2*x*y;
       
       y += y * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
-	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x*y;
+	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x_flat*y;
       
       *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
     }
-- 
2.43.0


From 6f029c894046dd54bb0dd923fc832f0183979cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:06 +0000
Subject: [PATCH 03/96] fix: invert scale and shear directly when correcting
 distortion

The inverse applied the shear to the running estimate of the undistorted y
instead of the sheared y of the distorted point, so with both shear and other
distortion terms the corrected point did not distort back to the input.
---
 liboptv/src/trafo.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 42f3556..714ece6 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -212,7 +212,7 @@ void correct_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1)
 void correct_brown_affine_exact(double x, double y, ap_52 ap, 
     double *x1, double *y1, double tol)
 {
-    double  r, rq, xq, yq;
+    double  r, rq, xq, yq, xd, yd;
     int itnum = 0;
   
     if ((x == 0) && (y == 0)) {
@@ -225,12 +225,16 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     rq = sqrt (x*x + y*y);
     xq = x; yq = y;
     
+    /* The scale and shear part of the distortion is inverted directly. */
+    yd = y/cos(ap.she);
+    xd = (x + yd*sin(ap.she))/ap.scx;
+    
     do {
         r = rq;
-        xq = (x + yq*sin(ap.she))/ap.scx
+        xq = xd
             - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
             - ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
-        yq = y/cos(ap.she)
+        yq = yd
             - yq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
             - ap.p2 * (r*r + 2*yq*yq) - 2*ap.p1*xq*yq;
         rq = sqrt (xq*xq + yq*yq);
@@ -247,10 +251,10 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     /* Final step uses the iteratively-found R and x, y to apply the exact
        correction, equivalent to one more iteration. */
     r = rq;
-    *x1 = (x + yq*sin(ap.she))/ap.scx
+    *x1 = xd
 	    - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
     	- ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
-    *y1 = y/cos(ap.she)
+    *y1 = yd
 	    - yq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
     	- ap.p2 * (r*r + 2*yq*yq) - 2*ap.p1*xq*yq;
 }
-- 
2.43.0


From 4054dd8fdd4b73d09df5b6e2146abe185b183d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 04/96] fix: stop correcting distortion only when the position
 has settled

---
 liboptv/src/trafo.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 714ece6..3791968 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -212,7 +212,7 @@ void correct_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1)
 void correct_brown_affine_exact(double x, double y, ap_52 ap, 
     double *x1, double *y1, double tol)
 {
-    double  r, rq, xq, yq, xd, yd;
+    double  r, rq, xq, yq, xd, yd, xp, yp, step;
     int itnum = 0;
   
     if ((x == 0) && (y == 0)) {
@@ -231,6 +231,7 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     
     do {
         r = rq;
+        xp = xq; yp = yq;
         xq = xd
             - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
             - ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
@@ -239,6 +240,10 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
             - ap.p2 * (r*r + 2*yq*yq) - 2*ap.p1*xq*yq;
         rq = sqrt (xq*xq + yq*yq);
         
+        /* A point may move at a constant radius, so the change of radius alone 
+           doesn't tell how far it still is from the solution. */
+        step = sqrt ((xq - xp)*(xq - xp) + (yq - yp)*(yq - yp));
+        
         /* Limit divergent iteration. I realize these are "magic values" here
            but they should work in most cases and trying to automatically find
            non-magic values will slow this down considerably. 
@@ -246,7 +251,7 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
         if (rq > 1.2*r) rq = 0.5*r;
         
         itnum++;
-    } while ((fabs(rq - r)/r > tol) && (itnum < 201));
+    } while (((fabs(rq - r)/r > tol) || (step/r > tol)) && (itnum < 201));
     
     /* Final step uses the iteratively-found R and x, y to apply the exact
        correction, equivalent to one more iteration. */
-- 
2.43.0


From 051532a1dd820efdb4573e78c62658b0ef70c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 05/96] fix: trace rays perpendicular to the glass without NaN

---
 liboptv/src/ray_tracing.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/ray_tracing.c b/liboptv/src/ray_tracing.c
index 0af82f5..1051abc 100644
--- a/liboptv/src/ray_tracing.c
+++ b/liboptv/src/ray_tracing.c
@@ -57,8 +57,9 @@ void ray_tracing (double x, double y, Calibration* cal, mm_np mm, vec3d X,
     vec_subt(start_dir, tmp1, tmp2);
     unit_vector(tmp2, bp);
     
-    /* Transform to direction inside glass, using Snell's law */
-    p = sqrt(1 -  n *  n) * mm.n1/mm.n2[0]; /* glass parallel */
+    /* Transform to direction inside glass, using Snell's law. Rounding may give
+       n slightly outside [-1, 1] when the ray is perpendicular to the glass. */
+    p = sqrt(fmax(1 -  n *  n, 0)) * mm.n1/mm.n2[0]; /* glass parallel */
     n =  -sqrt(1 - p * p); /* glass normal */
     
     /* Propagation length in glass parallel to glass vector */
@@ -71,12 +72,7 @@ void ray_tracing (double x, double y, Calibration* cal, mm_np mm, vec3d X,
     vec_scalar_mul(a2, d2, tmp1);
     vec_add(Xb, tmp1, X);
 
-    /* Again, direction in next medium */
-    n = vec_dot(a2, glass_dir);
-    vec_subt(a2, tmp2, tmp2);
-    unit_vector(tmp2, bp);
-
-    p = sqrt(1 - n * n);
+    /* Again, direction in next medium. The ray stays in the same plane. */
     p = p * mm.n2[0]/mm.n3;
     n = -sqrt(1 - p * p);
     
-- 
2.43.0


From d9bc104d6e635fdeffdbbf61dff4360531f00042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 06/96] fix: use the refraction table only where it has all the
 values

---
 liboptv/src/multimed.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 2abe438..1e827d5 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -341,7 +341,7 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
    Calibration parameters pointer, *cal
 */
 double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
-    int i, ir,iz, nr,nz, rw, v4[4];
+    int ir,iz, nr,nz, rw, v4[4];
     double R, sr, sz, mmf = 1.0;
     vec3d temp;
     
@@ -349,7 +349,7 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
   
     vec_subt(pos, cal->mmlut.origin, temp);
     sz = temp[2]/rw;
-    iz = (int) sz;
+    iz = (int) floor(sz);
     sz -= iz;
     
     R = norm(temp[0], temp[1], 0);
@@ -361,10 +361,12 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
     nz = cal->mmlut.nz;
     nr = cal->mmlut.nr;
     
-    /* check whether point is inside camera's object volume */
-    if (ir > nr)
+    /* check whether point is inside camera's object volume, i.e. the table has
+       all four vertices of the box around it. Important for epipolar line 
+       computation. */
+    if (ir + 1 >= nr)
         return (0);
-    if (iz < 0  ||  iz > nz)
+    if (iz < 0  ||  iz + 1 >= nz)
         return (0);
   
     /* bilinear interpolation in r/z box */
@@ -376,12 +378,6 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
     v4[2] = (ir+1)*nz + iz;
     v4[3] = (ir+1)*nz + (iz+1);
   
-    /* 2. check wther point is inside camera's object volume */
-    /* important for epipolar line computation */
-    for (i = 0; i < 4; i++)
-        if (v4[i] < 0  ||  v4[i] > nr*nz)
-            return (0);
-    
     /* interpolate */
     mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
         + cal->mmlut.data[v4[1]] * (1-sr)*sz
-- 
2.43.0


From 514ef4ae08fa3e09c7ea55f2a02690b683cba25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 07/96] fix: correct distortion of image corners before
 removing the sensor shift

---
 liboptv/src/multimed.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 1e827d5..1a9f196 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -263,10 +263,13 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
       for (j = 0; j < 2; j++) {
           pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
 
+          /* distortion is relative to the sensor center, so it's corrected
+             before the sensor shift. */
+          correct_brown_affin (x, y, cal->added_par, &x,&y);  
+
           x = x - cal->int_par.xh;
           y = y - cal->int_par.yh;
   
-          correct_brown_affin (x, y, cal->added_par, &x,&y);  
           ray_tracing(x, y, cal, *(cpar->mm), pos, a);
           
           move_along_ray(Zmin, pos, a, xyz);
@@ -433,9 +436,9 @@ void volumedimension (double *xmax, double *xmin,
       for (i = 0; i < 2; i ++) {
           for (j = 0; j < 2; j++) {
               pixel_to_metric (&x, &y, xc[i], yc[j], cpar);
+              correct_brown_affin (x, y, cal[i_cam]->added_par, &x, &y);
               x = x - cal[i_cam]->int_par.xh;
               y = y - cal[i_cam]->int_par.yh;
-              correct_brown_affin (x, y, cal[i_cam]->added_par, &x, &y);
           
               ray_tracing(x, y, cal[i_cam], *(cpar->mm), pos, a);
           
-- 
2.43.0


From 7593e726b130fd90e7fe6bf07b86a37b46cfa39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 08/96] fix: rebuild the refraction table when it is prepared
 again

---
 liboptv/src/multimed.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 1a9f196..ac9d490 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -310,6 +310,12 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
   cal->mmlut.nz = nz;
   cal->mmlut.rw = rw;
   
+  /* A table from an earlier preparation doesn't fit the present arguments, and
+     must not be used through the copy in cal_t. */
+  free (cal->mmlut.data);
+  cal->mmlut.data = NULL;
+  cal_t.mmlut.data = NULL;
+
   if (cal->mmlut.data == NULL) {
       data = (double *) malloc (nr*nz * sizeof (double));
   
-- 
2.43.0


From 4fff045754d1c4735414abac8ecd87a99f1f3ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 09/96] fix: correct distortion of sensor corners before the
 shift in candidate search

---
 liboptv/src/epi.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/epi.c b/liboptv/src/epi.c
index f14ceef..98294a0 100644
--- a/liboptv/src/epi.c
+++ b/liboptv/src/epi.c
@@ -138,11 +138,13 @@ int find_candidate (coord_2d *crd, target *pix, int num,
   /* define sensor format for search interrupt */
   xmin = (-1) * cpar->pix_x * cpar->imx/2;	xmax = cpar->pix_x * cpar->imx/2;
   ymin = (-1) * cpar->pix_y * cpar->imy/2;	ymax = cpar->pix_y * cpar->imy/2;
-  xmin -= cal->int_par.xh;	ymin -= cal->int_par.yh;
-  xmax -= cal->int_par.xh;	ymax -= cal->int_par.yh;
   
+  /* distortion is relative to the sensor center */
   correct_brown_affin (xmin, ymin, cal->added_par, &xmin, &ymin);
   correct_brown_affin (xmax, ymax, cal->added_par, &xmax, &ymax);
+  
+  xmin -= cal->int_par.xh;	ymin -= cal->int_par.yh;
+  xmax -= cal->int_par.xh;	ymax -= cal->int_par.yh;
     
   /* line equation: y = m*x + b */
   if (xa == xb) { /* the line is a point or a vertical line in this camera */	
-- 
2.43.0


From ca09306e012352fc67baee7b58b3ec6dd2e19e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 10/96] fix: start the candidate search early enough in long
 lists

---
 liboptv/src/epi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/epi.c b/liboptv/src/epi.c
index 98294a0..888ba9f 100644
--- a/liboptv/src/epi.c
+++ b/liboptv/src/epi.c
@@ -182,6 +182,9 @@ int find_candidate (coord_2d *crd, target *pix, int num,
   /* due to truncation error we might shift to smaller x */
   j0 -= 12;  
   if (j0 < 0)  j0 = 0; 
+  
+  /* in long lists the truncation errors add up to more than that */
+  while (j0 > 0 && crd[j0 - 1].x > (xa - tol_band_width)) j0--;
 
   for (j = j0; j < num; j++) {  /* candidate search */
       	
-- 
2.43.0


From ee491b335bd4431c0f517bbcfab423bad2fcca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 11/96] fix: do not access elements when sorting empty target
 lists

---
 liboptv/src/correspondences.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 2b9e764..3dc0db9 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -71,7 +71,7 @@ void qs_con (n_tupel *con, int left, int right){
 */
 
 void quicksort_target_y (target *pix, int num) {
-  qs_target_y (pix, 0, num-1);
+  if (num > 0) qs_target_y (pix, 0, num-1);
 }
 
 /* qs_target_y() uses quicksort algorithm to 
@@ -118,7 +118,7 @@ void qs_target_y (target *pix, int left, int right){
    integer num equal to the length of the array pix
 */
 void quicksort_coord2d_x (coord_2d *crd, int num) {
-	qs_coord2d_x (crd, 0, num-1);
+	if (num > 0) qs_coord2d_x (crd, 0, num-1);
 }
 
 void qs_coord2d_x (coord_2d	*crd, int left, int right){
-- 
2.43.0


From 23708c6554dbf9388528bb73646b19a9b059295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 12/96] fix: allocate all of the scratch space the clique
 search may fill

---
 liboptv/src/correspondences.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 3dc0db9..ccac571 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -620,7 +620,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /* Allocation of scratch buffers for internal tasks and return-value 
      space. 
   */
-  con0 = (n_tupel *) malloc(cpar->num_cams*nmax * sizeof(n_tupel));
+  con0 = (n_tupel *) malloc(4*nmax * sizeof(n_tupel));
   con = (n_tupel *) malloc(cpar->num_cams*nmax * sizeof(n_tupel)); 
   
   tim = safely_allocate_target_usage_marks(cpar->num_cams);
-- 
2.43.0


From 8b2972f4f0947a62a16e1ba0d5f0e2888dc91514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 13/96] fix: let the queue of target pixels grow with the
 target

---
 liboptv/src/segmentation.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index fbe6e9d..7be4804 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -55,7 +55,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
     register unsigned char    gv, gvref;
 
-    targpix waitlist[2048];
+    targpix *waitlist;
 
     /* avoid many dereferences */
     int imx, imy;
@@ -71,6 +71,9 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
     img0 = (unsigned char *) calloc (imx*imy, 1);
     memcpy(img0, img, imx*imy);
 
+    /* each pixel is queued at most once per target */
+    waitlist = (targpix *) malloc (imx*imy * sizeof(targpix));
+
     // printf("in segmentation.c memcpy succeded\n");
 
     /* Make sure the min/max coordinates don't cause us to access memory
@@ -200,6 +203,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
           } /*  end of if-loop  */
     }
     free(img0);
+    free(waitlist);
     /* protect pix from zero memory */
     if (n_targets < 1){
         pix[0].n = 1;
-- 
2.43.0


From 0bc8a3fca1c237dd98e61fc14ade2c8bd18deb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 14/96] fix: do not report a target in an image that has none

---
 liboptv/src/segmentation.c    | 12 ------------
 py_bind/optv/segmentation.pyx |  3 ++-
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 7be4804..989eacc 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -204,18 +204,6 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
     }
     free(img0);
     free(waitlist);
-    /* protect pix from zero memory */
-    if (n_targets < 1){
-        pix[0].n = 1;
-        pix[0].nx = 1;
-        pix[0].ny = 1;
-        pix[0].sumg = 1;
-        pix[0].x = 1;
-        pix[0].y = 1;
-        pix[0].tnr = CORRES_NONE;
-        pix[0].pnr = 1;
-        n_targets++;
-    }
     // printf("final n_targets %d\n",n_targets);
     return(n_targets);
 }
diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index d40dff9..7ebc528 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -78,7 +78,8 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
         xmin, xmax, ymin, ymax, cparam._control_par, cam, targs)
     
     # Fit the memory size snugly and generate the Python return value.
-    ret = <target *>realloc(targs, num_targs * sizeof(target))
+    # (at least one element, as realloc() to no size frees the memory)
+    ret = <target *>realloc(targs, max(num_targs, 1) * sizeof(target))
     if ret == NULL:
         free(targs)
         raise MemoryError("Failed to reallocate target array.")
-- 
2.43.0


From 7400361e5ea9cccdc3fbb99fa7a378cb7226ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 15/96] fix: do not wrap around negative and large values in
 the 3x3 filter

---
 liboptv/src/image_processing.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index e58fed0..8e4d284 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -50,8 +50,7 @@ int filter_3(unsigned char *img, unsigned char *img_lp, filter_t filt,
     register unsigned char  *ptr, *ptr1, *ptr2, *ptr3, *ptr4, *ptr5, *ptr6,
         *ptr7, *ptr8, *ptr9;
 	int end;
-	double sum = 0;
-	unsigned short buf;
+	double sum = 0, buf;
 	register int i, j;
     int image_size = cpar->imx * cpar->imy;
 
-- 
2.43.0


From 31cdc876bc967189df2e283f17e860c538576701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 16/96] fix: filter the high-pass image from a copy, not from
 its own output

---
 liboptv/src/image_processing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 8e4d284..b98421a 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -395,7 +395,10 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
   /* filter highpass image, if wanted */
   switch (filter_hp) {
     case 0: break;
-    case 1: lowpass_3 (img_hp, img_hp, cpar);   break;
+    case 1:
+        copy_images (img_hp, img_lp, cpar);
+        lowpass_3 (img_lp, img_hp, cpar);
+        break;
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
@@ -407,7 +410,8 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
         }
         fclose (fp);
 
-        filter_3 (img_hp, img_hp, filt, cpar);
+        copy_images (img_hp, img_lp, cpar);
+        filter_3 (img_lp, img_hp, filt, cpar);
         break;
   }
   
-- 
2.43.0


From 23551fca1d991261b4d6bcf11494d0070e467c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 17/96] fix: fail on missing or truncated filter files

---
 liboptv/src/image_processing.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index b98421a..be34f71 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -402,9 +402,14 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
+        if (fp == NULL) {
+            free (img_lp);
+            return 0;
+        }
         for (i = 0; i < 9; i++) {
-            if (fscanf(fp, "%lf", (double *)filt + i) == 0) {
+            if (fscanf(fp, "%lf", (double *)filt + i) != 1) {
                 fclose(fp);
+                free (img_lp);
                 return 0;
             }
         }
-- 
2.43.0


From 108145eff21f8e650bdaa5da12d32ba1b75f634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 18/96] fix: limit the box blur's filter to what fits in the
 image

---
 liboptv/src/image_processing.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index be34f71..80bf0b5 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -136,11 +136,14 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     register int *ptr, *ptr1, *ptr2, *ptr3;
     int *row_accum, *col_accum, accum, *end;
     int row_start, n, nq, m;
+    int span_x, span_y; /* the part of the filter that fits in the image */
     register int i;
     int image_size = cpar->imx * cpar->imy;
     
-    n = 2*filt_span + 1;
-    nq = n*n;
+    span_x = (2*filt_span < cpar->imx) ? filt_span : (cpar->imx - 1)/2;
+    span_y = (2*filt_span < cpar->imy) ? filt_span : (cpar->imy - 1)/2;
+    n = 2*span_x + 1;
+    nq = n*(2*span_y + 1);
     
     if ((row_accum = (int *)calloc(image_size, sizeof(int))) == NULL) return 0;
     if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) return 0;
@@ -159,7 +162,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         */
         for (ptr = row_accum + row_start + 1, 
             ptrr = src + row_start + 2, ptrl = ptrr - 1, m = 3;
-            ptr < row_accum + row_start + 1 + filt_span;
+            ptr < row_accum + row_start + 1 + span_x;
             ptr++, ptrl+=2, ptrr+=2, m+=2) 
         {    
             accum += (*ptrl + *ptrr);
@@ -171,7 +174,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
            by adding the coming element and dropping the leaving element, in a 
            sliding window fashion. 
         */
-        for (ptr = row_accum + row_start + filt_span + 1,
+        for (ptr = row_accum + row_start + span_x + 1,
             ptrl = src + row_start, ptrr = src + row_start + n;
             ptrr < src + row_start + cpar->imx;
             ptrl++, ptr++, ptrr++)
@@ -183,7 +186,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         /* last elements in line treated like first ones, mutatis mutandis */
         for (ptrl = src + row_start + cpar->imx - n,
             ptrr = ptrl + 1, m = n - 2,
-            ptr = row_accum + row_start + cpar->imx - filt_span;
+            ptr = row_accum + row_start + cpar->imx - span_x;
             ptr < row_accum + row_start + cpar->imx;
             ptrl += 2, ptrr += 2, ptr++, m-=2)
         {
@@ -205,21 +208,21 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     }
     
     /* Sum vertically the accumulated row values for lines 1 ... filt_span */
-    for (i = 1; i <= filt_span; i++) {
+    for (i = 1; i <= span_y; i++) {
         ptr1 = row_accum + (2*i - 1)*cpar->imx;
         ptr2 = ptr1 + cpar->imx;
         ptrz = dest + i*cpar->imx;
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 += (*ptr1 + *ptr2);
-            *ptrz = n * (*ptr3) / nq / (2*i + 1);
+            *ptrz = *ptr3 / n / (2*i + 1);
         }
     }
     
     /* Middle lines with filter-size lines around them */
-    for (i = filt_span + 1, ptr1 = row_accum, 
-        ptrz = dest + cpar->imx*(filt_span + 1),
-        ptr2 = row_accum + cpar->imx*n; i < cpar->imy - filt_span; i++)
+    for (i = span_y + 1, ptr1 = row_accum, 
+        ptrz = dest + cpar->imx*(span_y + 1),
+        ptr2 = row_accum + cpar->imx*(2*span_y + 1); i < cpar->imy - span_y; i++)
     {
         for (ptr3 = col_accum; ptr3 < end; ptr3++, ptr1++, ptrz++, ptr2++) {
            *ptr3 += (*ptr2 - *ptr1);
@@ -228,14 +231,14 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     }
     
     /* Last lines, similarly to first lines */
-    for (i = filt_span; i > 0; i--) {
+    for (i = span_y; i > 0; i--) {
         ptr1 = row_accum + (cpar->imy - 2*i - 1)*cpar->imx;
         ptr2 = ptr1 + cpar->imx;
         ptrz = dest + (cpar->imy-i)*cpar->imx;
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 -= (*ptr1 + *ptr2);
-            *ptrz = n * (*ptr3) / nq / (2*i+1);
+            *ptrz = *ptr3 / n / (2*i+1);
         }
     }
     
-- 
2.43.0


From aead4c8654c48f4a34319cfcb5418cc4f35b1a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 19/96] fix: average the last lines of a box blur over the
 lines they sum

---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 80bf0b5..883cd52 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -238,7 +238,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 -= (*ptr1 + *ptr2);
-            *ptrz = *ptr3 / n / (2*i+1);
+            *ptrz = *ptr3 / n / (2*i-1);
         }
     }
     
-- 
2.43.0


From 4dd548e8d1d1c7b1d0931822901c88313fcceb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:18 +0000
Subject: [PATCH 20/96] fix: fail on truncated and malformed target files

---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index a75b4c6..87bc179 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -59,7 +59,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
         goto handle_error;
     }
 
-    if (fscanf(FILEIN, "%d\n", &num_targets) == 0) {
+    if (fscanf(FILEIN, "%d\n", &num_targets) != 1 || num_targets < 0) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
     }
@@ -70,7 +70,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
 		  &(buffer[tix].nx),   &(buffer[tix].ny),
 		  &(buffer[tix].sumg), &(buffer[tix].tnr) );
       
-      if (scanf_ok == 0) {
+      if (scanf_ok != 8) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
       }
-- 
2.43.0


From 77e5b29d11be7b8f6c12548386b3b54a8266cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:18 +0000
Subject: [PATCH 21/96] fix: name target files alike in reading and writing,
 and reject overlong names

---
 liboptv/src/tracking_frame_buf.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 87bc179..f4cd29e 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -43,14 +43,19 @@ int compare_targets(target *t1, target *t2) {
 
 int read_targets(target buffer[], char* file_base, int frame_num) {
     FILE *FILEIN;
-    int	tix, num_targets, scanf_ok;
+    int	tix, num_targets, scanf_ok, name_len;
     char filein[STR_MAX_LEN + 1];
 
     if (frame_num > 0) {
-        sprintf(filein, "%s%04d%s", file_base, frame_num, "_targets");
+        name_len = snprintf(filein, sizeof(filein), "%s%04d%s", file_base, 
+            frame_num, "_targets");
     } else {
-        strncpy(filein, file_base, STR_MAX_LEN);
-        strncat(filein, "_targets", STR_MAX_LEN);
+        name_len = snprintf(filein, sizeof(filein), "%s%s", file_base, 
+            "_targets");
+    }
+    if (name_len >= sizeof(filein)) {
+        printf("File name too long: %s\n", file_base);
+        return -1;
     }
     
     FILEIN = fopen (filein, "r");
@@ -103,13 +108,19 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     int frame_num) {
     
     FILE *FILEOUT;
-    int	tix, printf_ok, success = 0;
+    int	tix, printf_ok, name_len, success = 0;
     char fileout[STR_MAX_LEN + 1];
     
-    if (frame_num == 0){
-        sprintf(fileout, "%s%s", file_base, "_targets");
+    if (frame_num > 0) {
+        name_len = snprintf(fileout, sizeof(fileout), "%s%04d%s", file_base, 
+            frame_num, "_targets");
     } else {
-        sprintf(fileout, "%s%04d%s", file_base, frame_num, "_targets");
+        name_len = snprintf(fileout, sizeof(fileout), "%s%s", file_base, 
+            "_targets");
+    }
+    if (name_len >= sizeof(fileout)) {
+        printf("File name too long: %s\n", file_base);
+        return 0;
     }
 
     FILEOUT = fopen(fileout, "w");
-- 
2.43.0


From 6de190f31d86fc49fe6b82c6aae2eb0d928704d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:18 +0000
Subject: [PATCH 22/96] fix: report target and frame files that could not be
 written out

---
 liboptv/src/tracking_frame_buf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index f4cd29e..b6b7e9e 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -148,7 +148,7 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     success = 1;
 
 finalize:
-    if (FILEOUT != NULL) fclose (FILEOUT);
+    if (FILEOUT != NULL && fclose (FILEOUT) != 0) success = 0;
     return success;
 }
 
@@ -427,9 +427,9 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     success = 1;
 
 finalize:
-    if (corres_file != NULL) fclose(corres_file);
-    if (linkage_file != NULL) fclose(linkage_file);
-    if (prio_file != NULL) fclose(prio_file);
+    if (corres_file != NULL && fclose(corres_file) != 0) success = 0;
+    if (linkage_file != NULL && fclose(linkage_file) != 0) success = 0;
+    if (prio_file != NULL && fclose(prio_file) != 0) success = 0;
     
     return success;
 }
-- 
2.43.0


From ddd543002da6a5c012e8e1782a90a7c08849c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 23/96] fix: read as many particles as a frame file says, or
 fail

---
 liboptv/src/tracking_frame_buf.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index b6b7e9e..d30f5e6 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -241,13 +241,12 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
 {
     FILE *filein, *linkagein = NULL, *prioin = NULL;
     char fname[STR_MAX_LEN];
-    int read_res = 0, targets = -1, alt_link = 0;
+    int read_res = 0, num_points, targets = -1, alt_link = 0;
     double discard; /* For position values that are to be read again from a 
                        differnt file. */
     
     /* File format: first line contains the number of points, then each line is
-    a record of path and correspondence info. We don't need the nuber of points
-    because we read to EOF anyway. */
+    a record of path and correspondence info. */
     
     sprintf(fname, "%s.%d", corres_file_base, frame_num);
     filein = fopen (fname, "r");
@@ -257,8 +256,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         goto finalize;
     }
     
-    read_res = fscanf(filein, "%d\n", &read_res);
-    if (!read_res) goto finalize;
+    read_res = fscanf(filein, "%d\n", &num_points);
+    if (read_res != 1 || num_points < 1) goto finalize;
     
     if (linkage_file_base != NULL) {
         sprintf(fname, "%s.%d", linkage_file_base, frame_num);
@@ -270,8 +269,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             goto finalize;
         }
     
-        read_res = fscanf(linkagein, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        if (fscanf(linkagein, "%d\n", &read_res) != 1) goto finalize;
     }
     
     if (prio_file_base != NULL) {
@@ -284,16 +282,15 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             goto finalize;
         }
     
-        read_res = fscanf(prioin, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        if (fscanf(prioin, "%d\n", &read_res) != 1) goto finalize;
     }
     
     targets = 0;
-    do {
+    while (targets < num_points) {
         if (linkagein != NULL) {
             read_res = fscanf(linkagein, "%4d %4d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
-            if (!read_res) {
+            if (read_res != 5) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
@@ -309,7 +306,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             read_res = fscanf( prioin, "%4d %4d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
-            if (!read_res) {
+            if (read_res != 6) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
@@ -344,7 +341,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         
         cor_buf++;
         path_buf++;
-    } while (!feof(filein));
+    }
     
 finalize:
     if (filein != NULL) fclose(filein);
-- 
2.43.0


From 18b5ef0b44e1d58d6ce1f05bc5421713a8b87bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 24/96] fix: read particle links of more than four digits whole

---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index d30f5e6..51d5cf3 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -288,7 +288,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     targets = 0;
     while (targets < num_points) {
         if (linkagein != NULL) {
-            read_res = fscanf(linkagein, "%4d %4d %lf %lf %lf\n",
+            read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
             if (read_res != 5) {
                 printf("Error with linkage file format in: %s.%d\n",
@@ -303,7 +303,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
         
         if (prioin != NULL) {
-            read_res = fscanf( prioin, "%4d %4d %lf %lf %lf %d\n",
+            read_res = fscanf( prioin, "%d %d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
             if (read_res != 6) {
-- 
2.43.0


From 03d9073202eb967399d16816fe60c9d8f8f44013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 25/96] fix: size a frame's target counts by its cameras

---
 liboptv/src/tracking_frame_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 51d5cf3..c78148b 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -446,7 +446,7 @@ void frame_init(frame *new_frame, int num_cams, int max_targets) {
     new_frame->correspond = (corres *) calloc(max_targets, sizeof(corres));
     
     new_frame->targets = (target**) calloc(num_cams, sizeof(target*));
-    new_frame->num_targets = (int *) calloc(max_targets, sizeof(int));
+    new_frame->num_targets = (int *) calloc(num_cams, sizeof(int));
     
     for (cam = 0; cam < num_cams; cam++) {
         new_frame->targets[cam] = \
-- 
2.43.0


From 0fee0877022b62f215148b6f0b26bb37460638d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 26/96] fix: do not write link candidates beyond the place for
 them

---
 liboptv/src/tracking_frame_buf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index c78148b..308b509 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -198,8 +198,11 @@ int compare_path_info(P *p1, P *p2) {
  * fitness_t fitness - the likelihood of the link candidate to actually be the
  *     correct link, based on physical criteria.
  * int cand - the candidate's index in next frame's target list.
+ *
+ * A structure has place for POSI candidates, further ones are dropped.
  */
 void register_link_candidate(P *self, fitness_t fitness, int cand) {
+    if (self->inlist >= POSI) return;
     self->decis[self->inlist] = fitness;
     self->linkdecis[self->inlist] = cand;
     self->inlist++;
-- 
2.43.0


From f97e496f331132e05851b8fdc1443442005035bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 27/96] fix: reject overlong names of frame files

---
 liboptv/src/tracking_frame_buf.c | 42 +++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 308b509..11d361d 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -220,6 +220,25 @@ void reset_links(P *self) {
     self->prio = PRIO_DEFAULT;
 }
 
+/* path_file_name() composes the name of a frame's file from its base name and
+ * the frame number, with a '.' between them.
+ *
+ * Arguments:
+ * char *fname - the result buffer, of STR_MAX_LEN + 1 bytes.
+ * char *file_base - base name of the file.
+ * int frame_num - number of the frame.
+ *
+ * Returns:
+ * True on success, 0 if the name is longer than the buffer.
+ */
+static int path_file_name(char *fname, char *file_base, int frame_num) {
+    if (snprintf(fname, STR_MAX_LEN + 1, "%s.%d", file_base, frame_num) 
+        <= STR_MAX_LEN) return 1;
+    
+    printf("File name too long: %s\n", file_base);
+    return 0;
+}
+
 /* Reads rt_is files. these files contain both the path info and the 
  * information on correspondence between targets on the different images.
  * Sets fields not in file to default values.
@@ -242,8 +261,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     char *corres_file_base, char *linkage_file_base, char *prio_file_base,
     int frame_num)
 {
-    FILE *filein, *linkagein = NULL, *prioin = NULL;
-    char fname[STR_MAX_LEN];
+    FILE *filein = NULL, *linkagein = NULL, *prioin = NULL;
+    char fname[STR_MAX_LEN + 1];
     int read_res = 0, num_points, targets = -1, alt_link = 0;
     double discard; /* For position values that are to be read again from a 
                        differnt file. */
@@ -251,7 +270,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     /* File format: first line contains the number of points, then each line is
     a record of path and correspondence info. */
     
-    sprintf(fname, "%s.%d", corres_file_base, frame_num);
+    if (!path_file_name(fname, corres_file_base, frame_num)) goto finalize;
     filein = fopen (fname, "r");
     if (!filein) {
         /* Keeping the printf until we have proper logging. */
@@ -263,7 +282,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     if (read_res != 1 || num_points < 1) goto finalize;
     
     if (linkage_file_base != NULL) {
-        sprintf(fname, "%s.%d", linkage_file_base, frame_num);
+        if (!path_file_name(fname, linkage_file_base, frame_num)) 
+            goto finalize;
         linkagein = fopen (fname, "r");
         
         if (!linkagein) {
@@ -276,7 +296,8 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     }
     
     if (prio_file_base != NULL) {
-        sprintf(fname, "%s.%d", prio_file_base, frame_num);
+        if (!path_file_name(fname, prio_file_base, frame_num)) 
+            goto finalize;
         prioin = fopen (fname, "r");
         
         if (!prioin) {
@@ -377,19 +398,21 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     char *corres_file_base, char *linkage_file_base, char *prio_file_base,
     int frame_num) 
 {
-    FILE *corres_file, *linkage_file = NULL, *prio_file = NULL;
+    FILE *corres_file = NULL, *linkage_file = NULL, *prio_file = NULL;
     char corres_fname[STR_MAX_LEN + 1], linkage_fname[STR_MAX_LEN + 1];
     char prio_fname[STR_MAX_LEN + 1];
     int	pix, success = 0;
 
-    sprintf(corres_fname, "%s.%d", corres_file_base, frame_num);
+    if (!path_file_name(corres_fname, corres_file_base, frame_num)) 
+        goto finalize;
     corres_file = fopen (corres_fname, "w");
     if (corres_file == NULL) {
         printf("Can't open file %s for writing\n", corres_fname);
         goto finalize;
     }
     
-    sprintf(linkage_fname, "%s.%d", linkage_file_base, frame_num);
+    if (!path_file_name(linkage_fname, linkage_file_base, frame_num)) 
+        goto finalize;
     linkage_file = fopen (linkage_fname, "w");
     if (linkage_file == NULL) {
         printf("Can't open file %s for writing\n", linkage_fname);
@@ -400,7 +423,8 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     fprintf(linkage_file, "%d\n", num_parts);
     
     if (prio_file_base != NULL) {
-        sprintf(prio_fname, "%s.%d", prio_file_base, frame_num);
+        if (!path_file_name(prio_fname, prio_file_base, frame_num)) 
+            goto finalize;
         prio_file = fopen (prio_fname, "w");
         if (prio_file == NULL) {
             printf("Can't open file %s for writing\n", prio_fname);
-- 
2.43.0


From f1077e6b735d3bf0233c84946051ab251c4755d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 28/96] fix: fail on target and frame files that have more than
 there is place for

---
 liboptv/include/tracking_frame_buf.h |  5 +++
 liboptv/src/tracking_frame_buf.c     | 46 +++++++++++++++++++++++++---
 py_bind/optv/tracking_framebuf.pyx   |  6 ++--
 3 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/liboptv/include/tracking_frame_buf.h b/liboptv/include/tracking_frame_buf.h
index fa2a8f7..ae7cbac 100644
--- a/liboptv/include/tracking_frame_buf.h
+++ b/liboptv/include/tracking_frame_buf.h
@@ -25,6 +25,8 @@ target;
 
 int compare_targets(target *t1, target *t2);
 int read_targets(target buffer[], char* file_base, int frame_num);
+int read_targets_limited(target buffer[], int max_targets, char* file_base, \
+    int frame_num);
 int write_targets(target buffer[], int num_targets, char* file_base, \
     int frame_num);
 
@@ -61,6 +63,9 @@ void reset_links(P *self);
 int read_path_frame(corres *cor_buf, P *path_buf, \
     char *corres_file_base, char *linkage_file_base, 
     char *prio_file_base, int frame_num);
+int read_path_frame_limited(corres *cor_buf, P *path_buf, int max_points, \
+    char *corres_file_base, char *linkage_file_base, 
+    char *prio_file_base, int frame_num);
 int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     char *corres_file_base, char *linkage_file_base, 
     char *prio_file_base, int frame_num);
diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 11d361d..33eea66 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -7,6 +7,7 @@ reading targets, correspondences, etc.
 */
 
 #include <string.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include "tracking_frame_buf.h"
@@ -42,6 +43,19 @@ int compare_targets(target *t1, target *t2) {
 */
 
 int read_targets(target buffer[], char* file_base, int frame_num) {
+    return read_targets_limited(buffer, INT_MAX, file_base, frame_num);
+}
+
+/* Same as read_targets(), for a buffer of a given length. A file that has more
+ * targets than that is an error.
+ *
+ * Arguments:
+ * int max_targets - length of the buffer.
+ * Others as for read_targets().
+ */
+int read_targets_limited(target buffer[], int max_targets, char* file_base, 
+    int frame_num) 
+{
     FILE *FILEIN;
     int	tix, num_targets, scanf_ok, name_len;
     char filein[STR_MAX_LEN + 1];
@@ -68,6 +82,10 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
     }
+    if (num_targets > max_targets) {
+        printf("More than %d targets in file: %s\n", max_targets, filein);
+        goto handle_error;
+    }
     for (tix = 0; tix < num_targets; tix++)	{
 	  scanf_ok = fscanf (FILEIN, "%d %lf %lf %d %d %d %d %d\n",
 		  &(buffer[tix].pnr),  &(buffer[tix].x),
@@ -260,6 +278,21 @@ static int path_file_name(char *fname, char *file_base, int frame_num) {
 int read_path_frame(corres *cor_buf, P *path_buf, \
     char *corres_file_base, char *linkage_file_base, char *prio_file_base,
     int frame_num)
+{
+    return read_path_frame_limited(cor_buf, path_buf, INT_MAX, 
+        corres_file_base, linkage_file_base, prio_file_base, frame_num);
+}
+
+/* Same as read_path_frame(), for buffers of a given length. A file that has
+ * more points than that is an error.
+ *
+ * Arguments:
+ * int max_points - length of the buffers.
+ * Others as for read_path_frame().
+ */
+int read_path_frame_limited(corres *cor_buf, P *path_buf, int max_points, \
+    char *corres_file_base, char *linkage_file_base, char *prio_file_base,
+    int frame_num)
 {
     FILE *filein = NULL, *linkagein = NULL, *prioin = NULL;
     char fname[STR_MAX_LEN + 1];
@@ -280,6 +313,10 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     
     read_res = fscanf(filein, "%d\n", &num_points);
     if (read_res != 1 || num_points < 1) goto finalize;
+    if (num_points > max_points) {
+        printf("More than %d points in file: %s\n", max_points, fname);
+        goto finalize;
+    }
     
     if (linkage_file_base != NULL) {
         if (!path_file_name(fname, linkage_file_base, frame_num)) 
@@ -536,16 +573,17 @@ int read_frame(frame *self, char *corres_file_base, char *linkage_file_base,
 {
     int cam;
     
-    self->num_parts = read_path_frame(self->correspond, self->path_info,
-        corres_file_base, linkage_file_base, prio_file_base, frame_num);
+    self->num_parts = read_path_frame_limited(self->correspond, 
+        self->path_info, self->max_targets, corres_file_base, linkage_file_base, prio_file_base, frame_num);
     if (self->num_parts == -1) return 0;
     
     /* Prevent crashes by testing for initial allocation */
     if (self->num_targets == 0) return 0;
     
     for (cam = 0; cam < self->num_cams; cam++) {
-        self->num_targets[cam] = read_targets(
-            self->targets[cam], target_file_base[cam], frame_num);
+        self->num_targets[cam] = read_targets_limited(
+            self->targets[cam], self->max_targets, target_file_base[cam], 
+            frame_num);
         if (self->num_targets[cam] == -1) return 0;
     }
     
diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 06b5f3f..4e38f04 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -7,8 +7,8 @@ import numpy as np
 from optv.vec_utils cimport vec3d, vec_copy
 
 cdef extern from "optv/tracking_frame_buf.h":
-    int c_read_targets "read_targets" (target buffer[], \
-        char* file_base, int frame_num)
+    int c_read_targets "read_targets_limited" (target buffer[], \
+        int max_targets, char* file_base, int frame_num)
     int write_targets(target buffer[], int num_targets, char* file_base, \
         int frame_num)
     
@@ -219,7 +219,7 @@ def read_targets(basename, int frame_num):
     py_byte_string = basename.encode('UTF-8')
     c_string = py_byte_string
     
-    num_targets = c_read_targets(tarr, c_string, frame_num)
+    num_targets = c_read_targets(tarr, MAX_TARGETS, c_string, frame_num)
     ret.set(tarr, num_targets, 1)
     
     return ret
-- 
2.43.0


From 5cd8a9243e6211531282ab5057153998e1d3b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 29/96] fix: compare the image names of both sequences

---
 liboptv/src/parameters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 785328d..5ad5d3a 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -99,7 +99,7 @@ int compare_sequence_par(sequence_par *sp1, sequence_par *sp2) {
         return 0; /*not equal*/
 
     for (cam = 0; cam < sp1->num_cams; cam++) {
-        if (strcmp(sp1->img_base_name[cam],sp1->img_base_name[cam]) !=0){
+        if (strcmp(sp1->img_base_name[cam],sp2->img_base_name[cam]) !=0){
             return 0; /*not equal*/
         }
     }
-- 
2.43.0


From 13ceccc7b356ec0d1f3321b7d504995559c2e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 30/96] fix: fail on parameter files that end early

---
 liboptv/src/parameters.c | 76 ++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 5ad5d3a..5817bd9 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -38,14 +38,14 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
 
     for (cam = 0; cam < num_cams; cam++) {
         read_ok = fscanf(par_file, "%s\n", line);
-        if (read_ok == 0) goto handle_error;
+        if (read_ok != 1) goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) == 0)
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) != 1)
         goto handle_error;
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) == 0)    
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) != 1)    
         goto handle_error;
 
     fclose(par_file);
@@ -156,15 +156,15 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dangle)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dacc)) == 0) goto handle_error;
-    if(fscanf(fpp, "%d\n", &(ret->add)) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dangle)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dacc)) != 1) goto handle_error;
+    if(fscanf(fpp, "%d\n", &(ret->add)) != 1) goto handle_error;
     fclose (fpp);
     
     ret->dsumg = ret->dn = ret->dnx = ret->dny = 0;
@@ -227,19 +227,19 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) != 1) goto handle_error;
     
-    if(fscanf(fpp, "%lf\n", &(ret->cnx)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cny)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cn)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->csumg)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->eps0)) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cnx)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cny)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cn)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->csumg)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->eps0)) != 1) goto handle_error;
     
     fclose (fpp);
     return ret;
@@ -357,26 +357,26 @@ parsing to fail */
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
     
-    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imx)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imy)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->chfield)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) == 0) goto handle_error; 
+    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imx)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imy)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->chfield)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) != 1) goto handle_error; 
     
     fclose(par_file);
     ret->mm->nlay = 1;
-- 
2.43.0


From ff3d8fc288fc59b216d4cec70c6e543e005fa56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 31/96] fix: fail on missing tracking and volume parameter
 files

---
 liboptv/src/parameters.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 5817bd9..6f4bf9d 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -156,6 +156,7 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
+    if (fpp == NULL) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) != 1) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) != 1) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->dvymin)) != 1) goto handle_error;
@@ -173,7 +174,7 @@ parsing to fail */
 handle_error:
     printf("Error reading tracking parameters from %s\n", filename);
     free(ret);
-    fclose (fpp);
+    if (fpp != NULL) fclose (fpp);
     return NULL;
 }
 
@@ -227,6 +228,7 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
+    if (fpp == NULL) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) != 1) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) != 1) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) != 1) goto handle_error;
@@ -247,7 +249,7 @@ parsing to fail */
 handle_error:
     printf("Error reading volume parameters from %s\n", filename);
     free(ret);
-    fclose(fpp);
+    if (fpp != NULL) fclose(fpp);
     return NULL;
 }
 
-- 
2.43.0


From a23c79aa0945b36368706ab8d0dc9afa21b08fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 32/96] fix: reject image names that are longer than the place
 for them

---
 liboptv/src/parameters.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 6f4bf9d..a995988 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -5,7 +5,28 @@
 #include <stdlib.h>
 #include <string.h>
 #include <locale.h>
+#include <ctype.h>
 
+/* read_name() reads one image name, delimited by white space, if it is not
+   longer than a name in the parameter structures can be.
+   
+   Arguments:
+   FILE *par_file - the file to read from.
+   char *name - the result buffer, of SEQ_FNAME_MAX_LEN bytes.
+   
+   Returns:
+   1 on success, 0 if there's no name or it is too long.
+*/
+static int read_name(FILE *par_file, char *name) {
+    char format[10];
+    int next_char;
+    
+    sprintf(format, "%%%ds", SEQ_FNAME_MAX_LEN - 1);
+    if (fscanf(par_file, format, name) != 1) return 0;
+    
+    next_char = fgetc(par_file);
+    return (next_char == EOF || isspace(next_char));
+}
 
 
 /* read_sequence_par() reads sequence parameters from a config file with the
@@ -37,8 +58,7 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
     ret = new_sequence_par(num_cams);
 
     for (cam = 0; cam < num_cams; cam++) {
-        read_ok = fscanf(par_file, "%s\n", line);
-        if (read_ok != 1) goto handle_error;
+        if (!read_name(par_file, line)) goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
@@ -359,10 +379,10 @@ parsing to fail */
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
+        if (!read_name(par_file, line)) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
+        if (!read_name(par_file, line)) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-- 
2.43.0


From eafd9b90db67aa8d2f57353f08ad4bbd8ec5348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 33/96] fix: reject a bad number of cameras and close the
 control parameters file

---
 liboptv/src/parameters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index a995988..c5e5ddc 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -373,8 +373,9 @@ parsing to fail */
         return NULL;
     }
 
-    if (fscanf(par_file, "%d\n", &num_cams) != 1) {
+    if (fscanf(par_file, "%d\n", &num_cams) != 1 || num_cams < 0) {
         printf("Could not read number of cameras from %s", filename);
+        fclose(par_file);
         return NULL;
     }
     ret = new_control_par(num_cams);
-- 
2.43.0


From b5286808d06a6ac582af23fe97b15bd4f6a7144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 34/96] fix: do not write target parameters to a file that
 could not be opened

---
 liboptv/src/parameters.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index c5e5ddc..817e4b3 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -556,8 +556,10 @@ int compare_target_par(target_par *targ1, target_par *targ2) {
 void write_target_par(target_par *targ, char *filename) {
     FILE *file = fopen(filename, "w");
 
-    if (file == NULL)
+    if (file == NULL) {
         printf("Can't create file: %s\n", filename);
+        return;
+    }
 
     fprintf(file, "%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d",
             targ->gvthres[0],
-- 
2.43.0


From 4f2c0487d103e6d4d63fdbaf90b334aa8268b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 35/96] fix: report orientations that could not be written out,
 and only those

---
 liboptv/src/calibration.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 6e7a973..234f365 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -40,10 +40,15 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   fprintf (fp,"\n    %8.4f %8.4f\n    %8.4f\n", I.xh, I.yh, I.cc);
   fprintf (fp,"\n    %20.15f %20.15f  %20.15f\n", G.vec_x, G.vec_y, G.vec_z);
   
-  fclose (fp);
+  if (ferror(fp) != 0) goto finalize;
+  i = fclose(fp);
   fp = NULL;
+  if (i != 0) goto finalize;
   
-  if (add_file == NULL) goto finalize;
+  if (add_file == NULL) {
+    success = 1;
+    goto finalize;
+  }
   fp = fopen (add_file, "w");
   if (! fp) {
         printf("Can't open ascii file: %s\n", add_file);
@@ -54,7 +59,7 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   success = 1;
   
 finalize:
-    if (fp != NULL) fclose (fp);
+    if (fp != NULL && fclose (fp) != 0) success = 0;
     return success;
 }
 
-- 
2.43.0


From 36cd20ea98e09e12662fe6c1f9419d9d5c0e93f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 36/96] fix: close malformed orientation files

---
 liboptv/src/calibration.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 234f365..e7bc9ef 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -105,22 +105,22 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
   scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf",
 	  &(Ex->x0), &(Ex->y0), &(Ex->z0),
 	  &(Ex->omega), &(Ex->phi), &(Ex->kappa));
-  if (scan_res != 6) return 0;
+  if (scan_res != 6) goto handle_error;
   
   /* Exterior rotation matrix */
   for (i=0; i<3; i++) {
     scan_res = fscanf (fp, " %lf %lf %lf",
         &(Ex->dm[i][0]), &(Ex->dm[i][1]), &(Ex->dm[i][2]));
-    if (scan_res != 3) return 0;
+    if (scan_res != 3) goto handle_error;
   }
 
   /* Interior */
   scan_res = fscanf (fp, "%lf %lf %lf", &(I->xh), &(I->yh), &(I->cc));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   /* Glass */
   scan_res = fscanf (fp, "%lf %lf %lf", &(G->vec_x), &(G->vec_y), &(G->vec_z));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   fclose(fp);
   
-- 
2.43.0


From f6f374a2f10ed6f3d35b3fb9ea2ca1df1985917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 37/96] fix: fail on truncated distortion files, accept none at
 all

---
 liboptv/src/calibration.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index e7bc9ef..abe3649 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -125,13 +125,14 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
   fclose(fp);
   
   /* Additional: */
-  fp = fopen(add_file, "r");
+  fp = (add_file == NULL) ? NULL : fopen(add_file, "r");
   if ((fp == NULL) && add_fallback) fp = fopen (add_fallback, "r");
   
   if (fp) {
     scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf %lf",
         &(addp->k1), &(addp->k2), &(addp->k3), &(addp->p1), &(addp->p2),
         &(addp->scx), &(addp->she));
+    if (scan_res != 7) goto handle_error;
     fclose (fp);
   } else {
     printf("no addpar fallback used\n"); // Waits for proper logging.
-- 
2.43.0


From a111b0e03ad6118a3608c553d5f1b8e82efbb6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 38/96] fix: fail on calibration block files with a bad line

---
 liboptv/src/sortgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index cc72b4c..ae961b9 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -163,7 +163,7 @@ handle_error:
 */
 vec3d* read_calblock(int *num_points, char* filename) {
     FILE* fpp = NULL;
-    int	dummy, k = 0;
+    int	dummy, scan_res, k = 0;
     vec3d fix;
     vec3d *ret = (vec3d *) malloc(1); /* reallocated every line */
        
@@ -174,15 +174,15 @@ vec3d* read_calblock(int *num_points, char* filename) {
     }
     
     /* Single-pass read-reallocate.*/
-    while (fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
-            &(fix[1]),&(fix[2])) == 4) 
+    while ((scan_res = fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
+            &(fix[1]),&(fix[2]))) == 4) 
     {
         ret = (vec3d *) realloc(ret, (k + 1) * sizeof(vec3d));
         vec_copy(ret[k], fix);
         k++;
     }
     
-    if (k == 0) {
+    if (k == 0 || scan_res != EOF) {
         printf("Empty of badly formatted file: %s\n", filename);
         goto handle_error;
     }
-- 
2.43.0


From 3e410491afffda279f648d56f3be14ada74655a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 39/96] fix: fail on truncated manual orientation files, close
 files once

---
 liboptv/src/orientation.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 21f23c2..5f34bcf 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -723,10 +723,16 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
         goto handle_error;
     }
 
-    for (i=0; i<cam; i++)
-        fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy);
-    fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]);
+    for (i=0; i<cam; i++) {
+        if (fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy) 
+            != 4) break;
+    }
+    if (i < cam || fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]) != 4) {
+        printf("Not enough point numbers in file: %s\n", man_ori_filename);
+        goto handle_error;
+    }
     fclose (fpp);
+    fpp = NULL;
 
     /* read the id and positions of the fixed points, assign the pre-defined to fix4 */
     fix = read_calblock(&num_fix, calblock_filename);
-- 
2.43.0


From 0593eb3fb509b82871ad9821985d39dd777d87a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 40/96] fix: compare distorted projections with detections as
 they are in orient()

---
 liboptv/src/orientation.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 5f34bcf..7ffa053 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -362,7 +362,6 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
         /* get metric flat-image coordinates of the detected point */
         pixel_to_metric (&xc, &yc, pix[i].x, pix[i].y, cpar);
-        correct_brown_affin (xc, yc, cal->added_par, &xc, &yc);
 
         /* Projected 2D position on sensor of corresponding known point */
         rotation_matrix(&(cal->ext_par));
-- 
2.43.0


From 9b0d8b9fbfd9eccd39f5be6ac4321cb576006871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 41/96] fix: vary the glass vector in two directions
 perpendicular to it

---
 liboptv/src/orientation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 7ffa053..9640055 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -306,13 +306,13 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
         cal->glass_par.vec_x, cal->glass_par.vec_y, cal->glass_par.vec_z);
     nGl = vec_norm(glass_dir);
 
-    e1_x = 2*cal->glass_par.vec_z - 3*cal->glass_par.vec_x;
+    e1_x = 2*cal->glass_par.vec_z - 3*cal->glass_par.vec_y;
     e1_y = 3*cal->glass_par.vec_x - 1*cal->glass_par.vec_z;
-    e1_z = 1*cal->glass_par.vec_y - 2*cal->glass_par.vec_y;
+    e1_z = 1*cal->glass_par.vec_y - 2*cal->glass_par.vec_x;
     vec_set(tmp_vec, e1_x, e1_y, e1_z);
     unit_vector(tmp_vec, e1);
 
-    e2_x = e1_y*cal->glass_par.vec_z - e1_z*cal->glass_par.vec_x;
+    e2_x = e1_y*cal->glass_par.vec_z - e1_z*cal->glass_par.vec_y;
     e2_y = e1_z*cal->glass_par.vec_x - e1_x*cal->glass_par.vec_z;
     e2_z = e1_x*cal->glass_par.vec_y - e1_y*cal->glass_par.vec_y;
     vec_set(tmp_vec, e2_x, e2_y, e2_z);
-- 
2.43.0


From 61412acbc2d9fd79361bf8cfac1fa7aab3c52c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 42/96] fix: keep the glass vector found in the last iteration
 of orient()

---
 liboptv/src/orientation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 9640055..660096e 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -556,6 +556,10 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
           cal->glass_par.vec_x += e2[0]*nGl*beta[17];
           cal->glass_par.vec_y += e2[1]*nGl*beta[17];
           cal->glass_par.vec_z += e2[2]*nGl*beta[17];
+
+          safety_x = cal->glass_par.vec_x;
+          safety_y = cal->glass_par.vec_y;
+          safety_z = cal->glass_par.vec_z;
       }
     }
 
-- 
2.43.0


From 1941a3620cbba58ae6c97a500074f23f29a2b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 43/96] fix: release what orient() allocates

---
 liboptv/src/orientation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 660096e..6fc1a12 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -580,15 +580,18 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     free(X);
     free(P);
     free(y);
+    free(yh);
     free(Xbeta);
     free(Xh);
 
     if (stopflag){
         rotation_matrix(&(cal->ext_par));
         memcpy(cal_in, cal, sizeof (Calibration));
+        free(cal);
         return resi;
     }
     else {
+        free(cal);
         free(resi);
         return NULL;
     }
-- 
2.43.0


From 48cec02d7aa1a521a2b1f44f095c77b4f2d06f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:41 +0000
Subject: [PATCH 44/96] fix: do not take undefined corrections for a converged
 orientation

---
 liboptv/src/orientation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 6fc1a12..8c8b8aa 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -518,7 +518,7 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
       stopflag = 1;
       for (i = 0; i < numbers; i++) {
-          if (fabs (beta[i]) > CONVERGENCE)  stopflag = 0;
+          if ( ! (fabs (beta[i]) <= CONVERGENCE))  stopflag = 0;
       }
 
       if ( ! flags->ccflag) beta[6] = 0.0;
@@ -683,7 +683,7 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     
         stopflag = 1;
         for (i = 0; i < 6; i++) {
-          if (fabs (beta[i]) > 0.1 )
+          if ( ! (fabs (beta[i]) <= 0.1) )
             stopflag = 0;
         }
     
-- 
2.43.0


From f80cb96db744081ea68716d34d47d8108fed9567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 45/96] fix: make place for all the points given to
 raw_orient()

---
 liboptv/src/orientation.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 8c8b8aa..ed5e72e 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -619,18 +619,16 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
 int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], target pix[])
 {
-    double  X[10][6], y[10], XPX[6][6], XPy[6], beta[6];
-    int     i, j, n, itnum, stopflag;
+    double  XPX[6][6], XPy[6], beta[6];
+    double  (*X)[6], *y;
+    int     i, n, itnum, stopflag;
     double  dm = 0.0001,  drad = 0.0001;
     double 	xp, yp, xc, yc;
     vec3d   pos;
 
-    /* init X, y (set to zero) */
-    for (i = 0; i < 10; i++) {
-      for (j = 0; j < 6; j++)
-        X[i][j] = 0;
-      y[i] = 0;
-    }
+    /* X, y (set to zero), two rows for each point */
+    X = calloc (2*nfix + 1, sizeof (*X));
+    y = (double *) calloc (2*nfix + 1, sizeof (double));
 
     cal->added_par.k1 = 0;
     cal->added_par.k2 = 0;
@@ -696,6 +694,9 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     
     }
 
+    free(X);
+    free(y);
+
     if (stopflag) {
         rotation_matrix(&(cal->ext_par));
     }
-- 
2.43.0


From dbfd012a0c9b3140e56871fa18ceb4c541670f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:25 +0000
Subject: [PATCH 46/96] fix: angle_acc() is defined for parallel velocities and
 particles at rest

---
 liboptv/src/track.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index b439874..8b4cfd4 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -192,20 +192,28 @@ int pos3d_in_bounds(vec3d pos, track_par *bounds) {
 void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
 {
     vec3d v0, v1;
+    double len0, len1, cosine;
 
     vec_subt(pred, start, v0);
     vec_subt(cand, start, v1);
 
     *acc = vec_diff_norm(v0, v1);
+    len0 = vec_norm(v0);
+    len1 = vec_norm(v1);
 
-
-    if ((v0[0] == -v1[0]) && (v0[1] == -v1[1]) && (v0[2] == -v1[2])) {
+    if (len0 == 0 || len1 == 0) {
+        *angle = 0;         /* no direction, nothing to deviate from. */
+    } else if ((v0[0] == -v1[0]) && (v0[1] == -v1[1]) && (v0[2] == -v1[2])) {
         *angle = 200;
     } else if ((v0[0] == v1[0]) && (v0[1] == v1[1]) && (v0[2] == v1[2])) {
         *angle = 0;         // otherwise it returns NaN
     } else {
-        *angle = (200./M_PI) * acos(vec_dot(v0, v1) / vec_norm(v0) \
-                                    / vec_norm(v1));
+        cosine = vec_dot(v0, v1) / len0 / len1;
+        
+        /* rounding may bring the cosine of parallel vectors out of range */
+        if (cosine > 1) cosine = 1;
+        if (cosine < -1) cosine = -1;
+        *angle = (200./M_PI) * acos(cosine);
     }
 }
 
-- 
2.43.0


From e7c44db0bd1d172273b653951e389816d0b72d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 47/96] fix: candsearch_in_pix() keeps candidates at equal
 distances

---
 liboptv/src/track.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 8b4cfd4..954ee46 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -283,15 +283,15 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
                             p4 = p3; p3 = p2; p2 = p1; p1 = j;
                             d4 = d3; d3 = d2; d2 = d1; d1 = d;
                         }
-                        else if ( d1 < d &&  d < d2 ) {
+                        else if ( d < d2 ) {
                             p4 = p3; p3 = p2; p2 = j;
                             d4 = d3; d3 = d2; d2 = d;
                         }
-                        else if ( d2 < d && d < d3 ) {
+                        else if ( d < d3 ) {
                             p4 = p3; p3 = j;
                             d4 = d3; d3 = d;
                         }
-                        else if ( d3 < d && d < d4 ) {
+                        else if ( d < d4 ) {
                             p4 = j;
                             d4 = d;
                         }
-- 
2.43.0


From 747e0a525fa2bc44d15229ed4b231759d1e40245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 48/96] fix: start the search of near targets early enough in
 long lists

---
 liboptv/src/track.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 954ee46..6a4d5d1 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -267,6 +267,9 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
             }
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */
+            
+            /* in long lists the truncation errors add up to more than that */
+            while (j0 > 0 && next[j0 - 1].y > ymin) j0--;
             for (j = j0; j<num_targets; j++) {           /* candidate search */
                 if (next[j].tnr != TR_UNUSED ) {
                     if (next[j].y > ymax ) break;                     /* finish search */
@@ -356,6 +359,9 @@ int candsearch_in_pix_rest (target next[], int num_targets, double cent_x, doubl
             }	
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */	
+            
+            /* in long lists the truncation errors add up to more than that */
+            while (j0 > 0 && next[j0 - 1].y > ymin) j0--;
             for (j = j0; j<num_targets; j++) {           /* candidate search */	
                 if (next[j].tnr == TR_UNUSED ) {	
                     if (next[j].y > ymax ) break;                     /* finish search */	
-- 
2.43.0


From b657cb0933853e8800710e1f78505e2e1ceb3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 49/96] fix: start the vertical limits of a tracking run from a
 defined value

---
 liboptv/src/tracking_run.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 8c983ae..478ec81 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -67,6 +67,8 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
     tr->lmax = norm((tpar->dvxmin - tpar->dvxmax), \
                     (tpar->dvymin - tpar->dvymax), \
                     (tpar->dvzmin - tpar->dvzmax));
+    /* volumedimension() extends the limits it is given. */
+    tr->ymin = tr->ymax = 0;
     volumedimension(&(vpar->X_lay[1]), &(vpar->X_lay[0]), &(tr->ymax),
                     &(tr->ymin), &(vpar->Zmax_lay[1]), &(vpar->Zmin_lay[0]),
                     vpar, cpar, cal);
-- 
2.43.0


From e7fa029c40403d1ae68a7acffc03a690fa120a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:01 +0000
Subject: [PATCH 50/96] fix: add particles in backward tracking within the
 vertical limits of the run

---
 liboptv/src/track.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 6a4d5d1..cd5cace 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1082,7 +1082,7 @@ double trackback_c (tracking_run *run_info)
     double angle, acc, dl;
     vec3d diff_pos, X[6];     /* 6 reference points used in the algorithm */
     vec2d n[4], v2[4];     // replaces xn,yn, x2[4], y2[4],
-    double rr, Ymin = 0, Ymax = 0;
+    double rr;
     double npart = 0, nlinks = 0;
     foundpix *w;
 
@@ -1184,7 +1184,7 @@ double trackback_c (tracking_run *run_info)
 
                         /* volume check */
                         if ( vpar->X_lay[0] < X[3][0] && X[3][0] < vpar->X_lay[1] &&
-                             Ymin < X[3][1] && X[3][1] < Ymax &&
+                             run_info->ymin < X[3][1] && X[3][1] < run_info->ymax &&
                              vpar->Zmin_lay[0] < X[3][2] && X[3][2] < vpar->Zmax_lay[1])
                         {in_volume = 1;}
 
-- 
2.43.0


From 805a5007044852b31cf8a9fd40917369df549555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:45 +0000
Subject: [PATCH 51/96] fix: do not add particles before the start or after the
 end of a frame

---
 liboptv/src/track.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index cd5cace..62a59a8 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -698,13 +698,20 @@ int assess_new_position(vec3d pos, vec2d targ_pos[],
  * vec3d pos - position of inserted particle in the global coordinates.
  * int cand_inds[][MAX_CANDS] - indices of candidate targets for association
  *    with this particle.
+ * 
+ * Returns:
+ * the index of the new particle in the frame, or -1 if the frame is full.
  */
-void add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
+int add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
     int num_parts, cam, _ix;
     P *ref_path_inf;
     corres *ref_corres;
     target **ref_targets;
     
+    /* frames without particles may be marked by a negative number. */
+    if (frm->num_parts < 0) frm->num_parts = 0;
+    if (frm->num_parts >= frm->max_targets) return -1;
+    
     num_parts = frm->num_parts;
     ref_path_inf = &(frm->path_info[num_parts]);
     vec_copy(ref_path_inf->x, pos);
@@ -724,6 +731,7 @@ void add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
         }
     }
     frm->num_parts++;
+    return num_parts;
 }
 
 /* trackcorr_c_loop is the main tracking subroutine that scans the 3D particle position
@@ -919,8 +927,9 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                              (quali+w[mm].freq);
                         register_link_candidate(curr_path_inf, rr, w[mm].ftnr);
 
-                        if (tpar->add) {
-                            add_particle(fb->buf[3], X[4], philf);
+                        if (tpar->add && \
+                            add_particle(fb->buf[3], X[4], philf) >= 0) 
+                        {
                             num_added++;
                         }
                     }
@@ -985,10 +994,11 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                             dl = (vec_diff_norm(X[1], X[3]) +
                                   vec_diff_norm(X[0], X[1]) )/2;
                             rr = (dl/run_info->lmax + acc/tpar->dacc + angle/tpar->dangle)/(quali);
-                            register_link_candidate(curr_path_inf, rr, fb->buf[2]->num_parts);
-
-                            add_particle(fb->buf[2], X[3], philf);
-                            num_added++;
+                            _ix = add_particle(fb->buf[2], X[3], philf);
+                            if (_ix >= 0) {
+                                register_link_candidate(curr_path_inf, rr, _ix);
+                                num_added++;
+                            }
                         }
                     }
                     in_volume = 0;
@@ -1078,7 +1088,7 @@ double trackback_c (tracking_run *run_info)
     int step;
     int philf[4][MAX_CANDS];
     int count1 = 0, count2 = 0, num_added = 0;
-    int quali = 0;
+    int quali = 0, _ix;
     double angle, acc, dl;
     vec3d diff_pos, X[6];     /* 6 reference points used in the algorithm */
     vec2d n[4], v2[4];     // replaces xn,yn, x2[4], y2[4],
@@ -1198,9 +1208,9 @@ double trackback_c (tracking_run *run_info)
                                 dl = (vec_diff_norm(X[1], X[3]) +
                                       vec_diff_norm(X[0], X[1]) )/2;
                                 rr = (dl/run_info->lmax+acc/tpar->dacc + angle/tpar->dangle)/(quali);
-                                register_link_candidate(curr_path_inf, rr, fb->buf[2]->num_parts);
-
-                                add_particle(fb->buf[2], X[3], philf);
+                                _ix = add_particle(fb->buf[2], X[3], philf);
+                                if (_ix >= 0)
+                                    register_link_candidate(curr_path_inf, rr, _ix);
                             }
                         }
                         in_volume = 0;
-- 
2.43.0


From a8c880c85b25b17802830c0f798c7ac9a33b35de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 52/96] fix: added particles do not inherit values from older
 frames

---
 liboptv/src/track.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 62a59a8..90a21a3 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -717,7 +717,12 @@ int add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
     vec_copy(ref_path_inf->x, pos);
     reset_links(ref_path_inf);
     
+    /* The place may have been used by a particle of an older frame. */
+    ref_path_inf->inlist = 0;
+    ref_path_inf->finaldecis = 1000000.0;
+    
     ref_corres = &(frm->correspond[num_parts]);
+    for (cam = 0; cam < TR_MAX_CAMS; cam++) ref_corres->p[cam] = CORRES_NONE;
     ref_targets = frm->targets;
     for (cam = 0; cam < frm->num_cams; cam++) {
         ref_corres->p[cam] = CORRES_NONE;
-- 
2.43.0


From 7ba7bce3dd40e1ced5ff1c2b045c980bf288a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 53/96] fix: a frame that can not be read keeps nothing of the
 older frame in its place

---
 liboptv/src/tracking_frame_buf.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 33eea66..965b920 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -564,18 +564,18 @@ void free_frame(frame *self) {
  *   between the name and the frame number.
  *
  * Returns:
- * True on success, false otherwise. In case of failure, the state of frame is
- * undefined.
+ * True on success, false otherwise. In case of failure, what could not be read
+ * is left empty.
  */
 int read_frame(frame *self, char *corres_file_base, char *linkage_file_base,
     char *prio_file_base, char **target_file_base,
     int frame_num)
 {
-    int cam;
+    int cam, success;
     
     self->num_parts = read_path_frame_limited(self->correspond, 
         self->path_info, self->max_targets, corres_file_base, linkage_file_base, prio_file_base, frame_num);
-    if (self->num_parts == -1) return 0;
+    success = (self->num_parts != -1);
     
     /* Prevent crashes by testing for initial allocation */
     if (self->num_targets == 0) return 0;
@@ -584,10 +584,13 @@ int read_frame(frame *self, char *corres_file_base, char *linkage_file_base,
         self->num_targets[cam] = read_targets_limited(
             self->targets[cam], self->max_targets, target_file_base[cam], 
             frame_num);
-        if (self->num_targets[cam] == -1) return 0;
+        if (self->num_targets[cam] == -1) {
+            self->num_targets[cam] = 0;
+            success = 0;
+        }
     }
     
-    return 1;
+    return success;
 }
 
 /* write_frame() writes all of the frame associated data: correspondnces,
-- 
2.43.0


From 44873b24a74e69bc3836a440555323604d7e4682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 54/96] fix: the velocity to a new particle points forward

---
 liboptv/src/track.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 90a21a3..c47af8f 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -919,7 +919,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                     in_volume = 1;
                 }
 
-                vec_subt(X[3], X[4], diff_pos);
+                vec_subt(X[4], X[3], diff_pos);
                 if ( in_volume == 1 && pos3d_in_bounds(diff_pos, tpar) ) {
                     angle_acc(X[3], X[4], X[5], &angle, &acc);
 
-- 
2.43.0


From ce7100712e427f84889958988fc7151bd8beb103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 55/96] fix: check the velocity to an added particle rather
 than its distance from the prediction

---
 liboptv/src/track.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index c47af8f..7fa39ea 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -989,7 +989,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                         in_volume = 1;
                     }
 
-                    vec_subt(X[2], X[3], diff_pos);
+                    vec_subt(X[3], X[1], diff_pos);
                     if ( in_volume == 1 && pos3d_in_bounds(diff_pos, tpar) ) {
                         angle_acc(X[1], X[2], X[3], &angle, &acc);
 
-- 
2.43.0


From 57cd30b1d8cdf01705ff1925aad2bbfb139def91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:16 +0000
Subject: [PATCH 56/96] fix: tracking follows only links, labels and targets
 that exist

---
 liboptv/src/track.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 7fa39ea..0eb30b1 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -597,7 +597,7 @@ foundpix *sorted_candidates_in_volume(vec3d center, vec2d center_proj[],
     foundpix *points;
     double right[TR_MAX_CAMS], left[TR_MAX_CAMS];
     double down[TR_MAX_CAMS], up[TR_MAX_CAMS];
-    int cam, num_cams, num_cands;
+    int cam, num_cams, num_cands, cand;
     
     num_cams = frm->num_cams;
     points = (foundpix*) calloc(num_cams*MAX_CANDS, sizeof(foundpix));
@@ -617,6 +617,12 @@ foundpix *sorted_candidates_in_volume(vec3d center, vec2d center_proj[],
         );
     }
 
+    /* a target may name a particle that the frame does not hold */
+    for (cand = 0; cand < num_cams*MAX_CANDS; cand++) {
+        if (points[cand].ftnr < 0 || points[cand].ftnr >= frm->num_parts)
+            points[cand].ftnr = TR_UNUSED;
+    }
+
     /* fill and sort candidate struct */
     num_cands = sort_candidates_by_freq(points, num_cams);
     if (num_cands > 0) {
@@ -823,7 +829,9 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
         } else {
             vec_copy(X[2], X[1]);
             for (j = 0; j < fb->num_cams; j++) {
-                if (curr_corres->p[j] == CORRES_NONE) {
+                if (curr_corres->p[j] < 0 || \
+                    curr_corres->p[j] >= fb->buf[1]->num_targets[j]) 
+                {
                     point_to_pixel (v1[j], X[2], cal[j], cpar);
                 } else {
                     _ix = curr_corres->p[j];
@@ -1137,6 +1145,7 @@ double trackback_c (tracking_run *run_info)
 
             /* We try to find link only if the forward search failed to. */
             if ((curr_path_inf->next < 0) || (curr_path_inf->prev != -1)) continue;
+            if (curr_path_inf->next >= fb->buf[0]->num_parts) continue;
 
             for (j = 0; j < 6; j++) vec_init(X[j]);
             curr_path_inf->inlist = 0;
@@ -1252,7 +1261,8 @@ double trackback_c (tracking_run *run_info)
                 }
 
                 /* old which link to prev has to be checked */
-                if ((ref_path_inf->prev != PREV_NONE) && \
+                if ((ref_path_inf->prev >= 0) && \
+                    (ref_path_inf->prev < fb->buf[3]->num_parts) && \
                     (ref_path_inf->next == NEXT_NONE) )
                 {
                     vec_copy(X[0], fb->buf[0]->path_info[curr_path_inf->next].x);
-- 
2.43.0


From 569bd038d884936c939dd3e067e94cd93198db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:52 +0000
Subject: [PATCH 57/96] fix: a tracking run does not change the volume
 parameters it is given

---
 liboptv/include/tracking_run.h |  2 +-
 liboptv/src/track.c            | 18 +++++++-----------
 liboptv/src/tracking_run.c     |  7 ++++---
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/liboptv/include/tracking_run.h b/liboptv/include/tracking_run.h
index 6cc6e14..66b0453 100644
--- a/liboptv/include/tracking_run.h
+++ b/liboptv/include/tracking_run.h
@@ -21,7 +21,7 @@ typedef struct {
     double flatten_tol; /* Tolerance for dist_to_flat() */
     
     /* Intermediate calculations done in run setup phase and used in the loop: */
-    double ymin, ymax, lmax;
+    double xmin, xmax, ymin, ymax, zmin, zmax, lmax;
     int npart, nlinks;
 } tracking_run;
 
diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 0eb30b1..f230daf 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -790,7 +790,6 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
     Calibration **cal;
     framebuf_base *fb;
     track_par *tpar;
-    volume_par *vpar;
     control_par *cpar;
 
     foundpix *w, *wn; 
@@ -799,7 +798,6 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
     fb = run_info->fb;
     cal = run_info->cal;
     tpar = run_info->tpar;
-    vpar = run_info->vpar;
     cpar = run_info->cpar;
     curr_targets = fb->buf[1]->targets;
 
@@ -920,9 +918,9 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                 dl = point_position(v2, cpar->num_cams, cpar->mm, cal, X[4]);
 
                 /* volume check */
-                if ( vpar->X_lay[0] < X[4][0] && X[4][0] < vpar->X_lay[1] &&
+                if ( run_info->xmin < X[4][0] && X[4][0] < run_info->xmax &&
                      run_info->ymin < X[4][1] && X[4][1] < run_info->ymax &&
-                     vpar->Zmin_lay[0] < X[4][2] && X[4][2] < vpar->Zmax_lay[1])
+                     run_info->zmin < X[4][2] && X[4][2] < run_info->zmax)
                 {
                     in_volume = 1;
                 }
@@ -989,10 +987,10 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                     dl = point_position(v2, fb->num_cams, cpar->mm, cal, X[3]);
 
                     /* in volume check */
-                    if ( vpar->X_lay[0] < X[3][0] && X[3][0] < vpar->X_lay[1] &&
+                    if ( run_info->xmin < X[3][0] && X[3][0] < run_info->xmax &&
                          run_info->ymin < X[3][1] && X[3][1] < run_info->ymax &&
-                         vpar->Zmin_lay[0] < X[3][2] &&
-                         X[3][2] < vpar->Zmax_lay[1])
+                         run_info->zmin < X[3][2] &&
+                         X[3][2] < run_info->zmax)
                     {
                         in_volume = 1;
                     }
@@ -1111,7 +1109,6 @@ double trackback_c (tracking_run *run_info)
 
     sequence_par *seq_par;
     track_par *tpar;
-    volume_par *vpar;
     control_par *cpar;
     framebuf_base *fb;
     Calibration **cal;
@@ -1123,7 +1120,6 @@ double trackback_c (tracking_run *run_info)
     cal = run_info->cal;
     seq_par = run_info->seq_par;
     tpar = run_info->tpar;
-    vpar = run_info->vpar;
     cpar = run_info->cpar;
 
     fb = run_info->fb;
@@ -1207,9 +1203,9 @@ double trackback_c (tracking_run *run_info)
                         point_position(v2, fb->num_cams, cpar->mm, cal, X[3]);
 
                         /* volume check */
-                        if ( vpar->X_lay[0] < X[3][0] && X[3][0] < vpar->X_lay[1] &&
+                        if ( run_info->xmin < X[3][0] && X[3][0] < run_info->xmax &&
                              run_info->ymin < X[3][1] && X[3][1] < run_info->ymax &&
-                             vpar->Zmin_lay[0] < X[3][2] && X[3][2] < vpar->Zmax_lay[1])
+                             run_info->zmin < X[3][2] && X[3][2] < run_info->zmax)
                         {in_volume = 1;}
 
                         vec_subt(X[1], X[3], diff_pos);
diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 478ec81..5e4aadc 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -68,10 +68,11 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
                     (tpar->dvymin - tpar->dvymax), \
                     (tpar->dvzmin - tpar->dvzmax));
     /* volumedimension() extends the limits it is given. */
+    tr->xmin = vpar->X_lay[0];
+    tr->xmax = vpar->X_lay[1];
     tr->ymin = tr->ymax = 0;
-    volumedimension(&(vpar->X_lay[1]), &(vpar->X_lay[0]), &(tr->ymax),
-                    &(tr->ymin), &(vpar->Zmax_lay[1]), &(vpar->Zmin_lay[0]),
-                    vpar, cpar, cal);
+    volumedimension(&(tr->xmax), &(tr->xmin), &(tr->ymax), &(tr->ymin), 
+                    &(tr->zmax), &(tr->zmin), vpar, cpar, cal);
     
     tr->npart = 0;
     tr->nlinks = 0;
-- 
2.43.0


From 1a9be39bf66cc49a5898b89bd311fe9ad0e6d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 58/96] fix: new parameter objects hold defined values

---
 liboptv/src/parameters.c     | 12 ++++++------
 py_bind/optv/calibration.pyx |  4 ++--
 py_bind/optv/parameters.pyx  | 16 +++++++++++-----
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 817e4b3..2b7d287 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -93,12 +93,12 @@ sequence_par * new_sequence_par(int num_cams) {
     int cam;
     sequence_par *ret;
 
-    ret = (sequence_par *) malloc(sizeof(sequence_par));
+    ret = (sequence_par *) calloc(1, sizeof(sequence_par));
     ret->img_base_name = (char **) calloc(num_cams, sizeof(char *));
 
     ret->num_cams = num_cams;
     for (cam = 0; cam < num_cams; cam++) {
-        ret->img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
+        ret->img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
     }
     return ret;
 }
@@ -306,7 +306,7 @@ int compare_volume_par(volume_par *v1, volume_par *v2) {
 */
 control_par * new_control_par(int cams) {
     int cam;
-    control_par *ret = (control_par *) malloc(sizeof(control_par));
+    control_par *ret = (control_par *) calloc(1, sizeof(control_par));
 
     ret->num_cams = cams;
 
@@ -314,11 +314,11 @@ control_par * new_control_par(int cams) {
     ret->cal_img_base_name = (char **) calloc(ret->num_cams, sizeof(char *));
 
     for (cam = 0; cam < ret->num_cams; cam++) {
-        ret->img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
-        ret->cal_img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
+        ret->img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
+        ret->cal_img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
     }
 
-    ret->mm = (mm_np *) malloc(sizeof(mm_np));
+    ret->mm = (mm_np *) calloc(1, sizeof(mm_np));
 
     return ret;
 }
diff --git a/py_bind/optv/calibration.pyx b/py_bind/optv/calibration.pyx
index 613bc61..2b91249 100644
--- a/py_bind/optv/calibration.pyx
+++ b/py_bind/optv/calibration.pyx
@@ -4,7 +4,7 @@
 # [1] Dracos, Th., ed.; Three Dimensional Velocity and Vorticity Measuring
 #     and Image Analysis Techniques; 1996. Chapter 3.
 
-from libc.stdlib cimport malloc, free
+from libc.stdlib cimport calloc, free
 import numpy
 cimport numpy as cnp
 
@@ -34,7 +34,7 @@ cdef class Calibration:
         affine - 2 parameters: scaling and x-shearing.
         glass - vector from world origin to glass, normal to glass.
         """
-        self._calibration = <calibration *> malloc(sizeof(calibration))
+        self._calibration = <calibration *> calloc(1, sizeof(calibration))
         self._calibration.mmlut.data = NULL
         
         if pos is None:
diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index a5c703c..3217edf 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -1,5 +1,5 @@
 # Implementation of Python binding to parameters.h
-from libc.stdlib cimport malloc, free
+from libc.stdlib cimport malloc, calloc, free
 from libc.string cimport strncpy
 
 import numpy
@@ -75,7 +75,13 @@ cdef class MultimediaParams:
         n3 - index of refraction of final medium (e.g. water, 1.33).
         d - thickness of all but first and last layers, [mm].
         """
-        self._mm_np = < mm_np *> malloc(sizeof(mm_np))
+        self._mm_np = < mm_np *> calloc(1, sizeof(mm_np))
+        # One layer of everything being air, unless told otherwise.
+        self._mm_np[0].nlay = 1
+        self._mm_np[0].n1 = 1
+        self._mm_np[0].n3 = 1
+        for i in range(3):
+            self._mm_np[0].n2[i] = 1
         
         if kwargs.has_key('n1') and kwargs['n1'] is not None:
             self.set_n1(kwargs['n1'])
@@ -180,7 +186,7 @@ cdef class TrackingParams:
             positions that have enough targets but no matching correspondence
             result (boolean int).
         """
-        self._track_par = < track_par *> malloc(sizeof(track_par))
+        self._track_par = < track_par *> calloc(1, sizeof(track_par))
         
         if 'accel_lim' in kwds:
             self.set_dacc(kwds['accel_lim'])
@@ -435,7 +441,7 @@ cdef class VolumeParams:
             calculated from match of the different target measures to the 
             reference values in this object.
         """
-        self._volume_par = < volume_par *> malloc(sizeof(volume_par))
+        self._volume_par = < volume_par *> calloc(1, sizeof(volume_par))
         
         if 'x_span' in kwargs:
             self.set_X_lay(kwargs['x_span'])
@@ -756,7 +762,7 @@ cdef class TargetParams:
         if gvthresh is None:
             gvthresh = [0] * 4
         
-        self._targ_par = <target_par *> malloc(sizeof(target_par))
+        self._targ_par = <target_par *> calloc(1, sizeof(target_par))
         
         self.set_max_discontinuity(discont)
         self.set_grey_thresholds(gvthresh)
-- 
2.43.0


From d53cc9840a977368798171c98d65144b52d2e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 59/96] fix: comparing a parameter object to None or to another
 type crashed

---
 py_bind/optv/parameters.pyx | 40 +++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 3217edf..589673b 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -139,13 +139,15 @@ cdef class MultimediaParams:
     def set_n3(self, n3):
         self._mm_np[0].n3 = n3
 
-    def __richcmp__(MultimediaParams self, MultimediaParams other, operator):
-        c_compare_result = c_compare_mm_np(self._mm_np, other._mm_np)
+    def __richcmp__(MultimediaParams self, other, operator):
+        if not isinstance(other, MultimediaParams):
+            return NotImplemented
+        c_compare_result = c_compare_mm_np(self._mm_np, (<MultimediaParams>other)._mm_np)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
                 return (c_compare_result == 0)
-        else: raise TypeError("Unhandled comparison operator " + operator)
+        return NotImplemented
         
     def __str__(self):
         n2_str = "{"
@@ -233,13 +235,15 @@ cdef class TrackingParams:
     
     # Checks for equality between this and other trackParams objects
     # Gives the ability to use "==" and "!=" operators on two trackParams objects
-    def __richcmp__(TrackingParams self, TrackingParams other, operator):
-        c_compare_result = c_compare_track_par(self._track_par, other._track_par)
+    def __richcmp__(TrackingParams self, other, operator):
+        if not isinstance(other, TrackingParams):
+            return NotImplemented
+        c_compare_result = c_compare_track_par(self._track_par, (<TrackingParams>other)._track_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
                 return (c_compare_result == 0)
-        else: raise TypeError("Unhandled comparison operator " + operator)
+        return NotImplemented
              
     # Getters and setters    
     def get_dacc(self):
@@ -409,13 +413,15 @@ cdef class SequenceParams:
     
     # Checks for equality between this and other SequenceParams objects
     # Gives the ability to use "==" and "!=" operators on two SequenceParams objects
-    def __richcmp__(SequenceParams self, SequenceParams other, operator):
-        c_compare_result = c_compare_sequence_par(self._sequence_par, other._sequence_par)
+    def __richcmp__(SequenceParams self, other, operator):
+        if not isinstance(other, SequenceParams):
+            return NotImplemented
+        c_compare_result = c_compare_sequence_par(self._sequence_par, (<SequenceParams>other)._sequence_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
                 return (c_compare_result == 0)
-        else: raise TypeError("Unhandled comparison operator " + operator)
+        return NotImplemented
         
     def __dealloc__(self):
         c_free_sequence_par(self._sequence_par)
@@ -553,13 +559,15 @@ cdef class VolumeParams:
     
     # Checks for equality between self and other VolumeParams objects
     # Gives the ability to use "==" and "!=" operators on two VolumeParams objects
-    def __richcmp__(VolumeParams self, VolumeParams other, operator):
-        c_compare_result = c_compare_volume_par(self._volume_par, other._volume_par)
+    def __richcmp__(VolumeParams self, other, operator):
+        if not isinstance(other, VolumeParams):
+            return NotImplemented
+        c_compare_result = c_compare_volume_par(self._volume_par, (<VolumeParams>other)._volume_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
                 return (c_compare_result == 0)
-        else: raise TypeError("Unhandled comparison operator " + operator)
+        return NotImplemented
         
     def __dealloc__(self):
         free(self._volume_par)
@@ -722,13 +730,15 @@ cdef class ControlParams:
     
     # Checks for equality between this and other ControlParams objects
     # Gives the ability to use "==" and "!=" operators on two ControlParams objects
-    def __richcmp__(ControlParams self, ControlParams other, operator):
-        c_compare_result = c_compare_control_par(self._control_par, other._control_par)
+    def __richcmp__(ControlParams self, other, operator):
+        if not isinstance(other, ControlParams):
+            return NotImplemented
+        c_compare_result = c_compare_control_par(self._control_par, (<ControlParams>other)._control_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
                 return (c_compare_result == 0)
-        else: raise TypeError("Unhandled comparison operator " + operator)
+        return NotImplemented
         
     def __dealloc__(self):
         # set the mm pointer to NULL in order to prevent c_free_control_par 
-- 
2.43.0


From df9f6bb3d9fc8e72424e4f99ce9aa5c4b0ffdd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 60/96] fix: objects whose construction failed crashed when
 deleted

---
 py_bind/optv/parameters.pyx | 5 ++++-
 py_bind/optv/tracker.pyx    | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 589673b..69972a8 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -424,7 +424,8 @@ cdef class SequenceParams:
         return NotImplemented
         
     def __dealloc__(self):
-        c_free_sequence_par(self._sequence_par)
+        if self._sequence_par != NULL: # construction may have failed
+            c_free_sequence_par(self._sequence_par)
         
 cdef class VolumeParams:
     """
@@ -745,6 +746,8 @@ cdef class ControlParams:
         # function from freeing it. MultimediaParams object will free this
         # memory in its python destructor when there will be no references to it.
         
+        if self._control_par == NULL: # construction failed
+            return
         self._control_par[0].mm = NULL
         c_free_control_par(self._control_par)
 
diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index cbf47d3..973751d 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -94,6 +94,8 @@ cdef class Tracker:
     
     def __dealloc__(self):
         # Don't call tr_free, just free the memory that belongs to us.
+        if self.run_info == NULL: # construction failed
+            return
         fb_free(self.run_info.fb)
         free(self.run_info.cal) # allocated by cal_list2arr, leafs belong to
                                 # owner of the Tracker.
-- 
2.43.0


From c2005d8479bc95e39a6a58c7935eaa352361fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 61/96] fix: arrays longer than their place in a parameter
 object overwrote memory

---
 py_bind/optv/parameters.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 69972a8..7ec40e4 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -107,6 +107,8 @@ cdef class MultimediaParams:
     def set_layers(self, refr_index, thickness):
         if len(refr_index) != len(thickness):
             raise ValueError("Lengths of refractive index and thickness must be equal.")
+        elif len(refr_index) > 3:
+            raise ValueError("Can't store more than 3 layers.")
         else:
             for i in range(len(refr_index)):
                 self._mm_np[0].n2[i] = refr_index[i]
@@ -477,6 +479,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].X_lay, copy)
     
     def set_X_lay(self, X_lay):
+        if len(X_lay) != 2:
+            raise ValueError("Expected 2 values of X.")
         for i in range(len(X_lay)):
             self._volume_par[0].X_lay[i] = X_lay[i]
             
@@ -485,6 +489,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmin_lay, copy)
 
     def set_Zmin_lay(self, Zmin_lay):
+        if len(Zmin_lay) != 2:
+            raise ValueError("Expected 2 values of Z.")
         for i in range(len(Zmin_lay)):
             self._volume_par[0].Zmin_lay[i] = Zmin_lay[i]
             
@@ -493,6 +499,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmax_lay, copy)
     
     def set_Zmax_lay(self, Zmax_lay):
+        if len(Zmax_lay) != 2:
+            raise ValueError("Expected 2 values of Z.")
         for i in range(len(Zmax_lay)):
             self._volume_par[0].Zmax_lay[i] = Zmax_lay[i]
             
@@ -801,6 +809,8 @@ cdef class TargetParams:
         copy - if True, return a copy of the underlying array. This way the 
             original is safe.
         """
+        if num_cams < 0 or num_cams > 4:
+            raise ValueError("Only 4 grey-level thresholds are stored.")
         return wrap_1d_c_arr_as_ndarray(self, num_cams, numpy.NPY_INT, 
             self._targ_par.gvthres, (1 if copy else 0))
         
-- 
2.43.0


From 277d164bae93fa71e73f8a94a01f4b6e29eaff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 62/96] fix: names of cameras that do not exist, are too long
 or not ASCII damaged memory

---
 py_bind/optv/parameters.pxd |  4 +++
 py_bind/optv/parameters.pyx | 49 +++++++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/py_bind/optv/parameters.pxd b/py_bind/optv/parameters.pxd
index b9149b5..043043a 100644
--- a/py_bind/optv/parameters.pxd
+++ b/py_bind/optv/parameters.pxd
@@ -12,7 +12,11 @@ cdef extern from "optv/parameters.h":
         double dvymax, dvymin, dvzmax, dvzmin
         int dsumg, dn, dnx, dny, add
     
+    enum:
+        SEQ_FNAME_MAX_LEN
+    
     ctypedef struct sequence_par:
+        int num_cams
         char ** img_base_name
         int first, last
         
diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 7ec40e4..122781a 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -59,6 +59,25 @@ cdef numpy.ndarray wrap_1d_c_arr_as_ndarray(object base_obj,
     
     return ndarr
     
+cdef get_name(char **names, int num_names, int cam):
+    """
+    Returns the name belonging to camera ``cam`` in a list of ``num_names``.
+    """
+    if cam < 0 or cam >= num_names:
+        raise IndexError("No camera number %d" % cam)
+    return <bytes>names[cam]
+
+cdef set_name(char **names, int num_names, int cam, new_name):
+    """
+    Stores the name belonging to camera ``cam`` in a list of ``num_names``.
+    """
+    py_byte_string = new_name.encode('UTF-8')
+    if cam < 0 or cam >= num_names:
+        raise IndexError("No camera number %d" % cam)
+    if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
+        raise ValueError("Name is too long: " + new_name)
+    strncpy(names[cam], py_byte_string, SEQ_FNAME_MAX_LEN)
+
 cdef class MultimediaParams:
     """
     Relates to photographing through several transparent media (air, tank 
@@ -403,15 +422,13 @@ cdef class SequenceParams:
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
-        cdef char * c_str = self._sequence_par[0].img_base_name[cam]
-        cdef py_str = c_str
-        return py_str
+        return get_name(self._sequence_par[0].img_base_name,
+            self._sequence_par[0].num_cams, cam)
     
     # Set image base name for camera #cam
     def set_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        set_name(self._sequence_par[0].img_base_name,
+            self._sequence_par[0].num_cams, cam, new_img_name)
     
     # Checks for equality between this and other SequenceParams objects
     # Gives the ability to use "==" and "!=" operators on two SequenceParams objects
@@ -712,27 +729,23 @@ cdef class ControlParams:
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
-        cdef char * c_str = self._control_par[0].img_base_name[cam]
-        cdef py_str = c_str
-        return py_str
+        return get_name(self._control_par[0].img_base_name,
+            self._control_par[0].num_cams, cam)
     
     # Set image base name for camera #cam
     def set_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        set_name(self._control_par[0].img_base_name,
+            self._control_par[0].num_cams, cam, new_img_name)
     
     # Get calibration image base name of camera #cam
     def get_cal_img_base_name(self, cam):
-        cdef char * c_str = self._control_par[0].cal_img_base_name[cam]
-        cdef py_str = c_str
-        return py_str
+        return get_name(self._control_par[0].cal_img_base_name,
+            self._control_par[0].num_cams, cam)
     
     # Set calibration image base name for camera #cam
     def set_cal_img_base_name(self, cam, str new_img_name):
-        py_byte_string = new_img_name.encode('UTF-8')
-        cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(new_img_name) + 1)
+        set_name(self._control_par[0].cal_img_base_name,
+            self._control_par[0].num_cams, cam, new_img_name)
     
     def get_multimedia_params(self):
         return self._multimedia_params
-- 
2.43.0


From b7294576ed57f96f14e72f92bd78e0dfb416cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 63/96] fix: a failed read left an unusable object, a
 successful one left others pointing at freed memory

---
 py_bind/optv/calibration.pyx |  8 +++-
 py_bind/optv/parameters.pyx  | 73 +++++++++++++++++++++++++-----------
 2 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/py_bind/optv/calibration.pyx b/py_bind/optv/calibration.pyx
index 2b91249..c011597 100644
--- a/py_bind/optv/calibration.pyx
+++ b/py_bind/optv/calibration.pyx
@@ -71,10 +71,14 @@ cdef class Calibration:
         fallback_file - optional path to file used in case ``add_file`` fails
             to open.
         """
-        free(self._calibration);
-        self._calibration = read_calibration(
+        cdef calibration *cal = read_calibration(
             (<char *>ori_file if ori_file != None else < char *> 0),
             (<char *>add_file if add_file != None else < char *> 0), NULL)
+        if cal == NULL:
+            raise IOError("Failed to read calibration.")
+        # The place of the C struct is kept, others may be pointing there.
+        self._calibration[0] = cal[0]
+        free(cal)
         
     def write(self, filename, add_file):
         """
diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 122781a..8eea8f5 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -251,8 +251,12 @@ cdef class TrackingParams:
         Reads tracking parameters from an old-style .par file having the
         objects' arguments ordered one per line.
         """
-        free(self._track_par)
-        self._track_par = c_read_track_par(file_name)
+        cdef track_par *par = c_read_track_par(file_name)
+        if par == NULL:
+            raise IOError("Problem reading tracking parameters.")
+        # The place of the C struct is kept, others may be pointing there.
+        self._track_par[0] = par[0]
+        free(par)
     
     # Checks for equality between this and other trackParams objects
     # Gives the ability to use "==" and "!=" operators on two trackParams objects
@@ -413,12 +417,28 @@ cdef class SequenceParams:
         filename - path to the text file containing the parameters.
         num_cams - expected number of cameras
         """
-        # free the memory of previous C struct and its inner strings before 
-        # creating a new one.
-        c_free_sequence_par(self._sequence_par)
+        cdef:
+            sequence_par *par
+            sequence_par old
         
         # read parameters from file to a new sequence_par C struct
-        self._sequence_par = c_read_sequence_par(filename, num_cams)
+        par = c_read_sequence_par(filename, num_cams)
+        if par == NULL:
+            raise IOError("Problem reading sequence parameters.")
+        
+        # The place of the C struct is kept, others may be pointing there. That
+        # goes for the names too, as long as there is a place for each.
+        if par.num_cams == self._sequence_par.num_cams:
+            for cam in range(par.num_cams):
+                strncpy(self._sequence_par.img_base_name[cam], 
+                    par.img_base_name[cam], SEQ_FNAME_MAX_LEN)
+            self._sequence_par.first = par.first
+            self._sequence_par.last = par.last
+        else:
+            old = self._sequence_par[0]
+            self._sequence_par[0] = par[0]
+            par[0] = old
+        c_free_sequence_par(par)
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
@@ -578,10 +598,13 @@ cdef class VolumeParams:
         Argument:
         filename - path to the text file containing the parameters.
         """
-        # free the memory of previous C struct 
-        free(self._volume_par)
         # read parameters from file to a new volume_par C struct
-        self._volume_par = c_read_volume_par(filename)
+        cdef volume_par *par = c_read_volume_par(filename)
+        if par == NULL:
+            raise IOError("Problem reading volume parameters.")
+        # The place of the C struct is kept, others may be pointing there.
+        self._volume_par[0] = par[0]
+        free(par)
     
     # Checks for equality between self and other VolumeParams objects
     # Gives the ability to use "==" and "!=" operators on two VolumeParams objects
@@ -717,15 +740,22 @@ cdef class ControlParams:
     # Arguments:
     # filename - path to text file containing the parameters.
     def read_control_par(self, filename):
-        # free the memory of previous C struct and its inner strings before creating a new one
-        c_free_control_par(self._control_par)
-        # memory for _multimedia_params' mm_np struct was just freed,
-        # so set _multimedia params' mm_np pointer to NULL to avoid double free corruption 
-        self._multimedia_params._mm_np = NULL
+        cdef:
+            control_par *par
+            control_par old = self._control_par[0]
         # read parameters from file to a new control_par C struct
-        self._control_par = c_read_control_par(filename)
-        # set _multimedia_params's _mm_np to the new mm_np that just allocated and read into _control_par
-        self._multimedia_params.set_mm_np(self._control_par[0].mm)
+        par = c_read_control_par(filename)
+        if par == NULL:
+            raise IOError("Problem reading control parameters.")
+        # The place of the C struct and of the mm_np struct it shares with
+        # _multimedia_params is kept, others may be pointing there.
+        old.mm[0] = par.mm[0]
+        self._control_par[0] = par[0]
+        self._control_par[0].mm = old.mm
+        # free the inner strings of the previous contents
+        old.mm = par.mm
+        par[0] = old
+        c_free_control_par(par)
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
@@ -913,11 +943,12 @@ cdef class TargetParams:
         
         Fills up the fields of the object from the file and returns.
         """
-        free(self._targ_par)
-        self._targ_par = read_target_par(inp_filename)
-        
-        if self._targ_par == NULL:
+        cdef target_par *par = read_target_par(inp_filename)
+        if par == NULL:
             raise IOError("Problem reading target recognition parameters.")
+        # The place of the C struct is kept, others may be pointing there.
+        self._targ_par[0] = par[0]
+        free(par)
     
     def __dealloc__(self):
         free(self._targ_par)
-- 
2.43.0


From 50e2ea7c6f7ecec695884a675d6513a04e0588d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 64/96] fix: the fallback file given for distortion parameters
 was ignored

---
 py_bind/optv/calibration.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/calibration.pyx b/py_bind/optv/calibration.pyx
index c011597..dd0eb4a 100644
--- a/py_bind/optv/calibration.pyx
+++ b/py_bind/optv/calibration.pyx
@@ -73,7 +73,8 @@ cdef class Calibration:
         """
         cdef calibration *cal = read_calibration(
             (<char *>ori_file if ori_file != None else < char *> 0),
-            (<char *>add_file if add_file != None else < char *> 0), NULL)
+            (<char *>add_file if add_file != None else < char *> 0),
+            (<char *>fallback_file if fallback_file != None else < char *> 0))
         if cal == NULL:
             raise IOError("Failed to read calibration.")
         # The place of the C struct is kept, others may be pointing there.
-- 
2.43.0


From f83b03378969354d93c1466f666d42f312057c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 65/96] fix: a target outliving its array or created empty
 referred to memory it did not own

---
 py_bind/optv/tracking_framebuf.pxd |  3 ++-
 py_bind/optv/tracking_framebuf.pyx | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/py_bind/optv/tracking_framebuf.pxd b/py_bind/optv/tracking_framebuf.pxd
index 1a29a35..928195b 100644
--- a/py_bind/optv/tracking_framebuf.pxd
+++ b/py_bind/optv/tracking_framebuf.pxd
@@ -38,7 +38,8 @@ cdef extern from "optv/tracking_frame_buf.h":
 cdef class Target:
     cdef target* _targ
     cdef int _owns_data
-    cdef void set(Target self, target* targ)
+    cdef object _owner # of the data, if that is not this object.
+    cdef void set(Target self, target* targ, object owner)
 
 cdef class TargetArray:
     cdef target* _tarr
diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 4e38f04..6ecfe8b 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -1,6 +1,6 @@
 # Implementation of the trackin_frame_buf minimal interface.
 
-from libc.stdlib cimport malloc, free
+from libc.stdlib cimport malloc, calloc, free
 cimport numpy as np
 import numpy as np
 
@@ -40,13 +40,13 @@ cdef class Target:
         n, nx, ny - number of pixels in target (total, width, height)
         tnr - used by the tracking code.
         """
+        # No matter how many times this is called.
+        if self._targ == NULL:
+            self._targ = <target *>calloc(1, sizeof(target))
+            self._owns_data = 1
         if len(kwd.keys()) == 0:
-            self._owns_data = 0
             return
         
-        self._owns_data = 1
-        self._targ = <target *>malloc(sizeof(target))
-        
         self.set_pnr(kwd['pnr'])
         self.set_tnr(kwd['tnr'])
         self.set_pos([kwd['x'], kwd['y']])
@@ -57,9 +57,12 @@ cdef class Target:
         if self._owns_data == 1:
             free(self._targ)
     
-    cdef void set(Target self, target* targ):
+    cdef void set(Target self, target* targ, object owner):
+        if self._owns_data == 1:
+            free(self._targ)
         self._owns_data = 0
         self._targ = targ
+        self._owner = owner
     
     def tnr(self):
         return self._targ[0].tnr
@@ -136,7 +139,9 @@ cdef class TargetArray:
             tarr = NULL
             size = 0
         else:
-            tarr = <target *>malloc(size * sizeof(target))
+            tarr = <target *>calloc(size, sizeof(target))
+            if tarr == NULL:
+                raise MemoryError("could not allocate target array.")
         self.set(tarr, size, 1)
 
     # Assumed to not own the data.
@@ -186,7 +191,7 @@ cdef class TargetArray:
             raise IndexError
         
         ret = Target()
-        ret.set(self._tarr + ix)
+        ret.set(self._tarr + ix, self)
         return ret
     
     def __len__(self):
-- 
2.43.0


From 7b99255e1852d2259ee44edd0decd4d99be222ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 66/96] fix: failure to read or write targets was not reported

---
 py_bind/optv/tracking_framebuf.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 6ecfe8b..88cf72b 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -171,7 +171,8 @@ cdef class TargetArray:
         file_base - path to the file, base part.
         frame_num - frame number part of the file name.
         """
-        write_targets(self._tarr, self._num_targets, file_base, frame_num)
+        if not write_targets(self._tarr, self._num_targets, file_base, frame_num):
+            raise IOError("Failed to write targets.")
 
     def __getitem__(self, int ix):
         """
@@ -225,6 +226,9 @@ def read_targets(basename, int frame_num):
     c_string = py_byte_string
     
     num_targets = c_read_targets(tarr, MAX_TARGETS, c_string, frame_num)
+    if num_targets < 0:
+        free(tarr)
+        raise IOError("Failed to read targets.")
     ret.set(tarr, num_targets, 1)
     
     return ret
-- 
2.43.0


From 51d527be4b763790ad2d8ed9ef06d29d32a95766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 67/96] fix: frames not read, cameras and targets that do not
 exist were accessed

---
 py_bind/optv/tracking_framebuf.pyx | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 88cf72b..56c65eb 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -284,11 +284,14 @@ cdef class Frame:
         prio_file_base - optional, for the linkage file with added 'prio'
             column.
         """
-        cdef char **targ_fb = <char **> malloc(self._num_cams*sizeof(char *))
+        cdef char **targ_fb
         cdef char* pb
         
-        for cam in range(self._num_cams):
-            targ_fb[cam] = target_file_base[cam]
+        if len(target_file_base) < self._num_cams:
+            raise ValueError("Expected a target file name for each camera.")
+        for name in target_file_base:
+            if not isinstance(name, bytes):
+                raise TypeError("Expected target file names as bytes.")
         
         if prio_file_base is None:
             pb = NULL
@@ -302,9 +305,14 @@ cdef class Frame:
             free_frame(self._frm)
         
         frame_init(self._frm, self._num_cams, MAX_TARGETS)
+        targ_fb = <char **> malloc(self._num_cams*sizeof(char *))
+        for cam in range(self._num_cams):
+            targ_fb[cam] = target_file_base[cam]
+        
         success = read_frame(self._frm, corres_file_base, linkage_file_base, 
             pb, targ_fb, frame_num)
         
+        free(targ_fb)
         return success
      
     def positions(Frame self):
@@ -316,6 +324,9 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos3d
             double *vec
         
+        if self._frm == NULL:
+            raise ValueError("No frame has been read.")
+        
         pos3d = np.empty((self._frm.num_parts, 3))
         for pt in range(self._frm.num_parts):
             vec = <double *>np.PyArray_GETPTR2(pos3d, pt, 0)
@@ -341,11 +352,16 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos2d
             int tix
         
+        if self._frm == NULL:
+            raise ValueError("No frame has been read.")
+        if cam < 0 or cam >= self._frm.num_cams or cam >= 4:
+            raise IndexError("No camera number %d" % cam)
+        
         pos2d = np.empty((self._frm.num_parts, 2))
         for pt in range(self._frm.num_parts):
             tix = self._frm.correspond[pt].p[cam]
             
-            if tix == CORRES_NONE:
+            if tix < 0 or tix >= self._frm.num_targets[cam]: # CORRES_NONE etc.
                 pos2d[pt] = np.nan
             else:
                 pos2d[pt,0] = self._frm.targets[cam][tix].x
-- 
2.43.0


From 8ac35b6624a6f7b76b947b369e4283659e57088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 68/96] fix: image preprocessing ignored its output array and
 filter file, took images of any size and layout

---
 py_bind/optv/image_processing.pyx | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/py_bind/optv/image_processing.pyx b/py_bind/optv/image_processing.pyx
index 6add162..4ee4bb8 100644
--- a/py_bind/optv/image_processing.pyx
+++ b/py_bind/optv/image_processing.pyx
@@ -32,31 +32,44 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
     numpy.ndarray representing the result image.
     '''
 
+    cdef np.ndarray[ndim=2, dtype=np.uint8_t] result
+    
     # check arrays dimensions
     if input_img.ndim != 2:
         raise TypeError("Input array must be two-dimensional")
     if (output_img is not None) and (input_img.shape[0] != output_img.shape[0] or
                          input_img.shape[1] != output_img.shape[1]):
         raise ValueError("Different shapes of input and output images.")
-    else:
-        output_img = np.empty_like(input_img)
+    
+    if input_img.shape[0] != control._control_par.imy or \
+        input_img.shape[1] != control._control_par.imx:
+        raise ValueError("Image size differs from the control parameters.")
+    
+    if output_img is None:
+        output_img = np.empty((input_img.shape[0], input_img.shape[1]), 
+            dtype=np.uint8)
     
     if filter_hp == 2:
-        if filter_file == None or not isinstance(filter_file, string_types):
+        if filter_file == None or not isinstance(filter_file, string_types + (bytes,)):
             raise ValueError("Expecting a filter file name, received None or non-string.")
+        if not isinstance(filter_file, bytes):
+            filter_file = filter_file.encode('UTF-8')
     else:
         filter_file=b""
         
-    for arr in (input_img, output_img):
-        if not arr.flags['C_CONTIGUOUS']:
-            np.ascontiguousarray(arr)
+    # The C function works on contiguous memory.
+    input_img = np.ascontiguousarray(input_img)
+    result = np.ascontiguousarray(output_img)
     
     if (1 != prepare_image( < unsigned char *> input_img.data,
-                            < unsigned char *> output_img.data,
+                            < unsigned char *> result.data,
                             lowpass_dim,
                             filter_hp,
                             filter_file,
                             control._control_par)):
         raise Exception("prepare_image C function failed: "
                       + "failure of memory allocation or filter file reading")
+    if result is not output_img:
+        output_img[...] = result
+    
     return output_img              
-- 
2.43.0


From efa39da1e0ca5ee33c21d463a284b14b43ec4c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 69/96] fix: target recognition overran its target buffer and
 images it did not fit

---
 py_bind/optv/segmentation.pyx | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index 7ebc528..6da9c24 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -31,9 +31,6 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     """
     Detects targets (contiguous bright blobs) in an image.
     
-    Limited to ~20,000 targets per image for now. This limitation comes from
-    the structure of underlying C code.
-    
     Arguments:
     np.ndarray img - a numpy array holding the 8-bit gray image.
     TargetParams tpar - target recognition parameters s.a. size bounds etc.
@@ -51,7 +48,7 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     cdef:
         TargetArray t = TargetArray()
         target *ret
-        target *targs = <target *> calloc(1024*20, sizeof(target))
+        target *targs
         int num_targs
         int xmin, xmax, ymin, ymax
     
@@ -68,11 +65,26 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     else:
         ymin, ymax = subrange_y
     
-    if img.shape[0] != ymax or img.shape[1] != xmax:
+    if img.shape[0] != cparam._control_par[0].imy or \
+        img.shape[1] != cparam._control_par[0].imx:
         raise ValueError("dimensions are not correct")
+    
+    if xmin < 0 or xmax > img.shape[1] or ymin < 0 or ymax > img.shape[0]:
+        raise ValueError("subrange exceeds the image")
+    
+    if cam < 0 or cam >= 4:
+        raise ValueError("no grey threshold for camera %d" % cam)
 
     assert img.dtype == DTYPE
 
+    # Each target takes at least a pixel.
+    targs = <target *> calloc(
+        max(xmax - xmin, 1) * <size_t>max(ymax - ymin, 1), sizeof(target))
+    if targs == NULL:
+        raise MemoryError("Failed to allocate target array.")
+    
+    img = np.ascontiguousarray(img)
+    
     # The core liboptv call:
     num_targs = targ_rec(<unsigned char *>img.data, tpar._targ_par, 
         xmin, xmax, ymin, ymax, cparam._control_par, cam, targs)
-- 
2.43.0


From f53eef3096e25f373b702de4b4f5f429b880be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 70/96] fix: correspondences of less than four cameras overran
 the match counts and returned the wrong total

---
 liboptv/src/correspondences.c    | 3 ++-
 py_bind/optv/correspondences.pyx | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index ccac571..22e4317 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -601,7 +601,8 @@ int take_best_candidates(n_tupel *src, n_tupel *dst,
         parameters.
     
     Output Arguments:
-    int match_counts[] - output buffer, as long as the number of cameras.
+    int match_counts[] - output buffer, 4 long: quadruplets, triplets, pairs and
+        their total.
         stores the number of matches for each clique size, in descending
         clique size order. The last element stores the total.
     
diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 1b14fc3..47d9299 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -164,7 +164,8 @@ def correspondences(list img_pts, list flat_coords, list cals,
         np.ndarray[ndim=3, dtype=np.float64_t] clique_targs
         
         # Return buffers:
-        int *match_counts = <int *> malloc(num_cams * sizeof(int))
+        # (always filled for quadruplets, triplets, pairs and their total)
+        int *match_counts = <int *> malloc(4 * sizeof(int))
         n_tupel *corresp_buf
     
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -214,7 +215,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
         sorted_corresp[clique_type] = clique_ids
     
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
     free(frm.targets)
     free(frm.num_targets)
     free(calib)
-- 
2.43.0


From a18a0e43ccfa00175465403cf376791d05477097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 71/96] fix: single camera correspondences returned x for y

---
 py_bind/optv/correspondences.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 47d9299..18da92e 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -251,7 +251,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
     """
     cdef: 
         int pt, num_points
-        coord_2d *corrected = <coord_2d *> malloc(sizeof(coord_2d *))
+        coord_2d *corrected
     
     corrected = (<MatchedCoords>flat_coords[0]).buf
 
@@ -277,7 +277,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
         if p1 > -1:
             targ = img_pts[0][p1]
             clique_targs[0, pt, 0] = (<Target> targ)._targ.x
-            clique_targs[0, pt, 1] = (<Target> targ)._targ.x
+            clique_targs[0, pt, 1] = (<Target> targ)._targ.y
             # we also update the tnr, see docstring of correspondences
             (<Target> targ)._targ.tnr = pt
 
-- 
2.43.0


From 915f895fe44436380e77a94e22d238c16b564af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 72/96] fix: correspondences of lists that do not belong
 together accessed memory out of range

---
 py_bind/optv/correspondences.pyx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 18da92e..85f3973 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -147,7 +147,22 @@ def correspondences(list img_pts, list flat_coords, list cals,
     """
     cdef: 
         int num_cams = len(cals)
-
+        int cam, pt
+    
+    if num_cams < 1 or num_cams != cparam._control_par.num_cams or \
+        num_cams != len(img_pts) or num_cams != len(flat_coords):
+        raise ValueError("Numbers of cameras differ.")
+    if num_cams > 4:
+        raise ValueError("Only up to 4 cameras are supported.")
+    
+    for cam in range(num_cams):
+        if (<MatchedCoords>flat_coords[cam])._num_pts != len(img_pts[cam]):
+            raise ValueError("Numbers of targets and flat coordinates differ.")
+        for pt in range((<MatchedCoords>flat_coords[cam])._num_pts):
+            pnr = (<MatchedCoords>flat_coords[cam]).buf[pt].pnr
+            if pnr >= len(img_pts[cam]) or (pnr < 0 and num_cams > 1):
+                raise ValueError("Flat coordinates belong to other targets.")
+    
     # Special case of a single camera, follow the single_cam_correspondence docstring    
     if num_cams == 1:
         sorted_pos, sorted_corresp, num_targs = single_cam_correspondence(img_pts, flat_coords, cals)
-- 
2.43.0


From 4edc3052ab5f8ef307cdcb58ab1e8e56c1f201db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 73/96] fix: targets from more cameras than calibrations, or
 with other than 2 coordinates, were read out of bounds

---
 py_bind/optv/orientation.pyx | 46 +++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index b3ef927..554f62d 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -65,12 +65,27 @@ cdef calibration** cal_list2arr(list cals):
         calibration ** calib
         int num_cals = len(cals)
 
+    for cal in cals:
+        if not isinstance(cal, Calibration):
+            raise TypeError("Expected a list of Calibration objects.")
+    
     calib = <calibration **> calloc(num_cals, sizeof(calibration *))
-    for cal in range(num_cals):
-        calib[cal] = (<Calibration> cals[cal])._calibration
+    for cam in range(num_cals):
+        calib[cam] = (<Calibration> cals[cam])._calibration
 
     return calib
 
+cdef check_targets(np.ndarray targets, cals):
+    """
+    Checks that there is a calibration for each camera of a 
+    (num_targets, num_cams, 2) array of targets, raises ValueError otherwise.
+    """
+    if targets.shape[2] != 2:
+        raise ValueError("Targets must be a (num_targets, num_cams, 2) array.")
+    if targets.shape[1] > len(cals):
+        raise ValueError("Targets are from %d cameras, but there are only %d "
+            "calibrations." % (targets.shape[1], len(cals)))
+
 def point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                     ControlParams cparam, cals, VolumeParams vparam):
     """
@@ -120,16 +135,22 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
+    # Only the first camera is used.
+    check_targets(targets[:,:1], cals)
+    
     # So we can address targets.data directly instead of get_ptr stuff:
     targets = np.ascontiguousarray(targets)
     
     num_targets = targets.shape[0]
     num_cams = targets.shape[1]
+    if num_cams < 1:
+        raise ValueError("No camera in targets.")
     res = np.empty((num_targets, 3))
     rcm = np.zeros(num_targets)
+    calib = cal_list2arr(cals)
 
     for pt in range(num_targets):
         targ = targets[pt]
@@ -137,6 +158,7 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                             calib[0], cparam._control_par.mm, vparam._volume_par, 
                             <vec3d> np.PyArray_GETPTR2(res, pt, 0));
 
+    free(calib)
     return res, rcm
           
 
@@ -162,9 +184,11 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
+    check_targets(targets, cals)
+    
     # So we can address targets.data directly instead of get_ptr stuff:
     targets = np.ascontiguousarray(targets)
 
@@ -172,6 +196,7 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
     num_cams = targets.shape[1]
     res = np.empty((num_targets, 3))
     rcm = np.empty(num_targets)
+    calib = cal_list2arr(cals)
 
     for pt in range(num_targets):
         targ = targets[pt]
@@ -179,6 +204,7 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                                  cparam._control_par.mm, calib,
                                  <vec3d> np.PyArray_GETPTR2(res, pt, 0))
 
+    free(calib)
     return res, rcm
 
 def external_calibration(Calibration cal, 
@@ -326,16 +352,24 @@ def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets,
     cdef:
         np.ndarray[ndim=2, dtype=pos_t] targ
         vec2d **ctargets
-        calibration **calib = cal_list2arr(cals)
+        calibration **calib
         int cam, num_cams
+        double res
+    
+    check_targets(targets, cals)
     
     num_cams = targets.shape[1]
     num_pts = targets.shape[0]
+    calib = cal_list2arr(cals)
     ctargets = <vec2d **>calloc(num_pts, sizeof(vec2d*))
     
     for pt in range(num_pts):
         targ = targets[pt]
         ctargets[pt] = <vec2d *>(targ.data)
     
-    return weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
+    res = weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
         cparam._control_par.mm, calib,  db_length, db_weight)
+    
+    free(ctargets)
+    free(calib)
+    return res
-- 
2.43.0


From 2b4ea34d90538847d228d2accd736e868468ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 74/96] fix: calibration functions read reference and image
 points of a wrong shape out of bounds

---
 py_bind/optv/orientation.pyx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index 554f62d..729f16e 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -10,6 +10,13 @@ from optv.parameters cimport ControlParams, VolumeParams
 from optv.epipolar cimport epi_mm_2D
 
 
+cdef check_ref_pts(np.ndarray ref_pts):
+    """
+    Checks that reference points have 3 coordinates.
+    """
+    if ref_pts.shape[1] != 3:
+        raise ValueError("Reference points must be an (n,3) array.")
+
 def match_detection_to_ref(Calibration cal,
                            np.ndarray[ndim=2, dtype=pos_t] ref_pts,
                            TargetArray img_pts,
@@ -47,6 +54,7 @@ def match_detection_to_ref(Calibration cal,
         target *sorted_targs
         TargetArray t = TargetArray()
 
+    check_ref_pts(ref_pts)
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *> ref_pts.data
 
@@ -231,6 +239,12 @@ def external_calibration(Calibration cal,
         target *targs
         vec3d *ref_coord
     
+    check_ref_pts(ref_pts)
+    if img_pts.shape[1] != 2:
+        raise ValueError("Image points must be an (n,2) array.")
+    if len(img_pts) < len(ref_pts):
+        raise ValueError("Must have an image point for each ref. point.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
     
@@ -294,6 +308,10 @@ def full_calibration(Calibration cal,
         orient_par *orip
         double *residuals
     
+    check_ref_pts(ref_pts)
+    if len(img_pts) < len(ref_pts):
+        raise ValueError("Must have a target for each ref. point.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
 
-- 
2.43.0


From 08db4294d037db1f86a8ac283bd5563ad2472e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 75/96] fix: full_calibration() gave residuals of other targets
 than it said, and read past their end

---
 py_bind/optv/orientation.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index 729f16e..c477c60 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -331,7 +331,7 @@ def full_calibration(Calibration cal,
     orip[0].sheflag = (1 if 'shear' in flags else 0)
     orip[0].interfflag = 0 # This also solves for the glass, I'm skipping it.
     
-    err_est = np.empty((NPAR + 1) * sizeof(double))
+    err_est = np.empty(NPAR + 1)
     residuals = orient(cal._calibration, cparam._control_par, len(ref_pts), 
         ref_coord, img_pts._tarr, orip, <double *>err_est.data)
     
@@ -341,12 +341,13 @@ def full_calibration(Calibration cal,
         free(residuals)
         raise ValueError("Orientation iteration failed, need better setup.")
     
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
+    # Residuals are only there for targets that match a reference point.
+    used = np.array([ix for ix in range(len(ref_pts)) 
+        if img_pts[ix].pnr() == ix], dtype=np.int_)
+    ret = np.empty((len(used), 2))
     
-    for ix in range(len(img_pts)):
+    for ix in range(len(used)):
         ret[ix] = (residuals[2*ix], residuals[2*ix + 1])
-        used[ix] = img_pts[ix].pnr()
     
     free(residuals)
     return ret, used, err_est
-- 
2.43.0


From ad0aab3e39e691de94e8e6415bdcde402f23b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 76/96] fix: the fraction of a dumbbell's length was ignored

---
 liboptv/include/orientation.h | 2 +-
 liboptv/src/orientation.c     | 4 ++--
 py_bind/optv/orientation.pxd  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/include/orientation.h b/liboptv/include/orientation.h
index 2b2535a..72a2438 100644
--- a/liboptv/include/orientation.h
+++ b/liboptv/include/orientation.h
@@ -41,7 +41,7 @@ double skew_midpoint(vec3d vert1, vec3d direct1, vec3d vert2, vec3d direct2,
 double point_position(vec2d targets[], int num_cams, mm_np *multimed_pars,
     Calibration* cals[], vec3d res);
 double weighted_dumbbell_precision(vec2d** targets, int num_targs, int num_cams,
-    mm_np *multimed_pars, Calibration* cals[], int db_length, double db_weight);
+    mm_np *multimed_pars, Calibration* cals[], double db_length, double db_weight);
 
 double* orient(Calibration* cal, control_par *cpar, int nfix, vec3d fix[], target pix[], 
             orient_par *flags, double sigmabeta[20]);
diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index ed5e72e..3a5af36 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -139,13 +139,13 @@ double point_position(vec2d targets[], int num_cams, mm_np *multimed_pars,
     mm_np *multimed_pars - multimedia parameters struct for ray tracing through
         several layers.
     Calibration* cals[] - each camera's calibration object.
-    int db_length - distance between two consecutive targets (assuming the
+    double db_length - distance between two consecutive targets (assuming the
         targets list is a 2 by 2 list of dumbbell frames).
     double db_weight - the weight of the average length error compared to
         the average ray convergence error.
 */
 double weighted_dumbbell_precision(vec2d** targets, int num_targs, int num_cams,
-    mm_np *multimed_pars, Calibration* cals[], int db_length, double db_weight)
+    mm_np *multimed_pars, Calibration* cals[], double db_length, double db_weight)
 {
     int pt;
     double dtot = 0, len_err_tot = 0, dist;
diff --git a/py_bind/optv/orientation.pxd b/py_bind/optv/orientation.pxd
index 7228d34..fb172c2 100644
--- a/py_bind/optv/orientation.pxd
+++ b/py_bind/optv/orientation.pxd
@@ -31,6 +31,6 @@ cdef extern from "optv/orientation.h":
     orient_par* read_orient_par(char *filename)
     double weighted_dumbbell_precision(vec2d** targets, int num_targs, 
         int num_cams, mm_np *multimed_pars, calibration* cals[], 
-        int db_length, double db_weight)
+        double db_length, double db_weight)
 
 cdef calibration** cal_list2arr(list cals)
-- 
2.43.0


From e4077d98ffc0be65ce983ec2bfd2b05de2ca816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 77/96] fix: Tracker used names and calibrations after they
 were freed, or that were not there

---
 py_bind/optv/orientation.pxd |  2 +-
 py_bind/optv/orientation.pyx |  2 +-
 py_bind/optv/tracker.pyx     | 11 +++++++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/py_bind/optv/orientation.pxd b/py_bind/optv/orientation.pxd
index fb172c2..0e4fd43 100644
--- a/py_bind/optv/orientation.pxd
+++ b/py_bind/optv/orientation.pxd
@@ -33,4 +33,4 @@ cdef extern from "optv/orientation.h":
         int num_cams, mm_np *multimed_pars, calibration* cals[], 
         double db_length, double db_weight)
 
-cdef calibration** cal_list2arr(list cals)
+cdef calibration** cal_list2arr(list cals) except NULL
diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index c477c60..f5f59c5 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -64,7 +64,7 @@ def match_detection_to_ref(Calibration cal,
     t.set(sorted_targs, len(ref_pts), 1)
     return t
 
-cdef calibration** cal_list2arr(list cals):
+cdef calibration** cal_list2arr(list cals) except NULL:
     """
     Allocate a C array with C calibration objects based on a Python list with
     Python Calibration objects.
diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index 973751d..17856a0 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -40,11 +40,17 @@ cdef class Tracker:
         """
         # We need to keep a reference to the Python objects so that their
         # allocations are not freed.
-        self._keepalive = (cpar, vpar, tpar, spar, cals)
+        names = (naming['corres'], naming['linkage'], naming['prio'])
+        self._keepalive = (cpar, vpar, tpar, spar, tuple(cals), names)
+        
+        num_cams = cpar.get_num_cams()
+        if len(cals) < num_cams or spar._sequence_par.num_cams < num_cams:
+            raise ValueError("Calibrations and image names are needed for each"
+                " of the %d cameras." % num_cams)
         
         self.run_info = tr_new(spar._sequence_par, tpar._track_par,
             vpar._volume_par, cpar._control_par, TR_BUFSPACE, MAX_TARGETS,
-            naming['corres'], naming['linkage'], naming['prio'], 
+            names[0], names[1], names[2], 
             cal_list2arr(cals), flatten_tol)
     
     def restart(self):
@@ -97,6 +103,7 @@ cdef class Tracker:
         if self.run_info == NULL: # construction failed
             return
         fb_free(self.run_info.fb)
+        free(self.run_info.fb)
         free(self.run_info.cal) # allocated by cal_list2arr, leafs belong to
                                 # owner of the Tracker.
         free(self.run_info) # not using tr_free() which assumes ownership of 
-- 
2.43.0


From bf5d00b43b6a6f49066d1f901d5f60ac38c67b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 78/96] fix: tracking steps on a Tracker that was not started
 used uninitialized frames

---
 py_bind/optv/tracker.pxd | 1 +
 py_bind/optv/tracker.pyx | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/py_bind/optv/tracker.pxd b/py_bind/optv/tracker.pxd
index a86cfda..fba9fd2 100644
--- a/py_bind/optv/tracker.pxd
+++ b/py_bind/optv/tracker.pxd
@@ -25,6 +25,7 @@ cdef extern from "optv/track.h":
 cdef class Tracker:
     cdef tracking_run *run_info
     cdef int step
+    cdef bint started
     cdef object _keepalive
 
     
diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index 17856a0..fc52fe8 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -60,11 +60,15 @@ cdef class Tracker:
         """
         self.step = self.run_info.seq_par.first
         track_forward_start(self.run_info)
+        self.started = True
     
     def step_forward(self):
         """
         Perform one tracking step for the current frame of iteration.
         """
+        if not self.started:
+            raise RuntimeError("restart() must be called before tracking.")
+        
         if self.step >= self.run_info.seq_par.last:
             return False
         
@@ -76,6 +80,9 @@ cdef class Tracker:
         """
         Finish a tracking run.
         """
+        if not self.started:
+            raise RuntimeError("restart() must be called before tracking.")
+        
         trackcorr_c_finish(self.run_info, self.step)
     
     def full_forward(self):
-- 
2.43.0


From bda50c803f42dcad272c59c50645b3678f1856a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 79/96] fix: preprocess_image read outside the image for a
 negative or huge lowpass span or an empty image

---
 liboptv/src/image_processing.c    | 4 ++--
 py_bind/optv/image_processing.pyx | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 883cd52..f3d652c 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -140,8 +140,8 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     register int i;
     int image_size = cpar->imx * cpar->imy;
     
-    span_x = (2*filt_span < cpar->imx) ? filt_span : (cpar->imx - 1)/2;
-    span_y = (2*filt_span < cpar->imy) ? filt_span : (cpar->imy - 1)/2;
+    span_x = (filt_span < (cpar->imx + 1)/2) ? filt_span : (cpar->imx - 1)/2;
+    span_y = (filt_span < (cpar->imy + 1)/2) ? filt_span : (cpar->imy - 1)/2;
     n = 2*span_x + 1;
     nq = n*(2*span_y + 1);
     
diff --git a/py_bind/optv/image_processing.pyx b/py_bind/optv/image_processing.pyx
index 4ee4bb8..66ff291 100644
--- a/py_bind/optv/image_processing.pyx
+++ b/py_bind/optv/image_processing.pyx
@@ -45,6 +45,11 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
         input_img.shape[1] != control._control_par.imx:
         raise ValueError("Image size differs from the control parameters.")
     
+    if input_img.shape[0] < 1 or input_img.shape[1] < 1:
+        raise ValueError("The image is empty.")
+    if lowpass_dim < 0:
+        raise ValueError("The half-width of the lowpass filter is negative.")
+    
     if output_img is None:
         output_img = np.empty((input_img.shape[0], input_img.shape[1]), 
             dtype=np.uint8)
-- 
2.43.0


From a5def48075847065b08fad4fe9e13f04140e1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 80/96] fix: sortgrid left the targets of points without a
 detection unset

---
 liboptv/src/sortgrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index ae961b9..cf70081 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -52,7 +52,7 @@ target* sortgrid (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], in
   double        xp,yp;
       
   /* sorted pix should be just of the same size as fix[] */
-  sorted_pix = (target *) malloc(nfix * sizeof(target));
+  sorted_pix = (target *) calloc(nfix, sizeof(target));
 
   for (i=0; i<nfix; i++) sorted_pix[i].pnr = -999;
 
-- 
2.43.0


From c1b8a27690eb41493327cb8e2fe5070cf4e1bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 81/96] fix: target_recognition with a negative grey threshold
 wrote outside its memory or never ended

---
 py_bind/optv/segmentation.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index 6da9c24..5fa5c5e 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -74,6 +74,8 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     
     if cam < 0 or cam >= 4:
         raise ValueError("no grey threshold for camera %d" % cam)
+    if tpar._targ_par.gvthres[cam] < 0:
+        raise ValueError("grey threshold is negative")
 
     assert img.dtype == DTYPE
 
-- 
2.43.0


From a575e72c190d49639606556dc900ac69baa04275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 82/96] fix: read_control_par allocated memory for as many
 cameras as the first line promised

---
 liboptv/src/parameters.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 2b7d287..7425ac4 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -378,8 +378,18 @@ parsing to fail */
         fclose(par_file);
         return NULL;
     }
-    ret = new_control_par(num_cams);
-    for (cam = 0; cam < ret->num_cams; cam++) {
+    /* The names are added as they are read, so that memory use follows what 
+       the file holds and not what its first line promises. */
+    ret = new_control_par(0);
+    for (cam = 0; cam < num_cams; cam++) {
+        ret->img_base_name = (char **) realloc(ret->img_base_name,
+            (cam + 1)*sizeof(char *));
+        ret->cal_img_base_name = (char **) realloc(ret->cal_img_base_name,
+            (cam + 1)*sizeof(char *));
+        ret->img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
+        ret->cal_img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
+        ret->num_cams = cam + 1;
+
         if (!read_name(par_file, line)) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-- 
2.43.0


From ff056eeaf3eb2910e661c84d74ffce99c68909e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 83/96] fix: a point number at the end of the integer range
 overflowed in read_man_ori_fix

---
 liboptv/src/orientation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 3a5af36..4176b58 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -751,7 +751,7 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
     num_match = 0; /* count matches to needed numbers */
     for (pnr = 0; pnr < num_fix; pnr++) {
         for (i = 0; i < 4; i++) {
-            if (pnr == nr[i] - 1) {
+            if (pnr + 1 == nr[i]) {
                 vec_copy(fix4[i], fix[pnr]);
                 num_match++;
                 break;
-- 
2.43.0


From fe47e3c152cb3dda842e0ab00992134887a2dcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 84/96] fix: candidate search gave up on lines near the side of
 a sheared or distorted sensor

---
 liboptv/src/epi.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/liboptv/src/epi.c b/liboptv/src/epi.c
index 888ba9f..7800506 100644
--- a/liboptv/src/epi.c
+++ b/liboptv/src/epi.c
@@ -128,20 +128,30 @@ int find_candidate (coord_2d *crd, target *pix, int num,
     candidate cand[], volume_par *vpar, control_par *cpar, Calibration *cal)
 {
   register int	j;
-  int	       	j0, dj, p2, count = 0;
+  int	       	i, j0, dj, p2, count = 0;
   double      	m, b, d, temp, qn, qnx, qny, qsumg, corr;
-  double       	xmin, xmax, ymin, ymax;
+  double       	xmin, xmax, ymin, ymax, sx, sy, x, y;
   double 		tol_band_width;
   
   tol_band_width = vpar->eps0;
  
   /* define sensor format for search interrupt */
-  xmin = (-1) * cpar->pix_x * cpar->imx/2;	xmax = cpar->pix_x * cpar->imx/2;
-  ymin = (-1) * cpar->pix_y * cpar->imy/2;	ymax = cpar->pix_y * cpar->imy/2;
+  sx = cpar->pix_x * cpar->imx/2;	sy = cpar->pix_y * cpar->imy/2;
   
   /* distortion is relative to the sensor center */
-  correct_brown_affin (xmin, ymin, cal->added_par, &xmin, &ymin);
-  correct_brown_affin (xmax, ymax, cal->added_par, &xmax, &ymax);
+  correct_brown_affin (sx, sy, cal->added_par, &xmax, &ymax);
+  xmin = xmax;	ymin = ymax;
+
+  /* any corner or side of the sensor may be the one that goes furthest */
+  for (i = -1; i <= 1; i++) {
+      for (j = -1; j <= 1; j++) {
+          correct_brown_affin (i*sx, j*sy, cal->added_par, &x, &y);
+          if (x < xmin) xmin = x;
+          if (x > xmax) xmax = x;
+          if (y < ymin) ymin = y;
+          if (y > ymax) ymax = y;
+      }
+  }
   
   xmin -= cal->int_par.xh;	ymin -= cal->int_par.yh;
   xmax -= cal->int_par.xh;	ymax -= cal->int_par.yh;
-- 
2.43.0


From a8007a3365cfad43b59dfc380e8be461357d9df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 85/96] fix: calibration files were written and read with
 decimal commas where the locale has them

---
 liboptv/src/calibration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index abe3649..35946ab 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <math.h>
+#include <locale.h>
 #include "tracking_frame_buf.h"
 #include "calibration.h"
 
@@ -27,6 +28,9 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   FILE	*fp;
   int  	i, success = 0;
 
+  /* Files have decimal points, whatever the locale (see parameters.c). */
+  setlocale(LC_NUMERIC, "C");
+
   fp = fopen (filename, "w");
   if (! fp) {
         printf("Can't open ascii file: %s\n", filename);
@@ -95,6 +99,9 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
    if (!(fp = fopen_r(ori_file))) return 0;
    */
    
+    /* Files have decimal points, whatever the locale (see parameters.c). */
+    setlocale(LC_NUMERIC, "C");
+
     fp = fopen (ori_file, "r");
     if (! fp) {
         printf("Can't open ORI file: %s\n", ori_file);
-- 
2.43.0


From 7def7685963817c6470f3545cbfeed65b7244ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 86/96] fix: target files were written and read with decimal
 commas where the locale has them

---
 liboptv/src/tracking_frame_buf.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 965b920..47d629f 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -8,6 +8,7 @@ reading targets, correspondences, etc.
 
 #include <string.h>
 #include <limits.h>
+#include <locale.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include "tracking_frame_buf.h"
@@ -60,6 +61,9 @@ int read_targets_limited(target buffer[], int max_targets, char* file_base,
     int	tix, num_targets, scanf_ok, name_len;
     char filein[STR_MAX_LEN + 1];
 
+    /* Files have decimal points, whatever the locale (see parameters.c). */
+    setlocale(LC_NUMERIC, "C");
+
     if (frame_num > 0) {
         name_len = snprintf(filein, sizeof(filein), "%s%04d%s", file_base, 
             frame_num, "_targets");
@@ -129,6 +133,9 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     int	tix, printf_ok, name_len, success = 0;
     char fileout[STR_MAX_LEN + 1];
     
+    /* Files have decimal points, whatever the locale (see parameters.c). */
+    setlocale(LC_NUMERIC, "C");
+
     if (frame_num > 0) {
         name_len = snprintf(fileout, sizeof(fileout), "%s%04d%s", file_base, 
             frame_num, "_targets");
-- 
2.43.0


From a0f2fe8f27fc72f58649c7af02aabe4979c1f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 87/96] fix: frame files were written and read with decimal
 commas where the locale has them

---
 liboptv/src/tracking_frame_buf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 47d629f..ecc0c7f 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -307,6 +307,9 @@ int read_path_frame_limited(corres *cor_buf, P *path_buf, int max_points, \
     double discard; /* For position values that are to be read again from a 
                        differnt file. */
     
+    /* Files have decimal points, whatever the locale (see parameters.c). */
+    setlocale(LC_NUMERIC, "C");
+
     /* File format: first line contains the number of points, then each line is
     a record of path and correspondence info. */
     
@@ -447,6 +450,9 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     char prio_fname[STR_MAX_LEN + 1];
     int	pix, success = 0;
 
+    /* Files have decimal points, whatever the locale (see parameters.c). */
+    setlocale(LC_NUMERIC, "C");
+
     if (!path_file_name(corres_fname, corres_file_base, frame_num)) 
         goto finalize;
     corres_file = fopen (corres_fname, "w");
-- 
2.43.0


From a5348b8ba4520754de7662b1cdb275ab11d0f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 88/96] fix: calibration block files were read with decimal
 commas where the locale has them

---
 liboptv/src/sortgrid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index cf70081..c3ca61b 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -19,6 +19,7 @@ Description:	       	reads objects, detected by detection etc.,
 ****************************************************************************/
 
 
+#include <locale.h>
 #include "sortgrid.h"
 
 /* sortgrid () is sorting detected target points by back-projection. Three dimensional 
@@ -167,6 +168,9 @@ vec3d* read_calblock(int *num_points, char* filename) {
     vec3d fix;
     vec3d *ret = (vec3d *) malloc(1); /* reallocated every line */
        
+    /* Files have decimal points, whatever the locale (see parameters.c). */
+    setlocale(LC_NUMERIC, "C");
+
     fpp = fopen (filename, "r");
     if (! fpp) {
         printf("Can't open calibration block file: %s\n", filename);
-- 
2.43.0


From fa58a4b3651d3f1032e5c1dff8638f86cc2315e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 89/96] fix: filter files were read with decimal commas where
 the locale has them

---
 liboptv/src/image_processing.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index f3d652c..7e37664 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -9,6 +9,7 @@
 
 #include <stdlib.h>
 #include <stdio.h>
+#include <locale.h>
 #include "image_processing.h"
 
 /*  This would be a function, only the original writer of these filters put a 
@@ -404,6 +405,9 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
         break;
     case 2:
         /* read filter elements from parameter file */
+        /* Files have decimal points, whatever the locale (see parameters.c). */
+        setlocale(LC_NUMERIC, "C");
+
         fp = fopen (filter_file, "r");
         if (fp == NULL) {
             free (img_lp);
-- 
2.43.0


From e09807cdb12a0478070dd0da2e902ae85f536820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 90/96] fix: peak_fit() read outside the image and overflowed
 its buffers for large targets and many peaks

---
 liboptv/src/segmentation.c | 81 ++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 29 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 989eacc..f1aa738 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -210,6 +210,18 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
 
 
+/* grey_value() returns the grey value of the pixel at x, y, or 0 (black) for 
+   pixels outside the image. */
+static int grey_value(unsigned char *img, int x, int y, int imx, int imy) {
+    return (x < 0 || x >= imx || y < 0 || y >= imy) ? 0 : img[y*imx + x];
+}
+
+/* label_value() returns the label of the pixel at x, y, or 0 (no peak) for 
+   pixels outside the image. */
+static int label_value(int *label_img, int x, int y, int imx, int imy) {
+    return (x < 0 || x >= imx || y < 0 || y >= imy) ? 0 : label_img[y*imx + x];
+}
+
 /* 
   peak fitting technique for particle coordinate determination  
   labeling with discontinuity, reunification with distance and profile criteria
@@ -252,11 +264,11 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     unsigned char gv, gvref;      /* current and reference greyvalue */
     unsigned char gv1, gv2;           /* greyvalues for profile test */
     double        x1,x2,y1,y2,s12;    /* values for profile test */
-    short         *label_img;           /* target number labeling */
+    int           *label_img;           /* target number labeling */
     /* the following were not assigned, probably from globals */
-    int nmax = 1024; 
+    int           nmax = 4096;          /* # of peaks there is place for */
     peak          *peaks, *ptr_peak;    /* detected peaks */
-    targpix       waitlist[2048];     /* pix to be tested for connectivity */
+    targpix       *waitlist;            /* pix to be tested for connectivity */
 
     imx = cpar->imx;
     imy = cpar->imy;
@@ -265,10 +277,17 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     disco = targ_par->discont;
 
     /* allocate memory */
-    label_img = (short *) calloc (imx*imy, sizeof(short));
-    peaks = (peak *) calloc (4*nmax, sizeof(peak));
-    ptr_peak = peaks;
+    label_img = (int *) calloc (imx*imy, sizeof(int));
+    peaks = (peak *) calloc (nmax, sizeof(peak));
 
+    /* each pixel is queued at most once per peak */
+    waitlist = (targpix *) malloc (imx*imy * sizeof(targpix));
+
+    /* search only where there is an image */
+    if (xmin < 0) xmin = 0;
+    if (ymin < 0) ymin = 0;
+    if (xmax > imx) xmax = imx;
+    if (ymax > imy) ymax = imy;
 
     /* connectivity analysis with peak search and discontinuity criterion */
 
@@ -282,16 +301,21 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           if (*(label_img + n) != 0)    continue;
 
           /* check, wether pixel is a local maximum */
-          if ( gv >= *(img + n-1)
-           &&   gv >= *(img + n+1)
-           &&   gv >= *(img + n-imx)
-           &&   gv >= *(img + n+imx)
-           &&   gv >= *(img + n-imx-1)
-           &&   gv >= *(img + n+imx-1)
-           &&   gv >= *(img + n-imx+1)
-           &&   gv >= *(img + n+imx+1) )
+          if ( gv >= grey_value (img, j-1, i, imx, imy)
+           &&   gv >= grey_value (img, j+1, i, imx, imy)
+           &&   gv >= grey_value (img, j, i-1, imx, imy)
+           &&   gv >= grey_value (img, j, i+1, imx, imy)
+           &&   gv >= grey_value (img, j-1, i-1, imx, imy)
+           &&   gv >= grey_value (img, j-1, i+1, imx, imy)
+           &&   gv >= grey_value (img, j+1, i-1, imx, imy)
+           &&   gv >= grey_value (img, j+1, i+1, imx, imy) )
             {
               /* label peak in label_img, initialize peak */
+              if (n_peaks == nmax) {
+                  nmax *= 2;
+                  peaks = (peak *) realloc (peaks, nmax * sizeof(peak));
+              }
+              ptr_peak = peaks + n_peaks;
               n_peaks++;
               *(label_img + n) = n_peaks;
               ptr_peak->pos = n;
@@ -305,7 +329,6 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
               ptr_peak->y = 0;
               ptr_peak->n_touch = 0;
               for (k=0; k<4; k++)   ptr_peak->touch[k] = 0;
-              ptr_peak++;
 
               waitlist[0][0] = j;  waitlist[0][1] = i;  n_wait = 1;
 
@@ -321,7 +344,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
                       yn = y8[k];
                       xn = x8[k];
                       
-                      if (xn<0 || xn>imx || yn<0 || yn>imy) 
+                      if (xn<0 || xn>=imx || yn<0 || yn>=imy) 
                         continue;
                       
                       n = imx*yn + xn;
@@ -335,10 +358,10 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
                       if (   (gv > thres)
                          && (xn>=xmin)&&(xn<xmax) && (yn>=ymin)&&(yn<ymax-1)
                          && (gv <= gvref+disco)
-                         && (gvref + disco >= *(img + imx*(yn-1) + xn))
-                         && (gvref + disco >= *(img + imx*(yn+1) + xn))
-                         && (gvref + disco >= *(img + imx*yn + (xn-1)))
-                         && (gvref + disco >= *(img + imx*yn + (xn+1)))
+                         && (gvref + disco >= grey_value (img, xn, yn-1, imx, imy))
+                         && (gvref + disco >= grey_value (img, xn, yn+1, imx, imy))
+                         && (gvref + disco >= grey_value (img, xn-1, yn, imx, imy))
+                         && (gvref + disco >= grey_value (img, xn+1, yn, imx, imy))
                          )
                         {
                           *(label_img + imx*yn + xn) = n_peaks;
@@ -353,7 +376,6 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
                     waitlist[m][0] = waitlist[m+1][0];
                     waitlist[m][1] = waitlist[m+1][1];
                   }
-                  waitlist[n_wait][0] = 0;  waitlist[n_wait][1] = 0;
               }   /*  end of while-loop  */
             }
     }
@@ -383,16 +405,16 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
               /* get touch events */
 
-              if (i>0 && j>1)           check_touch (ptr_peak, pnr, *(label_img+n-imx-1));
-              if (i>0)                  check_touch (ptr_peak, pnr, *(label_img+n-imx));
-              if (i>0 && j<imy-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
+              check_touch (ptr_peak, pnr, label_value (label_img, j-1, i-1, imx, imy));
+              check_touch (ptr_peak, pnr, label_value (label_img, j, i-1, imx, imy));
+              check_touch (ptr_peak, pnr, label_value (label_img, j+1, i-1, imx, imy));
 
-              if (j>0)                  check_touch (ptr_peak, pnr, *(label_img+n-1));
-              if (j<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
+              check_touch (ptr_peak, pnr, label_value (label_img, j-1, i, imx, imy));
+              check_touch (ptr_peak, pnr, label_value (label_img, j+1, i, imx, imy));
 
-              if (i<imx-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
-              if (i<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
-              if (i<imx-1 && j<imy-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
+              check_touch (ptr_peak, pnr, label_value (label_img, j-1, i+1, imx, imy));
+              check_touch (ptr_peak, pnr, label_value (label_img, j, i+1, imx, imy));
+              check_touch (ptr_peak, pnr, label_value (label_img, j+1, i+1, imx, imy));
           }
     }
 
@@ -489,6 +511,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
         }
     }
     
+    free (waitlist);
     free (label_img);
     free (peaks);
 
-- 
2.43.0


From b59d7f7b4e6df5b8fce0fa14a776a6bcc028f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 91/96] fix: peak_fit() counted the pixels of a target in two
 when it was unified with the first or with several others

---
 liboptv/src/segmentation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index f1aa738..0972dac 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -463,7 +463,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
           /* otherwise unify targets */
           unified++;
-          peaks[i].unr = p2;
+          peaks[i].unr = p2 + 1; /* 0 means not unified */
           peaks[p2].x += peaks[i].x;
           peaks[p2].y += peaks[i].y;
           peaks[p2].sumg += peaks[i].sumg;
@@ -472,6 +472,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           if (peaks[i].ymin < peaks[p2].ymin)   peaks[p2].ymin = peaks[i].ymin;
           if (peaks[i].xmax > peaks[p2].xmax)   peaks[p2].xmax = peaks[i].xmax;
           if (peaks[i].ymax > peaks[p2].ymax)   peaks[p2].ymax = peaks[i].ymax;
+          break;
       }
     }
 
-- 
2.43.0


From b4f77a796f02ae8f59930d5022dfcc169eed4f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 92/96] fix: peak_fit() did not unify bright targets, whose
 grey value with the discontinuity wrapped around

---
 liboptv/src/segmentation.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 0972dac..0c2e976 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -263,6 +263,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     register int  i, j, k, l, m, n;     /* loop variables */
     unsigned char gv, gvref;      /* current and reference greyvalue */
     unsigned char gv1, gv2;           /* greyvalues for profile test */
+    int           gvprof;             /* ditto, with discontinuity added */
     double        x1,x2,y1,y2,s12;    /* values for profile test */
     int           *label_img;           /* target number labeling */
     /* the following were not assigned, probably from globals */
@@ -452,8 +453,9 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           else for (unify=1, l=1; l<s12; l++) {
               intx1 = (int) (x1 + l * (x2 - x1) / s12);
               inty1 = (int) (y1 + l * (y2 - y1) / s12);
-              gv = *(img + inty1*imx + intx1) + disco;
-              if (gv < (gv1+l*(gv2-gv1)/s12) || gv<gv1 || gv<gv2)   unify = 0;
+              gvprof = *(img + inty1*imx + intx1) + disco;
+              if (gvprof < (gv1+l*(gv2-gv1)/s12) || gvprof<gv1 || gvprof<gv2)
+                  unify = 0;
               if (unify == 0)   break;
           }
           if (unify == 0) {
-- 
2.43.0


From 4f78774cfd975062c6c381b9de0eebd23be98503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 93/96] fix: tr_free() left the frames of the buffer and the
 image names of the sequence allocated

---
 liboptv/src/tracking_run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 5e4aadc..325652f 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -86,9 +86,9 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
    TrackingRun *tr - points to the TrackingRun object to free.
 */
 void tr_free(tracking_run *tr) {
+    fb_free(tr->fb);
     free(tr->fb);
-    free(tr->seq_par->img_base_name);
-    free(tr->seq_par);
+    free_sequence_par(tr->seq_par);
     free(tr->tpar);
     free(tr->vpar);
     free_control_par(tr->cpar);
-- 
2.43.0


From afc49495a9d437c6767b407f348000334c65388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 94/96] fix: correspondences() of the bindings left its list of
 coordinate arrays allocated

---
 py_bind/optv/correspondences.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 85f3973..66fb7df 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -234,6 +234,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
     free(frm.targets)
     free(frm.num_targets)
     free(calib)
+    free(corrected)
     free(match_counts)
     free(corresp_buf) # Note this for future returning of correspondences.
     
-- 
2.43.0


From ad7f175db26943ccb5656a25e868b580bc53b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 95/96] fix: ControlParams lost its media when its construction
 failed

---
 py_bind/optv/parameters.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 8eea8f5..c83741c 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -639,6 +639,8 @@ cdef class ControlParams:
         cam_side_n, wall_ns, wall_thicks, object_side_n - see MultimediaParams
         """
         self._control_par = c_new_control_par(cams)
+        free(self._control_par[0].mm) # replaced by that of MultimediaParams.
+        self._control_par[0].mm = NULL
         self.set_hp_flag('hp' in flags)
         self.set_allCam_flag('allcam' in flags)
         self.set_tiff_flag('headers' in flags)
@@ -651,7 +653,6 @@ cdef class ControlParams:
         
         self._multimedia_params = MultimediaParams(
             n1=cam_side_n, n2=wall_ns, d=wall_thicks, n3=object_side_n)
-        free(self._control_par[0].mm)
         self._control_par[0].mm = self._multimedia_params._mm_np
         
     # Getters and setters
-- 
2.43.0


From c96cb629443d7149407a7c3b3827f10c3da75fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 96/96] fix: write_path_frame() reports a frame that could not
 be written also when the last buffer just fitted

---
 liboptv/src/tracking_frame_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index ecc0c7f..cd19706 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -498,7 +498,8 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
             path_buf[pix].prev, path_buf[pix].next, path_buf[pix].x[0],
             path_buf[pix].x[1], path_buf[pix].x[2], path_buf[pix].prio);
     }
-    success = 1;
+    success = !ferror(corres_file) && !ferror(linkage_file) && \
+        (prio_file == NULL || !ferror(prio_file));
 
 finalize:
     if (corres_file != NULL && fclose(corres_file) != 0) success = 0;
-- 
2.43.0

