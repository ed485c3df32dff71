From 8314fcf0a9fc85da2b00c57d84a362818be970b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 01/62] fix: lmatmul_sp ran past lmax when the l-matrix was
 longer than the alm

The single precision version looped to lfmax instead of min(lmax,lfmax), so
it read and wrote outside each m's coefficients, racing with other threads.
---
 cython/cmisc_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc_core.c b/cython/cmisc_core.c
index ded2d9a..cb751b0 100644
--- a/cython/cmisc_core.c
+++ b/cython/cmisc_core.c
@@ -208,7 +208,7 @@ void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm
 		float * vimag = calloc(N, sizeof(float));
 		#pragma omp for
 		for(int m = 0; m <= mmax; m++) {
-			for(int l = m; l <= lfmax; l++) {
+			for(int l = m; l <= leff; l++) {
 				int64_t i = mstart[m]+l;
 				// Zero out the work arrays
 				for(int r = 0; r < N; r++) { vreal[r] = vimag[r] = 0; }
-- 
2.43.0


From 9994d977fe8af447bbe0896473ffe8fda982f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:26 +0000
Subject: [PATCH 02/62] fix: distance maps were wrong in the pixel a point
 starts from

The cellgrid solver assigned distance 0 to the pixel closest to each point even
when the point was off-centre or outside the map, rmax was ignored there by all
solvers, and a later point in the same pixel replaced a closer one.
---
 cython/distances_core.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cython/distances_core.c b/cython/distances_core.c
index 276a5fc..42ed100 100644
--- a/cython/distances_core.c
+++ b/cython/distances_core.c
@@ -206,6 +206,8 @@ void distance_from_points_bubble(int ny, int nx, double * posmap, inum npoint, d
 		int y = point_y[i], x = point_x[i];
 		inum pix = (inum)y*nx+x;
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], pix_ra[pix], cos(pix_dec[pix]), sin(pix_dec[pix]));
+		// Skip points beyond rmax, and keep the closest if several share a pixel
+		if(dist >= dists[y*nx+x]) continue;
 		pointvec_push(curr, y, x);
 		dists[y*nx+x]   = dist;
 		domains[y*nx+x] = i;
@@ -290,6 +292,8 @@ void distance_from_points_bubble_separable(int ny, int nx, double * ypos, double
 	for(inum i = 0; i < npoint; i++) {
 		int y = point_y[i], x = point_x[i];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], xpos[x], pix_cos_dec[y], pix_sin_dec[y]);
+		// Skip points beyond rmax, and keep the closest if several share a pixel
+		if(dist >= dists[y*nx+x]) continue;
 		pointvec_push(curr, y, x);
 		dists[y*nx+x]   = dist;
 		domains[y*nx+x] = i;
@@ -681,9 +685,15 @@ void distance_from_points_cellgrid(int ny, int nx, double * ypos, double * xpos,
 		int y1 = by*bsize_y, yrel = point_y[i]-y1;
 		int x1 = bx*bsize_x, xrel = point_x[i]-x1;
 		int pixrel = yrel*grid.cells[ci].nx+xrel;
+		inum pix = (inum)point_y[i]*nx+point_x[i];
+		double pix_dec = ypos[separable ? point_y[i] : pix];
+		double pix_ra  = xpos[separable ? point_x[i] : pix];
+		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], pix_ra, cos(pix_dec), sin(pix_dec));
+		// Skip points beyond rmax, and keep the closest if several share a pixel
+		if(dist >= grid.cells[ci].dists[pixrel]) continue;
 		pointvec_push(grid.cells[ci].current, yrel, xrel);
 		grid.cells[ci].domains[pixrel] = i;
-		grid.cells[ci].dists[pixrel] = 0;
+		grid.cells[ci].dists[pixrel] = dist;
 	}
 	// Initialize them
 	#pragma omp parallel for
@@ -1032,6 +1042,8 @@ void distance_from_points_bubble_healpix(healpix_info * geo, inum npoint, double
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
+		// Skip points beyond rmax, and keep the closest if several share a pixel
+		if(dist >= dists[pix]) continue;
 		pointvec_push(curr, y, x);
 		dists[pix]   = dist;
 		domains[pix] = i;
@@ -1167,6 +1179,8 @@ void distance_from_points_heap_healpix(healpix_info * geo, inum npoint, double *
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
+		// Skip points beyond rmax, and keep the closest if several share a pixel
+		if(dist >= dists[pix]) continue;
 		HeapEntry entry = { dist, y, x };
 		pointheap_push(heap, entry);
 		dists[pix]   = dist;
-- 
2.43.0


From cb769e902d3716ba2c108e8086e9560ce2106bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:10 +0000
Subject: [PATCH 03/62] fix: data race on shared temporaries in direct_colorcap

---
 fortran/colorize.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/colorize.f90 b/fortran/colorize.f90
index 7dca1be..e0f9b29 100644
--- a/fortran/colorize.f90
+++ b/fortran/colorize.f90
@@ -61,7 +61,7 @@ subroutine direct_colorcap(a, res)
 	real(8) :: v, hue(3), amp, color(3)
 	integer :: i, nc
 	nc = size(a,2)
-	!$omp parallel do private(i,v)
+	!$omp parallel do private(i,v,hue,amp,color)
 	do i = 1, size(a,1)
 		v = a(i,1)+a(i,2)+a(i,3)
 		if(v .ne. v) then
-- 
2.43.0


From 2a939b778fccd26ebe77754481c2642badd942fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:07 +0000
Subject: [PATCH 04/62] fix: objects were truncated when sharing a profile

With more than ten objects per profile the precomputed profile extents were one
sample too short, and vmin=0 (any zero amplitude) cut objects to their center.
---
 cython/srcsim_core.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 65af39b..7cdbe13 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -270,7 +270,7 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 		for(int li = prof_levels-2; li > 0; li--) {
 			float vlim = vmax * powf(prof_base, -li);
 			for(; ri > imax && fabsf(prof_vs[i][ri]) < vlim; ri--);
-			prof_info[i*prof_levels+li] = ri;
+			prof_info[i*prof_levels+li] = ri+1;
 		}
 	}
 	return prof_info;
@@ -279,10 +279,9 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 int prof_info_lookup(int * prof_info, int prof, float vrel) {
 	// Calculate what power of our base (e.g. power of ten) we are
 	// away from the profile peak
-	int ind = (int)ceilf(-logf(vrel)/logf(prof_base));
-	// Cap to [0:nlevel]
-	if(ind < 0) ind = 0;
-	else if(ind >= prof_levels) ind = prof_levels-1;
+	float level = ceilf(-logf(vrel)/logf(prof_base));
+	// Cap to [0:nlevel]. Do this before converting to int, since level is infinite for vrel = 0
+	int ind = level < 0 ? 0 : level >= prof_levels ? prof_levels-1 : (int)level;
 	// And look up the relevant starting point in the profile
 	return prof_info[prof_levels*prof+ind];
 }
-- 
2.43.0


From 94b922b3661576734ab05e884ffab6a4e62bafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:07 +0000
Subject: [PATCH 05/62] fix: radial_sum left the last radial bin empty or
 partially filled

---
 cython/srcsim_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 7cdbe13..b6874a6 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -806,7 +806,7 @@ void radial_sum(
 		double * times    // Time taken in the different steps
 	) {
 	// 1. Figure out how far away we need to consider each object
-	float rmax    = rs[nbin-1];
+	float rmax    = rs[nbin];
 	// 2. Loop over each object
 	double t1     = wall_time();
 	#pragma omp parallel for
@@ -824,7 +824,7 @@ void radial_sum(
 				if(separable) { dec = pix_decs[y];      ra = pix_ras[x];      }
 				else          { dec = pix_decs[y*nx+x]; ra = pix_ras[y*nx+x]; }
 				float r = calc_dist(dec, ra, obj_decs[oi], obj_ras[oi]);
-				int i   = equi ? equi_search(nbin, rs, r) : binary_search(nbin, rs, r);
+				int i   = equi ? equi_search(nbin+1, rs, r) : binary_search(nbin+1, rs, r);
 				if(i < 0 || i >= nbin) continue;
 				for(int ci = 0; ci < ncomp; ci++)
 					bins[oi][ci][i] += imap[ci][y*nx+x];
-- 
2.43.0


From c12f36777376dc051385a375de732786f4150aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:07 +0000
Subject: [PATCH 06/62] fix: sim_objects and sim_srcs ignored the op argument

---
 pixell/pointsrcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index c039927..9a44b4c 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -115,7 +115,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
+	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
@@ -247,7 +247,7 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		amps  = amps.reshape(shape[:-2]+(nobj,))
 		# Handle beam = float, in which case a gaussian beam is made
 		beam  = expand_beam(beam, nsigma, rmax)
-		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op, pixwin=pixwin, pixwin_order=0, separable=separable, cache=cache)
+		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=0, separable=separable, cache=cache)
 	elif method == "python":
 		return sim_srcs_python(shape, wcs, srcs, beam, omap=omap, dtype=dtype, nsigma=nsigma, rmax=rmax, smul=smul, return_padded=return_padded, pixwin=pixwin, pixwin_order=pixwin_order, op=op, wrap=wrap, verbose=verbose, cache=cache, separable=separable)
 
-- 
2.43.0


From a647ee8399fd38c11eede957457afbb342c70f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:38 +0000
Subject: [PATCH 07/62] fix: coarsely sampled object profiles were cut one
 sample too early

---
 cython/srcsim_core.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index b6874a6..6bee771 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -302,6 +302,8 @@ float * measure_rmax(int nobj, float * amaxs, int * prof_ids, int * prof_ns, flo
 		// this loop could use that to reduce the loop range for the individual objects.
 		int i = prof_info ? prof_info_lookup(prof_info, pid, vrel)-1 : n-1;
 		for(; i > 0 && fabsf(vs[i]) < vrel; i--);
+		// The profile is interpolated, so it doesn't drop below vrel before the next sample
+		if(i < n-1 && fabsf(vs[i]) >= vrel) i++;
 		rmaxs[oi] = rs[i];
 		if(rmax > 0) rmaxs[oi] = fminf(rmaxs[oi], rmax);
 	}
-- 
2.43.0


From 4ca6fb36265c0b3b61b320212598e5e66fde94b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:01 +0000
Subject: [PATCH 08/62] fix: profile extent lookup for zero-amplitude objects
 with vmin=0

---
 cython/srcsim_core.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 6bee771..ee5b958 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -281,7 +281,8 @@ int prof_info_lookup(int * prof_info, int prof, float vrel) {
 	// away from the profile peak
 	float level = ceilf(-logf(vrel)/logf(prof_base));
 	// Cap to [0:nlevel]. Do this before converting to int, since level is infinite for vrel = 0
-	int ind = level < 0 ? 0 : level >= prof_levels ? prof_levels-1 : (int)level;
+	// and nan if the object has zero amplitude too
+	int ind = level >= prof_levels-1 ? prof_levels-1 : level > 0 ? (int)level : 0;
 	// And look up the relevant starting point in the profile
 	return prof_info[prof_levels*prof+ind];
 }
-- 
2.43.0


From 0598b99544a6453406113fa31c3bbba32bd7644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:41 +0000
Subject: [PATCH 09/62] fix: objects near the wrapping edge of the sky were cut
 when the width isn't a multiple of the cell size

---
 cython/srcsim_core.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index ee5b958..30f26d8 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -141,7 +141,7 @@ void estimate_bounding_box(
 		float * pix_ras,  //
 		int * box         // {y1,y2,x1,x2} in pixels.
 	);
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox);
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int ncy, int ncx, int * cellbox);
 void wrap_box(int * box, int ny, int nx);
 
 typedef struct IntList { int n, cap; int * vals; } IntList;
@@ -371,8 +371,9 @@ int assign_cells(
 		// This means that the sloppy wrapping we do that doesn't know about
 		// the real wrapping length of the sky will not cover any tile more than
 		// once.
-		pixbox2cellbox(pixbox, csize, ncy, ncx, cellboxes+4*oi);
-		wrap_box(cellboxes+4*oi, ncy, ncx);
+		// The wrapping must be done in pixels, since the last cell can be smaller than the others.
+		wrap_box(pixbox, ny, nx);
+		pixbox2cellbox(pixbox, csize, ny, nx, ncy, ncx, cellboxes+4*oi);
 	}
 	// 3. For each cell in each object's cell box, register the object in that cell.
 	for(int oi = 0; oi < nobj; oi++) {
@@ -429,17 +430,19 @@ int assign_cells(
 }
 
 int mod(int a, int b) { int c = a % b; return c < 0 ? c+b : c; }
-int floor_div(int a, int b) { int c = a / b; return c*b > a ? c-1 : c; }
 
 // Convert y1 y2 x1 x2 -> cy1 cy2 cx1 cx2. The ranges are
-// half-open like in python
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox) {
-	// Go from raw pixel bounds to raw cell bounds
-	int cy1 = floor_div(pixbox[0], csize), cy2 = floor_div(pixbox[1]-1, csize)+1;
-	int cx1 = floor_div(pixbox[2], csize), cx2 = floor_div(pixbox[3]-1, csize)+1;
-	// Put into output
-	cellbox[0] = cy1; cellbox[1] = cy2;
-	cellbox[2] = cx1; cellbox[3] = cx2;
+// half-open like in python. The pixel box must have been wrapped with wrap_box.
+// The cell box is wrapped the same way: starting inside, and covering no cell twice
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int ncy, int ncx, int * cellbox) {
+	int n[2] = {ny, nx}, nc[2] = {ncy, ncx};
+	for(int i = 0; i < 2; i++) {
+		int p1 = pixbox[2*i], p2 = pixbox[2*i+1];
+		int c1 = p1/csize;
+		int c2 = p2 <= n[i] ? (p2-1)/csize+1 : nc[i] + (p2-n[i]-1)/csize+1;
+		if(c2-c1 > nc[i]) c2 = c1+nc[i];
+		cellbox[2*i] = c1; cellbox[2*i+1] = c2;
+	}
 }
 
 // wrap an integer box such that the start point is >= 1, and
-- 
2.43.0


From f63d4e73c415de066a5303d13b94f13bb6c0f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:20 +0000
Subject: [PATCH 10/62] fix: zero-border interpolation dropped all
 contributions after the first out-of-bounds cell

---
 fortran/interpol.F90 | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 92c2da8..02ad587 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -480,11 +480,13 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 				if(n < 0) write(*,*) "If I don't have this write here, ifort 15 optimizes away ishape and/or n"
 				xi = map_border(border, ishape(i), xi)
 				! If we don't map onto a valid point (because we use null-boundaries),
-				! this cell doesn't contribute, so go to the next one
-				if(xi < 0) cycle cloop
+				! this cell doesn't contribute
+				if(xi < 0) exit
 				dind = dind * n + xi
 			end do
-			if(.not. trans) then
+			if(xi < 0) then
+				! Nothing to do for this cell, but still need to advance to the next one
+			elseif(.not. trans) then
 				! Standard interpolation
 				v = idata(dind+1,:)
 				! Now multiply this value by all the relevant weights, one
@@ -565,11 +567,13 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 				n  = ishape(i)
 				xi = map_border(border, ishape(i), xi)
 				! If we don't map onto a valid point (because we use null-boundaries),
-				! this cell doesn't contribute, so go to the next one
-				if(xi < 0) cycle cloop
+				! this cell doesn't contribute
+				if(xi < 0) exit
 				dind = dind * n + xi
 			end do
-			if(.not. trans) then
+			if(xi < 0) then
+				! Nothing to do for this cell, but still need to advance to the next one
+			elseif(.not. trans) then
 				! Standard interpolation
 				v = idata(dind+1,:)
 				! Now multiply this value by all the relevant weights, one
-- 
2.43.0


From 14fcd57159dff874b55be9c7dfd5a16d6e36a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:20 +0000
Subject: [PATCH 11/62] fix: wrong derivative of the 3rd order spline
 interpolation weights

---
 fortran/interpol.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 02ad587..e673032 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -372,7 +372,7 @@ pure subroutine calc_weights_deriv(type, order, p, weights, off)
 							if    (x < 0.5) then; weights(j,i) = -2*x
 							elseif(x < 1.5) then; weights(j,i) = -(1.5-x); end if
 						case(3)
-							if    (x < 1.0) then; weights(j,i) = x**2 - x*2/3
+							if    (x < 1.0) then; weights(j,i) = 1.5*x**2 - 2*x
 							elseif(x < 2.0) then; weights(j,i) = -(2-x)**2/2; end if
 						case(4)
 							if    (x < 0.5) then; weights(j,i) = 2*x * (x**2 * 0.25-0.625d0) + x**2 * 2*x * 0.25
-- 
2.43.0


From c2289191295c6b563653f382bd44f16ac91618e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:20 +0000
Subject: [PATCH 12/62] fix: interpolation derivatives were lost where a weight
 is zero, and their transpose was wrong

---
 fortran/interpol.F90 | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index e673032..ec91c34 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -574,33 +574,28 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 			if(xi < 0) then
 				! Nothing to do for this cell, but still need to advance to the next one
 			elseif(.not. trans) then
-				! Standard interpolation
-				v = idata(dind+1,:)
-				! Now multiply this value by all the relevant weights, one
-				! for each dimension
+				! Standard interpolation. The derivative along each axis is
+				! given by replacing that axis' weight with its derivative
 				do i = 1, ndim
-					v = v * weights(inds(i)+1,i)
-				end do
-				! Deriv of v1 v2 v3 ... = (dv1/v1 + dv2/v2 + ...)*v1*v2*v3 ...
-				do j = 1, npre
-					if(v(j) == 0) cycle
-					do i = 1, ndim
-						res(j,i) = res(j,i) + v(j) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
+					v = idata(dind+1,:) * dweights(inds(i)+1,i)
+					do j = 1, ndim
+						if(j .ne. i) v = v * weights(inds(j)+1,j)
 					end do
+					res(:,i) = res(:,i) + v
 				end do
 			else
 				! Transposed interpolation
-				res = odata(si,:,:)
+				v = 0
 				do i = 1, ndim
-					res(i,:) = res(i,:) * weights(inds(i)+1,i)
+					res(:,i) = odata(si,:,i) * dweights(inds(i)+1,i)
+					do j = 1, ndim
+						if(j .ne. i) res(:,i) = res(:,i) * weights(inds(j)+1,j)
+					end do
+					v = v + res(:,i)
 				end do
 				do j = 1, npre
-					do i = 1, ndim
-						if(weights(j,i) .ne. 0) then
-							!$omp atomic
-							idata(dind+1,j) = idata(dind+1,j) + res(j,i) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
-						end if
-					end do
+					!$omp atomic
+					idata(dind+1,j) = idata(dind+1,j) + v(j)
 				end do
 			end if
 			! Advance to next cell
-- 
2.43.0


From 71bf896eed434e7166b14afeabf340b747e48ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:20 +0000
Subject: [PATCH 13/62] fix: spline_filter did not support the documented
 reflect border

---
 pixell/interpol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index d6aaaf9..21e11d8 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -107,7 +107,7 @@ def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
 	to turn off the internal filtering."""
 	data = np.array(data)
 	core = get_core(data.dtype)
-	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3}[border]
+	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3, "reflect":3}[border]
 	if ndim is None: ndim = data.ndim
 	for axis in range(data.ndim-ndim,data.ndim)[::-1 if trans else 1]:
 		core.spline_filter1d(data.reshape(-1), data.shape, axis, order, iborder, trans)
-- 
2.43.0


From ff84cf4982efe5526cef69d21ca2dc8d9099b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:36 +0000
Subject: [PATCH 14/62] fix: very bright pixels overflowed to black in direct
 colorization

---
 fortran/colorize.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/colorize.f90 b/fortran/colorize.f90
index e0f9b29..c534373 100644
--- a/fortran/colorize.f90
+++ b/fortran/colorize.f90
@@ -43,7 +43,7 @@ subroutine direct(a, res)
 		if(v .ne. v) then
 			res(:,i) = 0
 		else
-			res(1:size(a,2),i)  = min(max(0,nint(a(i,:)*256)),255)
+			res(1:size(a,2),i)  = nint(min(max(0d0,a(i,:)*256),255d0))
 			res(size(a,2)+1:,i) = 255
 		end if
 	end do
@@ -79,7 +79,7 @@ subroutine direct_colorcap(a, res)
 			res(1:3,i)  = min(max(0,nint(color*256)),255)
 			! Alpha channel handled separately. We copy it from a if available,
 			! otherwise set it to 255
-			res(4:nc,i) = min(max(0,nint(a(i,4:nc)*256)),255)
+			res(4:nc,i) = nint(min(max(0d0,a(i,4:nc)*256),255d0))
 			res(nc+1:4,i) = 255
 		end if
 	end do
-- 
2.43.0


From 1ba4966d513f91f69e22c1315ade0405f5399684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:32 +0000
Subject: [PATCH 15/62] fix: extending a tiled map failed or did nothing when
 the number of tiles differed

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index b126e64..2644d54 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -116,7 +116,7 @@ class TileMap(np.ndarray):
 		should be considerably faster."""
 		try: active = other.geometry.active
 		except AttributeError: active = _parse_active(other, self.ntile)
-		if np.all(active == self.geometry.active):
+		if np.array_equal(active, self.geometry.active):
 			return self.copy()
 		# Construct the new geometry
 		if strict: new_geom = self.geometry.copy(active    =active)
-- 
2.43.0


From ed1019cda78c0784f45988b2a29326ce2f9d4b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:52 +0000
Subject: [PATCH 16/62] fix: redistributing a tiled map mixed up tiles when the
 tasks did not list them in the same order

---
 pixell/tilemap.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 2644d54..90bf7c8 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -457,11 +457,15 @@ def redistribute(imap, comm, active=None, omap=None):
 	osizes    = omap.geometry.npixs[omap.active] * np.prod(omap.pre).astype(int)
 	ioffs     = utils.cumsum(isizes)
 	ooffs     = utils.cumsum(osizes)
+	# The sender and receiver must agree on the order the tiles are transferred in, even though
+	# they may store them in different orders. So transfer in order of global tile index
+	iorder    = np.argsort(imap.active)
+	oorder    = np.argsort(omap.active)
 	# 4. Build our alltoallv send info
 	iflat     = np.ascontiguousarray(imap.T).reshape(-1)
 	send_sizes= np.sum(omask*isizes,1)
 	send_offs = utils.cumsum(send_sizes)
-	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for rank, iact in np.argwhere(omask)]
+	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for mask in omask for iact in iorder[mask[iorder]]]
 	send_buf  = np.concatenate(send_buf, dtype=iflat.dtype) if len(send_buf) > 0 else np.zeros(0, iflat.dtype)
 	# 5. Build the alltoallv receive info
 	recv_sizes= np.sum(imask*osizes,1)
@@ -473,9 +477,10 @@ def redistribute(imap, comm, active=None, omap=None):
 	# 7. Copy and reduce into flattened output tiles
 	oflat     = np.zeros(omap.size, omap.dtype)
 	rbuf_off  = 0
-	for rank, oact in np.argwhere(imask):
-		oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] += recv_buf[rbuf_off:rbuf_off+osizes[oact]]
-		rbuf_off += osizes[oact]
+	for mask in imask:
+		for oact in oorder[mask[oorder]]:
+			oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] += recv_buf[rbuf_off:rbuf_off+osizes[oact]]
+			rbuf_off += osizes[oact]
 	del recv_buf
 	# 8. And move data into our actual output map
 	omap[:] = oflat.reshape(omap.shape[::-1]).T
-- 
2.43.0


From f0295e2dd608f83a1bb30b5bfdf483cc0d77282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 17/62] fix: communication helpers scrambled arrays that were
 not in C order

---
 pixell/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a647e0a..1487f25 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1385,13 +1385,15 @@ def pole_wrap(pos):
 def allreduce(a, comm, op=None):
 	"""Convenience wrapper for Allreduce that returns the result
 	rather than needing an output argument."""
-	a   = np.asanyarray(a)
+	# MPI works in memory order, so all tasks must use the same one
+	a   = np.asanyarray(a, order="C")
 	res = np.zeros_like(a)
 	if op is None: comm.Allreduce(a, res)
 	else:          comm.Allreduce(a, res, op)
 	return res
 
 def reduce(a, comm, root=0, op=None):
+	a   = np.asanyarray(a, order="C")
 	res = np.zeros_like(a) if comm.rank == root else None
 	if op is None: comm.Reduce(a, res, root=root)
 	else:          comm.Reduce(a, res, op, root=root)
@@ -1400,7 +1402,7 @@ def reduce(a, comm, root=0, op=None):
 def allgather(a, comm):
 	"""Convenience wrapper for Allgather that returns the result
 	rather than needing an output argument."""
-	a   = np.asarray(a)
+	a   = np.asarray(a, order="C")
 	res = np.zeros((comm.size,)+a.shape,dtype=a.dtype)
 	if np.issubdtype(a.dtype, np.bytes_):
 		comm.Allgather(a.view(dtype=np.uint8), res.view(dtype=np.uint8))
@@ -1435,6 +1437,8 @@ def allgatherv(a, comm, axis=0):
 	if must_fix:
 		fa = fa.view(dtype=np.uint8)
 	#print(comm.rank, "fa.shape", fa.shape)
+	# MPI works in memory order, so must undo the effect of moveaxis
+	fa = np.asarray(fa, order="C")
 	ra = fa.reshape(fa.shape[0],-1) if fa.size > 0 else fa.reshape(0,np.prod(fa.shape[1:],dtype=int))
 	N  = ra.shape[1]
 	# Number of elements each task has
@@ -1452,7 +1456,7 @@ def allgatherv(a, comm, axis=0):
 def send(a, comm, dest=0, tag=0):
 	"""Faster version of comm.send for numpy arrays.
 	Avoids slow pickling. Used with recv below."""
-	a = np.asanyarray(a)
+	a = np.asanyarray(a, order="C")
 	comm.send((a.shape,a.dtype), dest=dest, tag=tag)
 	comm.Send(a, dest=dest, tag=tag)
 
-- 
2.43.0


From a4da35d7876086785b3bece86bd96dd20ed177ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 18/62] fix: FakeCommunicator did not support Allgatherv and
 Reduce

---
 pixell/mpiutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/mpiutils.py b/pixell/mpiutils.py
index 5d28516..ffa7857 100644
--- a/pixell/mpiutils.py
+++ b/pixell/mpiutils.py
@@ -9,9 +9,11 @@ class FakeCommunicator:
         self.rank = 0
     def Allreduce(self, sendbuf, recvbuf, op=lambda a,b:a+b):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
+    def Reduce(self, sendbuf, recvbuf, op=lambda a,b:a+b, root=0):
+        _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Allgather(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[0] = _unbuf(sendbuf)
-    def Allgatherv(self, sendbuf, redvbuf):
+    def Allgatherv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Alltoallv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
-- 
2.43.0


From d2357e186579d1ec6a4703d00f3b26eb29cd1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:18 +0000
Subject: [PATCH 19/62] fix: slice box intersection used an attribute that no
 longer exists in numpy

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1487f25..902b1dc 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1582,7 +1582,7 @@ def sbox_intersect(a,b,wrap=0):
 	ndim = a.shape[-2]
 	wrap = np.zeros(ndim,int)+wrap
 	# Loop over all combinations
-	res = np.empty((fa.shape[0],fb.shape[0]),dtype=np.object)
+	res = np.empty((fa.shape[0],fb.shape[0]),dtype=object)
 	for ai, a1 in enumerate(fa):
 		for bi, b1 in enumerate(fb):
 			peraxis = [sbox_intersect_1d(a1[d],b1[d],wrap=wrap[d]) for d in range(ndim)]
-- 
2.43.0


From a92a7db9a576401cd122b044cd2050fb601fb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:16 +0000
Subject: [PATCH 20/62] fix: redistribute mixed up slices when tasks had
 several of them, and did not support wrapping

---
 pixell/utils.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 902b1dc..8e4f8fd 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1528,7 +1528,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	for i1 in range(rboxes.shape[0]):
 		count = 0
 		for i2 in range(rboxes.shape[1]):
-			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2])
+			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2], wrap=wrap)
 			for box in rboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 		nrecv[nimap[i1]] += count*presize
@@ -1538,15 +1538,14 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	nsend   = np.zeros(len(noarrs), int)
 	sendbuf = []
 	all_oboxes = allgatherv(oboxes, comm)
-	sboxes     = sbox_intersect(all_oboxes, iboxes, wrap=wrap)
-	for i1 in range(sboxes.shape[0]):
-		count = 0
-		for i2 in range(sboxes.shape[1]):
-			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2])
-			for box in sboxes[i1,i2]:
-				count += np.prod(sbox_size(box))
-				sendbuf.append(iarrs[i2][sbox2slice(box)].reshape(-1))
-		nsend[nomap[i1]] += count*presize
+	sboxes     = sbox_intersect(iboxes, all_oboxes, wrap=wrap)
+	# The data for each task must be in the order it expects to receive it in
+	for rank in range(len(noarrs)):
+		for i1 in range(sboxes.shape[0]):
+			for i2 in [i for i,r in enumerate(nomap) if r == rank]:
+				for box in safe_div(sboxes[i1,i2], iboxes[i1], wrap=wrap):
+					nsend[rank] += np.prod(sbox_size(box))*presize
+					sendbuf.append(iarrs[i1][sbox2slice(box)].reshape(-1))
 	sendbuf = np.concatenate(sendbuf) if len(sendbuf) > 0 else np.zeros(0,dtype)
 
 	# Perform the actual all-to-all send
@@ -1641,7 +1640,7 @@ def sbox_div(a,b,wrap=0):
 	start = (a[...,0]-b[...,0])//b[...,2]
 	end   = start + step*num
 	res   = np.stack([start,end,step],-1)
-	if wrap:
+	if np.any(wrap):
 		wrap  = np.asarray(wrap,int)[...,None]
 		swrap = wrap.copy()
 		swrap[wrap==0] = 1
-- 
2.43.0


From cddc13650f1860bcd91f558093a80b726334339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:37 +0000
Subject: [PATCH 21/62] fix: read_map_geometry failed for hdf maps

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c3767b7..04284d5 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2911,7 +2911,7 @@ def read_hdf_geometry(fname, address=None):
 		hwcs = hfile["wcs"]
 		header = astropy.io.fits.Header()
 		for key in hwcs:
-			header[key] = hwcs[key][()]
+			header[key] = fix_python3(hwcs[key][()])
 		wcs   = wcsutils.WCS(header).sub(2)
 		shape = hfile["data"].shape
 	return shape, wcs
-- 
2.43.0


From daf54c9bd9941bbd3d9ad8a5921b9060e3c4ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:37 +0000
Subject: [PATCH 22/62] fix: reading the geometry of a fits map silently
 ignored headers past the first block and incomplete headers

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 04284d5..921373c 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2802,10 +2802,10 @@ def read_fits_header(fname, hdu=None, quick=True):
 		# Read header only, without body
 		if isinstance(fname, str):
 			with open(fname, "rb") as ifile:
-				header = astropy.io.fits.Header.fromstring(ifile.read(2880))
+				header = astropy.io.fits.Header.fromfile(ifile)
 		else:
 			# Handle the case where the user already has a file object
-			header = astropy.io.fits.Header.fromstring(fname.read(2880))
+			header = astropy.io.fits.Header.fromfile(fname)
 	else:
 		with utils.nowarn():
 			header = astropy.io.fits.open(fname)[hdu].header
-- 
2.43.0


From c1d4760fb0c5f4bcb0b22f76c42408000840112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:37 +0000
Subject: [PATCH 23/62] fix: read_map_dtype reported the wrong type for
 unsigned fits maps

---
 pixell/enmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 921373c..281877c 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2828,7 +2828,11 @@ def read_fits_dtype(fname, hdu=None, quick=True):
 	header = read_fits_header(fname, hdu=hdu, quick=quick)
 	if "BITPIX" not in header: raise KeyError("BITPIX not defined in fits file")
 	bitpix = header["BITPIX"]
-	table  = {-32:np.float32, -64:np.float64, 8:np.int8, 16:np.int16, 32:np.int32, 64:np.int64}
+	table  = {-32:np.float32, -64:np.float64, 8:np.uint8, 16:np.int16, 32:np.int32, 64:np.int64}
+	# The integer types fits does not support directly are stored with an offset
+	bzero  = header["BZERO"] if "BZERO" in header else 0
+	if   bitpix == 8 and bzero == -128: return np.int8
+	elif bitpix >  8 and bzero == 2**(bitpix-1): return {16:np.uint16, 32:np.uint32, 64:np.uint64}[bitpix]
 	if bitpix not in table: raise ValueError("Unrecognized BITPIX %d" % bitpix)
 	return table[bitpix]
 
-- 
2.43.0


From 3c7091ece95d424ea6cde4a48f2de62f1e21e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:40 +0000
Subject: [PATCH 24/62] fix: reading a fits map byte-swapped its first pixel or
 repeatedly read regions in the file buffer itself

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 281877c..f1da853 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3015,7 +3015,7 @@ class ndmap_proxy_fits(ndmap_proxy):
 				if ind >= 0 and ind < self.shape[i]:
 					signs[(slice(None),)*i + (ind,)] *= -1
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-2,2])
-			res *= signs[sel1][...,None,None]
+			res = res*signs[sel1][...,None,None].astype(res.dtype)
 		return ndmap(fix_endian(res), wcs)
 	def __repr__(self): return "ndmap_proxy_fits(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (str(self.fname), str(self.shape), str(self.wcs), str(self.dtype))
 
@@ -3039,7 +3039,7 @@ def fix_endian(map):
 	"""Make endianness of array map match the current machine.
 	Returns the result."""
 	if map.dtype.byteorder not in ['=','<' if sys.byteorder == 'little' else '>']:
-		map = map.byteswap(True).view(map.dtype.newbyteorder())
+		map = map.byteswap().view(map.dtype.newbyteorder())
 	map.dtype = utils.fix_dtype_mpi4py(map.dtype)
 	return map
 
-- 
2.43.0


From 70c7a99876c5711f3d631379f86a82b94c5b40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:48 +0000
Subject: [PATCH 25/62] fix: read_map ignored the mode argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index f1da853..2ba17fb 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2944,7 +2944,7 @@ def read_helper(data, sel=None, box=None, pixbox=None, geometry=None, wrap="auto
 	"""Helper function for map reading. Handles the slicing, sky-wrapping and capping, etc."""
 	if delayed: return data # Slicing not supported yet when we want to return a proxy object
 	if geometry is not None: data = extract(data, *geometry, wrap=wrap)
-	if box      is not None: data = submap(data, box, wrap=wrap, recenter=recenter)
+	if box      is not None: data = submap(data, box, mode=mode, wrap=wrap, recenter=recenter)
 	if pixbox   is not None: data = extract_pixbox(data, pixbox, wrap=wrap, recenter=recenter)
 	if sel      is not None: data = data[sel]
 	data = data[:] # Get rid of the wrapper if it still remains
-- 
2.43.0


From 2460d6b2f7b70c56dce2409f0fb0e9d37ad75818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:06 +0000
Subject: [PATCH 26/62] fix: submap with a box running against the map axes was
 off by one pixel

---
 pixell/enmap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 2ba17fb..86a6cfa 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -245,6 +245,9 @@ def subinds(shape, wcs, box, mode=None, cap=True, noflip=False, epsilon=1e-4):
 	if noflip:
 		for b in bpix.T:
 			if b[2] < 0: b[:] = [b[1],b[0],-b[2]]
+	# Do the rounding with the bounds in increasing order
+	back = bpix[2] < 0
+	bpix[:2,back] = bpix[1::-1,back]
 	if   mode == "round": bpix = np.round(bpix)
 	elif mode == "floor": bpix = np.floor(bpix)
 	elif mode == "ceil":  bpix = np.ceil(bpix)
@@ -254,6 +257,8 @@ def subinds(shape, wcs, box, mode=None, cap=True, noflip=False, epsilon=1e-4):
 	bpix = np.array(bpix, int)
 	# A pixel goes from [i1-0.5:i2+0.5] with round(+eps) this becomes [i1:i2+1]
 	# We therefore don't need to add 1 to get a proper slice
+	# The backwards version of the slice [i1:i2:1] is [i2-1:i1-1:-1]
+	bpix[:2,back] = bpix[1::-1,back]-1
 	if cap:
 		# Make sure we stay inside our map bounds
 		for b, n in zip(bpix.T,shape[-2:]):
-- 
2.43.0


From 3906ef33aa65ea789f9b89d1207070968849d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:07 +0000
Subject: [PATCH 27/62] fix: wrapped slice boxes with a stride hit the wrong
 pixels, and modified the caller's box

---
 pixell/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 8e4f8fd..2e69376 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1731,7 +1731,7 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 	# This function was surprisingly complicated. If I had known it would be
 	# this long I would have built it from the sbox-stuff above. But at least
 	# this one should have lower overhead than that would have had.
-	sbox = sbox_fix(sbox)
+	sbox = sbox_fix(np.array(sbox)) # copy, since we will modify it below
 	ndim = sbox.shape[0]
 	wrap = np.zeros(ndim,int)+wrap
 	cap  = np.zeros(ndim,int)+cap
@@ -1750,7 +1750,7 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			boxes_1d = []
 			i = 0
 			while ibox[1] > 0:
-				npre = max((-ibox[0])//ibox[2],0)
+				npre = max(-(ibox[0]//ibox[2]),0)
 				# ibox slice assuming all of the logical ibox is available
 				isub = sbox_fix([ibox[0]+npre*ibox[2],min(ibox[1],w),ibox[2]])
 				nsub = sbox_size(isub)
@@ -1771,8 +1771,8 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			# upwards and downwards capping. Find the number of samples to
 			# crop on each side
 			if c:
-				npre  = max((-ibox[0])//ibox[2],0)
-				npost = max((ibox[1]-ibox[2]-(c-1))//ibox[2],0)
+				npre  = max(-(ibox[0]//ibox[2]),0)
+				npost = max(-((c-1-(ibox[1]-ibox[2]))//ibox[2]),0)
 			else: npre, npost = 0, 0
 			# Don't produce a slice if it would be empty
 			if npre + npost < ilen:
-- 
2.43.0


From 7a45c6ac98c978a87683df24a42ac5b18fb55008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:46 +0000
Subject: [PATCH 28/62] fix: nemo catalogs with a single source could not be
 read

---
 pixell/pointsrcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 9a44b4c..f99cb4f 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -509,10 +509,10 @@ def read(fname, format="auto"):
 def read_nemo(fname):
 	"""Reads the nemo ascii catalog format, and returns it as a recarray."""
 	idtype = [("name","2S64"),("ra","d"),("dec","d"),("snr","d"),("npix","i"),("detfrac","d"),("template","S32"),("glat","d"),("I","d"), ("dI","d")]
-	try: icat = np.loadtxt(fname, dtype=idtype)
+	try: icat = np.loadtxt(fname, dtype=idtype, ndmin=1)
 	except (ValueError, IndexError) as e:
 		idtype = [("name","2S64"),("ra","d"),("dec","d"),("snr","d"),("npix","i"),("template","S32"),("glat","d"),("I","d"), ("dI","d")]
-		try: icat = np.loadtxt(fname, dtype=idtype)
+		try: icat = np.loadtxt(fname, dtype=idtype, ndmin=1)
 		except (ValueError, IndexError) as e:
 			raise IOError(e.args[0])
 	odtype = [("name","S64"),("ra","d"),("dec","d"),("snr","d"),("I","d"),("dI","d"),("npix","i"),("template","S32"),("glat","d")]
-- 
2.43.0


From 594d0a086e1878f8677dd5f62a752d01c58f4e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:59 +0000
Subject: [PATCH 29/62] fix: an interrupted or failed CG.save destroyed the
 previous checkpoint

---
 pixell/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 2e69376..7d5b39d 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3359,9 +3359,13 @@ class CG:
 		"""Save the volatile internal parameters to hdf file fname. Useful
 		for later restoring cg iteration"""
 		import h5py
-		with h5py.File(fname, "w") as hfile:
+		# Go via a temporary file, so that an existing checkpoint isn't lost if we're
+		# interrupted or the disk is full
+		tmpname = os.fspath(fname) + ".tmp" if isinstance(fname, (str,os.PathLike)) else fname
+		with h5py.File(tmpname, "w") as hfile:
 			for key in ["i","rz","rz0","x","r","p","err"]:
 				hfile[key] = getattr(self, key)
+		if tmpname is not fname: os.replace(tmpname, fname)
 	def load(self, fname):
 		"""Load the volatile internal parameters from the hdf file fname.
 		Useful for restoring a saved cg state, after first initializing the
-- 
2.43.0


From 1c69ba5e13010a5b6656129dfd6bd8f2a9fab773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:59 +0000
Subject: [PATCH 30/62] fix: CG.load lost the type of maps and numbers, and
 half-changed the solver when failing

---
 pixell/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 7d5b39d..aede656 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3372,8 +3372,17 @@ class CG:
 		object normally."""
 		import h5py
 		with h5py.File(fname, "r") as hfile:
-			for key in ["i","rz","rz0","x","r","p","err"]:
-				setattr(self, key, hfile[key][()])
+			vals = {key:hfile[key][()] for key in ["i","rz","rz0","x","r","p","err"]}
+		# Only change anything once everything has been read. Keep the types, since
+		# hdf does not know about ndmaps or the difference between float and np.float64
+		for key, val in vals.items():
+			old = getattr(self, key)
+			if isinstance(old, np.ndarray):
+				if old.shape != val.shape: raise ValueError("The %s in %s has shape %s, but expected %s" % (key, fname, val.shape, old.shape))
+				vals[key] = np.empty_like(old, dtype=val.dtype)
+				vals[key][...] = val
+			elif np.ndim(val) == 0: vals[key] = type(old)(val)
+		for key, val in vals.items(): setattr(self, key, val)
 
 class Minres:
 	"""A simple Minres solver. Solves the equation system Ax=b."""
-- 
2.43.0


From 82c74f2d8e57153f90c83531bd55f7dd57f70b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:28 +0000
Subject: [PATCH 31/62] fix: ArrayMultipool.size always failed

---
 pixell/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/device.py b/pixell/device.py
index 02c63d8..ef19955 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -252,7 +252,7 @@ class ArrayMultipool:
 				self.pools[name] = self.factory(name=name)
 			pools.append(self.pools[name])
 		return pools
-	def size(self): return sum([pool.size() for name, pool in self.pools.items()])
+	def size(self): return sum([pool.size for name, pool in self.pools.items()])
 	def totsize(self): return sum([pool.totsize() for name, pool in self.pools.items()])
 	def free(self):
 		for name in self.pools:
-- 
2.43.0


From 402bed512052d2d9dde275b1c3ae05a4c7e4f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:28 +0000
Subject: [PATCH 32/62] fix: memory pools did not grow to hold all they were
 asked for, and kept allocating

---
 pixell/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/device.py b/pixell/device.py
index ef19955..5da4161 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -138,11 +138,11 @@ class Mempool:
 			self.arenas.append(self.allocator.alloc(n))
 			buf = self.arenas[-1][0:n]
 			self.pos   = effsize
-			self.size += effsize
 		else:
 			# We have room. Parsel out some more
 			buf       = self.arenas[-1][self.pos:self.pos+n]
 			self.pos += effsize
+		self.size    += effsize
 		self.capacity = max(self.capacity, self.size)
 		return buf
 	def totsize(self): return sum([arena.size for arena in self.arenas])
-- 
2.43.0


From a9f66e46d815dda3bb0b9002913558716d6e50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:28 +0000
Subject: [PATCH 33/62] fix: memory pools could not make zero-dimensional
 arrays

---
 pixell/device.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/device.py b/pixell/device.py
index 5da4161..6401d59 100644
--- a/pixell/device.py
+++ b/pixell/device.py
@@ -177,14 +177,14 @@ class ArrayPoolCpu(Mempool):
 	def array(self, arr):
 		arr  = np.asarray(arr)
 		oarr = self.empty(arr.shape, dtype=arr.dtype)
-		oarr[:] = arr
+		oarr[...] = arr
 		return oarr
 	def empty(self, shape, dtype=np.float32, reset=True):
 		if reset: self.reset()
 		return self.alloc(np.prod(shape)*np.dtype(dtype).itemsize).view(dtype).reshape(shape)
 	def full(self, shape, val, dtype=np.float32, reset=True):
 		arr = self.empty(shape, dtype=dtype, reset=reset)
-		arr[:] = val
+		arr[...] = val
 		return arr
 	def zeros(self, shape, dtype=np.float32, reset=True):
 		return self.full(shape, 0, dtype=dtype, reset=reset)
@@ -214,7 +214,7 @@ class ArrayPoolGpu(Mempool):
 		return self.alloc(np.prod(shape)*np.dtype(dtype).itemsize).view(dtype).reshape(shape)
 	def full(self, shape, val, dtype=np.float32, reset=True):
 		arr = self.empty(shape, dtype=dtype, reset=reset)
-		arr[:] = val
+		arr[...] = val
 		return arr
 	def zeros(self, shape, dtype=np.float32, reset=True):
 		return self.full(shape, 0, dtype=dtype, reset=reset)
-- 
2.43.0


From 658f2f9a5dc5222cf79d56406867374cc646c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:30 +0000
Subject: [PATCH 34/62] fix: Modulator no longer overwrites the map it is given

---
 pixell/aberration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 771aca9..b045f35 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -191,7 +191,8 @@ class Modulator:
 		if spin is None: spin = self.spin
 		if map.dtype != self.dtype:
 			warnings.warn("Modulator dtype does not match argument dtype")
-		return apply_modulation(map, self.A, spin=spin, T0=self.T0, freq=self.freq,
+		# apply_modulation works in-place, but the caller's map should not be changed
+		return apply_modulation(map.copy(), self.A, spin=spin, T0=self.T0, freq=self.freq,
 			map_unit=self.map_unit, mode=self.modulation, dipole=self.dipole)
 
 def calc_boost_1d(z, beta):
-- 
2.43.0


From 9eb6ecdc4965a9866ce36e37f863c9fa9ebcab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:08 +0000
Subject: [PATCH 35/62] fix: roll_rows no longer writes outside the map for
 offsets beyond one row

---
 pixell/array_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/array_ops.py b/pixell/array_ops.py
index 17f69d9..a230238 100644
--- a/pixell/array_ops.py
+++ b/pixell/array_ops.py
@@ -18,6 +18,8 @@ def find_contours(imap, vals, omap=None):
 
 def roll_rows(imap, offsets, omap=None):
 	if omap is None: omap = np.zeros_like(imap)
+	# The fortran implementation only handles offsets up to one row length
+	offsets = np.asarray(offsets) % max(imap.shape[-1],1)
 	# Loop over outer dimensions, since fortran implementation
 	# doesn't support those. This should be cheap
 	for I in utils.nditer(imap.shape[:-2]):
-- 
2.43.0


From 978b1f8cb962ac5561595416fa2bb4155deee3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 36/62] fix: tsz_profile_los with a cache argument uses it
 instead of clearing the shared one

---
 pixell/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index aede656..d468d76 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2411,14 +2411,13 @@ def tsz_profile_los(x, xc=0.497, alpha=1.0, beta=-4.65, gamma=-0.3, zmax=1e5, np
 	See tsz_profile_raw for the units."""
 	from scipy import interpolate
 	# Cache the fit parameters. 
-	if cache is None: global _tsz_profile_los_cache
-	else: _tsz_profile_los_cache = {}
+	if cache is None: cache = _tsz_profile_los_cache
 	key = (xc, alpha, beta, gamma, zmax, npoint, _a, x1, x2)
-	if key not in _tsz_profile_los_cache:
+	if key not in cache:
 		xp = np.linspace(np.log(x1),np.log(x2),npoint)
 		yp = np.log(tsz_profile_los_exact(np.exp(xp), xc=xc, alpha=alpha, beta=beta, gamma=gamma, zmax=zmax, _a=_a))
-		_tsz_profile_los_cache[key] = (interpolate.interp1d(xp, yp, "cubic"), x1, x2, yp[0], yp[-1], (yp[-2]-yp[-1])/(xp[-2]-xp[-1]))
-	spline, xmin, xmax, vleft, vright, slope = _tsz_profile_los_cache[key]
+		cache[key] = (interpolate.interp1d(xp, yp, "cubic"), x1, x2, yp[0], yp[-1], (yp[-2]-yp[-1])/(xp[-2]-xp[-1]))
+	spline, xmin, xmax, vleft, vright, slope = cache[key]
 	# Split into 3 cases: x<xmin, x inside and x > xmax.
 	x     = asfarray(x)
 	left  = x<xmin
-- 
2.43.0


From ace37d0dcf961f5c9f09d2bee2b111645d88826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:59 +0000
Subject: [PATCH 37/62] fix: lensing.rand_alm with phi_seed left the m=0
 coefficient at lmax complex and with half the variance

---
 pixell/lensing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 9145a85..fc940f8 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -259,8 +259,8 @@ def rand_alm(ps_lensinput, lmax=None, dtype=np.float64, seed=None, phi_seed=None
 		curvedsky.rand_alm_white(ainfo, alm=alm[1:], seed=seed)
 		ps12 = enmap.multi_pow(wps, 0.5)
 		ainfo.lmul(alm, (ps12/2**0.5).astype(dtype), alm)
-		alm[:,:ainfo.lmax].imag  = 0
-		alm[:,:ainfo.lmax].real *= 2**0.5
+		alm[:,:ainfo.lmax+1].imag  = 0
+		alm[:,:ainfo.lmax+1].real *= 2**0.5
 		del wps, ps12
 		
 	# Return phi_alm and cmb_alm
-- 
2.43.0


From 99a9dfb763cda9112fcca0b396000e529f88234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:14 +0000
Subject: [PATCH 38/62] fix: padtiles counted the overlap of the first and last
 column twice when writing to maps that go around the sky

---
 pixell/enmap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 86a6cfa..9c66b1c 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3349,6 +3349,9 @@ class Padtiler:
 		nty, ntx = (np.array(map.shape[-2:],int)+self.tshape-1)//self.tshape
 		growy, growx = np.array(self.pad) + self.margin
 		oly, olx = 2*np.array(self.pad) # overlap region size
+		# The first and last column overlap too if the map goes all the way around the sky
+		nphi = 0 if wcsutils.is_plain(map.wcs) else utils.nint(360/np.abs(map.wcs.wcs.cdelt[0]))
+		around = map.shape[-1] == nphi and map.shape[-1] % self.tshape[-1] == 0
 		for ti in range(self.start, nty*ntx, self.step):
 			ty = ti // ntx
 			tx = ti %  ntx
@@ -3369,8 +3372,8 @@ class Padtiler:
 				tile = tile[...,self.margin[-2]:tile.shape[-2]-self.margin[-2],self.margin[-1]:tile.shape[-1]-self.margin[-1]]
 				# Apply crossfade weights
 				if ty > 0: tile[...,:oly,:] *= self.wy[:,None]
-				if tx > 0: tile[...,:,:olx] *= self.wx[None,:]
+				if tx > 0 or around: tile[...,:,:olx] *= self.wx[None,:]
 				if ty < nty-1: tile[...,tile.shape[-2]-oly:,:] *= self.wy[::-1,None]
-				if tx < ntx-1: tile[...,:,tile.shape[-1]-olx:] *= self.wx[None,::-1]
+				if tx < ntx-1 or around: tile[...,:,tile.shape[-1]-olx:] *= self.wx[None,::-1]
 				# And add into output map
 				map.insert(tile, op=lambda a,b:a+b)
-- 
2.43.0


From 106fd7352d8d008f93fdd22402dadb64936adb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:25 +0000
Subject: [PATCH 39/62] fix: reproject used the warnings module without
 importing it, so ivar_hp_to_cyl and others raised NameError

---
 pixell/reproject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 577ec0d..ae2bcfb 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -1,5 +1,5 @@
 from __future__ import print_function
-import numpy as np
+import numpy as np, warnings
 from scipy import spatial
 from . import wcsutils, utils, enmap, coordinates, fft, curvedsky
 
-- 
2.43.0


From c949c6080a4b1a0a0fe94937a99ce72e4f716626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:35 +0000
Subject: [PATCH 40/62] fix: lensing offsets next to a pole were nan from
 rounding errors

---
 pixell/lensing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index fc940f8..a7a2283 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -339,9 +339,10 @@ def offset_by_grad_helper(ipos, grad, pol):
 	# trigonometry
 	cosd, sind = np.cos(d), np.sin(d)
 	cost, sint = np.cos(ipos[0]), np.sin(ipos[0])
-	ocost  = cosd*cost-sind*sint*grad[0]
-	osint  = (1-ocost**2)**0.5
-	ophi   = ipos[1] + np.arcsin(sind*grad[1]/osint)
+	# Rounding errors can bring these slightly outside [-1,1] near the poles
+	ocost  = np.clip(cosd*cost-sind*sint*grad[0],-1,1)
+	osint  = np.maximum((1-ocost**2)**0.5,1e-30)
+	ophi   = ipos[1] + np.arcsin(np.clip(sind*grad[1]/osint,-1,1))
 	if not pol:
 		return np.array([np.arccos(ocost), ophi]), None
 	# Compute the induced polarization rotation.
-- 
2.43.0


From d7da80097399a8ed52a40888ed972e812889bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:55 +0000
Subject: [PATCH 41/62] fix: fix_wcs shifted the sky coordinates of maps whose
 reference point is not at zero

---
 pixell/wcsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index c4325d4..236c3bc 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -618,7 +618,7 @@ def fix_wcs(wcs, axis=0, n=None):
 	dra   = mid-wcs.wcs.crval[axis]
 	dpix  = dra/wcs.wcs.cdelt[axis]
 	res = wcs.deepcopy()
-	res.wcs.crval[axis] += mid
+	res.wcs.crval[axis] += dra
 	res.wcs.crpix[axis] += dpix
 	# I don't think this is necessary any more, but apparently I had
 	# problems with wcs not being properly updated if I didn't do this
-- 
2.43.0


From 32144e8a64b86712da8f4133bd56a535a8754485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:55 +0000
Subject: [PATCH 42/62] fix: plotting with fix_wcs changed the coordinate
 system of the caller's map

---
 pixell/enplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index df2d04d..e3e370a 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -373,6 +373,8 @@ def get_map(ifile, args, return_info=False, name=None):
 		except AttributeError: m0 = enmap.enmap(m0[:], copy=False)
 		# Optionally fix the wcs to avoid crpix being too far away
 		if args.fix_wcs:
+			# Don't modify the caller's map
+			if not isinstance(ifile, basestring): m0 = m0[...]
 			m0.wcs = wcsutils.fix_wcs(m0.wcs)
 		# Save the original map, so we can compare its wcs later
 		m  = m0
-- 
2.43.0


From 745672bc3cd1f0bd09268189e0a5867f3ff0c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:55 +0000
Subject: [PATCH 43/62] fix: rgb plots after the first used the color ranges of
 the wrong components

---
 pixell/enplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index e3e370a..be17a7c 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -187,7 +187,7 @@ def plot_iterator(*arglist, **kwargs):
 				yield bunch.Bunch(img=figure, name=oname, type="mpl", dpi=args.mpl_dpi, printer=subprint, **oinfo)
 			# Progress report
 			printer.write("\r%s %5d/%d" % (iname, i+1,ncomp), 2, exact=True, newline=False)
-			crange_ind += 1
+			crange_ind += ngroup
 		printer.write("",    2, exact=True)
 		printer.write(iname, 1, exact=True)
 
-- 
2.43.0


From 00b7cbf8ca07e41a01fd7b4574f6d80743d0b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:55 +0000
Subject: [PATCH 44/62] fix: plots with evenly spaced contours failed

---
 pixell/enplot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index be17a7c..d287697 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -721,15 +721,17 @@ def calc_contours(crange, args):
 	"""
 	if args.contours is None: return None
 	def setup_uniform(vals):
+		# Crange can be given per component. Contours are drawn for the first one
+		c1, c2 = np.reshape(crange,(2,-1))[:,0]
 		if len(vals) == 1:
 			base, step = 0, vals[0]
 		else:
 			base, step = vals[:2]
 		if step < 0:
-			step = (crange[1]-crange[0])/(-step)
+			step = (c2-c1)/(-step)
 		# expand to fill crange
-		a = int(np.ceil ((crange[0]-base)/step))
-		b = int(np.floor((crange[1]-base)/step))+1
+		a = int(np.ceil ((c1-base)/step))
+		b = int(np.floor((c2-base)/step))+1
 		return np.arange(a,b)*step + base
 	# The input can either be a string or a list of numbers.
 	# If it's a string, then it's interpreted based on whether
-- 
2.43.0


From e237f014841f5c9bef8e5f5a77572fe680811aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:55 +0000
Subject: [PATCH 45/62] fix: the -g plot option did not toggle the grid

---
 pixell/enplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index d287697..f86e1e9 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -110,6 +110,8 @@ def plot_iterator(*arglist, **kwargs):
 		if isinstance(arg, basestring):
 			parsed = parse_args(arg, noglob=noglob, nodef=True)
 			imaps += parsed.ifiles
+			# Each -g toggles the grid, relative to what it was before
+			if "grid" in parsed: parsed.grid += args.grid
 			args.update(parsed)
 		else:
 			imaps.append(arg)
-- 
2.43.0


From 9294a71def3f45b9548f128af79b3cfe7847c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:55 +0000
Subject: [PATCH 46/62] fix: annotating with a small rectangle failed

---
 pixell/enplot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index f86e1e9..480ee71 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -828,7 +828,8 @@ def draw_annotations(map, annots, args):
 			else:
 				if x2 < x1: x1,x2 = x2,x1
 				if y2 < y1: y1,y2 = y2,y1
-				for i in range(width):
+				# Rectangles that are thinner than their border are completely filled by it
+				for i in range(int(min(width, (x2-x1)//2+1, (y2-y1)//2+1))):
 					draw.rectangle((x1+i,y1+i,x2-i,y2-i), outline=color)
 		elif atype in ["t", "text"]:
 			x,y  = topix(annot[1:5])
-- 
2.43.0


From cfecddb879ebf3276e561cc96b90f381a60cf8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:11 +0000
Subject: [PATCH 47/62] fix: find_contours failed for maps that are not
 contiguous

---
 pixell/array_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/array_ops.py b/pixell/array_ops.py
index a230238..c694b2d 100644
--- a/pixell/array_ops.py
+++ b/pixell/array_ops.py
@@ -11,6 +11,8 @@ def get_core(dtype):
 
 def find_contours(imap, vals, omap=None):
 	core = get_core(imap.dtype)
+	# The fortran implementation needs contiguous arrays
+	imap = np.asanyarray(imap, order="C")
 	if omap is None:
 		omap = imap.astype(np.int32)*0
 	core.find_contours(imap.T, vals, omap.T)
-- 
2.43.0


From 1dad20da3a692deba30a09f10360951950ac1c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:49 +0000
Subject: [PATCH 48/62] fix: interpolation of and into arrays that are not
 C-contiguous

---
 pixell/interpol.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index 21e11d8..516c241 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -63,38 +63,45 @@ def map_coordinates(idata, points, odata=None, mode="spline", order=3, border="c
 			else:
 				# When using derivatives, the output will have shape [ndim,{idims},{pdims}]
 				odata = np.empty((ndim,)+dpre+points.shape[1:],dtype=idata.dtype)
+		# The core only handles contiguous arrays
+		idata = np.asarray(idata, order="C")
+		work  = np.asarray(odata, order="C")
 		if mode == "spline" and prefilter:
 			idata = spline_filter(idata, order=order, border=border, ndim=ndim, trans=False)
 		if not deriv:
 			core.interpol(
 				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
-				odata.reshape(iprod(dpre),iprod(points.shape[1:])).T,
+				work.reshape(iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim, -1).T,
 				imode, order, iborder, False)
 		else:
 			core.interpol_deriv(
 				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
-				odata.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
+				work.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim, -1).T,
 				imode, order, iborder, False)
+		if work is not odata: odata[...] = work
 		return odata
 	else:
 		# We cannot infer the shape of idata from odata and points. So both
 		# idata and odata must be specified in this case.
+		work  = np.asarray(idata, order="C")
+		odata = np.asarray(odata, order="C")
 		if not deriv:
 			core.interpol(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
+				work.reshape(iprod(dpre),iprod(dpost)).T, dpost,
 				odata.reshape(iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim,-1).T,
 				imode, order, iborder, True)
 		else:
 			core.interpol_deriv(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
+				work.reshape(iprod(dpre),iprod(dpost)).T, dpost,
 				odata.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim,-1).T,
 				imode, order, iborder, True)
 		if mode == "spline" and prefilter:
-			idata[:] = spline_filter(idata, order=order, border=border, ndim=ndim, trans=True)
+			work[...] = spline_filter(work, order=order, border=border, ndim=ndim, trans=True)
+		if work is not idata: idata[...] = work
 		return idata
 
 def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
@@ -105,7 +112,7 @@ def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
 	to be interpolated. This overhead can be avoided by manually filtering the array
 	once, and then passing in the filtered array to map_coordinates with prefilter=False
 	to turn off the internal filtering."""
-	data = np.array(data)
+	data = np.array(data, order="C")
 	core = get_core(data.dtype)
 	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3, "reflect":3}[border]
 	if ndim is None: ndim = data.ndim
-- 
2.43.0


From 501f929bf44c3fcd8508184a9f403535236e5624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:00 +0000
Subject: [PATCH 49/62] fix: roll_rows of maps that are not C-ordered

---
 pixell/array_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/array_ops.py b/pixell/array_ops.py
index c694b2d..434e1c7 100644
--- a/pixell/array_ops.py
+++ b/pixell/array_ops.py
@@ -19,7 +19,7 @@ def find_contours(imap, vals, omap=None):
 	return omap
 
 def roll_rows(imap, offsets, omap=None):
-	if omap is None: omap = np.zeros_like(imap)
+	if omap is None: omap = np.zeros_like(imap, order="C")
 	# The fortran implementation only handles offsets up to one row length
 	offsets = np.asarray(offsets) % max(imap.shape[-1],1)
 	# Loop over outer dimensions, since fortran implementation
-- 
2.43.0


From a5c4b32d0b709427dba8cd0e78049cc1409a2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:21 +0000
Subject: [PATCH 50/62] fix: radial_sum and radial_bin only worked for
 contiguous single precision maps

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index f99cb4f..843842c 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -158,7 +158,7 @@ def radial_sum(map, poss, bins, oprofs=None, separable="auto",
 	nobj     = len(obj_decs)
 	# map and number of components
 	pre      = map.shape[:-2]
-	map_flat = map.preflat
+	map_flat = np.asanyarray(map.preflat, dtype=dtype, order="C")
 	ncomp    = len(map_flat)
 	# bins
 	bins     = np.asarray(bins, dtype=dtype)
-- 
2.43.0


From 2e320703f5de7dd51e506925eab2d181efebdd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:52 +0000
Subject: [PATCH 51/62] fix: labeled distance transforms lost the labels of
 pixels deep inside a region

---
 pixell/enmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 9c66b1c..4fef5fc 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2114,6 +2114,7 @@ def labeled_distance_transform(labels, omap=None, odomains=None, rmax=None, meth
 		# Distance is always zero inside each labeled region
 		mask    = labels.preflat[i] != 0
 		omap.preflat[i][mask] = 0
+		odomains.preflat[i][mask] = labels.preflat[i][mask]
 	return omap, odomains
 
 def distance_from(shape, wcs, points, omap=None, odomains=None, domains=False, method="cellgrid", rmax=None, step=1024):
@@ -2217,6 +2218,7 @@ def labeled_distance_transform_healpix(labels, omap=None, odomains=None, rmax=No
 		# Distance is always zero inside each labeled region
 		mask = lflat[i] != 0
 		omap[i][mask] = 0
+		odomains[i][mask] = lflat[i][mask]
 	omap = omap.reshape(labels.shape)
 	odomains = odomains.reshape(labels.shape)
 	return omap, odomains
-- 
2.43.0


From fde9a92004b25014b8b7dfc88b7bf999e7708a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:11 +0000
Subject: [PATCH 52/62] fix: CG and Minres gave wrong results when M or A
 returned their argument or reused their output array

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index d468d76..d2de8aa 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3332,7 +3332,7 @@ class CG:
 		z = self.M(self.r)
 		self.rz  = self.dot(self.r, z)
 		self.rz0 = float(self.rz)
-		self.p   = z
+		self.p   = z.copy() # M may return its argument or reuse its output array
 		self.i   = 0
 		self.err = np.inf
 	def step(self):
@@ -3406,7 +3406,7 @@ class Minres:
 		self.rz = self.dot(self.r,z)
 		self.rz0= self.rz
 		self.p  = self.r.copy()
-		self.q  = z
+		self.q  = z.copy() # A may reuse its output array
 		self.i  = 0
 		self.err= 1
 		self.abserr = self.rz/len(self.x)
-- 
2.43.0


From 0338b5a6fb9afa8d1adc60479e25f063d41ab53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:04 +0000
Subject: [PATCH 53/62] fix: automatic catalogue format detection failed for
 fits catalogues not made by dory

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 843842c..fa6f75d 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -503,7 +503,7 @@ def read(fname, format="auto"):
 			elif f == "nemo":     return read_nemo(fname)
 			elif f == "simple":   return read_simple(fname)
 			else: raise ValueError("Unrecognized point source format '%s' for file '%s'" % (f, fname))
-		except (ValueError, IOError, OSError) as e: pass
+		except (ValueError, IOError, OSError, AttributeError) as e: pass
 	raise IOError("Unable to read point source file '%s' with format '%s'" % (fname, f))
 
 def read_nemo(fname):
-- 
2.43.0


From 3ee40bea7a913d7ad37c73f654167ce1e32d9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:04 +0000
Subject: [PATCH 54/62] fix: a read error made automatic catalogue format
 detection read the file in another format

---
 pixell/pointsrcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index fa6f75d..3660e22 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -503,7 +503,9 @@ def read(fname, format="auto"):
 			elif f == "nemo":     return read_nemo(fname)
 			elif f == "simple":   return read_simple(fname)
 			else: raise ValueError("Unrecognized point source format '%s' for file '%s'" % (f, fname))
-		except (ValueError, IOError, OSError, AttributeError) as e: pass
+		except (ValueError, IOError, OSError, AttributeError) as e:
+			# A failing disk does not mean that the format is wrong
+			if getattr(e, "errno", None) is not None: raise
 	raise IOError("Unable to read point source file '%s' with format '%s'" % (fname, f))
 
 def read_nemo(fname):
-- 
2.43.0


From f690350ddbd1eb5679654661d133496ee9c2f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:04 +0000
Subject: [PATCH 55/62] fix: reading spectra with a single multipole

---
 pixell/powspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index b9d80d9..4f960ca 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -141,7 +141,7 @@ def read_spectrum(fname, inds=True, scale=True, expand="diag", ncol=None, ncomp=
 	valid expansion schemes from compressed_order, and will
 	cause the returned array to be cl[ncomp,ncomp,lmax+1]
 	instead."""
-	a = np.atleast_2d(np.loadtxt(fname).T)
+	a = np.loadtxt(fname, ndmin=2).T
 	if inds: a = expand_inds(np.array(a[0],dtype=int), a[1:])
 	if scale: a = scale_spectrum(a, 1)
 	if ncol: a = a[:ncol]
-- 
2.43.0


From 2f849c861e680dfbe804281bee1970c084504f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:03 +0000
Subject: [PATCH 56/62] fix: read_camb_scalar without expand failed

---
 pixell/powspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index 4f960ca..e314b2c 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -158,7 +158,7 @@ def read_camb_scalar(fname, inds=True, scale=True, expand=True, ncmb=3):
 	"""Read the information in the camb scalar outputs. This contains
 	the cmb and lensing power spectra, but not their correlation. They
 	are therefore returned as two separate arrays."""
-	if expand: expand = "diag"
+	expand = "diag" if expand else None
 	ps_cmb  = read_spectrum(fname, inds=inds, scale=scale, expand=expand, ncol=ncmb, ncomp=3)
 	ps_lens = read_phi_spectrum(fname, inds=inds, scale=scale, expand=expand, coloff=ncmb)
 	return ps_cmb, ps_lens
-- 
2.43.0


From d4e6a636dca9e834a692058da47805dcad365409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:31 +0000
Subject: [PATCH 57/62] fix: regularize_beam with normalize modified its
 argument

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index d2de8aa..5071b00 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1056,7 +1056,7 @@ def regularize_beam(beam, cutoff=1e-2, nl=None, normalize=False):
 	that the ratio of any pair of such regularized beams is
 	constant in the extrapolated region."""
 	beam  = np.asarray(beam)
-	if normalize: beam /= np.max(beam)
+	if normalize: beam = beam/np.max(beam)
 	# Get the length of the output beam, and the l to which both exist
 	if nl is None: nl = beam.shape[-1]
 	nl_both = min(nl, beam.shape[-1])
-- 
2.43.0


From c8308025e4b84a216e4db519add8aa517161686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:31 +0000
Subject: [PATCH 58/62] fix: unwrap_range modified its argument

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 5071b00..a5e1579 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1351,7 +1351,7 @@ def unwrap_range(range, nwrap=2*np.pi):
 	doesn't assume that ranges are shorter than half the
 	sky. But it still shortens ranges that are longer than
 	a whole wrapping period."""
-	range = np.asanyarray(range)
+	range = np.array(range, subok=True)
 	range[1] -= np.floor((range[1]-range[0])/nwrap)*nwrap
 	range    -= np.floor(range[1,None]/nwrap)*nwrap
 	return range
-- 
2.43.0


From 65f03f39aad1df48a4b3b95b704cbf0d4187796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:06 +0000
Subject: [PATCH 59/62] fix: honour the requested region when reading npy maps

read_map("x.npy", sel=...) and the box, pixbox and geometry arguments
were silently ignored and the whole map was returned.
---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 4fef5fc..a544a6a 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2937,7 +2937,7 @@ def read_hdf_dtype(fname, address=None):
 def read_npy(fname, hdu=None, sel=None, box=None, pixbox=None, geometry=None, wrap="auto", mode=None, sel_threshold=10e6, wcs=None, delayed=False, address=None, recenter=False):
 	"""Read an enmap from the specified npy file. Only minimal support.
 	No wcs information."""
-	return enmap(np.load(fname), wcs)
+	return read_helper(enmap(np.load(fname), wcs), sel=sel, box=box, pixbox=pixbox, geometry=geometry, wrap=wrap, mode=mode, delayed=delayed, recenter=recenter)
 
 def fix_python3(s):
 	"""Convert "bytes" to string in python3, while leaving other types unmolested.
-- 
2.43.0


From 242102964b2da3478733994e130eca8de2a230d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:00 +0000
Subject: [PATCH 60/62] fix: tilemap.redistribute with an output map of another
 data type

The tiles were sent in the type of the input map but received as the type
of the output map, giving garbage (or an mpi error).
---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 90bf7c8..bceec67 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -462,7 +462,7 @@ def redistribute(imap, comm, active=None, omap=None):
 	iorder    = np.argsort(imap.active)
 	oorder    = np.argsort(omap.active)
 	# 4. Build our alltoallv send info
-	iflat     = np.ascontiguousarray(imap.T).reshape(-1)
+	iflat     = np.ascontiguousarray(imap.T, dtype=omap.dtype).reshape(-1)
 	send_sizes= np.sum(omask*isizes,1)
 	send_offs = utils.cumsum(send_sizes)
 	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for mask in omask for iact in iorder[mask[iorder]]]
-- 
2.43.0


From a41f2dc28838f0ea62bfe01d35fa7e0ecaf09061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:54 +0000
Subject: [PATCH 61/62] fix: modifying what was read from a delayed map changed
 later reads

---
 pixell/enmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index a544a6a..1e69cac 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3023,7 +3023,8 @@ class ndmap_proxy_fits(ndmap_proxy):
 					signs[(slice(None),)*i + (ind,)] *= -1
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-2,2])
 			res = res*signs[sel1][...,None,None].astype(res.dtype)
-		return ndmap(fix_endian(res), wcs)
+		# Copy, so the caller can't modify our data through the result
+		return ndmap(fix_endian(res).copy(), wcs)
 	def __repr__(self): return "ndmap_proxy_fits(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (str(self.fname), str(self.shape), str(self.wcs), str(self.dtype))
 
 class ndmap_proxy_hdf(ndmap_proxy):
@@ -3039,7 +3040,8 @@ class ndmap_proxy_hdf(ndmap_proxy):
 			res = self.dset[sel1][(Ellipsis,)+sel2]
 		else:
 			res = self.dset[sel]
-		return ndmap(fix_endian(res), wcs)
+		# Copy, so the caller can't modify our data through the result
+		return ndmap(fix_endian(res).copy(), wcs)
 	def __repr__(self): return "ndmap_proxy_hdf(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (self.fname, str(self.shape), str(self.wcs), str(self.dtype))
 
 def fix_endian(map):
-- 
2.43.0


From b0d08723887646063a52f7dbeb21c3d9a8262774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:07 +0000
Subject: [PATCH 62/62] fix: sbox_fix no longer changes the array it is given

The end point was adjusted in place, so sbox_intersect and the other
functions that use it modified the caller's boxes.
---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a5e1579..51fd8b2 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1696,7 +1696,7 @@ def sbox_fix0(sbox):
 
 def sbox_fix(sbox):
 	# Ensure that we have a step, setting it to 1 if missing
-	sbox = sbox_fix0(sbox)
+	sbox = sbox_fix0(sbox).copy()
 	# Make sure our end point is a whole multiple of the step
 	# from the start
 	sbox[...,1] = sbox[...,0] + sbox_size(sbox)*sbox[...,2]
-- 
2.43.0

