"""C02: distance maps equal the brute-force nearest-point answer under every thread schedule."""
ID    = "C02"
NCASE = {"quick": 9000, "thorough": 100000}
RULE  = "case = random small geometry (car/cea/tan/zea patch, full ring, polar cap or healpix), point set / mask / label map, method, rmax and cell size, executed under 4 seeded schedules; non-trivial when the run had more context switches than two per parallel region or a team of one was forced"
MEASURE = "64-bit hash of the full sequence of (region, thread, event, target) switches combined with the workload"
REAL  = ["pixell/enmap.py distance functions", "cython/distances.pyx", "cython/distances_core.c (instrumented)"]
STUB  = ["libgomp -> simgomp (coroutine threads, seeded scheduler)", "malloc/calloc/np.empty -> dirty memory variants", "gettimeofday -> simulated clock"]
ASSUME = ["sequentially consistent memory", "preemption only at instrumented accesses and OpenMP constructs", "the front-propagation solvers may be late by up to 1.5 pixels in domains narrower than a pixel (documented in the code)"]
import numpy as np, warnings
from simlib.core import Violation, np_rng
from simlib import ompcheck
from simlib.ompcheck import Guard
from simlib.ompcheck import close
from pixell import enmap, utils, distances
import healpy

def gen(rng, tier, i):
	op = rng.choice(["from","from","from","from","grid","grid","grid","dt","dt","ldt","grow","hp","hpdt","hpldt","hpravel"])
	w = dict(op=op, seed=rng.getrandbits(32), rmax=rng.choice([0,0,0,1.5,4.0,9.0]))
	if op.startswith("hp"):
		w.update(nside=rng.choice([1,2,2,4,4,8]), method=rng.choice(["bubble","heap"]), n=rng.choice([1,2,3,5,8,13,25]), pre=rng.choice([0,0,2]), dens=rng.choice([0.03,0.1,0.5,0.9]))
	else:
		cls = rng.choice(["patch"]*6+["ring","ring","polar","sky"])
		w.update(cls=cls, proj=rng.choice(["car","car","car","cea","tan","zea"]), ny=rng.randint(1,22), nx=rng.randint(1,22), res=rng.choice([0.02,0.1,0.3,0.8]), dec=rng.uniform(-30,30), ra=rng.uniform(-180,180),
			method=rng.choice(["cellgrid","cellgrid","cellgrid","bubble","simple"]), n=rng.choice([1,1,2,3,4,6,10,17,30,60,150]), kind=rng.choice(["center","center","off","oob","dup"]), pre=rng.choice([0,0,1,2]), dens=rng.choice([0.0,0.03,0.1,0.5,0.9,1.0]),
			flip=rng.random()<0.3, domains=rng.random()<0.7, out=rng.random()<0.3)
		if cls != "patch": w["proj"] = rng.choice(["car","cea"]) if cls != "polar" else rng.choice(["car","tan","zea"])
		if rng.random() < 0.08 and w["method"] != "simple": w["ny"], w["nx"] = rng.randint(30,70), rng.randint(30,70); w["res"] = 0.1; w["pre"] = 0
		if op == "grid": w["bs"] = [rng.choice([1,2,3,4,5,7,8,16,32]), rng.choice([1,2,3,4,5,7,8,16,32])]; w["dr"] = rng.choice([0,0,0.7,2.0,5.0]); w["sep"] = rng.random() < 0.5
	return dict(w=w, scheds=ompcheck.gen_scheds(rng, 4))

def vec(p): return np.array([np.cos(p[0])*np.cos(p[1]), np.cos(p[0])*np.sin(p[1]), np.sin(p[0])])
def brute(pos, pts):
	"""[...,npoint] angular distances, from the vector formula, chunked"""
	a = vec(pos.reshape(2,-1)).T; b = vec(pts).T
	out = np.zeros((len(a), len(b)))
	for j in range(len(b)):
		c = np.cross(a, b[j])
		out[:,j] = np.arctan2(np.sqrt((c*c).sum(-1)), a@b[j])
	return out.reshape(pos.shape[1:]+(len(b),))

def geometry(w):
	if   w["cls"] == "patch": g = enmap.geometry(pos=np.array([w["dec"],w["ra"]])*utils.degree, shape=(w["ny"],w["nx"]), res=w["res"]*utils.degree, proj=w["proj"]); px = w["res"]
	elif w["cls"] == "ring":
		px = 15.0; shape, wcs = enmap.fullsky_geometry(px*utils.degree, proj="car") if w["proj"]=="car" else enmap.geometry(np.array([[-60,180],[60,-180]])*utils.degree, res=px*utils.degree, proj="cea")
		g = enmap.Geometry(shape, wcs)
		mid = shape[-2]//2; g = g[mid-1:mid+2]
	elif w["cls"] == "polar": g = enmap.geometry(pos=np.array([88.0,w["ra"]])*utils.degree, shape=(w["ny"],w["nx"]), res=max(w["res"],0.1)*utils.degree, proj=w["proj"]); px = max(w["res"],0.1)
	else: px = 15.0; g = enmap.fullsky_geometry(px*utils.degree, proj="car")
	shape, wcs = g
	shape, wcs = tuple(int(x) for x in shape[-2:]), wcs
	if w["flip"]: shape, wcs = enmap.slice_geometry(shape, wcs, (slice(None,None,-1),slice(None)))
	pos = np.array(enmap.posmap(shape, wcs, safe=False))
	return shape, wcs, pos, px*utils.degree

def points(w, shape, wcs, r):
	ny, nx = shape
	n = w["n"]
	if w["kind"] == "dup": I = r.integers(0, ny*nx, n)
	else: I = r.choice(ny*nx, min(n,ny*nx), replace=False)
	pix = np.array(np.unravel_index(I, shape)).astype(float)
	if w["kind"] in ("off","dup","oob"): pix = pix + r.uniform(-0.45,0.45,pix.shape)
	if w["kind"] == "oob" and w["cls"] == "patch":
		sel = r.random(pix.shape[1]) < 0.5
		pix[:,sel] += r.uniform(-2,2,(2,int(sel.sum())))*np.array([[ny],[nx]])
	pts = enmap.pix2sky(shape, wcs, pix, safe=False)
	pts = pts[:,np.all(np.isfinite(pts),0)]
	return np.ascontiguousarray(pts)

EPS = 1e-9
def verify(what, d, dom, D, rmax, tol, exact=False):
	"""d: distance map; dom: domain map or None; D[...,npoint]: brute force. tol None: no upper bound"""
	d = np.asarray(d); true = D.min(-1)
	if d.shape != true.shape: raise Violation("shape", "%s has shape %s, expected %s" % (what, d.shape, true.shape))
	if not np.all(np.isfinite(d)): raise Violation("distance", "%s has non-finite values" % what)
	cap = np.minimum(true, rmax) if rmax else true
	bad = d < cap-EPS
	if bad.any(): fail(what, "is smaller than the distance to the nearest point", bad, d, cap)
	if tol is not None:
		bad = d > cap + (1e-9 if exact else tol)
		if bad.any(): fail(what, "is larger than the distance to the nearest point", bad, d, cap)
	if rmax:
		bad = d > rmax+1e-15
		if bad.any(): fail(what, "exceeds rmax", bad, d, cap)
	if dom is not None:
		dom = np.asarray(dom)
		bad = (dom < -1) | (dom >= D.shape[-1]) | ((dom == -1) & (not rmax))
		if bad.any(): fail("domain", "is not the index of a point", bad, dom, dom)
		own = np.take_along_axis(D, np.maximum(dom,0)[...,None], -1)[...,0]
		bad = (dom >= 0) & (np.abs(own-d) > EPS)
		if bad.any(): fail(what, "is not the distance to the point given by the domain map", bad, d, own)
		if rmax:
			bad = (dom < 0) & (d != rmax)
			if bad.any(): fail(what, "is not rmax where no point was found", bad, d, cap)
			bad = (dom >= 0) & (d > rmax)
			if bad.any(): fail("domain", "is set beyond rmax", bad, dom, d)
def fail(what, msg, bad, d, ref):
	I = tuple(int(x) for x in np.argwhere(bad)[0])
	raise Violation("distance", "%s[%s] = %r %s (%r); %d pixels" % (what, ",".join(map(str,I)), d[I], msg, ref[I], int(bad.sum())))

def kept(g, mask, mask0):
	g.check("the mask")
	if not np.array_equal(mask, mask0): raise Violation("input-modified", "the mask was modified")

def blobs(r, pre, shape, nlab):
	"""connected regions with distinct labels, so that they have an interior"""
	out = np.zeros(pre+shape, int)
	for m in out.reshape((-1,)+shape):
		for k in range(int(r.integers(1,5))):
			c = r.integers(0, shape); h = r.integers(1, np.maximum(2,np.array(shape)*2//3+1))
			m[tuple(slice(max(0,a-b),a+b) for a,b in zip(c,h))] = r.integers(1, nlab+1)
	return out

def same(ref, res):
	for a, b in zip(ref, res):
		if a is None: continue
		if not np.array_equal(np.asarray(a), np.asarray(b)):
			bad = np.argwhere(np.asarray(a) != np.asarray(b))[0]
			raise Violation("schedule-dependent", "result at %s is %r under this schedule, %r when run serially" % (bad.tolist(), np.asarray(b)[tuple(bad)], np.asarray(a)[tuple(bad)]))

def run(case, ctx):
	w = case["w"]; r = np_rng(w["seed"]); op = w["op"]
	if op.startswith("hp"): run_hp(case, ctx, w, r); return
	shape, wcs, pos, px = geometry(w)
	ny, nx = shape
	rmax = w["rmax"]*px if w["rmax"] else None
	tol  = 1.5*px if w["cls"] in ("patch","ring") else None
	ctx.probe("class_"+w["cls"]); ctx.probe("op_"+op)
	if op in ("from","grid"):
		pts = points(w, shape, wcs, r)
		if pts.shape[1] == 0:
			d = enmap.distance_from(shape, wcs, pts, rmax=rmax)
			if not np.all(d == (rmax or np.inf)): raise Violation("distance", "no points but finite distance")
			ctx.exec(); return
		D = brute(pos, pts)
		D0 = D
		if op == "from":
			if w["method"] == "simple": rmax = None
			def fn():
				kw = dict(method=w["method"], rmax=rmax)
				if w["out"]:
					om = enmap.full(shape, wcs, -7.0); od = enmap.full(shape, wcs, -7, dtype=np.int32)
					kw.update(omap=om, odomains=od)
				if w["domains"] or w["out"]:
					d, dom = enmap.distance_from(shape, wcs, pts, domains=True, **kw)
					if w["out"] and (not np.array_equal(om, d) or not np.array_equal(od, dom)): raise Violation("out-argument", "omap/odomains differ from the returned maps")
					return d, dom
				return enmap.distance_from(shape, wcs, pts, **kw), None
			exact = w["method"] == "simple"
		else:
			pp = utils.nint(enmap.sky2pix(shape, wcs, pts))
			if w["sep"] and enmap.wcsutils.is_separable(wcs): yp, xp = enmap.posaxes(shape, wcs)
			else: yp, xp = pos
			dr = w["dr"]*px if w["dr"] else np.inf
			exact = False
			def fn(): return distances.distance_from_points_cellgrid(yp, xp, pts, pp, dr=dr, bsize=w["bs"], rmax=rmax, domains=True)
		ref = fn()
		tl  = None if w["kind"]=="oob" and tol is not None and not exact else tol
		if exact: tl = 1e-9
		verify("distance", ref[0], ref[1], D, rmax, tl, exact)
		if w["kind"] == "oob" and w["cls"]=="patch" and not exact: # out-of-map points: same bound, looser
			verify("distance", ref[0], ref[1], D, rmax, 2.5*px)
		def cmp(res):
			same(ref, res)
		ompcheck.run_scheds(case, ctx, fn, cmp, w)
	elif op in ("dt","grow"):
		pre  = (w["pre"],) if w["pre"] else ()
		if w["seed"]%2: mask = r.random(pre+shape) >= w["dens"]
		else:
			mask = blobs(r, pre, shape, 1) > 0
			if r.random() < 0.5: mask = ~mask
		mask.reshape(-1)[0] = False
		for m in mask.reshape((-1,)+shape): m[r.integers(ny), r.integers(nx)] = False
		lay  = str(r.choice(list("CCCTSWN")))
		gm   = Guard(np.array(mask), layout=lay); mask0 = mask.copy()
		mask = enmap.enmap(gm.a, wcs, copy=False)
		if op == "grow":
			rad = (w["rmax"] or 2.3)*px*1.0137
			def fn(): return np.array(enmap.grow_mask(mask, rad)), np.array(enmap.shrink_mask(mask, rad))
			ref = fn()
			for k, m in enumerate(np.array(mask).reshape((-1,)+shape)):
				for which, src, res in (("grow", m, ref[0]), ("shrink", ~m, ref[1])):
					if not src.any(): continue
					t = brute(pos, pos[:,src]).min(-1); t[src] = 0
					q = res.reshape((-1,)+shape)[k]
					got = q if which == "grow" else ~q
					bad = (got & (t > rad+EPS))
					if tol is not None: bad |= (~got & (t < rad-tol))
					if bad.any(): raise Violation("distance", "%s_mask wrong at %s" % (which, np.argwhere(bad)[0].tolist()))
			ompcheck.run_scheds(case, ctx, fn, lambda res: (same(ref, res), kept(gm, mask, mask0)), w)
			return
		mth = w["method"]
		rm  = rmax if mth != "simple" else None
		def fn(): return np.array(enmap.distance_transform(mask, rmax=rm, method=mth)),
		ref = fn()
		for k, m in enumerate(np.array(mask).reshape((-1,)+shape)):
			D = brute(pos, pos[:,~m]); q = ref[0].reshape((-1,)+shape)[k]
			if not np.all(q[~m] == 0): raise Violation("distance", "distance is not zero on the masked pixels")
			if m.any(): verify("distance transform", q[m], None, D[m], rm, tol)
		ompcheck.run_scheds(case, ctx, fn, lambda res: (same(ref, res), kept(gm, mask, mask0)), w)
	elif op == "ldt":
		pre = (w["pre"],) if w["pre"] else ()
		if w["seed"]%2: lab = r.integers(1, 5, pre+shape)*(r.random(pre+shape) < max(w["dens"],0.02))
		else: lab = blobs(r, pre, shape, 4)
		for m in lab.reshape((-1,)+shape): m[r.integers(ny), r.integers(nx)] = 3
		gm  = Guard(lab.astype(np.int32), layout=str(r.choice(list("CCCTSWN")))); mask0 = lab.copy()
		lab = mask = enmap.enmap(gm.a, wcs, copy=False)
		mth = w["method"]; rm = rmax if mth != "simple" else None
		def fn():
			a, b = enmap.labeled_distance_transform(lab, rmax=rm, method=mth)
			return np.array(a), np.array(b)
		ref = fn()
		for k, m in enumerate(np.array(lab).reshape((-1,)+shape)):
			q, dm = [x.reshape((-1,)+shape)[k] for x in ref]
			if not np.all(q[m!=0] == 0): raise Violation("distance", "distance is not zero on labeled pixels")
			D = brute(pos, pos[:,m!=0]); lv = m[m!=0]
			z = m == 0
			if z.any(): verify("labeled distance", q[z], None, D[z], rm, tol)
			Dl = np.stack([np.where(lv[None,None]==l, D, np.inf).min(-1) for l in range(1,5)], -1)
			has = dm > 0
			if (dm < 0).any() or (dm > 4).any(): raise Violation("distance", "unknown label")
			if np.any(~has & z & (q < (rm or np.inf))): raise Violation("distance", "pixel within reach has no label")
			own = np.take_along_axis(Dl, np.maximum(dm-1,0)[...,None], -1)[...,0]
			bad = has & z & ~(np.abs(own-q) < EPS)
			# the label's own region is represented by its edge pixels, which contain the nearest one up to a pixel
			if tol is None: bad &= False
			else: bad = has & z & ~(np.abs(own-q) < tol)
			if bad.any(): fail("labeled distance", "does not belong to the label in the domain map", bad, q, own)
			if (m[m!=0] != dm[m!=0]).any(): raise Violation("distance", "pixel of a labeled region is assigned to another label or none")
		ompcheck.run_scheds(case, ctx, fn, lambda res: (same(ref, res), kept(gm, mask, mask0)), w)
	ctx.sample(dict(w=w, schedules=[s["policy"] for s in case["scheds"]]))

def cap(r, pre, pos, nlab):
	out = np.zeros(pre+pos.shape[1:], int if nlab > 1 else bool)
	for m in out.reshape(-1,pos.shape[1]):
		for k in range(int(r.integers(1,4))): m[brute(pos[:,None], pos[:,r.integers(pos.shape[1],size=1)])[0,:,0] < r.uniform(0.1,1.2)] = r.integers(1, nlab+1)
	return out

def run_hp(case, ctx, w, r):
	nside = w["nside"]; npix = 12*nside**2; px = np.sqrt(4*np.pi/npix)
	th, ph = healpy.pix2ang(nside, np.arange(npix)); pos = np.array([np.pi/2-th, ph])
	rmax = w["rmax"]*px if w["rmax"] else None
	if rmax and rmax > np.pi: rmax = None
	tol = 1.5*px; op = w["op"]
	ctx.probe("op_"+op)
	pre = (w["pre"],) if w["pre"] else ()
	if op == "hpravel":
		info = distances.healpix_info(nside)
		pix  = r.integers(0, npix, w["n"]*7)
		def fn():
			p2 = distances.unravel_healpix(info, pix)
			return p2, distances.ravel_healpix(info, p2)
		def cmp(res):
			p2, p1 = res
			if not np.array_equal(p1, pix): raise Violation("healpix-index", "ravel(unravel(pix)) != pix")
			t = healpy.pix2ring(nside, pix)-1
			if not np.array_equal(p2[0], t): raise Violation("healpix-index", "row index differs from the healpix ring number")
	elif op == "hp":
		if r.random() < 0.5: pts = pos[:,r.choice(npix, min(w["n"],npix), replace=False)].copy()
		else: pts = np.array([np.arcsin(r.uniform(-1,1,w["n"])), r.uniform(0,2*np.pi,w["n"])])
		D = brute(pos[:,None], pts)[0]
		def fn(): return enmap.distance_from_healpix(nside, pts, domains=True, rmax=rmax, method=w["method"])
		ref = fn()
		verify("healpix distance", ref[0], ref[1], D, rmax, tol)
		cmp = lambda res: same(ref, res)
	elif op == "hpdt":
		mask = r.random(pre+(npix,)) >= w["dens"] if w["seed"]%2 else ~cap(r, pre, pos, 1)
		for m in mask.reshape(-1,npix): m[r.integers(npix)] = False; m[r.integers(npix)] = True
		if not all((~m).any() and m.any() for m in mask.reshape(-1,npix)): ctx.exec(); return
		def fn(): return enmap.distance_transform_healpix(mask, rmax=rmax, method=w["method"]),
		ref = fn()
		for m, q in zip(mask.reshape(-1,npix), ref[0].reshape(-1,npix)):
			D = brute(pos[:,None], pos[:,~m])[0]
			if not np.all(q[~m] == 0): raise Violation("distance", "distance is not zero on the masked pixels")
			verify("healpix distance transform", q[m], None, D[m], rmax, tol)
		cmp = lambda res: same(ref, res)
	else:
		lab = r.integers(1, 5, pre+(npix,))*(r.random(pre+(npix,)) < w["dens"]) if w["seed"]%2 else cap(r, pre, pos, 4)
		for m in lab.reshape(-1,npix):
			m[r.integers(npix)] = 0; m[(r.integers(npix))] = 2
			if not (m==0).any() or not (m!=0).any(): ctx.exec(); return
		def fn(): return enmap.labeled_distance_transform_healpix(lab.astype(np.int32), rmax=rmax, method=w["method"])
		ref = fn()
		for m, q, dm in zip(lab.reshape(-1,npix), ref[0].reshape(-1,npix), ref[1].reshape(-1,npix).astype(int)):
			if not np.all(q[m!=0] == 0): raise Violation("distance", "distance is not zero on labeled pixels")
			D = brute(pos[:,None], pos[:,m!=0])[0]; z = m == 0
			verify("healpix labeled distance", q[z], None, D[z], rmax, tol)
			lv = m[m!=0]
			Dl = np.stack([np.where(lv[None]==l, D, np.inf).min(-1) for l in range(1,5)], -1)
			own = np.take_along_axis(Dl, np.clip(dm-1,0,3)[...,None], -1)[...,0]
			if (m[m!=0] != dm[m!=0]).any(): raise Violation("distance", "pixel of a labeled region is assigned to another label or none")
			if np.any((dm <= 0) & z & (q < (rmax or np.inf))): raise Violation("distance", "pixel within reach has no label")
			bad = (dm > 0) & z & ~(np.abs(own-q) < tol)
			if bad.any(): fail("healpix labeled distance", "does not belong to the label in the domain map", bad, q, own)
		cmp = lambda res: same(ref, res)
	ompcheck.run_scheds(case, ctx, fn, cmp, w)
	ctx.sample(dict(w=w, schedules=[s["policy"] for s in case["scheds"]]))

def shrink_w(w):
	if "ny" in w:
		for k in ("ny","nx"):
			for v in (2,3,5,w[k]//2,w[k]-1):
				if 1 <= v < w[k]: yield dict(w, **{k:v})
	for v in (1,2,w.get("n",1)//2):
		if 1 <= v < w.get("n",1): yield dict(w, n=v)
	if w.get("pre"): yield dict(w, pre=0)
	if w.get("rmax"): yield dict(w, rmax=0)
def shrink(case): return ompcheck.shrink(case, shrink_w)
