"""C03: painting objects on maps, its transpose, and radial binning give the direct-sum answer
under every thread schedule."""
ID    = "C03"
NCASE = {"quick": 14000, "thorough": 200000}
RULE  = "case = random small geometry, object catalogue (positions inside and outside the map, several components, zero and negative amplitudes), profiles (equispaced or not, coarse or fine, sign-changing), cutoffs, combination operation or transpose or radial bins, executed under 4 seeded schedules; non-trivial when the run had more context switches than two per parallel region or a team of one was forced"
MEASURE = "64-bit hash of the full sequence of (region, thread, event, target) switches combined with the workload"
REAL  = ["pixell/pointsrcs.py", "cython/srcsim.pyx", "cython/srcsim_core.c (instrumented)"]
STUB  = ["libgomp -> simgomp (coroutine threads, seeded scheduler)", "malloc/calloc/np.empty -> dirty memory variants", "gettimeofday -> simulated clock with jumps"]
ASSUME = ["sequentially consistent memory", "preemption only at instrumented accesses and OpenMP constructs", "profiles have peak absolute value 1, as the documentation of the amplitudes implies", "maps at least 2 pixels wide and high, |dec| < 65 degrees"]
import numpy as np
from simlib.core import Violation, np_rng
from simlib import ompcheck
from simlib.ompcheck import Guard
from pixell import enmap, utils, pointsrcs

def gen(rng, tier, i):
	op = rng.choice(["add"]*5+["max","min","transpose","transpose","transpose","rsum","rsum","rbin","srcs"])
	w = dict(op=op, seed=rng.getrandbits(32), cls=rng.choice(["patch"]*5+["ring"]), proj=rng.choice(["car","car","cea","tan","zea"]), ny=rng.randint(2,36), nx=rng.randint(2,36), res=rng.choice([0.02,0.1,0.3]),
		dec=rng.uniform(-45,45), ra=rng.uniform(-180,180), nobj=rng.choice([1,1,2,3,5,8,12,25,40]), nprof=rng.choice([1,1,1,2,3]), equi=rng.random()<0.6, ns=rng.choice([2,3,4,8,20,60]), rad=rng.choice([1.5,4,9,20]),
		pshape=rng.choice(["gauss","tri","ring","sign","flat"]), ncomp=rng.choice([0,0,1,3]), zero=rng.random()<0.3, neg=rng.random()<0.3, vmin=rng.choice(["none","none","zero","some","big"]), rmax=rng.choice([0,0,0,2.5]),
		omap=rng.random()<0.4, where=rng.choice(["in","in","out","edge","same","wrap"]), flip=rng.random()<0.2, cache=rng.random()<0.2)
	if w["cls"] == "ring": w["rad"] = rng.choice([1.2,1.8,2.5])
	if op in ("rsum","rbin"): w.update(nbin=rng.choice([2,3,4,7,12]), weights=rng.random()<0.5, oprofs=rng.random()<0.4)
	return dict(w=w, scheds=ompcheck.gen_scheds(rng, 4))

def geometry(w):
	if w["cls"] == "ring":
		shape, wcs = enmap.fullsky_geometry(10*utils.degree, proj="car")
		shape, wcs = enmap.Geometry(shape, wcs)[4:15]
		px = 10.0
	else:
		shape, wcs = enmap.geometry(pos=np.array([w["dec"],w["ra"]])*utils.degree, shape=(w["ny"],w["nx"]), res=w["res"]*utils.degree, proj=w["proj"])
		px = w["res"]
	if w["flip"]: shape, wcs = enmap.slice_geometry(shape, wcs, (slice(None,None,-1),slice(None)))
	return tuple(int(x) for x in shape[-2:]), wcs, px*utils.degree

def f32(a): return np.asarray(a).astype(np.float32).astype(float)
def dists(pos, p):
	"""angular distance of every pixel from p=(dec,ra)"""
	a = np.array([np.cos(pos[0])*np.cos(pos[1]), np.cos(pos[0])*np.sin(pos[1]), np.sin(pos[0])])
	b = np.array([np.cos(p[0])*np.cos(p[1]), np.cos(p[0])*np.sin(p[1]), np.sin(p[0])])
	c = np.cross(np.moveaxis(a,0,-1), b)
	return np.arctan2(np.sqrt((c*c).sum(-1)), np.tensordot(b,a,(0,0)))

def make_prof(w, r, px, k):
	n = w["ns"]
	if w["equi"]: x = np.arange(n)*(w["rad"]*px/(n-1))
	else:
		x = np.sort(r.uniform(0.05, 1, n))*w["rad"]*px
		if r.random() < 0.5: x[0] = 0
		x = x[0] + np.maximum.accumulate(x-x[0] + np.arange(n)*1e-3*px)
	u = x/x[-1]
	s = w["pshape"]
	if   s == "gauss": v = np.exp(-0.5*(u*(3+k))**2)
	elif s == "tri":   v = 1-u*0.999
	elif s == "ring":  v = u*np.exp(-8*u**2); v[0] = 0
	elif s == "sign":  v = np.cos(6*u)*np.exp(-2*u)
	else:              v = np.ones(n)
	return np.array([x, v/np.abs(v).max()])

def make_pos(w, r, shape, wcs, nobj):
	ny, nx = shape
	pix = r.uniform(-0.5, 0.5, (2,nobj)) + r.uniform(0,1,(2,nobj))*(np.array([[ny],[nx]])-1)
	if w["where"] == "out":  pix += r.uniform(-1.2,1.2,(2,nobj))*np.minimum(np.array([[ny],[nx]]), 20)*(r.random(nobj)<0.5)
	if w["where"] == "edge": pix[0] = np.where(r.random(nobj)<0.5, 0, ny-1); pix[1] = np.where(r.random(nobj)<0.5, 0, nx-1)
	if w["where"] == "same": pix[:] = pix[:,:1]
	if w["cls"] == "ring":   pix[0] = np.clip(pix[0],3,ny-4)
	p = enmap.pix2sky(shape, wcs, pix)
	if w["where"] == "wrap": p[1] += 2*np.pi*r.integers(-1,2,nobj)
	return p

def run(case, ctx):
	w = case["w"]; r = np_rng(w["seed"]); op = w["op"]
	shape, wcs, px = geometry(w)
	pos  = f32(np.array(enmap.posmap(shape, wcs, dtype=np.float32)))
	nobj = w["nobj"]
	poss = make_pos(w, r, shape, wcs, nobj)
	if np.max(np.abs(poss[0])) > 65*utils.degree or not np.all(np.isfinite(poss)): ctx.exec(); ctx.probe("skipped_high_dec"); return
	D = np.array([dists(pos, f32(poss[:,o])) for o in range(nobj)]) # [nobj,ny,nx]
	if op in ("rsum","rbin"): run_radial(case, ctx, w, r, shape, wcs, px, poss, D); return
	nprof = w["nprof"] if op != "srcs" else 1
	profs = [f32(make_prof(w, r, px, k)) for k in range(nprof)]
	pids  = r.integers(0, nprof, nobj)
	pre   = (w["ncomp"],) if w["ncomp"] else ()
	amps  = r.uniform(0.5, 2, pre+(nobj,))
	if w["neg"]:  amps *= np.where(r.random(amps.shape)<0.5,-1,1)
	if w["zero"]: amps.reshape(-1)[r.integers(amps.size)] = 0
	if w["zero"] and w["ncomp"] == 3: amps[1:] = 0
	amps  = f32(amps)
	vmin  = {"none":None, "zero":0.0, "some":0.01, "big":0.3}[w["vmin"]]
	rmax  = w["rmax"]*px if w["rmax"] else None
	if op == "srcs": vmin = {"none":1e-4,"zero":0.0,"some":0.01,"big":0.3}[w["vmin"]]
	vm    = vmin if vmin is not None else np.min(np.abs(amps))*1e-3
	amax  = np.abs(amps).reshape(-1,nobj).max(0)
	val   = np.zeros(D.shape); must = np.zeros(D.shape, bool); slop = np.zeros(D.shape)
	for o in range(nobj):
		x, v = profs[pids[o]]
		val[o]  = np.where(D[o] < x[-1], np.interp(D[o], x, v), 0)
		slope   = np.abs(np.diff(v)/np.diff(x)).max()
		slop[o] = slope*2e-6 + 1e-5
		near    = np.abs(D[o]-x[-1]) < 2e-6
		slop[o][near] += 1
		must[o] = (np.abs(val[o])*amax[o] >= vm*(1+1e-3)) & (D[o] <= (rmax*(1-1e-4)-2e-6 if rmax else np.inf)) & (amax[o] > 0) & (val[o] != 0) & ~near
	base  = f32(r.normal(0,1,pre+shape)) if w["omap"] else np.zeros(pre+shape)
	A     = amps.reshape(-1,nobj)
	C     = A[:,:,None,None]*val[None]                     # [ncomp,nobj,ny,nx]
	tol   = (np.abs(A)[:,:,None,None]*slop[None]).sum(1) + 1e-5*(np.abs(C).sum(1)+np.abs(base).reshape((-1,)+shape))
	ctx.probe("op_"+op); ctx.probe("must_pixels", int(must.sum()))
	B = base.reshape((-1,)+shape)
	profarg = profs[0] if nprof == 1 else profs
	kw = dict(vmin=vmin, rmax=rmax)
	if nprof > 1: kw["prof_ids"] = pids
	if op == "transpose":
		m = enmap.enmap(base.astype(np.float32) if w["omap"] else r.normal(0,1,pre+shape).astype(np.float32), wcs)
		M = f32(m).reshape((-1,)+shape)
		Z = M[:,None]*val[None]
		want = A + np.where(must[None], Z, 0).sum((-2,-1))
		tolT = np.where(must[None], 0, np.abs(Z)).sum((-2,-1)) + (np.abs(M)[:,None]*np.where((val!=0)|(slop>0.5),slop,0)[None]).sum((-2,-1)) + 1e-5*(np.abs(Z).sum((-2,-1))+np.abs(A)) + 1e-5
		box = {}
		def fn():
			g = Guard(amps.astype(np.float32)); gm = Guard(np.array(m)); box["g"], box["m"] = g, gm
			pointsrcs.sim_objects(shape, wcs, poss, g.a, profarg, omap=enmap.enmap(gm.a, wcs, copy=False), transpose=True, **kw)
			return g.a.copy()
		def cmp(res):
			box["g"].check("the amplitudes"); box["m"].check("the map")
			if not np.array_equal(box["m"].a, m): raise Violation("input-modified", "transposed painting changed the map")
			bad = ~(np.abs(res.reshape(-1,nobj)-want) <= tolT)
			if bad.any():
				I = tuple(np.argwhere(bad)[0]); raise Violation("transpose", "amplitude %s is %r, expected %r +- %.2g" % (tuple(map(int,I)), res.reshape(-1,nobj)[I], want[I], tolT[I]))
		ompcheck.run_scheds(case, ctx, fn, cmp, w)
	else:
		box = {}
		def fn():
			om = None
			if w["omap"]:
				g = Guard(base.astype(np.float32)); box["g"] = g; om = enmap.enmap(g.a, wcs, copy=False)
			if op == "srcs":
				srcs = np.concatenate([poss, A],0).T
				return pointsrcs.sim_srcs(pre+shape, wcs, srcs, profs[0], omap=om, vmin=vmin, rmax=rmax, op=("add","max","min")[w["seed"]%3])
			c = {} if w["cache"] else None
			res = pointsrcs.sim_objects(shape, wcs, poss, amps, profarg, omap=om, op=op, cache=c, **kw)
			return res
		eop = op if op != "srcs" else ("add","max","min")[w["seed"]%3]
		mC, oC = np.where(must[None], C, 0), np.where(must[None], 0, C)
		if eop == "add":   lo = B+mC.sum(1)-np.abs(oC).sum(1); hi = B+mC.sum(1)+np.abs(oC).sum(1)
		elif eop == "max": lo = np.maximum(B, np.where(must[None],C,-np.inf).max(1)); hi = np.maximum(B, C.max(1))
		else:              hi = np.minimum(B, np.where(must[None],C,np.inf).min(1)); lo = np.minimum(B, C.min(1))
		def cmp(res):
			if res.shape != pre+shape: raise Violation("shape", "result has shape %s, expected %s" % (res.shape, pre+shape))
			q = np.array(res).reshape((-1,)+shape).astype(float)
			bad = ~((q >= lo-tol) & (q <= hi+tol))
			if bad.any():
				I = tuple(np.argwhere(bad)[0]); raise Violation("paint", "pixel %s is %r, expected between %r and %r (%d pixels)" % (tuple(map(int,I)), q[I], lo[I], hi[I], int(bad.sum())))
			if w["omap"]:
				box["g"].check("the output map")
				if not np.array_equal(box["g"].a, res): raise Violation("paint", "omap was not updated with the returned result")
		ompcheck.run_scheds(case, ctx, fn, cmp, w)
	ctx.sample(dict(w=w, schedules=[s["policy"] for s in case["scheds"]]))

def run_radial(case, ctx, w, r, shape, wcs, px, poss, D):
	nbin = w["nbin"]; nobj = w["nobj"]; op = w["op"]
	if w["equi"]: bins = np.arange(nbin+1)*(w["rad"]*px/nbin)
	else:
		bins = np.sort(r.uniform(0.02,1,nbin+1))*w["rad"]*px
		if r.random() < 0.5: bins[0] = 0
		bins = bins[0] + np.maximum.accumulate(bins-bins[0]+np.arange(nbin+1)*1e-2*px)
	bins = f32(bins)
	pre  = (w["ncomp"],) if w["ncomp"] else ()
	M    = f32(r.normal(0,1,pre+shape)); Wt = f32(r.uniform(0.5,2,shape))
	dt   = r.choice([np.float32,np.float32,np.float64]); lay = r.permutation(list("CCCTSWN")) if r.random() < 0.4 else "CC"
	gm, gw = Guard(M.astype(dt), layout=str(lay[0])), Guard(Wt.astype(dt), layout=str(lay[1]))
	m    = enmap.enmap(gm.a, wcs, copy=False); wt = enmap.enmap(gw.a, wcs, copy=False)
	eps  = 2e-6
	def ref(F):
		F = F.reshape((-1,)+shape)
		out = np.zeros((nobj,len(F),nbin)); tol = np.zeros((nobj,1,nbin)) + np.zeros((1,len(F),1))
		for o in range(nobj):
			for b in range(nbin):
				sure = (D[o] >= bins[b]+eps) & (D[o] < bins[b+1]-eps)
				poss_= (D[o] >= bins[b]-eps) & (D[o] < bins[b+1]+eps) & ~sure
				out[o,:,b] = F[:,sure].sum(-1); tol[o,:,b] = np.abs(F[:,poss_]).sum(-1) + 1e-5*np.abs(F[:,sure|poss_]).sum(-1) + 1e-6
		return out, tol
	ctx.probe("op_"+op)
	box = {}
	if op == "rsum":
		want, tol = ref(M)
		def fn():
			if w["oprofs"]:
				g = Guard(np.zeros((nobj,)+pre+(nbin,),np.float32)); box["g"] = g
				res = pointsrcs.radial_sum(m, poss, bins, oprofs=g.a)
				g.check("the output profiles"); return np.array(res)
			return pointsrcs.radial_sum(m, poss, bins)
		def cmp(res):
			if res.shape != (nobj,)+pre+(nbin,): raise Violation("shape", "profiles have shape %s" % (res.shape,))
			q = res.reshape(nobj,-1,nbin)
			bad = ~(np.abs(q-want) <= tol)
			if bad.any():
				I = tuple(np.argwhere(bad)[0]); raise Violation("radial", "bin %s is %r, expected %r +- %.2g" % (tuple(map(int,I)), q[I], want[I], tol[I]))
	else:
		F = M*Wt if w["weights"] else M
		F = f32(F); num, tn = ref(F); den, td = ref(Wt if w["weights"] else np.ones(shape))
		def fn(): return pointsrcs.radial_bin(m, poss, bins, weights=wt if w["weights"] else None)
		def cmp(res):
			if res.shape != (nobj,)+pre+(nbin,): raise Violation("shape", "profiles have shape %s" % (res.shape,))
			q = res.reshape(nobj,-1,nbin)
			ok = (np.broadcast_to(den,num.shape) > 0) & (np.broadcast_to(td,num.shape) < 1e-3*(1+np.broadcast_to(den,num.shape)))
			with np.errstate(all="ignore"):
				want = num/den; tol = tn/den + np.abs(num)/den**2*td + 1e-5
				bad = ok & ~(np.abs(q-want) <= tol)
			if bad.any():
				I = tuple(np.argwhere(bad)[0]); raise Violation("radial", "mean profile %s is %r, expected %r" % (tuple(map(int,I)), q[I], want[I]))
	def cmp2(res):
		cmp(res); gm.check("the map"); gw.check("the weights")
		if not (np.array_equal(m, M) and np.array_equal(wt, Wt)): raise Violation("input-modified", "the map or weights were modified")
	ompcheck.run_scheds(case, ctx, fn, cmp2, w)
	ctx.sample(dict(w=w, schedules=[s["policy"] for s in case["scheds"]]))

def shrink_w(w):
	for k in ("ny","nx"):
		for v in (2,4,w[k]//2,w[k]-1):
			if 2 <= v < w[k]: yield dict(w, **{k:v})
	for v in (1,2,w["nobj"]//2,w["nobj"]-1):
		if 1 <= v < w["nobj"]: yield dict(w, nobj=v)
	for k,v in (("ncomp",0),("nprof",1),("omap",False),("rmax",0),("cache",False)):
		if w[k] != v: yield dict(w, **{k:v})
def shrink(case): return ompcheck.shrink(case, shrink_w)
