"""C04: interpolation, its derivative, its transpose and the spline filter equal their dense
definition under every thread schedule."""
ID    = "C04"
NCASE = {"quick": 30000, "thorough": 300000}
RULE  = "case = random array (1-3 interpolated dimensions, 0-2 leading ones, both precisions), interpolation mode/order/border, points inside, on the edge and far outside the array or exactly on samples, one of forward/derivative/transpose/filter/filter transpose/two-step/displace; executed under 4 seeded schedules; non-trivial when the run had more context switches than two per parallel region or a team of one was forced"
MEASURE = "64-bit hash of the full sequence of (region, thread, event, target) switches combined with the workload"
REAL  = ["pixell/interpol.py", "pixell/lensing.py displace_map", "fortran/interpol.F90 32 and 64 bit (instrumented)"]
STUB  = ["libgomp -> simgomp (coroutine threads, seeded scheduler)", "malloc/calloc/np.empty -> dirty memory variants", "OpenMP atomics -> simulated atomic read-modify-write steps"]
ASSUME = ["sequentially consistent memory", "preemption only at instrumented accesses and OpenMP constructs", "interpolated axes have at least 2 samples", "derivatives only for the orders that implement them, away from the samples where the scheme is not differentiable"]
import numpy as np
from scipy.interpolate import BSpline
from simlib.core import Violation, np_rng
from simlib import ompcheck
from simlib.ompcheck import Guard
from pixell import enmap, interpol, lensing

OPS = ["fwd"]*4+["deriv"]*2+["trans"]*4+["dtrans"]+["filter"]+["ftrans"]+["twostep"]+["displace"]*2
def gen(rng, tier, i):
	op = rng.choice(OPS)
	mode  = rng.choice(["spline","spline","spline","conv","lanczos"])
	order = {"spline":rng.choice([0,1,2,3,3,3,4,5]), "conv":rng.choice([0,1,3]), "lanczos":rng.choice([1,2,3,4])}[mode]
	nd    = rng.choice([1,2,2,2,3])
	if op in ("deriv","dtrans"):
		order = {"spline":rng.choice([1,2,3,3,4]), "conv":rng.choice([1,3]), "lanczos":rng.choice([2,3])}[mode]
	if op in ("filter","ftrans","twostep"): mode = "spline"; order = rng.choice([2,3,4,5])
	if op == "displace": nd = 2
	if nd == 3: order = min(order, 3) if mode != "lanczos" else 1
	if op in ("deriv","dtrans") and mode == "lanczos" and order == 1: order = 2
	w = dict(op=op, seed=rng.getrandbits(32), mode=mode, order=order, border=rng.choice(["zero","nearest","cyclic","mirror","reflect"]),
		dims=[rng.choice([2,2,3,4,5,7,12,20]) if nd < 3 else rng.choice([2,3,4,6]) for k in range(nd)], pre=rng.choice([[],[],[1],[3],[2,2]]), dt=rng.choice([4,8]),
		pdims=rng.choice([[],[1],[2],[5],[17],[3,4],[60]]), where=rng.choice(["in","in","grid","out","far","same","edge"]), odata=rng.random()<0.4,
		lay=[rng.choice("CCCTSWN") for k in range(2)] if rng.random()<0.4 else ["C","C"])
	return dict(w=w, scheds=ompcheck.gen_scheds(rng, 4))

def border(kind, n, i):
	"""index into the n samples that the sample at (any) integer position i refers to; -1: zero"""
	i = np.asarray(i)
	if   kind == "zero":    return np.where((i<0)|(i>=n), -1, i)
	elif kind == "nearest": return np.clip(i, 0, n-1)
	elif kind == "cyclic":  return i % n
	else:
		v = i % (2*n-2)
		return np.where(v >= n, 2*n-2-v, v)

POLES = {2:[np.sqrt(8)-3], 3:[np.sqrt(3)-2],
	4:[np.sqrt(664-np.sqrt(438976))+np.sqrt(304)-19, np.sqrt(664+np.sqrt(438976))-np.sqrt(304)-19],
	5:[np.sqrt(67.5-np.sqrt(4436.25))+np.sqrt(26.25)-6.5, np.sqrt(67.5+np.sqrt(4436.25))-np.sqrt(26.25)-6.5]}
def filter_matrix(order, kind, n):
	"""The B-spline coefficients of the infinite extension of the samples, one pole at a time"""
	F = np.eye(n)
	L = 90
	for p in POLES.get(order, []):
		h = (1-p)*(1-1/p)*(-p/(1-p*p))
		M = np.zeros((n,n))
		j = np.arange(-L, n+L); src = border(kind, n, j)
		for i in range(n):
			wt = h*p**np.abs(i-j)
			np.add.at(M[i], src[src>=0], wt[src>=0])
		F = M @ F
	return F

_basis = {}
def bspline(order):
	if order not in _basis:
		b = BSpline.basis_element(np.arange(order+2)-(order+1)/2.0, extrapolate=False)
		_basis[order] = (b, b.derivative())
	return _basis[order]
def kernel(mode, order, x, der):
	"""Value (or derivative) of the interpolation kernel at x = position - sample"""
	ax = np.abs(x); s = np.sign(x)
	if mode == "spline" and order > 1:
		return np.nan_to_num(bspline(order)[1 if der else 0](x))
	if order == 1 and mode != "lanczos":
		return np.where(ax<1, -s if der else 1-ax, 0)
	if mode == "conv":
		if der: return s*np.where(ax<1, 4.5*ax**2-5*ax, np.where(ax<2, -1.5*ax**2+5*ax-4, 0))
		return np.where(ax<1, 1.5*ax**3-2.5*ax**2+1, np.where(ax<2, -0.5*ax**3+2.5*ax**2-4*ax+2, 0))
	if mode == "lanczos":
		f = lambda q: np.where(np.abs(q)<order, np.sinc(q)*np.sinc(q/order), 0)
		if der: return (f(x+1e-5)-f(x-1e-5))/2e-5
		return f(x)

def matrix1(w, n, p, der=False):
	"""[npoint,n] matrix of the 1d interpolation, without filter"""
	M = np.zeros((len(p), n))
	if w["order"] == 0:
		j = border(w["border"], n, np.where(p>=0, np.floor(p+0.5), np.ceil(p-0.5)).astype(int))
		ok = j >= 0
		M[np.arange(len(p))[ok], j[ok]] = 1
		return M*(0 if der else 1)
	R = 7
	off = np.floor(p).astype(int)
	for d in range(-R, R+1):
		wt = kernel(w["mode"], w["order"], p-(off+d), der)
		j  = border(w["border"], n, off+d)
		ok = (j >= 0) & (wt != 0)
		np.add.at(M, (np.nonzero(ok)[0], j[ok]), wt[ok])
	return M

def points(w, r, np_, n):
	"""positions along one axis"""
	wh = w["where"]
	if   wh == "in":   p = r.uniform(0, n-1, np_)
	elif wh == "grid": p = r.integers(0, n, np_).astype(float)
	elif wh == "out":  p = r.uniform(-1.5*n-3, 2.5*n+3, np_)
	elif wh == "far":  p = r.uniform(-40*n, 40*n, np_)
	elif wh == "edge": p = r.choice([0., n-1., -1., float(n), -0.25, n-0.75, -2.6, n+1.3], np_)
	else:              p = np.repeat(r.uniform(-1, n), np_)
	if w["order"] == 0 or w["op"] in ("deriv","dtrans"):
		# keep away from the jumps of the scheme
		if w["order"] == 0: f = p-np.floor(p); p = np.where(np.abs(f-0.5)<0.02, np.floor(p)+0.4, p)
		elif w["order"] == 1 or (w["mode"] == "lanczos" and w["order"] < 3) or w["mode"] == "lanczos":
			f = p-np.floor(p); p = np.where((f<0.02)|(f>0.98), np.floor(p)+0.3, p)
	return p

def outer(mats):
	M = mats[0]
	for m in mats[1:]: M = (M[:,:,None]*m[:,None,:]).reshape(len(M),-1)
	return M
def kron(mats):
	M = mats[0]
	for m in mats[1:]: M = np.kron(M, m)
	return M

def run(case, ctx):
	w = case["w"]; r = np_rng(w["seed"]); op = w["op"]
	dims = tuple(w["dims"]); nd = len(dims); pre = tuple(w["pre"]); dt = np.dtype("f%d" % w["dt"])
	pdims = tuple(w["pdims"]) if op != "displace" else dims
	npre, ng, npt = int(np.prod(pre,dtype=int)), int(np.prod(dims)), int(np.prod(pdims,dtype=int))
	P  = np.array([points(w, r, npt, n) for n in dims]).astype(dt)     # [nd,npt]
	Pd = P.astype(float)
	data = r.normal(0,1,pre+dims).astype(dt)
	eps  = 3e-5 if dt.itemsize == 4 else 1e-10
	amp  = 1.0
	kw   = dict(mode=w["mode"], order=w["order"], border=w["border"])
	F    = kron([filter_matrix(w["order"], w["border"], n) for n in dims]) if w["mode"] == "spline" else np.eye(ng)
	ctx.probe("op_"+op); ctx.probe("mode_%s%d" % (w["mode"],w["order"])); ctx.probe("border_"+w["border"])
	# position rounding: p has absolute accuracy eps*|p|, so the weights do too
	ptol = float(np.max(np.abs(Pd)))*(6e-7 if dt.itemsize==4 else 1e-14)*6
	pts  = P.reshape((nd,)+pdims)
	D    = data.astype(float).reshape(npre, ng)
	box  = {}; lay = w.get("lay","CC")
	if lay[0]+lay[1] != "CC": ctx.probe("noncontiguous")
	def fail(kind, got, want, tol):
		got = np.asarray(got)
		if got.shape != want.shape: raise Violation(kind, "result has shape %s, expected %s" % (got.shape, want.shape))
		bad = ~(np.abs(got-want) <= tol)
		if bad.any():
			I = tuple(int(x) for x in np.argwhere(bad)[0]); raise Violation(kind, "%s order %d border %s: element %s is %r, expected %r (%d of %d differ)" % (w["mode"], w["order"], w["border"], I, got[I], want[I], int(bad.sum()), bad.size))
	if op in ("fwd","deriv","twostep") or op == "displace" and w["seed"]%3 != 0:
		A    = outer([matrix1(w, n, Pd[k]) for k,n in enumerate(dims)]) @ F if op != "deriv" else np.array([outer([matrix1(w, n, Pd[k], k==j) for k,n in enumerate(dims)]) @ F for j in range(nd)])
		want = np.einsum("...pg,ag->...ap" if op == "deriv" else "pg,ag->ap", A, D)
		want = want.reshape(((nd,) if op=="deriv" else ())+pre+pdims)
		tol  = (eps+ptol + (2e-4 if op == "deriv" and w["mode"] == "lanczos" else 0))*(np.abs(A).sum(-1).max()+1)*(4 if op=="deriv" else 1)*max(1,np.abs(D).max())
		def fn():
			g = Guard(data, layout=lay[0]); box["g"] = g; od = None
			if op == "displace": return lensing.displace_map(enmap.enmap(g.a, copy=False), pts, **kw)
			if w["odata"]:
				o = Guard(np.full(want.shape, 7.5, dt), layout=lay[1]); box["o"] = o; od = o.a
			if op == "twostep": return interpol.map_coordinates(interpol.spline_filter(g.a, order=w["order"], border=w["border"], ndim=nd), pts, odata=od, prefilter=False, **kw)
			res = interpol.map_coordinates(g.a, pts, odata=od, deriv=(op=="deriv"), **kw)
			if od is not None and not np.array_equal(res, od, equal_nan=True): raise Violation("output", "the output array argument does not hold the result")
			return res
		def cmp(res):
			box["g"].check("the input array")
			if "o" in box: box["o"].check("the output array")
			if not np.array_equal(box["g"].a, data): raise Violation("input-modified", "interpolation changed its input array")
			fail("interpolation" if op != "deriv" else "derivative", res, want, tol)
	elif op in ("trans","dtrans","displace"):
		if op == "dtrans":
			A = np.array([outer([matrix1(w, n, Pd[k], k==j) for k,n in enumerate(dims)]) @ F for j in range(nd)])
			y = r.normal(0,1,(nd,)+pre+pdims).astype(dt)
			want = np.einsum("jpg,jap->ag", A, y.astype(float).reshape(nd,npre,npt)).reshape(pre+dims)
		else:
			A = outer([matrix1(w, n, Pd[k]) for k,n in enumerate(dims)]) @ F
			y = r.normal(0,1,pre+pdims).astype(dt)
			want = (y.astype(float).reshape(npre,npt) @ A).reshape(pre+dims)
		lan = 2e-4 if op == "dtrans" and w["mode"] == "lanczos" else 0
		tol  = (eps+ptol+lan)*(np.abs(A).sum((0,1) if op=="dtrans" else 0).max()+np.sqrt(npt)+1)*max(1,np.abs(y).max(initial=0))*(4 if op=="dtrans" else 2)
		def fn():
			gy = Guard(y, layout=lay[1]); box["y"] = gy
			if op == "displace": return lensing.displace_map(enmap.enmap(gy.a, copy=False), pts, trans=True, **kw)
			g = Guard(data, layout=lay[0]); box["g"] = g
			res = interpol.map_coordinates(g.a, pts, odata=gy.a, trans=True, deriv=(op=="dtrans"), **kw)
			if not np.array_equal(res, g.a, equal_nan=True): raise Violation("output", "the transposed result is not in the array that was passed in")
			return res
		def cmp(res):
			for k in box: box[k].check("an array argument")
			if not np.array_equal(box["y"].a, y): raise Violation("input-modified", "the transpose changed its input")
			fail("transpose", res, want, tol)
	else:
		want = (D @ (F.T if op == "filter" else F)).reshape(pre+dims)
		tol  = eps*(np.abs(F).sum(1).max()+1)*max(1,np.abs(D).max())
		def fn():
			g = Guard(data, layout=lay[0]); box["g"] = g
			return interpol.spline_filter(g.a, order=w["order"], border=w["border"], ndim=nd, trans=(op=="ftrans"))
		def cmp(res):
			box["g"].check("the input")
			if not np.array_equal(box["g"].a, data): raise Violation("input-modified", "the filter changed its input")
			fail("filter", res, want, tol)
	ompcheck.run_scheds(case, ctx, fn, cmp, w)
	ctx.sample(dict(w=w, sched=case["scheds"][0]))

def shrink(case):
	def sw(w):
		if w["pre"]: yield dict(w, pre=[])
		if w["op"] != "displace":
			for pd in ([1],[2],[5]):
				if np.prod(pd) < np.prod(w["pdims"] or [1]): yield dict(w, pdims=pd)
		for k in range(len(w["dims"])):
			if w["dims"][k] > 2: yield dict(w, dims=[2 if j==k else d for j,d in enumerate(w["dims"])])
			if w["dims"][k] > 3: yield dict(w, dims=[d//2+1 if j==k else d for j,d in enumerate(w["dims"])])
		if w["where"] not in ("grid","in"): yield dict(w, where="in")
		if w["odata"]: yield dict(w, odata=False)
		if w["dt"] == 4: yield dict(w, dt=8)
		if "".join(w.get("lay","CC")) != "CC": yield dict(w, lay=["C","C"])
	return ompcheck.shrink(case, sw)
