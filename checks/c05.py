"""C05: threaded per-pixel array operations (small matrix products, row rolling, coordinate
conversion, contour detection, map colorisation) equal their per-pixel definition."""
ID    = "C05"
NCASE = {"quick": 40000, "thorough": 500000}
RULE  = "case = random array with missing, infinite, saturated and tied values, random operation (colour scheme lookup, direct and jointly capped rgb/rgba, matrix-vector products along arbitrary axes, row rolling, angle to vector conversion, contours), executed under 4 seeded schedules; non-trivial when the run had more context switches than two per parallel region or a team of one was forced"
MEASURE = "64-bit hash of the full sequence of (region, thread, event, target) switches combined with the workload"
REAL  = ["pixell/colorize.py", "pixell/array_ops.py", "fortran/colorize.f90, fortran/array_ops.F90 (instrumented)"]
STUB  = ["libgomp -> simgomp (coroutine threads, seeded scheduler)", "np.empty -> dirty memory variants"]
ASSUME = ["sequentially consistent memory", "preemption only at instrumented accesses and OpenMP constructs", "a half-way rounding of a colour may go either way"]
import numpy as np
from simlib.core import Violation, np_rng
from simlib import ompcheck
from pixell import colorize, array_ops

SCHEMES = ["planck","gray","wmap","hotcold","nozero","viridis","cubehelix","0:000000,1:ffffff80","-1:ff0000,0.25:00ff0000,0.25:12345678,3:0000ff"]
def gen(rng, tier, i):
	op = rng.choice(["scalar"]*3+["direct","direct","cap","cap","matmul","matmul","sym","roll","ang","contour"])
	w = dict(op=op, seed=rng.getrandbits(32), shape=rng.choice([[1],[3],[7],[40],[5,6],[17,9],[2,3,4]]), scheme=rng.choice(SCHEMES), nan=rng.choice([0,0.1,0.5]), amp=rng.choice([0.3,1,3,1e5,1e9]), nc=rng.choice([3,4]), dt=rng.choice([4,8]), n=rng.choice([1,2,3,4,6]), m=rng.choice([1,2,3,5]), first=rng.random()<0.5, nv=rng.choice([1,2,5]))
	return dict(w=w, scheds=ompcheck.gen_scheds(rng, 4))

def lookup(vals, cols, v):
	"""colour of each value: float rgba, linear between the nodes, clamped outside"""
	out = np.zeros(v.shape+(4,))
	for i in np.ndindex(v.shape):
		x = v[i]
		if np.isnan(x): continue
		j = int(np.searchsorted(vals, x, side="right"))
		if   j == 0:         out[i] = cols[0]
		elif j == len(vals): out[i] = cols[-1]
		else: out[i] = cols[j-1] + (x-vals[j-1])*(cols[j]-cols[j-1])/(vals[j]-vals[j-1])
	return out

def rounded(kind, res, want):
	res = np.asarray(res)
	if res.shape != want.shape: raise Violation(kind, "result has shape %s, expected %s" % (res.shape, want.shape))
	bad = ~(np.abs(res.astype(float)-np.clip(want,0,255)) <= 0.5+1e-6)
	if bad.any():
		I = tuple(int(x) for x in np.argwhere(bad)[0]); raise Violation(kind, "value %s is %r, expected %.6f rounded (%d of %d differ)" % (I, res[I], want[I], int(bad.sum()), bad.size))

def run(case, ctx):
	w = case["w"]; r = np_rng(w["seed"]); op = w["op"]; shape = tuple(w["shape"]); dt = np.dtype("f%d" % w["dt"])
	ctx.probe("op_"+op)
	lay = r.permutation(list("CCCTSWN")) if r.random() < 0.4 else "CCCC"
	gs  = []
	def L(a):
		"""the same array in some memory layout, guarded"""
		g = ompcheck.Guard(a, layout=str(lay[len(gs)])); gs.append((g, np.array(a))); return g.a
	if op == "scalar":
		cs = colorize.Colorscheme(w["scheme"])
		vals, cols = np.array(cs.vals, float), np.array(cs.cols, float)
		x  = r.uniform(-0.2, 1.2, shape)*min(w["amp"],3)
		fl = x.reshape(-1)
		fl[r.random(fl.size)<0.3] = r.choice(vals)
		fl[r.random(fl.size)<w["nan"]] = np.nan
		if fl.size > 5: fl[r.integers(fl.size)] = np.inf; fl[r.integers(fl.size)] = -np.inf
		want = lookup(vals, cols, x)
		keep = x.copy()
		drv = ["fortran","auto","python"][w["seed"]%3]
		if drv == "python": x[np.isin(x, vals[1:][vals[1:]==vals[:-1]])] = 0.1; want = lookup(vals, cols, x)
		keep = x.copy()
		x = L(x)
		fn = lambda: colorize.colorize(x, desc=w["scheme"], driver=drv)
		def cmp(res):
			if not np.array_equal(x, keep, equal_nan=True): raise Violation("input-modified", "colorize changed its input")
			rounded("colour", res, want)
	elif op in ("direct","cap"):
		nc = w["nc"]
		x  = r.uniform(-0.2, 1.1, (nc,)+shape)*w["amp"]
		if nc == 4: x[3] = r.uniform(0,1.1,shape)
		x[:,r.random(shape)<w["nan"]] = np.nan
		if op == "direct":
			want = np.clip(x*256,0,255)
		else:
			amp  = np.sqrt((x[:3]**2).sum(0)); sc = np.where(amp>1, 1/np.where(amp==0,1,amp), 1)
			want = np.concatenate([x[:3]*sc, x[3:]])*256
		want = np.clip(want,0,255)
		if nc == 3: want = np.concatenate([want, np.full((1,)+shape,255.)])
		want[:,np.isnan(x[0])] = 0
		want = np.moveaxis(want, 0, -1)
		x = L(x)
		fn = lambda: colorize.colorize(x, mode="direct" if op == "direct" else "direct_colorcap", driver="fortran")
		cmp = lambda res: rounded("colour", res, want)
	elif op in ("matmul","sym"):
		n = w["n"]; m = w["m"] if op == "matmul" else n
		A = r.normal(0,1,shape+(m,n)).astype(dt); b = r.normal(0,1,shape+(n,)).astype(dt)
		if op == "sym": A = (A+np.swapaxes(A,-1,-2)).astype(dt)
		if op == "matmul" and w["seed"]%3 == 0:   # mixed precision: the result has the higher one
			A, b = (A.astype("f4"), b.astype("f8")) if w["seed"]%2 else (A.astype("f8")*(1e30 if dt.itemsize==8 else 1), b.astype("f4")); dt = np.dtype("f8")
			if A.dtype == "f8" and w["seed"]%4 == 0: A = A*1e20; b = b*np.float32(1e25)
		want = np.einsum("...ij,...j->...i", A.astype(float), b.astype(float))
		axes = [-2,-1]
		if w["first"]:
			A = np.ascontiguousarray(np.moveaxis(A,[-2,-1],[0,1])); b = np.ascontiguousarray(np.moveaxis(b,-1,0)); want = np.moveaxis(want,-1,0); axes=[0,1]
		A, b = L(A), L(b)
		fn = lambda: (array_ops.matmul if op == "matmul" else array_ops.matmul_sym)(A, b, axes=axes)
		tol = (2e-5 if dt.itemsize==4 else 1e-11)*n*3; sc = max(1.0,np.max(np.abs(want), initial=0))
		def cmp(res): ompcheck.close("product", res, want, tol, tol*sc, what="product")
	elif op == "roll":
		ny, nx = w["n"]+2, w["m"]+2
		x = r.normal(0,1,(shape if len(shape)<2 else ())+(ny,nx)).astype(dt)
		lim = int(r.choice([1,1,1,3,50])); off = r.integers(-nx*lim, nx*lim+1, ny).astype(r.choice([np.int32,np.int64]))
		want = np.array([np.roll(x[...,y,:], off[y], -1) for y in range(ny)])
		want = np.moveaxis(want, 0, -2)
		x, off = L(x), L(off)
		if w["seed"]%3: fn = lambda: array_ops.roll_rows(x, off)
		else:
			o = ompcheck.Guard(np.full(x.shape, 3, dt)); gs.append((o, None))
			fn = lambda: array_ops.roll_rows(x, off, o.a)
		def cmp(res): ompcheck.close("roll", res, want, 0, what="rolled rows")
	elif op == "ang":
		a = r.uniform(-7,7,(int(np.prod(shape)),2)).astype(dt); f = a.astype(float)
		want = np.array([np.cos(f[:,0])*np.cos(f[:,1]), np.sin(f[:,0])*np.cos(f[:,1]), np.sin(f[:,1])]).T
		a = L(a)
		fn = lambda: array_ops.ang2rect(a)
		def cmp(res): ompcheck.close("vector", res, want, 0, 2e-6 if dt.itemsize==4 else 1e-14, what="vector")
	else:
		ny, nx = w["n"]+2, w["m"]+2
		x = r.normal(0,1,(ny,nx)).astype(dt); x[r.random((ny,nx))<w["nan"]] = np.nan
		vals = np.sort(r.normal(0,1,w["nv"])).astype(dt)
		b = np.where(np.isnan(x), 1, 1+np.searchsorted(vals, np.where(np.isnan(x),0,x), side="right"))
		want = np.zeros((ny,nx),int)
		for i in range(ny-1):
			for j in range(nx-1):
				# along the fast axis first
				if   b[i,j] != b[i,j+1]: want[i,j] = min(b[i,j],b[i,j+1])
				elif b[i,j] != b[i+1,j]: want[i,j] = min(b[i,j],b[i+1,j])
		x, vals = L(x), L(vals)
		if w["seed"]%2: fn = lambda: array_ops.find_contours(x, vals)
		else: fn = lambda: array_ops.find_contours(x, vals, omap=np.full((ny,nx),99,np.int32))
		def cmp(res): ompcheck.close("contours", res, want, 0, what="contour")
	def cmp2(res):
		cmp(res)
		for g, a in gs:
			g.check("an argument")
			if a is not None and not np.array_equal(g.a, a, equal_nan=True): raise Violation("input-modified", "%s changed its input" % op)
	ompcheck.run_scheds(case, ctx, fn, cmp2, w)
	ctx.sample(dict(w=w, sched=case["scheds"][0]))

def shrink(case):
	def sw(w):
		for s in ([1],[3],[7]):
			if np.prod(s) < np.prod(w["shape"]): yield dict(w, shape=s)
		if w["nan"]: yield dict(w, nan=0)
		if w["dt"] == 4: yield dict(w, dt=8)
	return ompcheck.shrink(case, sw)
