"""C14: a random realisation is fixed by its seed and has exactly the requested covariance."""
ID    = "C14"
NCASE = {"quick": 3000, "thorough": 60000}
RULE  = "case = (history) 2-8 draws of maps or harmonic coefficients, seeded or not, interleaved with other users of the global random stream, reseeding, draws aborted inside the random source, results overwritten by the caller and garbage in fresh memory, every seeded draw compared with the same draw alone in a fresh copy of the process; (cov) the random source replaced by unit vectors, which gives the exact covariance of the realisation, compared with the requested spectrum; (common) coefficients drawn to two different multipole limits, compared on the common ones; (phi) separate seeds for lensing field and background; non-trivial when a draw followed another user of the random source, or for a distinct covariance or pair of limits"
MEASURE = "64-bit hash of the sequence of draws, other uses of the source and aborts"
REAL  = ["pixell/curvedsky.py rand_*, fill_gauss, alm_info", "pixell/enmap.py rand_*", "pixell/lensing.py rand_alm, rand_map", "pixell/uharm.py hrand", "cmisc kernels", "healpy synalm", "numpy legacy random generator (history, common, phi)"]
STUB  = ["source of normal deviates -> unit vectors (cov)", "fresh memory contents -> seeded garbage"]
ASSUME = ["draws happen in one thread: the global stream is not shared with a concurrent drawer"]
import numpy as np
from simlib.core import Violation, HarnessError, np_rng
from simlib import disk, omp
from pixell import enmap, curvedsky, lensing, uharm, utils, wcsutils
import warnings
def setup():
	warnings.simplefilter("ignore")
	import healpy, ducc0
KINDS = ["alm1","alm3","almT","white","whitebuf","healpy1","healpy3","lens","lensphi","map","map3","mapiso","mapbig","cmap","cmap3","lmap","lmap1","almbig","hrandc"]
def gen_draw(rng):
	return dict(k=rng.choice(KINDS), seed=rng.choice([None,None,0,1,2,7,12345,rng.getrandbits(32)]), p=rng.randrange(1000), dt=rng.choice(["f8","f8","f4"]))
def gen(rng, tier, i):
	u = rng.random()
	if u < 0.5:
		ops, pool = [], [gen_draw(rng) for k in range(3)]
		for k in range(rng.choice([2,3,4,6,8])):
			v = rng.random()
			if v < 0.7:
				d = dict(rng.choice(pool))
				if rng.random() < 0.25: d["seed"] = rng.choice([None,0,1,3])
				if rng.random() < 0.15: d["abort"] = rng.randrange(3)
				ops.append(dict(op="draw", d=d))
			else: ops.append(dict(op=rng.choice(["noise","noise","seed","legacy"]), n=rng.choice([0,1,2,3,17,100])))
		return dict(mode="history", ops=ops, dirty=rng.choice([0,1,2,3]), poison=rng.random()<0.5)
	if u < 0.8: return dict(mode="cov", k=rng.choice(["alm","alm","alm","healpy","lens","lensphi","white","gauss","gaussh","map4","map4","mapw","mapq","cmapc"]), seed=rng.getrandbits(32), lmax=rng.choice([0,1,2,3,4]), nl=rng.choice([-1,0,0,2]), nc=rng.choice([1,1,2,3]), form=rng.choice([1,2,3,3]), dt=rng.choice(["f8","f8","f4"]), ny=rng.choice([1,2,3,4]), nx=rng.choice([1,2,3,5]), pu=rng.random()<0.5, scal=rng.random()<0.6, lay=rng.choice(["tri","rect","mmax"]), dirty=rng.choice([0,1,2]))
	if u < 0.93: return dict(mode="common", seed=rng.choice([0,1,rng.getrandbits(32)]), l1=rng.choice([1,3,10,40,200,255,256,300]), l2=rng.choice([2,5,20,64,180,254,255,256,257,320]), dt=rng.choice(["f8","f8","f4"]), long=rng.random()<0.5, noise=rng.choice([0,5]))
	return dict(mode="phi", seed=rng.getrandbits(32), s1=rng.choice([0,1,5]), s2=rng.choice([2,3,0]), s3=rng.choice([8,9]), lmax=rng.choice([3,6,12]), nc=rng.choice([1,2,3]), dt=rng.choice(["f8","f4"]), map=rng.random()<0.3)
def shrink(case):
	if case["mode"] != "history":
		for k,v in dict(dirty=0, lmax=1, nc=1, dt="f8", noise=0, map=False).items():
			if k in case and case[k] != v: yield dict(case, **{k:v})
		return
	o = case["ops"]
	for i in range(len(o)):
		if len(o) > 1: yield dict(case, ops=o[:i]+o[i+1:])
	for i,x in enumerate(o):
		if x["op"] == "draw" and "abort" in x["d"]: yield dict(case, ops=o[:i]+[dict(op="draw",d={k:v for k,v in x["d"].items() if k != "abort"})]+o[i+1:])
	if case["dirty"]: yield dict(case, dirty=0)
	if case["poison"]: yield dict(case, poison=False)

# ---- the draws
def spec(r, nc, nl, phi=False):
	"""positive definite spectrum [nc,nc,nl]"""
	l = np.arange(nl)+1.0
	A = r.standard_normal((nc,nc,nl))*0.4; 
	for i in range(nc): A[i,i] += 1.5+i
	q = r.random()
	if q < 0.4:   # groups of components that are not correlated with each other
		g = r.integers(0,2,nc); A[g[:,None] != g[None,:]] = 0
	if nl > 3 and r.random() < 0.3: A[:,:,:2] = 0   # no monopole and dipole
	ps = np.einsum("abl,cbl->acl", A, A)/l**1.3
	if phi: ps[0,1:] = 0; ps[1:,0] = 0
	return ps
def geo(n, pre=()):
	shape, wcs = enmap.geometry(np.array([[-2,2],[2,-2]])*utils.degree, shape=[(4,6),(5,5),(7,3)][n%3], proj="car")
	return tuple(pre)+tuple(shape[-2:]), wcs
def fullgeo(pre=()):
	shape, wcs = enmap.fullsky_geometry(res=20*utils.degree); return tuple(pre)+tuple(shape), wcs
def draw(d, buf=None):
	k, s, p, dt = d["k"], d["seed"], d["p"], d["dt"]; r = np_rng(p%7); ct = np.result_type(dt,0j); lm = [3,5,8][p%3]
	if k == "alm1": return curvedsky.rand_alm(spec(r,1,lm+1)[0,0], seed=s, dtype=ct)
	if k == "alm3": return curvedsky.rand_alm(spec(r,3,lm+1), lmax=[None,lm-1,lm+2][p//3%3], seed=s, dtype=ct)
	if k == "almT": return curvedsky.rand_alm(spec(r,2,lm+1), seed=s, dtype=ct, m_major=False, return_ainfo=False)
	if k == "almbig": return curvedsky.rand_alm(spec(r,1+p%2,257), seed=s, dtype=ct)
	if k == "white": return curvedsky.rand_alm_white(curvedsky.alm_info(lmax=lm), pre=[None,[2],[2,3]][p//3%3], seed=s, dtype=ct, m_major=p%2>0)
	if k == "whitebuf":
		a = np.empty((2,curvedsky.alm_info(lmax=lm).nelem), ct); return curvedsky.rand_alm_white(curvedsky.alm_info(lmax=lm), alm=a, seed=s)
	if k == "healpy1": return curvedsky.rand_alm_healpy(spec(r,1,lm+1)[0,0], seed=s)
	if k == "healpy3": return curvedsky.rand_alm_healpy(spec(r,3,lm+1), lmax=[None,lm-1][p//3%2], seed=s)
	if k == "lens": return list(lensing.rand_alm(spec(r,3,lm+1), lmax=lm, dtype=np.dtype(dt), seed=s, ncomp=1+p%2)[:2])
	if k == "lensphi": return list(lensing.rand_alm(spec(r,3,lm+1), lmax=lm, dtype=np.dtype(dt), seed=s, phi_seed=s+1 if s is not None else None, ncomp=2)[:2])
	if k == "map": return enmap.rand_map(*geo(p), spec(r,1,300)[0,0], seed=s)
	if k == "map3": return enmap.rand_map(*geo(p,(3,)), spec(r,3,300), seed=s, scalar=p%2>0, iau=p%3>0)
	if k == "mapiso":
		sh, w = geo(p,(2,)); return enmap.rand_map(sh, w, np.moveaxis(np.full(sh[-2:]+(2,2),0.3)+np.eye(2),(2,3),(0,1)), seed=s, pixel_units=p%2>0, scalar=True)
	if k == "mapbig":
		sh, w = enmap.geometry(np.array([[-2,2],[2,-2]])*utils.degree, shape=(60,70), proj="car"); return enmap.rand_map(sh[-2:], w, spec(r,1,3000)[0,0], seed=s)
	if k == "cmap": return curvedsky.rand_map(*fullgeo(), spec(r,1,8)[0,0], lmax=7, dtype=np.dtype(dt), seed=s)
	if k == "cmap3": return curvedsky.rand_map(*fullgeo((3,)), spec(r,3,8), lmax=[None,6][p%2], dtype=np.dtype(dt), seed=s)
	if k == "lmap":
		sh, w = fullgeo((2,)); return list(lensing.rand_map(sh, w, spec(r,3,8,True)*1e-3, lmax=7, dtype=np.dtype(dt), seed=s, phi_seed=s, output="lu", spin=[0]))
	if k == "lmap1":
		sh, w = fullgeo(); a = lensing.rand_map(sh, w, spec(r,2,8,True)*1e-3, lmax=7, dtype=np.dtype(dt), seed=s, output="lu", spin=[0]); return [np.asarray(q).reshape(sh) for q in a]
	if k == "hrandc":
		sh, w = fullgeo(); return seeded(s, lambda: uharm.UHT(sh, w, mode="curved", lmax=7).hrand(spec(r,1,8)[0,0]))
	raise HarnessError(k)
def seeded(s, fn):
	if s is not None: np.random.seed(s)
	return fn()
def frozen(x): return [np.array(a) for a in (x if isinstance(x,(list,tuple)) else [x])]
def diff(a, b):
	if len(a) != len(b): return "%d instead of %d arrays" % (len(a), len(b))
	for x,y in zip(a,b):
		if x.shape != y.shape or x.dtype != y.dtype: return "%s %s instead of %s %s" % (x.dtype, x.shape, y.dtype, y.shape)
		if not np.all(np.isfinite(y)): return "not finite"
		e = np.max(np.abs(x-y)) if x.size else 0; s = np.max(np.abs(y)) if y.size else 0
		if not e <= (1e-10 if x.dtype.char in "dD" else 1e-4)*s: return "values differ by up to %.3g of %.3g" % (e, s)
REF = {}
def alone(d):
	d = {k:v for k,v in d.items() if k != "abort"}; key = tuple(sorted(d.items(), key=str))
	if key not in REF:
		if len(REF) > 400: REF.pop(next(iter(REF)))
		try: REF[key] = disk.in_child(lambda: frozen(draw(d)), 100)
		except disk.Remote as e: raise Violation("draw-failed", "%s alone: %s" % (d, e))
		except disk.Died as e: raise Violation("crash", "%s alone: %s" % (d, e))
	return REF[key]

class Abort(MemoryError): pass
class Source:
	"""the source of normal deviates behind numpy.random, counted, and replaced or failing on demand"""
	NAMES = ["standard_normal","randn","normal"]
	def __init__(self, vec=None, abort=None): self.vec, self.abort, self.n, self.calls = vec, abort, 0, 0
	def __enter__(self):
		self.old = {k:getattr(np.random,k) for k in self.NAMES}
		np.random.standard_normal = lambda size=None: self.get(size)
		np.random.randn = lambda *s: self.get(s if s else None)
		np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc+scale*self.get(np.broadcast(loc,scale).shape if size is None and np.broadcast(loc,scale).shape else size)
		return self
	def __exit__(self, *a):
		for k,f in self.old.items(): setattr(np.random, k, f)
		return False
	def get(self, size):
		if self.abort is not None and self.calls >= self.abort: raise Abort("injected")
		self.calls += 1
		if self.vec is None: v = self.old["standard_normal"](size); self.n += np.size(v); return v
		n = 1 if size is None else int(np.prod(size)); i, self.n = self.n, self.n+n
		if i+n > len(self.vec): out = np.zeros(n); out[:max(0,len(self.vec)-i)] = self.vec[i:]
		else: out = np.array(self.vec[i:i+n])
		return out[0] if size is None else out.reshape(size)

def run(case, ctx):
	m = case["mode"]; ctx.probe("mode_"+m)
	try: globals()["run_"+m](case, ctx)
	finally: omp._dirty[0] = 0
def run_history(case, ctx):
	refs = [alone(o["d"]) if o["op"] == "draw" and o["d"]["seed"] is not None else None for o in case["ops"]]
	np.random.seed(99); omp._dirty[0] = case["dirty"]
	if case["dirty"]: ctx.fault("dirty_memory")
	prev, seen, used = None, {}, False
	for i,o in enumerate(case["ops"]):
		if   o["op"] == "noise":  np.random.standard_normal(o["n"]); ctx.fault("other_user_of_the_source"); used = True; continue
		elif o["op"] == "legacy": np.random.random(o["n"]); np.random.randint(5, size=o["n"]); ctx.fault("other_user_of_the_source"); used = True; continue
		elif o["op"] == "seed":   np.random.seed(o["n"]); prev = None; ctx.fault("reseeded_by_other"); used = True; continue
		d = o["d"]; what = "step %d, %s" % (i, d)
		if "abort" in d:
			try:
				with Source(abort=d["abort"]): res = draw(d)
			except Abort: ctx.fault("source_failed"); used = True; continue
			except Exception as e: raise Violation("draw-failed", "%s: %s: %s" % (what, type(e).__name__, e))
		elif d["seed"] is None:
			st = np.random.get_state()
			a = draw(d); fa = frozen(a); after = np.random.get_state()
			np.random.set_state(st); b = draw(d); fb = frozen(b)
			r = diff(fb, fa)
			if r: raise Violation("not-repeatable", "%s: from the same state of the random generator: %s" % (what, r))
			fc = frozen(draw(d))
			if diff(fc, fb) is None: raise Violation("repeats", "%s: two successive unseeded draws are equal" % what)
			res, got = a, fa; used = True
		else:
			try: res = draw(d)
			except Exception as e: raise Violation("draw-failed", "%s: %s: %s" % (what, type(e).__name__, e))
			got = frozen(res); r = diff(got, refs[i])
			if r: raise Violation("seed-not-honoured", "%s: not the realisation this seed gives alone: %s" % (what, r))
			key = str({k:v for k,v in d.items() if k not in ("seed","abort")})
			for s2,g2 in seen.get(key,{}).items():
				if s2 != d["seed"] and diff(got, g2) is None: raise Violation("seed-ignored", "%s: the same realisation as with seed %s" % (what, s2))
			seen.setdefault(key,{})[d["seed"]] = got
		if case["poison"]:
			for a in (res if isinstance(res,list) else [res]): np.asarray(a)[...] = 13
	ctx.exec(ihash=case["ops"], nontrivial=case["ops"] if used or len(case["ops"]) > 1 else None, events=len(case["ops"]))
	ctx.sample({"ops": [o["op"] if o["op"] != "draw" else [o["d"]["k"],o["d"]["seed"]] for o in case["ops"]]})

def layout(c, lmax):
	if c["k"] != "alm" or c["lay"] == "tri": return None
	if c["lay"] == "rect": return curvedsky.alm_info(lmax=lmax, layout="rectangular")
	return curvedsky.alm_info(lmax=lmax, mmax=max(0,lmax-1))
def alm_cov(ps, ainfo, lmax, nc, realvar, half=True):
	"""expected covariance of the real and imaginary parts of [nc,nelem] coefficients"""
	ne = ainfo.nelem; C = np.zeros((nc,ne,2,nc,ne,2)); use = np.zeros(ne,bool)
	for m in range(ainfo.mmax+1):
		for l in range(m, lmax+1):
			i = int(ainfo.lm2ind(l,m)); use[i] = True
			P = ps[:,:,l] if l < ps.shape[-1] else np.zeros((nc,nc))
			if m == 0: C[:,i,0,:,i,0] = P
			else: C[:,i,0,:,i,0] = P/2; C[:,i,1,:,i,1] = P/2
	return C, use
def run_cov(case, ctx):
	if case["k"] == "mapw": case = dict(case, ny=case["ny"]+1, nx=case["nx"]+1)
	if case["k"] == "lensphi": case = dict(case, nc=max(2,case["nc"]))
	k = case["k"]; r = np_rng(case["seed"]); nc, lmax, dt = case["nc"], case["lmax"], case["dt"]; ct = np.result_type(dt,0j)
	omp._dirty[0] = case["dirty"]; tol = 1e-9 if dt == "f8" else 1e-5; use = None
	if k == "cmapc":
		sh, wcs = enmap.fullsky_geometry(res=45*utils.degree); nc = min(nc,2); ps = spec(r, nc, lmax+1); tol = max(tol,1e-5 if dt == "f4" else 0)
		if nc == 1 and case["form"] == 1: g = lambda: np.asarray(curvedsky.rand_map(sh, wcs, ps[0,0], lmax=[None,lmax][case["scal"]], dtype=np.dtype(dt), spin=[0]))[None]
		else: g = lambda: np.asarray(curvedsky.rand_map((nc,)+sh, wcs, ps, lmax=[None,lmax][case["scal"]], dtype=np.dtype(dt), spin=[0]))
		pos = enmap.posmap(sh, wcs).reshape(2,-1); vec = np.array([np.cos(pos[0])*np.cos(pos[1]),np.cos(pos[0])*np.sin(pos[1]),np.sin(pos[0])])
		want = np.zeros((nc,)+sh+(nc,)+sh)
		for a in range(nc):
			for b in range(nc): want[a,:,:,b] = np.polynomial.legendre.legval(vec.T@vec, (2*np.arange(lmax+1)+1)/(4*np.pi)*ps[a,b]).reshape(sh+sh)
	elif k in ("alm","healpy","lens","lensphi"):
		nl = max(1, lmax+1+case["nl"]); ainfo = layout(case, lmax)
		if ainfo is not None: nl = lmax+1+max(0,case["nl"])   # with a given layout the spectrum has to reach its limit
		if k == "healpy": nl = lmax+1; ainfo = None
		ps = spec(r, nc, nl); form = case["form"] if nc > 1 or case["form"] != 1 else 1
		if nc > 1 and form == 1: form = 3
		if form == 2:   # [nspec,nl], diagonal-first order
			arg = np.array([ps[i,i+s] for s in range(nc) for i in range(nc-s)])
		elif form == 1: arg = ps[0,0]
		else: arg = ps
		ai = ainfo if ainfo is not None else curvedsky.alm_info(lmax=lmax)
		if k == "alm": f = lambda: curvedsky.rand_alm(arg, ainfo=ainfo, lmax=None if ainfo is not None else lmax, dtype=ct)
		elif k == "healpy": tol = 1e-9; f = lambda: curvedsky.rand_alm_healpy(arg, lmax=lmax)
		else:
			tol = max(tol, 1e-6 if dt == "f4" else 0)
			def f():
				a, b, _ = lensing.rand_alm(ps, lmax=lmax, dtype=np.dtype(dt), seed=None if k == "lens" else 3, phi_seed=None if k == "lens" else 4, ncomp=nc-1 if nc > 1 else None)
				return np.concatenate([a[None],b])
		want, use = alm_cov(ps, ai, lmax, nc, None)
		def g(): x = np.asarray(f()).reshape(nc,-1); return np.stack([x.real,x.imag],-1)
	elif k == "white":
		ai = curvedsky.alm_info(lmax=lmax); f = lambda: curvedsky.rand_alm_white(ai, pre=[nc], dtype=ct)
		def g(): x = f(); return np.stack([x.real,x.imag],-1)
		want = np.eye(nc*ai.nelem*2).reshape((nc,ai.nelem,2)*2)
	else:
		sh, wcs = enmap.geometry(np.array([[-2,2],[2,-2]])*utils.degree, shape=(case["ny"],case["nx"]), proj="car"); sh = tuple(sh[-2:]); N = sh[0]*sh[1]
		if k == "gauss":
			g = lambda: np.asarray(enmap.rand_gauss((nc,)+sh, wcs, dtype=np.dtype(dt))); want = np.eye(nc*N).reshape((nc,)+sh+(nc,)+sh)
		elif k == "gaussh":
			def g(): x = np.asarray(enmap.rand_gauss_harm((nc,)+sh, wcs)); return np.stack([x.real,x.imag],-1)
			want = np.eye(nc*N*2).reshape(((nc,)+sh+(2,))*2)
		else:
			tol = 1e-9
			if k == "map4":
				P = np.moveaxis(spec(r, nc, N).reshape(nc,nc,*sh),(),()); fac = 1.0 if case["pu"] else N/enmap.area(sh,wcs)
				g = lambda: np.asarray(enmap.rand_map((nc,)+sh, wcs, enmap.ndmap(P.copy(),wcs), scalar=True, pixel_units=case["pu"]))
			elif k == "mapq":
				nc = 3; P = spec(r, 3, N).reshape(3,3,*sh); fac = 1.0 if case["pu"] else N/enmap.area(sh,wcs); iau = case["form"] == 2
				arg = P.copy()
				kw = {} if case["form"] == 1 else dict(iau=iau)
				g = lambda: np.asarray(enmap.rand_map((3,)+sh, wcs, enmap.ndmap(arg.copy(),wcs), pixel_units=case["pu"], **kw))
				ly, lx = np.asarray(enmap.lmap(sh, wcs)); a = 2*np.arctan2(lx if iau else -lx, ly); z, o = 0*a, 0*a+1
				R = np.array([[o,z,z],[z,np.cos(a),-np.sin(a)],[z,np.sin(a),np.cos(a)]]); P = np.einsum("abyx,bcyx,dcyx->adyx", R, P, R)
			else:
				c0 = spec(r, nc, 1)[:,:,0]; P = c0[:,:,None,None]+np.zeros(sh); fac = N/enmap.area(sh,wcs)
				nlx = int(np.max(enmap.modlmap(sh,wcs)))+3; scal = case["scal"] or nc > 1
				one = np.repeat(c0[:,:,None],nlx,-1)
				if nc == 1 and case["form"] == 1: g = lambda: np.asarray(enmap.rand_map(sh, wcs, one[0,0], scalar=scal))[None]
				else: g = lambda: np.asarray(enmap.rand_map((nc,)+sh, wcs, one, scalar=scal))
			ky, kx = np.fft.fftfreq(sh[0]), np.fft.fftfreq(sh[1]); yy, xx = np.mgrid[:sh[0],:sh[1]]
			ph = np.exp(2j*np.pi*(ky[:,None,None,None]*yy+kx[None,:,None,None]*xx))  # [ky,kx,y,x]
			want = np.einsum("abij,ijyx,ijvu->ayxbvu", P*fac, ph, ph.conj()).real/N
	with Source() as s0: first = g()
	if s0.n == 0: ctx.probe("source_not_seen"); return
	n = s0.n
	def at(v):
		with Source(vec=v): return np.asarray(g(), float)
	base = at(np.zeros(n))
	if np.max(np.abs(base[np.isfinite(base)]), initial=0) > 0 or not np.all(np.isfinite(base[:,use] if use is not None else base)): raise Violation("biased", "%s: a source of zeros does not give a zero realisation" % (case,))
	M = np.empty((first.size,n))
	for i in range(n):
		e = np.zeros(n); e[i] = 1; M[:,i] = at(e).reshape(-1)
	v = r.standard_normal(n); sc = max(1e-30, np.max(np.abs(M), initial=0))
	got = at(v).reshape(-1); lin = M@v
	e = np.abs(got-lin); 
	if not np.nanmax(e, initial=0) <= 10*np.sqrt(n)*tol*sc: raise Violation("not-gaussian", "%s: the realisation is not linear in the normal deviates: off by %g" % (case, np.nanmax(e)))
	cov = (M@M.T).reshape(first.shape*2)
	if use is not None: cov, want = cov[:,use][:,:,:,:,use], want[:,use][:,:,:,:,use]
	e = np.max(np.abs(cov-want), initial=0); sc = np.max(np.abs(want), initial=0)
	if not e <= 30*tol*max(sc,1e-300):
		j = np.unravel_index(np.argmax(np.abs(cov-want)), cov.shape)
		raise Violation("wrong-covariance", "%s: element %s of the covariance is %g, expected %g" % (case, [int(q) for q in j], cov[j], want[j]))
	ctx.probe("covariances"); ctx.fault("deviates_replaced", n)
	ctx.exec(ihash=case, nontrivial=case, events=n)
	ctx.sample({"cov": k, "deviates": n, "components": nc})

def run_common(case, ctx):
	s, l1, l2 = case["seed"], case["l1"], case["l2"]; ct = np.result_type(case["dt"],0j); r = np_rng(5)
	ps = spec(r,1,max(l1,l2)+1+(7 if case["long"] else 0))[0,0]; out = []
	for l in (l1,l2):
		np.random.standard_normal(case["noise"])
		p = ps if case["long"] else ps[:l+1]
		a, ai = curvedsky.rand_alm(p, lmax=l if case["long"] else None, seed=s, dtype=ct, return_ainfo=True)
		if ai.lmax != l: raise Violation("wrong-limit", "%s: the coefficients go to %d, not %d" % (case, ai.lmax, l))
		out.append((a, ai))
	(a1,i1), (a2,i2) = out
	for m in range(0, min(l1,l2)+1):
		l = np.arange(m, min(l1,l2)+1)
		x, y = a1[[int(q) for q in i1.lm2ind(l,m)]], a2[[int(q) for q in i2.lm2ind(l,m)]]
		if not np.max(np.abs(x-y), initial=0) <= (1e-12 if case["dt"] == "f8" else 1e-5)*np.max(np.abs(x), initial=1e-30): raise Violation("resolution-dependent", "%s: the coefficients at m=%d differ" % (case, m))
	ctx.probe("several_blocks", 2*i1.nelem > 65536 or 2*i2.nelem > 65536)
	ctx.exec(ihash=case, nontrivial=case if l1 != l2 else None, events=2)

def run_phi(case, ctx):
	r = np_rng(case["seed"]); nc, lmax = case["nc"], case["lmax"]; ps = spec(r,1+nc,lmax+1,True)
	def f(s, t):
		np.random.standard_normal(3)
		return lensing.rand_alm(ps, lmax=lmax, dtype=np.dtype(case["dt"]), seed=s, phi_seed=t, ncomp=nc)[:2]
	s1, s2, s3 = case["s1"], case["s2"], case["s3"]
	p1, c1 = f(s1, s3); p2, c2 = f(s2, s3); p3, c3 = f(s1, s2)
	p4, c4 = f(s1, s3)
	tol = 1e-12 if case["dt"] == "f8" else 1e-5
	eq = lambda a,b: np.max(np.abs(a-b)) <= tol*np.max(np.abs(a))
	if not eq(p1,p4) or not eq(c1,c4): raise Violation("seed-not-honoured", "%s: not repeatable" % case)
	if not eq(p1,p2): raise Violation("seeds-mixed", "%s: the lensing field depends on the seed of the background" % case)
	if not eq(c1,c3): raise Violation("seeds-mixed", "%s: the background depends on the seed of the lensing field" % case)
	if s1 != s2 and eq(c1,c2): raise Violation("seed-ignored", "%s: the background ignores its seed" % case)
	if s2 != s3 and eq(p1,p3): raise Violation("seed-ignored", "%s: the lensing field ignores its seed" % case)
	for a in (p1[None], c1):
		if np.max(np.abs(a[:,:lmax+1].imag)) > 0: raise Violation("not-real", "%s: coefficients with m=0 are complex" % case)
	ctx.exec(ihash=case, nontrivial=case, events=4)
