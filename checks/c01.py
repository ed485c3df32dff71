"""C01: spherical-harmonic coefficient kernels give the sequential answer under every
thread schedule."""
ID    = "C01"
NCASE = {"quick": 20000, "thorough": 300000}
RULE  = "case = random alm layout (lmax<=24, mmax<=lmax, triangular/rectangular, stride 1), dtype, operation and operand shapes, executed under 6 seeded schedules; non-trivial when the run had more context switches than two per parallel region or a team of one was forced"
MEASURE = "64-bit hash of the full sequence of (region, thread, event, target) switches combined with the workload"
REAL  = ["pixell/curvedsky.py", "cython/cmisc.pyx", "cython/cmisc_core.c (instrumented)"]
STUB  = ["libgomp -> simgomp (coroutine threads, seeded scheduler)", "malloc/calloc/np.empty -> dirty memory variants"]
ASSUME = ["sequentially consistent memory (no weak-memory reordering)", "preemption only at instrumented accesses and OpenMP constructs"]
import numpy as np
from simlib.core import Violation, np_rng
from simlib import ompcheck
from simlib.ompcheck import close, Guard
from pixell import curvedsky

def gen(rng, tier, i):
	lmax = rng.choice([0,1,2,3,4,5,7,8,11,16,24])
	mmax = lmax if rng.random() < 0.5 else rng.randint(0,lmax)
	op   = rng.choice(["alm2cl","alm2cl","lmul","lmul","lmatmul","lmatmul","lmatmul","rand_alm"])
	w = dict(op=op, lmax=lmax, mmax=mmax, layout=rng.choice(["tri","tri","rect"]), dtype=rng.choice(["c8","c16"]), seed=rng.getrandbits(32), api=rng.choice(["ainfo","fun"]))
	if op == "alm2cl":
		w["form"] = rng.choice(["auto","cross","matauto","matcross","pre","pre2","mixed","strided","bcast"])
	elif op == "lmul":
		w["lf"] = rng.choice([lmax, lmax, max(0,lmax-rng.randint(0,5)), lmax+rng.randint(1,6)])
		w["form"] = rng.choice(["1d","pre","prefilt","bothpre","out","inplace","strided","fun"])
	elif op == "lmatmul":
		w["lf"] = rng.choice([lmax, lmax, max(0,lmax-rng.randint(0,5)), lmax+rng.randint(1,6)])
		w["n"] = rng.randint(1,4); w["m"] = rng.randint(1,4)
		w["form"] = rng.choice(["new","out","inplace"])
		if w["form"] == "inplace": w["m"] = w["n"]
	else:
		w["nc"] = rng.choice([0,1,2,3]); w["mm"] = rng.random() < 0.5
		w["layout"] = "tri"; w["lmax"] = max(w["lmax"],1); w["mmax"] = w["lmax"]
	return dict(w=w, scheds=ompcheck.gen_scheds(rng, 6))

def lm_index(w, ainfo):
	"""index arrays l, m, i of all valid coefficients, from the documented layout alone"""
	L, M, I = [], [], []
	lmax, mmax = w["lmax"], w["mmax"]
	for m in range(mmax+1):
		for l in range(m, lmax+1):
			L.append(l); M.append(m)
			I.append(m*(2*lmax+1-m)//2+l if w["layout"]=="tri" else m*(lmax+1)+l)
	return np.array(L), np.array(M), np.array(I)

def run(case, ctx):
	w  = case["w"]; r = np_rng(w["seed"])
	ainfo = curvedsky.alm_info(lmax=w["lmax"], mmax=w["mmax"], layout=w["layout"])
	L, M, I = lm_index(w, ainfo)
	dt = np.dtype(w["dtype"]); rt = np.zeros(1,dt).real.dtype
	rtol = 2e-4 if dt == np.complex64 else 1e-11
	N = ainfo.nelem
	if I.max() >= N: raise Violation("layout", "alm_info.nelem=%d cannot hold index %d" % (N, I.max()))
	def ralm(*pre):
		a = r.standard_normal(pre+(N,)) + 1j*r.standard_normal(pre+(N,))
		a[...,I[M==0]] = a[...,I[M==0]].real
		return a.astype(dt)
	full = ainfo.mmax == ainfo.lmax and w["layout"] == "tri"
	nt = [w, len(I)]
	if w["op"] == "alm2cl":
		f = w["form"]
		a2 = None
		if   f == "auto":     a = ralm()
		elif f == "cross":    a = ralm(); a2 = ralm()
		elif f == "matauto":  b = ralm(3); a = b[:,None]; a2 = b[None,:]
		elif f == "matcross": a = ralm(2)[:,None]; a2 = ralm(3)[None]
		elif f == "pre":      a = ralm(2,2)
		elif f == "pre2":     a = ralm(3); a2 = ralm(3)
		elif f == "mixed":    a = ralm(2).astype(np.complex64); a2 = ralm(2).astype(np.complex128); rt = np.dtype("f8"); rtol=1e-11
		elif f == "strided":  a = np.moveaxis(np.ascontiguousarray(np.moveaxis(ralm(3),0,-1)),-1,0); a2 = ralm(3)
		elif f == "bcast":    a = ralm(2,1); a2 = ralm(3)
		x, y = np.broadcast_arrays(a, a if a2 is None else a2)
		X, Y = x[...,I].astype(np.complex128), y[...,I].astype(np.complex128)
		prod = (X*Y.conj()).real*np.where(M==0,1,2)
		# the m=0 modes of a real field are real; only their real part counts
		prod[...,M==0] = X[...,M==0].real*Y[...,M==0].real
		want = np.zeros(x.shape[:-1]+(w["lmax"]+1,)); scale = want.copy()
		for l in range(w["lmax"]+1):
			want[...,l]  = prod[...,L==l].sum(-1)/(2*l+1)
			scale[...,l] = np.abs(prod[...,L==l]).sum(-1)/(2*l+1)
		ca, ca2 = a.copy(), None if a2 is None else a2.copy()
		def fn():
			if w["api"] == "fun": return curvedsky.alm2cl(a, a2, ainfo=None if full else ainfo)
			return ainfo.alm2cl(a, a2)
		def cmp(cl):
			if cl.dtype != rt: raise Violation("dtype", "spectrum dtype %s, expected %s" % (cl.dtype, rt))
			close("spectrum", (cl-want)/(scale+1e-30), np.zeros_like(want), 0, 30*np.finfo(rt).eps*np.sqrt(w["lmax"]+1), what="relative error of cl")
			if not (np.array_equal(a, ca) and (a2 is None or np.array_equal(a2,ca2))): raise Violation("input-modified", "alm2cl changed its input")
		ompcheck.run_scheds(case, ctx, fn, cmp, nt)
	elif w["op"] == "lmul":
		f = w["form"]; nl = w["lf"]+1
		lpre = (); apre = ()
		if f == "pre": apre = (2,3)
		elif f == "prefilt": lpre = (3,)
		elif f == "bothpre": apre, lpre = (3,), (3,)
		elif f in ("out","inplace"): apre = (2,)
		elif f == "strided": apre = (3,)
		a  = ralm(*apre); lf = r.standard_normal(lpre+(nl,)).astype(rt)
		lfp= np.zeros(lpre+(max(nl,w["lmax"]+1),), rt); lfp[...,:nl] = lf
		if f == "fun":
			lfp = (1/(np.arange(w["lmax"]+1.0)+1)).astype(rt)
		pre = np.broadcast_shapes(apre, lpre)
		want = np.broadcast_to(a, pre+(N,))[...,I]*np.broadcast_to(lfp, pre+lfp.shape[-1:])[...,L]
		if f == "strided":
			tmp = np.ascontiguousarray(np.moveaxis(a,0,-1)); a_in = np.moveaxis(tmp,-1,0)
		else: a_in = a
		box = {}
		def fn():
			x = a_in.copy() if f == "inplace" else a_in
			if f == "inplace":
				g = Guard(a); box["g"] = g; o = ainfo.lmul(g.a, lf, g.a)
			elif f == "out":
				g = Guard(np.full(a.shape, 7, dt)); box["g"] = g; o = ainfo.lmul(a_in, lf, out=g.a)
			elif f == "fun": o = curvedsky.almxfl(a_in, lambda l: 1/(l+1), ainfo=None if full else ainfo)
			elif w["api"] == "fun": o = curvedsky.almxfl(a_in, lf, ainfo=None if full else ainfo)
			else: o = ainfo.lmul(a_in, lf)
			return o
		ca = a.copy()
		def cmp(o):
			if o.dtype != dt: raise Violation("dtype", "lmul result dtype %s, expected %s" % (o.dtype, dt))
			if o.shape != pre+(N,): raise Violation("shape", "lmul result shape %s" % (o.shape,))
			close("lmul", o[...,I], want, 4*np.finfo(rt).eps, what="lmul result")
			if "g" in box:
				box["g"].check("the output alm"); close("lmul", box["g"].a[...,I], want, 4*np.finfo(rt).eps, what="lmul out argument")
			if not np.array_equal(a, ca): raise Violation("input-modified", "lmul changed its input")
		ompcheck.run_scheds(case, ctx, fn, cmp, nt)
	elif w["op"] == "lmatmul":
		n, m, nl = w["n"], w["m"], w["lf"]+1
		a = ralm(m); lf = r.standard_normal((n,m,nl)).astype(rt)
		lfp = np.zeros((n,m,max(nl,w["lmax"]+1))); lfp[...,:nl] = lf
		want = np.einsum("abi,bi->ai", lfp[...,L], a[:,I].astype(np.complex128))
		scale= np.einsum("abi,bi->ai", np.abs(lfp[...,L]), np.abs(a[:,I]))
		box = {}
		def fn():
			if w["form"] == "inplace":
				g = Guard(a); box["g"] = g; return ainfo.lmul(g.a, lf, g.a)
			elif w["form"] == "out":
				g = Guard(np.full((n,N), 7, dt)); box["g"] = g; return ainfo.lmul(a, lf, out=g.a)
			else:
				# out is allocated by the library, but we can at least guard the input
				g = Guard(a); box["g"] = g; return ainfo.lmul(g.a, lf)
		def cmp(o):
			if o.dtype != dt: raise Violation("dtype", "lmul result dtype %s, expected %s" % (o.dtype, dt))
			if o.shape != (n,N): raise Violation("shape", "lmul result shape %s" % (o.shape,))
			close("lmatmul", np.abs(o[:,I]-want)/(scale+1e-30), np.zeros(want.shape), 0, 20*np.finfo(rt).eps, what="relative error of matrix product")
			box["g"].check("the alm buffers")
			if w["form"] == "new" and not np.array_equal(box["g"].a, a): raise Violation("input-modified", "lmul changed its input")
		ompcheck.run_scheds(case, ctx, fn, cmp, nt)
	else:
		nc = w["nc"]; nl = w["lmax"]+1
		if nc == 0: ps = 1/(1.0+np.arange(nl))
		else:
			A = r.standard_normal((nl,nc,nc)); ps = np.moveaxis(np.einsum("lab,lcb->lac",A,A),0,-1)
		sd = w["seed"] % 1000
		ref = []
		def fn():
			np.random.seed(r.integers(1000)); np.random.standard_normal(int(r.integers(5)))
			return curvedsky.rand_alm(ps, seed=sd, dtype=dt, m_major=w["mm"])
		def cmp(o):
			if o.shape != ((nc,) if nc else ())+(N,): raise Violation("shape", "rand_alm shape %s" % (o.shape,))
			if not ref: ref.append(fn())   # simulation off: sequential execution
			if not np.array_equal(ref[0], o): raise Violation("reproducible", "the same seed gave different alms under a different schedule")
			if np.abs(o[...,I[M==0]].imag).max() > 0: raise Violation("reality", "m=0 coefficients are not real")
		ompcheck.run_scheds(case, ctx, fn, cmp, nt)
	ctx.sample(dict(w=w, schedules=[s["policy"] for s in case["scheds"]]))

def shrink_w(w):
	for l in (1,2,3,w["lmax"]//2,w["lmax"]-1):
		if 0 <= l < w["lmax"]:
			w2 = dict(w, lmax=l, mmax=min(l,w["mmax"]))
			if "lf" in w: w2["lf"] = max(0, w["lf"]-(w["lmax"]-l))
			yield w2
	if w["mmax"] > 1: yield dict(w, mmax=w["mmax"]//2)
	for k in ("n","m"):
		if w.get(k,0) > 1 and w["form"] != "inplace": yield dict(w, **{k:1})
def shrink(case): return ompcheck.shrink(case, shrink_w)
