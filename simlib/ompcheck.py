"""Helper for checks whose executions are OpenMP kernels under the simulated runtime."""
import numpy as np, json
from . import omp
from .core import Violation, rng_for, hash64

def gen_sched(rng, kind=None):
	pol = kind or rng.choice(["random","random","pct","race","race","reverse","roundrobin","serial"])
	s = dict(seed=rng.getrandbits(48), nthreads=rng.choice([1,2,2,3,3,4,5,6,8,13,17,32]) if pol not in ("serial",) else rng.choice([1,2,7,32]),
		policy=pol, less=rng.choice([0,0,1]), junk=rng.choice([0,1,2,3]), clock=rng.choice([0,1,2,3,4]))
	if pol == "random": s["p"] = rng.choice([1.0,0.3,0.1,0.03,0.01,0.003])
	if pol == "race":   s["p"] = rng.choice([0.0,0.01,0.05,0.2])
	if pol == "pct":    s["npct"] = rng.choice([1,2,3,5,10,20]); s["horizon"] = rng.choice([100,1000,10000,100000])
	return s

def gen_scheds(rng, n):
	out = [gen_sched(rng, "random")]
	out += [gen_sched(rng, "race")]
	out += [gen_sched(rng) for i in range(n-2)]
	return out

def run_scheds(case, ctx, fn, compare, nontrivial=None):
	"""fn() executes the real code on fresh inputs and returns its result. compare(res)
	raises Violation when the result differs from the reference."""
	omp.reset_races()
	for spec in case["scheds"]:
		sc = omp.Sched(spec)
		err = None
		try:
			with sc: res = fn()
		except Exception as e:
			err = e
		st = sc.stats
		if st["failed"] == 2 and "maxev" not in spec:
			# Event budget exhausted: no progress, or just a big workload? Measure it serially.
			base = omp.Sched(dict(seed=1, nthreads=1, policy="serial", maxev=10**12))
			with base: fn()
			spec = dict(spec, maxev=10*base.stats["events"]+10**6); err = None
			sc = omp.Sched(spec)
			try:
				with sc: res = fn()
			except Exception as e: err = e
			st = sc.stats
		ctx.exec(ihash=(st["hash"] ^ hash64(case["w"])), nontrivial=(nontrivial if st["switches"] > st["regions"]*2 or st["maxteam"]<=1 else None), events=st["events"])
		ctx.fault("preemption", max(0, st["switches"]-st["regions"]*2))
		ctx.fault("fewer_threads_than_requested", st["fewer_threads"])
		ctx.fault("dirty_memory", (st["mallocs"]+st["dirty_arrays"]) if spec.get("junk") else 0)
		ctx.fault("clock_jump", st["clock_jumps"])
		ctx.probe("conflicting_accesses", st["conflicts"]); ctx.probe("barriers", st["barriers"]); ctx.probe("dynamic_chunks", st["chunks"])
		ctx.probe("team_of_%d" % st["maxteam"])
		try:
			if st["failed"]: raise Violation(omp.FAIL[st["failed"]], "kernel did not finish under the simulated schedule")
			if err is not None: raise err
			compare(res)
		except Violation as v:
			if "trace" not in spec and st["nsw"] <= 20000:
				tr, tm = sc.log()
				spec = dict(spec, trace=tr, teams=tm)
			v.case = dict(case, scheds=[spec])
			raise v
		except Exception as e:
			if "trace" not in spec and st["nsw"] <= 20000:
				tr, tm = sc.log()
				spec = dict(spec, trace=tr, teams=tm)
			from .worker_util import tb
			raise Violation("exception:%s" % type(e).__name__, tb(e), dict(case, scheds=[spec]))

def shrink(case, shrink_w=None):
	"""Candidates: smaller workload (with fresh schedules), then fewer switches."""
	sp = case["scheds"][0]
	if shrink_w is not None:
		for k, w2 in enumerate(shrink_w(case["w"])):
			r = rng_for(12345, k, hash64(w2))
			sc = []
			for j in range(8):
				s = gen_sched(r, "race" if j%2 else "random"); s["nthreads"] = min(sp["nthreads"], 2+j%3)
				for f in ("less","junk","clock"): s[f] = sp.get(f,0)
				sc.append(s)
			yield dict(case, w=w2, scheds=sc)
	if "trace" in sp:
		tr = sp["trace"]
		for f in ("less","junk","clock"):
			if sp.get(f): yield dict(case, scheds=[dict(sp, **{f:0})])
		n = len(tr); size = n
		while size >= 1:
			if n/size > 64: break
			for a in range(0, n, size):
				yield dict(case, scheds=[dict(sp, trace=tr[:a]+tr[a+size:])])
			size //= 2

def close(kind, got, want, rtol, atol=0.0, mask=None, what=""):
	got = np.asarray(got); want = np.asarray(want)
	if got.shape != want.shape: raise Violation(kind, "%s has shape %s, expected %s" % (what, got.shape, want.shape))
	gn, wn = np.isnan(got), np.isnan(want)
	with np.errstate(all="ignore"):
		bad = (gn != wn) | (~wn & ~(np.abs(got-want) <= atol + rtol*np.abs(want)) & ~(got == want))
	if mask is not None: bad &= mask
	if bad.any():
		I = tuple(int(x) for x in np.argwhere(bad)[0])
		raise Violation(kind, "%s[%s] = %r, expected %r (%d of %d values differ)" % (what, ",".join(map(str,I)), got[I], want[I], int(bad.sum()), bad.size))

class Guard:
	"""An array embedded in a larger buffer with canaries on both sides. layout: C for a contiguous array,
	or one that is not (T: axes in opposite order, S: every second element, W: window, N: backwards)."""
	def __init__(self, arr, n=64, fill=None, layout="C"):
		shp = np.shape(arr); arr = np.ascontiguousarray(arr).reshape(shp)
		if arr.ndim == 0: layout = "C"
		big = {"C":shp, "N":shp, "T":shp[::-1], "S":shp[:-1]+(2*shp[-1],) if shp else shp, "W":tuple(k+3 for k in shp)}[layout]
		nb  = int(np.prod(big,dtype=int))*arr.itemsize
		self.buf = np.full(nb+2*n*16+64, 0x5a, np.uint8)
		off = n*16 + (-(self.buf.ctypes.data+n*16)) % 64
		def view(buf, dtype):
			v = buf[off:off+nb].view(dtype).reshape(big)
			if   layout == "T": return v.T
			elif layout == "S": return v[...,::2]
			elif layout == "W": return v[tuple(slice(1,1+k) for k in shp)]
			elif layout == "N": return v[...,::-1]
			return v
		self.a = view(self.buf, arr.dtype)
		self.a[...] = arr
		mask = np.zeros(len(self.buf), np.uint8)
		view(mask, arr.dtype)[...] = np.full(arr.itemsize, 1, np.uint8).view(arr.dtype)[0]
		self.mask = mask == 0
	def check(self, what):
		if (self.buf[self.mask] != 0x5a).any():
			raise Violation("out-of-bounds-write", "memory next to %s was modified" % what)
