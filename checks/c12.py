"""C12: arrays handed out by a memory pool are disjoint, aligned and keep their contents until the pool is reset."""
ID    = "C12"
NCASE = {"quick": 15000, "thorough": 400000}
RULE  = "case = a history of 3-30 requests to 1-3 named pools (names that differ only in case or blanks) of a device (arrays copied from data, empty, filled, zero or one arrays, raw bytes, with and without implied reset, resets, frees, whole-device resets, and earlier sets of requests again) over dtypes, shapes (also empty and zero-dimensional) and alignments, with a simulated memory provider that places blocks at seeded, badly aligned addresses filled with garbage and runs out of memory at seeded requests; non-trivial when a pool handed out at least two arrays alive at the same time, was reused after a reset, or ran out of memory"
MEASURE = "64-bit hash of the sequence of requests, sizes, provider calls and failures"
REAL  = ["pixell/device.py DeviceCpu, ArrayMultipool, ArrayPoolCpu, Mempool, AllocAligned"]
STUB  = ["pixell/device.py AllocCpu (numpy.empty) -> simulated memory provider with failures, through the existing alloc_factory and allocator arguments"]
ASSUME = ["one thread uses a device", "an array is no longer used after its pool is reset or freed", "the gpu classes are not run (no cupy here)"]
import numpy as np, random
from simlib.core import Violation, np_rng
from pixell import device
OPS = ["array","array","empty","full","zeros","ones","alloc","reset","round","round","dreset","free","dfree","ask","again"]
def gen(rng, tier, i):
	steps = []
	for k in range(rng.choice([3,6,12,30])):
		steps.append(dict(op=rng.choice(OPS), p=rng.randrange(3), reset=rng.random()<0.25, seed=rng.getrandbits(32), n=rng.choice([1,2,3,5])))
	return dict(seed=rng.getrandbits(32), np=rng.choice([1,2,3]), align=rng.choice([1,8,16,16,64,512]), fail=rng.choice([0,0,0.1,0.3]), default=rng.random()<0.1, steps=steps)
def shrink(case):
	st = case["steps"]
	for size in (8,4,2,1):
		for i in range(0,len(st),size):
			if len(st) > size: yield dict(case, steps=st[:i]+st[i+size:])
	if case["fail"]: yield dict(case, fail=0)
	if case["np"] > 1: yield dict(case, np=1)
	for i,s in enumerate(st):
		if s["op"] not in ("alloc","reset"): yield dict(case, steps=st[:i]+[dict(s,op="alloc")]+st[i+1:])
class Provider:
	"""Memory provider that runs out of memory at seeded requests."""
	def __init__(self, seed, fail):
		self.rng, self.fail, self.n, self.failed, self.on, self.log = random.Random(seed), fail, 0, 0, True, []
	def alloc(self, n):
		n = int(n); self.n += 1
		if self.on and self.rng.random() < self.fail: self.failed += 1; self.log.append(-1); raise MemoryError("simulated")
		off = self.rng.randrange(64); self.log.append(n)
		buf = np.empty(n+off, np.uint8); buf[:] = self.rng.randrange(256)
		return buf[off:]
DT = ["f4","f8","i2","i4","c8","c16","u1","?","i8"]
SH = [(),(0,),(1,),(7,),(3,5),(2,0,3),(1,1,1),(17,3),(100,),(4,4,4)]
NAMES = [["work","maps","tod"],["a","A","a "],["map","maps","map2"],["pool","pool_1","pool.1"],["size_","pools_","_x"]]
def value(r):
	dt = np.dtype(DT[r.integers(len(DT))]); sh = SH[r.integers(len(SH))] if r.random() < 0.8 else (int(r.integers(0,3000)),)
	a = np.array(r.integers(0,2 if dt.kind=="b" else 100,sh)).astype(dt)
	if a.ndim > 1 and r.random() < 0.3: a = a.T
	if a.ndim and r.random() < 0.2: a = a[::-1]
	return a
class State:
	def __init__(self, case, ctx):
		self.case, self.ctx = case, ctx
		self.prov = Provider(case["seed"], case["fail"])
		if case["default"]:
			if case["align"] == 16: self.dev = device.DeviceCpu()
			else: self.dev = device.DeviceCpu(align=case["align"])
			self.prov.fail = 0
		else: self.dev = device.DeviceCpu(alloc_factory=lambda name: device.ArrayPoolCpu(device.AllocAligned(self.prov, align=case["align"]), name=name))
		self.live = {}; self.hot = False; self.trace = []; self.reset_once = set()
		self.names = NAMES[case["seed"]//2 % len(NAMES)]
		self.now, self.past = {}, {}   # sizes served since the last reset, and the sets served before
	def pool(self, p):
		name = self.names[p % self.case["np"]]
		if name not in self.live and self.case["seed"] & 1: a, = self.dev.pools.want(name)
		else: a = self.dev.pools[name]
		if name not in self.live: self.live[name] = []
		if self.dev.pools.want(name)[0] is not a or getattr(self.dev.pools, name) is not a: raise Violation("pool-identity", "asking for pool %s again gives another pool" % name)
		return name, a
	def attempt(self, fn):
		nf = self.prov.failed
		try: return fn(), None
		except MemoryError as e:
			if self.prov.failed == nf: raise
			self.ctx.fault("out_of_memory"); self.hot = True
			return None, e
	def accept(self, n, name, arr, want, what):
		if not isinstance(arr, np.ndarray) or arr.shape != want.shape or arr.dtype != want.dtype: raise Violation("wrong-array", "step %d: %s gave %s %s, expected %s %s" % (n, what, arr.dtype, arr.shape, want.dtype, want.shape))
		if arr.size and arr.ctypes.data % self.case["align"]: raise Violation("misaligned", "step %d: %s gave memory at %d modulo the alignment %d" % (n, what, arr.ctypes.data % self.case["align"], self.case["align"]))
		if not arr.flags.c_contiguous or not arr.flags.writeable: raise Violation("wrong-array", "step %d: %s gave a non-contiguous or read-only array" % (n, what))
		self.live[name].append((arr, want.copy(), what))
		if len(self.live[name]) > 1 or name in self.reset_once: self.hot = True
	def verify(self, n):
		A = []
		for name, L in self.live.items():
			for arr, want, what in L:
				if not np.array_equal(arr, want): raise Violation("overwritten", "step %d: the array from %s in pool %s changed" % (n, what, name))
				if arr.nbytes: A.append((arr.ctypes.data, arr.ctypes.data+arr.nbytes, what, name))
		A.sort()
		for a,b in zip(A[:-1],A[1:]):
			if b[0] < a[1]: raise Violation("overlap", "step %d: memory of %s in %s and %s in %s overlaps" % (n, a[2], a[3], b[2], b[3]))
		tot = {name:sum(w[0].nbytes for w in L) for name,L in self.live.items()}
		for name in self.live:
			if self.dev.pools[name].totsize() < tot[name]: raise Violation("size", "step %d: pool %s reports %d bytes but %d are in use" % (n, name, self.dev.pools[name].totsize(), tot[name]))
		if self.dev.memuse("pools") != sum(self.dev.pools[name].totsize() for name in self.live): raise Violation("size", "step %d: device and pools disagree about the memory held" % n)
	def drop(self, *names):
		"""the arrays of these pools are given up"""
		for name in names:
			self.live[name] = []; self.reset_once.add(name)
			if self.now.get(name): self.past.setdefault(name,[]).append(self.now[name])
			self.now[name] = []
	def enter(self, pool):
		with pool.as_allocator(): pass
	def request(self, n, s, name, pool, r, reset, op, force=False):
		if op == "array":
			v = value(r); keep = v.copy(); want = v; reset = True
			as_list = v.dtype.kind in "fi" and v.size and v.dtype.itemsize == 8 and r.random() < 0.3
			arg = v.tolist() if as_list else v
			fn = lambda: pool.array(arg)
		elif op == "alloc":
			k = int(r.integers(0,500)); want = np.zeros(k,np.uint8); fn = lambda: pool.alloc(k); reset = False
		else:
			v = value(r); sh, dt = v.shape, v.dtype
			kw = {} if dt == np.float32 and r.random() < 0.5 else dict(dtype=dt)
			if reset and (force or r.random() < 0.5): pass
			else: kw["reset"] = reset
			if op == "empty": fn = lambda: pool.empty(sh, **kw); want = np.zeros(sh,dt)
			elif op == "full": x = v.flat[0] if v.size else 1; fn = lambda: pool.full(sh, x, **kw); want = np.full(sh, x, dt)
			elif op == "zeros": fn = lambda: pool.zeros(sh, **kw); want = np.zeros(sh,dt)
			else: fn = lambda: pool.ones(sh, **kw); want = np.ones(sh,dt)
		if reset: self.drop(name)
		got, err = self.attempt(fn)
		if err is not None: return False
		self.now.setdefault(name,[]).append(int(want.nbytes))
		if op == "array":
			if not np.array_equal(v, keep): raise Violation("argument-modified", "step %d: array() changed its argument" % n)
			if np.shares_memory(got, v): raise Violation("wrong-array", "step %d: array() did not copy" % n)
		if op in ("empty","alloc"):
			if got.shape == want.shape: got[...] = want = np.array(r.integers(0,2,want.shape)).astype(want.dtype).reshape(want.shape)
		self.accept(n, name, got, want, "%s%s of %s" % (op, want.shape, want.dtype))
		return True
	def step(self, n, s):
		name, pool = self.pool(s["p"]); r = np_rng(s["seed"]); op = s["op"]
		if op == "reset":
			self.drop(name)
			got, err = self.attempt(pool.reset)
			if err is None and got is not pool: raise Violation("pool-identity", "reset does not return the pool")
		elif op == "free":
			self.live[name] = []; self.past[name] = []; self.now[name] = []; pool.free()
			if pool.totsize() != 0: raise Violation("size", "step %d: a freed pool still holds %d bytes" % (n, pool.totsize()))
		elif op == "dreset":
			self.drop(*self.live); self.attempt(self.dev.pools.reset)
		elif op == "dfree":
			self.live = {k:[] for k in self.live}; self.past, self.now = {}, {}; self.dev.pools.free()
			if self.dev.pools.totsize() != 0: raise Violation("size", "step %d: freed pools still hold %d bytes" % (n, self.dev.pools.totsize()))
			if self.dev.pools.size() != 0 or self.dev.memuse("pools") != 0: raise Violation("size", "step %d: freed pools still report %d bytes in use" % (n, self.dev.pools.size()))
		elif op == "ask":
			used = self.dev.pools.size(); tot = sum(w[0].nbytes for L in self.live.values() for w in L)
			if used < tot: raise Violation("size", "step %d: the pools report %d bytes in use, but %d are" % (n, used, tot))
			repr(self.dev.pools)
			b = np.zeros_like(value(np_rng(s["seed"]))); c = value(np_rng(s["seed"]))
			if b.ndim:
				self.dev.copy(c, b)
				if not np.array_equal(b, c): raise Violation("wrong-array", "step %d: copy() did not copy" % n)
			a = value(r); b = self.dev.get(a)
			if np.shares_memory(a,b) or not np.array_equal(a,b): raise Violation("wrong-array", "step %d: get() is not a copy" % n)
		elif op == "again":
			# any set of requests served earlier, however long ago
			self.drop(name)
			if not self.past.get(name): return
			if self.attempt(pool.reset)[1] is not None: return
			sizes = self.past[name][int(r.integers(len(self.past[name])))]; before = self.prov.n
			if r.random() < 0.3: sizes = [sizes[k] for k in r.permutation(len(sizes))]
			for k in sizes:
				got, err = self.attempt(lambda: pool.alloc(k))
				if err is not None and not any(sizes): return
				if err is not None or self.prov.n != before and any(sizes): raise Violation("not-reused", "step %d: requests of %s bytes, served before by pool %s, asked for new memory after a reset" % (n, sizes, name))
				self.now[name].append(k); got[...] = want = np.array(r.integers(0,200,got.shape)).astype(got.dtype)
				self.accept(n, name, got, want, "repeated request of %d bytes" % k)
		elif op == "round":
			# The same set of requests after each reset: from the second time on, no new memory is asked for
			for rep in range(3):
				had = any(w[0].nbytes for w in self.live[name])
				self.drop(name)
				n0 = self.prov.n; how = int(np_rng(s["seed"]+2).integers(4)); scratch = np_rng(s["seed"]+3).integers(0,60)
				if how == 3: self.drop(*self.live)
				fn = pool.reset if how == 0 else (lambda: self.enter(pool)) if how == 1 else self.dev.pools.reset if how == 3 else None
				if fn is not None and self.attempt(fn)[1] is not None: return
				if fn is None:
					# the reset is implied by the first request
					if not self.request(n, s, name, pool, np_rng(s["seed"]+3), True, ["empty","zeros","ones","full","array"][scratch%5], force=True): return
				if rep == 2 and had and how != 3 and self.prov.n != n0: raise Violation("not-reused", "step %d: the third reset between the same requests asked for new memory" % n)
				before = self.prov.n; rr = np_rng(s["seed"]+1); size = 0
				for k in range(s["n"]):
					if not self.request(n, s, name, pool, rr, False, ["alloc","empty","zeros","alloc","full"][int(rr.integers(5))]): return
				self.verify(n)
				if rep and self.prov.n != before and any(w[0].nbytes for w in self.live[name]): raise Violation("not-reused", "step %d: repetition %d of the same requests after a reset asked for new memory" % (n, rep+1))
		else: self.request(n, s, name, pool, r, s["reset"], op)
		self.trace.append([op, name, self.prov.n])
		self.verify(n)
def run(case, ctx):
	S = State(case, ctx)
	for n,s in enumerate(case["steps"]): S.step(n, s)
	# once memory is available again, everything works
	S.prov.on = False
	for p in range(case["np"]): S.step(len(case["steps"]), dict(op="round", p=p, reset=True, seed=case["seed"], n=4))
	ctx.exec(ihash=[S.trace, S.prov.log], nontrivial=[S.trace, S.prov.log, case["seed"]] if S.hot else None, events=len(S.trace)+S.prov.n)
	ctx.sample({"align": case["align"], "pools": case["np"], "trace": S.trace[:8]})
