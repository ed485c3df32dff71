"""C11: an iterative solve can be checkpointed, interrupted anywhere and resumed, with the same result."""
ID    = "C11"
DISK  = True
NCASE = {"quick": 1500, "thorough": 60000}
RULE  = "case = one or two conjugate-gradient solves (size 4-24, single or double precision, vectors that are plain or multi-dimensional arrays, maps or tiled maps, default, diagonal or nested-solver preconditioner, several dot products, with and without starting guess) and a history of 2-9 steps: iterate, save, crash inside a save, lose the process and start over, restore, restore from a file that is not a checkpoint of this solve, with seeded disk faults; or a solve distributed over 1-5 simulated ranks with checkpoint and restart, another rank running between the file calls; non-trivial when a checkpoint was restored or a fault or crash took effect"
MEASURE = "64-bit hash of the sequence of steps, file calls, faults that fired and rank schedule"
REAL  = ["pixell/utils.py CG, Minres, allgatherv", "pixell/enmap.py, pixell/tilemap.py vectors", "h5py and libhdf5"]
STUB  = ["kernel file calls below the scratch directory -> simulated disk (simlib/simio.c)", "mpi4py communicator -> simulated ranks (simlib/mpi.py)"]
ASSUME = ["a crash kills the process, what it already wrote to the operating system survives (not power loss)", "the operator and preconditioner are deterministic"]
import numpy as np, os, shutil, threading, contextlib
from simlib.core import Violation, np_rng, HarnessError
from simlib import disk, mpi, maps
from pixell import enmap, tilemap, utils
KEYS = ["i","rz","rz0","x","r","p","err"]
def gen(rng, tier, i):
	if rng.random() < 0.2:
		return dict(mode="mpi", w=dict(seed=rng.getrandbits(32), n=rng.choice([1,2,3,4,5]), size=rng.choice([5,8,13]), k=rng.randrange(1,4), minres=rng.random()<0.3, x0=rng.random()<0.5, restart=rng.random()<0.7, often=rng.random()<0.5), scheds=mpi.gen_specs(rng, 2))
	P = [dict(seed=rng.getrandbits(32), kind=rng.choice(["flat","flat","nd","map","map","tile"]), dt=rng.choice(["f8","f8","f4"]), M=rng.choice(["none","diag","diag","inner","ident","buf"]), abuf=rng.random()<0.3, dot=rng.choice(["default","np","py","f64"]), x0=rng.random()<0.4, destroy=rng.random()<0.2) for k in range(rng.choice([1,1,2]))]
	steps = []
	for k in range(rng.choice([2,4,6,9])):
		s = dict(op=rng.choice(["step","step","save","save","crash","load","load","new","foreign"]), s=rng.randrange(len(P)), k=rng.choice([1,1,2,3]), f=rng.choice([0,0,0,1]))
		if s["op"] == "save" and rng.random() < 0.5: s["fault"] = disk.gen_fault(rng,"w")
		if s["op"] == "load" and rng.random() < 0.4: s["fault"] = disk.gen_fault(rng,"r")
		if s["op"] == "foreign": s.update(how=rng.choice(["missing","shape","other","text"]), key=rng.choice(KEYS), seed=rng.getrandbits(16))
		if s["op"] == "crash": s["points"] = [[rng.random(), rng.random() if rng.random()<0.6 else None] for j in range(3)]
		steps.append(s)
	return dict(mode="disk", P=P, steps=steps)
def shrink(case):
	if case["mode"] == "mpi":
		yield from mpi.shrink(case); return
	st = case["steps"]
	for i in range(len(st)):
		if len(st) > 1: yield dict(case, steps=st[:i]+st[i+1:])
	for i,s in enumerate(st):
		if "fault" in s: yield dict(case, steps=st[:i]+[{k:v for k,v in s.items() if k!="fault"}]+st[i+1:])
		if len(s.get("points",[])) > 1:
			for p in s["points"]: yield dict(case, steps=st[:i]+[dict(s, points=[p])]+st[i+1:])
	if len(case["P"]) > 1: yield dict(case, P=case["P"][:1], steps=[s for s in st if s["s"] == 0] or st[:0]+[dict(op="step",s=0,k=1,f=0)])
	for i,p in enumerate(case["P"]):
		for k,v in dict(kind="flat",M="none",dot="default",x0=False,destroy=False,abuf=False,dt="f8").items():
			if p.get(k,v) != v: yield dict(case, P=case["P"][:i]+[dict(p,**{k:v})]+case["P"][i+1:])
def setup():
	import warnings; warnings.simplefilter("ignore")

class Problem:
	def __init__(self, p):
		self.p = p; r = np_rng(p["seed"]); kind = p["kind"]
		if   kind == "flat": self.like = np.zeros(int(r.integers(4,25)))
		elif kind == "nd":   self.like = np.zeros((int(r.integers(2,5)),int(r.integers(2,6))))
		elif kind == "map":  self.like = enmap.zeros(*enmap.geometry(np.array([[-2,2],[2,-2]])*utils.degree, shape=(4,5) if r.random()<0.5 else (3,6), proj="car"))
		else:
			sh, wcs = enmap.geometry(np.array([[-2,2],[2,-2]])*utils.degree, shape=(5,7), proj="car")
			self.like = tilemap.zeros(tilemap.geometry(sh, wcs, tile_shape=(2,3), active=sorted(r.choice(9,3,replace=False).tolist())))
		self.like = self.like.astype(p["dt"]); n = self.n = self.like.size
		Q = np.linalg.qr(r.standard_normal((n,n)))[0]
		self.A = (Q*r.uniform(1,6,n))@Q.T; self.A = ((self.A+self.A.T)/2).astype(p["dt"]); self.D = np.diag(self.A).copy()
		self.b0 = self.vec(r.standard_normal(n)); self.x0 = self.vec(r.standard_normal(n)) if p["x0"] else None
		self.traj = None
	def vec(self, flat):
		v = self.like.copy(); np.asarray(v).reshape(-1)[:] = flat; return v
	def op(self, x, y=None):
		if y is None: y = x.copy()
		np.asarray(y).reshape(-1)[:] = self.A@np.asarray(x).reshape(-1).astype(self.p["dt"]); return y
	def mk(self):
		p = self.p; kw = {}
		if p["M"] == "diag":
			def M(x): y = x.copy(); np.asarray(y).reshape(-1)[:] /= self.D; return y
			kw["M"] = M
		elif p["M"] == "inner":
			def M(x):
				def B(v): y = v.copy(); np.asarray(y).reshape(-1)[:] *= self.D; return y
				c = utils.CG(B, x, dot=self.dot(p["dot"] if p["dot"] != "default" else "np"), M=lambda v:v.copy())
				c.step(); c.step(); return c.x
			kw["M"] = M
		elif p["M"] == "ident": kw["M"] = lambda x: x
		elif p["M"] == "buf":
			mbuf = self.like.copy()
			def M(x): np.asarray(mbuf).reshape(-1)[:] = np.asarray(x).reshape(-1)/self.D; return mbuf
			kw["M"] = M
		elif p["kind"] == "tile": kw["M"] = lambda x: x.copy()
		if p["dot"] != "default" or p["kind"] != "flat": kw["dot"] = self.dot(p["dot"])
		self.b = self.b0.copy(); x0 = None if self.x0 is None else self.x0.copy()
		op = self.op
		if p.get("abuf"):
			abuf = self.like.copy()
			def op(x): return self.op(x, abuf)
		s = utils.CG(op, self.b, x0=x0, destroy_b=p["destroy"], **kw)
		s._b, s._x0 = self.b, x0
		return s
	def dot(self, d):
		f = lambda a,b: np.sum(np.asarray(a)*np.asarray(b))
		return {"py":lambda a,b: float(f(a,b)), "f64":lambda a,b: np.float64(f(a,b))}.get(d, f)
	def trajectory(self):
		"""states of an uninterrupted solve, until it has converged"""
		if self.traj is not None: return self.traj
		s = self.mk(); T = [state(s)]; small = 1e-17 if self.p["dt"] == "f8" else 1e-9
		while len(T) <= self.n and T[-1]["err"] > small: s.step(); T.append(state(s))
		exact = np.linalg.solve(self.A.astype(float), np.asarray(self.b0,float).reshape(-1))
		if self.p["M"] != "inner":
			tol = 1e-6 if self.p["dt"] == "f8" else 1e-2
			e = np.asarray(T[-1]["x"],float).reshape(-1)-exact
			if not np.max(np.abs(e)) <= tol*max(1,np.max(np.abs(exact))): raise Violation("no-convergence", "after %d steps of a %d-dimensional solve the solution is off by %g" % (len(T)-1, self.n, np.max(np.abs(e))))
			en = [float(v@self.A.astype(float)@v) for v in (np.asarray(t["x"],float).reshape(-1)-exact for t in T)]
			for k in range(len(en)-1):
				if en[k+1] > en[k]*(1+1e-3)+(1e-12 if self.p["dt"]=="f8" else 1e-3)*en[0]: raise Violation("no-convergence", "step %d makes the error larger: %g to %g" % (k+1, en[k], en[k+1]))
		if type(T[-1]["x"]) is not type(self.like): raise Violation("vector-type", "the solution is a %s, not a %s" % (type(T[-1]["x"]).__name__, type(self.like).__name__))
		# the reported error and count agree with the solution
		A, b = self.A.astype(float), np.asarray(self.b0,float).reshape(-1); Minv = {"none":np.ones(self.n),"ident":np.ones(self.n)}.get(self.p["M"], 1/self.D.astype(float))
		x0 = np.zeros(self.n) if self.x0 is None else np.asarray(self.x0,float).reshape(-1)
		rz = [float(v@(Minv*v)) for v in [b-A@x0]+[b-A@np.asarray(t["x"],float).reshape(-1) for t in T[1:]]]
		for k,t in enumerate(T):
			if t["i"] != k: raise Violation("wrong-count", "after %d steps the solver reports %s" % (k, t["i"]))
			if k and self.p["M"] != "inner" and not abs(float(t["err"])-rz[k]/rz[0]) <= (1e-9 if self.p["dt"]=="f8" else 1e-3)*max(1,np.sqrt(rz[k]/rz[0])): raise Violation("wrong-error", "after %d steps the solver reports the relative error %g, but it is %g" % (k, float(t["err"]), rz[k]/rz[0]))
		if T[0]["err"] < 1: raise Violation("wrong-error", "before the first step the solver reports a relative error of %g" % T[0]["err"])
		self.traj = T; return T
def state(s):
	d = {}
	for k in KEYS:
		v = getattr(s,k); d[k] = v.copy() if isinstance(v, np.ndarray) else v
	return d
def dtname(v): return v.dtype.name if hasattr(v,"dtype") else type(v).__name__
def diff(a, b):
	for k in KEYS:
		if isinstance(b[k], np.ndarray):
			x, y = np.asarray(a[k]), np.asarray(b[k])
			if x.shape != y.shape: return "%s has shape %s, expected %s" % (k, x.shape, y.shape)
			if x.dtype != y.dtype: return "%s has dtype %s, expected %s" % (k, x.dtype, y.dtype)
			if type(a[k]) is not type(b[k]): return "%s is a %s, expected a %s" % (k, type(a[k]).__name__, type(b[k]).__name__)
			if isinstance(b[k], enmap.ndmap):
				d = maps.wcs_diff(a[k].wcs, b[k].wcs, b[k].shape)
				if d: return "%s: %s" % (k, d)
			if isinstance(b[k], tilemap.TileMap) and list(a[k].geometry.active) != list(b[k].geometry.active): return "%s has other active tiles" % k
			if not maps.bits_equal(np.ascontiguousarray(x), np.ascontiguousarray(y)): return "%s differs by up to %g" % (k, np.max(np.abs(x-y)))
		elif not (a[k] == b[k] or (a[k] != a[k] and b[k] != b[k])): return "%s is %r, expected %r" % (k, a[k], b[k])

BAD = "unreadable"
class State:
	def __init__(self, case, base, ctx):
		self.base, self.ctx, self.n = base, ctx, 0
		self.P = [Problem(p) for p in case["P"]]
		self.model = {}; self.risky = set(); self.trace = []; self.hot = False; self.nops = 0
		self.newroot({})
		self.S = [p.mk() for p in self.P]; self.pos = [0]*len(self.P)
	def newroot(self, st):
		self.n += 1; self.root = os.path.join(self.base, "r%d" % self.n); disk.restore(st, self.root); self.disk = disk.Disk(self.root)
	def path(self, key): return os.path.join(self.root, "cg%d_%d.hdf" % key)
	def same(self, n, what):
		for k,s in enumerate(self.S):
			d = diff(state(s), self.P[k].trajectory()[self.pos[k]])
			if d: raise Violation("state-differs", "step %d (%s): solver %d at iteration %d is not as in an uninterrupted solve: %s" % (n, what, k, self.pos[k], d))
			if not self.P[k].p["destroy"] and not np.array_equal(np.asarray(s._b), np.asarray(self.P[k].b0)): raise Violation("argument-modified", "step %d (%s): solver %d changed the right-hand side" % (n, what, k))
			if s._x0 is not None and not np.array_equal(np.asarray(s._x0), np.asarray(self.P[k].x0)): raise Violation("argument-modified", "step %d (%s): solver %d changed the starting guess" % (n, what, k))
	def op_step(self, n, s):
		k = s["s"]; T = self.P[k].trajectory()
		for j in range(s["k"]):
			if self.pos[k]+1 < len(T): self.S[k].step(); self.pos[k] += 1
	def op_new(self, n, s): self.S[s["s"]] = self.P[s["s"]].mk(); self.pos[s["s"]] = 0; self.hot = True
	def op_save(self, n, s, crash=False):
		k = s["s"]; key = (k, s["f"]); fault = s.get("fault"); sol = self.S[k]
		before = self.disk.snapshot() if crash else None
		def go():
			err = None
			self.disk.start([fault] if fault else [], record=crash)
			try: sol.save(self.path(key))
			except Exception as e: err = "%s: %s" % (type(e).__name__, str(e)[:300])
			fired, count = self.disk.stop()
			return err, fired, count
		try: err, fired, count = disk.in_child(go) if fault else go()
		except disk.Died as e: err, fired, count = str(e), [1], {}; self.ctx.probe("hdf5_library_died")
		self.trace.append(["save", key, self.pos[k], fault and fault["name"], fired, count]); self.nops += sum(count.values())
		live = bool(fault and fired[0]); old = self.model.get(key, [BAD])
		if live: self.ctx.fault(fault["name"], fired[0]); self.hot = True; self.risky.add(key)
		if err is not None:
			if not live: raise Violation("save-failed", "step %d: saving failed with no fault: %s" % (n, err))
			if fault["name"] in ("short_write","directory_made_by_other"): raise Violation("save-failed", "step %d: saving failed on a harmless %s: %s" % (n, fault["name"], err))
			self.ctx.probe("save_raised"); self.model[key] = old+[self.pos[k]]; self.newroot(self.disk.snapshot())
		else:
			if crash: self.crashes(n, s, key, before, old)
			self.model[key] = [self.pos[k]]
	def op_crash(self, n, s): self.op_save(n, s, True)
	def crashes(self, n, s, key, before, old):
		J = self.disk.journal()
		if self.disk.crash_state(before, J, len(J)) != {k:(bytearray(v) if v is not None else None) for k,v in self.disk.snapshot().items()}: raise HarnessError("call record does not reproduce the disk contents")
		saved = self.root, self.disk, self.S[key[0]], self.pos[key[0]]
		for a,b in s["points"]:
			j = int(a*len(J)); torn = int(b*J[j][4]) if b is not None and j < len(J) and J[j][0] == "write" else None
			self.ctx.fault("process_crash" if torn is None else "process_crash_torn_write"); self.hot = True; self.trace.append([j,torn,len(J)])
			self.model[key] = old+[saved[3]]; self.risky.add(key)
			self.newroot(self.disk.crash_state(before, J, j, torn))
			self.S[key[0]] = self.P[key[0]].mk(); self.pos[key[0]] = 0
			self.op_load(n, dict(op="load", s=key[0], f=key[1]))   # the restarted process
			self.op_step(n, dict(s=key[0], k=1)); self.same(n, "resuming after a crash at file call %d of %d%s" % (j, len(J), "" if torn is None else " (%d bytes into it)" % torn))
			shutil.rmtree(self.root); self.root, self.disk, self.S[key[0]], self.pos[key[0]] = saved
	def op_foreign(self, n, s):
		"""a file that is no checkpoint of this solve: if loading it raises, the solver is as before"""
		import h5py
		k = s["s"]; sol = self.S[k]; T = self.P[k].trajectory(); name = os.path.join(self.root, "foreign.hdf"); st = state(sol); r = np_rng(s["seed"])
		if s["how"] == "text": open(name,"w").write("not a checkpoint")
		else:
			with h5py.File(name,"w") as f:
				for key in KEYS:
					v = T[-1][key]
					if s["how"] == "missing" and key == s["key"]: continue
					if s["how"] == "shape" and key == s["key"] or s["how"] == "other" and isinstance(v, np.ndarray): v = np.zeros(int(r.integers(self.P[k].n+1, 40))) if isinstance(v, np.ndarray) else v
					f[key] = v
		try: sol.load(name); err = None
		except Exception as e: err = e
		os.unlink(name); self.trace.append(["foreign", s["how"], s["key"], err is None])
		if err is None:
			if s["how"] in ("missing","text"): raise Violation("foreign-checkpoint", "step %d: a file that %s was accepted as a checkpoint" % (n, "has no %s" % s["key"] if s["how"] == "missing" else "is not one"))
			for key in KEYS: setattr(sol, key, st[key])   # what it means to load this is not specified
		else:
			d = diff(state(sol), st)
			if d: raise Violation("failed-load", "step %d: a load that raised (%s: %s) changed the solver: %s" % (n, type(err).__name__, str(err)[:200], d))
			self.ctx.fault("foreign_checkpoint"); self.hot = True
	def op_load(self, n, s):
		k = s["s"]; key = (k, s["f"]); fault = s.get("fault"); ok = self.model.get(key, [BAD]); sol = self.S[k]
		T = self.P[k].trajectory()
		def go():
			err = None
			self.disk.start([fault] if fault else [], record=False)
			try: sol.load(self.path(key))
			except Exception as e: err = "%s: %s" % (type(e).__name__, str(e)[:300])
			fired, count = self.disk.stop()
			# compare here, in the process where it happened
			st = state(sol); near = [i for i in range(len(T)) if diff(st, T[i]) is None]
			return err, fired, count, near, diff(st, T[self.pos[k]] if err is not None else T[st["i"]] if 0 <= st["i"] < len(T) else T[0])
		child = fault is not None or key in self.risky
		try: err, fired, count, near, d = disk.in_child(go) if child else go()
		except disk.Died as e: err, fired, count, near, d = str(e), [1] if fault else [], {}, [self.pos[k]], None; self.ctx.probe("hdf5_library_died")
		self.trace.append(["load", key, self.pos[k], fault and fault["name"], fired, count]); self.nops += sum(count.values())
		live = bool(fault and fired[0])
		if live: self.ctx.fault(fault["name"], fired[0]); self.hot = True
		if err is not None:
			if self.pos[k] not in near: raise Violation("failed-load", "step %d: a load that raised (%s) changed the solver: %s" % (n, err, d))
			if any(o is BAD for o in ok) or (live and fault["name"] != "short_read"): self.ctx.probe("load_raised"); return
			raise Violation("checkpoint-lost", "step %d: the checkpoint of iteration %s cannot be loaded%s: %s" % (n, ok, " under a harmless "+fault["name"] if live else "", err))
		good = [o for o in ok if o is not BAD and o in near]
		if not good: raise Violation("wrong-checkpoint", "step %d: loading gave the state of iteration %s, expected %s; %s" % (n, near, [o for o in ok], d))
		if child: sol.load(self.path(key))
		self.pos[k] = good[0]; self.hot = True; self.ctx.probe("restored")

def run(case, ctx):
	base = os.path.join(os.environ["VC_SCRATCH"], "c11"); shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
	try:
		if case["mode"] == "mpi": return run_mpi(case, ctx, base)
		S = State(case, base, ctx)
		for n,s in enumerate(case["steps"]):
			getattr(S, "op_"+s["op"])(n, s); S.same(n, s["op"])
		# once faults stop: save and restore every solver, and run it to the end
		for k in range(len(S.P)):
			n = len(case["steps"]); S.op_save(n, dict(s=k,f=0)); S.op_new(n, dict(s=k)); S.op_load(n, dict(s=k,f=0)); S.op_step(n, dict(s=k,k=1000)); S.same(n, "the end")
	finally:
		disk.lib().simio_stop(); shutil.rmtree(base, ignore_errors=True)
	ctx.exec(ihash=S.trace, nontrivial=S.trace+[p["seed"] for p in case["P"]] if S.hot else None, events=S.nops)
	ctx.sample({"problems": [[p["kind"],p["dt"],p["M"]] for p in case["P"]], "steps": [[s["op"], s.get("fault",{}).get("name")] for s in case["steps"]], "trace": S.trace[:6]})

TLS = threading.local()
def point():
	c = getattr(TLS, "comm", None)
	if c is not None: c.w.point(c.rank)
@contextlib.contextmanager
def switching():
	"""another rank may run before and after a file is opened, closed or renamed"""
	import h5py
	class File(h5py.File):
		def __init__(self, *a, **k): point(); super().__init__(*a, **k); point()
		def __exit__(self, *a): point(); r = super().__exit__(*a); point(); return r
	saved = h5py.File, os.replace, os.rename
	def wrap(f):
		def g(*a, **k): point(); r = f(*a, **k); point(); return r
		return g
	h5py.File, os.replace, os.rename = File, wrap(os.replace), wrap(os.rename)
	try: yield
	finally: h5py.File, os.replace, os.rename = saved
def run_mpi(case, ctx, base):
	w = case["w"]; n, N = w["n"], max(w["size"], w["n"]); r = np_rng(w["seed"])
	Q = np.linalg.qr(r.standard_normal((N,N)))[0]; A = (Q*r.uniform(1,6,N))@Q.T; A = (A+A.T)/2
	b = r.standard_normal(N); x0 = r.standard_normal(N) if w["x0"] else None
	edges = [0]+sorted(r.choice(np.arange(1,N), n-1, replace=False).tolist())+[N]
	sol = utils.Minres if w["minres"] else utils.CG
	def make(sl, op, dot): return sol(op, b[sl].copy(), x0=None if x0 is None else x0[sl].copy(), dot=dot)
	ref = make(slice(0,N), lambda x: A@x, lambda a,b: a.dot(b)); X = [ref.x.copy()]; E = [ref.err]
	while len(X) <= N and E[-1] > 1e-12: ref.step(); X.append(ref.x.copy()); E.append(ref.err)
	q = [float(v@v) if not w["minres"] else float(v@A@v) for v in (b-A@x for x in X)]
	for k in range(1,len(X)):
		if not abs(E[k]-q[k]/q[0]) <= 1e-9*max(1,np.sqrt(q[k]/q[0])): raise Violation("wrong-error", "after %d steps the solver reports the relative error %g, but it is %g" % (k, E[k], q[k]/q[0]))
	if w["minres"] and not abs(ref.abserr-q[-1]/N) <= 1e-9*max(1,q[0]): raise Violation("wrong-error", "the solver reports the absolute error %g, but it is %g" % (ref.abserr, q[-1]/N))
	if not np.allclose(X[-1], np.linalg.solve(A,b), rtol=1e-3, atol=1e-3): raise Violation("no-convergence", "serial solve did not converge: %g" % np.max(np.abs(X[-1]-np.linalg.solve(A,b))))
	kmid = min(w["k"], len(X)-1)
	def job(part, ctxname):
		def fn(comm):
			TLS.comm = comm
			sl = slice(edges[comm.rank], edges[comm.rank+1])
			def op(x): return A[sl]@utils.allgatherv(x, comm)
			s = make(sl, op, lambda a,b: comm.allreduce(a.dot(b))); name = os.path.join(base, "cg_%d.hdf" % comm.rank)
			if part == 1: s.load(name)
			while s.i < (kmid if part == 0 else len(X)-1):
				s.step()
				if part == 0 and w.get("often"): s.save(name)
			if part == 0: s.save(name)
			return s.x.copy(), s.err, s.i
		return fn
	def check(k):
		def f(res):
			if len({x[1] for x in res}) != 1 or len({x[2] for x in res}) != 1: raise Violation("ranks-disagree", "ranks disagree about the error or the number of steps: %s" % [(x[1],x[2]) for x in res])
			got = np.concatenate([x[0] for x in res])
			if res[0][2] != k: raise Violation("distributed", "%d steps taken instead of %d" % (res[0][2], k))
			if not np.allclose(got, X[k], rtol=1e-6, atol=1e-6): raise Violation("distributed", "the distributed solution after %d steps is off by %g" % (k, np.max(np.abs(got-X[k]))))
			if k and not np.isclose(res[0][1], E[k], rtol=1e-3, atol=1e-10): raise Violation("distributed", "the distributed error estimate is %g, expected %g" % (res[0][1], E[k]))
		return f
	if w["minres"] or not w["restart"]:
		mpi.run_specs(case, ctx, n, job(2,"all"), check(len(X)-1), nontrivial=w)
	else:
		# checkpoint on every rank, then a new job resumes from the files
		with switching():
			mpi.run_specs(case, ctx, n, job(0,"first"), check(kmid), nontrivial=w)
			mpi.run_specs(case, ctx, n, job(1,"second"), check(len(X)-1), nontrivial=w)
	ctx.sample({"ranks": n, "minres": w["minres"], "size": N})
