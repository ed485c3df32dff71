"""C07: array communication helpers give every rank the defined result on every communication
schedule, and the stand-in communicator behaves like a job with one rank."""
ID    = "C07"
NCASE = {"quick": 4000, "thorough": 150000}
RULE  = "case = a program of 1-4 communication steps run by 1-6 ranks: element-wise reduction to all or one rank, gathering equal or variable length arrays along any axis, a random pattern of array messages with tags, redistribution of slices of a global array (several slices per rank, steps, flips, wrapping); arrays of many dtypes, memory orders and shapes including empty; executed under 3 seeded schedules, single-rank programs also with the stand-in communicator; non-trivial when there is more than one rank and at least one rank switch"
MEASURE = "64-bit hash of the sequence of ranks chosen at every communication step combined with the workload"
REAL  = ["pixell/utils.py communication helpers and slice-box algebra", "pixell/mpiutils.py stand-in communicator"]
STUB  = ["mpi4py communicator -> simulated ranks, collectives and messages (simlib/mpi.py)"]
ASSUME = ["communication is reliable, as MPI guarantees", "contiguous arrays (C or Fortran order), as MPI requires", "each rank of a redistribution has at least one input and one output slice"]
import numpy as np
from simlib.core import Violation, np_rng
from simlib import mpi
from pixell import utils, mpiutils

OPS = ["allreduce","reduce","allgather","allgatherv","allgatherv","msgs","msgs","redist","redist"]
def gen(rng, tier, i):
	n = rng.choice([1,1,2,2,3,4,6])
	w = dict(seed=rng.getrandbits(32), n=n, ops=[rng.choice(OPS) for k in range(rng.choice([1,1,2,4]))], wrap=rng.random()<0.25, step=rng.random()<0.4, flip=rng.random()<0.4)
	return dict(w=w, scheds=mpi.gen_specs(rng, 3))

NUM = ["f8","f4","i4","i8","u2","c16"]
def arr(r, shape, dt, order=None):
	dt = np.dtype(dt)
	if   dt.kind == "U": a = np.array([["","a","bc","def"][k] for k in r.integers(0,4,int(np.prod(shape,dtype=int)))]).astype(dt).reshape(shape) if np.prod(shape,dtype=int) else np.zeros(shape,dt)
	elif dt.kind == "S": a = np.array([[b"",b"a",b"bc"][k] for k in r.integers(0,3,int(np.prod(shape,dtype=int)))]).astype(dt).reshape(shape)
	elif dt.kind == "b": a = r.integers(0,2,shape).astype(bool)
	elif dt.kind == "c": a = (r.integers(-9,9,shape)+1j*r.integers(-9,9,shape)).astype(dt)
	elif dt.kind == "u": a = r.integers(0,30,shape).astype(dt)
	else: a = r.integers(-30,30,shape).astype(dt)
	return np.asarray(a, order=order or ("F" if r.random()<0.35 else "C"))

def same(kind, got, want, what):
	got = np.asarray(got)
	if got.shape != want.shape: raise Violation(kind, "%s has shape %s, expected %s" % (what, got.shape, want.shape))
	if not np.array_equal(got, want): 
		I = tuple(int(x) for x in np.argwhere(got != want)[0])
		raise Violation(kind, "%s%s is %r, expected %r" % (what, I, got[I], want[I]))
	if want.dtype.kind != got.dtype.kind or (want.dtype != got.dtype and want.dtype.kind != "U"): raise Violation(kind, "%s has dtype %s, expected %s" % (what, got.dtype, want.dtype))

def boxes(r, w, N, wrap):
	nb = int(r.integers(1,4)); out = []
	for k in range(nb):
		b = []
		for d in range(2):
			n = N[d]; st = int(r.integers(1,4)) if w["step"] else 1
			a = int(r.integers(0,n)); e = int(r.integers(a+1, n+1))
			if wrap and d == 1: off = int(r.integers(0,2*n))-n//2; e = int(r.integers(a+1, a+n+1)); a += off; e += off; st = 1
			m = (e-a+st-1)//st
			if w["flip"] and not wrap and r.random() < 0.5: b.append([a+(m-1)*st, a-st, -st])
			else: b.append([a, a+m*st, st])
		out.append(b)
	return out
def inds(b, wrap=0):
	i = np.arange(b[0], b[1], b[2]); return i % wrap if wrap else i

def make(w, r, op):
	"""-> (fn(comm,utils) per rank, check(list of results))"""
	n = w["n"]
	if op in ("allreduce","reduce"):
		shape = [(),(1,),(5,),(3,4),(2,3,2),(0,)][r.integers(6)]; dt = NUM[r.integers(len(NUM)-1)]
		a = [arr(r, shape, dt) for k in range(n)]; k0 = [x.copy() for x in a]
		mx = r.random() < 0.3
		want = a[0].astype(a[0].dtype)
		for x in a[1:]: want = np.maximum(want,x) if mx else want+x
		root = int(r.integers(n))
		def fn(c):
			o = dict(op=mpi.MAX) if mx else {}
			return utils.allreduce(a[c.rank], c, **o) if op == "allreduce" else utils.reduce(a[c.rank], c, root=root, **o)
		def check(res):
			for k in range(n):
				if not np.array_equal(a[k],k0[k]): raise Violation("input-modified","rank %d's array changed" % k)
				if op == "reduce" and k != root:
					if res[k] is not None: raise Violation("reduce","rank %d is not the root but got a result" % k)
				else: same(op, res[k], want, "reduction on rank %d" % k)
	elif op == "allgather":
		shape = [(),(1,),(5,),(3,4),(2,3,2)][r.integers(5)]; dt = (NUM+["?","S3"])[r.integers(len(NUM)+2)]
		if dt == "S3": shape = [(2,),(3,2)][r.integers(2)]
		a = [arr(r, shape, dt) if dt != "S3" else arr(r, shape, dt, "C") for k in range(n)]
		want = np.array(a)
		lst = r.random() < 0.2 and dt in ("f8","i8")
		fn = lambda c: utils.allgather(a[c.rank].tolist() if lst else a[c.rank], c)
		def check(res):
			for k in range(n): same(op, res[k], want, "gathered array on rank %d" % k)
	elif op == "allgatherv":
		nd = int(r.integers(1,4)); axis = int(r.integers(nd)); dts = [["f8"],["f4","f8"],["i4","i8"],["i8","f8"],["?"],["U3"],["U1","U3"],["c16"]][r.integers(8)]
		base = [int(x) for x in r.integers(1,4,nd)]
		if dts[0][0] == "U": nd = 1; axis = 0
		a = []
		for k in range(n):
			s = list(base[:nd]); s[axis] = int(r.choice([0,0,1,2,3,5]))
			a.append(arr(r, tuple(s), dts[r.integers(len(dts))]) if dts[0][0] != "U" else arr(r, tuple(s), dts[r.integers(len(dts))], "C"))
		if axis == 0 and r.random() < 0.3: # an empty list without further dimensions
			k = int(r.integers(n)); a[k] = np.zeros(0)
		full = [x for x in a if x.size]
		want = np.concatenate(full, axis) if full else None
		if axis == nd-1 and r.random() < 0.4: axis -= nd
		fn = lambda c: utils.allgatherv(a[c.rank], c, axis=axis)
		def check(res):
			for k in range(n):
				if want is None:
					if np.asarray(res[k]).size: raise Violation(op, "gathering nothing gave %s" % (res[k],))
				else: same(op, res[k], want, "gathered array on rank %d" % k)
	elif op == "msgs":
		pat = []
		for j in range(int(r.integers(1,9))):
			if n < 2: break
			s, d = [int(x) for x in r.permutation(n)[:2]]
			pat.append((s, d, int(r.integers(3)), arr(r, [(),(1,),(4,),(3,4),(0,),(2,2,3)][r.integers(6)], (NUM+["?"])[r.integers(len(NUM)+1)])))
		ctrl = [bool(r.random() < 0.25) for p in pat]   # unrelated messages with a tag of their own, collected last
		def fn(c):
			out = []
			for j,(s,d,tag,x) in enumerate(pat):
				if ctrl[j] and c.rank == s: c.isend(("control",j), dest=d, tag=9)
				if   c.rank == s: utils.send(x, c, **{k:v for k,v in dict(dest=d, tag=tag).items() if v})
				elif c.rank == d: out.append(utils.recv(c, **{k:v for k,v in dict(source=s, tag=tag).items() if v}))
			for j,(s,d,tag,x) in enumerate(pat):
				if ctrl[j] and c.rank == d:
					m = c.recv(source=s, tag=9)
					if m != ("control",j): raise Violation("message", "an unrelated message was disturbed: %s" % (m,))
			return out
		def check(res):
			for k in range(n):
				want = [x for s,d,t,x in pat if d == k]
				if len(want) != len(res[k]): raise Violation("message","rank %d received %d arrays, expected %d" % (k,len(res[k]),len(want)))
				for g,x in zip(res[k], want): same("message", g, x, "array received by rank %d" % k)
	else:
		wrap = bool(w["wrap"]); N = [int(r.integers(1,7)), int(r.integers(2,9))]
		pre = [(),(2,),(1,3)][r.integers(3)]; dt = NUM[r.integers(len(NUM))]
		G  = arr(r, pre+tuple(N), dt, "C"); G = np.where(G==0, 1, G).astype(dt)
		ib = [boxes(r, w, N, wrap) for k in range(n)]; ob = [boxes(r, w, N, wrap) for k in range(n)]
		W  = [0, N[1] if wrap else 0]
		cov= np.zeros(N, bool)
		take = lambda A, b: A[(Ellipsis,)+np.ix_(inds(b[0]), inds(b[1], W[1]))]
		for bs in ib:
			for b in bs: cov[np.ix_(inds(b[0]), inds(b[1],W[1]))] = True
		H  = np.where(cov, G, 0).astype(dt)
		ia = [[take(G,b) for b in bs] for bs in ib]
		def fn(c):
			kw = dict(wrap=W) if wrap else {}
			return utils.redistribute(ia[c.rank], np.array(ib[c.rank]), np.array(ob[c.rank]), c, **kw)
		def check(res):
			for k in range(n):
				if len(res[k]) != len(ob[k]): raise Violation("redistribute", "rank %d got %d arrays, expected %d" % (k, len(res[k]), len(ob[k])))
				for j,(g,b) in enumerate(zip(res[k], ob[k])): same("redistribute", g, take(H,b), "slice %d of rank %d: element " % (j,k))
	return fn, check

def run(case, ctx):
	w = case["w"]; r = np_rng(w["seed"]); n = w["n"]
	prog = [make(w, r, op) for op in w["ops"]]
	for op in w["ops"]: ctx.probe("op_"+op)
	fn = lambda c: [f(c) for f,_ in prog]
	def check(res):
		for j,(f,c) in enumerate(prog): c([res[k][j] for k in range(n)])
	mpi.run_specs(case, ctx, n, fn, check, w)
	if n == 1:
		check([fn(mpiutils.FakeCommunicator())]); ctx.probe("stand_in_communicator")
		F = mpiutils.FakeCommunicator()
		for name, get in (("allgather",lambda o: F.allgather(o)[0]), ("allreduce",lambda o: F.allreduce(o))):
			obj = {"a":[1,2],"b":np.arange(3)}; res = get(obj)
			if not (isinstance(res,dict) and res["a"] == [1,2] and np.array_equal(res["b"],[0,1,2])): raise Violation("stand-in", "%s of an object on the stand-in communicator gave %r" % (name, res))
			res["a"].append(5); res["b"][0] = 9
			if obj["a"] != [1,2] or obj["b"][0] != 0: raise Violation("stand-in", "changing the result of %s on the stand-in communicator changed what was sent" % name)
		if (F.rank, F.size) != (0,1) or F.Barrier() is not None: raise Violation("stand-in", "rank %s of %s" % (F.rank, F.size))
	ctx.sample(dict(w=w, sched=case["scheds"][0]))

def shrink(case):
	def sw(w):
		if len(w["ops"]) > 1:
			for k in range(len(w["ops"])): yield dict(w, ops=w["ops"][:k]+w["ops"][k+1:])
		if w["n"] > 1: yield dict(w, n=w["n"]-1); yield dict(w, n=2)
		for f in ("wrap","step","flip"):
			if w[f]: yield dict(w, **{f:False})
		for s in range(20):
			if w["seed"] > 20: yield dict(w, seed=s)
	return mpi.shrink(case, sw)
