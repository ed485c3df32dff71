"""Simulated message passing: all ranks of a job inside one process, one running at a time.

A seeded scheduler decides at every communication call which rank proceeds. Semantics follow
MPI as seen through mpi4py: collectives match in call order per communicator, point-to-point
messages between one pair with one tag do not overtake, sends may be buffered or synchronous,
buffers must be contiguous (C or Fortran) and are transferred in memory order, a receive buffer
that is too small is an error, reductions may combine in any order."""
import threading, random, pickle, hashlib, numpy as np
from .core import Violation, HarnessError

class Abort(BaseException): pass
class MPIError(Exception): pass

ANY = -1
def SUM(a,b): return a+b
def MAX(a,b): return np.maximum(a,b)
def MIN(a,b): return np.minimum(a,b)
def PROD(a,b): return a*b

OKKINDS = "?bhilqpBHILQPefdgFDGc"
class Done:
	"""request of a non-blocking send (always buffered)"""
	def wait(self): return None
	def test(self): return True, None
def buf(spec):
	"""-> (flat 1d view in memory order, counts or None, displs or None)"""
	counts = displs = None
	if isinstance(spec, (tuple,list)) and not np.isscalar(spec[0]):
		arr = spec[0]; rest = [x for x in spec[1:] if x is not None and not isinstance(x,str)]
		if len(rest) == 1:
			if isinstance(rest[0], tuple): counts, displs = rest[0]
			else: counts = rest[0]
		elif len(rest) >= 2: counts, displs = rest[:2]
	else: arr = spec
	if not isinstance(arr, np.ndarray):
		if isinstance(arr, (np.generic,)): arr = np.asarray(arr)
		else: raise TypeError("message: expecting buffer or list/tuple, got %s" % type(arr).__name__)
	if arr.dtype.char not in OKKINDS and arr.dtype != "S1": raise KeyError(arr.dtype.char)
	if   arr.flags.c_contiguous: flat = arr.reshape(-1)
	elif arr.flags.f_contiguous: flat = arr.T.reshape(-1)
	else: raise ValueError("ndarray is not contiguous")
	flat = flat.view(np.ndarray)
	if counts is not None:
		counts = [int(c) for c in np.asarray(counts).reshape(-1)]
		if displs is None: displs = list(np.cumsum([0]+counts[:-1]))
		displs = [int(d) for d in np.asarray(displs).reshape(-1)]
	return flat, counts, displs

class World:
	def __init__(self, size, spec):
		self.size, self.spec = size, spec
		self.seed = spec.get("seed",0)
		self.rng  = random.Random(self.seed)
		self.policy = spec.get("policy","random")
		self.trace_in = spec.get("trace")
		self.trace = []
		self.cv   = [threading.Lock() for i in range(size)]
		for l in self.cv: l.acquire()
		self.state= ["ready"]*size         # ready | blocked | done
		self.pred = [None]*size
		self.dead = None
		self.mainlock = threading.Lock(); self.mainlock.acquire()
		self.coll = {}                     # index -> dict(name, args{rank}, left)
		self.collno = [0]*size
		self.msgs = []                     # in flight: dict(src,dst,tag,kind,data,seq,taken)
		self.opno = [0]*size
		self.h    = hashlib.sha256()
		self.nops = self.nmsg = self.nsync = self.nearly = self.nblock = self.nreorder = self.switches = 0
		self.maxops = spec.get("maxops", 20000)
		self.slow = self.rng.randrange(size) if self.policy == "slow" else None
		self.prio = list(range(size)); self.rng.shuffle(self.prio)
	# random choice tied to (rank, op number) so that it survives schedule edits
	def choice(self, rank, what, n):
		h = hashlib.sha256(repr((self.seed, rank, self.opno[rank], what)).encode()).digest()
		return int.from_bytes(h[:4],"big") % n
	def runnable(self):
		out = []
		for r in range(self.size):
			if self.state[r] == "ready": out.append(r)
			elif self.state[r] == "blocked" and self.pred[r](): out.append(r)
		return out
	def pick(self):
		c = self.runnable()
		if not c: return None
		if len(c) == 1: return c[0]
		k = len(self.trace)
		if self.trace_in is not None:
			want = self.trace_in[k] if k < len(self.trace_in) else -1
			r = want if want in c else c[0]
		elif self.policy == "slow":
			o = [x for x in c if x != self.slow]
			r = self.rng.choice(o) if o else c[0]
		elif self.policy == "prio":
			if self.rng.random() < 0.1: self.rng.shuffle(self.prio)
			r = min(c, key=lambda x: self.prio[x])
		elif self.policy == "lockstep": r = c[0]
		elif self.policy == "reverse":  r = c[-1]
		else: r = self.rng.choice(c)
		self.trace.append(r)
		self.h.update(b"%d," % r)
		return r
	def switch(self, me):
		"""Hand the baton to a chosen rank and wait until it comes back (called by rank me)."""
		if self.dead: raise Abort()
		self.nops += 1
		if self.nops > self.maxops: self.die(Violation("no-progress", "the ranks still communicate after %d steps" % self.nops)); raise Abort()
		nxt = self.pick()
		if nxt is None:
			if all(s == "done" for s in self.state): self.mainlock.release(); return
			st = ", ".join("rank %d %s" % (r, self.waiting[r] if self.state[r]=="blocked" else self.state[r]) for r in range(self.size))
			self.die(Violation("deadlock", "no rank can proceed: "+st)); raise Abort()
		if nxt == me:
			self.state[me] = "ready" if self.state[me] != "done" else "done"; return
		self.switches += 1
		self.cv[nxt].release()
		if self.state[me] == "done": return
		self.cv[me].acquire()
		if self.dead: raise Abort()
		self.state[me] = "ready"
	def die(self, exc):
		if self.dead is None: self.dead = exc
	def block(self, me, pred, what):
		self.waiting[me] = what
		self.opno[me] += 1
		if not pred(): self.nblock += 1
		self.state[me] = "blocked"; self.pred[me] = pred
		self.switch(me)
		if not pred(): raise HarnessError("rank %d resumed while blocked" % me)
	def point(self, me):
		self.state[me] = "ready"
		self.switch(me)
	def run(self, fn):
		"""fn(comm) on every rank -> list of results. Raises what a rank raised."""
		self.waiting = [""]*self.size
		res = [None]*self.size; exc = [None]*self.size
		def main(r):
			self.cv[r].acquire()
			try:
				if self.dead: return
				res[r] = fn(Comm(self, r))
			except Abort: pass
			except BaseException as e:
				exc[r] = e; self.die(e)
			finally:
				self.state[r] = "done"
				if self.dead: self.killall()
				else:
					try: self.switch(r)
					except Abort: self.killall()
		ts = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(self.size)]
		for t in ts: t.start()
		self.cv[self.pick()].release()
		self.mainlock.acquire()
		for t in ts: t.join(60)
		if self.dead is not None: raise self.dead
		left = [m for m in self.msgs if not m["taken"]]
		if left: raise Violation("lost-message", "%d messages were sent and never received, e.g. from rank %d to %d" % (len(left), left[0]["src"], left[0]["dst"]))
		return res
	_killed = False
	def killall(self):
		if self._killed: return
		self._killed = True
		for l in self.cv:
			try: l.release()
			except RuntimeError: pass
		try: self.mainlock.release()
		except RuntimeError: pass

class Comm:
	def __init__(self, world, rank):
		self.w, self.rank, self.size = world, rank, world.size
	def Get_rank(self): return self.rank
	def Get_size(self): return self.size
	# ---- collectives
	def _coll(self, name, args, done, early=False):
		"""Join collective number n. done(all args) runs once when everybody is in.
		early: this rank may leave before the others arrive."""
		w, me = self.w, self.rank
		w.opno[me] += 1
		w.point(me)
		n = w.collno[me]; w.collno[me] += 1
		c = w.coll.setdefault(n, dict(name=name, args={}, out=None, done=False, key=args[0]))
		if c["name"] != name or c["key"] != args[0]:
			raise Violation("collective-mismatch", "rank %d called %s%s as collective %d, another rank %s%s" % (me, name, args[0], n, c["name"], c["key"]))
		c["args"][me] = args[1:]
		if len(c["args"]) == w.size:
			c["out"] = done(c["args"]); c["done"] = True
		if early and w.choice(me, "early", 2):
			w.nearly += not c["done"]
			return c
		w.block(me, lambda: c["done"], "waiting in "+name)
		return c
	def _order(self):
		w = self.w; o = list(range(self.size))
		random.Random("%r" % ((w.seed, w.collno[self.rank]),)).shuffle(o)
		return o
	def _fold(self, vals, op, order):
		acc = None
		for r in order:
			v = vals[r]
			acc = v.copy() if acc is None and isinstance(v, np.ndarray) else (v if acc is None else op(acc, v))
		return acc
	def _reduce_check(self, a):
		f, _, _ = buf(a); return f.copy()
	def Allreduce(self, sendbuf, recvbuf, op=SUM):
		f = self._reduce_check(sendbuf); r,_,_ = buf(recvbuf)
		if f.size != r.size or f.dtype.itemsize != r.dtype.itemsize: raise MPIError("MPI_ERR_TRUNCATE: message truncated")
		order = self._order()
		def done(args):
			vals = {k:v[0] for k,v in args.items()}
			if len({v.size for v in vals.values()}) != 1 or len({v.dtype.char for v in vals.values()}) != 1: raise MPIError("MPI_ERR_TRUNCATE: ranks reduce different amounts or types of data")
			return self._fold(vals, op, order)
		c = self._coll("Allreduce", ((), f), done)
		r[:] = c["out"]
	def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
		f = self._reduce_check(sendbuf)
		order = self._order()
		if self.rank == root:
			r,_,_ = buf(recvbuf)
			if f.size != r.size: raise MPIError("MPI_ERR_TRUNCATE: message truncated")
		def done(args):
			vals = {k:v[0] for k,v in args.items()}
			if len({v.size for v in vals.values()}) != 1 or len({v.dtype.char for v in vals.values()}) != 1: raise MPIError("MPI_ERR_TRUNCATE: ranks reduce different amounts or types of data")
			return self._fold(vals, op, order)
		c = self._coll("Reduce", ((root,), f), done, early=self.rank != root)
		if self.rank == root: r[:] = c["out"]
	def Allgather(self, sendbuf, recvbuf):
		f = self._reduce_check(sendbuf); r,_,_ = buf(recvbuf)
		if r.nbytes != f.nbytes*self.size: raise MPIError("MPI_ERR_TRUNCATE: message truncated")
		def done(args):
			if len({v[0].nbytes for v in args.values()}) != 1: raise MPIError("MPI_ERR_TRUNCATE: ranks gather different amounts of data")
			return b"".join(args[k][0].tobytes() for k in range(self.size))
		c = self._coll("Allgather", ((), f), done)
		r[:] = np.frombuffer(c["out"], r.dtype)
	def Allgatherv(self, sendbuf, recvbuf):
		f,cn,_ = buf(sendbuf); f = f.copy(); r, counts, displs = buf(recvbuf)
		if counts is None: raise MPIError("Allgatherv needs counts")
		c = self._coll("Allgatherv", ((), f), lambda args: {k:v[0] for k,v in args.items()})
		for k in range(self.size):
			d = c["out"][k]
			if d.nbytes > counts[k]*r.itemsize: raise MPIError("MPI_ERR_TRUNCATE: message truncated")
			if displs[k] < 0 or displs[k]+counts[k] > r.size: raise MPIError("receive buffer of rank %d too small" % self.rank)
			n = d.nbytes//r.itemsize
			r[displs[k]:displs[k]+n] = np.frombuffer(d.tobytes(), r.dtype)
	def Alltoallv(self, sendbuf, recvbuf):
		f, sc, sd = buf(sendbuf); f = f.copy(); r, rc, rd = buf(recvbuf)
		for o,n in zip(sd,sc):
			if n and (o < 0 or o+n > f.size): raise MPIError("send buffer of rank %d too small" % self.rank)
		c = self._coll("Alltoallv", ((), f, sc, sd), lambda args: dict(args))
		for k in range(self.size):
			of, oc, od = c["out"][k]
			d = of[od[self.rank]:od[self.rank]+oc[self.rank]]
			if d.nbytes > rc[k]*r.itemsize: raise MPIError("MPI_ERR_TRUNCATE: message truncated")
			if rc[k] and (rd[k] < 0 or rd[k]+rc[k] > r.size): raise MPIError("receive buffer of rank %d too small" % self.rank)
			if d.nbytes: r[rd[k]:rd[k]+d.nbytes//r.itemsize] = np.frombuffer(d.tobytes(), r.dtype)
	def Bcast(self, b, root=0):
		f,_,_ = buf(b)
		c = self._coll("Bcast", ((root,), f.copy() if self.rank == root else None), lambda args: args[root][0], early=self.rank==root)
		if self.rank != root: f[:] = c["out"]
	def Barrier(self): self._coll("Barrier", ((),), lambda args: None)
	barrier = Barrier
	def bcast(self, obj=None, root=0):
		p = pickle.dumps(obj) if self.rank == root else None
		c = self._coll("bcast", ((root,), p), lambda args: args[root][0], early=self.rank==root)
		return obj if self.rank == root else pickle.loads(c["out"])
	def allgather(self, obj):
		c = self._coll("allgather", ((), pickle.dumps(obj)), lambda args: [args[k][0] for k in range(self.size)])
		return [pickle.loads(p) for p in c["out"]]
	def gather(self, obj, root=0):
		c = self._coll("gather", ((root,), pickle.dumps(obj)), lambda args: [args[k][0] for k in range(self.size)], early=self.rank!=root)
		return [pickle.loads(p) for p in c["out"]] if self.rank == root else None
	def allreduce(self, obj, op=SUM):
		order = self._order()
		c = self._coll("allreduce", ((), pickle.dumps(obj)), lambda args: [args[k][0] for k in range(self.size)])
		return self._fold([pickle.loads(p) for p in c["out"]], op, order)
	def reduce(self, obj, op=SUM, root=0):
		order = self._order()
		c = self._coll("reduce", ((root,), pickle.dumps(obj)), lambda args: [args[k][0] for k in range(self.size)], early=self.rank!=root)
		return self._fold([pickle.loads(p) for p in c["out"]], op, order) if self.rank == root else None
	# ---- point to point
	def _post(self, kind, data, dest, tag, wait=True):
		w, me = self.w, self.rank
		if not 0 <= dest < self.size: raise MPIError("MPI_ERR_RANK: invalid rank")
		w.opno[me] += 1
		w.point(me)
		m = dict(src=me, dst=dest, tag=tag, kind=kind, data=data, taken=False)
		w.msgs.append(m); w.nmsg += 1
		if wait and w.choice(me, "sync", 2):
			w.nsync += 1
			w.block(me, lambda: m["taken"], "waiting in send to %d" % dest)
	def _match(self, source, tag, kind):
		w, me = self.w, self.rank
		seen = set(); cand = []
		for m in w.msgs:
			if m["taken"] or m["dst"] != me: continue
			if source != ANY and m["src"] != source: continue
			if tag != ANY and m["tag"] != tag: continue
			if m["src"] in seen: continue   # only the oldest matching message of each sender
			seen.add(m["src"]); cand.append(m)
		return cand
	def _get(self, kind, source, tag):
		w, me = self.w, self.rank
		w.opno[me] += 1
		w.point(me)
		w.block(me, lambda: len(self._match(source, tag, kind)) > 0, "waiting in receive from %s" % source)
		cand = self._match(source, tag, kind)
		m = cand[w.choice(me, "src", len(cand))]
		if len(cand) > 1: w.nreorder += 1
		m["taken"] = True
		if m["kind"] != kind: raise MPIError("a %s message was received as a %s" % (m["kind"], kind))
		return m["data"]
	def send(self, obj, dest, tag=0): self._post("object", pickle.dumps(obj), dest, tag)
	def isend(self, obj, dest, tag=0):
		self._post("object", pickle.dumps(obj), dest, tag, wait=False); return Done()
	def recv(self, buf=None, source=ANY, tag=ANY): return pickle.loads(self._get("object", source, tag))
	def Send(self, b, dest, tag=0):
		f,_,_ = buf(b); self._post("buffer", f.copy(), dest, tag)
	def Recv(self, b, source=ANY, tag=ANY):
		r,_,_ = buf(b)
		d = self._get("buffer", source, tag)
		if d.nbytes > r.nbytes: raise MPIError("MPI_ERR_TRUNCATE: message truncated")
		r[:d.nbytes//r.itemsize] = np.frombuffer(d.tobytes(), r.dtype)

def gen_specs(rng, n, maxsize=7):
	return [dict(seed=rng.getrandbits(32), policy=rng.choice(["random","random","random","slow","prio","lockstep","reverse"])) for i in range(n)]

def run_specs(case, ctx, size, fn, check, nontrivial=None):
	"""Runs fn(comm) on size ranks under each spec; check(results) decides."""
	for spec in case["scheds"]:
		w = World(size, spec)
		err = None; res = None
		try: res = w.run(fn)
		except HarnessError: raise
		except Exception as e: err = e
		ctx.exec(ihash=int.from_bytes(w.h.digest()[:8],"big") ^ nontrivial_hash(nontrivial), nontrivial=nontrivial if size > 1 and w.switches > 0 else None, events=w.nops)
		ctx.fault("rank_stalled_while_others_ran", w.switches); ctx.fault("synchronous_send", w.nsync); ctx.fault("left_collective_early", w.nearly); ctx.fault("receive_reordered", w.nreorder)
		ctx.probe("blocked_in_communication", w.nblock); ctx.probe("messages", w.nmsg); ctx.probe("ranks_%d" % size)
		try:
			if err is not None: raise err
			check(res)
		except Violation as v:
			v.case = dict(case, scheds=[dict(spec, trace=spec.get("trace", w.trace))])
			raise v
		except HarnessError: raise
		except Exception as e:
			from .worker_util import tb
			raise Violation("exception:%s" % type(e).__name__, tb(e), dict(case, scheds=[dict(spec, trace=spec.get("trace", w.trace))]))

def nontrivial_hash(x):
	from .core import hash64
	return hash64(x)

def shrink(case, shrink_w=None):
	if shrink_w is not None:
		from .core import rng_for, hash64
		for k, w2 in enumerate(shrink_w(case["w"])):
			r = rng_for(77, k, hash64(w2))
			yield dict(case, w=w2, scheds=[{k:v for k,v in case["scheds"][0].items() if k != "trace"}]+gen_specs(r, 4))
	sp = case["scheds"][0]
	if "trace" in sp:
		tr = sp["trace"]; n = len(tr); size = n
		while size >= 1:
			if n/size > 64: break
			for a in range(0, n, size): yield dict(case, scheds=[dict(sp, trace=tr[:a]+tr[a+size:])])
			size //= 2
		for i in range(min(n,64)):
			if tr[i] != 0: yield dict(case, scheds=[dict(sp, trace=tr[:i]+[0]+tr[i+1:])])
