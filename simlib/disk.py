"""Control of the simulated disk (simio.c, preloaded into the worker).

Disk(root) counts and records every file call below root. A plan makes the n'th call of some
class fail, be shortened, or take effect and then fail. From the record of a fault-free write the
contents of the directory after a process crash at any call (or in the middle of a write) can be
rebuilt exactly, without running it again."""
import ctypes, os, errno, shutil
OPS = "none openw write trunc sync closew rename unlink mkdir openr read".split()
OP  = {n:i for i,n in enumerate(OPS)}
ERR, SHORT, LATE = 1, 2, 3
W_ALL = ["openw","write","trunc","sync","closew","rename","unlink","mkdir"]
L = None
def lib():
	global L
	if L is None:
		from .core import HarnessError
		if "libsimio" not in os.environ.get("LD_PRELOAD",""): raise HarnessError("the disk simulator is not preloaded")
		L = ctypes.CDLL(None)
		L.simio_start.argtypes = [ctypes.c_char_p, ctypes.c_int]
		L.simio_plan.argtypes = [ctypes.c_int]*6
		for f in ("simio_fired","simio_count","simio_njournal"): getattr(L,f).restype = ctypes.c_long
		P = ctypes.POINTER
		L.simio_entry.argtypes = [ctypes.c_long, P(ctypes.c_char_p), P(ctypes.c_char_p), P(ctypes.c_long), P(ctypes.c_long), P(ctypes.c_void_p)]
	return L

class Disk:
	def __init__(self, root): self.root = os.path.abspath(root)
	def start(self, plan=(), record=True):
		"""plan: list of dict(ops=[names], n=, kind=err|short|late, errno=, arg=, sticky=)"""
		l = lib(); l.simio_start(self.root.encode(), int(record))
		self.plan = list(plan)
		for p in self.plan:
			mask = 0
			for o in p["ops"]: mask |= 1<<OP[o]
			l.simio_plan(mask, int(p["n"]), {"err":ERR,"short":SHORT,"late":LATE}[p["kind"]], getattr(errno, p.get("errno","EIO")), int(p.get("arg",0)), int(p.get("sticky",False)))
	def stop(self):
		"""-> (fired per plan entry, count per op)"""
		l = lib()
		fired = [l.simio_fired(i) for i in range(len(self.plan))]
		count = {n:l.simio_count(i) for i,n in enumerate(OPS) if l.simio_count(i)}
		l.simio_stop()
		return fired, count
	def journal(self):
		l = lib(); out = []
		p1, p2 = ctypes.c_char_p(), ctypes.c_char_p(); off, n = ctypes.c_long(), ctypes.c_long(); d = ctypes.c_void_p()
		for i in range(l.simio_njournal()):
			op = l.simio_entry(i, ctypes.byref(p1), ctypes.byref(p2), ctypes.byref(off), ctypes.byref(n), ctypes.byref(d))
			out.append((OPS[op], p1.value.decode() if p1.value else None, p2.value.decode() if p2.value else None, off.value, n.value, ctypes.string_at(d.value, n.value) if d.value else b""))
		return out
	def snapshot(self):
		"""-> {relative path: bytes (file) or None (directory)}"""
		out = {}
		for dp, dn, fn in os.walk(self.root):
			for x in dn: out[os.path.relpath(os.path.join(dp,x), self.root)] = None
			for x in fn:
				with open(os.path.join(dp,x),"rb") as f: out[os.path.relpath(os.path.join(dp,x), self.root)] = f.read()
		return out
	def crash_state(self, before, journal, k, torn=None):
		"""Contents after the first k recorded calls, plus the first torn bytes of call k if it is a write."""
		st = {p:(bytearray(b) if b is not None else None) for p,b in before.items()}
		rel = lambda p: os.path.relpath(p, self.root)
		def put(p, off, data):
			f = st.setdefault(rel(p), bytearray())
			if len(f) < off: f.extend(bytes(off-len(f)))
			f[off:off+len(data)] = data
		for i,(op,p1,p2,off,n,data) in enumerate(journal[:k+1]):
			if i == k:
				if op == "write" and torn: put(p1, off, data[:torn])
				break
			if   op == "openw":  st[rel(p1)] = bytearray()
			elif op == "write":  put(p1, off, data)
			elif op == "trunc":
				f = st.setdefault(rel(p1), bytearray())
				if len(f) > n: del f[n:]
				else: f.extend(bytes(n-len(f)))
			elif op == "rename": 
				if rel(p1) in st: st[rel(p2)] = st.pop(rel(p1))
			elif op == "unlink": st.pop(rel(p1), None)
			elif op == "mkdir":  st[rel(p1)] = None
		return st

def restore(state, root):
	shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
	for p in sorted(state):
		f = os.path.join(root, p)
		if state[p] is None: os.makedirs(f, exist_ok=True)
		else:
			os.makedirs(os.path.dirname(f), exist_ok=True)
			with open(f,"wb") as o: o.write(bytes(state[p]))

def gen_fault(rng, mode):
	"""One seeded fault for a writing (w) or reading (r) operation."""
	if mode == "w":
		k = rng.choice(["full","full","io","io","open","close","short","unlink","mkdir","race"])
		n = rng.choice([0,0,1,1,2,3,5,8,13,20])
		if k == "full":  return dict(name="disk_full", ops=["write","trunc"], n=n, kind="err", errno=rng.choice(["ENOSPC","EDQUOT"]), arg=rng.choice([0,0,1,80,512,2880,4096]), sticky=True)
		if k == "io":    return dict(name="write_error", ops=["write","trunc"], n=n, kind="err", errno="EIO", sticky=True)
		if k == "open":  return dict(name="open_denied", ops=["openw"], n=0, kind="err", errno=rng.choice(["EACCES","ENOENT","EROFS","EMFILE"]), sticky=True)
		if k == "close": return dict(name="close_error", ops=["closew"], n=rng.choice([0,0,1]), kind="err", errno="EIO", sticky=True)
		if k == "short": return dict(name="short_write", ops=["write"], n=n, kind="short", arg=rng.randrange(1<<20), sticky=rng.random()<0.5)
		if k == "unlink":return dict(name="unlink_denied", ops=["unlink","rename"], n=0, kind="err", errno="EACCES", sticky=True)
		if k == "mkdir": return dict(name="mkdir_denied", ops=["mkdir"], n=0, kind="err", errno="EACCES", sticky=True)
		return dict(name="directory_made_by_other", ops=["mkdir"], n=rng.choice([0,0,1]), kind="late", errno="EEXIST")
	k = rng.choice(["io","io","open","short","short"])
	if k == "io":   return dict(name="read_error", ops=["read"], n=rng.choice([0,1,2,3,5,8,20,40]), kind="err", errno="EIO", sticky=True)
	if k == "open": return dict(name="open_denied_read", ops=["openr"], n=rng.choice([0,1]), kind="err", errno=rng.choice(["EACCES","EMFILE","ENOENT"]), sticky=True)
	return dict(name="short_read", ops=["read"], n=rng.choice([0,1,2,3,5,8]), kind="short", arg=rng.randrange(1<<20), sticky=rng.random()<0.7)

class Died(Exception): pass
class Remote(Exception): pass
def in_child(fn, timeout=60):
	"""Run fn in a forked copy of the process (the hdf5 library can crash, or keep damaged state, when the disk
	fails under it: that is a loud failure which must not take the simulator along). Returns fn's result
	or raises Remote (it raised) or Died (the copy died)."""
	import pickle, select, signal
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		code = 1
		try:
			os.close(r)
			nul = os.open("/dev/null", os.O_WRONLY); os.dup2(nul, 2)
			try: out = ("ok", fn())
			except Exception as e: out = ("err", type(e).__name__, str(e)[:500])
			data = pickle.dumps(out)
			while data: data = data[os.write(w, data):]
			code = 0
		finally: os._exit(code)
	os.close(w)
	buf = b""
	while True:
		ok, _, _ = select.select([r], [], [], timeout)
		if not ok: os.kill(pid, signal.SIGKILL); break
		d = os.read(r, 1<<16)
		if not d: break
		buf += d
	os.close(r); _, st = os.waitpid(pid, 0)
	try: out = pickle.loads(buf)
	except Exception: raise Died("the process died with status %d" % st)
	if out[0] == "err": raise Remote(out[1]+": "+out[2])
	return out[1]
