"""Control of the simulated OpenMP runtime (simgomp)."""
import ctypes, numpy as np, os
from . import loader
lib = None
STATS = ["regions","events","switches","barriers","chunks","fewer_threads","conflicts","criticals","clock_reads","clock_jumps","failed","hash","nsw","nteam","npc","mallocs","maxteam","clock_us"]
FAIL  = {1:"deadlock", 2:"livelock"}
POLICIES = {"serial":0, "random":1, "pct":2, "race":3, "reverse":4, "roundrobin":5}
def init():
	global lib
	lib = ctypes.CDLL(os.path.join(loader.EXT, "libsimgomp.so"))
	lib.sg_begin.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_double, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
	P = ctypes.c_void_p
	lib.sg_end.argtypes = [P]
	lib.sg_replay.argtypes = [ctypes.c_long, P,P,P,P, ctypes.c_int, P]
	lib.sg_get_log.argtypes = [P]*5

# numpy allocation seam: in "dirty heap" mode fresh np.empty memory is filled with junk
_empty, _empty_like = np.empty, np.empty_like
_dirty = [0]
_dcount = [0]
def _junk(a):
	if _dirty[0]:
		_dcount[0] += 1
		try:
			if   a.dtype.kind in "fc": a.fill(np.nan if _dirty[0] == 1 else 1.37e7 if _dirty[0]==2 else -3.0)
			elif a.dtype.kind in "iu": a.fill(77 if _dirty[0] == 1 else 1 if _dirty[0]==2 else 3)
		except Exception: pass
	return a
def _jempty(*a, **k): return _junk(_empty(*a, **k))
def _jempty_like(*a, **k):
	r = _empty_like(*a, **k)
	return _junk(r)
np.empty, np.empty_like = _jempty, _jempty_like

class Sched:
	"""One scheduled execution. Either a policy drawn from a seed or an explicit trace."""
	def __init__(self, spec):
		# spec: {"seed","nthreads","policy","p","npct","horizon","less","junk","clock"} or plus {"trace":[[reg,tid,ev,to]...],"teams":[...]}
		self.spec = spec; self.stats = None
	def __enter__(self):
		s = self.spec
		lib.sg_begin(s["seed"], s["nthreads"], POLICIES[s["policy"]], s.get("p",0.1), s.get("npct",0), s.get("horizon",1000), s.get("less",0), s.get("junk",0), s.get("clock",0), s.get("maxev", 20_000_000))
		_dirty[0] = s.get("junk",0); _dcount[0] = 0
		if "trace" in s:
			t = np.asarray(s["trace"], np.int64).reshape(-1,4)
			reg, tid, to = [np.ascontiguousarray(t[:,i].astype(np.int32)) for i in (0,1,3)]
			ev = np.ascontiguousarray(t[:,2]); tm = np.asarray(s["teams"], np.int32)
			self._keep = (reg,tid,ev,to,tm)
			lib.sg_replay(len(t), reg.ctypes.data, tid.ctypes.data, ev.ctypes.data, to.ctypes.data, len(tm), tm.ctypes.data)
		return self
	def __exit__(self, *a):
		out = np.zeros(32, np.int64)
		lib.sg_end(out.ctypes.data)
		_dirty[0] = 0
		self.stats = dict(zip(STATS, [int(x) for x in out[:len(STATS)]]))
		self.stats["dirty_arrays"] = _dcount[0]
		return False
	def log(self):
		n, m = self.stats["nsw"], self.stats["nteam"]
		reg, tid, to = [np.zeros(n,np.int32) for i in range(3)]; ev = np.zeros(n,np.int64); tm = np.zeros(m,np.int32)
		lib.sg_get_log(reg.ctypes.data, tid.ctypes.data, ev.ctypes.data, to.ctypes.data, tm.ctypes.data)
		return np.stack([reg,tid,ev,to],1).tolist(), tm.tolist()
def reset_races(): lib.sg_reset_pcs()
