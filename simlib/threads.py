"""Simulated Python threads: every task is a real thread, but only the one holding the baton runs.

Each executed line of pixell is a possible switch or abort point. A seeded scheduler decides at
which lines the baton moves on and to whom; the switches actually made are recorded as
[line number counted over all tasks, next task] so that the same execution can be repeated from
the list. An abort raises an exception (out of memory, keyboard interrupt) at a given line."""
import sys, threading, os, random
from . import loader

class Abort: pass
_real_lock, _real_rlock = threading.Lock, threading.RLock
SIM = None     # the running simulation, if any

class SimLock:
	"""Lock made by pixell code: waiting for it hands the baton on."""
	def __init__(self, reentrant=False): self.re, self.owner, self.n = reentrant, None, 0
	def acquire(self, blocking=True, timeout=-1):
		me = threading.get_ident()
		while self.owner is not None and not (self.re and self.owner == me):
			if not blocking: return False
			if SIM is None or not SIM.wait(): raise RuntimeError("deadlock: lock is never released")
		self.owner = me; self.n += 1
		return True
	def release(self):
		if self.owner is None: raise RuntimeError("release unlocked lock")
		self.n -= 1
		if self.n <= 0: self.owner = None; self.n = 0
	def locked(self): return self.owner is not None
	def __enter__(self): self.acquire(); return self
	def __exit__(self, *a): self.release()
def _ours(): return str(sys._getframe(2).f_globals.get("__name__","")).startswith("pixell")
def _lock(): return SimLock() if _ours() else _real_lock()
def _rlock(): return SimLock(True) if _ours() else _real_rlock()
def install(): threading.Lock, threading.RLock = _lock, _rlock

class Sim:
	def __init__(self, tasks, seed=0, p=0.0, trace=None, aborts=None, maxswitch=400):
		"""tasks: list of lists of (label, fn); each fn result is passed to done(task, i, result, error)."""
		self.tasks, self.p, self.aborts = tasks, p, dict(aborts or {})
		self.rng = random.Random(seed)
		self.replay = None if trace is None else [tuple(t) for t in trace]
		self.log, self.lines, self.maxswitch, self.fired = [], 0, maxswitch, []
		self.gate = [threading.Semaphore(0) for t in tasks]
		self.alive = set(range(len(tasks))); self.cur = None; self.main = threading.Semaphore(0)
		self.root = os.path.join(os.path.realpath(loader.REPO),"pixell")+os.sep
		self.known = {}
		self.exc = {}
		self.ntab = 0; self.callline = 0
	# tracing
	def _want(self, code):
		f = code.co_filename
		w = self.known.get(f)
		if w is None: w = self.known[f] = os.path.realpath(f).startswith(self.root)
		return w and code.co_name != "<module>"
	def _tracer(self, frame, event, arg): return self._line if self._want(frame.f_code) else None
	def _line(self, frame, event, arg):
		if event != "line": return self._line
		self.lines += 1; self.callline += 1
		ab = self.aborts.get(self.call)
		if ab is not None and self.callline == ab[0]:
			self.fired.append(self.call); raise (MemoryError if ab[1] == "memory" else KeyboardInterrupt)("simulated")
		if len(self.alive) > 1:
			to = self.pick(self.lines)
			if to is not None: self.switch(to)
		return self._line
	def pick(self, n):
		me = self.cur
		if self.replay is not None:
			if self.replay and self.replay[0][0] <= n:
				to = self.replay.pop(0)[1]
				return to if to in self.alive and to != me else None
			return None
		if len(self.log) < self.maxswitch and self.rng.random() < self.p:
			return self.rng.choice(sorted(self.alive-{me}))
		return None
	def switch(self, to):
		me, call, cl = self.cur, self.call, self.callline
		self.log.append([self.lines, to])
		self.cur = to; self.gate[to].release(); self.gate[me].acquire()
		self.cur, self.call, self.callline = me, call, cl
	def wait(self):
		o = sorted(self.alive-{self.cur})
		if not o: return False
		self.ntab += 1
		if self.ntab > 100000: return False
		self.switch(o[self.ntab % len(o)]); return True
	def body(self, k, done):
		self.gate[k].acquire()
		try:
			for i,(label,fn) in enumerate(self.tasks[k]):
				self.cur, self.call, self.callline = k, label, 0
				err = res = None
				sys.settrace(self._tracer)
				try: res = fn()
				except BaseException as e: err = e
				finally: sys.settrace(None)
				done(label, res, err)
		except BaseException as e: self.exc[k] = e
		self.alive.discard(k)
		if self.alive:
			to = min(self.alive) if self.replay is not None or self.p == 0 else self.rng.choice(sorted(self.alive))
			if self.replay is not None and self.replay and self.replay[0][0] <= self.lines: to = self.replay.pop(0)[1] if self.replay[0][1] in self.alive else to
			self.log.append([self.lines, to])
			self.cur = to; self.gate[to].release()
		else: self.main.release()
	def run(self, done):
		global SIM
		SIM = self
		try:
			th = [threading.Thread(target=self.body, args=(k,done), daemon=True) for k in range(len(self.tasks))]
			for t in th: t.start()
			self.gate[0].release(); self.main.acquire()
			for t in th: t.join()
		finally: SIM = None
		for e in self.exc.values(): raise e
