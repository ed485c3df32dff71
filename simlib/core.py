"""Common vocabulary of all simulated checks: violations, seeded choice, statistics."""
import hashlib, json, random

class Violation(Exception):
	"""The property does not hold on this execution. kind is the violation class that
	minimisation must preserve; trace (optional) is an explicit schedule that reproduces it."""
	def __init__(self, kind, msg, case=None):
		Exception.__init__(self, "%s: %s" % (kind, msg))
		self.kind, self.msg, self.case = kind, msg, case

class HarnessError(Exception):
	"""Something is wrong with the machinery, not with pixell."""

def rng_for(seed, *path):
	h = hashlib.sha256(json.dumps([seed]+list(path)).encode()).digest()
	return random.Random(int.from_bytes(h[:8], "big"))

def np_rng(seed, *path):
	import numpy as np
	h = hashlib.sha256(json.dumps([seed]+list(path)).encode()).digest()
	return np.random.Generator(np.random.PCG64(int.from_bytes(h[:8], "big")))

class Ctx:
	"""Measured coverage of the executions of one worker."""
	def __init__(self):
		self.execs = 0          # simulated executions
		self.cases = 0
		self.faults = {}        # fault kind -> times actually fired
		self.probes = {}        # rare condition -> times reached
		self.inter = set()      # hashes of distinct interleavings / fault traces
		self.nontrivial = set() # hashes of distinct non-trivial cases
		self.events = 0
		self.simtime = 0.0
		self.samples = []
		self.digest = hashlib.sha256()
	def fault(self, kind, n=1):
		if n: self.faults[kind] = self.faults.get(kind,0)+int(n)
	def probe(self, kind, n=1):
		if n: self.probes[kind] = self.probes.get(kind,0)+int(n)
	def exec(self, ihash=None, nontrivial=None, events=0, simtime=0.0):
		self.execs += 1; self.events += events; self.simtime += simtime
		if ihash is not None:
			h = hash64(ihash); self.inter.add(h); self.log(h)
		if nontrivial is not None: self.nontrivial.add(hash64(nontrivial))
	def log(self, *what):
		self.digest.update(repr(what).encode())
	def sample(self, s):
		if len(self.samples) < 3: self.samples.append(s)

def hash64(x):
	if isinstance(x, int): return x & (2**64-1)
	return int.from_bytes(hashlib.sha256((x if isinstance(x,str) else json.dumps(x, sort_keys=True, default=str)).encode()).digest()[:8], "big")
