"""C08: a map that was written reads back identically; failed and interrupted writes are never silent."""
ID    = "C08"
DISK  = True
NCASE = {"quick": 1000, "thorough": 60000}
RULE  = "case = a history of 1-6 steps on a few map files in one directory (write, overwrite, add to or replace parts of an hdf file, write geometry, read) over random maps (dtype, byte order, memory layout, leading dimensions, projection, extra header entries), with seeded disk faults in individual steps (disk full after some bytes, write/open/close/unlink/mkdir errors, short writes and reads, read errors, directory created concurrently) and process crashes at seeded file calls or in the middle of a write, followed by restart from the surviving files; non-trivial when at least one fault or crash took effect"
MEASURE = "64-bit hash of the sequence of file calls and faults that fired over the history"
REAL  = ["pixell/enmap.py map file reading and writing", "astropy.io.fits", "h5py and libhdf5", "numpy tofile/fromfile"]
STUB  = ["kernel file calls below the scratch directory -> simulated disk (simlib/simio.c): real files plus fault plan and call record"]
ASSUME = ["a crash kills the process, what it already wrote to the operating system survives (not power loss)", "a failing disk keeps failing until the call ends", "numpy's stdio streams are unbuffered", "dtypes the format supports"]
import numpy as np, os, io, shutil, warnings
from simlib.core import Violation, np_rng
from simlib import disk, maps
from pixell import enmap, wcsutils
FILES = ["a.fits","sub/b.fits.gz","c.hdf","deep/er/d.fits","e.hdf","noext"]
FDT = ["f8","f4","i2","i4","i8","u1","i1","u2","u4",">f8",">f4",">i4"]
HDT = ["f8","f4","i2","i4","i8","u1","i1","u2","?","c16","c8",">f8",">i4"]
def gen(rng, tier, i):
	steps = []
	files = rng.sample(FILES, rng.choice([1,1,2,3])); like = rng.getrandbits(32) if rng.random() < 0.4 else None
	for k in range(rng.choice([1,2,3,4,6])):
		f = rng.choice(files); op = rng.choice(["write"]*6+["crash"]*4+["read"]*3+["geo"])
		s = dict(op=op, file=f, seed=rng.getrandbits(32))
		if op in ("write","crash"):
			s.update(hdf=f.endswith(".hdf") or (f=="noext" and rng.random()<0.3), addr=rng.choice([None,None,"m","g/h"]), extra=rng.random()<0.4, mod=rng.random()<0.15, obj=rng.random()<0.12)
			if not s["hdf"]: s["addr"] = None
			s["long"] = s["extra"] and not s["hdf"] and rng.random()<0.3
			if op == "write" and rng.random() < 0.55: s["fault"] = disk.gen_fault(rng, "w")
			if op == "crash": s["points"] = [[rng.random(), rng.random() if rng.random()<0.6 else None] for j in range(3)]; s["go"] = rng.random()<0.4
		elif op == "read":
			if rng.random() < 0.7: s["fault"] = disk.gen_fault(rng, "r")
			s["what"] = rng.choice(["map","map","map","geo","dtype","section"])
		elif op == "geo" and rng.random() < 0.5: s["fault"] = disk.gen_fault(rng, "w")
		if like is not None and rng.random() < 0.8: s["like"] = like
		steps.append(s)
	return dict(steps=steps)
def shrink(case):
	st = case["steps"]
	for i in range(len(st)): yield dict(case, steps=st[:i]+st[i+1:])
	for i,s in enumerate(st):
		for k in ("extra","mod","obj","long","addr"):
			if s.get(k): yield dict(case, steps=st[:i]+[dict(s, **{k:None if k=="addr" else False})]+st[i+1:])
		if "fault" in s: yield dict(case, steps=st[:i]+[{k:v for k,v in s.items() if k!="fault"}]+st[i+1:])
		if len(s.get("points",[])) > 1:
			for p in s["points"]: yield dict(case, steps=st[:i]+[dict(s, points=[p])]+st[i+1:])

FIXED = {"f.fits":None, "f.hdf":None}
def fixed(path, name, ref=False):
	import h5py
	m = enmap.ndmap(np.arange(12,dtype=float).reshape(3,4), maps.rand_wcs(np_rng(3), 3, 4))
	enmap.write_map(path, m)
	if name.endswith(".fits"):
		with open(path,"rb") as f: got = f.read()
	else:
		with h5py.File(path,"r") as h:
			got = []; h.visititems(lambda k,v: got.append((k, v[()].tobytes() if hasattr(v[()],"tobytes") else v[()]) if isinstance(v,h5py.Dataset) else k))
	if ref: return got
	if got != FIXED[name]: raise Violation("history-dependent", "the same map gives another %s file than in a new process" % name)
def setup():
	import tempfile, warnings; warnings.simplefilter("ignore")
	d = tempfile.mkdtemp(dir=os.environ.get("VC_SCRATCH"))
	try:
		for name in FIXED: FIXED[name] = disk.in_child(lambda: fixed(os.path.join(d,name), name, True))
	finally: shutil.rmtree(d, ignore_errors=True)
class Item:
	def __init__(self, data, wcs, extra): self.data, self.wcs, self.extra = data, wcs, extra
BAD = "unreadable"
ANY = "anything"   # the hdf5 library does not protect an existing file when adding to it is cut short
def make(s):
	r = np_rng(s["like"]) if "like" in s else np_rng(s["seed"])
	pre = [(),(),(2,),(3,),(2,1),(1,)][r.integers(6)]
	shape = pre+(int(r.integers(1,24)), int(r.integers(1,24)))
	dt = (HDT if s["hdf"] else FDT)[r.integers(len(HDT if s["hdf"] else FDT))]
	if "like" in s: r = np_rng(s["seed"])   # another map of the same shape and dtype
	w = maps.rand_wcs(r, *shape[-2:])
	m = enmap.ndmap(maps.layout(r, maps.rand_data(r, shape, dt)), w)
	extra = {}
	if s["extra"]:
		extra = {"KEYA": int(r.integers(0,1000)), "KEYB": float(np.round(r.uniform(),6))}
		if r.random() < 0.5: extra["KEYC"] = "text"
		if s.get("long"):
			for k in range(60): extra["LONG%d"%k] = k
	return m, extra

def run(case, ctx):
	base = os.path.join(os.environ["VC_SCRATCH"], "c08"); shutil.rmtree(base, ignore_errors=True)
	S = State(base, ctx)
	try:
		for n,s in enumerate(case["steps"]): S.step(n, s)
		S.final()
		# a plain map gives the same file whatever was written before
		for name in FIXED: fixed(os.path.join(base, "fixed", name), name)
	finally:
		disk.lib().simio_stop(); shutil.rmtree(base, ignore_errors=True)
	ctx.exec(ihash=S.trace, nontrivial=S.trace if S.hot else None, events=S.nops)
	ctx.sample({"steps": [dict(op=s["op"], file=s["file"], fault=s.get("fault",{}).get("name")) for s in case["steps"]], "trace": S.trace[:6]})

class State:
	def __init__(self, base, ctx):
		self.base, self.ctx, self.nroot = base, ctx, 0
		self.root = None; self.newroot({})
		self.model = {}     # (file, address) -> [acceptable items]
		self.isd   = {}     # file -> is hdf
		self.trace = []; self.hot = False; self.nops = 0; self.geo = {}
	def newroot(self, state):
		self.nroot += 1
		self.root = os.path.join(self.base, "r%d" % self.nroot)
		disk.restore(state, self.root); self.disk = disk.Disk(self.root)
	def path(self, f, root=None): return os.path.join(root or self.root, f)
	def note(self, what, fired, count):
		self.trace.append([what, fired, count]); self.nops += sum(count.values())
	def step(self, n, s): getattr(self, "op_"+s["op"])(n, s)
	# writing
	def call(self, s, m, extra):
		f = self.path(s["file"]); kw = dict(extra=extra) if extra else {}
		if s["hdf"]:
			import h5py
			if s["obj"]:
				os.makedirs(os.path.dirname(f), exist_ok=True)
				with h5py.File(f, "a" if s["addr"] else "w") as h: enmap.write_hdf(h, m, address=s["addr"], **kw)
			elif s["addr"] and f.endswith(".hdf"): enmap.write_map(f, m, address=s["addr"], **kw)
			else: enmap.write_map(f, m, fmt="hdf", address=s["addr"], **kw)
		elif s["obj"]:
			os.makedirs(os.path.dirname(f), exist_ok=True)
			with open(f, "wb") as o: enmap.write_fits(o, m, **kw)
		else: enmap.write_map(f, m, allow_modify=s["mod"], **kw)
	def apply(self, s, item, sure):
		"""update the model after a write: sure=True it returned normally, False: failed or cut short"""
		key = (s["file"], s["addr"]); same = [k for k in self.model if k[0] == s["file"]]
		if sure:
			if not (s["hdf"] and s["addr"] and self.isd.get(s["file"])):
				for k in same: del self.model[k]
			elif (s["file"],None) in self.model and False: pass
			self.model[key] = [item]; self.isd[s["file"]] = s["hdf"]
		elif s["addr"] and self.isd.get(s["file"]):
			for k in same+[key]: self.model[k] = [BAD,ANY]
		else:
			for k in same:
				if BAD not in self.model[k]: self.model[k] = self.model[k]+[BAD]
			self.model.setdefault(key, [BAD])
			self.model[key] = self.model[key]+[item]
			if s["file"] not in self.isd: self.isd[s["file"]] = s["hdf"]
			elif self.isd[s["file"]] != s["hdf"]: self.isd[s["file"]] = "?"
	def conflict(self, s):
		"""a part of an hdf file cannot be added to a file of another kind"""
		have = self.isd.get(s["file"])
		if not s["addr"] or have is None: return False
		return have is not True or any(BAD in v for k,v in self.model.items() if k[0] == s["file"])
	def op_write(self, n, s, crash=False):
		m, extra = make(s); keep = np.array(m); kw = m.wcs.deepcopy()
		item = Item(np.array(keep, copy=True), kw, extra)
		fault = s.get("fault"); before = self.disk.snapshot() if crash else None
		err = None
		def doit():
			e = None
			self.disk.start([fault] if fault else [], record=crash)
			mine = dict(extra)
			try: self.call(s, m, mine)
			except Exception as ex: e = ex
			fired, count = self.disk.stop()
			if mine != extra: raise Violation("argument-modified", "step %d: writing %s changed the extra entries that were passed" % (n, s["file"]))
			return e, fired, count
		kid = bool(s["hdf"] and fault or self.conflict(s))
		if kid:
			try: err, fired, count = disk.in_child(lambda: (lambda e,f,c: (None if e is None else "%s: %s" % (type(e).__name__, str(e)[:300]), f, c))(*doit()))
			except disk.Died as e: err, fired, count = e, [1], {}; self.ctx.probe("hdf5_library_died")
		else: err, fired, count = doit()
		if fault and fired[0]: self.ctx.fault(fault["name"], fired[0]); self.hot = True
		self.note(s["op"]+":"+s["file"], [fault["name"] if fault else None, fired], count)
		if not s["mod"] and not (maps.bits_equal(m, keep) and maps.wcs_diff(m.wcs, kw, m.shape) is None): raise Violation("argument-modified", "step %d: writing %s changed the map that was passed" % (n, s["file"]))
		if err is not None:
			if not (fault and fired[0]) and not self.conflict(s): raise Violation("write-failed", "step %d: writing %s failed with no fault: %s: %s" % (n, s["file"], type(err).__name__, str(err)[:300]))
			if fault and fired[0] and fault["name"] in ("short_write","directory_made_by_other") and not self.conflict(s): raise Violation("write-failed", "step %d: writing %s failed on a harmless %s: %s: %s" % (n, s["file"], fault["name"], type(err).__name__, str(err)[:300]))
			self.ctx.probe("write_raised")
			self.apply(s, item, False)
			self.newroot(self.disk.snapshot())
		else:
			old = self.model; oldd = dict(self.isd); self.model = dict(old)
			if crash and not kid:
				self.crashes(n, s, item, before)
				if self.gone: return
			self.apply(s, item, True)
		self.check_file(n, s["file"])
	def crashes(self, n, s, item, before):
		J = self.disk.journal(); after = self.disk.snapshot(); self.gone = False
		if self.disk.crash_state(before, J, len(J)) != {k:(bytearray(v) if v is not None else None) for k,v in after.items()}:
			from simlib.core import HarnessError
			raise HarnessError("call record does not reproduce the disk contents")
		saved = (dict(self.model), dict(self.isd), self.root, self.disk)
		for pi,(a,b) in enumerate(s["points"]):
			k = int(a*len(J)); torn = None
			if b is not None and k < len(J) and J[k][0] == "write": torn = int(b*J[k][4])
			st = self.disk.crash_state(before, J, k, torn)
			self.ctx.fault("process_crash" if torn is None else "process_crash_torn_write"); self.hot = True
			self.trace.append(["crash", k, torn, len(J)])
			self.model, self.isd = dict(saved[0]), dict(saved[1])
			self.apply(s, item, False)
			self.newroot(st)
			self.check_file(n, s["file"])
			if s["go"] and pi == len(s["points"])-1: self.gone = True; return
			shutil.rmtree(self.root); self.model, self.isd, self.root, self.disk = saved
	def op_crash(self, n, s):
		s = dict(s, mod=False); self.gone = False
		self.op_write(n, s, crash=True)
	def op_geo(self, n, s):
		if s["file"].endswith(".hdf") or s["file"].endswith(".gz"): return
		r = np_rng(s["seed"]); shape = [(),(2,),(3,1)][r.integers(3)]+(int(r.integers(1,5000)), int(r.integers(1,5000)))
		w = maps.rand_wcs(r, *shape[-2:]); f = self.path("sub/geo_"+os.path.basename(s["file"])+".fits")
		fault = s.get("fault"); err = None; old = self.geo.get(f)
		self.disk.start([fault] if fault else [], record=False)
		try: enmap.write_map_geometry(f, shape, w)
		except Exception as e: err = e
		fired, count = self.disk.stop()
		self.note("geo", [fault["name"] if fault else None, fired], count)
		if fault and fired[0]: self.ctx.fault(fault["name"], fired[0]); self.hot = True
		if err is not None:
			if not (fault and fired[0]) or fault["name"] in ("short_write","directory_made_by_other"): raise Violation("write-failed", "step %d: writing a geometry failed: %s: %s" % (n, type(err).__name__, str(err)[:300]))
			self.ctx.probe("write_raised"); self.newroot(self.disk.snapshot())
			self.geo[f] = None; return
		self.geo[f] = (shape, w)
		sh, w2 = enmap.read_map_geometry(f)
		if tuple(sh) != shape: raise Violation("wrong-geometry", "step %d: geometry file has shape %s, expected %s" % (n, sh, shape))
		d = maps.wcs_diff(w2, w, shape)
		if d: raise Violation("wrong-geometry", "step %d: geometry file: %s" % (n, d))
		from astropy.io import fits
		with open(f,"rb") as o: head = o.read()
		if len(head)%2880 or head[:30] != b"SIMPLE  =                    T": raise Violation("wrong-geometry", "step %d: the geometry file is not a fits header" % n)
		if [head[80*i:80*i+8].strip().decode() for i in range(3+len(shape))] != ["SIMPLE","BITPIX","NAXIS"]+["NAXIS%d"%(i+1) for i in range(len(shape))]: raise Violation("wrong-geometry", "step %d: the geometry file's mandatory header entries are not in the order the fits standard requires" % n)
		with fits.open(f) as hd:
			if hd[0].header["BITPIX"] not in (8,16,32,64,-32,-64): raise Violation("wrong-geometry", "step %d: the geometry file has BITPIX %s" % (n, hd[0].header["BITPIX"]))
	# reading
	def read(self, f, addr, what):
		p = self.path(f); kw = {}
		if self.isd.get(f): kw["fmt"] = "hdf"
		if f.endswith((".hdf",".fits")): kw = {}
		if addr: kw["address"] = addr
		if what == "geo":   return enmap.read_map_geometry(p, **kw)
		if what == "dtype": return np.dtype(enmap.read_map_dtype(p, **kw))
		if what == "section": kw["sel_threshold"] = 0
		return enmap.read_map(p, **kw)
	def judge(self, n, key, what, res, ok, fault=None):
		tag = "step %d: %s%s read as %s%s" % (n, key[0], ":"+key[1] if key[1] else "", what, " under "+fault if fault else "")
		why = []
		for it in ok:
			if it in (BAD,ANY): continue
			if what == "dtype":
				d = None if res.newbyteorder("=") == it.data.dtype.newbyteorder("=") else "dtype %s, expected %s" % (res, it.data.dtype)
			elif what == "geo":
				d = "shape %s, expected %s" % (res[0], it.data.shape) if tuple(res[0]) != it.data.shape else maps.wcs_diff(res[1], it.wcs, it.data.shape)
			else:
				if   res.shape != it.data.shape: d = "shape %s, expected %s" % (res.shape, it.data.shape)
				elif res.dtype.newbyteorder("=") != it.data.dtype.newbyteorder("="): d = "dtype %s, expected %s" % (res.dtype, it.data.dtype)
				elif not maps.bits_equal(res, it.data):
					x = np.asarray(res); I = tuple(int(q) for q in np.argwhere((x != it.data)&~((x!=x)&(it.data!=it.data)))[0]); d = "pixel %s is %r, expected %r" % (I, x[I], it.data[I])
				else: d = maps.wcs_diff(res.wcs, it.wcs, it.data.shape)
			if d is None: return it
			why.append(d)
		raise Violation("silently-wrong" if BAD in ok or fault else "round-trip", "%s: %s" % (tag, "; ".join(why) or "succeeded although nothing readable was ever stored there"))
	def check_read(self, n, key, what, plan=None):
		ok = self.model[key]
		if ANY in ok: return
		def doit():
			res = err = None
			self.disk.start([plan] if plan else [], record=False)
			try: res = self.read(key[0], key[1], what)
			except Exception as e: err = e
			fired, count = self.disk.stop()
			return res, err, fired, count
		if self.isd.get(key[0]) and (BAD in ok or plan):
			def pack():
				res, err, fired, count = doit()
				if isinstance(res, enmap.ndmap): res = (np.array(res), res.wcs)
				return what, res, None if err is None else "%s: %s" % (type(err).__name__, str(err)[:300]), fired, count
			try:
				_, res, err, fired, count = disk.in_child(pack)
				if what in ("map","section") and err is None: res = enmap.ndmap(*res)
			except disk.Died as e: res, err, fired, count = None, e, [1], {}; self.ctx.probe("hdf5_library_died")
		else: res, err, fired, count = doit()
		name = None
		if plan:
			self.note("read:"+key[0], [plan["name"], fired], count)
			if fired[0]: self.ctx.fault(plan["name"], fired[0]); self.hot = True; name = plan["name"]
		if err is not None:
			if BAD in ok or (name and name != "short_read"): self.ctx.probe("read_raised"); return
			raise Violation("read-failed", "step %d: reading %s as %s%s failed: %s: %s" % (n, key, what, " under a harmless "+name if name else "", type(err).__name__, str(err)[:300]))
		it = self.judge(n, key, what, res, ok, name)
		if BAD in ok and what in ("map","section") and it.extra is not None: self.ctx.probe("crash_left_complete_file")
		return it
	def check_file(self, n, f):
		for key in sorted((k for k in self.model if k[0] == f), key=str):
			for what in ("map","section","geo","dtype"):
				it = self.check_read(n, key, what)
			if len(self.model[key]) == 1: self.check_extra(n, key, self.model[key][0]); self.check_other(n, key, self.model[key][0])
	def check_other(self, n, key, it):
		"""other fits readers see the same map"""
		if self.isd[key[0]]: return
		from astropy.io import fits
		with fits.open(self.path(key[0])) as hd:
			got = enmap.ndmap(np.array(hd[0].data), wcsutils.WCS(hd[0].header).sub(2))
		self.judge(n, key, "plain fits image", got, [it])
		with open(self.path(key[0]),"rb") as o:
			if not key[0].endswith(".gz"): self.judge(n, key, "map from an open file", enmap.read_fits(o), [it])
	def check_extra(self, n, key, it):
		if not it.extra: return
		import h5py; from astropy.io import fits
		if self.isd[key[0]]:
			with h5py.File(self.path(key[0]),"r") as h:
				g = h[key[1]] if key[1] else h
				got = {k:(g[k][()] if k in g else None) for k in it.extra}
			got = {k:(v.decode() if isinstance(v,bytes) else v) for k,v in got.items()}
		else:
			with fits.open(self.path(key[0])) as hd: got = {k:hd[0].header.get(k) for k in it.extra}
		for k,v in it.extra.items():
			if got[k] != v: raise Violation("extra-lost", "step %d: %s: extra entry %s is %r, expected %r" % (n, key, k, got[k], v))
	def op_read(self, n, s):
		for key in sorted((k for k in self.model if k[0] == s["file"]), key=str):
			self.check_read(n, key, s["what"], s.get("fault"))
	def final(self):
		for f in sorted(set(k[0] for k in self.model)): self.check_file(99, f)
		# once faults stop, a fresh write always succeeds
		for f in sorted(set(k[0] for k in self.model)):
			if any(BAD in v for k,v in self.model.items() if k[0] == f):
				s = dict(op="write", file=f, seed=5, hdf=f.endswith(".hdf"), addr=None, extra=False, mod=False, obj=False)
				self.op_write(100, s); self.ctx.probe("recovered")
