"""C10: catalogues, bunches, multimaps and spectra survive the trip through their files; failures are loud."""
ID    = "C10"
DISK  = True
NCASE = {"quick": 1500, "thorough": 80000}
RULE  = "case = a history of 1-5 steps (write, overwrite, read, crash during a write) on files of one or two kinds: nested bunches (hdf, with and without group), sauron catalogues (fits, text), multimaps (fits), power spectra (text), catalogues in the dory, nemo, fits and simple formats written by the harness and read with and without format detection, and camb spectra; seeded disk faults in individual steps, process crashes at seeded file calls or inside a write; non-trivial when at least one fault or crash took effect or two writes hit the same file"
MEASURE = "64-bit hash of the sequence of steps, file calls and faults that fired"
REAL  = ["pixell/bunch.py", "pixell/pointsrcs.py catalogue reading and writing", "pixell/multimap.py read_map, write_map", "pixell/powspec.py spectrum reading and writing", "astropy.io.fits", "h5py and libhdf5", "numpy text files"]
STUB  = ["kernel file calls below the scratch directory -> simulated disk (simlib/simio.c)"]
ASSUME = ["a crash kills the process, what it already wrote to the operating system survives (not power loss)", "a disk that fails a write keeps failing until the call ends, read errors may be transient", "the text formats cannot reveal a cut file, so nothing is claimed for reading one"]
import numpy as np, os, shutil
from simlib.core import Violation, np_rng, HarnessError
from simlib import disk, maps
from pixell import enmap, multimap, pointsrcs, powspec, bunch, utils
KINDS = ["bunch","bunch","bunch","sfits","sfits","stxt","mmap","mmap","mmap","spec","spec","dfits","dtxt","simple","nemo","nfits","camb","clens"]
TEXT  = {"stxt","spec"}
RONLY = {"dfits","dtxt","simple","nemo","nfits","camb","clens"}
HDF   = {"bunch"}
def gen(rng, tier, i):
	kinds = [rng.choice(KINDS) for k in range(rng.choice([1,1,2]))]; steps = []
	for k in range(rng.choice([1,2,3,5])):
		f = rng.randrange(len(kinds)); op = rng.choice(["write","write","write","crash","crash","read"])
		if kinds[f] in RONLY: op = rng.choice(["write","read"])
		s = dict(op=op, f=f, seed=rng.getrandbits(32))
		if op == "write" and kinds[f] not in RONLY and rng.random() < 0.5: s["fault"] = disk.gen_fault(rng,"w")
		if op == "read"  and rng.random() < 0.7:
			s["fault"] = disk.gen_fault(rng,"r")
			if s["fault"]["kind"] == "err" and rng.random() < 0.5: s["fault"].update(sticky=False, name=s["fault"]["name"]+"_once")
		if op == "crash": s["points"] = [[rng.random(), rng.random() if rng.random()<0.6 else None] for j in range(3)]
		steps.append(s)
	last = []
	for f in range(len(kinds)):
		for j in range(rng.choice([0,1,2])):
			fault = disk.gen_fault(rng,"r")
			if fault["kind"] == "err" and rng.random() < 0.6: fault.update(sticky=False, name=fault["name"]+"_once")
			last.append(dict(op="read", f=f, seed=rng.getrandbits(32), fault=fault))
	return dict(kinds=kinds, seed=rng.getrandbits(32), steps=steps, last=last)
def shrink(case):
	st = case["steps"]; last = case.get("last",[])
	for i in range(len(last)): yield dict(case, last=last[:i]+last[i+1:])
	for i in range(len(st)):
		if len(st) > 1: yield dict(case, steps=st[:i]+st[i+1:])
	for i,s in enumerate(st):
		if "fault" in s: yield dict(case, steps=st[:i]+[{k:v for k,v in s.items() if k!="fault"}]+st[i+1:])
		if len(s.get("points",[])) > 1:
			for p in s["points"]: yield dict(case, steps=st[:i]+[dict(s, points=[p])]+st[i+1:])
def setup():
	import warnings; warnings.simplefilter("ignore")
	import astropy; astropy.log.disabled = True

# Each kind: make(r, opt) -> value, write(path, value, opt), read(path, opt) -> value, diff(got, value, opt) -> None or text
deg = np.pi/180
def near(a, b, atol, rtol=0): return a.shape == b.shape and np.all(np.abs(a-b) <= atol+rtol*np.abs(b))
class Bunch:
	def opt(self, r): return dict(group=[None,None,"g","a/b"][r.integers(4)], form=int(r.integers(3)))
	def leaf(self, r):
		k = r.integers(9); shape = tuple(int(x) for x in r.integers(0,5,r.integers(0,4)))
		if k == 0: return int(r.integers(-2**40,2**40))
		if k == 1: return float(r.standard_normal())
		if k == 2: return "text%d" % r.integers(1000)
		if k == 3: return np.array([b"ab",b"cde",b""][:int(r.integers(1,4))])
		if k == 4: return r.standard_normal((int(r.integers(1,60)),int(r.integers(1,60))))
		return maps.rand_data(r, shape, ["f8","f4","i4","?","c16","u1",">f4"][r.integers(7)])
	def tree(self, r, depth):
		b = bunch.Bunch()
		for i in range(int(r.integers(0 if depth else 1,6))):
			name = ["x","data","Ünï","a b","k%d"%i,"i","y"][r.integers(7)]
			b[name] = self.tree(r, depth+1) if depth < 3 and r.random() < 0.3 else self.leaf(r)
		return b
	def make(self, r, o): return self.tree(r, 0)
	def write(self, p, v, o):
		if o["form"] == 0 or o["group"] is None: bunch.write(p, v, **(dict(group=o["group"]) if o["group"] else {}))
		elif o["form"] == 1: bunch.write(p+"/"+o["group"], v)
		else: bunch.write_hdf(p+"/"+o["group"], v, gmode="dot")
	def read(self, p, o):
		if o["form"] == 0 or o["group"] is None: return bunch.read(p, **(dict(group=o["group"]) if o["group"] else {}))
		if o["form"] == 1: return bunch.read(p+"/"+o["group"])
		return bunch.read(p+"/"+o["group"], gmode="exists")
	def diff(self, g, v, o, at="", part=False):
		"""part: entries may be missing, but those present must be right (libhdf5 does not reveal an interrupted write)"""
		if not isinstance(g, bunch.Bunch): return "%s is a %s, not a Bunch" % (at or "the result", type(g).__name__)
		if not set(g.keys()) <= set(v.keys()) or (not part and len(g) != len(v)): return "keys %s of %s, expected %s" % (sorted(g.keys()), at or "top level", sorted(v.keys()))
		for k in g:
			x, y, a = g[k], v[k], at+"/"+k
			if isinstance(y, bunch.Bunch):
				d = self.diff(x, y, o, a, part)
				if d: return d
			elif isinstance(y, str):
				if not isinstance(x,(str,bytes)) or (x.decode() if isinstance(x,bytes) else x) != y: return "%s is %r, expected %r" % (a, x, y)
			else:
				if isinstance(x, bunch.Bunch): return "%s is a Bunch" % a
				x, y = np.asarray(x), np.asarray(y)
				if x.shape != y.shape or (x.dtype != y.dtype and x.dtype.kind != y.dtype.kind): return "%s is %s %s, expected %s %s" % (a, x.dtype, x.shape, y.dtype, y.shape)
				if y.dtype.kind != "S" and x.dtype.itemsize != y.dtype.itemsize: return "%s is %s, expected %s" % (a, x.dtype, y.dtype)
				if (y.dtype.kind == "S" and x.tolist() != y.tolist()) or (y.dtype.kind != "S" and not maps.bits_equal(x,y)): return "%s differs" % a
class Sauron:
	def __init__(self, txt): self.txt = txt
	def opt(self, r): return dict(ncomp=3 if not self.txt else int([3,3,1,2][r.integers(4)]))
	def make(self, r, o):
		n, nf, nc = int(r.integers(0 if not self.txt else 1,8)), int(r.integers(1,4)), o["ncomp"]
		dt = [("ra","d"),("dec","d"),("snr","d",(nc,)),("flux_tot","d",(nc,)),("dflux_tot","d",(nc,)),("flux","d",(nf,nc)),("dflux","d",(nf,nc)),("case","i"),("contam","d",(nf,))]
		c = np.zeros(n, dt).view(np.recarray)
		for k in c.dtype.names:
			if k == "case": c[k] = r.integers(0,9,n)
			else: c[k] = r.standard_normal(c[k].shape)*10.0**r.integers(-1,5)
		c.ra = r.uniform(-np.pi,np.pi,n); c.dec = r.uniform(-np.pi/2,np.pi/2,n)
		return c
	def ext(self): return ".txt" if self.txt else ".fits"
	def write(self, p, v, o): pointsrcs.write_sauron(p, v)
	def read(self, p, o): return pointsrcs.read_sauron(p) if o["ncomp"] == 3 else pointsrcs.read_sauron_txt(p, ncomp=o["ncomp"])
	def diff(self, g, v, o):
		if len(g) != len(v): return "%d rows, expected %d" % (len(g), len(v))
		if tuple(g.dtype.names) != tuple(v.dtype.names): return "columns %s" % (g.dtype.names,)
		for k in v.dtype.names:
			x, y = np.asarray(g[k],float), np.asarray(v[k],float)
			tol = (0.51e-4*deg if k in ("ra","dec") else 0.51e-2 if k != "case" else 0) if self.txt else 1e-13 if k in ("ra","dec") else 0
			if not near(x, y, tol, 1e-12 if self.txt else 0): return "column %s is %s, expected %s" % (k, x.tolist(), y.tolist())
class Multi:
	def opt(self, r): return dict(sel=int(r.integers(4)))
	def make(self, r, o):
		pre = [(),(),(2,),(3,),(2,2)][r.integers(5)]; dt = ["f8","f4","i4","i2"][r.integers(4)]; L = []
		for i in range(int(r.integers(1,6))):
			ny, nx = int(r.integers(1,20)), int(r.integers(1,20))
			L.append(enmap.ndmap(maps.rand_data(r, pre+(ny,nx), dt), maps.rand_wcs(r, ny, nx)))
		return multimap.multimap(L)
	def write(self, p, v, o): multimap.write_map(p, v, **(dict(extra={"KEYA":5}) if o["sel"]==1 else {}))
	def read(self, p, o):
		m = multimap.read_map(p, **(dict(sel_threshold=0) if o["sel"]==2 else {}))
		one = enmap.read_map(p, hdu=m.nmap-1)
		if not maps.bits_equal(np.asarray(one), np.ascontiguousarray(m.maps[m.nmap-1])): raise Violation("one-of-many", "reading image %d alone differs from reading all" % (m.nmap-1))
		return m
	def diff(self, g, v, o):
		if g.nmap != v.nmap: return "%d maps, expected %d" % (g.nmap, v.nmap)
		if g.dtype.newbyteorder("=") != v.dtype or g.shape != v.shape: return "%s %s, expected %s %s" % (g.dtype, g.shape, v.dtype, v.shape)
		for i in range(v.nmap):
			a, b = g.maps[i], v.maps[i]
			if a.shape != b.shape or not maps.bits_equal(np.ascontiguousarray(a), np.ascontiguousarray(b)): return "map %d differs" % i
			d = maps.wcs_diff(a.wcs, b.wcs, b.shape)
			if d: return "map %d: %s" % (i, d)
class Spec:
	def opt(self, r):
		o = dict(inds=bool(r.random()<0.7), scale=bool(r.random()<0.6), expand=["diag","stable","row",None][r.integers(4)])
		return dict(inds=True, scale=True, expand="diag", default=True) if r.random() < 0.2 else o
	def make(self, r, o):
		n, nl = int(r.integers(1,5)), int(r.integers(1,40))
		a = r.standard_normal((n,n,nl))*10.0**r.integers(-8,8,(1,1,nl)); a = a+np.moveaxis(a,0,1)
		if o["scale"]: a[...,0] = 0
		return a if o["expand"] else a.reshape(-1,nl)
	def kw(self, o): return {} if "default" in o else o
	def write(self, p, v, o): powspec.write_spectrum(p, v, **self.kw(o))
	def read(self, p, o): return powspec.read_spectrum(p, **self.kw(o))
	def diff(self, g, v, o):
		if g.shape != v.shape: return "shape %s, expected %s" % (g.shape, v.shape)
		if not near(g, v, 1e-300, 2e-7):
			I = tuple(np.argwhere(np.abs(g-v) > 2e-7*np.abs(v))[0]); return "element %s is %r, expected %r" % (I, g[I], v[I])
class Cat:
	def __init__(self, fmt): self.fmt = fmt
	def opt(self, r): return dict(auto=bool(r.random()<0.5), short=bool(r.random()<0.4))
	def make(self, r, o):
		n = int(r.integers(1,9)); f = self.fmt
		pol = [("Q","d"),("U","d")] if f in ("dfits","dtxt") else []
		c = np.zeros(n, [("ra","d"),("dec","d"),("I","d")]+pol+([("dI","d")] if f in ("nemo","nfits") or f == "simple" and not o["short"] else [])+([("name","S64"),("snr","d"),("npix","i")] if f == "nemo" else [])).view(np.recarray)
		for k in c.dtype.names:
			if k == "name": c[k] = [b"ACT-S_J%d" % x for x in r.integers(0,10**6,n)]
			elif k == "npix": c[k] = r.integers(0,1000,n)
			else: c[k] = r.standard_normal(n)*100
		c.ra = r.uniform(-180,180,n); c.dec = r.uniform(-90,90,n)
		return c
	def write(self, p, v, o):
		from astropy.io import fits
		f = self.fmt
		if f == "dfits":
			t = np.zeros(len(v), [("ra","d"),("dec","d"),("amp","d",(3,))]); t["ra"], t["dec"] = v.ra, v.dec
			t["amp"] = np.array([v.I,v.Q,v.U]).T
			fits.BinTableHDU(t).writeto(p, overwrite=True); return
		if f == "nfits":
			t = np.zeros(len(v), [("RADeg","d"),("decDeg","d"),("deltaT_c","d"),("err_deltaT_c","d")]) if o["short"] else np.zeros(len(v), [("ra","d"),("dec","d"),("I","d"),("dI","d")])
			for a,b in zip(t.dtype.names, ["ra","dec","I","dI"]): t[a] = v[b]
			fits.BinTableHDU(t).writeto(p, overwrite=True); return
		with open(p,"w") as h:
			h.write("# header\n")
			for x in v:
				if f == "dtxt":     h.write(" ".join(repr(float(q)) for q in (x.ra,x.dec,9,x.I,0.1,x.Q,0.1,x.U,0.1))+"\n")
				elif f == "simple": h.write(" ".join(repr(float(q)) for q in [x.ra,x.dec,x.I]+([] if o["short"] else [x.dI]))+"\n")
				else: h.write("%s %s %r %r %r %d %stmpl -33.0 %r %r\n" % (x["name"].decode()[:5], x["name"].decode()[5:], float(x.ra), float(x.dec), float(x.snr), x.npix, "" if o["short"] else "1.0 ", float(x.I), float(x.dI)))
	def read(self, p, o): return pointsrcs.read(p, **({} if o["auto"] else dict(format={"dfits":"dory_fits","dtxt":"dory_txt","nfits":"fits"}.get(self.fmt, self.fmt))))
	def diff(self, g, v, o):
		if len(g) != len(v): return "%d rows, expected %d" % (len(g), len(v))
		for k in v.dtype.names:
			x, y = np.asarray(g[k]), np.asarray(v[k])
			if k == "name":
				if x.tolist() != y.tolist(): return "names %s, expected %s" % (x.tolist(), y.tolist())
				continue
			f = 1.0
			if k in ("ra","dec") and self.fmt not in ("nemo","nfits"): f = deg
			if k in "IQU" and self.fmt in ("dfits","dtxt"): f = 1e3
			if not near(x.astype(float), y*f, 0, 1e-12): return "column %s is %s, expected %s" % (k, x.tolist(), (y*f).tolist())
class Camb:
	"""The text outputs of camb: l and l(l+1)/2pi C_l for TT EE TE and the (scaled) lensing potential from l=2"""
	def __init__(self, lens): self.lens = lens
	def opt(self, r): return dict(scale=bool(r.random()<0.7), expand=bool(r.random()<0.7))
	def make(self, r, o): nl = int(r.integers(1,30)); return r.standard_normal((7 if self.lens else 4,nl))*10.0**r.integers(-6,6)
	def write(self, p, v, o):
		with open(p,"w") as h:
			for l,row in enumerate(v.T): h.write("%6d " % (l+2)+" ".join(repr(float(x)) for x in row)+"\n")
	def read(self, p, o): r = (powspec.read_camb_full_lens if self.lens else powspec.read_camb_scalar)(p, **o); return r if self.lens else list(r)
	def diff(self, g, v, o):
		l = np.arange(v.shape[1]+2.0); ll = np.maximum(l*(l+1),1); tp = 2*np.pi
		a = np.concatenate([np.zeros((len(v),2)),v],1)
		w = ([tp/ll]*4+[tp/ll**2]+[tp/ll**1.5]*2 if self.lens else [tp/ll]*3+[1/(np.maximum(l,1)**4*2.726e6**2)]) if o["scale"] else [1+0*l]*len(v)
		a = a*np.array(w); z = 0*l
		if self.lens:
			TT,EE,BB,TE,dd,dT,dE = a
			want = [np.array([[dd,dT,dE,z],[dT,TT,TE,z],[dE,TE,EE,z],[z,z,z,BB]])] if o["expand"] else [a]; g = [g]
		else:
			TT,EE,TE,pp = a
			want = [np.array([[TT,TE,z],[TE,EE,z],[z,z,z]]), pp[None,None]] if o["expand"] else [a[:3],pp]
		for i,(x,y) in enumerate(zip(g,want)):
			x = np.asarray(x)
			if x.shape != y.shape: return "part %d has shape %s, expected %s" % (i, x.shape, y.shape)
			if not near(x, y, 1e-300, 1e-9): return "part %d is %s, expected %s" % (i, x.tolist(), y.tolist())
K = {"bunch":Bunch(),"sfits":Sauron(0),"stxt":Sauron(1),"mmap":Multi(),"spec":Spec()}
for f in RONLY: K[f] = Camb(f == "clens") if f in ("camb","clens") else Cat(f)
EXT = {"bunch":".hdf","sfits":".fits","stxt":".txt","mmap":".fits","spec":".dat","dfits":".fits","dtxt":".txt","simple":".txt","nemo":".txt","nfits":".fits","camb":".dat","clens":".dat"}
BAD, ANY = "unreadable", "anything"
def has(ok, x): return any(v is x for v in ok)
def copy(v):
	import copy
	if isinstance(v, bunch.Bunch): return bunch.Bunch({k:copy_leaf(v[k]) for k in v})
	return v.copy()
def copy_leaf(x): return copy(x) if isinstance(x, bunch.Bunch) else np.array(x) if isinstance(x, np.ndarray) else x

class State:
	def __init__(self, case, base, ctx):
		self.kinds, self.base, self.ctx, self.n = case["kinds"], base, ctx, 0
		r = np_rng(case["seed"]); self.opts = [K[k].opt(r) for k in self.kinds]
		self.model = {}; self.trace = [list(self.kinds)]; self.hot = False; self.nops = 0
		self.newroot({})
	def newroot(self, st):
		self.n += 1; self.root = os.path.join(self.base, "r%d" % self.n); disk.restore(st, self.root); self.disk = disk.Disk(self.root)
	def path(self, f): return os.path.join(self.root, "f%d%s" % (f, EXT[self.kinds[f]]))
	def do(self, fn, fault, record, child):
		def go():
			res = err = None
			self.disk.start([fault] if fault else [], record=record)
			try: res = fn()
			except Violation: self.disk.stop(); raise
			except Exception as e: err = e
			fired, count = self.disk.stop()
			return res, err, fired, count
		if not child: return go()
		def pack():
			res, err, fired, count = go()
			return res, None if err is None else "%s: %s" % (type(err).__name__, str(err)[:300]), fired, count
		try: return disk.in_child(pack)
		except disk.Died as e: self.ctx.probe("hdf5_library_died"); return None, e, [1] if fault else [], {}
	def op_write(self, n, s, crash=False):
		f = s["f"]; kind = self.kinds[f]; k = K[kind]; o = self.opts[f]
		v = k.make(np_rng(s["seed"]), o); keep = copy(v); fault = s.get("fault")
		before = self.disk.snapshot() if crash else None
		old = self.model.get(f, [BAD])
		_, err, fired, count = self.do(lambda: (k.write(self.path(f), v, o), None)[1], fault, crash, kind in HDF and fault is not None)
		self.trace.append([s["op"], kind, fault and fault["name"], fired, count]); self.nops += sum(count.values())
		live = bool(fault and fired[0])
		if live: self.ctx.fault(fault["name"], fired[0]); self.hot = True
		if f in self.model: self.hot = True
		d = k.diff(v, keep, o) if kind not in RONLY and kind != "stxt" else None
		if d: raise Violation("argument-modified", "step %d: writing a %s changed the caller's object: %s" % (n, kind, d))
		if err is not None:
			if not live: raise Violation("write-failed", "step %d: writing a %s failed with no fault: %s: %s" % (n, kind, type(err).__name__, str(err)[:300]))
			if fault["name"] in ("short_write","directory_made_by_other"): raise Violation("write-failed", "step %d: writing a %s failed on a harmless %s: %s" % (n, kind, fault["name"], str(err)[:300]))
			self.ctx.probe("write_raised")
			self.model[f] = [BAD,ANY] if kind in TEXT else old+[BAD,keep]
			self.newroot(self.disk.snapshot())
		else:
			if crash: self.crashes(n, s, keep, before, old)
			self.model[f] = [keep]
		self.check(n, f)
	def op_crash(self, n, s): self.op_write(n, s, True)
	def crashes(self, n, s, keep, before, old):
		J = self.disk.journal(); f = s["f"]; kind = self.kinds[f]
		if self.disk.crash_state(before, J, len(J)) != {k:(bytearray(v) if v is not None else None) for k,v in self.disk.snapshot().items()}: raise HarnessError("call record does not reproduce the disk contents")
		saved = self.root, self.disk
		for a,b in s["points"]:
			k = int(a*len(J)); torn = int(b*J[k][4]) if b is not None and k < len(J) and J[k][0] == "write" else None
			self.ctx.fault("process_crash" if torn is None else "process_crash_torn_write"); self.hot = True; self.trace.append([k,torn,len(J)])
			self.model[f] = [BAD,ANY] if kind in TEXT else old+[BAD,keep]
			self.newroot(self.disk.crash_state(before, J, k, torn))
			self.check(n, f)
			shutil.rmtree(self.root); self.root, self.disk = saved
	def op_read(self, n, s):
		if s["f"] in self.model: self.check(n, s["f"], s.get("fault"))
	def check(self, n, f, fault=None):
		ok = self.model[f]; kind = self.kinds[f]; k = K[kind]; o = self.opts[f]
		if has(ok,ANY): return
		res, err, fired, count = self.do(lambda: k.read(self.path(f), o), fault, False, kind in HDF and (has(ok,BAD) or fault is not None))
		live = bool(fault and fired[0])
		if fault: self.trace.append(["read", kind, fault["name"], fired, count]); self.nops += sum(count.values())
		if live: self.ctx.fault(fault["name"], fired[0]); self.hot = True
		if err is not None:
			if has(ok,BAD) or (live and fault["name"] != "short_read"): self.ctx.probe("read_raised"); return
			raise Violation("read-failed", "step %d: reading a %s %s failed%s: %s: %s" % (n, kind, o, " under a harmless "+fault["name"] if live else "", type(err).__name__, str(err)[:300]))
		why = []
		for v in ok:
			if isinstance(v, str): continue
			d = k.diff(res, v, o, part=has(ok,BAD)) if kind == "bunch" else k.diff(res, v, o)
			if d is None: return
			why.append(d)
		raise Violation("silently-wrong" if has(ok,BAD) or live else "round-trip", "step %d: reading a %s %s%s: %s" % (n, kind, o, " under "+fault["name"] if live else "", "; ".join(why)[:400] or "succeeded although nothing complete was stored"))

def run(case, ctx):
	base = os.path.join(os.environ["VC_SCRATCH"], "c10"); shutil.rmtree(base, ignore_errors=True)
	S = State(case, base, ctx)
	try:
		for n,s in enumerate(case["steps"]): getattr(S, "op_"+s["op"])(n, s)
		for f in sorted(S.model):
			S.check(len(case["steps"]), f)
			# once faults stop, writing works again
			if has(S.model[f],BAD): S.op_write(len(case["steps"]), dict(op="write", f=f, seed=case["seed"]))
		for s in case.get("last",[]): S.op_read(len(case["steps"])+1, s)
	finally:
		disk.lib().simio_stop(); shutil.rmtree(base, ignore_errors=True)
	ctx.exec(ihash=S.trace, nontrivial=S.trace+[case["seed"]] if S.hot else None, events=S.nops)
	ctx.sample({"kinds": case["kinds"], "steps": [[s["op"], s.get("fault",{}).get("name")] for s in case["steps"]], "trace": S.trace[:6]})
