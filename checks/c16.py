"""C16: every field of every map is plotted exactly once, under the right name, with the colours its values define."""
ID    = "C16"
DISK  = True
NCASE = {"quick": 1600, "thorough": 60000}
RULE  = "case = 1-5 maps (in memory, named, or fits/hdf files; scalar to 2x3 fields, several projections and axis directions, missing and infinite values), 1-2 plotting jobs with random options (ranges, colour schemes, rgb, slicing, cut-outs, stamps, resampling, operations, masking, tiling, symmetric matrices, contours, grid, annotations, layers, names; as keywords or as command line), each split over 1-4 ranks; a seeded order advances the plot iterators of all ranks and jobs, abandons and restarts some, injects disk faults into reading and writing; non-trivial when more than one iterator ran or a fault fired"
MEASURE = "64-bit hash of the sequence of iterators advanced, names produced and faults that fired"
REAL  = ["pixell/enplot.py", "pixell/cgrid.py", "pixell/colorize.py", "pixell/array_ops.py find_contours", "pixell/enmap.py reading and slicing", "PIL", "astropy.io.fits", "h5py"]
STUB  = ["kernel file calls below the scratch directory -> simulated disk (simlib/simio.c)", "mpi communicator -> rank and size only (plotting does not communicate)"]
ASSUME = ["PIL itself ignores incomplete writes of tiff files, so only png files are written on a failing disk", "grid lines, labels, colour bars and annotations are compared with the same map plotted alone, not with a definition", "the matplotlib driver and on-screen display are not run"]
import numpy as np, os, shutil, warnings
from simlib.core import Violation, np_rng, HarnessError
from simlib import disk, maps
from checks.c05 import lookup
from pixell import enplot, enmap, colorize, utils, wcsutils, bunch
SCHEMES = ["planck","gray","wmap","hotcold","viridis","0:000000,1:ffffff80"]
def setup():
	warnings.simplefilter("ignore")
	import astropy; astropy.log.disabled = True
	import PIL.Image, PIL.PngImagePlugin, PIL.TiffImagePlugin; PIL.Image.init()
def gen(rng, tier, i):
	rgb = rng.random() < 0.2
	srcs = [dict(kind=rng.choice(["map","named","named","fits","fits","hdf"]), pre=rng.choice([[3],[3],[6],[2,3]] if rgb else [[],[],[],[2],[3],[12],[2,2],[2,3],[3,3]]), ny=rng.choice([2,3,7,8,13]), nx=rng.choice([2,4,5,9,16]), rgb=rgb, geo=rng.choice(["car","car","carflip","carmix","cea","zea","plain"]), dt=rng.choice(["f8","f8","f4","i4" if not rgb else "f4"]), seed=rng.getrandbits(32)) for k in range(rng.choice([1,2,3,3,5]))]
	jobs = []
	for k in range(rng.choice([1,1,2])):
		o = dict(grid=0)
		pick = lambda p: rng.random() < p
		if pick(0.5):  o["color"] = rng.choice(SCHEMES)
		if pick(0.3):  o["range"] = rng.choice(["1","2:1","0.5:1:3","3"])
		elif pick(0.4):o["min"] = rng.choice(["-1","0:-1","-2:0:-1"]); o["max"] = rng.choice(["2","3:1.5"])
		elif pick(0.2):o["min"] = rng.choice(["-1","-9:-8"])
		if pick(0.2):  o["quantile"] = rng.choice([0.0,0.1,0.25])
		if pick(0.15): o["reverse_color"] = True
		if pick(0.15): o["downgrade"] = rng.choice([2,"2,1","1,3"])
		if pick(0.15): o["upgrade"] = rng.choice([2,"1,3","2,1"])
		if pick(0.25): o["slice"] = rng.choice(["[...,::2,:]","[...,::-1,:]","[...,::-1]","[...,1:,1:]","[...,::-1,::-1]"]+(["[::-1]","[...,None,:,:]"] if not rgb else []))
		if pick(0.12): o["sub"] = [rng.random() for j in range(4)]
		if pick(0.12): o["op"] = rng.choice(["m*2","abs(m)","m**2-1","m*(m>0)"])
		if pick(0.06): o["op2"] = rng.choice(["m = m+1","q = 3\nm = m*q"])
		if pick(0.2):  o["mask"] = rng.choice([0,0.5])
		if pick(0.08): o["autocrop"] = True
		if pick(0.1):  o["fix_wcs"] = True
		if pick(0.15): o["contours"] = rng.choice(["-0.5,0.25,1","1,0","0.4","0.1:0.7","0:-4",[0.5],[0.0,0.5]]); 
		if "contours" in o and isinstance(o["contours"],list): o["contour_type"] = rng.choice(["uniform","list"])
		if "contours" in o and pick(0.5): o["contour_color"] = rng.choice(["ff0000","planck","gray"])
		if pick(0.15): o["layers"] = True
		if rgb:
			o["rgb"] = True
			if pick(0.4): o["rgb_mode"] = "direct_colorcap"
		elif pick(0.12): o["symmetric"] = True
		if pick(0.15) and not o.get("symmetric"):
			o["tile"] = rng.choice([-1,"-1,2","3","-1"])
			if pick(0.5): o["tile_transpose"] = True
		if pick(0.08) and "tile" not in o and not rgb: o["stamps"] = [rng.choice([1,2,5]), rng.choice([1,3,4]), rng.choice([0,1,2])]
		if pick(0.2):  o["prefix"] = "pre_"
		if pick(0.2):  o["suffix"] = "_suf"
		if pick(0.15): o["odir"] = "out"
		if pick(0.1):  o["oname"] = rng.choice(["{base}-{fi}-{ci}{layer}.{ext}","{dir}{pre}{base}{suf}{fcomp}{layer}.{ext}","p{pi}of{pn}_{fi}of{fn}_{ci}of{cn}{layer}.{iext}.{ext}"])
		if pick(0.1):  o["ext"] = "tiff"
		if pick(0.12):
			o["grid"] = 1; o["nstep"] = 10; o["ticks"] = rng.choice([1,2,"1,2"])
			if pick(0.3): o["nolabels"] = True
			if pick(0.2): o["zenith"] = True
			if pick(0.2): o["pos_ra"] = True
		if pick(0.12): o["annotate"] = rng.choice([0,1,2])
		if pick(0.04) and not rgb: o["colorbar"] = 1; [o.pop(q,0) for q in ("downgrade","stamps","sub","slice","autocrop")]; o["upgrade"] = "2,120"; o["layers"] = True; o.pop("contours",0)
		if pick(0.2) and "mask" in o: o["mask_tol"] = rng.choice([0.3,1e-3])
		if pick(0.05) and "contours" in o: o["no_image"] = True
		jobs.append(dict(o=o, n=rng.choice([1,1,2,3,4]), cli=rng.random()<0.3, glob=rng.random()<0.12, fsl=rng.random()<0.3, rep=rng.random()<0.35))
	return dict(srcs=srcs, jobs=jobs, seed=rng.getrandbits(32), abandon=rng.choice([0,0,0.05,0.15]), rfault=[disk.gen_fault(rng,"r") for k in range(rng.choice([0,0,1,2]))], wfault=[disk.gen_fault(rng,"w") for k in range(rng.choice([0,0,1,2]))], ann=rng.getrandbits(16))
def shrink(case):
	if len(case["jobs"]) > 1:
		for j in case["jobs"]: yield dict(case, jobs=[j])
	if len(case["srcs"]) > 1:
		for i in range(len(case["srcs"])): yield dict(case, srcs=case["srcs"][:i]+case["srcs"][i+1:])
	for k in ("rfault","wfault"):
		if case[k]: yield dict(case, **{k:[]}); yield dict(case, **{k:case[k][:1]})
	if case["abandon"]: yield dict(case, abandon=0)
	for i,j in enumerate(case["jobs"]):
		if j["n"] > 1: yield dict(case, jobs=case["jobs"][:i]+[dict(j,n=1)]+case["jobs"][i+1:])
		for q in ("rep","fsl","glob"):
			if j.get(q): yield dict(case, jobs=case["jobs"][:i]+[dict(j,**{q:False})]+case["jobs"][i+1:])
		if j["cli"]: yield dict(case, jobs=case["jobs"][:i]+[dict(j,cli=False)]+case["jobs"][i+1:])
		for k in j["o"]:
			if k not in ("grid","rgb"): yield dict(case, jobs=case["jobs"][:i]+[dict(j,o={a:b for a,b in j["o"].items() if a != k})]+case["jobs"][i+1:])
	for i,s in enumerate(case["srcs"]):
		for k,v in dict(kind="named",geo="car",dt="f8").items():
			if s[k] != v: yield dict(case, srcs=case["srcs"][:i]+[dict(s,**{k:v})]+case["srcs"][i+1:])
def geometry(s):
	ny, nx, g = s["ny"], s["nx"], s["geo"]
	if g == "plain": return wcsutils.explicit(ctype=["",""], crval=[0,0], crpix=[1,1], cdelt=[1,1])
	p = {"cea":"CEA","zea":"ZEA"}.get(g,"CAR")
	sx, sy = {"carflip":(1,-1),"carmix":(1,1)}.get(g,(-1,1))
	return wcsutils.explicit(ctype=["RA---"+p,"DEC--"+p], crval=[20,0 if p != "ZEA" else 5], crpix=[nx/2+0.5,ny/2+0.5], cdelt=[0.5*sx,0.5*sy])
class Src:
	def __init__(self, i, s, root):
		self.s = s; r = np_rng(s["seed"]); sh = tuple(s["pre"])+(s["ny"],s["nx"])
		a = r.normal(0,1,sh)
		if s["dt"] == "i4": a = np.round(a*2)
		else:
			if s["pre"]: a[r.random(sh) < 0.05] = r.choice([0,0.5])
			bad = r.random(sh[-2:]) < 0.1; a[...,bad] = np.nan
			a[...,r.random(sh[-2:]) < 0.1] = r.choice([0,0.5])
			if r.random() < 0.3 and not s.get("rgb"): a[...,r.random(sh[-2:]) < 0.1] = np.inf*r.choice([-1,1])
		if r.random() < 0.3: a[...,:1,:] = 0
		if r.random() < 0.3: a[...,:,-1:] = 0
		self.wcs = geometry(s); self.a = a.astype(s["dt"])
		self.map = enmap.ndmap(self.a.copy(), self.wcs.deepcopy()); k = s["kind"]
		if   k == "map":   self.arg, self.name = self.map, ""
		elif k == "named": self.name = ["foo%d.fits","dir/foo%d.fits.gz","x%d","a.b/y%d.2.fits"][s["seed"]%4] % i; self.arg = (self.map, self.name)
		else:
			self.arg = self.name = os.path.join(root, "in%d.%s" % (i,k))
			enmap.write_map(self.arg, self.map)
	def check(self):
		if not maps.bits_equal(np.asarray(self.map), self.a): return "the values of the input map changed"
		if self.map.wcs.to_header_string() != self.wcs.to_header_string(): return "the coordinate system of the input map changed"
def split(fname):
	d = os.path.dirname(fname) or "."; b = os.path.basename(fname)
	e = b[:-3].rfind(".") if b.endswith(".gz") else b.rfind(".")
	return (d, b, "") if e < 0 else (d, b[:e], b[e+1:])
def pl(x, t=int): return [t(v) for v in x.split(",")] if isinstance(x,str) else [t(x)]
def two(x): x = pl(x); return (x*2)[:2]
class Model:
	"""what the plots of one map should be"""
	def __init__(self, src, fi, job, files, rank):
		o = job["o"]; s = src.s; a = src.a; self.o = o
		# pixels as displayed: declination up, right ascension to the left
		fy, fx = s["geo"] in ("car","carmix","cea","zea","plain"), s["geo"] in ("carflip","carmix","plain")
		m = enmap.ndmap(a, src.wcs)
		if "sub" in o: m = m.submap(job["box"][fi])
		a = np.asarray(m)
		if o.get("autocrop"):
			z = np.all(a==0, tuple(range(a.ndim-2))) ; ys = np.where(~z.all(1))[0]; xs = np.where(~z.all(0))[0]
			if len(ys): a = a[...,ys[0]:ys[-1]+1,xs[0]:xs[-1]+1]
		if "stamps" in o:
			size = o["stamps"][1]; out = []
			for p in job["pos"][fi]:
				st = np.full(a.shape[:-2]+(size,size), np.nan)
				for y in range(size):
					for x in range(size):
						if 0 <= p[0]+y < a.shape[-2] and 0 <= p[1]+x < a.shape[-1]: st[...,y,x] = a[...,p[0]+y,p[1]+x]
				out.append(st)
			parts = out
		else: parts = [a]
		for k,b in enumerate(parts):
			dy, dx = two(o.get("downgrade",1))
			if dy*dx > 1:
				ny, nx = b.shape[-2]//dy, b.shape[-1]//dx
				b = b[...,:ny*dy,:nx*dx].reshape(b.shape[:-2]+(ny,dy,nx,dx)).mean((-3,-1))
			if sliced(job, fi, s): b = b[1:]
			if "slice" in o: b = eval("b"+o["slice"])
			m = b
			if "op" in o: m = eval(o["op"], {"m":m,"abs":np.abs})
			if "op2" in o:
				loc = {"m":m}; exec(o["op2"], {}, loc); m = loc["m"]
			b = np.asarray(m)
			uy, ux = two(o.get("upgrade",1)); b = np.repeat(np.repeat(b, uy, -2), ux, -1)
			if fy: b = b[...,::-1,:]
			if fx: b = b[...,::-1]
			parts[k] = b
		a = np.array(parts) if "stamps" in o else parts[0]
		if "tile" in o:
			t = pl(o["tile"]); nr = t[0]; nc = t[1] if len(t) > 1 else -1
			npre = a.shape[:-2][-1:] if o.get("rgb") else ()
			f = a.reshape((-1,)+npre+a.shape[-2:]); n = len(f)
			if nr < 0 and nc < 0: nc = int(np.ceil(n**0.5))
			if nr < 0: nr = -(-n//nc)
			if nc < 0: nc = -(-n//nr)
			H, W = a.shape[-2:]; out = np.zeros(npre+(nr*H,nc*W), a.dtype)
			for k in range(n):
				y, x = (k%nr, k//nr) if o.get("tile_transpose") else (k//nc, k%nc)
				out[...,y*H:(y+1)*H,x*W:(x+1)*W] = f[k]
			a = out[None]
		self.a = a; f = a.reshape((-1,)+a.shape[-2:])
		if "mask" in o:
			f = f*1.0; bad = np.abs(f-o["mask"]) <= o.get("mask_tol",1e-14)
			if o.get("rgb"): bad[:] = np.all(bad,0)
			f = np.where(bad, np.nan, f)
		self.f = f; nc = len(f); cr = np.full((2,nc), np.nan)
		def ranges(t): v = [float(x) for x in t.split(":")][:nc]; return v+[v[-1]]*(nc-len(v))
		if "range" in o: cr[1] = ranges(o["range"]); cr[0] = -cr[1]
		if "min" in o: cr[0] = ranges(o["min"])
		if "max" in o: cr[1] = ranges(o["max"])
		v = np.sort(f[np.isfinite(f)])
		if not len(v) and np.isnan(cr).any(): cr = np.array([[-1.]*nc,[1.]*nc])
		elif np.isnan(cr).any():
			k = min(len(v)-1, int(round(len(v)*o.get("quantile",0.01)))); lo, hi = float(v[k]), float(v[len(v)-1-k])
			if lo == hi: lo, hi = lo-1, hi+1
			cr[0][np.isnan(cr[0])] = lo; cr[1][np.isnan(cr[1])] = hi
		self.cr = cr; g = 3 if o.get("rgb") else 1; self.plots = []; used = 0
		fname = src.name if not sliced(job, fi, s) else src.name+":[1:]"
		d, base, iext = split(fname); N = a.shape[:-2]
		if "odir" in o: d = o["odir"]
		for i in range(0, nc, g):
			I = np.unravel_index(i, N) if N else ()
			if o.get("symmetric") and list(I) != sorted(I): continue
			c = self.cr[:,used:used+g]; used += g
			info = dict(dir="" if d == "." else d+"/", base=base, iext=iext, fi=fi, fn=len(job["use"]), ci=i, cn=nc, pi=rank, pn=job["n"], pre=o.get("prefix",""), suf=o.get("suffix",""),
				comp="".join("_%0*d" % (len(str(n)),k) for n,k in zip(N,I)), fcomp="_%0*d" % (len(str(nc)),i) if N else "", ext=o.get("ext","png"))
			fmt = o.get("oname","{dir}{pre}{base}{suf}{comp}{layer}.{ext}")
			names = []
			if not o.get("no_image"): names.append("img")
			if "contours" in o: names.append("cont")
			if "annotate" in o: names.append("annot")
			if o["grid"]:
				names.append("grid")
				if not o.get("nolabels"): names.append("tics")
			if o.get("colorbar"): names.append("colorbar")
			for k,L in enumerate(names if o.get("layers") else [None]):
				self.plots.append(dict(i=i, layer=L, layers=names, name=fmt.format(layer="_"+L if L else "", **info), data=f[i:i+g], cr=c, info=info))
	def colour(self, p):
		o = self.o; x = p["data"].astype(float); c = p["cr"]
		x = (x-c[0][:,None,None])/(c[1]-c[0])[:,None,None]
		if o.get("reverse_color"): x = 1-x
		if not o.get("rgb"):
			cs = colorize.Colorscheme(o.get("color","planck")); return lookup(np.array(cs.vals,float), np.array(cs.cols,float), x[0])
		if o.get("rgb_mode") == "direct_colorcap":
			amp = np.sqrt((x**2).sum(0)); w = x*np.where(amp>1, 1/np.where(amp==0,1,amp), 1)
		else: w = x
		w = np.concatenate([np.clip(w*256,0,255), np.full((1,)+x.shape[1:],255.)])
		w[:,np.isnan(x[0])] = 0
		return np.moveaxis(w,0,-1)
	def levels(self, p):
		o = self.o; t = o["contours"]; c = p["cr"][:,0]
		if isinstance(t,str):
			if "," in t: return np.array([float(v) for v in t.split(",")])
			v = [float(x) for x in t.split(":")]
		else:
			if o["contour_type"] == "list": return np.array(t,float)
			v = t
		base, step = (0,v[0]) if len(v) == 1 else v
		if step < 0: step = (c[1]-c[0])/-step
		return np.arange(int(np.ceil((c[0]-base)/step)), int(np.floor((c[1]-base)/step))+1)*step+base
	def contour(self, p):
		lev = self.levels(p); x = p["data"][0]; order = np.argsort(lev); sv = lev[order].astype(x.dtype)
		b = np.where(np.isnan(x), 1, 1+np.searchsorted(sv, np.where(np.isnan(x),0,x), side="right"))
		hit = np.full(x.shape, np.nan)
		for i in range(x.shape[0]-1):
			for j in range(x.shape[1]-1):
				k = None
				if   b[i,j] != b[i,j+1]: k = min(b[i,j],b[i,j+1])
				elif b[i,j] != b[i+1,j]: k = min(b[i,j],b[i+1,j])
				if k is not None: hit[i,j] = order[k-1]
		if len(lev) > 1: hit /= len(lev)-1
		cs = colorize.Colorscheme(self.o.get("contour_color","000000")); return lookup(np.array(cs.vals,float), np.array(cs.cols,float), hit)
def same(kind, what, img, want, tol):
	got = np.asarray(img)
	if got.shape != want.shape: raise Violation(kind, "%s: image has shape %s, expected %s" % (what, got.shape, want.shape))
	bad = ~(np.abs(got.astype(float)-np.clip(want,0,255)) <= 0.5+tol)
	if bad.any():
		I = tuple(int(x) for x in np.argwhere(bad)[0]); raise Violation(kind, "%s: colour %s is %r, expected %.6f rounded (%d of %d differ)" % (what, I, got[I], want[I], int(bad.sum()), bad.size))
class Comm:
	def __init__(self, rank, size): self.rank, self.size = rank, size
def cli(o):
	toks = []
	for k,v in o.items():
		n = "--"+k.replace("_","-")
		if k == "grid":
			if not v: toks.append("-g")
		elif k == "colorbar": toks.append("-b")
		elif v is True: toks.append(n)
		elif isinstance(v,list): return None
		else: toks.append("%s='%s'" % (n,v) if "\n" not in str(v) else "%s=\"%s\"" % (n,v))
	return " ".join(toks)
def run(case, ctx):
	base = os.path.join(os.environ["VC_SCRATCH"], "c16"); shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
	try: go(case, ctx, base)
	finally:
		disk.lib().simio_stop(); shutil.rmtree(base, ignore_errors=True)
def go(case, ctx, base):
	r = np_rng(case["seed"]); D = disk.Disk(base); trace = []; hot = False
	srcs = [Src(i,s,base) for i,s in enumerate(case["srcs"])]
	rf, wf = list(case["rfault"]), list(case["wfault"]); alone = {}
	def under(fn, faults, p):
		"""call fn, now and then with a fault on the disk"""
		fault = faults.pop() if faults and r.random() < p else None
		if fault is None: return fn(), None, None
		D.start([fault], record=False); res = err = None
		try: res = fn()
		except StopIteration: raise
		except Exception as e: err = e
		finally: fired, count = D.stop()
		if not fired[0]:
			if err is not None: raise err
			return res, None, None
		ctx.fault(fault["name"], fired[0]); trace.append([fault["name"],fired[0]])
		if err is not None and fault["name"] in ("short_read","short_write","directory_made_by_other"): raise Violation("failed", "a harmless %s made it fail: %s: %s" % (fault["name"], type(err).__name__, str(err)[:200]))
		return res, err, fault
	its = []
	for ji,j in enumerate(case["jobs"]):
		j = dict(j, o=dict(j["o"])); o = j["o"]; j["use"] = list(range(len(srcs))); kw = dict(o)
		scal = any(not srcs[k].s["pre"] for k in j["use"]); ints = any(srcs[k].s["dt"] == "i4" for k in j["use"])
		if o.get("fix_wcs") and any(srcs[k].s["geo"] in ("zea","plain") for k in j["use"]): kw.pop("fix_wcs"); o.pop("fix_wcs")
		if scal and (o.get("symmetric") or o.get("slice") == "[::-1]"): kw.pop("symmetric",0); kw.pop("slice",0); o.pop("symmetric",0); o.pop("slice",0)
		if o.get("rgb") and (o.get("slice") or "stamps" in o) and "tile" in o: kw.pop("tile"); o.pop("tile")
		if o.get("rgb") and "mask" in o and any(np.prod(srcs[k].s["pre"]) > 3 for k in j["use"]): kw.pop("mask"); o.pop("mask")
		if any(srcs[k].s["pre"][:1] == [1] or not srcs[k].s["pre"] for k in j["use"]) or o.get("rgb"): j["fsl"] = False
		if "contours" in o and (ints or o.get("rgb")): kw.pop("contours"); o.pop("contours"); o.pop("no_image",0); kw.pop("no_image",0)
		if "stamps" in o or "sub" in o or o.get("autocrop"):
			# geometry dependent options need one map per job
			j["use"] = [int(r.integers(len(srcs)))]
		s0 = srcs[j["use"][0]]
		if s0.s["dt"] == "i4": kw.pop("stamps",0); o.pop("stamps",0)
		if s0.s["geo"] in ("plain","zea"):
			for k in ("sub","stamps"): kw.pop(k,0); o.pop(k,0)
		if o.get("autocrop") and ("sub" in o or "stamps" in o): kw.pop("autocrop"); o.pop("autocrop")
		if "sub" in o:
			f = o["sub"]; S = s0.s; y = sorted(int(round(v*S["ny"])) for v in f[:2]); x = sorted(int(round(v*S["nx"])) for v in f[2:])
			y[1] = max(y[1],y[0]+1); x[1] = max(x[1],x[0]+1); 
			w = s0.wcs; c = [w.wcs_pix2world([[a-0.5,b-0.5]],0)[0] for a,b in zip(x,y)]
			# pixel edges: exact to rounding
			kw["sub"] = o["sub"] = "%.9f:%.9f,%.9f:%.9f" % (c[0][1],c[1][1],c[0][0],c[1][0])
			t = [[float(v)*utils.degree for v in p.split(":")] for p in o["sub"].split(",")]; j["box"] = [np.array(t).T]
		if "stamps" in o:
			n, size, nmax = o["stamps"]; S = s0.s; m = s0.map if "sub" not in o else s0.map.submap(j["box"][0])
			pix = np.array([r.integers(-1,S["ny"]+2,n)+r.choice([-0.2,0,0.3]), r.integers(-1,S["nx"]+2,n)+r.choice([-0.2,0,0.3])]); pos = m.pix2sky(pix)/utils.degree
			path = os.path.join(base, "src%d.txt" % ji); np.savetxt(path, pos[::-1].T, fmt="%.12f")
			kw["stamps"] = path+":%d" % size+(":%d" % nmax if nmax else "")
			cen = np.round(m.sky2pix(np.round(pos,12)*utils.degree)-0.5*size).astype(int).T; j["pos"] = [cen[:nmax or None]]
			if o.get("downgrade",1) != 1 or o.get("slice") or o.get("fix_wcs"): [kw.pop(k,0) or o.pop(k,0) for k in ("downgrade","slice","fix_wcs")]; [o.pop(k,0) for k in ("downgrade","slice","fix_wcs")]
		if "annotate" in o:
			ra = np_rng(case["ann"],ji); A = []
			for k in range(int(ra.integers(1,4))):
				P = lambda: ["%.3f" % (ra.uniform(-3,3)), "%.3f" % (20+ra.uniform(-3,3)), str(int(ra.integers(-2,3))), str(int(ra.integers(-2,3)))]
				A.append([["c"]+P()+["3","1","red"], ["t"]+P()+["hi","10"], ["line"]+P()+P()+["1","blue"], ["rect"]+P()+P()][ra.integers(4)])
			if o["annotate"] == 0: kw["annotate"] = A
			else:
				path = os.path.join(base, "ann%d.txt" % ji); kw["annotate"] = path
				with open(path,"w") as f: f.write("".join(" ".join(x)+"\n" for x in A))
			if o["annotate"] == 2: kw["annotate_maxrad"] = o["annotate_maxrad"] = 5
		j["kw"] = kw
		dy, dx = two(o.get("downgrade",1))
		if "slice" in o and "1:,1:" in o["slice"] and "contours" in o: pass
		if any(model_empty(srcs[k], j) for k in j["use"]):
			for k in ("slice","downgrade"): kw.pop(k,0); o.pop(k,0)
		args = []
		if j.get("glob") and any(srcs[k].s["kind"] == "fits" for k in j["use"]) and len(j["use"]) == len(srcs):
			j["fsl"] = False; j["use"] = [k for k in j["use"] if srcs[k].s["kind"] == "fits"]; args = [os.path.join(base,"in*.fits")]
		else:
			if len(j["use"]) == len(srcs) and j.get("rep") and "box" not in j and "pos" not in j:
				# the same maps once more, the other way around
				j["alt"] = True; j["use"] = j["use"]+j["use"]
			for q,k in enumerate(j["use"]):
				a = srcs[k].arg; args.append(a+":[1:]" if sliced(j, q, srcs[k].s) else a)
		line = cli(kw) if j["cli"] else None
		j["call"] = (args+[line], {}) if line is not None else (args, kw)
		for rank in range(j["n"]): its.append(dict(j=j, ji=ji, rank=rank, it=None, k=0, want=None, tries=0, got=[]))
	def start(t):
		j = t["j"]; a, kw = j["call"]; kw = dict(kw)
		if j["n"] > 1 or t["tries"] % 2: kw["comm"] = Comm(t["rank"], j["n"])
		t["it"] = enplot.plot_iterator(*a, **kw); t["k"] = 0; t["tries"] += 1; t["got"] = []
		if t["want"] is None:
			t["want"] = []
			for fi in range(t["rank"], len(j["use"]), j["n"]):
				M = Model(srcs[j["use"][fi]], fi, j, None, t["rank"]); t["want"] += [(fi,M,p) for p in M.plots]
	live = list(its); done = []
	for t in live: start(t)
	while live:
		t = live[int(r.integers(len(live)))]; j = t["j"]; o = j["o"]; what = "job %d %s, rank %d of %d, plot %d" % (t["ji"], show(o), t["rank"], j["n"], t["k"])
		if len(its) > 1: hot = True
		if r.random() < case["abandon"] and t["tries"] < 3: t["it"].close(); ctx.fault("plot_loop_abandoned"); hot = True; start(t); continue
		def step():
			try: return next(t["it"])
			except StopIteration: return None
		try: p, err, fault = under(step, rf, 0.3)
		except (Violation, HarnessError): raise
		except Exception as e:
			import traceback
			raise Violation("failed", "%s raised %s: %s at %s" % (what, type(e).__name__, str(e)[:300], traceback.extract_tb(e.__traceback__)[-1][1:3]))
		if fault: hot = True
		if err is not None:
			ctx.probe("plot_raised"); start(t); continue
		trace.append([t["ji"],t["rank"],p.name if p is not None and not fault else None])
		if p is None:
			if t["k"] != len(t["want"]): raise Violation("missing", "%s: ended after %d plots, expected %d" % (what, t["k"], len(t["want"])))
			live.remove(t); done.append(t); continue
		if t["k"] >= len(t["want"]): raise Violation("extra", "%s: more plots than the %d expected (%s)" % (what, len(t["want"]), p.name))
		fi, M, q = t["want"][t["k"]]; t["k"] += 1; t["got"].append((p, np.array(p.img))); S = srcs[j["use"][fi]]; what += " of "+show(S.s)
		check_plot(ctx, what, p, q, M, S, j, fi, alone, under)
	for i,s in enumerate(srcs):
		d = s.check()
		if d: raise Violation("input-modified", "%s: %s" % (show(s.s), d))
	# write some of the plots
	out = os.path.join(base,"o"); os.makedirs(out)
	for t in done:
		for p,img in t["got"]:
			if not np.array_equal(np.asarray(p.img), img): raise Violation("plot-changed", "plot %s changed after it was made" % p.name)
		if not t["got"] or r.random() < 0.6: continue
		os.makedirs(os.path.join(out,"dir"), exist_ok=True); pick = [x for x in t["got"] if "/" not in x[0].name][:2]
		if not pick or len(set(p.name for p,_ in pick)) < len(pick): continue
		plain = r.random() < 0.2
		pre = os.path.join(out, "w%d_%d_" % (t["ji"],t["rank"]))
		for attempt in range(3):
			lst = [p for p,_ in pick]
			try: _, err, fault = under(lambda: enplot.write(pre, lst) if len(lst) > 1 or attempt else enplot.write(pre+lst[0].name, lst[0].img if plain else lst[0]), wf if lst[0].ext == "png" else [], 0.8)
			except (Violation, HarnessError): raise
			except Exception as e: raise Violation("write-failed", "writing %s failed with no fault: %s: %s" % (lst[0].name, type(e).__name__, str(e)[:200]))
			if err is not None: hot = True; ctx.probe("write_raised"); continue
			import PIL.Image
			for p,img in pick:
				with PIL.Image.open(pre+p.name) as f: back = np.array(f.convert("RGBA"))
				if not np.array_equal(back, img): raise Violation("written-plot", "%s: the file differs from the plot%s" % (p.name, " although writing reported success under "+fault["name"] if fault else ""))
			break
	ctx.exec(ihash=trace, nontrivial=trace if hot else None, events=len(trace))
	ctx.sample({"jobs":[show(j["o"]) for j in case["jobs"]], "trace":trace[:5]})
def sliced(j, fi, s):
	"""is the fi'th map of the job a file with a slice in its name?"""
	return bool(j["fsl"] and s["kind"] in ("fits","hdf") and not (j.get("alt") and fi >= len(j["use"])//2))
def model_empty(s, j):
	try: M = Model(s, 0, dict(j, use=[0], box=j.get("box"), pos=j.get("pos")), None, 0)
	except (ValueError, IndexError): return True
	return M.a.size == 0
def show(o): return "{"+", ".join("%s=%s" % (k,v) for k,v in o.items() if k not in ("seed",))+"}"
def check_plot(ctx, what, p, q, M, S, j, fi, alone, under):
	o = j["o"]
	if p.name != q["name"]: raise Violation("name", "%s: name %r, expected %r" % (what, p.name, q["name"]))
	for k,v in q["info"].items():
		if p[k] != v: raise Violation("name", "%s: field %s is %r, expected %r" % (what, k, p[k], v))
	if list(p.info.names) != q["layers"]: raise Violation("layers", "%s: layers %s, expected %s" % (what, p.info.names, q["layers"]))
	H, W = q["data"].shape[-2:]; b = np.array(p.info.bounds); full = p.img.size
	if tuple(b[1]-b[0]) != tuple(full) or b[0].max() > 0 or b[1][0] < W or b[1][1] < H: raise Violation("bounds", "%s: bounds %s of a %s image for %dx%d pixels" % (what, b.tolist(), full, W, H))
	x0, y0 = -b[0]; crop = p.img.crop((x0,y0,x0+W,y0+H))
	tol = 1e-4 if S.s["dt"] != "f4" else 2e-2
	L = q["layer"]; plain = set(q["layers"]) <= {"img","cont"}
	if L == "img" or (L is None and q["layers"] == ["img"]): same("colour", what, crop, M.colour(q), tol); ctx.probe("image_layer")
	elif L == "cont" or (L is None and q["layers"] == ["cont"]): same("contour", what, crop, M.contour(q), 1e-4); ctx.probe("contour_layer")
	elif L == "colorbar":
		bar = np.asarray(p.img)[y0+H:]; cs = colorize.Colorscheme(o.get("color","planck")); x = np.linspace(0,1,2)
		ends = lookup(np.array(cs.vals,float), np.array(cs.cols,float), 1-x if o.get("reverse_color") else x); at = []
		for e in ends:
			cnt = np.all(np.abs(bar-e) <= 1.5, -1).sum(0); hit = np.where((cnt==cnt.max())&(cnt>0))[0]  # the bar fills its columns, labels do not
			if not len(hit): raise Violation("colorbar", "%s: the colour bar lacks the end colour %s" % (what, e.tolist()))
			at.append(hit.mean())
		if at[1] <= at[0]: raise Violation("colorbar", "%s: the colour bar runs the wrong way" % what)
	elif L is None and plain:
		# contours are opaque or absent
		c, w = M.contour(q), M.colour(q); got = np.asarray(crop); on = c[...,3] > 254
		same("contour", what, got*on[...,None], c*on[...,None], 1e-4)
		a = w[...,3:]/255; same("colour", what, np.where(on[...,None]|(a<0.99),0,got), np.where(on[...,None]|(a<0.99),0,w), tol)
	if not plain:
		# compare with the same map plotted alone
		key = (fi, id(j["kw"]))
		if key not in alone:
			f = sliced(j, fi, S.s); m = enmap.ndmap(S.a.copy(), S.wcs.deepcopy())
			alone[key] = enplot.plot((m,"x"), **j["kw"]) if not f else None
		if alone[key] is not None:
			A = alone[key][[k for k,u in enumerate(M.plots) if u is q][0]]
			if A.img.size != p.img.size or not np.array_equal(np.asarray(A.img), np.asarray(p.img)): raise Violation("depends-on-others", "%s: the plot differs from the plot of the same map alone" % what)
			ctx.probe("compared_alone")
