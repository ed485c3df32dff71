"""C09: reading part of a map, in any way and repeatedly, gives what the full map has there."""
ID    = "C09"
DISK  = True
NCASE = {"quick": 5000, "thorough": 80000}
RULE  = "case = one random map file (fits plain, gzipped, several images, compressed, with Stokes axis in either sign convention; hdf with or without group, either byte order; npy) and a history of 2-9 accesses: read with slices, pixel boxes (also across the wrapping edge and outside), coordinate boxes with every rounding mode, target geometries, slices in the file name, geometry only, reading into one of the formats by name, delayed in memory, and repeated accesses to one or two delayed maps, through both the whole-file and the section path, with seeded read faults; non-trivial when at least two accesses returned data"
MEASURE = "64-bit hash of the sequence of accesses, file calls and faults that fired"
REAL  = ["pixell/enmap.py read_map, delayed map objects, submap/extract", "pixell/utils.py slice and box algebra", "astropy.io.fits", "h5py and libhdf5"]
STUB  = ["kernel file calls below the scratch directory -> simulated disk (simlib/simio.c)"]
ASSUME = ["the file does not change between accesses", "slices along the pixel axes, integers or slices along the others", "maps no wider than the sky"]
import numpy as np, os, shutil
from simlib.core import Violation, np_rng
from simlib import disk, maps
from pixell import enmap, wcsutils
KINDS = ["fits","fits","fits.gz","multi","comp","stokes","stokes","hdf","hdfgroup","fitsext","hdffmt","npy"]
ACC   = ["sel","sel","pixbox","pixbox","box","box","geo","name","geom","prox","prox","prox","prox","full","wcs","mem"]
def gen(rng, tier, i):
	w = dict(kind=rng.choice(KINDS), seed=rng.getrandbits(32), wide=rng.random()<0.5, proj=rng.choice(["CAR","CAR","CAR","CEA","TAN"]), pre=rng.choice([[],[],[2],[3],[3],[2,3],[1]]), dt=rng.choice(["f8","f4","i4","i2"]))
	if w["kind"] == "stokes": w["pre"] = rng.choice([[3],[3],[4],[2,3]]); w["conv"] = rng.choice(["IAU","COSMO",None])
	acc = []
	for k in range(rng.choice([2,3,5,9])):
		a = dict(op=rng.choice(ACC), seed=rng.getrandbits(32), th=rng.choice([0,0,1e7]))
		if a["op"] == "prox": a["sub"] = rng.choice(["sel","sel","pixbox","box","same","geo","stamps"]); a["which"] = rng.randrange(2)
		elif a["op"] == "mem": a["sub"] = rng.choice(["sel","pixbox","box","geo","stamps"])
		if a["op"] != "prox" and rng.random() < 0.25: a["fault"] = disk.gen_fault(rng, "r")
		acc.append(a)
	return dict(w=w, acc=acc)
def shrink(case):
	a = case["acc"]
	for i in range(len(a)): yield dict(case, acc=a[:i]+a[i+1:])
	for i in range(len(a)):
		if "fault" in a[i]: yield dict(case, acc=a[:i]+[{k:v for k,v in a[i].items() if k!="fault"}]+a[i+1:])
	w = case["w"]
	for k,v in (("kind","fits"),("wide",False),("proj","CAR"),("pre",[]),("dt","f8")):
		if w[k] != v and not (k=="pre" and w["kind"]=="stokes"): yield dict(case, w=dict(w, **{k:v}))

def setup():
	import warnings; warnings.simplefilter("ignore")
	import astropy; astropy.log.disabled = True

def build(w, path):
	"""write the file with the libraries directly; returns (name to read, kwargs, data, wcs)"""
	from astropy.io import fits
	import h5py
	r = np_rng(w["seed"])
	res = [1.0,2.5,5.0,10.0,0.5][r.integers(5)]
	nphi = int(round(360/res))
	nx = nphi if w["wide"] and nphi <= 150 and w["proj"] != "TAN" else int(r.integers(1,30))
	ny = int(r.integers(1,20))
	wcs = maps.rand_wcs(r, ny, nx, proj=w["proj"])
	s = 1 if w["proj"] == "TAN" else res
	wcs.wcs.cdelt = [np.sign(wcs.wcs.cdelt[0])*s, np.sign(wcs.wcs.cdelt[1])*s*(0.3 if w["proj"]!="TAN" else 1)]
	data = maps.rand_data(r, tuple(w["pre"])+(ny,nx), w["dt"])
	kind = w["kind"]; kw = {}; want = data.copy()
	h = wcs.to_header(relax=True)
	if kind == "npy":
		name = path+"/m.npy"; np.save(name, data); kw["wcs"] = wcs.deepcopy()
		return name, kw, want, wcs
	if kind in ("hdf","hdfgroup","hdffmt"):
		name = path+"/m.hdf"
		if kind == "hdffmt": name = path+"/"+["m.h5","m.fits","map"][r.integers(3)]; kw["fmt"] = "hdf"
		d = data.astype(data.dtype.newbyteorder(">")) if r.random() < 0.4 else data
		with h5py.File(name,"w") as f:
			g = f.create_group("g/x") if kind == "hdfgroup" else f
			g["data"] = d
			for k in h: g["wcs/"+k] = h[k]
		if kind == "hdfgroup": kw["address"] = "g/x"
		return name, kw, want, wcs
	name = path+"/m.fits"+(".gz" if kind=="fits.gz" else "")
	if kind == "fitsext":
		name = path+"/"+["map","m.fit","m.hdf","m.dat"][r.integers(4)]
		if name.endswith(".hdf") or r.random() < 0.3: kw["fmt"] = "fits"
	if kind == "stokes":
		ax = data.ndim-2 if len(w["pre"]) == 1 else [3,4][int(r.integers(2))]
		ax = 3 if len(w["pre"]) == 1 else int([3,4][r.integers(2)])     # fits axis number
		ind = data.ndim-ax                                               # numpy axis
		crval, crpix = [(1.0,1.0),(2.0,2.0),(1.0,1.0)][r.integers(3)]
		h["CTYPE%d"%ax] = "STOKES"; h["CRVAL%d"%ax] = crval; h["CRPIX%d"%ax] = crpix; h["CDELT%d"%ax] = 1.0
		if w["conv"]: h["POLCCONV"] = w["conv"]
		if w["conv"] != "COSMO" and data.shape[ind] > 2:
			I = [slice(None)]*data.ndim; I[ind] = 2; want[tuple(I)] *= -1
	if kind == "comp":
		fits.HDUList([fits.PrimaryHDU(), fits.CompImageHDU(data if data.dtype.kind!="f" else data, h, compression_type="GZIP_1", quantize_level=0)]).writeto(name); kw["hdu"] = 1
	elif kind == "multi":
		k = int(r.integers(0,3)); L = []
		for i in range(3):
			d = data if i == k else maps.rand_data(r, (2,3,4), "f4")
			L.append((fits.PrimaryHDU if i == 0 else fits.ImageHDU)(d, h if i == k else None))
		fits.HDUList(L).writeto(name); kw["hdu"] = k
	else: fits.PrimaryHDU(data, h).writeto(name)
	return name, kw, want, wcs

def rslice(r, n, steps=True):
	st = int([1,1,1,2,3,-1,-2][r.integers(7)]) if steps else 1
	a, b = sorted(int(x) for x in r.integers(0,n+1,2))
	if a == b: a, b = (a-1,b) if a > 0 else (a,b+1)
	k = r.integers(5)
	if st > 0:
		if k == 0: return slice(None,b,st) if b > 0 else slice(None)
		if k == 1: return slice(a,None,st) if a < n else slice(None)
		if k == 2 and b < n: return slice(a-n, b-n, st)
		return slice(a,b,st)
	if k == 0: return slice(None,None,st)
	return slice(b-1, a-1 if a > 0 else None, st)
def rsel(r, shape):
	pre = [rslice(r,n) if r.random()<0.5 else int(r.integers(-n,n)) for n in shape[:-2]]
	pix = [rslice(r, shape[-2]), rslice(r, shape[-1])]
	k = r.integers(5)
	if k == 0 and len(shape) > 2: return tuple(pre[:int(r.integers(0,len(pre)+1))]) or (slice(None),)
	if k == 1: return (Ellipsis,)+tuple(pix)
	if k == 2 and len(pre): return (pre[0],Ellipsis,pix[1])
	if k == 3: return tuple(pre)+(pix[0],)
	return tuple(pre)+tuple(pix)
def pixparts(sel, nd):
	"""the two pixel slices of a selection"""
	sel = list(sel)
	if Ellipsis in sel:
		i = sel.index(Ellipsis); sel = sel[:i]+[slice(None)]*(nd-len(sel)+1)+sel[i+1:]
	sel += [slice(None)]*(nd-len(sel))
	return sel[-2:]
def sliced_wcs(wcs, shape, parts):
	"""the wcs of the pixels selected by two slices: pixel q starts where its first original pixel starts"""
	w = wcs.deepcopy()
	for j,(s,n) in enumerate(zip(parts[::-1], shape[-2:][::-1])):
		a,b,st = s.indices(n)
		e = a if st > 0 else a+1       # starting edge
		w.wcs.crpix[j] = (wcs.wcs.crpix[j]-0.5-e)/st+0.5
		w.wcs.cdelt[j] = wcs.wcs.cdelt[j]*st
	return w

def cmp(what, res, data, wcs):
	if not isinstance(res, enmap.ndmap): raise Violation("wrong-type", "%s gave a %s" % (what, type(res).__name__))
	if res.shape != data.shape: raise Violation("wrong-shape", "%s has shape %s, expected %s" % (what, res.shape, data.shape))
	if res.dtype.newbyteorder("=") != data.dtype.newbyteorder("="): raise Violation("wrong-dtype", "%s has dtype %s, expected %s" % (what, res.dtype, data.dtype))
	if not maps.bits_equal(res, data):
		x = np.asarray(res); I = tuple(int(q) for q in np.argwhere((x != data)&~((x!=x)&(data!=data)))[0])
		raise Violation("wrong-pixels", "%s: pixel %s is %r, expected %r" % (what, I, x[I], data[I]))
	if data.size:
		d = maps.wcs_diff(res.wcs, wcs, res.shape)
		if d: raise Violation("wrong-coordinates", "%s: %s" % (what, d))

def rpixbox(r, shape, nphi, wide, cyl):
	b = np.zeros((2,2),int)
	for i,n in enumerate(shape[-2:]):
		if r.random() < 0.4: a,c = sorted(int(x) for x in r.integers(0,n+1,2))
		elif i == 1 and cyl and r.random() < 0.7: a = int(r.integers(-nphi,2*nphi)); c = a+int(r.integers(1,nphi+1))
		else: a = int(r.integers(-n-2,n+2)); c = a+int(r.integers(1,2*n+3))
		if a == c: c += 1
		b[:,i] = a,c
	if r.random() < 0.35:
		s = np.array([int([1,1,-1,2,-1,3][r.integers(6)]) for i in range(2)]); B = np.zeros((3,2),int)
		for i in range(2):
			a,c = b[:,i]; st = s[i]; m = (c-a+abs(st)-1)//abs(st)
			B[:,i] = (a, a+m*st, st) if st > 0 else (a+(m-1)*-st, a+st, st)
		b = B
	return b
def pixbox_model(data, wcs, b, wrap):
	idx = []; w = wcs.deepcopy()
	for i in range(2):
		st = int(b[2,i]) if len(b) > 2 else 1
		x = np.arange(int(b[0,i]), int(b[1,i]), st); n = data.shape[-2+i]
		j = 1-i; e = b[0,i] if st > 0 else b[0,i]+1
		w.wcs.crpix[j] = (wcs.wcs.crpix[j]-0.5-e)/st+0.5; w.wcs.cdelt[j] = wcs.wcs.cdelt[j]*st
		y = x % wrap[i] if wrap[i] else x
		idx.append((y, (y>=0)&(y<n)))
	(Y,oy),(X,ox) = idx
	out = np.zeros(data.shape[:-2]+(len(Y),len(X)), data.dtype)
	ok = oy[:,None]&ox[None,:]
	out[...,ok] = data[...,np.where(oy,Y,0)[:,None],np.where(ox,X,0)[None,:]][...,ok]
	return out, w

def cylsky(w, p):
	"""ra,dec in degrees of pixels p[:,{x,y}] for a cylindrical projection centered on the equator; valid for any x"""
	return np.array([w.wcs.crval[0]+(p[:,0]+1-w.wcs.crpix[0])*w.wcs.cdelt[0], w.wcs_pix2world(np.array([p[:,0]*0+w.wcs.crpix[0]-1,p[:,1]]).T,0)[:,1]]).T
def cyl2cyl(a, b, p):
	s = cylsky(a, p)
	return np.array([(s[:,0]-b.wcs.crval[0])/b.wcs.cdelt[0]+b.wcs.crpix[0]-1, b.wcs_world2pix(np.array([s[:,0]*0+b.wcs.crval[0],s[:,1]]).T,0)[:,1]]).T
def sky_rows(what, res, data, wcs, wrap):
	"""as sky_check for results that reach beyond the poles: rows by linear row offset"""
	if abs(res.wcs.wcs.cdelt[1]) != abs(wcs.wcs.cdelt[1]): raise Violation("wrong-coordinates", what+": other pixel size")
	ny, nx = res.shape[-2:]; f = np.sign(res.wcs.wcs.cdelt[1])*np.sign(wcs.wcs.cdelt[1])
	Y = (np.arange(ny)+1-res.wcs.wcs.crpix[1])*f+wcs.wcs.crpix[1]-1; yi = np.round(Y).astype(int)
	g = np.sign(res.wcs.wcs.cdelt[0])*np.sign(wcs.wcs.cdelt[0])
	X = ((np.arange(nx)+1-res.wcs.wcs.crpix[0])*res.wcs.wcs.cdelt[0]+res.wcs.wcs.crval[0]-wcs.wcs.crval[0])/wcs.wcs.cdelt[0]+wcs.wcs.crpix[0]-1; xi = np.round(X).astype(int)
	if np.max(np.abs(X-xi)) > 1e-3 or np.max(np.abs(Y-yi)) > 1e-3: raise Violation("wrong-coordinates", "%s: pixels of the result do not coincide with pixels of the file" % what)
	if wrap: xi = xi % int(round(360/abs(wcs.wcs.cdelt[0])))
	ox = (xi>=0)&(xi<data.shape[-1]); oy = (yi>=0)&(yi<data.shape[-2]); ok = oy[:,None]&ox[None,:]
	want = np.zeros(res.shape, data.dtype); want[...,ok] = data[...,np.where(oy,yi,0)[:,None],np.where(ox,xi,0)[None,:]][...,ok]
	if not maps.bits_equal(res, want): raise Violation("wrong-pixels", what+": pixels differ from the full map at the same position")
def sky_check(what, res, data, wcs, wrap):
	"""every pixel of the result has the value the full map has at that position, or zero outside"""
	ny, nx = res.shape[-2:]
	if not res.size: return
	y, x = np.mgrid[:ny,:nx]
	p = np.array([x.reshape(-1),y.reshape(-1)],float).T
	q = cyl2cyl(res.wcs, wcs, p)
	X, Y = q[:,0], q[:,1]
	fin = np.isfinite(Y); Y = np.where(fin,Y,-5)
	if not np.all(fin): return sky_rows(what, res, data, wcs, wrap)
	xi, yi = np.round(X).astype(int), np.round(Y).astype(int)
	if np.max(np.abs(X-xi)) > 1e-3 or np.max(np.abs(Y-yi)) > 1e-3: raise Violation("wrong-coordinates", "%s: pixels of the result do not coincide with pixels of the file (off by %g)" % (what, max(np.max(np.abs(X-xi)),np.max(np.abs(Y-yi)))))
	nphi = int(round(360/abs(wcs.wcs.cdelt[0])))
	if wrap: xi = xi % nphi
	ok = (xi>=0)&(xi<data.shape[-1])&(yi>=0)&(yi<data.shape[-2])
	want = np.zeros(res.shape[:-2]+(ny*nx,), data.dtype)
	want[...,ok] = data[...,np.where(ok,yi,0),np.where(ok,xi,0)][...,ok]
	got = np.asarray(res).reshape(want.shape)
	if not maps.bits_equal(got, want):
		I = tuple(int(q) for q in np.argwhere((got != want)&~((got!=got)&(want!=want)))[0])
		raise Violation("wrong-pixels", "%s: the pixel at ra,dec %s deg is %r, the full map has %r there" % (what, cylsky(res.wcs,p[I[-1]:I[-1]+1])[0].tolist(), got[I], want[I]))
	if np.any(ok): return True

def rbox(r, data, wcs):
	"""a coordinate box given by fractional pixel corners"""
	ny, nx = data.shape[-2:]
	fx = sorted(r.uniform(-0.3*nx-2, 1.3*nx+2, 2)); fy = sorted(r.uniform(-1, ny, 2))
	if r.random() < 0.3: fx = [np.round(v)-0.5 for v in fx]; fy = [np.round(v)-0.5 for v in fy]
	if r.random() < 0.25: fx = fx[::-1]
	if r.random() < 0.25: fy = fy[::-1]
	nphi = 360/abs(wcs.wcs.cdelt[0])
	if abs(fx[1]-fx[0]) > nphi*0.9: fx[1] = fx[0]+np.sign(fx[1]-fx[0])*nphi*0.9
	if abs(fx[1]-fx[0]) < 1: fx[1] += (np.sign(fx[1]-fx[0]) or 1)*2
	if abs(fy[1]-fy[0]) < 1: fy[1] += (np.sign(fy[1]-fy[0]) or 1)*2
	ra  = [wcs.wcs.crval[0]+(v+1-wcs.wcs.crpix[0])*wcs.wcs.cdelt[0] for v in fx]
	dec = [float(wcs.wcs_pix2world([[wcs.wcs.crpix[0]-1, v]],0)[0,1]) for v in fy]
	if not np.all(np.isfinite(dec)): return None
	shift = 360*int(r.integers(-1,2))
	return np.array([[dec[0],ra[0]+shift],[dec[1],ra[1]+shift]])*np.pi/180, fx, fy
def box_check(what, res, fx, fy, wcs, mode):
	for name, f, n, j in (("y",fy,res.shape[-2],1),("x",fx,res.shape[-1],0)):
		d = abs(f[1]-f[0]); lo, hi = {"round":(d-1,d+1),"floor":(d-1,d+1),"ceil":(d-1,d+1),"inclusive":(d,d+2),"exclusive":(d-2,d)}[mode]
		if not (lo-2e-3 <= n <= hi+2e-3): raise Violation("wrong-extent", "%s (mode %s): %d pixels along %s, the box has %.3f" % (what, mode, n, name, d))
		if n and np.sign(res.wcs.wcs.cdelt[j]) != np.sign(wcs.wcs.cdelt[j])*np.sign(f[1]-f[0]): raise Violation("wrong-direction", "%s: the result runs against the box along %s" % (what, name))
	# starting edge
	if res.size == 0: return
	q = cyl2cyl(res.wcs, wcs, np.zeros((1,2)))[0]
	nphi = 360/abs(wcs.wcs.cdelt[0])
	for name, f, v, j in (("y",fy,q[1],1),("x",fx,q[0],0)):
		dirn = np.sign(f[1]-f[0]); e = (v-0.5*dirn+0.5 - (f[0]+0.5))*dirn  # distance along the box direction
		if j == 0: e = (e+nphi/2)%nphi-nphi/2
		lim = 1.5
		if all(abs(v+0.5-np.round(v+0.5)) < 1e-9 for v in f) and mode == "round": lim = 0
		if abs(e) > lim+5e-3: raise Violation("wrong-extent", "%s (mode %s): starts %.3f pixels from the requested edge along %s" % (what, mode, e, name))

def run(case, ctx):
	w = case["w"]
	base = os.path.join(os.environ["VC_SCRATCH"], "c09"); shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
	D = disk.Disk(base); trace = [w["kind"]]; nops = 0; prox = {}
	try:
		name, kw, data, wcs = build(w, base)
		nphi = int(round(360/abs(wcs.wcs.cdelt[0]))); cyl = w["proj"] != "TAN"; got = 0
		last = {}; held = []
		with open(name,"rb") as f: bytes0 = f.read()
		for n,a in enumerate(case["acc"]):
			r = np_rng(a["seed"]); op = a["op"]; tag = "access %d (%s, %s%s)" % (n, op, w["kind"], ", by section" if a["th"]==0 else "")
			fault = a.get("fault"); err = res = None
			D.start([fault] if fault else [], record=False)
			try: res = access(a, op, r, name, kw, data, wcs, nphi, cyl, prox, w, last)
			except Violation: raise
			except Exception as e: err = e
			finally: fired, count = D.stop()
			nops += sum(count.values()); trace.append([op, a.get("sub"), fault and fault["name"], fired, count])
			if fault and fired[0]: ctx.fault(fault["name"], fired[0])
			if err is not None:
				if fault and fired[0] and fault["name"] != "short_read": ctx.probe("read_raised"); continue
				raise err
			if res is None: continue
			check, args = res[:2]
			if len(args): held.append((tag, args[0], np.array(args[0])))
			try: check(tag, *args); got += 1
			except Violation as v: raise Violation(v.kind, v.msg)
			if a["seed"] % 3 == 0 and len(args) and op != "mem" and w["kind"] != "npy" and isinstance(args[0], np.ndarray) and args[0].flags.writeable and not np.may_share_memory(args[0], data):
				# the result belongs to the caller
				args[0][...] = 77; held[-1] = (tag, args[0], np.array(args[0]))
		with open(name,"rb") as f:
			if f.read() != bytes0: raise Violation("file-modified", "reading changed the file")
		for tag, res, val in held:
			if not maps.bits_equal(np.asarray(res), val): raise Violation("result-modified", "the result of %s changed during later accesses" % tag)
	finally:
		D.stop(); prox.clear(); shutil.rmtree(base, ignore_errors=True)
	ctx.exec(ihash=trace, nontrivial=trace+[w["seed"]] if got > 1 else None, events=nops)
	ctx.sample({"file": w["kind"], "shape": list(data.shape), "accesses": [a["op"]+(":"+a["sub"] if "sub" in a else "") for a in case["acc"]]})

def access(a, op, r, name, kw, data, wcs, nphi, cyl, prox, w, last):
	"""perform one access; returns (checker, args) to judge its result"""
	th = dict(sel_threshold=a["th"])
	def do_sel(reader):
		sel = rsel(r, data.shape); res = reader(sel)
		return (lambda tag, *x: cmp("%s %s" % (tag, sel), *x)), (res, data[sel], sliced_wcs(wcs, data.shape, pixparts(sel, data.ndim)))
	def do_pixbox(reader):
		b = rpixbox(r, data.shape, nphi, w["wide"], cyl); wrap = "auto"
		if r.random() < 0.3: wrap = [0, [0,0], [0,nphi]][r.integers(3)]
		b0 = b.copy(); res = reader(b, wrap)
		if not np.array_equal(b,b0): raise Violation("argument-modified", "pixbox %s became %s" % (b0.tolist(), b.tolist()))
		ww = [0,nphi] if isinstance(wrap,str) else ([0,0] if wrap == 0 else wrap)
		return (lambda tag, *x: cmp("%s pixbox %s wrap %s of %s" % (tag, b.tolist(), wrap, data.shape), *x)), (res,)+pixbox_model(data, wcs, b, ww)
	def do_box(reader, modes=True):
		bb = rbox(r, data, wcs)
		if bb is None: return None
		box, fx, fy = bb; mode = [None,None,"round","floor","ceil","inclusive","exclusive"][r.integers(7)] if modes else None; rec = bool(r.random()<0.3); wrap = "auto" if rec else rwrap()
		b0 = box.copy(); res = reader(box, mode, rec, wrap)
		if not np.array_equal(box,b0): raise Violation("argument-modified", "the box was modified")
		def check(tag):
			t = "%s box %s mode %s%s wrap %s" % (tag, (box*180/np.pi).round(4).tolist(), mode, " recentered" if rec else "", wrap)
			if res.dtype.newbyteorder("=") != data.dtype.newbyteorder("=") or res.shape[:-2] != data.shape[:-2]: raise Violation("wrong-shape", "%s: %s %s" % (t, res.shape, res.dtype))
			sky_check(t, res, data, wcs, isinstance(wrap,str) or wrap != 0)
			ref = res.wcs.wcs.crpix[0]
			if rec and res.size and abs(ref-(res.shape[-1]+1)/2) > 1: raise Violation("not-recentered", "%s: the reference pixel is at %g of %d" % (t, ref, res.shape[-1]))
			if not rec and np.any(res.wcs.wcs.crval != wcs.wcs.crval): raise Violation("wrong-coordinates", "%s: reference point moved from %s to %s" % (t, wcs.wcs.crval, res.wcs.wcs.crval))
			box_check(t, res, fx, fy, wcs, mode or "round")
		return check, ()
	def do_geo(reader):
		off = r.integers(-data.shape[-1]-2, data.shape[-1]+3), r.integers(-data.shape[-2]-1, data.shape[-2]+2)
		ow = wcs.deepcopy(); ow.wcs.crpix = [wcs.wcs.crpix[0]-off[0], wcs.wcs.crpix[1]-off[1]]
		if cyl and r.random() < 0.4:
			k = int(r.integers(-20,20)); ow.wcs.crpix[0] += k; ow.wcs.crval[0] += k*wcs.wcs.cdelt[0]
		osh = (int(r.integers(1,30)), int(r.integers(1,min(nphi,40)+1)))
		if r.random() < 0.2: osh = (2,)+osh
		wrap = rwrap() if cyl else 0
		o0 = ow.to_header_string(); res = reader((osh,ow), wrap)
		if ow.to_header_string() != o0: raise Violation("argument-modified", "the target geometry was modified")
		def chk(tag):
			tag += " geometry at offset %s wrap %s" % ([int(v) for v in off], wrap)
			if res.shape != data.shape[:-2]+osh[-2:]: raise Violation("wrong-shape", "%s: shape %s, expected %s" % (tag, res.shape, data.shape[:-2]+osh[-2:]))
			d = maps.wcs_diff(res.wcs, ow, osh)
			if d: raise Violation("wrong-coordinates", tag+": "+d)
			if cyl: sky_check(tag, res, data, wcs, isinstance(wrap,str) or wrap != 0)
			else: cmp(tag, res, *pixbox_model(data, wcs, np.array([[off[1],off[0]],[off[1]+osh[-2],off[0]+osh[-1]]]), [0,0]))
		return chk, ()
	def do_stamps(owner):
		n = int(r.integers(1,4)); sh = int(r.integers(1,9)) if r.random() < 0.5 else (int(r.integers(1,9)),int(r.integers(1,9)))
		pos = np.array([[int(r.integers(-9,data.shape[-2]+2)),int(r.integers(-9,data.shape[-1]+2))] for i in range(n)]); aslist = bool(r.random() < 0.5)
		p0 = pos.copy(); res = owner.stamps(pos, sh, aslist=aslist)
		if not np.array_equal(pos,p0): raise Violation("argument-modified", "the stamp positions were modified")
		hw = np.zeros(2,int)+sh
		def chk(tag):
			if len(res) != n or isinstance(res, list) != aslist: raise Violation("wrong-shape", "%s: %d stamps (%s), expected %d" % (tag, len(res), type(res).__name__, n))
			for i in range(n):
				b = np.array([pos[i],pos[i]+hw]); want, w2 = pixbox_model(data, wcs, b, [0,0])
				y, x = np.arange(b[0,0],b[1,0]), np.arange(b[0,1],b[1,1])
				out = ~(((y>=0)&(y<data.shape[-2]))[:,None]&((x>=0)&(x<data.shape[-1]))[None])
				if data.dtype.kind == "f": want[...,out] = np.nan
				got = np.array(res[i])
				if got.shape != want.shape: raise Violation("wrong-shape", "%s: stamp %d has shape %s, expected %s" % (tag, i, got.shape, want.shape))
				if data.dtype.kind != "f": got[...,out] = 0
				if not maps.bits_equal(got, want): raise Violation("wrong-pixels", "%s: stamp %d at %s differs from the map" % (tag, i, pos[i].tolist()))
				if aslist or i == 0:
					d = maps.wcs_diff(res[i].wcs, w2, got.shape)
					if d: raise Violation("wrong-coordinates", "%s stamp %d: %s" % (tag, i, d))
		return chk, ()
	def rwrap():
		return "auto" if r.random() < 0.6 else [0,[0,nphi]][r.integers(2)]
	if op == "wcs":
		if w["kind"] == "npy": return None
		w2 = wcs.deepcopy(); w2.wcs.crval = [wcs.wcs.crval[0]+10*int(r.integers(1,5)), wcs.wcs.crval[1]]; w2.wcs.crpix = wcs.wcs.crpix+[int(r.integers(-3,4)),0]
		sel = rsel(r, data.shape)
		res = enmap.read_map(name, sel=sel, wcs=w2, **kw, **th)
		return (lambda tag, *x: cmp(tag+" given wcs", *x)), (res, data[sel], sliced_wcs(w2, data.shape, pixparts(sel, data.ndim)))
	if op == "mem":
		m = enmap.read_map(name, **kw, **th); sub = a["sub"]
		if sub == "sel": return do_sel(lambda sel: m[sel])
		if sub == "pixbox": return do_pixbox(lambda b, wrap: m.extract_pixbox(b, wrap=wrap))
		if sub == "geo": return do_geo(lambda g, wrap: m.extract(*g, wrap=wrap))
		if sub == "stamps": return do_stamps(m)
		if not cyl: return None
		return do_box(lambda box, mode, rec, wrap: m.submap(box, mode=mode, recenter=rec, wrap=wrap))
	if op == "geo": return do_geo(lambda g, wrap: enmap.read_map(name, geometry=g, wrap=wrap, **kw, **th))
	if op == "full":
		res = enmap.read_map(name, **kw, **th); return cmp, (res, data, wcs)
	if op == "sel": return do_sel(lambda sel: enmap.read_map(name, sel=sel, **kw, **th))
	if op == "name":
		parts = [rslice(r, data.shape[-2]), rslice(r, data.shape[-1])]
		f = lambda s: "%s:%s%s" % ("" if s.start is None else s.start, "" if s.stop is None else s.stop, "" if s.step == 1 else ":%s"%s.step)
		txt = ":[...,%s,%s]" % (f(parts[0]),f(parts[1])); sel = (Ellipsis,)+tuple(parts)
		if r.random() < 0.4 and w["kind"] not in ("hdfgroup","npy"):
			sh, w2 = enmap.read_map_geometry(name+txt, **kw)
			return (lambda tag: geomcheck(tag+" "+txt, sh, w2, data[sel].shape, sliced_wcs(wcs, data.shape, parts))), ()
		return (lambda tag, *x: cmp(tag+" "+txt, *x)), (enmap.read_map(name+txt, **kw, **th), data[sel], sliced_wcs(wcs, data.shape, parts))
	if op == "geom":
		if w["kind"] == "npy": return None
		sh, w2 = enmap.read_map_geometry(name, **kw); dt = enmap.read_map_dtype(name, **kw) if w["kind"] != "comp" else data.dtype
		def chk(tag):
			geomcheck(tag, sh, w2, data.shape, wcs)
			if np.dtype(dt).newbyteorder("=") != data.dtype: raise Violation("wrong-dtype", "%s: dtype %s, expected %s" % (tag, dt, data.dtype))
		return chk, ()
	if op == "pixbox":
		if r.random() < 0.2:
			b = rpixbox(r, data.shape, nphi, w["wide"], cyl); full, w2 = pixbox_model(data, wcs, b, [0,nphi] if cyl else [0,0])
			sel = rsel(r, full.shape); res = enmap.read_map(name, pixbox=b, sel=sel, **({} if cyl else dict(wrap=0)), **kw, **th)
			return (lambda tag, *x: cmp("%s pixbox %s then %s" % (tag, b.tolist(), sel), *x)), (res, full[sel], sliced_wcs(w2, full.shape, pixparts(sel, full.ndim)))
		return do_pixbox(lambda b, wrap: enmap.read_map(name, pixbox=b, wrap=wrap, **kw, **th))
	if op == "box":
		if not cyl: return None
		return do_box(lambda box, mode, rec, wrap: enmap.read_map(name, box=box, mode=mode, wrap=wrap, **(dict(recenter=rec) if rec or r.random()<0.5 else {}), **kw, **th))
	if op == "prox":
		k = a["which"]
		if k not in prox: prox[k] = enmap.read_map(name, delayed=True, **kw, **th)
		p = prox[k]
		if tuple(p.shape) != data.shape or p.dtype.newbyteorder("=") != data.dtype or p.ndim != data.ndim or p.npix != data.shape[-2]*data.shape[-1]: raise Violation("wrong-shape", "delayed map has shape %s dtype %s, expected %s %s" % (p.shape, p.dtype, data.shape, data.dtype))
		if a["sub"] == "sel": return do_sel(lambda sel: p[sel])
		if a["sub"] == "same": return cmp, (p[:], data, wcs)
		if a["sub"] == "geo": return do_geo(lambda g, wrap: p.extract(*g, wrap=wrap))
		if a["sub"] == "stamps": return do_stamps(p)
		if a["sub"] == "pixbox": return do_pixbox(lambda b, wrap: p.extract_pixbox(b, wrap=wrap))
		if not cyl: return None
		return do_box(lambda box, mode, rec, wrap: p.submap(box, mode=mode, wrap=wrap, **(dict(recenter=rec) if rec or r.random()<0.5 else {})))
def geomcheck(tag, sh, w2, shape, wcs):
	if tuple(sh) != tuple(shape): raise Violation("wrong-shape", "%s: geometry has shape %s, expected %s" % (tag, sh, shape))
	d = maps.wcs_diff(w2, wcs, shape)
	if d: raise Violation("wrong-coordinates", tag+": "+d)
