"""C15: a map processed in padded tiles, in one loop or spread over tasks, is the map processed at once."""
ID    = "C15"
NCASE = {"quick": 1500, "thorough": 50000}
RULE  = "case = random map shape, geometry (axis directions, partial or full circle of the sky, plain), leading axes and dtype, tile shape, padding and margin, 1-5 ranks that take every nth tile and sum their outputs, one or two loops per rank advanced in seeded order, loops abandoned part-way and started over, margins of output tiles and whole input tiles overwritten by the consumer; or a healpix map resampled in row blocks by 1-5 ranks; executed under 2 seeded communication schedules; non-trivial when there is more than one tile"
MEASURE = "64-bit hash of the sequence of ranks chosen at every communication step combined with the workload"
REAL  = ["pixell/enmap.py padtiles, Padtiler, extract_pixbox, insert", "pixell/utils.py allreduce, zip2", "pixell/reproject.py ivar_hp_to_cyl"]
STUB  = ["mpi4py communicator -> simulated ranks (simlib/mpi.py)"]
ASSUME = ["communication is reliable, as MPI guarantees", "the tile shape divides the map width if the map goes around the sky, and the padding is at most half the tile, as documented"]
import numpy as np, threading, warnings
from simlib.core import Violation, np_rng
from simlib import mpi
from simlib.ompcheck import close
from pixell import enmap, utils, reproject, coordinates, wcsutils
import pixell.mpi as pmpi
def setup():
	warnings.simplefilter("ignore")
	import healpy
	pmpi.COMM_WORLD = World()
class World:
	"""the world communicator as each simulated rank sees it"""
	local = threading.local()
	def __getattr__(self, name): return getattr(World.local.comm, name)
def gen(rng, tier, i):
	if rng.random() < 0.12: return dict(w=dict(mode="hp", seed=rng.getrandbits(32), n=rng.choice([1,2,3,5]), ny=rng.choice([1,40,99,100,101,199,200,230,345]), nx=rng.randint(1,6), rot=rng.random()<0.4, mask=rng.random()<0.6, ext=rng.random()<0.6), scheds=mpi.gen_specs(rng, 2))
	geo = rng.choice(["car","car","carflip","cea","sky","sky","skyflip","plain"])
	tx, ty = rng.choice([1,2,3,4,5,7]), rng.choice([1,2,3,4,6])
	w = dict(mode="tile", seed=rng.getrandbits(32), n=rng.choice([1,2,2,3,5]), geo=geo, ty=ty, tx=tx, py=rng.randint(0,ty//2), px=rng.randint(0,tx//2), my=rng.choice([0,0,1,3]), mx=rng.choice([0,1,2,5]), ny=rng.randint(1,13), nx=rng.randint(1,15), pre=rng.choice([[],[],[2],[1,3]]), dt=rng.choice(["f8","f8","f4"]), maps=rng.choice(["rw","rw","rw","rrw","rww","wr","w","r"]), loops=rng.choice([1,1,2]), abandon=rng.random()<0.3, junk=rng.random()<0.6, api=rng.choice(["padtiles","padtiles","Padtiler"]), scalar=rng.random()<0.3)
	if geo.startswith("sky"): w["nx"] = rng.choice([k for k in (1,2,3,4) if k*tx >= 2 or True])*tx
	if geo == "plain" and rng.random() < 0.5: w["nx"] = tx*rng.randint(1,3)
	return dict(w=w, scheds=mpi.gen_specs(rng, 2))
def shrink(case): yield from mpi.shrink(case, shrink_w)
def shrink_w(w):
	for k,v in dict(n=1,pre=[],loops=1,abandon=False,junk=False,geo="car",maps="rw",dt="f8",api="padtiles").items():
		if k in w and w[k] != v and not (k == "geo" and w["mode"] == "hp"): yield dict(w, **{k:v})
	for k in ("ny","my","mx","py","px"):
		if w.get(k,0) > (k == "ny"): yield dict(w, **{k:w[k]-1})
def geometry(w):
	g, ny, nx = w["geo"], w["ny"], w["nx"]
	if g == "plain": return (ny,nx), wcsutils.explicit(ctype=["",""], crval=[0,0], crpix=[1,1], cdelt=[1,1] if w["seed"]%3 else [360/nx,2])
	if g.startswith("sky"):
		wcs = wcsutils.explicit(ctype=["RA---CAR","DEC--CAR"], crval=[0,0], crpix=[nx/2+0.5,ny/2+0.5], cdelt=[-360/nx,5]); 
		if g == "skyflip": wcs.wcs.cdelt = [360/nx,-5]
		return (ny,nx), wcs
	wcs = wcsutils.explicit(ctype=["RA---CEA" if g == "cea" else "RA---CAR","DEC--CEA" if g == "cea" else "DEC--CAR"], crval=[30,0], crpix=[nx-3.5,ny+2], cdelt=[-0.5,0.5])
	if g == "carflip": wcs.wcs.cdelt = [0.5,-0.5]
	return (ny,nx), wcs
def model_tile(w, full, ti):
	"""what tile ti shows of the map"""
	ny, nx = w["ny"], w["nx"]; ntx = -(-nx//w["tx"]); gy, gx = w["py"]+w["my"], w["px"]+w["mx"]
	ty, tx = ti//ntx, ti%ntx
	ys = np.arange(ty*w["ty"]-gy, (ty+1)*w["ty"]+gy); xs = np.arange(tx*w["tx"]-gx, (tx+1)*w["tx"]+gx)
	if w["geo"].startswith("sky"): wx = xs%nx; okx = np.ones(len(xs),bool)
	else: wx = np.clip(xs,0,nx-1); okx = (xs>=0)&(xs<nx)
	oky = (ys>=0)&(ys<ny)
	return full[...,np.clip(ys,0,ny-1),:][...,wx]*(oky[:,None]&okx[None,:]), ys, xs
def run(case, ctx):
	w = case["w"]
	if w["mode"] == "hp": return run_hp(case, ctx)
	r = np_rng(w["seed"]); shape, wcs = geometry(w); pre = tuple(w["pre"]); dt = np.dtype(w["dt"]); n = w["n"]
	nty, ntx = -(-w["ny"]//w["ty"]), -(-w["nx"]//w["tx"]); ntile = nty*ntx
	mk = lambda: enmap.ndmap(r.standard_normal(pre+shape).astype(dt), wcs)
	ins = [mk() for k in range(w["maps"].count("r"))]; keep = [np.array(m) for m in ins]
	nout = w["maps"].count("w"); coef = [r.standard_normal(len(ins)) for k in range(nout)]; const = r.standard_normal(nout)
	ramp = r.standard_normal(2)
	pix = np.mgrid[:w["ny"],:w["nx"]].astype(float)
	if w["geo"].startswith("sky"): local = pix[0]*ramp[0]
	else: local = pix[0]*ramp[0]+pix[1]*ramp[1]
	want = [const[k]+local+sum(c*np.asarray(m,float) for c,m in zip(coef[k],keep)) for k in range(nout)]
	want = [np.broadcast_to(x, pre+shape) for x in want]
	arg = dict(tshape=(w["ty"],w["tx"]), pad=(w["py"],w["px"]), margin=(w["my"],w["mx"]))
	if w["scalar"]:
		for k in list(arg):
			if arg[k][0] == arg[k][1]: arg[k] = arg[k][0]
	tol = 1e-10 if w["dt"] == "f8" else 1e-4; base = wcsutils.explicit
	seen = [[] for k in range(n)]
	def loop(rank, outs, stop=None):
		"""one pass over the tiles of this rank, yielding after every tile"""
		kw = dict(arg, start=rank, step=n)
		mode = w["maps"]; it, ot = iter(ins), iter(outs); maps = [next(it) if c == "r" else next(ot) for c in mode]
		if w["api"] == "padtiles":
			auto = mode in ("r","rw","rrw")
			gen_ = enmap.padtiles(*maps, **kw) if auto else enmap.padtiles(*maps, mode=mode, **kw)
		else:
			T = enmap.Padtiler(**kw); gen_ = utils.zip2(*[T.read(m) if c == "r" else T.write(m) for m,c in zip(maps,mode)])
		ti = rank; rr = np_rng(w["seed"], rank)
		for tiles in gen_:
			if not isinstance(tiles, (tuple,list)): tiles = (tiles,)
			if ti >= ntile: raise Violation("extra-tile", "tile %d of %d was visited" % (ti, ntile))
			if len(tiles) != len(mode): raise Violation("tile", "%d tiles for %d maps" % (len(tiles), len(mode)))
			I = [t for t,c in zip(tiles,mode) if c == "r"]; O = [t for t,c in zip(tiles,mode) if c == "w"]
			for t,m in zip(I, keep):
				mt, ys, xs = model_tile(w, m, ti)
				close("tile-content", np.array(t,float), np.asarray(mt,float), 0, what="input tile %d" % ti)
			mt, ys, xs = model_tile(w, np.zeros(shape), ti)
			for t in tiles:
				if t.shape != pre+(len(ys),len(xs)): raise Violation("tile", "tile %d has shape %s" % (ti, t.shape))
				a, b = t.wcs.wcs_pix2world([[0,0],[1,1]],0), wcs.wcs_pix2world([[xs[0],ys[0]],[xs[0]+1,ys[0]+1]],0)
				d = (a-b); 
				if w["geo"] != "plain": d = (d+180)%360-180
				if np.max(np.abs(d)) > 1e-7: raise Violation("tile-coordinates", "tile %d is at %s, expected %s" % (ti, a.tolist(), b.tolist()))
			for t in O:
				if np.any(np.array(t)): raise Violation("tile-content", "output tile %d does not start out empty" % ti)
			# the pixel-local operation
			loc = ys[:,None]*ramp[0]+(0 if w["geo"].startswith("sky") else xs[None,:]*ramp[1])
			for k,t in enumerate(O):
				t[:] = const[k]+loc+sum(c*np.asarray(m,float) for c,m in zip(coef[k],I))
				if w["junk"]:
					m = np.ones(t.shape[-2:],bool); m[w["my"]:t.shape[-2]-w["my"],w["mx"]:t.shape[-1]-w["mx"]] = False
					t[...,m] = 1e5*rr.standard_normal(int(m.sum()))
			if w["junk"]:
				for t in I: t[:] = -77
			seen[rank].append(ti); ti += n
			if stop is not None and (ti-rank)//n > stop: gen_.close() if hasattr(gen_,"close") else None; return
			yield
		if ti < ntile: raise Violation("missing-tile", "tile %d of %d was not visited" % (ti, ntile))
	def fn(comm):
		rr = np_rng(w["seed"], comm.rank, 1); seen[comm.rank] = []
		fresh = lambda: [enmap.zeros(pre+shape, wcs, dt) for k in range(nout)]
		if w["abandon"]:
			for _ in loop(comm.rank, fresh(), stop=int(rr.integers(3))): pass
		sets = [fresh() for k in range(w["loops"])]; live = [loop(comm.rank, o) for o in sets]
		while live:
			g = live[int(rr.integers(len(live)))]
			try: next(g)
			except StopIteration: live.remove(g)
		return [[enmap.ndmap(utils.allreduce(np.asarray(o), comm), wcs) for o in outs] for outs in sets]
	def check(res):
		for k in range(n):
			for outs in res[k]:
				for o,t in zip(outs, want): close("result", np.array(o,float), t, tol*10, what="processed map on rank %d" % k)
		for m,q in zip(ins,keep):
			if not np.array_equal(np.asarray(m),q): raise Violation("input-modified", "the input map was changed")
	ctx.probe("maps_"+w["maps"]); ctx.probe("geo_"+w["geo"]); ctx.probe("partial_tiles", w["ny"]%w["ty"] > 0 or w["nx"]%w["tx"] > 0)
	if w["abandon"]: ctx.fault("loop_abandoned", n)
	mpi.run_specs(case, ctx, n, fn, check, nontrivial=w if ntile > 1 else None)
	ctx.sample({"ranks": n, "tiles": ntile, "maps": w["maps"], "geo": w["geo"]})

def run_hp(case, ctx):
	import healpy as hp
	w = case["w"]; r = np_rng(w["seed"]); ns = int(r.choice([1,2,4])); n = w["n"]
	hm = r.standard_normal(12*ns**2)+0.5; hm[r.random(hm.size) < 0.1] = hp.UNSEEN; keep = hm.copy()
	shape, wcs = (w["ny"],w["nx"]), wcsutils.explicit(ctype=["RA---CAR","DEC--CAR"], crval=[float(r.uniform(-170,170)),0], crpix=[w["nx"]/2,w["ny"]/2+3.3], cdelt=[-9.1,0.35])
	dec, ra = enmap.posmap(shape, wcs)
	if w["rot"]: ra, dec = coordinates.transform("equ","gal",np.array([ra,dec]))
	pix = hp.ang2pix(ns, np.pi/2-np.asarray(dec), np.asarray(ra)); v = hm.astype(np.float32)
	if w["mask"]: v[hp.mask_bad(v) | (v <= 0)] = 0
	want = v[pix].astype(float)
	d1, d2 = [enmap.pix2sky(shape, wcs, [np.arange(w["ny"])+o, np.zeros(w["ny"])])[0] for o in (-0.5,0.5)]
	if w["ext"]: want *= (np.abs(np.sin(d2)-np.sin(d1))*9.1*np.pi/180/(4*np.pi/hm.size))[:,None]
	def fn(comm):
		World.local.comm = comm
		return reproject.ivar_hp_to_cyl(hm, shape, wcs, rot=w["rot"], do_mask=w["mask"], extensive=w["ext"])
	def check(res):
		for k in range(n):
			if res[k].shape != (1,)+shape: raise Violation("result", "the map has shape %s" % (res[k].shape,))
			close("result", np.array(res[k][0],float), want, 1e-5, what="resampled map on rank %d" % k)
		if not np.array_equal(hm, keep): raise Violation("input-modified", "the healpix map was changed")
	ctx.probe("healpix"); mpi.run_specs(case, ctx, n, fn, check, nontrivial=w if w["ny"] > 100 else None)
