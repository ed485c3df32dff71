"""C06: distributed tiled maps: collecting, redistributing and writing conserve every tile's sum
for every tile ownership pattern and every communication schedule."""
ID    = "C06"
NCASE = {"quick": 2400, "thorough": 80000}
RULE  = "case = random map and tile shapes (tiles not dividing the map), 1-6 ranks, a short local history of tiled-map operations on each rank (construct, add, subtract, extend, in-place), tile ownership in any order with overlaps, gaps and empty ranks, then redistribute (automatic, given, into an existing map) / reduce to any root / write / tree reduction; executed under 3 seeded communication schedules; non-trivial when there is more than one rank and at least one rank switch"
MEASURE = "64-bit hash of the sequence of ranks chosen at every communication step combined with the workload"
REAL  = ["pixell/tilemap.py", "pixell/utils.py communication helpers", "pixell/enmap.py write_map"]
STUB  = ["mpi4py communicator -> simulated ranks, collectives and messages (simlib/mpi.py)", "map_reduce.distlib (not installed) -> generated reduction plan", "file system: real files in a scratch directory, no faults in this check"]
ASSUME = ["communication is reliable, as MPI guarantees", "all ranks use the same tiling and dtype"]
import numpy as np, os, sys, types, itertools
from simlib.core import Violation, np_rng
from simlib import mpi
from simlib.ompcheck import close
from pixell import enmap, tilemap, utils

def gen(rng, tier, i):
	w = dict(seed=rng.getrandbits(32), n=rng.choice([1,2,2,3,3,4,6]), op=rng.choice(["auto","auto","active","active","omap","reduce","reduce","write","tree","chain","owners"]),
		ny=rng.randint(1,14), nx=rng.randint(1,14), ty=rng.randint(1,6), tx=rng.randint(1,6), pre=rng.choice([[],[],[1],[3],[2,2]]), dt=rng.choice(["f8","f8","f4","i4","i8"]), dens=rng.choice([0.1,0.4,0.4,0.8,1.0]), sort=rng.random()<0.4, hist=rng.choice([0,1,2,3,6]), empty=rng.random()<0.2, root=0)
	w["root"] = rng.randrange(w["n"])
	return dict(w=w, scheds=mpi.gen_specs(rng, 3))

def rand_active(r, ntile, w):
	a = np.nonzero(r.random(ntile) < w["dens"])[0]
	if w["empty"] and r.random() < 0.5: a = a[:0]
	if not w["sort"]: a = r.permutation(a)
	return a

class Model:
	"""dense map plus the set of tiles that are owned"""
	def __init__(self, w, geo):
		self.full = np.zeros(tuple(w["pre"])+(w["ny"],w["nx"])); self.own = set()
def tile_slice(w, gi):
	gx = (w["nx"]+w["tx"]-1)//w["tx"]
	y, x = gi//gx*w["ty"], gi%gx*w["tx"]
	return (Ellipsis, slice(y,min(y+w["ty"],w["ny"])), slice(x,min(x+w["tx"],w["nx"])))

def build_local(w, r, geo0, ntile, dt):
	"""One rank's map through a short history of operations, with its dense model."""
	def fresh():
		act  = rand_active(r, ntile, w)
		geo  = geo0.copy(active=act)
		vals = r.integers(-50,50,tuple(w["pre"])+(w["ny"],w["nx"])).astype(dt)
		kind = r.integers(3)
		full = np.zeros(vals.shape)
		for gi in act: full[tile_slice(w,gi)] = vals[tile_slice(w,gi)]
		if kind == 0:
			m = tilemap.zeros(geo, dt)
			for gi in act: m.tiles[int(gi)] = vals[tile_slice(w,gi)]
		elif kind == 1:
			m = tilemap.empty(geo, dt)
			for ai, gi in enumerate(act): m.active_tiles[ai] = vals[tile_slice(w,gi)]
		else:
			if len(act) == 0: m = tilemap.zeros(geo, dt)
			else: m = tilemap.from_active_tiles([enmap.enmap(vals[tile_slice(w,gi)]) for gi in act], geo)
		return m, full, [int(a) for a in act]
	m, full, own = fresh()
	join = lambda a, b: a+[x for x in b if x not in a]
	npre = len(w["pre"])
	for k in range(w["hist"]):
		m2, full2, own2 = fresh()
		keep = np.array(m), np.array(m2), list(m.active), list(m2.active)
		old, old2 = m, m2
		o = r.integers(21); inplace = False
		if   o == 0: m = m+m2; full = full+full2; own = join(own,own2)
		elif o == 1: m = m-m2; full = full-full2; own = join(own,own2)
		elif o == 2: m = m.with_tiles(m2); own = join(own,own2)
		elif o == 3:
			m = m.with_tiles(m2, strict=True)
			f = np.zeros(full.shape)
			for gi in own2: f[tile_slice(w,gi)] = full[tile_slice(w,gi)]
			full, own = f, own2
			if list(m.active) != own2: raise Violation("tile-order", "strict extension has tiles %s, expected %s" % (list(m.active), own2))
		elif o == 4:
			inplace = True; sub = r.integers(2)
			if set(own2) <= set(own):
				if sub: m += m2; full = full+full2
				else:   m -= m2; full = full-full2
			else:
				try: m += m2
				except ValueError: pass
				else: raise Violation("inplace-extended", "adding a map with tiles %s in place to one with %s did not raise" % (own2, own))
		elif o == 5: m = m*3; full = full*3
		elif o == 6:
			# elementwise operations on maps with the same tiles
			m3 = m2.with_tiles(m, strict=True); f3 = np.zeros(full.shape)
			for gi in own:
				if gi in own2: f3[tile_slice(w,gi)] = full2[tile_slice(w,gi)]
			q = r.integers(5)
			if q == 0: c, want = m > m3, full > f3
			elif q == 1: c, want = m == m3, full == f3
			elif q == 2: c, want = m*m3, full*f3
			elif q == 3: c, want = m-m3, full-f3
			else: c, want = np.maximum(m, m3), np.maximum(full, f3)
			if not isinstance(c, tilemap.TileMap): raise Violation("type", "an elementwise operation gave %s" % type(c))
			check_local(w, c, want, own, "elementwise operation %d" % q)
		elif o == 7:
			m = m.insert(m2); own = join(own,own2)
			full = full.copy()
			for gi in own2: full[tile_slice(w,gi)] = full2[tile_slice(w,gi)]
		elif o == 8:
			m = tilemap.insert(m, m2, op=lambda a,b: a+2*b); full = full+2*full2; own = join(own,own2)
		elif o == 9:
			if r.random() < 0.5: m = m.with_tiles("all"); own = join(own, list(range(ntile)))
			else: m = m.with_tiles([int(x) for x in own2]); own = join(own,own2)
		elif o == 10:
			m = m.copy() if r.random() < 0.5 else m.contig()
		elif o == 11 and len(own):
			# part of a tile, read and written
			gi = int(own[r.integers(len(own))]); th, tw = full[tile_slice(w,gi)].shape[-2:]
			sl = (Ellipsis, slice(int(r.integers(th)),None,int(r.integers(1,3))), slice(None,int(r.integers(1,tw+1))))
			if npre and r.random() < 0.5: sl = (int(r.integers(w["pre"][0])),)+((slice(None),)*(npre-1))+sl[1:]
			act = r.random() < 0.5; view = m.active_tiles if act else m.tiles; idx = list(m.active).index(gi) if act else gi
			close("tile-content", np.array(view[(idx,)+sl],float), full[tile_slice(w,gi)][sl], 0, what="part of tile %d" % gi)
			m = m.copy(); view = m.active_tiles if act else m.tiles
			val = int(r.integers(100)); view[(idx,)+sl] = val
			full = full.copy(); full[tile_slice(w,gi)][sl] = val
		elif o == 12 and npre:
			# drop or shorten a leading axis
			q = int(r.integers(w["pre"][0]))
			c = m[q]; check_local(w, c, full[q], own, "map[%d]" % q)
			c = m[q:]; check_local(w, c, full[q:], own, "map[%d:]" % q)
			if tuple(c.geometry.shape) != full[q:].shape: raise Violation("geometry", "map[%d:] has geometry %s" % (q, c.geometry.shape))
		elif o == 13 and npre == 1:
			mat = r.integers(-3,4,(w["pre"][0],w["pre"][0],m.shape[-1]))
			c = tilemap.map_mul(mat, m)
			close("matrix-product", np.array(c,float), np.einsum("abi,bi->ai", mat, np.array(m,float)), 0, what="matrix product")
			if not isinstance(c, tilemap.TileMap) or list(c.active) != list(m.active): raise Violation("type", "the matrix product lost the tiling")
			close("matrix-product", np.array(tilemap.map_mul(2,m),float), 2*np.array(m,float), 0, what="scalar product")
		elif o == 14:
			# maps with another tiling or size are refused
			og = tilemap.geometry(geo0.shape[:-2]+(w["ny"]+(1 if r.random()<0.5 else 0),w["nx"]), geo0.wcs, tile_shape=(w["ty"]+1,w["tx"]), active=[])
			try: m+tilemap.zeros(og, dt)
			except ValueError: pass
			else: raise Violation("incompatible-accepted", "adding maps with different tilings did not raise")
		elif o == 15:
			tl = list(m.tiles)
			if len(own): m = tilemap.from_tiles(tl, geo0)
		elif o == 16:
			for bad in (len(own), -1-len(own)):
				try: m.active_tiles[bad]
				except IndexError: pass
				else: raise Violation("index", "active tile %d of %d exists" % (bad, len(own)))
			for gi in range(ntile):
				if gi in own: continue
				if m.tiles[gi] is not None: raise Violation("tile-set", "tile %d is present" % gi)
				try: m.tiles[gi] = 1
				except IndexError: pass
				else: raise Violation("index", "writing to the absent tile %d did not raise" % gi)
				break
		elif o == 17:
			if len(m.active_tiles) != len(own) or len(m.tiles) != ntile or m.nactive != len(own) or m.geometry.size != int(np.prod(w["pre"],dtype=int))*sum(full[tile_slice(w,gi)].shape[-1]*full[tile_slice(w,gi)].shape[-2] for gi in own): raise Violation("geometry", "wrong tile or pixel counts")
		elif o == 18:
			# the result owns its values
			for c in (m.with_tiles(old), m.with_tiles(old, strict=True), m.copy(), m+0, m.with_tiles(m2)):
				if r.random() < 0.5: c += 1
				else: c[...] = -1
		elif o == 19 and npre:
			# operands with fewer leading axes
			if r.random() < 0.4: f2, o2 = np.zeros(full2.shape[1:]), list(own); l2 = m[0]*0+2; f2 += 2
			else: l2 = m2[0].contig(); f2, o2 = full2[0].copy(), own2
			for gi in range(ntile):
				if gi not in o2: f2[tile_slice(w,gi)] = 0
			if r.random() < 0.5: m, full = m+l2, full+f2
			else:
				c = l2+m; m = c; full = f2+full
			own = join(own, o2)
			if tuple(m.geometry.shape) != full.shape: raise Violation("geometry", "the sum has geometry %s" % (m.geometry.shape,))
		elif o == 20 and npre:
			c = m[::-1].contig(); check_local(w, c, full[::-1], own, "reversed map")
			if not c.flags["C_CONTIGUOUS"]: raise Violation("type", "contig gave a non-contiguous map")
			c = m[:1].contig()
			if len(own):
				# a geometry without the leading axes of its tiles
				g = tilemap.geometry((w["ny"],w["nx"]), geo0.wcs, tile_shape=(w["ty"],w["tx"]), active=list(m.active))
				c = tilemap.from_active_tiles(list(m.active_tiles), g); check_local(w, c, full, own, "map from tiles")
				if tuple(c.geometry.shape) != full.shape: raise Violation("geometry", "map from tiles has geometry %s" % (c.geometry.shape,))
				c = tilemap.from_tiles(list(m.tiles), g); check_local(w, c, full, own, "map from tiles")
		if not inplace and (not np.array_equal(keep[0],np.array(old)) or keep[2] != list(old.active)): raise Violation("input-modified", "operation %d changed its first argument" % o)
		if not np.array_equal(keep[1],np.array(old2)) or keep[3] != list(old2.active): raise Violation("input-modified", "operation %d changed its second argument" % o)
	check_local(w, m, full, own, "locally built map")
	return m, full, own

def check_local(w, m, full, own, what):
	if sorted(int(a) for a in m.active) != sorted(own): raise Violation("tile-set", "%s has active tiles %s, expected %s" % (what, sorted(map(int,m.active)), sorted(own)))
	tiles = list(m.tiles)
	for gi, t in enumerate(tiles):
		if (t is None) != (gi not in own): raise Violation("tile-set", "%s: tile %d is %s" % (what, gi, "missing" if t is None else "present"))
		if t is None: continue
		close("tile-content", np.array(t,float), full[tile_slice(w,gi)], 0, what="%s, tile %d" % (what, gi))
		sl = tile_slice(w,gi); y, x = sl[1].start, sl[2].start
		for g in (t.wcs, m.geometry.tiles[gi].wcs):
			a, b = g.wcs_pix2world([[0,0],[1,1]],0), m.geometry.wcs.wcs_pix2world([[x,y],[x+1,y+1]],0)
			if np.max(np.abs(a-b)) > 1e-9: raise Violation("tile-coordinates", "%s, tile %d is at %s, expected %s" % (what, gi, a.tolist(), b.tolist()))
	for ai, t in enumerate(m.active_tiles):
		gi = int(m.active[ai]); close("tile-content", np.array(t,float), full[tile_slice(w,gi)], 0, what="%s, active tile %d" % (what, ai))
		close("tile-content", np.array(m.active_tiles[ai],float), full[tile_slice(w,gi)], 0, what="%s, active tile %d" % (what, ai))
		a, b = t.wcs.wcs_pix2world([[0,0]],0), m.geometry.wcs.wcs_pix2world([[tile_slice(w,gi)[2].start,tile_slice(w,gi)[1].start]],0)
		if np.max(np.abs(a-b)) > 1e-9: raise Violation("tile-coordinates", "%s, active tile %d is at %s, expected %s" % (what, ai, a.tolist(), b.tolist()))
	f = np.zeros(full.shape)
	for gi in own: f[tile_slice(w,gi)] = full[tile_slice(w,gi)]
	close("dense-map", np.array(tilemap.to_enmap(m),float), f, 0, what="%s as one map" % what)

def run(case, ctx):
	w = case["w"]; r = np_rng(w["seed"]); dt = np.dtype(w["dt"]); n = w["n"]
	shape, wcs = enmap.geometry(pos=(0.1,0.2), shape=(w["ny"],w["nx"]), res=0.01, proj="car")
	pre = tuple(w["pre"])
	geo0 = tilemap.geometry(pre+tuple(shape[-2:]), wcs, tile_shape=(w["ty"],w["tx"]))
	ntile = geo0.ntile
	if w["op"] in ("omap","active") : act_out = [rand_active(r, ntile, w) for k in range(n)]
	locs = [build_local(w, r, geo0, ntile, dt) for k in range(n)]
	total = sum(l[1] for l in locs)
	anyown = sorted(set().union(*[set(l[2]) for l in locs]))
	cnt = {gi: sum(gi in l[2] for l in locs) for gi in range(ntile)}
	op = w["op"]
	ctx.probe("op_"+op); ctx.probe("tiles_with_several_owners", sum(c>1 for c in cnt.values())); ctx.probe("unsorted_ownership", sum(list(l[0].active)!=sorted(l[0].active) for l in locs))
	keep = [np.array(l[0]) for l in locs]; keepact = [list(l[0].active) for l in locs]
	def total_in(own):
		f = np.zeros(total.shape)
		for gi in own:
			if cnt[gi]: f[tile_slice(w,gi)] = total[tile_slice(w,gi)]
		return f
	plan = None
	if op == "tree":
		holders = {gi: [k for k in range(n) if gi in locs[k][2]] for gi in range(ntile)}
		ops2 = []
		for gi, h in holders.items():
			h = list(h)
			while len(h) > 1:
				s = h.pop(int(r.integers(len(h)))); ops2.append((int(gi), int(s), int(h[int(r.integers(len(h)))])))
		# interleave tiles but keep each tile's own order
		per = {}
		for o in ops2: per.setdefault(o[0], []).append(o)
		ops = []
		while per:
			gi = list(per)[int(r.integers(len(per)))]; ops.append(per[gi].pop(0))
			if not per[gi]: del per[gi]
		plan = types.SimpleNamespace(ops=ops)
		mod = types.ModuleType("map_reduce"); dl = types.ModuleType("map_reduce.distlib"); mod.distlib = dl
		dl.Logistics = lambda active, comm: plan
		sys.modules["map_reduce"] = mod; sys.modules["map_reduce.distlib"] = dl
	odt = np.dtype("f8") if w["op"] == "omap" and w["seed"]%4 == 0 else dt   # accumulate in another precision
	fname = os.path.join(os.environ.get("VC_SCRATCH","/tmp"), "tile.fits")
	if os.path.exists(fname): os.unlink(fname)
	def fn(comm):
		m = locs[comm.rank][0]
		if op == "auto":     return tilemap.redistribute(m, comm)
		elif op == "active": return tilemap.redistribute(m, comm, active=act_out[comm.rank])
		elif op == "omap":
			om = tilemap.full(geo0.copy(active=act_out[comm.rank]), 77, odt)
			res = tilemap.redistribute(m, comm, omap=om)
			if res is not om and not np.shares_memory(res, om): raise Violation("output", "the given output map was not filled")
			return om
		elif op == "reduce": return tilemap.reduce(m, comm, root=w["root"])
		elif op == "chain":  return tilemap.reduce(tilemap.redistribute(tilemap.redistribute(m, comm), comm), comm, root=w["root"])
		elif op == "owners": return tilemap.get_active_distributed(m, comm)
		elif op == "write":  return tilemap.write_map(fname, m, comm, extra={"FOO":42})
		elif op == "tree":   return tilemap.tree_reduce(m, comm, plan=plan if w["seed"]%2 else None)
	def check(res):
		for k,(m,f,o) in enumerate(locs):
			if not np.array_equal(keep[k], np.array(m)) or list(m.active) != keepact[k]: raise Violation("input-modified", "the map of rank %d was changed" % k)
		if op == "owners":
			for k in range(n):
				if list(res[k]) != anyown: raise Violation("owners", "rank %d sees tiles %s as owned, expected %s" % (k, list(res[k]), anyown))
			return
		if op == "write":
			from astropy.io import fits
			with fits.open(fname) as h: data, hdr = np.array(h[0].data, float), h[0].header
			close("file-content", data, total_in(anyown), 0, what="written map")
			if hdr.get("FOO") != 42: raise Violation("file-content", "the extra header entry is missing")
			return
		for k in range(n):
			want = odt if op == "omap" else dt
			if res[k].dtype != want and res[k].size: raise Violation("dtype", "rank %d got dtype %s, expected %s" % (k, res[k].dtype, want))
			if tuple(res[k].geometry.shape) != pre+tuple(shape[-2:]) and res[k].size: raise Violation("geometry", "rank %d got geometry %s" % (k, res[k].geometry.shape))
		if op in ("auto","tree"):
			tot = [int(a) for k in range(n) for a in res[k].active]
			if sorted(tot) != anyown: raise Violation("tile-set", "tiles after distribution %s, expected each of %s exactly once" % (sorted(tot), anyown))
			for k in range(n): own = [int(a) for a in res[k].active]; check_local(w, res[k], total_in(own), own, "map of rank %d" % k)
			if op == "auto":
				c = [len(res[k].active) for k in range(n)]
				if max(c)-min(c) > 1: raise Violation("balance", "uneven automatic distribution: %s tiles per rank" % c)
		elif op in ("active","omap"):
			for k in range(n): own = [int(a) for a in act_out[k]]; check_local(w, res[k], total_in(own), own, "map of rank %d" % k)
		else:
			for k in range(n): own = anyown if k == w["root"] else []; check_local(w, res[k], total_in(own), own, "map of rank %d" % k)
			# The collected map as one image
			if len(anyown): close("collected-image", np.array(tilemap.to_enmap(res[w["root"]]),float), total_in(anyown), 0, what="collected image")
	mpi.run_specs(case, ctx, n, fn, check, w)
	ctx.sample(dict(w=w, sched=case["scheds"][0]))

def shrink(case):
	def sw(w):
		if w["n"] > 1: yield dict(w, n=w["n"]-1, root=min(w["root"],w["n"]-2))
		if w["pre"]: yield dict(w, pre=[])
		if w["hist"]: yield dict(w, hist=0); yield dict(w, hist=w["hist"]-1)
		for k in ("ny","nx"):
			if w[k] > 1: yield dict(w, **{k:max(1,w[k]//2)}); yield dict(w, **{k:w[k]-1})
		if w["dt"] != "f8": yield dict(w, dt="f8")
		if not w["sort"]: yield dict(w, sort=True)
		if w["empty"]: yield dict(w, empty=False)
	return mpi.shrink(case, sw)
