"""C13: the result of a call depends only on its arguments, not on the calls before it or in other threads."""
ID    = "C13"
NCASE = {"quick": 3600, "thorough": 60000}
DEADLINE = {"quick": 300, "thorough": 3000}
RULE  = "case = a history of 2-10 calls, drawn (60 % of the cases) from a library of about 290 call templates (geometry, fft, harmonic transforms, lensing, aberration, coordinates, interpolation, point sources, wavelets, multimaps, tile maps, utilities), parameters often differing in a single argument, on shared inputs and shared helper objects, spread over 1-3 tasks with seeded switches between executed lines, seeded interruptions (out of memory, keyboard interrupt) inside calls, results overwritten by the caller afterwards, and different garbage in fresh memory; or (40 %) single functions called as the templates call them and with one argument exchanged or changed; every result is compared with the same call made alone in a fresh copy of the process; non-trivial when a call that was not interrupted followed or overlapped another one"
MEASURE = "64-bit hash of the calls, the executed switches and the interruptions"
REAL  = ["pixell: enmap, wcsutils, utils, curvedsky, fft, lensing, aberration, coordinates, resample, reproject, uharm, wavelets, pointsrcs, multimap, tilemap, powspec, interpol, array_ops, colorize, analysis, bunch, cgrid, distances and their compiled kernels"]
STUB  = ["Python's thread scheduling -> baton passed at seeded lines", "fresh memory contents -> seeded garbage (numpy.empty)", "memory exhaustion and keyboard interrupts -> raised at seeded lines"]
ASSUME = ["threads do not write to arrays other threads use", "switches happen between lines of pixell's Python code, not inside compiled kernels or numpy", "functions drawing from numpy's global random stream are only put in single-thread histories", "a caller does not overwrite arrays owned by a helper object"]
import numpy as np, signal
from simlib.core import Violation, HarnessError, np_rng, hash64
from simlib import disk, omp, threads
threads.install()
from checks import calls, direct
from pixell import enmap
NAMES = sorted(calls.T)
def setup():
	# import what pixell imports lazily, so that the fresh copies do not have to
	import healpy, scipy.ndimage, scipy.interpolate, scipy.signal, scipy.special, scipy.integrate, h5py, astropy.io.fits, ducc0
	for m in ("scipy.optimize","scipy.stats","numba","PIL.Image","scipy.spatial"):
		try: __import__(m)
		except Exception: pass
	# compile what is compiled on first use
	from pixell import aberration
	for dt in "f8","f4":
		m = enmap.ndmap(np.ones((3,)+calls.geo("full")[0],dt), calls.geo("full")[1])
		aberration.boost_map(m, beta=0.01); aberration.demodulate_map(m, beta=0.01)
def gen(rng, tier, i):
	rnd = i//len(NAMES)
	if rnd % 5 in (1,3):
		# direct calls: 4 of the functions the template uses, each with its own arguments and then with others
		name = NAMES[i*101 % len(NAMES)]; p = [rng.randrange(6) for q in range(8)]; p2 = list(p)
		for q in range(8):
			if rng.random() < 0.4: p2[q] = rng.randrange(6)
		nt = rng.choice([1,1,1,2]); C = []; k0 = (rnd//5*2+(rnd % 5 == 3))*4
		for g in range(4):
			occ = [k0+g, rng.randrange(40)]
			for k in range(rng.choice([2,3,4])):
				if rng.random() < 0.15: occ = [k0+g, rng.randrange(40)]
				C.append(dict(occ=occ, mut=[rng.randrange(60),rng.randrange(60)] if k and rng.random() < 0.8 else None, task=rng.randrange(nt)))
		if rng.random() < 0.3: rng.shuffle(C)
		ab = [[rng.randrange(len(C)-1), rng.choice([1,2,3,5,8,13,21,34,55,90]), rng.choice(["memory","interrupt"])]] if rng.random() < 0.15 else []
		return dict(mode="direct", src=[[name,p],[name,p2]], seed=rng.getrandbits(32), calls=C, p=rng.choice([0.02,0.1,0.3,0.6]) if nt > 1 else 0.0, aborts=ab, dirty=rng.choice([0,1,2,3]), poison=rng.random()<0.6)
	ntask = rng.choice([1,1,2,2,3])
	n = rng.choice([2,3,4,6,10])
	out = []
	# every template is in focus equally often
	focus = [NAMES[i*101 % len(NAMES)]]+[rng.choice(NAMES) for k in range(rng.choice([0,0,1,2]))] if rng.random() < 0.8 else None
	for k in range(n):
		name = rng.choice(focus) if focus and rng.random() < 0.85 else rng.choice(NAMES)
		if ntask > 1 and name in calls.SERIAL: name = "posmap"
		prev = [c for c in out if c["t"] == name]
		if prev and rng.random() < 0.75:
			p = list(rng.choice(prev)["p"])
			if rng.random() < 0.8: j = rng.randrange(6); p[j] = (p[j]+1+rng.randrange(5)) % 6
		else: p = [rng.randrange(6) for q in range(8)]
		out.append(dict(t=name, p=p, task=rng.randrange(ntask)))
	ab = [[rng.randrange(n), rng.choice([1,2,3,5,8,13,21,34,55,90]) if rng.random() < 0.7 else rng.randrange(1,400), rng.choice(["memory","interrupt"])] for q in range(rng.choice([0,0,1,2]))]
	return dict(seed=rng.getrandbits(32), calls=out, p=rng.choice([0.02,0.1,0.3,0.6]) if ntask > 1 else 0.0, aborts=ab, dirty=rng.choice([0,1,2,3]), poison=rng.random()<0.6)
def shrink(case):
	C = case["calls"]
	for size in (4,2,1):
		for i in range(0,len(C),size):
			if len(C) > size: yield dict({k:v for k,v in case.items() if k != "trace"}, calls=C[:i]+C[i+size:], aborts=[[a-(size if a >= i+size else 0),b,c] for a,b,c in case["aborts"] if not i <= a < i+size])
	for i in range(len(case["aborts"])): yield dict({k:v for k,v in case.items() if k != "trace"}, aborts=case["aborts"][:i]+case["aborts"][i+1:])
	if case["poison"]: yield dict(case, poison=False)
	if case["dirty"]: yield dict(case, dirty=0)
	if any(c["task"] for c in C): yield dict({k:v for k,v in case.items() if k != "trace"}, calls=[dict(c,task=0) for c in C], p=0.0)
	if case.get("mode") == "direct":
		for i,c in enumerate(C):
			if c["mut"] is not None: yield dict({k:v for k,v in case.items() if k != "trace"}, calls=C[:i]+[dict(c,mut=None)]+C[i+1:])
	t = case.get("trace")
	if t:
		for size in (16,4,1):
			for i in range(0,len(t),size): yield dict(case, trace=t[:i]+t[i+size:])
# ---- frozen results
def freeze(x, d=0):
	if d > 12: return "deep"
	if isinstance(x, np.ndarray):
		w = getattr(x,"wcs",None)
		if x.dtype.names: return ("rec", str(x.dtype), np.array(x).tobytes())
		if x.dtype.kind == "O": return ("obj", [freeze(v,d+1) for v in x.flat])
		return ("arr", type(x).__name__, x.dtype.str, x.shape, np.array(x), freeze(w,d+1) if w is not None else None)
	if hasattr(x, "wcs") and hasattr(x, "to_header"): return ("wcs", x.to_header(relax=True).tostring(), tuple(x.array_shape or ()) if False else ())
	if isinstance(x, (list,tuple)): return ("seq", [freeze(v,d+1) for v in x])
	if isinstance(x, dict): return ("map", [(str(k), freeze(v,d+1)) for k,v in sorted(x.items(), key=lambda kv: str(kv[0]))])
	if isinstance(x, (np.generic,int,float,complex)) and not isinstance(x, bool): return ("arr","num",np.asarray(x).dtype.str,(),np.array(x),None)
	if x is None or isinstance(x, (str,bytes,bool)): return ("val", x)
	if isinstance(x, slice): return ("val", repr(x))
	if hasattr(x, "maps"): return ("seq", [freeze(v,d+1) for v in x.maps])
	if hasattr(x, "shape") and hasattr(x, "wcs"): return ("geo", tuple(x.shape), freeze(x.wcs,d+1))
	return ("other", type(x).__name__)
def arrays(x, d=0):
	if isinstance(x, np.ndarray): yield x
	elif isinstance(x, (list,tuple)) and d < 8:
		for v in x: yield from arrays(v,d+1)
	elif isinstance(x, dict) and d < 8:
		for v in x.values(): yield from arrays(v,d+1)
	elif hasattr(x, "maps"):
		for v in x.maps: yield from arrays(v,d+1)
def diff(a, b, where=""):
	"""None or what differs; a is the result in the history, b the result alone"""
	if a[0] != b[0]: return "%s: kind %s instead of %s" % (where, a[0], b[0])
	if a[0] == "seq":
		if len(a[1]) != len(b[1]): return "%s: %d elements instead of %d" % (where, len(a[1]), len(b[1]))
		for i,(x,y) in enumerate(zip(a[1],b[1])):
			r = diff(x,y,"%s[%d]" % (where,i))
			if r: return r
	elif a[0] == "map":
		if [k for k,v in a[1]] != [k for k,v in b[1]]: return "%s: other keys" % where
		for (k,x),(k2,y) in zip(a[1],b[1]):
			r = diff(x,y,"%s.%s" % (where,k))
			if r: return r
	elif a[0] == "arr":
		if a[1:4] != b[1:4]: return "%s: %s instead of %s" % (where, a[1:4], b[1:4])
		x, y = a[4], b[4]
		if x.size and x.dtype.kind in "fc":
			fx, fy = np.isfinite(x), np.isfinite(y)
			if not np.array_equal(fx,fy): return "%s: %d values are finite instead of %d" % (where, fx.sum(), fy.sum())
			if fx.any():
				s = np.max(np.abs(y[fy])); e = np.max(np.abs(x[fx]-y[fy]))
				if e > (1e-9 if x.dtype.itemsize >= (16 if x.dtype.kind=="c" else 8) else 1e-4)*s: return "%s: values differ by up to %.3g of %.3g" % (where, e, s)
		elif x.tobytes() != y.tobytes(): return "%s: values differ" % where
		if (a[5] is None) != (b[5] is None): return "%s: coordinates differ" % where
		if a[5] is not None: return diff(a[5],b[5],where+".wcs")
	elif a[0] == "geo": 
		if a[1] != b[1]: return "%s: shape %s instead of %s" % (where, a[1], b[1])
		return diff(a[2],b[2],where+".wcs")
	elif a != b: return "%s: %s instead of %s" % (where, str(a)[:200], str(b)[:200])
# ---- the call alone
REF = {}
def alone(name, p, dirty):
	key = (name, tuple(p), dirty)
	if key not in REF:
		def fn():
			np.random.seed(5)
			omp._dirty[0] = dirty
			try: return ("ok", freeze(calls.T[name](calls.P(p, {}))()))
			except Exception as e: return ("err", type(e).__name__)
		try: REF[key] = disk.in_child(fn, 100)
		except (disk.Died, disk.Remote) as e: raise Violation("crash", "call %s%s alone: %s" % (name, p, e))
		if len(REF) > 600: REF.clear() if False else REF.pop(next(iter(REF)))
	return REF[key]
def history(case, pool):
	C = case["calls"]; nt = max(c["task"] for c in C)+1
	tasks = [[] for k in range(nt)]; keep = {}
	fns, owners = {}, {}
	np.random.seed(5)
	def pre(k, c):
		p = calls.P(c["p"], pool)
		keep[k] = p
		return calls.T[c["t"]](p)
	prefail = {}
	for k,c in enumerate(C):
		try: fn = pre(k, c)
		except Exception as e: prefail[k] = ("err", type(e).__name__); continue
		tasks[c["task"]].append((k, fn))
	out = dict(prefail); held = {}
	inputs = [a for v,_ in pool.values() for a in arrays(v)]
	def done(k, res, err):
		if err is not None: out[k] = ("err", type(err).__name__); return
		out[k] = ("ok", freeze(res)); held[k] = res
		if case["poison"] and not any(u[0] == "obj" for u in keep[k].used if isinstance(u,tuple)):
			for a in arrays(res):
				if a.flags.writeable and a.dtype.kind in "fciu" and not any(np.may_share_memory(a,b) for b in inputs):
					try: a[...] = 13
					except Exception: pass
	sim = threads.Sim(tasks, seed=case["seed"], p=case["p"], trace=case.get("trace"), aborts={a:(b,c) for a,b,c in case["aborts"]})
	omp._dirty[0] = case["dirty"]
	sim.run(done)
	omp._dirty[0] = 0
	bad = []
	for key,(v,make) in pool.items():
		if key[0] == "obj": continue
		r = diff(freeze(v), freeze(make()))
		if r: bad.append("%s%s" % (key, r))
	late = None
	if not case["poison"]:
		# results that were handed out do not change later, either
		for k,res in held.items():
			if any(u[0] == "obj" for u in keep[k].used if isinstance(u,tuple)): continue
			r = diff(freeze(res), out[k][1])
			if r and late is None: late = (k, r)
	return out, sim.log, sim.lines, sim.fired, bad, late
# ---- direct calls
REC, DREF = {}, {}
def recorded(name, p):
	k = (name, tuple(p))
	if k not in REC:
		def fn():
			np.random.seed(5)
			return direct.record(lambda: calls.T[name](calls.P(p, {}))())
		try: REC[k] = disk.in_child(fn, 100)
		except (disk.Died, disk.Remote): REC[k] = []
		if len(REC) > 60: REC.pop(next(iter(REC)))
	return REC[k]
def direct_alone(b):
	"""outcome of the call in a fresh process: (kind, frozen result and arguments, changed arguments, random numbers used)"""
	def fn():
		np.random.seed(5); c = direct.Call(b); before = [(n,freeze(v)) for n,v in c.args()]
		st = np.random.get_state()[1:3]
		try: res = c()
		except Exception as e: return ("err", type(e).__name__, [], False)
		after = [(n,freeze(v)) for n,v in c.args()]
		st2 = np.random.get_state()[1:3]
		return ("ok", ("seq", [freeze(res)]+[v for n,v in after]), [(n,diff(y,x)) for (n,x),(_,y) in zip(before,after) if diff(y,x)], not np.array_equal(st[0],st2[0]) or st[1] != st2[1])
	try: return disk.in_child(fn, 20)
	except (disk.Died, disk.Remote): return None    # nothing can be said about arguments it cannot take
def run_direct(case, ctx):
	recs = [recorded(*s) for s in case["src"]]; C = case["calls"]; use = []
	for k,c in enumerate(C):
		b = direct.build(recs, c)
		ref = direct_alone(b) if b is not None and not direct.undefined(b) else None
		if ref is None: continue
		use.append((k,c,b,ref))
		for n,d in ref[2]:
			if not direct.inplace(b): raise Violation("argument-modified", "%s.%s (%s) changes its argument %s: %s" % (b[0],b[1],b[5],n,d))
	if not use: return
	one = any(u[3][3] for u in use); nt = 1 if one else max(c["task"] for k,c,b,ref in use)+1
	def history():
		tasks = [[] for k in range(nt)]; out, held, obj = {}, {}, {}
		for k,c,b,ref in use:
			call = obj[k] = direct.Call(b)
			def fn(call=call): np.random.seed(5); return call()
			tasks[0 if one else c["task"]].append((k,fn))
		def done(k, res, err):
			if err is not None: out[k] = ("err", type(err).__name__); return
			args = [v for n,v in obj[k].args()]
			out[k] = ("ok", ("seq", [freeze(res)]+[freeze(v) for v in args])); held[k] = res
			if case["poison"]:
				for a in arrays([res]):
					if a.flags.writeable and a.dtype.kind in "fciu":
						try: a[...] = 13
						except Exception: pass
		sim = threads.Sim(tasks, seed=case["seed"], p=case["p"], trace=case.get("trace"), aborts={a:(x,y) for a,x,y in case["aborts"]})
		omp._dirty[0] = case["dirty"]; sim.run(done); omp._dirty[0] = 0
		late = None
		if not case["poison"]:
			for k,res in held.items():
				r = diff(freeze(res), out[k][1][1][0])
				if r and late is None: late = (k,r)
		return out, sim.log, sim.lines, sim.fired, late
	try: out, log, lines, fired, late = disk.in_child(history, 100)
	except disk.Died as e: raise Violation("crash", "direct calls %s: %s" % ([u[2][1] for u in use], e))
	except disk.Remote as e: raise HarnessError(str(e))
	case2 = dict(case, trace=log) if nt > 1 else case
	for k,c,b,ref in use:
		what = "call %d %s.%s (%s)" % (k, b[0], b[1], b[5])
		if k in fired: ctx.fault("aborted_call"); continue
		if out[k][0] != ref[0] or out[k][0] == "err" and out[k][1] != ref[1]: raise Violation("different-outcome", "%s: %s, but alone %s" % (what, out[k][1] if out[k][0] == "err" else "succeeds", ref[1] if ref[0] == "err" else "succeeds"), case2)
		if out[k][0] == "err": continue
		r = diff(out[k][1], ref[1])
		if r: raise Violation("history-dependent", "%s gives another result than alone %s" % (what, r), case2)
	if late: raise Violation("result-changed", "the result of call %d changed after it was returned: %s" % late, case2)
	ctx.probe("direct_calls", len(use)); ctx.probe("direct_changed_argument", sum(c["mut"] is not None for k,c,b,ref in use)); ctx.probe("switches", len(log))
	if nt > 1: ctx.fault("thread_switch", len(log))
	if case["dirty"]: ctx.fault("dirty_memory")
	ident = [case["src"], [(c["occ"],c["mut"],c["task"]) for k,c,b,ref in use], log, case["aborts"]]
	ctx.exec(ihash=ident, nontrivial=ident if len(use) > 1 else None, events=lines)
	ctx.sample({"direct": ["%s.%s (%s)" % (b[0],b[1],b[5]) for k,c,b,ref in use], "switches": len(log)})
def run(case, ctx):
	if case.get("mode") == "direct": return run_direct(case, ctx)
	C = case["calls"]
	refs = [alone(c["t"], c["p"], 0) for c in C]
	try: out, log, lines, fired, bad, late = disk.in_child(lambda: history(case, {}), 140)
	except disk.Died as e: raise Violation("crash", "history of %s: %s" % ([c["t"] for c in C], e))
	except disk.Remote as e: raise HarnessError(str(e))
	case2 = dict(case, trace=log) if max(c["task"] for c in C) else case
	for k,c in enumerate(C):
		if k in fired: ctx.fault("aborted_call"); continue
		if out[k][0] != refs[k][0]: raise Violation("different-outcome", "call %d %s%s: %s, but alone %s" % (k, c["t"], c["p"], out[k] if out[k][0]=="err" else "succeeds", refs[k] if refs[k][0]=="err" else "succeeds"), case2)
		if out[k][0] == "err":
			if out[k] != refs[k]: raise Violation("different-outcome", "call %d %s%s raises %s, but alone %s" % (k, c["t"], c["p"], out[k][1], refs[k][1]), case2)
			continue
		r = diff(out[k][1], refs[k][1])
		if r: raise Violation("history-dependent", "call %d %s%s gives another result than alone%s" % (k, c["t"], c["p"], " "+r), case2)
	if late: raise Violation("result-changed", "after %s: the result of call %d %s%s, compared to when it was returned:%s" % ([c["t"] for c in C], late[0], C[late[0]]["t"], C[late[0]]["p"], late[1]), case2)
	if bad: raise Violation("argument-modified", "after %s: input %s" % ([c["t"] for c in C], bad[0]), case2)
	nt = max(c["task"] for c in C)+1
	ctx.probe("switches", len(log)); ctx.probe("several_tasks", nt > 1); ctx.probe("poisoned", case["poison"])
	if nt > 1: ctx.fault("thread_switch", len(log))
	if case["dirty"]: ctx.fault("dirty_memory")
	ctx.exec(ihash=[[(c["t"],c["p"],c["task"]) for c in C], log, case["aborts"]], nontrivial=[[(c["t"],c["p"],c["task"]) for c in C], log] if len(C) > 1 else None, events=lines)
	ctx.sample({"calls": [c["t"] for c in C], "tasks": nt, "switches": len(log), "lines": lines})
