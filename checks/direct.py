"""Single user-level calls into pixell, taken from the call templates, with one argument at a time replaced.

A template is run once in a fresh process and every call it makes into pixell is written down with its
arguments. A direct call is one of these, as it was or with one argument exchanged for the one it has in
another run of a template, or changed a little. Whether the new arguments make sense does not matter: the
call alone in a fresh process says what its outcome is."""
import sys, os, pickle, importlib, inspect, itertools, copy
import numpy as np
from simlib import loader
from pixell import enmap, wcsutils, bunch
ROOT = os.path.join(os.path.realpath(loader.REPO),"pixell")+os.sep
class Skip(Exception): pass
def enc(x, d=0):
	if d > 8: raise Skip
	if x is None or isinstance(x, (bool,int,float,complex,str,bytes,slice,range)) or x is Ellipsis or x is NotImplemented: return ("v", x)
	if isinstance(x, enmap.ndmap): return ("m", np.array(x), enc(x.wcs,d+1))
	if type(x) is np.ndarray:
		if x.dtype.kind == "O": raise Skip
		return ("a", np.array(x, copy=True, order="K"))
	if isinstance(x, (np.generic,np.dtype)): return ("v", x)
	if isinstance(x, type) and x.__module__ in ("numpy","builtins"): return ("v", x)
	if hasattr(x, "to_header") and hasattr(x, "wcs"): return ("w", pickle.dumps(x))
	if type(x) in (list,tuple): return ("l" if type(x) is list else "t", [enc(v,d+1) for v in x])
	if type(x) is dict or type(x) is bunch.Bunch: return ("d" if type(x) is dict else "b", [(k, enc(v,d+1)) for k,v in x.items()])
	if type(x).__module__.startswith("pixell.") and not inspect.isfunction(x):
		try: return ("o", pickle.dumps(x))
		except Exception: raise Skip
	raise Skip
def dec(e):
	k = e[0]
	if k == "v": return e[1]
	if k == "m": return enmap.ndmap(e[1].copy(), dec(e[2]))
	if k == "a": return np.array(e[1], copy=True, order="K")
	if k in ("w","o"): return pickle.loads(e[1])
	if k == "l": return [dec(v) for v in e[1]]
	if k == "t": return tuple(dec(v) for v in e[1])
	return (dict if k == "d" else bunch.Bunch)((a,dec(v)) for a,v in e[1])
def key(e): return pickle.dumps(e)
def record(fn):
	"""run fn and return the calls its module makes into pixell: (module, name, [(parameter, value)], varargs, kwargs)"""
	out = []; here = os.path.join(os.path.dirname(os.path.abspath(__file__)),"calls.py")
	def prof(frame, event, arg):
		if event != "call": return
		c, b = frame.f_code, frame.f_back
		if b is None or b.f_code.co_filename != here or not os.path.realpath(c.co_filename).startswith(ROOT): return
		q = c.co_qualname
		if "<" in q or c.co_name.startswith("_") or len(out) >= 40: return
		n = c.co_argcount+c.co_kwonlyargcount; L = frame.f_locals; names = c.co_varnames
		try:
			par = [(names[i], i >= c.co_argcount, enc(L[names[i]])) for i in range(n)]; i = n; va, kw = [], []
			if c.co_flags & inspect.CO_VARARGS: va = [enc(v) for v in L[names[i]]]; i += 1
			if c.co_flags & inspect.CO_VARKEYWORDS: kw = [(k,enc(v)) for k,v in L[names[i]].items()]
		except Skip: return
		except Exception: return
		out.append((frame.f_globals["__name__"], q, par, va, kw))
	sys.setprofile(prof)
	try: fn()
	except Exception: pass
	finally: sys.setprofile(None)
	return out
def change(e, v):
	"""a similar value, or None"""
	k = e[0]
	if k == "v":
		x = e[1]
		if isinstance(x, (bool,np.bool_)): return ("v", not x)
		if isinstance(x, (int,np.integer)): return ("v", type(x)(x+1)) if abs(int(x)) < 10000 else None
		if isinstance(x, (float,np.floating)): return ("v", type(x)(x*1.25+(x == 0)*0.01))
		if isinstance(x, complex): return ("v", x*1.25j)
		if x in (np.float64,np.dtype(np.float64)): return ("v", np.float32)
		if x in (np.float32,np.dtype(np.float32)): return ("v", np.float64)
		return None
	if k in ("a","m"):
		x = e[1]
		if x.size == 0: return None
		if x.dtype.kind == "b": y = ~x
		elif v % 3 == 0 and x.ndim and x.shape[-1] > 1: y = x[...,::-1].copy()
		elif x.dtype.kind in "fc": y = (x*1.25).astype(x.dtype)
		elif x.dtype.kind in "iu": y = x[...,::-1].copy() if x.ndim else x+1
		else: return None
		return (k,y)+tuple(e[2:])
	if k == "w":
		w = pickle.loads(e[1]); w.wcs.crval = [w.wcs.crval[0]+3, w.wcs.crval[1]] ; return ("w", pickle.dumps(w))
	if k in ("l","t","d","b") and len(e[1]):
		i = v % len(e[1]); L = list(e[1]); old = L[i] if k in ("l","t") else L[i][1]; new = change(old, v//len(L))
		if new is None: return None
		L[i] = new if k in ("l","t") else (L[i][0],new)
		return (k,L)
	return None
def build(recs, spec):
	"""the call described by spec, or None"""
	A = recs[0]
	if not A: return None
	F = sorted({r[:2] for r in A}); i, j = spec["occ"]; f = F[i % len(F)]; A = [r for r in A if r[:2] == f]
	m, q, par, va, kw = A[j % len(A)]; par = list(par); va = list(va); kw = list(kw); what = "as recorded"
	if spec["mut"] is not None:
		u, v = spec["mut"]; n = len(par)+len(va)+len(kw)
		if n == 0: return None
		i = u % n
		def get(r): return r[2][i][2] if i < len(par) else r[3][i-len(par)] if i < len(par)+len(va) else r[4][i-len(par)-len(va)][1]
		old = get((m,q,par,va,kw)); new = None
		if v % 2 == 0:
			for r in recs[1]:
				if r[:2] == (m,q) and (len(r[2]),len(r[3])) == (len(par),len(va)) and [k for k,_ in r[4]] == [k for k,_ in kw] and key(get(r)) != key(old): new = get(r); break
		# objects and the arrays used with them have to fit each other, which is not always tested
		obj = any(e[0] == "o" for e in [e for n,k,e in par]+va+[e for n,e in kw])
		if new is not None and obj and (old[0] == "o" or old[0] in "am" and (new[0] not in "am" or new[1].shape != old[1].shape or new[1].dtype != old[1].dtype)): new = None
		if new is None: new = change(old, v//2)
		if new is None: return None
		if i < len(par): par[i] = par[i][:2]+(new,); what = "other "+par[i][0]
		elif i < len(par)+len(va): va[i-len(par)] = new; what = "another argument"
		else: j = i-len(par)-len(va); kw[j] = (kw[j][0],new); what = "other "+kw[j][0]
	return m, q, par, va, kw, what
class Call:
	def __init__(self, b):
		self.m, self.q, par, va, kw, self.what = b
		self.pos = [dec(e) for n,k,e in par if not k]; self.names = [n for n,k,e in par if not k]
		self.va = [dec(e) for e in va]; self.kw = {n:dec(e) for n,k,e in par if k}; self.kw.update((n,dec(e)) for n,e in kw)
		f = importlib.import_module(self.m)
		for part in self.q.split("."): f = inspect.getattr_static(f, part) if inspect.isclass(f) else getattr(f, part)
		self.f = getattr(f, "__func__", f) if isinstance(f, (staticmethod,classmethod)) else f
		if isinstance(f, property): self.f = f.fget
	def __call__(self):
		res = self.f(*self.pos, *self.va, **self.kw)
		if inspect.isgenerator(res): res = [copy.deepcopy(x) for x in itertools.islice(res, 60)]
		return res
	def args(self): return list(zip(self.names, self.pos))+[("*%d"%i,v) for i,v in enumerate(self.va)]+sorted(self.kw.items())
def inplace(b):
	"""is the call one that is meant to write to its arguments?"""
	m, q, par, va, kw, what = b
	f = m.split(".")[-1]+"."+q
	if f in ("curvedsky.alm2map","curvedsky.map2alm","curvedsky.alm2map_adjoint","curvedsky.map2alm_adjoint"): return True     # output map and alm
	for n,v in [(n,v) for n,k,v in par]+kw:
		if n in ("inplace","out","omap","adjoint","copy","cache") and not (v[0] == "v" and v[1] in (None,False,0)): return True
	return False
def undefined(b):
	"""calls whose arguments do not define the result: files, uninitialised memory"""
	if any(v[0] == "v" and isinstance(v[1],str) and ("/" in v[1] or v[1].rsplit(".",1)[-1] in ("fits","hdf","npy","txt","png")) for v in [v for n,k,v in b[2]]+b[3]+[v for n,v in b[4]]): return True
	if any(w in b[1].split(".")[-1].split("_") for w in ("read","write","open","load","save")): return True
	return b[0] == "pixell.array_ops" and b[1] in ("matmul",) and b[5] != "as recorded" or b[1].split(".")[-1].startswith("empty")
