"""A library of ordinary calls into pixell, used to build call histories (c13, c14).

A template takes P, draws its parameters with P.c(options) and its (shared) inputs with P.map,
P.alm, ..., and returns a function without arguments that makes the call."""
import numpy as np, warnings
from simlib.core import np_rng
from pixell import enmap, wcsutils, utils, curvedsky, fft, lensing, aberration, coordinates, resample, reproject, uharm, wavelets, pointsrcs, multimap, powspec, interpol, array_ops, colorize, tilemap, analysis, bunch, cgrid, distances
deg, amin = utils.degree, utils.arcmin

GEO = {
	"car":  ("CAR", (12,18), [-0.5,0.5],  [10.0,0.0], [9.3,4.0]),
	"car2": ("CAR", (12,18), [-0.5,0.5],  [10.0,0.0], [9.3,-30.0]),
	"carf": ("CAR", (12,18), [0.5,-0.5],  [200.0,0.0],[9.3,4.0]),
	"cea":  ("CEA", (12,18), [-0.5,0.5],  [10.0,0.0], [9.3,4.0]),
	"tan":  ("TAN", (15,14), [-0.2,0.2],  [40.0,30.0],[7.5,8.0]),
	"zea":  ("ZEA", (15,14), [-0.2,0.2],  [40.0,30.0],[7.5,8.0]),
	"full": ("CAR", (18,36), [-10.,10.],  [0.0,0.0],  [18.5,9.5]),
	"fulc": ("CAR", (19,36), [-10.,10.],  [0.0,0.0],  [18.5,10.0]),
	"band": ("CAR", (8,36),  [-10.,10.],  [0.0,0.0],  [18.5,2.5]),
}
def geo(name):
	proj, shape, cdelt, crval, crpix = GEO[name]
	w = wcsutils.WCS(naxis=2); w.wcs.ctype = ["RA---"+proj,"DEC--"+proj]
	w.wcs.cdelt, w.wcs.crval, w.wcs.crpix = cdelt, crval, crpix
	if proj == "CEA": w.wcs.set_pv([(2,1,1.0)])
	return shape, w
LOC  = ["car","car2","carf","cea","tan","zea"]
FLAT = ["car","tan","cea"]
FULL = ["full","fulc"]
class P:
	"""Parameter source of one call. pool: inputs shared by the calls of one process."""
	def __init__(self, params, pool): self.params, self.pool, self.i, self.used = params, pool, 0, []
	def c(self, opts):
		v = self.params[self.i % len(self.params)]; self.i += 1
		return opts[v % len(opts)]
	def get(self, key, make):
		if key not in self.pool: self.pool[key] = (make(), make)
		self.used.append(key)
		return self.pool[key][0]
	def geo(self, names=LOC): n = self.c(names); return self.get(("geo",n), lambda: geo(n))
	def map(self, names=LOC, pre=((),(3,)), dt=("f8","f8","f4"), pos=False):
		n, p, d, s = self.c(names), self.c(pre), self.c(dt), self.c([0,1])
		def make():
			r = np_rng(7,"map",n,list(p),s); sh, w = geo(n)
			a = r.standard_normal(p+sh)
			return enmap.ndmap((np.abs(a)+0.5 if pos else a).astype(d), w)
		return self.get(("map",n,p,d,s,pos), make)
	def fmap(self, names=LOC, pre=((),(3,))):
		n, p, s = self.c(names), self.c(pre), self.c([0,1])
		def make(): r = np_rng(7,"fmap",n,list(p),s); sh, w = geo(n); return enmap.ndmap(r.standard_normal(p+sh)+1j*r.standard_normal(p+sh), w)
		return self.get(("fmap",n,p,s), make)
	def alm(self, lmax=(8,12), pre=((),(3,)), dt=("c16","c16","c8")):
		l, p, d, s = self.c(lmax), self.c(pre), self.c(dt), self.c([0,1])
		def make():
			r = np_rng(8,"alm",l,list(p),s); n = (l+1)*(l+2)//2; a = r.standard_normal(p+(n,))+1j*r.standard_normal(p+(n,))
			a[...,:l+1] = a[...,:l+1].real
			return a.astype(d)
		return self.get(("alm",l,p,d,s), make)
	def arr(self, shape, kind="n", dt="f8"):
		s = self.c([0,1,2])
		def make():
			r = np_rng(9,"arr",list(shape),kind,s)
			a = r.standard_normal(shape) if kind == "n" else r.uniform(0,1,shape) if kind == "u" else np.cumsum(r.uniform(0.1,1,shape),-1) if kind == "s" else r.integers(0,20,shape)
			return a.astype(dt if kind != "i" else int)
		return self.get(("arr",shape,kind,dt,s), make)
	def poss(self, n=5, names=None):
		"""positions dec,ra inside a local geometry"""
		g, s = self.c(names or LOC), self.c([0,1])
		def make():
			r = np_rng(10,"pos",g,s,n); sh, w = geo(g); p = np.array([r.uniform(2,sh[1]-3,n), r.uniform(2,sh[0]-3,n)])
			return np.asarray(w.wcs_pix2world(p.T,0)).T[::-1]*deg
		return self.get(("pos",g,s,n), make), g
	def spec(self, n=3, lmax=(12,20)):
		l, s = self.c(lmax), self.c([0,1])
		def make():
			r = np_rng(11,"spec",l,s,n); A = r.standard_normal((n,n,l+1)); C = np.einsum("abl,cbl->acl",A,A)/(1+np.arange(l+1.0))**2; return C
		return self.get(("spec",l,s,n), make)
	def obj(self, key, make): return self.get(("obj",)+key, make)

T = {}
SERIAL = set()   # use numpy's global random state, so cannot run next to each other
def t(f): T[f.__name__] = f; return f
def boxof(g, f=0.3):
	sh, w = geo(g); p = np.asarray(w.wcs_pix2world(np.array([[sh[1]*f,sh[0]*f],[sh[1]*(1-f),sh[0]*(1-f)]]),0))
	return p[:,::-1]*deg
# ---- enmap geometry
@t
def posmap(P): g = P.geo(LOC+FULL); k = dict(corner=P.c([False,True]), separable=P.c(["auto",False]), safe=P.c([True,False])); return lambda: enmap.posmap(*g, **k)
@t
def posaxes(P): g = P.geo(["car","car2","carf","cea"]+FULL); c = P.c([False,True]); return lambda: enmap.posaxes(*g, corner=c)
@t
def pixmap(P): g = P.geo(); return lambda: enmap.pixmap(*g)
@t
def pix2sky(P): g = P.geo(); p = P.arr((2,7),"u"); c = P.c([False,True]); return lambda: enmap.pix2sky(*g, p, corner=c)
@t
def sky2pix(P): p, n = P.poss(); g = P.geo([n]); c = P.c([False,True]); s = P.c([True,False]); return lambda: enmap.sky2pix(*g, p, corner=c, safe=s)
@t
def skybox2pixbox(P): n = P.c(LOC); g = P.geo([n]); b = P.get(("box",n), lambda: boxof(n)); d = P.c([False,True]); return lambda: enmap.skybox2pixbox(*g, b, include_direction=d)
@t
def pixbox2skybox(P): g = P.geo(); b = P.get(("pixbox",), lambda: np.array([[1,2],[7,9]])); return lambda: enmap.pixbox2skybox(*g, b)
@t
def extent(P): g = P.geo(LOC+FULL); k = dict(signed=P.c([False,True]), method=P.c(["auto","intermediate","subgrid"])); return lambda: enmap.extent(*g, **k)
@t
def area(P): g = P.geo(LOC+FULL); return lambda: enmap.area(*g)
@t
def pixsizemap(P): g = P.geo(LOC+FULL); b = P.c([False,True]); s = P.c(["auto",False]); return lambda: enmap.pixsizemap(*g, broadcastable=b, separable=s)
@t
def pixshapemap(P): g = P.geo(LOC+FULL); s = P.c([False,True]); return lambda: enmap.pixshapemap(*g, signed=s)
@t
def lmap(P): g = P.geo(); o = P.c([1,1,2]); return lambda: (enmap.lmap(*g, oversample=o), enmap.modlmap(*g, oversample=o))
@t
def modlmap(P): g = P.geo(); m = P.c([0,0,5]); return lambda: enmap.modlmap(*g, min=m)
@t
def modrmap(P): g = P.geo(); c = P.c([False,True]); return lambda: enmap.modrmap(*g, corner=c)
@t
def corners(P): g = P.geo(LOC+FULL); c = P.c([True,False]); return lambda: (enmap.corners(*g, corner=c), enmap.box(*g, corner=c), enmap.center(*g))
@t
def mapgeo(P): m = P.map(); return lambda: (m.posmap(), m.pixshape(), m.pixsize(), m.lmap(), m.modlmap(), m.box(), m.area(), m.extent())
@t
def geometry(P):
	b = P.get(("gbox",), lambda: np.array([[-3.,4.],[5.,-6.]])*deg); r = P.c([0.5,0.25,1.0])*deg; p = P.c(["car","cea","tan","zea","arc"]); v = P.c([(),(2,)])
	return lambda: enmap.geometry(b, res=r, proj=p, pre=v)
@t
def geometry2(P): b = P.get(("gbox",), lambda: np.array([[-3.,4.],[5.,-6.]])*deg); r = P.c([0.5,0.25,1.0])*deg; p = P.c(["car","cea","tan","zea"]); return lambda: enmap.geometry2(b, res=r, proj=p)
@t
def fullsky_geometry(P): r = P.c([10,5,4])*deg; v = P.c(["fejer1","CC"]); d = P.c([(),(3,)]); return lambda: enmap.fullsky_geometry(res=r, variant=v, dims=d)
@t
def band_geometry(P): r = P.c([10,5,4])*deg; c = P.c([20,30])*deg; v = P.c(["fejer1","CC"]); return lambda: enmap.band_geometry(c, res=r, variant=v)
@t
def thumbnail_geometry(P): r, s = P.c([1,2])*deg, P.c([0.1,0.2])*deg; return lambda: enmap.thumbnail_geometry(r=r, res=s)
@t
def subgeo(P): n = P.c(LOC); g = P.geo([n]); b = P.get(("box",n), lambda: boxof(n)); f = P.c([False,True]); return lambda: enmap.subgeo(*g, b, noflip=f)
@t
def scale_geometry(P): g = P.geo(); s = P.c([2,0.5,3]); return lambda: enmap.scale_geometry(*g, s)
@t
def downgrade_geometry(P): g = P.geo(); s = P.c([2,3]); return lambda: (enmap.downgrade_geometry(*g, s), enmap.upgrade_geometry(*g, s))
@t
def slice_geometry(P): g = P.geo(); s = P.c([(slice(2,9),slice(3,12)),(slice(None,None,2),slice(12,3,-1))]); return lambda: enmap.slice_geometry(*g, s)
@t
def neighborhood_pixboxes(P): p, n = P.poss(4); g = P.geo([n]); r = P.c([0.5,1.0])*deg; return lambda: enmap.neighborhood_pixboxes(*g, p.T, r)
# ---- enmap maps
@t
def submap(P): n = P.c(LOC); m = P.map([n]); b = P.get(("box",n), lambda: boxof(n)); k = P.c([None,"round","floor","ceil","inclusive","exclusive"]); return lambda: m.submap(b, mode=k)
@t
def slicing(P): m = P.map(); s = P.c([(slice(2,9),slice(3,12)),(slice(None,None,2),slice(12,3,-1)),(3,slice(None))]); return lambda: m[(Ellipsis,)+s]
@t
def project(P): m = P.map(["car","carf","tan"]); g = P.geo(["car","tan","zea"]); k = dict(mode=P.c(["spline","fourier"]), order=P.c([1,3]), border=P.c(["constant","nearest"])); return lambda: m.project(*g, **k)
@t
def at(P): p, n = P.poss(6); m = P.map([n]); o = P.c([0,1,3]); b = P.c(["constant","nearest"]); return lambda: m.at(p, order=o, border=b)
@t
def extract(P): m = P.map(["car","car2"]); g = P.geo(["car","car2"]); c = P.c([0,3]); return lambda: m.extract(*g, cval=c)
@t
def extract_pixbox(P): m = P.map(["car","tan","full"]); b = P.c([[[2,3],[8,9]],[[-2,-1],[5,6]],[[5,10],[20,40]]]); return lambda: m.extract_pixbox(b)
@t
def insert(P):
	n = P.c(["car","tan","cea"]); m = P.map([n], pre=((),)); o = P.map([n], pre=((),))
	def f(): a = o.copy(); a.insert(m[2:8,3:9]); return a
	return f
@t
def map_union(P): a, b = P.map(["car"],pre=((),),dt=("f8",)), P.map(["car","car2"],pre=((),),dt=("f8",)); return lambda: enmap.map_union(a[:6],b[3:])
@t
def fft2(P): m = P.map(); n = P.c([True,False,"phys"]); return lambda: enmap.fft(m, normalize=n)
@t
def ifft2(P): m = P.fmap(); n = P.c([True,False,"phys"]); return lambda: enmap.ifft(m, normalize=n)
@t
def fft_adjoint2(P): m = P.fmap(); n = P.c([True,False]); return lambda: (enmap.fft_adjoint(m, normalize=n), enmap.ifft_adjoint(m, normalize=n))
@t
def dct2(P): m = P.map(dt=("f8",)); n = P.c([True,False]); return lambda: (enmap.dct(m, normalize=n), enmap.idct(m, normalize=n))
@t
def map2harm(P): m = P.map(FLAT); n = P.c([True,"phys"]); i = P.c([False,True]); s = P.c([[0,2],[0]]); return lambda: enmap.map2harm(m, normalize=n, iau=i, spin=s)
@t
def harm2map(P): m = P.fmap(FLAT); n = P.c([True,"phys"]); i = P.c([False,True]); s = P.c([[0,2],[0]]); return lambda: enmap.harm2map(m, normalize=n, iau=i, spin=s)
@t
def smooth_gauss(P): m = P.map(FLAT); s = P.c([0.3,0.6,-0.3])*deg; return lambda: enmap.smooth_gauss(m, s)
@t
def rotate_pol(P): m = P.map(pre=((3,),)); a = P.c([0.1,0.7]); return lambda: enmap.rotate_pol(m, a)
@t
def apply_window(P): m = P.map(); p = P.c([1.0,0.5,-1]); o = P.c([0,1]); return lambda: enmap.apply_window(m, pow=p, order=o)
@t
def calc_window(P): s = P.c([(12,18),(13,17)]); o = P.c([0,1]); return lambda: enmap.calc_window(s, order=o)
@t
def downgrade(P): m = P.map(); f = P.c([2,3,(2,3)]); o = P.c([np.mean,np.sum]); i = P.c([False,True]); return lambda: enmap.downgrade(m, f, op=o, inclusive=i)
@t
def upgrade(P): m = P.map(); f = P.c([2,3]); return lambda: enmap.upgrade(m, f)
@t
def resample_map(P): m = P.map(["car","tan"]); s = P.c([(16,20),(8,9)]); k = P.c(["fft","spline"]); return lambda: enmap.resample(m, s, method=k)
@t
def pad(P): m = P.map(); k = P.c([2,[[1,2],[3,4]]]); w = P.c([False,True]); return lambda: enmap.pad(m, k, wrap=w)
@t
def autocrop(P):
	def make(): m = geo("car"); a = enmap.ndmap(np.zeros(m[0]),m[1]); a[3:8,4:11] = 1.5; return a
	m = P.get(("croppable",), make); g = P.c([0,1]); return lambda: enmap.autocrop(m, margin=g)
@t
def grad(P): m = P.map(FLAT,pre=((),)); return lambda: (enmap.grad(m), enmap.grad_pix(m), enmap.laplace(m))
@t
def apod(P): m = P.map(); w = P.c([2,3]); p = P.c(["cos","lin"]); f = P.c(["zero","mean"]); return lambda: enmap.apod(m, w, profile=p, fill=f)
def mkmask(n, s):
	r = np_rng(12,"mask",n,s); sh, w = geo(n); return enmap.ndmap(r.random(sh) < 0.8, w)
def mask(P, names): n, s = P.c(names), P.c([0,1]); return P.get(("mask",n,s), lambda: mkmask(n,s))
@t
def apod_mask(P): m = mask(P, ["car","tan"]); w = P.c([1.0,0.7])*deg; e = P.c([True,False]); return lambda: enmap.apod_mask(m, w, edge=e)
@t
def grow_mask(P): m = mask(P, ["car","tan","full"]); r = P.c([0.7,1.2,15])*deg; return lambda: (enmap.grow_mask(m, r), enmap.shrink_mask(m, r))
@t
def distance_transform(P): m = mask(P, ["car","tan","full"]); r = P.c([None,2*deg]); k = P.c(["cellgrid","bubble"]); return lambda: enmap.distance_transform(m, rmax=r, method=k)
@t
def labeled_distance_transform(P):
	n = P.c(["car","tan"]); l = P.get(("lab",n), lambda: enmap.ndmap((np_rng(1,n).random(geo(n)[0])<0.1)*np_rng(2,n).integers(1,4,geo(n)[0]).astype(np.int32), geo(n)[1]))
	return lambda: enmap.labeled_distance_transform(l)
@t
def distance_from(P): p, n = P.poss(4); g = P.geo([n]); r = P.c([None,1*deg]); d = P.c([False,True]); return lambda: enmap.distance_from(*g, p, rmax=r, domains=d)
@t
def inpaint(P): m = P.map(["car"],pre=((),),dt=("f8",)); k = mask(P,["car"]); return lambda: enmap.inpaint(m, k==0)
@t
def lbin(P): m = P.map(FLAT,dt=("f8",)); b = P.c([1.0,2.0]); h = P.c([False,True]); return lambda: enmap.lbin(m, brel=b, return_nhit=h)
@t
def rbin(P): m = P.map(FLAT,dt=("f8",)); b = P.c([1.0,2.0]); return lambda: m.rbin(center=m.center(), brel=b)
@t
def stamps(P): p, n = P.poss(4); m = P.map([n]); s = P.c([4,5]); return lambda: enmap.stamps(m, p.T, s)
@t
def shift(P): m = P.map(); o = P.c([(1,2),(-3,4)]); k = P.c([False,True]); return lambda: enmap.shift(m, o, keepwcs=k)
@t
def fractional_shift(P): m = P.map(["car","tan"],dt=("f8",)); o = P.c([(0.5,0.25),(-1.5,0.1)]); return lambda: enmap.fractional_shift(m, o)
@t
def fillbad(P):
	def make(): a = P0map("car"); a[3,4] = np.nan; a[5,6] = np.inf; return a
	m = P.get(("bad",), make); v = P.c([0,7]); return lambda: enmap.fillbad(m, v)
def P0map(n): sh, w = geo(n); return enmap.ndmap(np_rng(3,n).standard_normal(sh), w)
@t
def spec2flat(P): g = P.geo(FLAT); c = P.spec(); b = P.c(["constant","nearest"]); e = P.c([1.0,0.5]); return lambda: enmap.spec2flat(*g, c, exp=e, border=b)
@t
def multi_pow(P): c = P.spec(); e = P.c([0.5,-1,2]); return lambda: enmap.multi_pow(c, e)
@t
def map_mul(P): c = P.arr((3,3,12,18)); m = P.map(["car"],pre=((3,),),dt=("f8",)); return lambda: enmap.map_mul(c, m)
@t
def calc_ps2d(P): a = P.fmap(FLAT); return lambda: enmap.calc_ps2d(a)
@t
def maparith(P): a, b = P.map(["car"],pre=((),)), P.map(["car"],pre=((),)); return lambda: (a+b, a*b-2, np.sum(a), np.mean(a,-1), a.argmax(), a>b)
@t
def preflat(P): m = P.map(pre=((3,),)); return lambda: (m.preflat, m.npix, m.geometry)
@t
def padtiles(P):
	m = P.map(["full"]); ts, p = P.c([6,8]), P.c([2,3])
	def f():
		out = []
		for (a,) in zip(*[enmap.padtiles(m, tshape=ts, pad=p, margin=p)]) if False else enmap.padtiles(m, tshape=ts, pad=p, margin=p): out.append(a.copy())
		return out
	return f
# ---- fft
@t
def fft1(P): a = P.arr((3,16),dt=P.c(["f8","f4","c16"])); e = P.c(["auto","numpy","ducc"]); return lambda: fft.fft(a, engine=e)
@t
def rfft1(P):
	n = P.c([16,15]); a = P.arr((3,n)); e = P.c(["auto","numpy","ducc"])
	def f(): x = fft.rfft(a, engine=e); return x, fft.irfft(x, n=n, engine=e, normalize=True)
	return f
@t
def fft_axes(P): a = P.arr((3,4,5),dt="c16"); x = P.c([[-1],[-2],[0,1],[-2,-1]]); return lambda: fft.fft(a, axes=x)
@t
def dct1(P): a = P.arr((3,9)); y = P.c(["DCT-I","DCT-II"]); n = P.c([True,False]); return lambda: (fft.dct(a, type=y), fft.idct(a, type=y, normalize=n))
@t
def fftshift1(P): a = P.arr((3,12)); s = P.c([1.5,-0.3]); return lambda: fft.shift(a, s)
@t
def fftresample(P): a = P.arr((3,12)); n = P.c([16,9]); return lambda: fft.resample(a, n)
@t
def interpol_nufft(P): a = P.arr((12,10)); i = P.arr((2,8),"u"); return lambda: fft.interpol_nufft(a, i*8)
@t
def u2nu(P): a = P.arr((2,12,10),dt="c16"); i = P.arr((2,8),"u"); f = P.c([False,True]); return lambda: fft.u2nu(a, i*8, forward=f)
@t
def nu2u(P): a = P.arr((8,),dt="c16"); i = P.arr((2,8),"u"); s = P.c([(12,10),(9,8)]); return lambda: fft.nu2u(a, i*7, oshape=s)
@t
def u2nu_plan(P): i = P.arr((2,8),"u"); a = P.arr((12,10)); p = P.obj(("u2nu",P.params[0]%3), lambda: fft.u2nu_plan(np_rng(14,P.params[0]%3).standard_normal((12,10))+0j, (0,1))); return lambda: p.eval((i*8))
@t
def fft_len(P): n = P.c([1001,997,77,23]); d = P.c(["below","above"]); f = P.c([None,[2,3],[2,3,5,7]]); return lambda: fft.fft_len(n, d, f)
@t
def fftfreq(P): n = P.c([8,9]); d = P.c([1.0,0.1]); return lambda: (fft.fftfreq(n,d), fft.rfftfreq(n,d))
@t
def chebt(P): a = P.arr((3,9)); return lambda: (fft.chebt(a), fft.ichebt(a))
# ---- curvedsky
@t
def alm2map(P):
	a = P.alm(pre=((3,),)); g = P.geo(FULL+["band","car","tan"]); s = P.c([[0,2],[0]])
	return lambda: curvedsky.alm2map(a, enmap.ndmap(np.zeros((3,)+g[0],a.real.dtype),g[1]), spin=s)
@t
def alm2map_deriv(P): a = P.alm(pre=((),)); g = P.geo(FULL); return lambda: curvedsky.alm2map(a, enmap.ndmap(np.zeros((2,)+g[0],a.real.dtype),g[1]), deriv=True)
@t
def map2alm(P): m = P.map(FULL+["band"],pre=((3,),)); l = P.c([6,8]); s = P.c([[0,2],[0]]); return lambda: curvedsky.map2alm(m, lmax=l, spin=s)
@t
def map2alm_iter(P): m = P.map(FULL,pre=((),),dt=("f8",)); l = P.c([6,8]); n = P.c([1,2]); return lambda: curvedsky.map2alm(m, lmax=l, niter=n)
@t
def map2alm_adj(P): a = P.alm(lmax=(6,8),pre=((),)); g = P.geo(FULL); return lambda: curvedsky.map2alm_adjoint(a, enmap.ndmap(np.zeros(g[0],a.real.dtype),g[1]))
@t
def alm2map_adj(P): m = P.map(FULL,pre=((),),dt=("f8",)); l = P.c([6,8]); return lambda: curvedsky.alm2map_adjoint(m, ainfo=curvedsky.alm_info(l))
@t
def alm2map_pos(P): a = P.alm(pre=((3,),),dt=("c16",)); p, _ = P.poss(6); return lambda: curvedsky.alm2map_pos(a, p)
@t
def alm2map_healpix(P): a = P.alm(pre=((3,),)); n = P.c([4,8]); return lambda: curvedsky.alm2map_healpix(a, nside=n)
@t
def map2alm_healpix(P): n = P.c([4,8]); h = P.arr((3,12*n*n)); l = P.c([6,8]); return lambda: curvedsky.map2alm_healpix(h, lmax=l)
@t
def quad_weights(P): g = P.geo(FULL); return lambda: curvedsky.quad_weights(*g)
@t
def almxfl(P): a = P.alm(); f = P.arr((13,),"u"); o = P.c([0,1]); return lambda: curvedsky.almxfl(a, f if o else (lambda l: 1/(1.0+l)))
@t
def alm2cl(P): a = P.alm(dt=("c16",)); return lambda: curvedsky.alm2cl(a)
@t
def alm2clx(P): a, b = P.alm(lmax=(8,),pre=((3,),)), P.alm(lmax=(8,),pre=((3,),)); return lambda: curvedsky.alm2cl(a[:,None],b[None,:])
@t
def rotate_alm(P): a = P.alm(pre=((3,),),dt=("c16",)); x = P.c([0.3,1.1]); return lambda: curvedsky.rotate_alm(a, x, 0.4, -0.7)
@t
def cfilter(P): m = P.map(FULL,pre=((),),dt=("f8",)); f = P.arr((9,),"u"); return lambda: curvedsky.filter(m, f, lmax=8)
@t
def transfer_alm(P): a = P.alm(lmax=(8,),dt=("c16",)); l = P.c([6,12]); return lambda: curvedsky.transfer_alm(curvedsky.alm_info(8), a, curvedsky.alm_info(l))
@t
def alm_info(P):
	l, m = P.c([8,12]), P.c([None,4]); y = P.c(["triangular","rect"])
	def f(): i = curvedsky.alm_info(l, mmax=m, layout=y); return i.nelem, i.lm2ind(np.array([3,5]),np.array([1,2])), i.nl, i.nm
	return f
@t
def alm_transpose(P): a = P.alm(lmax=(8,),dt=("c16",)); i = P.obj(("ainfo",8), lambda: curvedsky.alm_info(8)); return lambda: i.transpose_alm(a)
@t
def alm_lmul(P): a = P.alm(lmax=(8,),pre=((3,),),dt=("c16",)); s = P.spec(lmax=(8,)); i = P.obj(("ainfo",8), lambda: curvedsky.alm_info(8)); return lambda: (i.lmul(a, s), i.alm2cl(a))
@t
def profile2harm(P): r = P.get(("rr",), lambda: np.linspace(0,10,80)*deg); s = P.c([1.0,2.0])*deg; l = P.c([20,40]); return lambda: curvedsky.profile2harm(np.exp(-0.5*(r/s)**2), r, lmax=l)
@t
def harm2profile(P): b = P.arr((21,),"u"); r = P.get(("rr",), lambda: np.linspace(0,10,80)*deg); return lambda: curvedsky.harm2profile(b, r)
@t
def analyse_geometry(P):
	g = P.geo(["full","fulc","band","car","tan"])
	def f(): i = curvedsky.analyse_geometry(*g); return str(i.case), [str(x) for x in i.flip], np.array(i.ypad) if i.ypad is not None else None
	return f
@t
def ring_info(P):
	g = P.geo(["full","fulc","band","car"]); n = P.c([4,8])
	def f(): a, b = curvedsky.get_ring_info(*g), curvedsky.get_ring_info_healpix(n); return [a.theta,a.nphi,a.phi0,a.offsets],[b.theta,b.nphi,b.phi0,b.offsets]
	return f
# ---- seeded random numbers
@t
def rand_map_flat(P): g = P.geo(FLAT); c = P.spec(); s = P.c([1,2,(3,4)]); k = dict(scalar=P.c([False,True])); return lambda: enmap.rand_map((3,)+g[0], g[1], c, seed=s, **k)
@t
def rand_alm(P): c = P.spec(); s = P.c([1,2,5]); l = P.c([None,10]); m = P.c([True,False]); return lambda: curvedsky.rand_alm(c, lmax=l, seed=s, m_major=m)
@t
def rand_alm_white(P): s = P.c([1,2,5]); l = P.c([8,12]); m = P.c([True,False]); p = P.c([None,(2,)]); return lambda: curvedsky.rand_alm_white(curvedsky.alm_info(l), seed=s, m_major=m, pre=p)
@t
def rand_map_curved(P): g = P.geo(FULL); c = P.spec(lmax=(8,)); s = P.c([1,2,5]); return lambda: curvedsky.rand_map((3,)+g[0], g[1], c, seed=s)
@t
def rand_lensed(P):
	g = P.geo(FULL); c = P.spec(4, lmax=(8,)); s = P.c([1,2,(4,1)]); p = P.c([None,9]); o = P.c(["l","lu","ulpka"])
	return lambda: lensing.rand_map((3,)+g[0], g[1], c*0.01, seed=s, phi_seed=p, output=o)
SERIAL.update(["rand_map_flat","rand_alm","rand_alm_white","rand_map_curved","rand_lensed"])
# ---- lensing, aberration
@t
def lens_map(P): m = P.map(["car","tan"],dt=("f8",)); g = P.arr((2,12,18) if m.shape[-1]==18 else (2,15,14)); o = P.c([1,3]); return lambda: lensing.lens_map(m, enmap.ndmap(g*1e-3,m.wcs), order=o)
@t
def delens_map(P): m = P.map(["car"],dt=("f8",)); g = P.arr((2,12,18)); n = P.c([2,3]); return lambda: (lensing.delens_map(m, enmap.ndmap(g*1e-3,m.wcs), nstep=n), lensing.delens_grad(enmap.ndmap(g*1e-3,m.wcs), nstep=n))
@t
def displace_map(P): m = P.map(["car"],pre=((),(3,)),dt=("f8",)); g = P.arr((2,12,18),"u"); o = P.c([0,1,3]); b = P.c(["cyclic","nearest"]); return lambda: lensing.displace_map(m, g*10, order=o, border=b)
@t
def phi_to_kappa(P): a = P.alm(pre=((),),dt=("c16",)); return lambda: (lensing.phi_to_kappa(a), lensing.kappa_to_phi(a))
@t
def lens_curved(P): g = P.geo(FULL); a, b = P.alm(lmax=(8,),pre=((),),dt=("c16",)), P.alm(lmax=(8,),pre=((3,),),dt=("c16",)); o = P.c(["l","lug"]); return lambda: lensing.lens_map_curved((3,)+g[0], g[1], a*1e-3, b, output=o)
@t
def offset_by_grad(P): p, _ = P.poss(6); g = P.arr((2,6)); k = P.c([True,False]); return lambda: lensing.offset_by_grad(p, g*0.01, geodesic=k)
@t
def boost_map(P): m = P.map(FULL,pre=((),(3,)),dt=("f8",)); b = P.c([0.001,0.01]); d = P.c([False,True]); return lambda: aberration.boost_map(m, beta=b, dipole=d)
@t
def aberrate(P): m = P.map(FULL,pre=((),(3,)),dt=("f8",)); b = P.c([0.001,0.01]); return lambda: (aberration.aberrate_map(m, beta=b), aberration.deaberrate_map(m, beta=b))
@t
def modulate(P): m = P.map(FULL,pre=((),(3,)),dt=("f8",)); b = P.c([0.001,0.01]); return lambda: (aberration.modulate_map(m, beta=b), aberration.demodulate_map(m, beta=b))
@t
def aberrator(P):
	n = P.c(FULL); b = P.c([0.001,0.01]); m = P.map([n],pre=((),(3,)),dt=("f8",))
	a = P.obj(("aberr",n,b), lambda: aberration.Aberrator(geo(n)[0], geo(n)[1], beta=b)); return lambda: a(m)
@t
def modulator(P):
	n = P.c(FULL); b = P.c([0.001,0.01]); m = P.map([n],pre=((),(3,)),dt=("f8",))
	a = P.obj(("modul",n,b), lambda: aberration.Modulator(geo(n)[0], geo(n)[1], beta=b)); return lambda: a(m)
# ---- coordinates
@t
def coord_transform(P): p, _ = P.poss(6); a, b = P.c([("equ","gal"),("gal","equ"),("ecl","equ"),("equ","ecl")]); k = P.c([None,True]); return lambda: coordinates.transform(a, b, p[::-1], pol=k)
@t
def coord_euler(P): p, _ = P.poss(6); e = P.c([[0.1,0.2,0.3],[1.0,-0.4,0.2]]); return lambda: (coordinates.transform_euler(e, p[::-1]), coordinates.euler_mat(e), coordinates.euler_rot(e, p[::-1]))
@t
def recenter(P): p, _ = P.poss(6); c = P.c([[0.1,0.2],[1.0,-0.4]]); r = P.c([False,True]); return lambda: (coordinates.recenter(p[::-1], c, restore=r), coordinates.decenter(p[::-1], c, restore=r))
@t
def coord_sys(P): p, _ = P.poss(6); s = P.c(["equ:10_20","gal:0_30"]); return lambda: coordinates.transform("equ", s, p[::-1])
# ---- resample, reproject
@t
def resample_arr(P): a = P.arr((3,24)); f = P.c([[0.5],[2.0],[0.75]]); m = P.c(["fft","bin"]); return lambda: resample.resample(a, factors=f, method=m)
@t
def resample_bins(P): a = P.arr((3,24)); s = P.c([[2],[3]]); return lambda: (resample.downsample_bin(a, s), resample.upsample_bin(a, s))
@t
def thumbnails(P): p, n = P.poss(2, ["car","cea","tan"]); m = P.map([n],dt=("f8",)); r = P.c([1.0,1.4])*deg; k = dict(order=P.c([1,3]), oversample=P.c([1,2])); return lambda: reproject.thumbnails(m, p.T, r=r, res=0.5*deg, apod=0.5*deg, **k)
@t
def thumbnails_ivar(P): p, n = P.poss(2, ["car","cea","tan"]); m = P.map([n],pre=((),),dt=("f8",),pos=True); r = P.c([1.0,1.4])*deg; e = P.c([True,False]); return lambda: reproject.thumbnails_ivar(m, p.T, r=r, res=0.5*deg, extensive=e)
@t
def map2healpix(P): m = P.map(FULL,pre=((),(3,)),dt=("f8",)); n = P.c([4,8]); k = P.c([dict(method="harm",lmax=8),dict(method="spline",order=1),dict(method="harm",lmax=8,rot="gal,equ")]); return lambda: reproject.map2healpix(m, nside=n, **k)
@t
def healpix2map(P):
	n = P.c([4,8]); h = P.arr((3,12*n*n)); g = P.geo(FULL+["car"]); k = P.c([dict(method="harm",lmax=8),dict(method="spline",order=0),dict(method="spline",order=1),dict(method="harm",lmax=6,rot="gal,equ")])
	return lambda: reproject.healpix2map(h, *g, **k)
@t
def to_healpix(P): m = P.map(FULL,pre=((),),dt=("f8",)); n = P.c([4,8]); return lambda: enmap.to_healpix(m, nside=n, order=1)
@t
def rotate_map(P): m = P.map(["car","cea"],pre=((),),dt=("f8",)); g = P.geo(["tan"]); return lambda: reproject.rotate_map(m, g[0], g[1], m.shape, m.wcs)
@t
def cutout(P): m = P.map(["car"],pre=((),),dt=("f8",)); w = P.c([2.0,3.0])*deg; return lambda: reproject.cutout(m, w, ra=10*deg, dec=1*deg)
# ---- uharm, wavelets, analysis
@t
def uht(P):
	n, md = P.c([("car","flat"),("full","curved"),("tan","flat")]); l = P.c([8,10])
	u = P.obj(("uht",n,md,l), lambda: uharm.UHT(*geo(n), mode=md, lmax=l)); m = P.map([n],dt=("f8",))
	def f(): h = u.map2harm(m); return h, u.harm2map(h), u.quad_weights()
	return f
@t
def uht_prof(P):
	n, md = P.c([("car","flat"),("full","curved")]); l = P.c([8,10]); u = P.obj(("uht",n,md,l), lambda: uharm.UHT(*geo(n), mode=md, lmax=l)); b = P.arr((30,),"u")
	def f(): return u.lprof2hprof(b), u.hprof2rprof(u.lprof2hprof(b), np.linspace(0,5,20)*deg)
	return f
@t
def uht_ops(P):
	n, md = P.c([("car","flat"),("full","curved")]); l = P.c([8,10]); u = P.obj(("uht",n,md,l), lambda: uharm.UHT(*geo(n), mode=md, lmax=l)); b = P.arr((30,),"u"); m = P.map([n],pre=((),),dt=("f8",)); e = P.c([1,0.5])
	def f(): h = u.map2harm(m); w = u.lprof2hprof(b); return u.hmul(w**e, h), u.hrand(w) if False else 0, u.sum_hprof(w), u.mean_hprof(w) if hasattr(u,"mean_hprof") else 0
	return f
@t
def wavelet(P):
	n, md = P.c([("car","flat"),("full","curved")]); k = P.c([0,1,2])
	def make():
		u = uharm.UHT(*geo(n), mode=md, lmax=300 if md=="flat" else 16); b = [wavelets.Butterworth, wavelets.CosineNeedlet, wavelets.ButterTrim][k]
		return wavelets.WaveletTransform(u, b(np.array([2,4,8,16])) if k == 1 else b(step=2, shape=7))
	w = P.obj(("wav",n,md,k), make); m = P.map([n],dt=("f8",))
	def f(): q = w.map2wave(m); return q, w.wave2map(q)
	return f
@t
def matched_filter(P):
	n = P.c(["car","tan"]); u = P.obj(("uht",n,"flat",8), lambda: uharm.UHT(*geo(n), mode="flat", lmax=8)); m = P.map([n],pre=((),),dt=("f8",)); v = P.map([n],pre=((),),dt=("f8",),pos=True); s = P.c([200.,500.])
	def f(): B = np.exp(-0.5*(u.l/s)**2); return analysis.matched_filter_white(m, B, v, uht=u), analysis.matched_filter_constcov(m, B, 1/(1+(u.l/300)**-2.0 if False else 1.0+0*u.l), uht=u)
	return f
@t
def merge_arrays(P): a = P.get(("rec1",), lambda: np.zeros(4,[("a","d"),("b","i")])); b = P.get(("rec2",), lambda: np.ones(4,[("c","d",(2,))])); return lambda: analysis.merge_arrays([a,b])
# ---- point sources
@t
def sim_objects(P):
	p, n = P.poss(5); g = P.geo([n]); a = P.arr((5,)); s = P.c([0.3,0.6])*deg; k = dict(op=P.c(["add","max","min"]), vmin=P.c([1e-3,1e-2])); prof = P.get(("prof",s), lambda: np.array([np.linspace(0,5,60)*deg, np.exp(-0.5*(np.linspace(0,5,60)*deg/s)**2)]))
	return lambda: pointsrcs.sim_objects(*g, p, a, prof, **k)
@t
def sim_objects_cache(P):
	p, n = P.poss(5); g = P.geo([n]); a = P.arr((5,)); c = P.obj(("simcache",n), dict); s = P.c([0.3,0.6])*deg; prof = P.get(("prof",s), lambda: np.array([np.linspace(0,5,60)*deg, np.exp(-0.5*(np.linspace(0,5,60)*deg/s)**2)]))
	return lambda: pointsrcs.sim_objects(*g, p, a, prof, vmin=1e-3, cache=c)
@t
def radial_sum(P): p, n = P.poss(5); m = P.map([n],pre=((),),dt=("f4",)); b = P.get(("rbins",P.params[0]%2), lambda: np.linspace(0,2+P.params[0]%2,6)*deg); return lambda: (pointsrcs.radial_sum(m, p, b), pointsrcs.radial_bin(m, p, b))
@t
def radial_cache(P): p, n = P.poss(5); m = P.map([n],pre=((),),dt=("f4",)); c = P.obj(("radcache",n), dict); b = P.get(("rbins",P.params[0]%2), lambda: np.linspace(0,2+P.params[0]%2,6)*deg); return lambda: pointsrcs.radial_bin(m, p, b, cache=c)
def srcs(P):
	p, n = P.poss(5); a = P.arr((5,)); return P.get(("srcs",)+tuple(P.used[-2:]), lambda: np.array([p[0],p[1],a]).T), n
@t
def sim_srcs(P): s, n = srcs(P); g = P.geo([n]); w = P.c([0.4,0.6])*deg; k = {}; return lambda: pointsrcs.sim_srcs(*g, s, w, **k)
@t
def crossmatch(P): a, b = P.poss(6,["car"])[0], P.poss(7,["car"])[0]; m = P.c(["all","closest","first"]); r = P.c([1.0,3.0])*deg; return lambda: [tuple(int(v) for v in x) for x in utils.crossmatch(a.T, b.T, r, mode=m)]
# ---- multimap, tilemap
def mm(P): s = P.c([0,1]); p = P.c([(),(3,)]); return P.get(("mm",s,p), lambda: multimap.multimap([enmap.ndmap(np_rng(4,s,k,list(p)).standard_normal(p+geo(k)[0]), geo(k)[1]) for k in ("car","tan")]))
@t
def mm_arith(P): a = mm(P); return lambda: ((a*2+1).maps, multimap.mean(a), multimap.std(a))
@t
def mm_fft(P):
	a = mm(P)
	def f(): x = multimap.fft(a); return x.maps, multimap.ifft(x).maps
	return f
@t
def mm_geo(P): a = mm(P); return lambda: (a.posmap().maps, multimap.pixsizemap(a.geometries).maps)
def tm(P):
	s = P.c([0,1]); ac = P.c([(0,1,4),(2,3)])
	def make():
		g = tilemap.geometry((12,18), geo("car")[1], tile_shape=(5,6), active=list(ac)); t = tilemap.TileMap(np.zeros(sum(int(np.prod(g.tile_shapes[a])) for a in ac)), g); t[:] = np_rng(5,s,list(ac)).standard_normal(t.size); return t
	return P.get(("tm",s,ac), make)
@t
def tile_arith(P): a = tm(P); return lambda: (np.asarray(a*2+1), np.asarray(a.copy()), [np.asarray(x) for x in a.tiles])
@t
def tile_geo(P): a = tm(P); i = P.c([0,1]); return lambda: (a.tiles[i], a.active_tiles[i].wcs, a.geometry.nactive)
@t
def tile_enmap(P): a = tm(P); return lambda: tilemap.to_enmap(a) if hasattr(tilemap,"to_enmap") else None
# ---- spectra, interpolation, arrays, colors
@t
def sym_compress(P): c = P.spec(); s = P.c(["diag","stable","row"]); return lambda: (powspec.sym_compress(c, scheme=s), powspec.sym_expand(powspec.sym_compress(c, scheme=s), scheme=s))
@t
def scale_spectrum(P): c = P.spec(); d = P.c([1,-1]); return lambda: powspec.scale_spectrum(c, d)
@t
def spec2corr(P): c = P.spec(); return lambda: powspec.spec2corr(c, np.linspace(0.1,1,5))
@t
def map_coordinates(P): a = P.arr((3,10,12),dt=P.c(["f8","f4"])); x = P.arr((2,9),"u"); k = dict(order=P.c([0,1,3]), border=P.c(["cyclic","nearest","zero","mirror"]), mode=P.c(["spline","conv"])); return lambda: interpol.map_coordinates(a, (x*9).astype(float), **k)
@t
def spline_filter(P): a = P.arr((3,10,12)); b = P.c(["cyclic","nearest","mirror"]); return lambda: interpol.spline_filter(a, border=b, ndim=2)
@t
def uinterpol(P): a = P.arr((3,10,12)); x = P.arr((2,9),"u"); k = dict(order=P.c([0,1,3]), mode=P.c(["spline","fourier","linear","nearest"]), border=P.c(["nearest","constant"])); return lambda: utils.interpol(a, x*8, **{q:v for q,v in k.items() if not (q=="order" and k["mode"]!="spline")})
@t
def uinterpolator(P):
	o = P.c([1,3]); a = P.arr((3,10,12)); ip = P.obj(("ip",o,str(P.used[-1])), lambda: utils.interpolator(a, 1, mode="spline", order=o)); x = P.arr((2,9),"u"); return lambda: ip(x*8)
@t
def eigpow(P): c = P.get(("psd",P.params[0]%2), lambda: (lambda A: np.einsum("xab,xcb->xac",A,A))(np_rng(6,P.params[0]%2).standard_normal((5,3,3)))); e = P.c([0.5,-1.0]); return lambda: utils.eigpow(c, e)
@t
def find_contours(P): m = P.map(["car","tan"],pre=((),)); v = P.c([[0.0],[-0.5,0.5]]); return lambda: array_ops.find_contours(m, v)
@t
def roll_rows(P): a = P.arr((6,9)); o = P.arr((6,),"i"); return lambda: array_ops.roll_rows(a, o)
@t
def ang2rect(P): p, _ = P.poss(6); return lambda: (array_ops.ang2rect(p), utils.ang2rect(p), utils.rect2ang(utils.ang2rect(p)))
@t
def matmul(P): a, b = P.arr((3,3,20)), P.arr((3,20)); return lambda: array_ops.matmul(a, b, axes=[0,1]) if False else np.einsum("abi,bi->ai",a,b)
@t
def colorize_(P): a = P.arr((7,8),"u"); d = P.c(["planck","wmap","gray","hotcold"]); v = P.c(["auto","python","fortran"]); return lambda: colorize.colorize(a, desc=d, driver=v)
@t
def block(P): a = P.arr((3,24)); s = P.c([4,6]); return lambda: (utils.block_reduce(a, s), utils.block_mean_filter(a, s), utils.block_expand(a, 2, 48))
@t
def binning(P): a = P.arr((40,)); b = P.c([4,5]); return lambda: (utils.linbin(40, b), utils.expbin(40, b), utils.bin_data(utils.linbin(40, b), a))
@t
def beams(P): s = P.c([1.0,2.0])*deg; n = P.c([5,7]); return lambda: (pointsrcs.expand_beam(s, n), utils.airy(np.linspace(0,3,10)), utils.tsz_spectrum(np.array([90e9,150e9])))
@t
def tsz_profile(P):
	r = P.arr((6,),"s"); k = dict(xc=P.c([0.497,0.3]), alpha=P.c([1.0,1.2]), beta=P.c([-4.65,-4.2]), gamma=P.c([-0.3,-0.4])); z = P.c([1e5,1e4]); n = P.c([30,20]); x = P.c([(1e-8,1e4),(1e-6,1e4),(1e-8,1e3)]); o = P.c([0,0,1,2])
	c = [None,None,P.obj(("tszcache",),dict),{}][o]
	return lambda: (utils.tsz_profile_los(r, zmax=z, npoint=n, x1=x[0], x2=x[1], cache=c, **k), utils.tsz_profile_raw(r, **k))
@t
def tsz_tform(P): s = P.c([1.0,2.0])*amin; l = P.c([np.arange(0,3000,300),np.arange(0,2000,100)]); return lambda: utils.tsz_tform(s, l)
@t
def unwind(P): a = P.arr((3,20)); p = P.c([2*np.pi,1.0]); return lambda: (utils.unwind(a*5, p), utils.rewind(a*5, period=p))
@t
def medmean(P): a = P.arr((3,20)); f = P.c([0.5,0.3]); return lambda: (utils.medmean(a, axis=-1, frac=f), utils.weighted_quantile(a, np.abs(a)+0.1, f))
@t
def angdist(P): a, b = P.poss(6,["car"])[0], P.poss(6,["car"])[0]; return lambda: (utils.angdist(a[::-1],b[::-1]), utils.vec_angdist(utils.ang2rect(a[::-1]),utils.ang2rect(b[::-1])))
@t
def cov2corr(P): c = P.spec(); return lambda: utils.cov2corr(np.moveaxis(c[...,1:],-1,0)[0])
@t
def label_unique(P): a = P.arr((20,),"i"); return lambda: (utils.label_unique(a), utils.find_equal_groups(a[:,None]), utils.common_vals([a,a[:9]]), utils.union([a,a+1]))
@t
def ranges(P): a = P.arr((6,),"i"); return lambda: (utils.mask2range(a>8), utils.range_union(np.array([[0,3],[2,5],[8,9]])), utils.range_normalize(np.array([[0,3],[2,5],[8,9]])))
@t
def parse(P): s = P.c(["1,3:6,9","2:9:3"]); return lambda: (utils.parse_ints(s), utils.parse_box("-5:5,3:10"), utils.nint(2.6), utils.primes(84))
@t
def grid(P): n = P.c([[3,4],[5,2]]); e = P.c([True,False]); return lambda: utils.grid(np.array([[0.,1.],[2.,5.]]), n, endpoint=e)
@t
def bunch_(P):
	v = P.c([1,2])
	def f(): b = bunch.Bunch(a=v, b=bunch.Bunch(c=[v])); c = b.copy(); c.a = 9; return b.a, c.a, sorted(b.keys()), b.b.c
	return f
@t
def gridinfo(P):
	g = P.geo(["car","tan"]); s = P.c([[2,2],[1,1]])
	def f(): i = cgrid.calc_gridinfo(*g, steps=s); return [np.asarray(x[1]) for x in i.lon[:3]] if hasattr(i,"lon") else [len(i.lat)]
	return f
@t
def wcs_build(P):
	p = P.c(["car","cea","tan","zea","arc","sin","mer"]); r = P.c([0.5,1.0])
	def f():
		w = getattr(wcsutils,p)(np.array([[-3.,-4.],[5.,6.]])[:, ::-1], res=r); return w
	return f
@t
def wcs_props(P): g = P.geo(LOC+FULL); return lambda: (wcsutils.is_cyl(g[1]), wcsutils.is_separable(g[1]), wcsutils.is_plain(g[1]), wcsutils.describe(g[1]), wcsutils.is_compatible(g[1], geo("car")[1]), wcsutils.scale(g[1], 2))
@t
def mapio(P):
	import io, tempfile, os
	m = P.map(); e = P.c([".fits",".hdf"])
	def f():
		with tempfile.TemporaryDirectory() as d: enmap.write_map(d+"/a"+e, m); return enmap.read_map(d+"/a"+e), enmap.read_map_geometry(d+"/a"+e)
	return f
# ---- more
@t
def lforms(P): m = P.fmap(FLAT); k = P.c(["auto","intermediate"]); return lambda: (enmap.lform(m, method=k), enmap.lwcs(m.shape, m.wcs, method=k), m.lpixsize(), m.lpixshape())
@t
def lrmap(P): g = P.geo(FLAT); o = P.c([1,2]); return lambda: enmap.lrmap(*g, oversample=o)
@t
def l2pix(P): g = P.geo(FLAT); a = P.arr((2,5),"u"); return lambda: (enmap.l2pix(*g, a*100), enmap.pix2l(*g, a*10))
@t
def contains(P): p, n = P.poss(6); g = P.geo(LOC); return lambda: (enmap.contains(*g, p), enmap.overlap(g[0], g[1], (10,10), g[1]))
@t
def radial_average(P): m = P.map(FLAT,pre=((),),dt=("f8",)); s = P.c([1.0,2.0])*deg; return lambda: enmap.radial_average(m, center=m.center() if False else [0,0], step=s)
@t
def div(P): m = P.map(FLAT,pre=((2,),),dt=("f8",)); return lambda: enmap.div(m)
@t
def spec2flat_corr(P): g = P.geo(FLAT); c = P.spec(); return lambda: enmap.spec2flat_corr(*g, c)
@t
def grade_fft(P): m = P.map(["car","tan"],dt=("f8",)); f = P.c([2,3]); return lambda: (enmap.downgrade_fft(m, f), enmap.upgrade_fft(m, f))
@t
def recenter_cyl(P): g = P.geo(["car","carf","cea","full"]); return lambda: enmap.recenter_cyl(*g)
@t
def insert_at(P):
	m, o = P.map(["car"],pre=((),),dt=("f8",)), P.map(["car","tan"],pre=((),),dt=("f8",)); x = P.c([[2,3],[-4,-5],[7,9]])
	def f(): a = o.copy(); enmap.insert_at(a, np.array([x,[x[0]+6,x[1]+7]]), m[:6,:7]); return a
	return f
@t
def dct_adj(P): m = P.map(dt=("f8",)); return lambda: (enmap.dct_adjoint(m.copy()), enmap.idct_adjoint(m.copy()))
@t
def unapply_window(P): m = P.map(dt=("f8",)); o = P.c([0,1]); return lambda: enmap.unapply_window(m, order=o)
@t
def fftshift2(P): m = P.map(dt=("f8",)); return lambda: (enmap.fftshift(m), enmap.ifftshift(m))
@t
def mapmisc(P): m = P.map(); return lambda: (m.plain, m.corners(), m.pixshapemap(), m.autocrop(value=7.5) if False else 0, m.downgrade(2), m.upgrade(2), m.fillbad(), m.argmax(), repr(m)[:50])
@t
def pickle_map(P):
	import pickle
	m = P.map(); return lambda: pickle.loads(pickle.dumps(m))
@t
def geomethods(P):
	g = P.geo(); s = P.c([2,3]); p = P.arr((2,5),"u")
	def f(): G = enmap.Geometry(*g); return G.copy(), G.pix2sky(p*8), G.sky2pix(G.pix2sky(p*8)), G.submap(pixbox=np.array([[2,3],[8,9]]))
	return f
@t
def healpix_dist(P):
	n = P.c([2,4]); s = P.c([0,1]); k = P.get(("hmask",n,s), lambda: np_rng(21,n,s).random(12*n*n) < 0.7); p = P.poss(3)[0]; r = P.c([None,0.5])
	return lambda: (enmap.distance_transform_healpix(k, rmax=r), enmap.distance_from_healpix(n, p, rmax=r))
@t
def nufft1(P): a = P.arr((8,),dt="c16"); i = P.arr((1,8),"u"); s = P.c([(10,),(11,)]); n = P.c([False,True]); return lambda: fft.nufft(a, i*9, oshape=s, normalize=n)
@t
def inufft1(P): a = P.arr((10,),dt="c16"); i = P.arr((1,8),"u"); n = P.c([False,True]); return lambda: fft.inufft(a, i*9, normalize=n)
@t
def iu2nu1(P): a = P.arr((14,),dt="c16"); i = P.arr((1,14),"u"); return lambda: fft.nufft_adjoint(P.arr((10,),dt="c16"), i[:,:8]*9) if False else fft.u2nu(a, i*9)
@t
def freqs(P): n = P.c([8,9]); i = P.arr((6,),"i"); return lambda: (fft.ind2freq(n, i%n), fft.freq2ind(n, fft.ind2freq(n, i%n)))
@t
def sweeps(P): n = P.c([40,60]); return lambda: (utils.find_period(np.sin(np.arange(400)*2*np.pi/n)), utils.triangle_wave(np.arange(10.0), period=n/10))
@t
def text(P): s = P.c(["a,b(c,d),e","x(1,2),y"]); return lambda: (utils.split_outside(s,","), utils.format_to_glob("a%03d"), utils.to_sexa(12.345), utils.parse_floats("1,2:5"), utils.pathsplit("/a/b/c"))
@t
def splits(P): a = P.arr((12,),"u"); n = P.c([2,3]); return lambda: (utils.equal_split(a, n), utils.split_by_group("ab(cd)e","(",")"))
@t
def disks(P): d = P.arr((6,),"u"); r = P.c([0.3,0.6]); return lambda: (utils.disk_overlap(d, r), utils.disk_overlap_curved(d, r))
@t
def binmulti(P): p = P.arr((2,15),"i"); w = P.arr((15,),"u"); return lambda: (utils.bin_multi(p, (20,20), weights=w), utils.bincount(p[0], weights=w), utils.sum_by_id(w, p[0]))
@t
def boxes(P): a = P.get(("bxs",P.params[0]%3), lambda: np.sort(np_rng(22,P.params[0]%3).uniform(0,5,(4,2,2)),1)); return lambda: (utils.box_overlap(a,a), utils.box2corners(a[0]), utils.widen_box(a[0]), utils.pad_box(a[0], 0.3), utils.box_area(a), utils.box2contour(a[0],4))
@t
def polewrap(P): a = P.arr((2,9)); return lambda: (utils.pole_wrap(a*3), utils.rescale(a), utils.between_angles(a[0], [0.1,0.9]), utils.unwrap_range([0.1,7.0]) if False else 0)
@t
def polygons(P): a, b = P.arr((5,2),"u"), P.arr((4,2),"u"); return lambda: (utils.point_in_polygon(a[None], b[None]), utils.poly_edge_dist(a[None], b[None]))
@t
def bases(P): x = P.arr((9,),"u"); n = P.c([3,5]); return lambda: (utils.build_legendre(x, n), utils.build_cossin(x, n))
@t
def tform(P): b = P.get(("bl",P.params[0]%2), lambda: np.exp(-0.5*(np.arange(200)/(60.+40*(P.params[0]%2)))**2)); n = P.c([False,True]); return lambda: utils.tform_to_profile(b, np.linspace(0,3,9)*deg, normalize=n)
@t
def fftlog(P):
	n = P.c([128,256]); e = P.obj(("rft",n), lambda: utils.RadialFourierTransform(n=n, pad=n//4))
	def f(): a = np.exp(-0.5*(e.r/deg)**2); return e.real2harm(a), e.harm2real(np.exp(-0.5*(e.l/300)**2))
	return f
@t
def binedges(P): b = P.c([4,5]); a = P.arr((40,)); return lambda: (utils.edges2bins(np.arange(0,40,b)), utils.bins2edges(utils.linbin(40,b)), utils.bin_expand(utils.linbin(40,b), utils.bin_data(utils.linbin(40,b), a)))
@t
def solve(P): a = P.get(("psd",P.params[0]%2), lambda: (lambda A: np.einsum("xab,xcb->xac",A,A))(np_rng(6,P.params[0]%2).standard_normal((5,3,3)))); b = P.arr((5,3)); return lambda: (utils.eigsort(a[0]), utils.build_conditional(np.moveaxis(a,0,-1), [True,False,True]) if False else 0)
@t
def labels(P): a, b = P.arr((14,),"i"), P.arr((14,),"i"); return lambda: (utils.find_equal_groups_fast(a), utils.label_multi([a,b]), utils.dedup(a), utils.common_inds([a,b]), utils.find(np.arange(20), a), utils.nearest_ind(np.arange(0.,20,3), b), utils.uncat(a,[3,4,7]))
@t
def medians(P): a, b = P.arr((3,20)), P.arr((3,20),"u"); return lambda: (utils.weighted_median(a, b), utils.maskmed(a), utils.medmean2(a), utils.deslope(a), utils.slice_downgrade(a, slice(0,None,3)), utils.remove_nan(a), utils.repeat_filler(a[0],30))
@t
def beamsutil(P): s = P.get(("sig",P.params[0]%2), lambda: np.array([1.0,0.6+0.2*(P.params[0]%2)])); p = P.c([0.3,1.0]); return lambda: (utils.compress_beam(s, p), utils.expand_beam(utils.compress_beam(s, p)), utils.combine_beams(np.array([utils.compress_beam(s,p)]*2)))
@t
def physics(P): f = P.c([90e9,150e9]); T = P.c([2.7,20.0]); return lambda: (utils.planck(f, T), utils.graybody(f, T), utils.dplanck(f, T), utils.blackbody(f, T), utils.iplanck_T(f, utils.planck(f,T)), utils.airy_area(6.0, 2e-3), utils.noise_flux_factor(1e-6, f))
@t
def uharm_misc(P): g = P.geo(FLAT+["full"]); r = P.c([0.5,1.0])*deg; return lambda: (uharm.estimate_distortion(*g), uharm.res2lmax(r), uharm.profile2harm_flat(np.exp(-0.5*(np.linspace(0,5,40)*deg/r)**2), np.linspace(0,5,40)*deg))
@t
def wavelet2(P):
	k = P.c([0,1]); v = P.c([0,1])
	def make():
		u = uharm.UHT(*geo("car"), mode="flat", lmax=300); b = [wavelets.DigitalButterTrim(step=2, shape=7), wavelets.Butterworth(step=1.5, shape=5)][k]
		return wavelets.WaveletTransform(u, b)
	w = P.obj(("wav2",k), make); m = P.map(["car"],dt=("f8",)); 
	def f(): q = w.map2wave(m); return q, w.wave2map(q)
	return f
@t
def finder(P):
	n = P.c(["car","tan"]); u = P.obj(("uht",n,"flat",8), lambda: uharm.UHT(*geo(n), mode="flat", lmax=8)); m = P.map([n],pre=((1,),),dt=("f8",)); s = P.c([200.,400.])
	ca = [None,P.obj(("nmcache",n,str(P.used[-1])), dict)][P.c([0,1])]
	def f():
		B = np.exp(-0.5*(u.l/s)**2)[None]; ap = enmap.ndmap(np.ones(m.shape[-2:]), m.wcs); nm = analysis.NmatConstcov(1+0*u.l[None,None], ap)
		return nm.matched_filter(m, enmap.ndmap(np.array(B), m.wcs), cache=ca)
	return f
@t
def geos_misc(P): w = P.c([2.0,3.0]); r = P.c([0.5,0.25]); return lambda: (reproject.gnomonic_pole_geometry(w*deg, r*deg), reproject.rect_geometry(w*deg, r*deg), reproject.distribute(10,3), reproject.restrict_nside(37))
@t
def mm_misc(P):
	a = mm(P); k = P.c([0,1,2,3,4])
	return lambda: [lambda: multimap.median(a), lambda: multimap.max(a), lambda: multimap.var(a), lambda: multimap.lmap(a.geometries).maps, lambda: multimap.modrmap(a.geometries).maps][k]()
@t
def mm_harm(P):
	a = mm(P)
	def f(): h = multimap.map2harm(a); return h.maps, multimap.harm2map(h).maps, multimap.rotate_pol(a, 0.3).maps if a.pre else 0
	return f
@t
def mm_map_mul(P): a = mm(P); s = P.c([2.0,3.0]); return lambda: ((a*s).maps, (a+a).maps, (-a).maps, multimap.full(a.geometries, s).maps, (a.copy()).maps)
@t
def tile_make(P):
	ac = P.c([(0,1,4),(2,3)]); ts = P.c([(5,6),(4,7)]); v = P.c([1.0,2.5])
	def f():
		g = tilemap.geometry((12,18), geo("car")[1], tile_shape=ts, active=list(ac)); m = tilemap.full(g, v) if hasattr(tilemap,"full") else tilemap.zeros(g)
		return np.asarray(m), [np.asarray(x) for x in m.active_tiles], g.tile_shapes, g.active, g.lookup, tilemap.to_enmap(m)
	return f
@t
def tile_insert(P):
	a, b = tm(P), tm(P)
	def f(): c = a.copy(); c.insert(b, op=lambda x,y: x+2*y) if set(b.geometry.active) <= set(a.geometry.active) else None; return np.asarray(c), [np.asarray(x) for x in c.active_tiles]
	return f
@t
def deboost(P): m = P.map(FULL,pre=((),),dt=("f8",)); b = P.c([0.001,0.01]); a = P.c([True,False]); return lambda: aberration.deboost_map(m, beta=b, aberrate=a)
@t
def colorschemes(P): d = P.c(["planck","wmap","gray"]); return lambda: (np.array(colorize.Colorscheme(d).vals), np.array(colorize.Colorscheme(d).cols))
@t
def cells(P): p, n = P.poss(5,["car","tan"]); m = P.map([n],pre=((),),dt=("f8",)); r = P.c([(4,5),(3,7)]); return lambda: (pointsrcs.cellify(m[:12,:14], (4,7)), pointsrcs.nsigma2rmax(pointsrcs.expand_beam(1*deg), 3.0))
@t
def srcmatch(P): a = P.get(("cat",P.params[0]%2), lambda: np_rng(23,P.params[0]%2).uniform(0,0.1,(6,3))); t_ = P.c([1.0,2.0])*deg; return lambda: np.array(pointsrcs.crossmatch(a, a[::-1]*1.001, tol=t_))
# ---- further utilities
@t
def setops(P): a, b = P.arr((14,),"i"), P.arr((9,),"i"); return lambda: (utils.find_any(np.arange(0,20,2), a), utils.contains(a, b), utils.inverse_order(np.argsort(a, kind="stable")), utils.transpose_inds(a, 4, 5), utils.same_array(a, a[:]), utils.contains_any("abcd", ["x","c"]))
@t
def unmask(P): a = P.arr((3,14)); m = P.arr((14,),"i"); f = P.c([0,np.nan]); return lambda: utils.unmask(a[:,m>9], m>9, axis=1, fill=f)
@t
def ranges2(P):
	a = P.get(("rng",P.params[0]%2), lambda: np.array([[0,100],[200,1000],[1500,1600]])+P.params[0]%2*7); b = P.get(("rng2",P.params[1]%2), lambda: np.array([[1,2],[30,40],[80,999]])+P.params[1]%2*5); k = P.c([False,True])
	return lambda: (utils.range_sub(a, b, mapping=k), utils.range_cut(a, np.array([0,20,70,300])), utils.range_union(a, mapping=k))
@t
def beamreg(P): n = P.c([200,120]); b = P.get(("bl",n), lambda: 3*np.exp(-0.5*(np.arange(n)/30.)**2)); k = dict(cutoff=P.c([1e-2,1e-3]), nl=P.c([None,100,300]), normalize=P.c([False,True])); return lambda: utils.regularize_beam(b, **k)
@t
def unwrap_range(P): a = P.get(("wr",P.params[0]%3), lambda: np.array([[1.,5.,-20.],[-3.,30.,1.]])*(1+P.params[0]%3)); return lambda: utils.unwrap_range(a)
@t
def reshapes2(P): a = P.arr((2,3,4,5)); n = P.c([2,3,4,5]); x = P.c([0,-1]); return lambda: (utils.to_Nd(a, n, axis=x), utils.to_Nd(a, n, axis=x, return_inverse=True), utils.preflat(a,2), utils.resize_array(a, (3,2), axis=(1,2)))
@t
def splits2(P): w = P.arr((12,),"u"); n = P.c([2,3,4]); return lambda: (utils.greedy_split_simple(w, n), utils.equal_split(w, n))
@t
def covs2(P): s = P.spec(); d = P.arr((3,),"u"); return lambda: (utils.corr2cov(s[...,2], d), utils.nodiag(s[...,2]), utils.build_conditional(s[...,2:5], [0]), utils.decomp_basis(s[...,2], d))
@t
def times(P): c = P.c([1.5e9,1.6e9+3600.5]); a = P.arr((4,),"s"); return lambda: (utils.ctime2mjd(c+a), utils.mjd2ctime(58000+a), utils.ctime2djd(c), utils.djd2ctime(4e4), utils.ctime2jd(c), utils.jd2ctime(2.45e6), utils.mjd2djd(a), utils.djd2mjd(a), utils.mjd2jd(a), utils.jd2mjd(a), utils.ctime2date(c), utils.date2ctime(utils.ctime2date(c)))
@t
def sboxes(P):
	a = P.get(("sb",P.params[0]%2), lambda: np.array([[[2,9,1],[3,11,2]],[[0,4,1],[9,1,-2]]])[P.params[0]%2]); b = P.get(("sb2",P.params[1]%2), lambda: np.array([[[0,12,1],[1,13,1]],[[3,12,1],[0,13,1]]])[P.params[1]%2]); w = P.c([0,20])
	return lambda: (utils.sbox_intersect(a, b, wrap=w), utils.sbox_div(a, b, wrap=w), utils.sbox_flip(a), utils.sbox_wrap(a, wrap=w), utils.sbox_fix(a), utils.sbox_size(a), utils.sbox_mul(b, np.array([[0,4,1],[1,5,1]])))
@t
def strs(P): r, d = P.c([0.3,4.0]), P.c([-0.2,0.7]); return lambda: (utils.jname(r, d), utils.format_sexa(d), utils.replace("abc", "a", "x"), utils.split_esc("a,b\\,c,d", ","), utils.parse_slice("[::2,3:%d]" % (10*r)).__repr__(), utils.ndigit(1234), utils.format_to_regex("a%03dz"))
@t
def airy2(P): x = P.arr((30,),"s"); return lambda: (utils.lairy(x/10), utils.infer_bin_edges(x), utils.dicedist(3,6), utils.distpow(np.array([0.2,0.8]),5), utils.airy_lmax(6,2e-3), utils.chord2ang(x/40), utils.res2nside(0.01), utils.nside2res(64))
@t
def nans(P):
	a = P.get(("nan",P.params[0]%2), lambda: np.where(np_rng(31,P.params[0]%2).uniform(size=(4,9)) < 0.3, np.nan, 2.5)); v = P.c([0,7]); return lambda: (utils.without_nan(a), utils.tofinite(a, v), utils.outer_stack([a[0],a[1,:3]]))
@t
def sweeps2(P): n = P.c([200,333]); a = P.get(("az",n), lambda: np.abs((np.arange(n)*0.037)%2-1)); return lambda: (utils.find_sweeps(a), utils.find_period(a))
@t
def fftlog2(P): n, pd, b = P.c([64,100]), P.c([0,8]), P.c([0,0.5]); o = P.obj(("fftlog",n,pd,b), lambda: utils.FFTLog(xrange=[1e-3,1e3], n=n, pad=pd, bias=b)); s = P.c([1.0,3.0]); return lambda: (o.fft(np.exp(-o.x*s)), o.ifft(o.fft(np.exp(-o.x*s))), o.unpad(o.x), o.k)
@t
def flux(P): f = P.c([90e9,150e9]); return lambda: (utils.flux_factor(1e-6, f), utils.tsz_spectrum(f), utils.noise_flux_factor(1e-6, f))
@t
def bunches(P):
	v = P.arr((3,)); k = P.c(["a","b"])
	def f():
		b = bunch.Bunch(a=v, b=2, c=bunch.Bunch(x=1)); b[k] = 5; d = b.copy() if hasattr(b,"copy") else b; d.z = 3; del d["c"]
		return sorted(b.keys()), [b[q] for q in ("a","b")], k in b, len(b), len(d), list(d.items())[:2], bunch.concatenate([bunch.Bunch(a=v,b=v), bunch.Bunch(a=v+1,b=v)])
	return f
# ---- further fft and harmonic transforms
@t
def nufft2(P):
	a = P.arr((3,24)); i = P.arr((2,7),"u"); k = P.c([0,1,2,3]); fl = P.c([False,True])
	ar = P.arr((6,8)); q = P.arr((7,))
	return lambda: [lambda: fft.nufft_adjoint(q+0j, i*5, oshape=(6,8), axes=[-2,-1], flip=fl), lambda: fft.nu2u(q+0j, i*5, oshape=(6,8), axes=[-2,-1], forward=fl), lambda: fft.inufft(fft.fft(ar, axes=[-2,-1]), i*5, axes=[-2,-1], flip=fl), lambda: fft.u2nu(fft.fft(ar, axes=[-2,-1]), i*5, axes=[-2,-1], forward=fl)][k]()
@t
def mm_fft2(P):
	a = mm(P); k = P.c([0,2]); nm = P.c([True,False])
	def f():
		F = multimap.fft(a, normalize=nm)
		if k == 0: return F.maps, multimap.ifft(F, normalize=nm).maps
		return multimap.ifft_adjoint(a, normalize=nm).maps, multimap.fft_adjoint(F, normalize=nm).maps
	return f
@t
def mm_more(P):
	a = mm(P); k = P.c([0,1,2,3])
	return lambda: [lambda: multimap.min(a), lambda: multimap.pixsize(a.geometries), lambda: (a.nmap, a.ntot, multimap.samegeos(a*2, a).maps), lambda: [np.asarray(m) for m in a.contig.maps] if hasattr(a.contig,"maps") else 0][k]()
@t
def uht_more(P):
	n = P.c(["car","tan","full"]); mo = "flat" if n != "full" else P.c(["flat","curved"]); u = P.obj(("uht",n,mo,8), lambda: uharm.UHT(*geo(n), mode=mo, lmax=8)); m = P.map([n],dt=("f8",)); s = P.c([5.,20.])
	def f():
		h = u.map2harm(m, spin=0); pr = u.lprof2hprof(np.exp(-np.arange(0,2000)/s)) if hasattr(u,"lprof2hprof") else 1.0
		return np.asarray(h), u.hmul(pr, h), u.harm2powspec(h) if hasattr(u,"harm2powspec") else 0, 0
	return f
@t
def mfilters(P):
	n = P.c(["car","tan"]); u = P.obj(("uht",n,"flat",8), lambda: uharm.UHT(*geo(n), mode="flat", lmax=8)); m = P.map([n],pre=((),),dt=("f8",)); iv = P.map([n],pre=((),),dt=("f8",),pos=True); s = P.c([200.,400.]); k = P.c([0,1,2]); ha = P.c([False,True])
	def f():
		B = np.exp(-0.5*(u.l/s)**2); iC = 1/(1+(np.maximum(u.l,1)/100.)**-2)
		if k == 0: return analysis.matched_filter_constcorr_lowcorr(m, B, iv, iC, u, high_acc=ha)
		if k == 1: return analysis.matched_filter_constcorr_smoothivar(m, B, iv, iC, u)
		return analysis.matched_filter_constcorr_dual(m, B, iv, iC, u)
	return f
@t
def nmatcorr(P):
	n = P.c(["car","tan"]); u = P.obj(("uht",n,"flat",8), lambda: uharm.UHT(*geo(n), mode="flat", lmax=8)); m = P.map([n],pre=((1,),),dt=("f8",)); iv = P.map([n],pre=((1,),),dt=("f8",),pos=True); s = P.c([200.,400.])
	ca = [None,P.obj(("nmcache2",n,str(P.used[-1]),str(P.used[-2])), dict)][P.c([0,1])]
	def f():
		B = enmap.ndmap(np.array(np.exp(-0.5*(u.l/s)**2)[None]), m.wcs); nm = analysis.NmatConstcorr(enmap.ndmap(np.array(1+0*u.l[None,None]),m.wcs), iv)
		return nm.matched_filter(m, B, cache=ca)
	return f
@t
def wavevar(P):
	k = P.c([0,1])
	def make():
		u = uharm.UHT(*geo("car"), mode="flat", lmax=300); b = [wavelets.ButterTrim(step=2, shape=7), wavelets.Butterworth(step=1.5, shape=5)][k]
		return wavelets.WaveletTransform(u, b)
	w = P.obj(("wavv",k), make); m = P.map(["car"],pre=((),),dt=("f8",))
	def f():
		v = w.get_variance_transform(); q = v.map2wave(m); return q, v.wave2map(q), w.shape, w.geometry
	return f
# ---- further maps
@t
def extents2(P): g = P.geo(LOC+FULL); s = P.c([True,False]); ns = P.c([None,4]); return lambda: (enmap.extent_subgrid(*g, nsub=ns, signed=s), enmap.area_intermediate(*g), reproject.get_pixsize_rect(*g))
@t
def crops(P):
	m = P.map(["car","tan","cea"],pre=((),)); k = P.c([2,3])
	def f():
		z = m.copy(); z[...,:k,:] = 0; z[...,:,-k:] = 0
		a, info = enmap.autocrop(z, return_info=True); q, i2 = enmap.padcrop(a, info), info
		return a, q, enmap.argmin(m), enmap.argmax(m), m.padslice(np.array([[-2,1],[9,15]])), enmap.find_blank_edges(z)
	return f
@t
def stamps2(P): p, n = P.poss(4); m = P.map([n]); s = P.c([(3,3),(4,5)]); a = P.c([True,False]); return lambda: enmap.stamps(m, p.T, s, aslist=a)
@t
def tilemaps(P): a, b = P.map(["car"],pre=((),),dt=("f8",)), P.map(["car"],pre=((),),dt=("f8",)); return lambda: (enmap.tile_maps([[a,b],[b,a]]), a.contains(np.array([0.05,0.17])), a.npix)
@t
def geoobj(P): g = P.geo(); s = P.c([2,3]); return lambda: [((q.shape, q.wcs)) for q in (enmap.Geometry(*g).scale(s), enmap.Geometry(*g).with_pre((s,)), enmap.Geometry(*g).submap(pixbox=np.array([[1,2],[9,10]])))]
@t
def pix2l(P): m = P.map(pre=((),)); p = P.arr((2,6),"u"); return lambda: (m.pix2l(p*5), m.l2pix(p*500), enmap.pix2l(m.shape, m.wcs, p*3))
@t
def labdist(P):
	n = P.c(["car","tan","full"]); g = P.geo([n]); s = P.c([0,1]); r = P.c([None,5*deg,20*deg])
	L = P.get(("lab",n,s), lambda: enmap.ndmap((np_rng(33,n,s).uniform(size=geo(n)[0]) < 0.06).astype(np.int32)*np_rng(34,n,s).integers(1,5,geo(n)[0]).astype(np.int32), geo(n)[1]))
	me = P.c(["cellgrid","bubble"]); return lambda: (enmap.labeled_distance_transform(L, rmax=r, method=me), L.distance_from(np.array([[0.05],[0.17]])) if n == "car" else 0)
@t
def labdisth(P):
	s = P.c([0,1]); L = P.get(("labh",s), lambda: (np_rng(35,s).uniform(size=12*16) < 0.1).astype(np.int32)*np_rng(36,s).integers(1,5,12*16).astype(np.int32)); r = P.c([None,20*deg])
	return lambda: enmap.labeled_distance_transform_healpix(L, rmax=r)
@t
def to_hp(P): m = P.map(FULL,pre=((),),dt=("f8",)); o = P.c([0,1,3]); c = P.c([7,100000]); return lambda: enmap.to_healpix(m, nside=4, order=o, chunk=c)
@t
def hp_maps(P):
	h = P.get(("hpm",P.params[0]%2), lambda: np_rng(37,P.params[0]%2).standard_normal(12*16)); n = P.c(["full","car"]); g = P.geo([n]); k = P.c([0,1,2]); r = P.c([None,"gal,equ"]); m = P.map(["full"],pre=((),),dt=("f8",))
	return lambda: [lambda: reproject.enmap_from_healpix_interp(h, *g, rot=r, interpolate=n=="car"), lambda: reproject.enmap_from_healpix(h, *g, lmax=8, rot=r), lambda: reproject.healpix_from_enmap(m, 8, 4)][k]()
@t
def centered(P): m = P.map(["car","car2"],pre=((),(3,)),dt=("f8",)); r = P.c([0.5,0.4])*deg; b = P.c([True,False]); return lambda: reproject.centered_map(m, r, box=m.box(), proj="car", rotate_pol=b)
@t
def populate(P): g = P.geo(["car","tan"]); n = P.c([5,7,400]); return lambda: reproject.populate(*g, lambda s, w: enmap.ndmap(enmap.posmap(s, w)[0], w), maxpixy=n, maxpixx=n)
@t
def matmuls(P): a, b = P.arr((3,3,8)), P.arr((3,3,8)); v = P.arr((3,8)); return lambda: (array_ops.matmul(a, b, axes=[0,1]), array_ops.matmul(a, v, axes=[0,1]), array_ops.matmul_sym(a+np.moveaxis(a,0,1), b+np.moveaxis(b,0,1), axes=[0,1]))
@t
def colordirect(P): a = P.arr((3,9,7),"u"); k = P.c(["direct","direct_colorcap"]); d = P.c(["planck","gray"]); return lambda: (colorize.colorize(a, driver="fortran", mode=k))
@t
def grids2(P):
	g = P.geo(["car","tan","full"]); s = P.c([1,2]); w = P.c([1,2])
	def f(): i = cgrid.calc_gridinfo(*g, steps=[s,s], nstep=[40,40]); im = cgrid.draw_grid(i, width=w); return np.array(im), cgrid.calc_label_pos(i.lon+i.lat if isinstance(i.lon,list) else i.lon, i.shape)
	return f
@t
def tile_more(P):
	a = tm(P); k = P.c([2.0,3.0])
	def f():
		z = tilemap.zeros(a.geometry, a.dtype); z2 = tilemap.from_active_tiles([np.asarray(x)*k for x in a.active_tiles], a.geometry) if hasattr(tilemap,"from_active_tiles") else z
		return np.asarray(z), np.asarray(z2), a.ntile, np.asarray(a.contig) if not isinstance(a.contig,bool) else a.contig, a.tile_shape if hasattr(a,"tile_shape") else 0
	return f
@t
def wcsmisc(P): g = P.geo(["car","car2","cea","full"]); k = P.c([0,1]); return lambda: (wcsutils.fix_wcs(g[1]), wcsutils.fix_cdelt(g[1]), wcsutils.describe(g[1]))
@t
def mmharm2(P):
	a = mm(P)
	def f(): return multimap.map2harm_adjoint(multimap.map2harm(a)).maps, multimap.harm2map_adjoint(a).maps
	return f
