"""Seeded maps and geometries, built without pixell's own geometry code."""
import numpy as np
from pixell import enmap, wcsutils

PROJ = ["CAR","CAR","CAR","CEA","TAN","ZEA","ARC","SIN"]
def rand_wcs(r, ny, nx, proj=None, sky=None):
	proj = proj or PROJ[r.integers(len(PROJ))]
	w = wcsutils.WCS(naxis=2)
	w.wcs.ctype = ["RA---"+proj, "DEC--"+proj]
	res = [0.1, 0.5, 1.0, 1/3., 2.5][r.integers(5)]
	w.wcs.cdelt = [-res if r.random() < 0.8 else res, res if r.random() < 0.8 else -res]
	if proj in ("CAR","CEA"):
		w.wcs.crval = [float(np.round(r.uniform(-180,180),3)), 0.0]
		w.wcs.crpix = [nx/2+float(np.round(r.uniform(-5,5),2)), ny/2+float(np.round(r.uniform(-20,20),2))]
		if proj == "CEA": w.wcs.set_pv([(2,1,float(np.round(r.uniform(0.5,1),3)))])
	else:
		w.wcs.crval = [float(np.round(r.uniform(-180,180),3)), float(np.round(r.uniform(-85,85),3))]
		w.wcs.crpix = [nx/2+float(np.round(r.uniform(-3,3),2)), ny/2+float(np.round(r.uniform(-3,3),2))]
	return w

def rand_data(r, shape, dt, special=True):
	d = np.dtype(dt)
	if   d.kind == "b": a = r.integers(0,2,shape).astype(bool)
	elif d.kind == "c": a = r.standard_normal(shape)+1j*r.standard_normal(shape)
	elif d.kind == "f":
		a = r.standard_normal(shape)*10.0**r.integers(-10,10)
		if special and a.size > 3:
			f = a.reshape(-1)
			for v in (np.nan, np.inf, -np.inf, 0.0, -0.0):
				if r.random() < 0.3: f[r.integers(f.size)] = v
	else:
		ii = np.iinfo(d); a = r.integers(ii.min, ii.max, shape, dtype=d.newbyteorder("="), endpoint=True)
	with np.errstate(all="ignore"): return a.astype(d)

def layout(r, a):
	"""The same values in a random memory layout (last two axes stay the pixel axes)."""
	k = r.integers(5)
	if k == 0: return np.asfortranarray(a)
	if k == 1:
		b = np.zeros(a.shape[:-1]+(2*a.shape[-1],), a.dtype); b[...,::2] = a; return b[...,::2]
	if k == 2: return a[...,::-1].copy()[...,::-1]
	return a

def points(shape):
	ny, nx = shape[-2:]
	return np.array([[0,0],[0,ny-1],[nx-1,0],[nx-1,ny-1],[nx/2.,ny/2.],[nx/3.,ny/5.]])
def sky(w, p):
	"""ra,dec in degrees; for cylindrical projections also beyond the range where wcslib answers"""
	if w.wcs.ctype[0][-3:] in ("CAR","CEA") and w.wcs.crval[1] == 0:
		return np.array([w.wcs.crval[0]+(p[:,0]+1-w.wcs.crpix[0])*w.wcs.cdelt[0], w.wcs_pix2world(np.array([p[:,0]*0+w.wcs.crpix[0]-1,p[:,1]]).T,0)[:,1]]).T
	return np.asarray(w.wcs_pix2world(p, 0))
def wcs_diff(a, b, shape, tol=1e-7):
	"""None if the two coordinate systems agree on the map, else a description."""
	if list(a.wcs.ctype) != list(b.wcs.ctype): return "projection %s, expected %s" % (list(a.wcs.ctype), list(b.wcs.ctype))
	p = points(shape)
	with np.errstate(all="ignore"):
		x, y = sky(a, p), sky(b, p)
	d = x-y; d[:,0] = (d[:,0]+180)%360-180
	bad = ~((np.abs(d) < tol) | (np.isnan(x)&np.isnan(y)))
	if np.any(bad): i = int(np.argwhere(bad)[0,0]); return "pixel %s (x,y) at %s deg, expected %s" % (p[i].tolist(), x[i].tolist(), y[i].tolist())
	if not np.allclose(a.wcs.cdelt, b.wcs.cdelt, rtol=1e-9): return "cdelt %s, expected %s" % (a.wcs.cdelt, b.wcs.cdelt)

def bits_equal(a, b):
	a = np.asarray(a); b = np.asarray(b)
	if a.shape != b.shape: return False
	if a.dtype.kind in "fc":
		n = np.isnan(a); return bool(np.array_equal(n, np.isnan(b)) and np.array_equal(a[~n], b[~n]))
	return bool(np.array_equal(a, b))
