"""Build pixell's compiled extensions from /repo's working tree for simulation.

The C and Fortran kernels are the repository's own files, compiled with OpenMP
and with access instrumentation, and linked against simgomp (simgomp.c) instead
of libgomp/libtsan. Nothing is written inside /repo. Results are cached by
content hash under /verif/build, which git ignores."""
import os, sys, subprocess, hashlib, shutil, glob, re, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO  = os.environ.get("PIXELL_REPO", "/repo")
PY    = "/opt/venv/bin/python"
CACHE = os.path.join(VERIF, "build")

class BuildError(Exception): pass

def sh(cmd, cwd=None, out=None):
	env = dict(os.environ); env["PATH"] = "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"
	env.pop("PYTHONPATH", None)
	r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
	if r.returncode: raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
	return r.stdout

def source_files():
	fs = sorted(glob.glob(REPO+"/cython/*.c")+glob.glob(REPO+"/cython/*.h")+glob.glob(REPO+"/cython/*.pyx")+glob.glob(REPO+"/cython/*.pxd")
		+ [f for f in glob.glob(REPO+"/fortran/*.[fF]90") if not re.search(r"_(32|64)\.f90$", f)])
	return fs

def key():
	h = hashlib.sha256()
	for f in source_files()+[os.path.join(VERIF,"simlib","simgomp.c"), os.path.join(VERIF,"simlib","simio.c"), os.path.abspath(__file__)]:
		h.update(os.path.basename(f).encode()); h.update(open(f,"rb").read())
	return h.hexdigest()[:20]

CF = ["-O2","-g1","-fPIC","-U_FORTIFY_SOURCE","-w"]
INSTR = ["-fopenmp","-fsanitize=thread"]
REDEF = []
for n in ["malloc","calloc","realloc","free","gettimeofday","clock_gettime","time","memcpy","memmove","memset"]:
	REDEF += ["--redefine-sym","%s=simg_%s"%(n,n)]

def build(verbose=False):
	k   = key()
	dst = os.path.join(CACHE, k)
	if os.path.exists(os.path.join(dst, "ok")): return dst
	os.makedirs(CACHE, exist_ok=True)
	tmp = tempfile.mkdtemp(prefix="tmp_", dir=CACHE)
	try:
		_build(tmp)
		open(os.path.join(tmp,"ok"),"w").close()
		try: os.rename(tmp, dst)
		except OSError:
			if not os.path.exists(os.path.join(dst,"ok")): raise
	finally:
		if os.path.isdir(tmp): shutil.rmtree(tmp, ignore_errors=True)
	# keep the cache small
	for d in sorted([x for x in glob.glob(CACHE+"/*") if "/tmp_" not in x], key=os.path.getmtime)[:-4]:
		if d != dst: shutil.rmtree(d, ignore_errors=True)
	return dst

def _build(d):
	inc = sh([PY,"-S","-c","import sys;sys.path.insert(0,'/opt/venv/lib/python3.12/site-packages');import sysconfig,numpy,numpy.f2py;print(sysconfig.get_path('include'));print(numpy.get_include());print(numpy.f2py.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"]).split()
	pyinc, npinc, f2inc, suf = inc[-4:]
	o = os.path.join(d,"o"); os.makedirs(o)
	sh(["gcc"]+CF+["-shared","-fvisibility=hidden",os.path.join(VERIF,"simlib","simgomp.c"),"-o",d+"/libsimgomp.so","-lm"])
	sh(["gcc","-O2","-fPIC","-U_FORTIFY_SOURCE","-w","-shared",os.path.join(VERIF,"simlib","simio.c"),"-o",d+"/libsimio.so","-ldl"])
	link = ["-L"+d,"-lsimgomp","-Wl,-rpath,$ORIGIN","-lm"]
	def core(n):
		sh(["gcc"]+CF+INSTR+["-I"+npinc,"-I"+REPO+"/cython","-c",REPO+"/cython/%s_core.c"%n,"-o",o+"/%s_core.o"%n])
		sh(["objcopy"]+REDEF+[o+"/%s_core.o"%n])
		sh(["ar","rcs",o+"/lib%s.a"%n,o+"/%s_core.o"%n])
	def cy(n):
		sh(["/opt/venv/bin/cython","-I",REPO+"/cython",REPO+"/cython/%s.pyx"%n,"-o",o+"/%s.c"%n])
		sh(["gcc"]+["-O1","-fPIC","-w","-I"+pyinc,"-I"+npinc,"-I"+REPO+"/cython","-c",o+"/%s.c"%n,"-o",o+"/%s.o"%n])
	def fo(mod, src):
		w = o+"/"+mod; os.makedirs(w)
		shutil.copy(src, w+"/src.f90")
		sh([PY,"-m","numpy.f2py","src.f90","-m",mod,"--lower"], cwd=w)
		sh(["gfortran"]+CF+INSTR+["-c","src.f90","-o","src.o"], cwd=w)
		sh(["objcopy"]+REDEF+["src.o"], cwd=w)
		objs = ["src.o"]
		if os.path.exists(w+"/%s-f2pywrappers2.f90"%mod):
			sh(["gfortran","-O1","-fPIC","-w","-c","%s-f2pywrappers2.f90"%mod,"-o","wrap2.o"], cwd=w); objs.append("wrap2.o")
		if os.path.exists(w+"/%s-f2pywrappers.f"%mod):
			sh(["gfortran","-O1","-fPIC","-w","-c","%s-f2pywrappers.f"%mod,"-o","wrap.o"], cwd=w); objs.append("wrap.o")
		for c,ob in (("%smodule.c"%mod,"mod.o"),(f2inc+"/fortranobject.c","fobj.o")):
			sh(["gcc","-O1","-fPIC","-w","-I"+pyinc,"-I"+npinc,"-I"+f2inc,"-c",c,"-o",ob], cwd=w); objs.append(ob)
		sh(["gfortran","-shared"]+objs+link+["-o",d+"/"+mod+suf], cwd=w)
	gen = {}
	for b in ["interpol","array_ops"]:
		txt = open(REPO+"/fortran/%s.F90"%b, encoding="utf-8", errors="surrogateescape").read()
		for p,r in (("32","4"),("64","8")):
			f = o+"/%s_%s.f90"%(b,p)
			open(f,"w",encoding="utf-8",errors="surrogateescape").write(re.sub(r"\b_\b", r, txt, flags=re.A))
			gen["_%s_%s"%(b,p)] = f
	gen["_colorize"] = REPO+"/fortran/colorize.f90"
	names = ["cmisc","distances","srcsim"]
	with ThreadPoolExecutor(8) as ex:
		fs  = [ex.submit(cy,n) for n in names]+[ex.submit(fo,m,s) for m,s in gen.items()]+[ex.submit(core,n) for n in names]
		for f in fs: f.result()
	for n in names:
		sh(["gcc","-shared",o+"/%s.o"%n]+[o+"/lib%s.a"%m for m in [n]+[m for m in names if m!=n]]+link+["-o",d+"/"+n+suf])
	shutil.rmtree(o)

if __name__ == "__main__":
	print(build(True))
