"""Import pixell straight from /repo's working tree, with the simulation build of
its extensions. Must run under `python -S` so that the editable-install hook (which
would import the shipped build) is not active."""
import sys, os
SITE = "/opt/venv/lib/python3.12/site-packages"
REPO = os.environ.get("PIXELL_REPO", "/repo")
sys.dont_write_bytecode = True
if SITE not in sys.path: sys.path.append(SITE)
for k in ("OMP_NUM_THREADS","DUCC0_NUM_THREADS","OPENBLAS_NUM_THREADS","MKL_NUM_THREADS"):
	os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["DISABLE_MPI"] = "1"
EXT = None
def load(ext):
	"""Make `import pixell` work. ext: directory of the simulation build."""
	global EXT
	import importlib.util, warnings
	warnings.filterwarnings("ignore")
	assert not any("editable" in type(f).__module__ or "pixell" in type(f).__module__ for f in sys.meta_path)
	EXT  = ext
	spec = importlib.util.spec_from_file_location("pixell", REPO+"/pixell/__init__.py",
		submodule_search_locations=[REPO+"/pixell", ext])
	mod  = importlib.util.module_from_spec(spec)
	sys.modules["pixell"] = mod
	spec.loader.exec_module(mod)
	return mod
