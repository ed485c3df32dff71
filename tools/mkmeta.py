"""Writes properties.jsonl, MANIFEST.json from the table below (run by hand after editing)."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, check=None, level="exploration", note="", technique=None, na=None, observe=None):
	P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
		anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n,w in mech], **(dict(observe_at=observe) if observe else {}), hook_needed=None)),
		check=check, level=level, note=note, technique=technique, na=na))
OMP_NOTE = " Real kernels compiled with memory-access instrumentation and run under a simulated OpenMP runtime; every access and OpenMP construct is a preemption point chosen by a seed. Assumes sequentially consistent memory and small arrays (tens to hundreds of elements)."
OMP_TECH = "deterministic simulation: seeded OpenMP schedule search of the real kernels against a reference model"
OMP_WHY  = "Tests run each kernel on a few inputs under whatever one schedule the machine gives, usually with results independent of the races; they cannot enumerate team sizes, chunk orders and preemptions, nor the input space."

prop("C01", "Harmonic coefficient products and spectra do not depend on thread scheduling",
	"For every layout of spherical-harmonic coefficients, precision and operand shape, computing (cross-)power spectra of coefficient arrays and scaling coefficients by per-multipole factors or per-multipole matrices gives the mathematically defined result. The result is the same for every number of threads and every interleaving of them. Nothing outside the result is modified.",
	["schedules","inputs","configurations"], "all thread counts and interleavings; all layouts (triangular and rectangular, mmax <= lmax), dtypes, broadcast shapes, factors shorter or longer than the multipole range",
	OMP_WHY, ["pixell/curvedsky.py","cython/cmisc.pyx","cython/cmisc_core.c"], [("parallel loop over multipoles or m, private accumulators","cython/cmisc_core.c"),("layout bookkeeping","pixell/curvedsky.py alm_info")], "c01", note="Search over schedules and inputs, not proof."+OMP_NOTE, technique=OMP_TECH)
prop("C02", "Distance maps give the true nearest distance under every thread schedule",
	"The distance from every pixel to the nearest of a set of points, or to the nearest true pixel of a mask or labelled region, equals the brute-force minimum of the angular distances (within the documented accuracy of the solver), and the reported nearest-point index attains it. This holds for flat and full-sky maps and for healpix maps, with and without a maximum distance. It does not depend on the number or interleaving of threads or on the clock.",
	["schedules","inputs","configurations"], "all thread counts and interleavings; all geometries incl. wrapping skies and poles, all point sets incl. duplicates and points outside the map, every solver, any maximum distance, any clock behaviour",
	OMP_WHY, ["pixell/enmap.py","pixell/distances.py","cython/distances.pyx","cython/distances_core.c"], [("per-row and per-cell parallel loops","cython/distances_core.c"),("front propagation with bubble or heap","cython/distances_core.c")], "c02", note="Search over schedules and inputs against brute force."+OMP_NOTE, technique=OMP_TECH)
prop("C03", "Painting objects on a map, its transpose and radial sums equal the direct sum",
	"Adding (or max/min-combining) objects with radial profiles to a map gives in every pixel the combination of amplitude times profile over all objects, up to contributions below the requested cutoff, for any catalogue, including objects outside the map or across its wrapping edge. The transposed operation and the radially binned sums around objects equal their direct definitions. None of this depends on the number or interleaving of threads.",
	["schedules","inputs","configurations"], "all thread counts and interleavings; all catalogues (overlapping objects, outside the map, zero and negative amplitudes, several components), profiles, cutoffs, combination operations and geometries",
	OMP_WHY, ["pixell/pointsrcs.py","cython/srcsim.pyx","cython/srcsim_core.c"], [("objects hashed into cells, one cell painted by one thread","cython/srcsim_core.c"),("profile extent lookup","cython/srcsim_core.c")], "c03", note="Search over schedules and inputs against a direct sum."+OMP_NOTE, technique=OMP_TECH)
prop("C04", "Interpolation, derivative and transpose equal their definition on any schedule",
	"Interpolating an array at arbitrary positions gives the value defined by the requested scheme (polynomial convolution, spline, lanczos), order and boundary rule (zero, nearest, cyclic, mirrored), also far outside the array. The transpose is the exact adjoint of the forward operation, the derivative is the derivative with respect to position, and applying the spline filter beforehand is equivalent to the built-in filtering. Results do not depend on the number or interleaving of threads, even when many points contribute to the same sample.",
	["schedules","inputs","configurations"], "all thread counts and interleavings; all array and point shapes, precisions, schemes, orders and boundary rules; points inside, on samples, on edges and far outside",
	OMP_WHY, ["pixell/interpol.py","pixell/lensing.py","fortran/interpol.F90"], [("atomic accumulation in the transpose","fortran/interpol.F90"),("boundary index mapping and spline prefilter","fortran/interpol.F90")], "c04", note="Search over schedules and inputs against a dense matrix model."+OMP_NOTE, technique=OMP_TECH)
prop("C05", "Threaded per-pixel array operations equal their per-pixel definition",
	"Turning map values or rgb(a) planes into colours, multiplying per-pixel small matrices with vectors, rolling map rows, converting angles to unit vectors and marking contour crossings give for each pixel exactly the value its own inputs define. Missing values become fully transparent and out-of-range values saturate at the nearest end of the range. The result does not depend on the number or interleaving of threads.",
	["schedules","inputs","configurations"], "all thread counts and interleavings; all array shapes, colour schemes, axis positions, missing, infinite, saturated and tied values",
	OMP_WHY, ["pixell/colorize.py","pixell/array_ops.py","fortran/colorize.f90","fortran/array_ops.F90"], [("private temporaries in the parallel loops","fortran/colorize.f90, fortran/array_ops.F90")], "c05", note="Search over schedules and inputs against a per-pixel model."+OMP_NOTE, technique=OMP_TECH)

exec(open(os.path.join(V,"tools","props_rest.py")).read())

with open(os.path.join(V,"properties.jsonl"),"w") as f:
	for x in P: f.write(json.dumps(x["p"])+"\n")
checks, na = [], []
for x in P:
	if x["check"]:
		checks.append(dict(property=x["p"]["id"], quick_cmd="./check %s quick" % x["check"], thorough_cmd="./check %s thorough" % x["check"], evidence_file="evidence/%s.json" % x["p"]["id"], technique=x["technique"], level=x["level"], level_note=x["note"]))
	else: na.append(dict(property=x["p"]["id"], reason=x["na"]))
M = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes="No hooks in /repo: all seams are at link time (OpenMP runtime, memory accesses, allocation, clock) or at module boundaries (communicator objects, file functions).")
json.dump(M, open(os.path.join(V,"MANIFEST.json"),"w"), indent=1)
for x in P:
	assert len(x["p"]["title"]) <= 80, x["p"]["title"]
