"""Runs the simulated cases of one check inside one process.
usage: python -S worker.py MODE ARGS.json
MODE run:    run cases start,start+stride,... ; report as JSON lines on the status file
MODE one:    run one explicit case file; exit 0 held, 3 violation (JSON on stdout)
MODE min:    minimise a failing case file within a time budget"""
import sys, os, json, time, traceback, faulthandler
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def main():
	mode, argf = sys.argv[1], sys.argv[2]
	args = json.load(open(argf))
	from simlib import loader, core
	loader.load(args["ext"])
	from simlib import omp
	omp.init()
	import importlib
	sys.path.insert(0, loader.REPO)  # never used for pixell itself, kept out of the way
	sys.path.pop(0)
	mod = importlib.import_module("checks."+args["check"])
	if hasattr(mod, "setup"): mod.setup()
	if   mode == "run": run(mod, args, core)
	elif mode == "one":
		sys.exit(one(mod, args, core))
	elif mode == "min": minimise(mod, args, core)

def execute(mod, case, ctx, core):
	"""Returns None or a violation dict."""
	try:
		mod.run(case, ctx)
		return None
	except core.HarnessError:
		raise
	except core.Violation as v:
		return {"kind": v.kind, "msg": v.msg[:2000], "case": v.case or case}
	except (KeyboardInterrupt, SystemExit, MemoryError) as e:
		if os.environ.get("VC_DEBUG"): traceback.print_exc()
		return {"kind": "exception:%s" % type(e).__name__, "msg": tb(e), "case": case}
	except Exception as e:
		if os.environ.get("VC_DEBUG"): traceback.print_exc()
		return {"kind": "exception:%s" % type(e).__name__, "msg": tb(e), "case": case}

def tb(e):
	fr = traceback.extract_tb(e.__traceback__)
	keep = [("%s:%d %s" % (f.filename.replace("/repo/",""), f.lineno, f.name)) for f in fr][-6:]
	return "%s: %s [%s]" % (type(e).__name__, str(e)[:400], " <- ".join(reversed(keep)))

def dump_ctx(ctx):
	return dict(execs=ctx.execs, cases=ctx.cases, faults=ctx.faults, probes=ctx.probes, inter=sorted(ctx.inter), nontrivial=sorted(ctx.nontrivial),
		events=ctx.events, simtime=ctx.simtime, samples=ctx.samples, digest=ctx.digest.hexdigest())

def run(mod, args, core):
	st   = open(args["status"], "a", buffering=1)
	cur  = args["current"]
	ctx  = core.Ctx()
	t0   = time.time()
	i    = args["start"]; n = 0
	while i < args["ncase"]:
		if time.time()-t0 > args["deadline"]: break
		case = mod.gen(core.rng_for(args["seed"], args["check"], i), args["tier"], i)
		with open(cur, "w") as f: json.dump({"i": i, "case": case, "t": time.time()}, f)
		v = execute(mod, case, ctx, core)
		ctx.cases += 1; n += 1
		if v is not None:
			v["i"] = i
			st.write(json.dumps({"violation": v})+"\n")
			if not args.get("keep_going"): break
		if n % 20 == 0:
			st.write(json.dumps({"progress": i})+"\n")
		i += args["stride"]
	st.write(json.dumps({"done": dump_ctx(ctx)})+"\n")

def one(mod, args, core):
	case = json.load(open(args["case"]))
	ctx  = core.Ctx()
	v = execute(mod, case, ctx, core)
	print(json.dumps({"violation": v, "digest": ctx.digest.hexdigest()}))
	return 3 if v else 0

def minimise(mod, args, core):
	"""Greedy: try the check's own shrink candidates, keep any that fails with the same kind."""
	best = json.load(open(args["case"]))
	kind = args["kind"]
	out  = args["out"]
	t0   = time.time()
	steps = tries = 0
	def save(o):
		with open(out+".tmp", "w") as f: json.dump(o, f)
		os.replace(out+".tmp", out)
	def fails(c):
		v = execute(mod, c, core.Ctx(), core)
		return v if v is not None and v["kind"] == kind else None
	if hasattr(mod, "shrink"):
		progress = True
		while progress and time.time()-t0 < args["budget"]:
			progress = False
			for cand in mod.shrink(best):
				if time.time()-t0 > args["budget"]: break
				tries += 1
				v = fails(cand)
				if v:
					best = v["case"]; steps += 1; progress = True
					save({"case": best, "msg": v["msg"], "steps": steps, "tries": tries})
					break
	v = fails(best)
	save({"case": (v or {}).get("case", best), "msg": (v or {}).get("msg"), "steps": steps, "tries": tries, "final": True})

main()
