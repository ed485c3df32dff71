"""Drives one check: build, seeded search over many simulated executions on all cores,
minimisation of a failure, replay file, evidence, known findings.

usage: runner.py CHECK [quick|thorough]      search
       runner.py CHECK replay FILE           re-execute a replay file"""
import sys, os, json, time, subprocess, tempfile, shutil, signal, importlib.util, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from simlib import build as builder
PY = "/opt/venv/bin/python"
HANG = 150

def env(hashseed="0"):
	e = dict(os.environ)
	e.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", DUCC0_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", LC_ALL="C.UTF-8")
	e.pop("PYTHONPATH", None)
	return e

def meta(check):
	"""The check's static description, without importing numpy or pixell."""
	import ast
	src = open(os.path.join(VERIF, "checks", check+".py")).read()
	out = {}
	for node in ast.parse(src).body:
		if isinstance(node, ast.Assign) and len(node.targets)==1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id.isupper():
			try: out[node.targets[0].id] = ast.literal_eval(node.value)
			except Exception: pass
	return out

class Work:
	def __init__(self, check, disk=False):
		self.disk = disk
		base = os.path.join(VERIF, "scratch"); os.makedirs(base, exist_ok=True)
		self.dir = tempfile.mkdtemp(prefix=check+"_", dir=base)
		self.n = 0
	def path(self, name): return os.path.join(self.dir, name)
	def spawn(self, mode, args, hashseed="0"):
		self.n += 1
		d = self.path("w%d" % self.n); os.makedirs(d)
		f = os.path.join(d, "args.json"); json.dump(args, open(f,"w"))
		e = env(hashseed); e["VC_SCRATCH"] = d; e["TMPDIR"] = d
		if "HOME" not in e: e["HOME"] = "/root"
		if self.disk: e["LD_PRELOAD"] = os.path.join(args["ext"], "libsimio.so")
		out = open(os.path.join(d,"out"),"w"); err = open(os.path.join(d,"err"),"w")
		p = subprocess.Popen([PY,"-S",os.path.join(VERIF,"simlib","worker.py"),mode,f], stdout=out, stderr=err, env=e, cwd=d, start_new_session=True)
		p.d = d
		return p
	def close(self): shutil.rmtree(self.dir, ignore_errors=True)

def kill(p):
	try: os.killpg(p.pid, signal.SIGKILL)
	except OSError: pass
	p.wait()

def run_one(w, ext, check, case, hashseed="0", timeout=HANG):
	cf = w.path("case_%d.json" % w.n); json.dump(case, open(cf,"w"))
	p  = w.spawn("one", dict(ext=ext, check=check, case=cf), hashseed)
	try: rc = p.wait(timeout)
	except subprocess.TimeoutExpired:
		kill(p); return {"kind":"hang","msg":"no progress within %d s" % timeout,"case":case}, None
	if rc < 0: return {"kind":"crash:%s" % signal.Signals(-rc).name, "msg":"the process died", "case":case}, None
	try: o = json.loads(open(p.d+"/out").read().strip().split("\n")[-1])
	except Exception:
		return {"kind":"harness","msg":open(p.d+"/err").read()[-3000:],"case":case}, None
	return o["violation"], o["digest"]

def known_findings(pid):
	f = os.path.join(VERIF, "known_findings.jsonl")
	out = []
	if os.path.exists(f):
		for line in open(f):
			line = line.strip()
			if not line or line.startswith("#"): continue
			o = json.loads(line)
			if o.get("property") == pid and o.get("status") == "open": out.append(o)
	return out

def main():
	check = sys.argv[1]; mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER","quick")
	m   = meta(check); pid = m["ID"]
	t0  = time.time()
	try: ext = builder.build()
	except builder.BuildError as e:
		print("BUILD-ERROR", e); sys.exit(2)
	tb = time.time()-t0
	w = Work(check, m.get("DISK", False))
	try:
		if mode == "replay": rc = replay(w, ext, check, m, sys.argv[3])
		else: rc = search(w, ext, check, m, mode, t0, tb)
	finally: w.close()
	sys.exit(rc)

def replay(w, ext, check, m, f):
	r = json.load(open(f))
	if "sequence" in r:
		s = r["sequence"]
		v = run_sequence(w, ext, check, s)
	else:
		v, _ = run_one(w, ext, check, r["case"])
	if v is None: print("replay: property %s held" % m["ID"]); return 0
	print("replay: %s %s" % (v["kind"], v["msg"]))
	same = v["kind"] == r["kind"]
	print("replay: same violation class as recorded: %s" % same)
	if v["kind"] == "harness": return 2
	print("VIOLATION property=%s replay=%s" % (m["ID"], f))
	return 1

def run_sequence(w, ext, check, s):
	args = dict(s, ext=ext, check=check, status=w.path("seq.status"), current=w.path("seq.current"), deadline=600)
	p = w.spawn("run", args)
	try: rc = p.wait(700)
	except subprocess.TimeoutExpired: kill(p); return {"kind":"hang","msg":"sequence did not finish"}
	if rc < 0: return {"kind":"crash:%s" % signal.Signals(-rc).name, "msg":"the process died"}
	for l in open(args["status"]):
		o = json.loads(l)
		if "violation" in o: return o["violation"]
	return None

def search(w, ext, check, m, tier, t0, tb):
	pid   = m["ID"]
	seed  = int(os.environ.get("VERIF_SEED","1"))
	nw    = int(os.environ.get("VC_WORKERS", min(8, os.cpu_count() or 1)))
	ncase = int(os.environ.get("VC_NCASE", m["NCASE"][tier]))
	dl    = float(os.environ.get("VC_DEADLINE", m.get("DEADLINE",{}).get(tier, 240 if tier=="quick" else 3000)))
	print("check %s (%s) tier=%s seed=%d cases=%d workers=%d build=%.1fs" % (check, pid, tier, seed, ncase, nw, tb)); sys.stdout.flush()
	ts = time.time()
	procs = []
	for k in range(nw):
		a = dict(ext=ext, check=check, tier=tier, seed=seed, start=k, stride=nw, ncase=ncase, deadline=dl, status=w.path("st%d"%k), current=w.path("cur%d"%k))
		open(a["status"],"w").close()
		p = w.spawn("run", a); p.a = a; procs.append(p)
	# a sample of the same cases in a second interpreter under another hash seed: determinism
	viol = None; harness = None
	live = list(procs)
	while live:
		time.sleep(0.1)
		for p in list(live):
			rc = p.poll()
			if rc is None:
				try: c = json.load(open(p.a["current"]))
				except Exception: continue
				if time.time()-c["t"] > HANG:
					kill(p); live.remove(p); p.hung = c
				continue
			live.remove(p)
	done, found = [], []
	for p in procs:
		last = None
		for l in open(p.a["status"]):
			o = json.loads(l)
			if "violation" in o: found.append(o["violation"])
			if "done" in o: last = o["done"]
		if last is not None: done.append(last); continue
		try: c = json.load(open(p.a["current"]))
		except Exception: c = None
		if hasattr(p, "hung"):
			v,_ = run_one(w, ext, check, p.hung["case"])
			if v: found.append(dict(v, i=p.hung["i"]))
			else: harness = "worker hung in case %d but the case alone finishes" % p.hung["i"]
		elif p.returncode is not None and p.returncode < 0 and c is not None:
			v,_ = run_one(w, ext, check, c["case"])
			if v: found.append(dict(v, i=c["i"]))
			else:
				s = dict(tier=tier, seed=seed, start=p.a["start"], stride=nw, ncase=c["i"]+1)
				v = run_sequence(w, ext, check, s)
				if v: found.append(dict(v, i=c["i"], sequence=s, case=c["case"]))
				else: harness = "worker died with signal %d, not reproducible" % -p.returncode
		else: harness = open(p.d+"/err").read()[-3000:]
	wall_search = time.time()-ts
	found = [v for v in found if v["kind"] != "harness"] if not all(v["kind"]=="harness" for v in found) else found
	if found and found[0]["kind"] == "harness": harness = found[0]["msg"]; found = []
	# known findings
	kf = known_findings(pid)
	def match(v):
		for k in kf:
			if v["kind"] == k["kind"] and k.get("match","") in json.dumps(v.get("case"))+v["msg"]: return k
	hits = {}
	new  = []
	for v in found:
		k = match(v)
		if k: hits[k["id"]] = k
		else: new.append(v)
	for k in kf:
		print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
	rc = 0; rfile = None
	if new:
		new.sort(key=lambda v: v.get("i",0))
		v = new[0]
		rdir = os.path.join(VERIF,"replays"); os.makedirs(rdir, exist_ok=True)
		rfile = os.path.join(rdir, "%s_%s_%d.json" % (pid, hashlib.sha256(json.dumps(v["case"],default=str).encode()).hexdigest()[:8], seed))
		rec = dict(property=pid, check=check, kind=v["kind"], msg=v["msg"], seed=seed, tier=tier, index=v.get("i"), original=v["case"], case=v["case"], replay_cmd="/verif/check %s replay %s" % (check, rfile))
		if "sequence" in v: rec["sequence"] = v["sequence"]
		elif not v["kind"].startswith(("crash","hang")):
			cf = w.path("min_in.json"); json.dump(v["case"], open(cf,"w")); of = w.path("min_out.json")
			budget = 45 if tier=="quick" else 240
			p = w.spawn("min", dict(ext=ext, check=check, case=cf, out=of, kind=v["kind"], budget=budget))
			try: p.wait(budget+HANG)
			except subprocess.TimeoutExpired: kill(p)
			if os.path.exists(of):
				o = json.load(open(of))
				v2,d1 = run_one(w, ext, check, o["case"]); v3,d2 = run_one(w, ext, check, o["case"], hashseed="77")
				if v2 and v3 and v2["kind"] == v3["kind"] == v["kind"]:
					rec.update(case=o["case"], msg=v2["msg"], minimise_steps=o["steps"], minimise_tries=o["tries"], replayed_identically=bool(d1==d2 and v2["msg"]==v3["msg"]))
		json.dump(rec, open(rfile,"w"), indent=1, default=str)
		print("violation class %s: %s" % (rec["kind"], rec["msg"]))
		print("VIOLATION property=%s replay=%s" % (pid, rfile))
		rc = 1
	elif harness:
		print("HARNESS-ERROR", harness); rc = 2
	det = determinism(w, ext, check, tier, seed, m) if rc == 0 else None
	evidence(m, pid, tier, seed, done, wall_search, t0, tb, len(new), det, nw)
	return rc

def determinism(w, ext, check, tier, seed, m):
	"""Re-run a few cases under two hash seeds and two worker layouts; compare event-log digests."""
	n = 6 if tier == "quick" else 40
	dig = []
	ps = []
	for hs, tag in (("0","a"),("4242","b")):
		a = dict(ext=ext, check=check, tier=tier, seed=seed, start=0, stride=1, ncase=n, deadline=60, status=w.path("det"+tag), current=w.path("detc"+tag))
		open(a["status"],"w").close()
		p = w.spawn("run", a, hashseed=hs); p.a = a; ps.append(p)
	for p in ps:
		try: p.wait(200)
		except subprocess.TimeoutExpired: kill(p)
		d = None
		for l in open(p.a["status"]):
			o = json.loads(l)
			if "done" in o: d = (o["done"]["cases"], o["done"]["digest"])
		dig.append(d)
	ok = dig[0] is not None and dig[0] == dig[1]
	if not ok: print("note: event logs of two runs of the same cases differ: %s" % dig)
	return {"cases": n, "processes": 2, "identical_event_logs": bool(ok)}

def evidence(m, pid, tier, seed, done, wall, t0, tb, nviol, det, nw):
	execs = sum(d["execs"] for d in done); cases = sum(d["cases"] for d in done)
	inter, nt = set(), set()
	faults, probes = {}, {}
	samples = []
	for d in done:
		inter |= set(d["inter"]); nt |= set(d["nontrivial"])
		for k,v in d["faults"].items(): faults[k] = faults.get(k,0)+v
		for k,v in d["probes"].items(): probes[k] = probes.get(k,0)+v
		samples += d["samples"]
	cov = dict(evaluations=execs, distinct_nontrivial=len(nt), rule=m["RULE"], samples=samples[:4] or ["none: no case finished"],
		cases=cases, simulated_runs_per_hour=int(execs/max(wall,1e-9)*3600), seeds_per_hour=int(cases/max(wall,1e-9)*3600),
		simulated_time_s=round(sum(d["simtime"] for d in done),3), simulated_events=sum(d["events"] for d in done),
		faults_fired=dict(sorted(faults.items())), probes_hit=dict(sorted(probes.items())),
		distinct_interleavings=len(inter), distinct_interleavings_measure=m.get("MEASURE","hash of the complete switch and fault trace"),
		components_real=m["REAL"], components_stub=m["STUB"], workers=nw, build_s=round(tb,1), determinism=det)
	ev = dict(property=pid, tier=tier, seed=seed, level=m.get("LEVEL","exploration"), coverage=cov, assumptions=m.get("ASSUME",[]), wall_s=round(time.time()-t0,2), violations=nviol)
	d = os.path.join(VERIF,"evidence"); os.makedirs(d, exist_ok=True)
	json.dump(ev, open(os.path.join(d, pid+".json"),"w"), indent=1)
	print("%s: %d cases, %d simulated executions, %d distinct interleavings, faults %s, %.1fs" % (pid, cases, execs, len(inter), faults, time.time()-t0))

if __name__ == "__main__": main()
