import traceback
def tb(e):
	fr = traceback.extract_tb(e.__traceback__)
	keep = [("%s:%d %s" % (f.filename.replace("/repo/",""), f.lineno, f.name)) for f in fr][-6:]
	return "%s: %s [%s]" % (type(e).__name__, str(e)[:400], " <- ".join(reversed(keep)))
