"""usage: addfixed.py PROPERTY COMMIT: record a fix commit in known_findings.jsonl"""
import sys, json, subprocess
p, c = sys.argv[1:3]
t = subprocess.check_output(["git","-C","/repo","log","-1","--format=%s",c],text=True).strip(); assert t.startswith("fix: ")
print(json.dumps({"property":p,"status":"fixed","id":"F-"+c,"commit":c,"what":"fixed: property=%s %s %s" % (p,c,t[5:])}), file=open("/verif/known_findings.jsonl","a"))
