"""tools/addcase.py NAME REPLAY...: keeps minimal cases of replay files as regression cases (pbt/regress/<ID>/NAME.case)."""
import ast, os, sys
name = sys.argv[1]
for n, f in enumerate(sys.argv[2:]):
    rec = ast.literal_eval(open(f).read())
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt", "regress", rec["property"])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "%s%s.case" % (name, n or "")), "w") as fh:
        fh.write("{'law': %r,\n 'case': %r}\n" % (rec["law"], rec["case"]))
