"""DESIGN.md = tools/design.md + the tables of repairs and planted bugs."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(R + "/tools/design.md", encoding="utf-8").read()
out += "\n## Repairs\n\nDefects found by the checks and repaired in /repo (one `fix:` commit each); every one is reported again when its commit is reverted\n(`tools/fixcases.sh`), and shrunk cases of them are replayed on every run (`pbt/regress/<ID>/fix-<commit>.case`).\n\n| property | commit | what failed |\n|---|---|---|\n"
for c, p, t in sorted(json.load(open(R + "/tools/fixes.json")), key=lambda x: x[1]):
    out += "| %s | %s | %s |\n" % (p, c, t.replace("|", "\\|"))
out += "\n## Planted bugs and what catches them\n\nEach passes the stable tests, and its demonstration fails with it and passes without. All of them but `p32-llr-ge` are caught (exit 1 and the property's VIOLATION line) by the quick check of\ntheir property with seed 1 (`p32-llr-ge` differs only where a cutoff is the very floating point number that the code computes as a score; an oracle that tells the two sides of such a tie\napart would depend on the last bit of the logarithms, so the check keeps its cutoffs away from the scores); `missed at first` marks those for which a check was strengthened.\n\n| planted bug | caught by | what it needs |\n|---|---|---|\n"
late = set("p10-concat-self-cols p20-mean-abs p19-last-type p22-merge-dup p24-singleton-order p25-join p26-label-alias p26-defaultdict p27-empty-first".split())
extra = R + "/tools/late.json"
if os.path.exists(extra):
    late |= set(json.load(open(extra)))
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m, n = json.load(open(d)), d.split("/")[-2]
    out += "| %s%s | %s | %s |\n" % (n, " (missed at first)" if n in late else "", m["property"], m["needs"].replace("|", "\\|"))
open(R + "/DESIGN.md", "w", encoding="utf-8").write(out)
