"""Write DESIGN.md: the text of tools/design.txt with the tables generated from the sources."""
import ast, glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
t = open(H + "/tools/design.txt").read()
rows = []
for p in P:
    s = open(f"{H}/props/{p['id'].lower()}.py").read()
    b = next(ast.unparse(n.value) for n in ast.parse(s).body if isinstance(n, ast.Assign) and n.targets[0].id == "BOUNDS")
    b = eval(b, {"LONG": "; besides, long and wide runs (see above)"})
    rows.append(f"**{p['id']} {p['title']}.**\n\n")
    d = re.search(rf"^@{p['id']}\n(.*?)(?=^@|\Z)", t, re.S | re.M)
    rows[-1] += (d.group(1).strip() + "\n\n" if d else "") + f"*Bounds (quick):* {b}.\n"
t = re.split(r"^@C\d\d\n", t, maxsplit=1, flags=re.M)[0]
seeds = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append(f"| {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {m['needs']} | {'not caught' if 'single-precision' in f else m['property']} |")
t = t.replace("%PROPERTIES%", "\n".join(rows))
t = t.replace("%SEEDS%", "| change | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(seeds))
fixed = [l[len("fixed: property="):].strip().split(" ", 2) for l in open(H + "/known_findings.txt") if l.startswith("fixed:")]
t = t.replace("%FIXED%", "| property | commit | what failed |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % tuple(x) for x in fixed))
open(H + "/DESIGN.md", "w").write(t)
