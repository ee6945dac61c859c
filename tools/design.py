"""Writes DESIGN.md (python3 tools/design.py)."""
import ast, glob, json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
  d = {}
  for n in ast.parse(open(path).read()).body:
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS", "METHOD"):
      d[n.targets[0].id] = ast.literal_eval(n.value)
  return d


def main():
  head = open(ROOT + "/tools/design_head.md").read()
  fixes = "\n".join("* " + l[7:].strip().replace("property=", "") for l in open(ROOT + "/known_findings.txt") if l.startswith("fixed:"))
  sw = ROOT + "/tools/sweep_results.md"
  head = head.replace("@FIXES@", fixes).replace("@SWEEP@", open(sw).read().rstrip() if os.path.exists(sw) else "")
  out = [head.rstrip(), ""]
  props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
  for p in props:
    f = f"{ROOT}/checks/{p['id']}.py"
    if not os.path.exists(f):
      continue
    c = consts(f)
    out += [f"### {p['id']} {p['title']}", "", p["statement"], ""]
    out += ["* Code executed: " + "; ".join(f"`{m['name']}` ({m['where']})" for m in p["anchors"]["mechanism"])]
    out += ["* Symbolic: " + p["quantifier"]["text"] + "."]
    out += ["* Bounds: " + c.get("BOUNDS", "") + "."]
    out += ["* Outside: " + c.get("OUTSIDE", "") + "."]
    if c.get("ASSUMPTIONS"):
      out += ["* Assumed: " + "; ".join(c["ASSUMPTIONS"]) + "."]
    if c.get("METHOD"):
      out += ["* How: " + c["METHOD"]]
    out += ["* Beyond the tests: " + p["why_tests_cant"] + ".", ""]
  out += ["### Not applicable", ""]
  for n in json.load(open(ROOT + "/MANIFEST.json"))["not_applicable"]:
    out.append(f"* {n['property']}: {n['reason']}")
  out += ["", "## 8. Planted bugs", "", "| bug | what it breaks | what it needs | caught by |", "|---|---|---|---|"]
  miss = {}
  mf = ROOT + "/tools/missed.json"
  if os.path.exists(mf):
    miss = json.load(open(mf))
  for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {miss.get(i, m['property'])} |".replace("\n", " "))
  with open(ROOT + "/DESIGN.md", "w") as f:
    f.write("\n".join(out) + "\n")


main()
