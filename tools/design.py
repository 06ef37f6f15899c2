"""writes DESIGN.md: tools/design_head.md, one section per property from the modules, tools/design_tail.md"""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import gen  # noqa: E402

COST = json.load(open(os.path.join(HERE, "tools", "cost.json")))


def main():
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## Properties, one by one", ""]
    for p in gen.P:
        m = importlib.import_module(f"vmon.props.{p['id'].lower()}")
        out.append(f"### {p['id']} {p['title']}")
        out.append("")
        out.append(f"*Deciding method.* {p['technique'][0].upper() + p['technique'][1:]}. {p['note']}")
        out.append("")
        rule = " ".join(m.RULE.split())
        out.append(f"*What is driven and what counts as a distinct observation.* {rule[0].upper() + rule[1:]}.")
        out.append("")
        out.append("*Workloads* (cases quick / thorough):")
        out.append("")
        for name, k in m.KINDS.items():
            doc = " ".join((k.fn.__doc__ or "").split())
            out.append(f"- {name} ({k.quick} / {k.thorough})" + (f": {doc}" if doc else ""))
        out.append("")
        if m.ASSUMPTIONS:
            out.append("*Bounds and assumptions.* " + "; ".join(m.ASSUMPTIONS) + ".")
            out.append("")
        if m.REQUIRE:
            out.append(
                "*Non-vacuity.* A run that observed less than this is inconclusive (exit 2): "
                + ", ".join(f"{k} >= {v}" for k, v in m.REQUIRE.items()) + "."
            )
            out.append("")
        out.append(f"*Why the tests cannot settle it.* {p['tests']}")
        out.append("")
        c = COST.get(p["id"])
        if c:
            out.append(f"*Cost on 8 cores.* quick {c[0]} s, thorough {c[1]} s.")
            out.append("")
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
        rows.append(f"| {b} | {m['property']} | {m['needs']} | {', '.join(caught.get(b, [])) or '-'} |")
    tail = open(os.path.join(HERE, "tools", "design_tail.md")).read().rstrip()
    out.append(tail.replace("SEEDED_TABLE", "\n".join(rows)))
    out.append("")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()
