"""Write DESIGN.md from the catalog, the rules, tools/notes.py, tools/intro.md, tools/outro.md and the planted changes."""

import importlib
import json
import os
import sys
import textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from sa.catalog import PROPS, NA, NA_REASON  # noqa: E402
from notes import NOTES, EXTRA  # noqa: E402


def read(n):
    with open(os.path.join(V, "tools", n)) as f:
        return f.read().strip() + "\n"


def wrap(t, ind="", first=None):
    return textwrap.fill(" ".join(t.split()), 118, initial_indent=first if first is not None else ind, subsequent_indent=ind)


bugs = {}
sd = os.path.join(V, "seeded")
for n in sorted(os.listdir(sd)):
    p = os.path.join(sd, n, "meta.json")
    if os.path.exists(p):
        with open(p) as f:
            m = json.load(f)
        bugs.setdefault(m["property"], []).append((n, m))
out = [read("intro.md")]
out.append("## The properties, one by one\n")
for p in PROPS:
    i = p["id"]
    m = importlib.import_module("sa.rules." + i.lower()).META
    out.append(f"### {i} {p['title']}\n")
    out.append(wrap(p["statement"]) + "\n")
    out.append(wrap(f"**Method.** {m['technique'][0].upper() + m['technique'][1:]}.  {m['explain']}") + "\n")
    for k, v in m["rules"].items():
        out.append(wrap(f"`{k}`: {v}", "  ", "- "))
    out.append("")
    if i in NOTES:
        o, b, w = NOTES[i]
        out.append(wrap(f"**Oracle.** {o}.  **Bounds.** {b}.  **Why not a test.** {w}."))
    out.append(wrap("**Assumes.** " + "; ".join(m["assumptions"]) + "."))
    if i in EXTRA:
        out.append("\n" + EXTRA[i].strip())
    try:
        au = importlib.import_module("sa.audits." + i.lower()).ENTRIES
        out.append(wrap(f"**Self-audit** (thorough tier): {sum(e[0] == 'bad' for e in au)} breaking and {sum(e[0] == 'ok' for e in au)} preserving edits of the "
                        "source, besides the generic rewritings."))
    except ImportError:
        pass
    for n, b in bugs.get(i, []):
        out.append(wrap(f"planted `{n}`: {b['what_it_breaks']} (needs: {b['needs']}).", "  ", "- "))
    out.append("")
out.append("## Not applicable\n")
for p in NA:
    out.append(wrap(f"**{p['id']} {p['title']}**: {NA_REASON[p['id']]}.", "  ", "- "))
out.append("")
out.append(read("outro.md"))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
print(len("\n".join(out)), "characters;", sum(map(len, bugs.values())), "planted changes")
