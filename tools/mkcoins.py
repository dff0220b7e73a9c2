#!/usr/bin/env python3
"""The coin table of the documentation (README.md) as data: scenarios/coins.json (committed; documentation of the pinned commit)."""
import json, os, re, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = subprocess.check_output(["git", "-C", "/repo", "show", "1a31625:README.md"], text=True)
rows = re.findall(r"<tr>(?:<td align='left' rowspan='\d+'>(\w+)</td>)?<td align='center'><code>(\w+)</code></td>"
                  r"<td align='center'><code>(0x[0-9a-f]+)</code></td><td align='center'><code>(0x[0-9a-f]+)</code></td></tr>", t)
out, name = {}, None
for n, net, w, a in rows:
    name = n or name
    out.setdefault(name, {})[net] = [int(w, 16), int(a, 16)]
json.dump(out, open(os.path.join(H, "scenarios", "coins.json"), "w"), indent=0, sort_keys=True)
print(len(out), sum(map(len, out.values())))
