"""Replaces the table of planted bugs in DESIGN.md (section 6) from seeded/*/meta.json."""
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
table = subprocess.run([sys.executable, os.path.join(ROOT, "tools", "seeded_table.py")], capture_output=True, text=True, check=True).stdout
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
head, tail = s.split("## 6. Planted bugs", 1)
new, n = re.subn(r"(?:^\* \*\*C\d\d\*\*: `.*\n)+", lambda _: table, tail, count=1, flags=re.M)
assert n == 1
open(p, "w").write(head + "## 6. Planted bugs" + new)
