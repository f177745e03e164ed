#!/usr/bin/env python3
"""Writes contracts/cp949.ref: the double-byte part of code page 949, from
Python's own codec (an implementation independent of /repo)."""
import os
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "cp949.ref")
rows = []
for a in range(0x80, 0x100):
    for b in range(0x100):
        try:
            s = bytes([a, b]).decode("cp949")
        except UnicodeDecodeError:
            continue
        if len(s) == 1 and s.encode("cp949") == bytes([a, b]):
            rows.append((a * 256 + b, ord(s)))
assert len(rows) == 17048, len(rows)
with open(out, "w") as f:
    f.write("# code page 949: code, character (tools/mkcp949.py)\n")
    for c, u in rows:
        f.write("0x%04X 0x%04X\n" % (c, u))
