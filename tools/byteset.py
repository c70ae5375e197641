#!/usr/bin/env python3
"""core's two-way string search skips ahead when the last byte of the window is not in a 64-bit set of the needle's
bytes. The skip is only an optimisation (the comparison that follows finds the mismatch as well), but on symbolic
bytes it would split every path; here it is never taken."""
import re, sys
p = sys.argv[1]
out, inside, n = [], False, 0
masked = {}
for l in open(p, errors="surrogateescape"):
    if l.startswith("define "):
        inside = "4core3str7pattern" in l and ("11StrSearcher" in l or "14TwoWaySearcher" in l)
        masked = {}
    elif inside:
        m = re.match(r"\s+(%\S+) = and i(?:8|64) %\S+, 63$", l)
        if m:
            masked[m.group(1)] = 1
        m = re.match(r"\s+(%\S+) = zext nneg i8 (%\S+) to i64$", l)
        if m and m.group(2) in masked:
            masked[m.group(1)] = 1
        m = re.match(r"(\s+%\S+ = )shl (?:nuw )?(?:nsw )?i64 1, (%\S+)$", l)
        if m and m.group(2) in masked:
            l = m.group(1) + "or i64 -1, 0\n"
            n += 1
        m = re.match(r"(\s+%\S+ = )lshr i64 %\S+, (%\S+)$", l)
        if m and m.group(2) in masked:
            l = m.group(1) + "or i64 1, 0\n"
            n += 1
    out.append(l)
open(p, "w", errors="surrogateescape").write("".join(out))
