#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (not part of any check)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MISSED = {
 "riblt-low32-checksum": "missed; families of related hashes added",
 "riblt-zero-checksum": "missed; extreme hashes and small differences added",
 "riblt-reset-empty": "no answer (memory ran out); memory watchdog added",
 "ldpc-xor-tail": "missed; data of the transactions now fills all words",
 "lt-memory-boundary": "missed; conflict sessions added to C11",
 "des-outside-delay": "missed; messages from outside after time 0 added",
 "newsim-inflight-keep": "missed; obligation 'something of the current block in flight' added",
 "lt-lone-alias": "missed (values only); data held by pointer, pipe sessions, shared transactions added",
 "ldpc-members-share": "missed; codewords are kept, delayed and looked at again",
 "iblt-release-scratch": "missed; what is released is kept and looked at again",
 "lt-known-inplace": "missed (values only); data held by pointer added",
 "riblt-skip-equal-hash": "missed; different symbols of equal hash added",
 "node-cw-hoist": "missed by C23 (caught by C21); wire sessions added",
}
CAUGHT_BY_PROP = "caught"
def table():
    d = os.path.join(V, "seeded")
    rows = ["| bug | property | what it breaks | needs | |", "|-|-|-|-|-|"]
    for n in sorted(os.listdir(d), key=lambda n: (json.load(open(os.path.join(d, n, "meta.json")))["property"], n)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        c = lambda s: " ".join(s.replace("|", "/").split())
        rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], c(m["what_it_breaks"]), c(m["needs"]), MISSED.get(n, CAUGHT_BY_PROP)))
    return "\n".join(rows)
if __name__ == "__main__":
    p = os.path.join(V, "DESIGN.md")
    t = open(p).read()
    a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
    if a in t:
        t = t[:t.index(a)] + a + table() + "\n" + t[t.index(b):]
        open(p, "w").write(t)
