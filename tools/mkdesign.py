#!/usr/bin/env python3
"""Puts DESIGN.md together from its text parts, the scenarios and the planted bugs."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(here, f)).read()
out = [rd("tools/design.head.md")]
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
scn = {}
for f in sorted(glob.glob(os.path.join(here, "harness/*.go"))):
    for blk in re.split(r"(?:scn|long)\(&Scenario\{", open(f).read())[1:]:
        blk = blk[:1500]
        p = re.search(r'Prop: "(C\d\d)"', blk)
        n = re.search(r'Name: "([^"]*)"', blk)
        w = re.search(r'What: "([^"]*)"', blk)
        d = re.search(r"D: \[2\]int\{(-?\d), (-?\d)\}", blk)
        if not w:
            continue
        if not n or not p:
            if "bind-errors" in blk:
                for q in ("C14", "C25"):
                    scn.setdefault(q, []).append((q.lower() + "-bind-errors", d.groups(), w.group(1)))
            continue
        scn.setdefault(p.group(1), []).append((n.group(1), d.groups() if d else ("0", "0"), w.group(1)))
spaces = {}
cur = None
for f in ("pure/codec.go", "pure/codes.go", "pure/config.go"):
    for line in open(os.path.join(here, f)):
        m = re.search(r'check\{"(C\d\d)"', line)
        if m:
            cur = m.group(1)
        m = re.search(r'(?:^\s*\{|space\{+|\[\]space\{\{|single\(|pairs\(|fieldSets\()"([^"]{10,})"', line)
        if m and cur:
            spaces.setdefault(cur, []).append(m.group(1))
META = {
 "C09": "Oracle: rejection exactly for the two stated reasons, no socket, and the byte-exact reply when started.",
 "C10": "Oracle: number, destination and bytes of the replies, nothing else sent. Reaches queue overflow (10 entries) and orderings a test cannot force.",
 "C11": "Oracle: multiset of delivered packets compared field by field with the datagrams, also at the end of the run (shared buffers).",
 "C12": "Oracle: liveness probe after every fault history; panics end the execution with a violation.",
 "C13": "Oracle: Stop returns within 5 s of virtual time, socket closed, nothing sent, no goroutine left.",
 "C14": "Oracle: reference state machine (running or not) with a probe poll after the calls.",
 "C15": "Oracle: exact instants, bytes and destination of the polls; one reply per own and foreign poll.",
 "C16": "Oracle: reference book of nodes and addresses compared after each reply.",
 "C17": "Oracle: known until 7 s, gone after 10 s, frames of other nodes undisturbed.",
 "C18": "Oracle: ledger of the values that may be sent for each address at each moment.",
 "C19": "Oracle: gaps between the frames of each universe, lower and upper bound.",
 "C20": "Oracle: the sequence numbers on the wire, per node.",
 "C21": "Oracle: Stop and every SendDMXToAddress return; silence and no goroutine afterwards.",
 "C22": "Oracle: happens-before race detector on every explored schedule.",
 "C24": "Oracle: several objects on a routed virtual network; discovery within a poll interval, values at the callbacks.",
 "C26": "Oracle: numbers of live goroutines and open sockets at rest, compared between rounds of the same traffic.",
 "C27": "Oracle: what each socket sends, each callback gets and each table contains, compared with what that object alone was given.",
 "C25": "Oracle: list of open sockets, source socket and destination of everything sent.",
}
for p in props:
    i = p["id"]
    out.append("### %s %s\n\n" % (i, p["title"]))
    if i in META:
        out.append(META[i] + "\n\n")
        for n, d, w in scn.get(i, []):
            out.append("- `%s` (D %s): %s\n" % (n, "/".join("-" if x == "-1" else x for x in d), w))
    else:
        out.append("Complete enumeration against the reference; spaces:\n\n")
        for s in spaces.get(i, []):
            out.append("- %s\n" % s)
    out.append("\n")
out.append(rd("tools/design.tail.md"))
out.append("| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n")
esc = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "\\|")
for d in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], esc(m["needs"]), esc(m["what_it_breaks"])))
out.append(rd("tools/design.end.md"))
open(os.path.join(here, "DESIGN.md"), "w").write("".join(out))
