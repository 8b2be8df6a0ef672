#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the oracles below, engine/checks.go,
properties.jsonl, known_findings.json and seeded/."""
import json, re, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
O = {  # oracle, and why this reaches what the tests do not
"P01": "The messages themselves: every one that is not fuzzy or obsolete must be found in what the MO parser makes of the compiled bytes, with every field the same, and nothing else.",
"P02": "A reader of the MO format written in the harness after the GNU gettext manual: magic, tables, NUL after every string, no overlap, order of the originals, binary search, and the hash table with hashpjw and double hashing over the size given. It shares no code with the compiler.",
"P03": "The same independent reader decides which messages the tables of the file describe, with 64-bit arithmetic and no allocation; the parser must refuse the file or give exactly those. Crashes, hangs (instruction bound) and slices larger than the file are violations of the engine itself.",
"P04": "A writer of MO files in the harness, which lays the blocks out in other orders and with gaps.",
"P05": "The entry itself: what is written reads back the same, byte for byte.",
"P06": "The entries themselves: every field is compared with what reads back.",
"P07": "No panic, the caller's bytes (and the array behind them) unchanged, file or error, the same twice, no identity twice, not both singular and plural.",
"P08": "The harness writes the file from a message, in every layout that GNU msgfmt accepts as the same, and the parser must give that message.",
"P09": "The axioms of a total preorder on three symbolic entries, the key that each mode names, and a permutation check of what a sort returns.",
"P10": "Equality of every field, written out in the harness.",
"P11": "Reference implementations in the harness by first place of each identity, and a comparison of every field that is to be kept.",
"P12": "Set conditions on the result in terms of the two inputs, which are stated in the property; which similar message is guessed is left open.",
"P13": "A reference fold over all definitions of each identity in order.",
"P14": "A reference list of fields, and the number in the text; validity as a table.",
"P15": "A copy of the configuration before, and the one field that the option names, by reflection over both.",
"P16": "The bytes given by one way against those given by another, and a writer that fails after any number of bytes.",
"P17": "The harness composes a Go file around calls whose arguments it knows; it says itself what each call looks up.",
"P18": "The line of the literal is counted in the composed text; the tree of files is an in-memory file system in which any file may be missing, and the expected set is computed from the paths.",
"P19": "The in-memory file system after the operation, compared with what compiling to bytes gives, with room for only a part of it, for directories in the way and missing ones.",
"P20": "The output without highlighting.",
"P21": "Whole runs of the real command (cobra, pflag, the OS replaced by the file system of the engine): exit, standard output and every file afterwards against what the library gives for the same messages.",
"P22": "As P21.", "P23": "As P21, and the message sets of P12.", "P24": "As P21, and the message sets of P13.", "P25": "As P21, with Go files whose messages are known.",
"P26": "A reference map of identities.", "P27": "Bounds of the ratio, its values at both ends, and a search over all members for a better one.",
"P28": "The definition of an invalid and of a duplicate message, written out.",
"P29": "The fields that each rule allows, written out.",
"P30": "The run of the tool by itself (detached from the other command) on the same files; the options that its own help lists; a list of names that are no tools.",
"P31": "What reads back from the output with the option against the messages with the named change.",
"P32": "Parsing the whole of the data at once.",
"P33": "Each operation run alone: its result is taken before and compared after another one ran, and for two at the same time the engine records every access to memory outside of an operation's own allocations with the locks held. An access by both, one of them a write, without a common lock is a candidate that is confirmed by a native run under Go's race detector.",
}
checks = {}
src = open("engine/checks.go").read()
for blk in re.split(r'\n\t\{ID: "', src)[1:]:
    cid = blk[:3]
    runs = []
    for m in re.finditer(r'\{H: "([^"]+)"(.*?)Bound: "([^"]*)"\}', blk):
        runs.append((m.group(1), "thorough only: " if 'Only: "thorough"' in m.group(2) else "", m.group(3)))
    a = re.search(r'Assume: \[\]string\{(.*?)\},\n', blk)
    o = re.search(r'Outside: "([^"]*)"', blk)
    assume = re.findall(r'"([^"]*)"', a.group(1)) if a else []
    if a and "utf8Free" in a.group(1): assume = [re.search(r'utf8Free = "([^"]*)"', src).group(1)] + assume
    checks[cid] = (runs, assume, o.group(1) if o else "")
props = [json.loads(l) for l in open("properties.jsonl")]
props.sort(key=lambda p: p["id"])
known = json.load(open("known_findings.json"))
out = [open("tools/design_head.md").read().rstrip(), "\n## The properties\n",
 "Each is decided by the harness functions named (`harness/<directory>`, a function `H...`), executed symbolically; bounds are those of the quick tier unless marked. The thorough tier widens them (`T:` in `engine/checks.go`). None is under `not_applicable`.\n"]
for p in props:
    runs, assume, outside = checks[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append("*Oracle.* " + O[p["id"]] + "\n")
    if assume: out.append("*Assumed.* " + "; ".join(assume) + ".\n")
    out.append("*Bounds.*\n")
    out += [f"- `{h}`: {t}{b}" for h, t, b in runs]
    out.append("\n*Outside.* " + outside + ".\n")
    fx = [k["what"].split(" repaired: ") for k in known if k["property"] == p["id"] and k["kind"] == "fixed"]
    if fx: out.append("*Defects found and repaired.* " + "; ".join(f"{b} (`{a.split()[-1]}`)" for a, b in fx) + ".\n")
    kf = [k["what"] for k in known if k["property"] == p["id"] and k["kind"] != "fixed"]
    if kf: out.append("*Known findings.* " + "; ".join(kf) + ".\n")
out.append(open("tools/design_tail.md").read().rstrip() + "\n")
out.append("| bug | property | what it needs |\n|---|---|---|")
for d in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open(f"seeded/{d}/meta.json"))
    out.append(f"| {d} | {m['property']} | {m['needs']} |")
open("DESIGN.md", "w").write("\n".join(out) + "\n")
