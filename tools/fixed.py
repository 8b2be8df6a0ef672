#!/usr/bin/env python3
"""Writes known_findings.json: the repairs in /repo and the property each is about."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = "b86d6fc"
OF = {}  # first words of the message -> property
for line in """
P01|write the MO magic number
P02|hash the bytes
P01|compile MO files without touching
P03|reject MO files
P03|parse a MO file anew
P01|read the only form
P05|end PO strings
P05|write control characters
P31|keep the header in the source file
P31|write a managed PO header
P14|split header fields
P15|restore the previous
P18|report the line
P17|do not extract empty
P17|keep the messages of a file
P18|forget the imports
P18|report source paths
P07|parse PO files that do not end
P07|keep the warnings
P08|read PO comments by
P06|comment out every line of an obsolete
P06|comment out every line of a comment
P06|write locations without
P08|read octal and hexadecimal
P10|entries that are not obsolete
P13|only keep messages
P13|keep flags, obsolescence
P10|compare the first fields
P27|the average of
P27|compare the translations
P31|comment out the comments of fuzzy
P27|empty strings are
P09|compare numbers
P09|order entries by
P11|do not write into the locations
P11|keep the plural of
P01|keep the plural, but
P12|merge into every
P08|read octal escapes
P18|exclude the files in
P31|mark the managed header
P21|write to standard output in msgofmt
P21|compile only the named files
P22|read standard input in msgounfmt
P24|read the files in the list
P24|keep the references of the header with --lang
P23|do not empty the output of msgomerge
P23|keep the header of the files
P23|require two files in msgomerge
P23|only take the translations of messages in use
P23|set the language that msgomerge
P25|read the files that are named besides
P25|skip empty lines in the list
P25|report the files that xgotext cannot
P25|read standard input in xgotext
P25|keep the messages of xgotext out
P25|do not empty the file that xgotext
P25|do not extract the entries of the file
P25|keep the obsolete messages of the file
P25|write the title and the copyright
P08|accept vertical tabs
P17|extract calls of a package that is imported twice
""".strip().splitlines():
    p, s = line.split("|")
    OF[s] = p
out = []
extra = os.path.join(here, "tools", "findings.json")
if os.path.exists(extra):
    out += json.load(open(extra))
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", base + "..HEAD"], text=True).splitlines():
    h, s = line.split(" ", 1)
    assert s.startswith("fix: "), s
    s = s[5:]
    p = [v for k, v in OF.items() if s.startswith(k)]
    assert len(p) == 1, s
    out.append(dict(kind="fixed", property=p[0], what=f"fixed: property={p[0]} {h} repaired: {s}"))
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
