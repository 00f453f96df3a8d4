#!/usr/bin/env python3
"""Rewrites the parts of DESIGN.md between the markers (run by hand): one section per property, the repairs, the planted bugs"""
import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

EXTRA = {
'C01': ("exact-fraction reference of `Transaction::balance` (`lib/model.py`): verdict per transaction", "rejections are judged by exit code, a diagnostic and the absence of a report; every fifth case asks a second command"),
'C02': ("the reference, the twin journal with every amount written out, and a later assertion of the filled balance", "the assertion sees the exact value, which the display would round"),
'C03': ("assertions inside the journal: the program itself compares the exact rational it holds with the literal the reference computed; one accepted, one differing in the last decimal rejected", "reports round to cents, so only an assertion can observe exactness"),
'C04': ("the reference's rounding, half away from zero, of the exact amount", "boundaries are generated on purpose: n.nn5, n.nn49…9, .995, -0.004…, carries into the whole part"),
'C05': ("exact sums per account, cut to the depth, and the total", ""),
'C06': ("the tree is rebuilt from the indentation, then each row's amount must be the sum of the subtree; each account with a sum must be in exactly one row", "accepts any legal way of sharing rows between a parent and its only child"),
'C07': ("row by row comparison with the reference's sequence of postings and running totals", "the display clips long descriptions: a prefix is required, the width is free"),
'C08': ("the reference replays the journal by date, keeps the balances, decides assertions and fills assignments", "journals with assignments in accounts of several commodities, where the meaning is not specified, are `Unclear` and left out"),
'C09': ("metamorphic: permutations of the same items give the same bytes", "the list of prices keeps the order of the file, so it is compared as a set"),
'C10': ("metamorphic: the shim hands out the hash keys, so every execution explores a chosen iteration order of all the hash maps", "the only nondeterminism the program has; 4 to 8 keys per command"),
'C11': ("the reference's selection, plus: report before + report from = report", ""),
'C12': ("queries which carry their predicate (`lib/expr.py`), evaluated by the reference over the postings", ""),
'C13': ("typed random expressions which carry their meaning, evaluated in exact fractions", "sums of different commodities, which the program refuses, are not made"),
'C14': ("the reference applies the rules in order to the postings, then balances and reports again", ""),
'C15': ("multiset of the reference's prices", ""),
'C16': ("the reference enumerates every chain of latest quotes and keeps those nearest to the day; the report must be that of one of them, the same in all rows", "which of two equidistant chains, or two quotes of a day, is used is not specified: any is accepted"),
'C17': ("metamorphic: the respelled journal gives the same bytes as the plain one", ""),
'C18': ("metamorphic against the single file; loops, missing files and errors in included files must be rejected", "the shim's log shows the files which were opened"),
'C19': ("the reference assigns tags; reports by tag are compared", ""),
'C20': ("sets of names of the reference", ""),
'C21': ("metamorphic: plain and random style of the same items give the same bytes", ""),
'C22': ("metamorphic: same output as giving the effective options in the command line", ""),
'C23': ("termination, signal, exit code, streams; agreement of all commands; in the thorough tier an AddressSanitizer build", "the one known finding is here"),
'C24': ("must be rejected; the well-formed twin must be accepted, so that the rejection is due to the malformed place", ""),
'C25': ("metamorphic: coloured output without SGR sequences equals the plain one", ""),
'C26': ("metamorphic (--real against the journal without virtual postings) and differential", ""),
'C27': ("file name and line range, or date and description, known by construction", "the wording is free"),
'C28': ("the shim's log of every open, write, rename, unlink, socket and process call; a snapshot of the tree before and after", "calls which change anything are refused and reported, so nothing is harmed"),
'C29': ("the proleptic Gregorian calendar of Python", "every month 0–14 × day 0–33 × kind of year"),
'C30': ("the reference's rules", "journals in which several rules match differently are left out: the order among them is not specified (C10 covers that it is stable)"),
'C31': ("no reference: outputs of one journal against each other", "amounts of two decimals, so that what is shown is exact"),
}


def properties():
    out = []
    for line in open(ROOT + "/properties.jsonl"):
        d = json.loads(line)
        m = importlib.import_module("lib.props." + d["id"].lower())
        o, n = EXTRA[d["id"]]
        out.append("### %s %s\n" % (d["id"], d["title"]))
        out.append("*Workload.* %s\n" % m.RULE)
        if getattr(m, "WORLD", None):
            out.append("%d %% of the cases are worlds (see above).\n" % round(m.WORLD * 100))
        out.append("*Oracle.* %s.%s\n" % (o[0].upper() + o[1:], (" " + n[0].upper() + n[1:] + ".") if n else ""))
        out.append("*Bounds and cost.* Quick: %s cases; thorough: %s cases or 40 minutes, whichever comes first.\n" % (m.QUICK, m.THOROUGH))
    return "\n".join(out)


def repairs():
    out = []
    for f in json.load(open(ROOT + "/known_findings.json"))["fixed"]:
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
        out.append("| %s | `%s` | %s |" % m.groups())
    return "| Property | Commit | What the commit does |\n|---|---|---|\n" + "\n".join(out) + "\n"


def planted():
    out = []
    for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
        d = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        out.append((d["property"], "| `%s` | %s | %s | %s |" % (i, d["property"], d["needs"], ", ".join(CAUGHT.get(i, ["?"])))))
    return "| Planted bug | Property | Needs | Caught by |\n|---|---|---|---|\n" + "\n".join(x for _, x in sorted(out)) + "\n"


try:
    CAUGHT = json.load(open(ROOT + "/tools/caught.json"))
except FileNotFoundError:
    CAUGHT = {}

if __name__ == "__main__":
    p = ROOT + "/DESIGN.md"
    s = open(p).read()
    for k, f in (("properties", properties), ("repairs", repairs), ("planted", planted)):
        s = re.sub(r"(<!-- %s -->\n).*?(<!-- end of %s -->)" % (k, k), lambda m: m.group(1) + "\n" + f() + "\n" + m.group(2), s, flags=re.S)
    open(p, "w").write(s)
