#!/usr/bin/env python3
"""Writes spec/XidTable.tla from Python's own Unicode data (independent of the unicode-ident crate).
Run by hand; the result is committed.  XID_Start / XID_Continue are taken from str.isidentifier()."""
import sys, unicodedata, os

def ranges(pred):
    out, lo = [], None
    for c in range(128, 0x110000):
        if pred(c):
            if lo is None: lo = c
        elif lo is not None:
            out.append((lo, c - 1)); lo = None
    if lo is not None: out.append((lo, 0x10FFFF))
    return out

sur = lambda c: 0xD800 <= c <= 0xDFFF
start = ranges(lambda c: not sur(c) and chr(c).isidentifier())
cont = ranges(lambda c: not sur(c) and ("a" + chr(c)).isidentifier())
unas = ranges(lambda c: not sur(c) and unicodedata.category(chr(c)) == "Cn")

def fmt(name, rs):
    lines = ["%s == <<" % name]
    items = ["<<%d,%d>>" % r for r in rs]
    for i in range(0, len(items), 8):
        lines.append("  " + ", ".join(items[i:i+8]) + ("," if i + 8 < len(items) else ""))
    lines.append(">>")
    return "\n".join(lines)

text = f"""------------------------------ MODULE XidTable ------------------------------
(* Unicode {unicodedata.unidata_version} identifier properties as sorted disjoint code-point ranges, non-ASCII part only.
   Independent of the unicode-ident crate: generated by /verif/tools/gen_xid.py from Python's
   unicodedata.  Code points unassigned in that Unicode version are listed in UnassignedRanges;
   the specification says nothing about those (a newer Unicode may assign them). *)
\\* XID_Start, code points >= 128
{fmt("XidStartRanges", start)}

\\* XID_Continue, code points >= 128
{fmt("XidContinueRanges", cont)}

\\* unassigned code points
{fmt("UnassignedRanges", unas)}
=============================================================================
"""
dst = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "XidTable.tla")
open(dst, "w").write(text)
