#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libcheck

c = vlib.Check("C66")
d = os.path.join(vlib.scratch(), "tables")
os.makedirs(d)
with open(os.path.join(d, "tables.h"), "w") as f:
    for n in ("cp866", "cp1251"):
        f.write("static const unsigned %s[256] = { %s };\n" % (n.upper(), ", ".join(str(ord(bytes([b]).decode(n, "replace"))) for b in range(256))))
exe = libcheck.build("utf8.c", extra=["-I" + d])
libcheck.explore(c, exe, 1, 1, "characters")
c.sample("every code point U+0000..U+10FFFF; every pair of bytes of cp866 and cp1251")
sys.exit(c.finish())
