#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libcheck

c = vlib.Check("C63")
exe = libcheck.build("strings.c")
libcheck.explore(c, exe, 1, 6 if c.thorough else 5, "string_table")
c.assumptions += ["one object; keys, values and sizes from the sets in harness/strings.c"]
sys.exit(c.finish())
