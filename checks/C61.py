#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libcheck

c = vlib.Check("C61")
exe = libcheck.build("map.c")
libcheck.explore(c, exe, 1, 5 if c.thorough else 4, "dictionary")
c.assumptions += ["one object; keys, values and sizes from the sets in harness/map.c"]
sys.exit(c.finish())
