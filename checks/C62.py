#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libcheck

c = vlib.Check("C62")
exe = libcheck.build("hash.c")
libcheck.explore(c, exe, 1, 6 if c.thorough else 5, "record_table")
c.assumptions += ["one object; keys, values and sizes from the sets in harness/hash.c"]
sys.exit(c.finish())
