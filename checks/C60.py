#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libcheck

c = vlib.Check("C60")
exe = libcheck.build("vector.c", extra=["-Wl,--wrap=realloc"])
libcheck.explore(c, exe, 1, 6 if c.thorough else 5, "vector and stack")
c.sample("create(2); let allocation 0 fail; add(..); add_double(1.5); resize(5)")
c.assumptions += ["one object; values and indices from the boundary sets in harness/vector.c", "single allocation failure per history"]
sys.exit(c.finish())
