#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libcheck

c = vlib.Check("C65")
exe = libcheck.build("item.c")
libcheck.explore(c, exe, 1, 1, "target cells")
c.sample("cell type int16, value 0x8000000000000001: 4 cells, restored")
c.assumptions += ["the compiler's own cell is the default signed 64-bit one", "the all-ones NaN equal to the error code is not a value"]
sys.exit(c.finish())
