#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libcheck

c = vlib.Check("C67")
exe = libcheck.build("uniio.c")
libcheck.ENV["H_DIR"] = vlib.scratch()
libcheck.explore(c, exe, 1, 6 if c.thorough else 5, "channels")
c.assumptions += ["valid UTF-8 text without NUL; one conversion per scanf, as the compiler uses it"]
sys.exit(c.finish())
