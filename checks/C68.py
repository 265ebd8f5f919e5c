#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libcheck

c = vlib.Check("C68")
exe = libcheck.build("workspace.c")
libcheck.ENV["H_DIR"] = vlib.scratch()
libcheck.explore(c, exe, 1, 6 if c.thorough else 5, "workspace")
c.assumptions += ["paths of the set in harness/workspace.c (current-directory and parent-directory steps, backslashes, trailing slashes, dotted names)"]
sys.exit(c.finish())
