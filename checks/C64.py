#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, libcheck

c = vlib.Check("C64")
exe = libcheck.build("tree.c")
libcheck.explore(c, exe, 1, 5 if c.thorough else 4, "ordered tree")
c.assumptions += ["up to 7 nodes, six initial trees, then every sequence of edits of the stated length",
                  "arguments are appended only to the node added last, nodes related as ancestor and descendant are not exchanged (both outside the interface's contract)"]
sys.exit(c.finish())
