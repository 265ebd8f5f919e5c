#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cases, gen_expr

c = vlib.Check("C10")
cases.explore(c, gen_expr.all_cases(c.thorough), "vm", label="expressions")
c.assumptions += ["signed overflow, division by zero and shifts outside 0..31 are left out", "the virtual machine is the model in lib/vm.c"]
sys.exit(c.finish())
