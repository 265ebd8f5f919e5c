#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cases, gen_stmt

c = vlib.Check("C11")
cases.explore(c, gen_stmt.trees(c.thorough), "vm", size=30, label="statements", make=gen_stmt.make, top=gen_stmt.TOP)
cases.explore(c, gen_stmt.height_cases(), "vm", label="repeated statements")
c.assumptions += ["the virtual machine is the model in lib/vm.c"]
sys.exit(c.finish())
