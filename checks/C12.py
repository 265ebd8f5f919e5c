#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cases, gen_aggr

c = vlib.Check("C12")
cases.explore(c, gen_aggr.all_cases(c.thorough), "vm", label="aggregates")
cases.explore(c, gen_aggr.constants(), "vm", size=1, label="constants")
c.assumptions += ["the virtual machine is the model in lib/vm.c"]
sys.exit(c.finish())
