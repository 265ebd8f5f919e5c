#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cases, gen_call

c = vlib.Check("C13")
cases.explore(c, gen_call.all_cases(c.thorough), "vm", label="calls")
c.assumptions += ["the virtual machine is the model in lib/vm.c"]
sys.exit(c.finish())
