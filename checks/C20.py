#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cases, gen_llvm, gen_stmt

c = vlib.Check("C20")
cases.explore(c, gen_llvm.expressions(c.thorough), "llvm", size=100, max_calls=3000, label="expressions")
cases.explore(c, gen_llvm.calls(c.thorough), "llvm", size=60, label="calls")
cases.explore(c, gen_llvm.aggregates(c.thorough), "llvm", size=40, label="arrays and constants")
cases.explore(c, gen_stmt.trees(False), "llvm", size=100, label="statements", make=gen_stmt.make, top=gen_stmt.TOP)
cases.explore(c, gen_llvm.heights(gen_stmt.height_cases()), "llvm", label="repeated statements")
cases.explore(c, gen_llvm.long_functions(), "llvm", size=8, label="long functions")
c.assumptions += ["signed overflow, division by zero and shifts outside 0..31 are left out", "clang 14 compiles the module faithfully"]
sys.exit(c.finish())
