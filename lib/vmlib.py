"""The virtual machine model as a library; programs are compiled and executed."""
import ctypes, os
import vlib

OK, MALFORMED, RUNTIME, STEPS, MONITOR, ASSERT = range(6)
NAMES = ["ok", "malformed image", "runtime error", "step limit", "monitor", "assertion"]
_lib = None
_buf = None
CAP = 1 << 20


def build():
    so = os.path.join(vlib.scratch(), "libvm.so")
    if not os.path.exists(so):
        vlib._run(["gcc", "-O2", "-w", "-shared", "-fPIC", os.path.join(vlib.LIB, "vm.c"), "-o", so, "-lm"])
    return so


class Run:
    __slots__ = ("code", "out", "err", "steps", "high", "rest")

    def describe(self):
        return NAMES[self.code] + (": " + self.err if self.err else "")


def run(image, max_steps=2000000):
    global _lib, _buf
    if _lib is None:
        _lib = ctypes.CDLL(build())
        _lib.vm_run.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_char_p, ctypes.c_long, ctypes.c_long
                                , ctypes.POINTER(ctypes.c_long), ctypes.c_char_p]
        _buf = (ctypes.create_string_buffer(CAP), (ctypes.c_long * 3)(), ctypes.create_string_buffer(256))
    out, info, err = _buf
    r = Run()
    r.code = _lib.vm_run(image, len(image), out, CAP, max_steps, info, err)
    r.out = out.value.decode("utf-8", "replace")
    r.err = err.value.decode("utf-8", "replace")
    r.steps, r.high, r.rest = info[0], info[1], info[2]
    return r
