"""A stand-in for pyopencl: kernels are compiled for the host by clang's OpenCL C front end and run one work item after another.

`log` collects one entry per launch: (kernel name, {argument name: value}, global size).  `hook`, when set, is called instead of the compiled
kernel, with the same dictionary; arrays appear in it as the NumPy arrays behind them."""
import ctypes
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types

import numpy as np

from vlib.harness import HarnessError

log = []
before, after = {}, {}  # arrays of the last launch of a compiled kernel
hook = None
_libs = {}

_UNARY = "sin cos tan asin acos atan sinh cosh tanh exp exp2 log log2 log10 sqrt cbrt fabs floor ceil round trunc rint expm1 log1p".split()
_BINARY = "pow fmin fmax fmod atan2 hypot copysign".split()


def _shim():
    s = "unsigned long vp_gid(void); unsigned long vp_gsz(void);\n#define OV __attribute__((overloadable))\n"
    s += "size_t OV get_global_id(uint d) { return d ? 0 : vp_gid(); }\nsize_t OV get_global_size(uint d) { return d ? 1 : vp_gsz(); }\n"
    s += "size_t OV get_local_id(uint d) { return 0; }\nsize_t OV get_local_size(uint d) { return 1; }\nsize_t OV get_group_id(uint d) { return d ? 0 : vp_gid(); }\n"
    for f in _UNARY:
        s += "float OV %s(float x) { return __builtin_%sf(x); }\n" % (f, f)
    for f in _BINARY:
        s += "float OV %s(float x, float y) { return __builtin_%sf(x, y); }\n" % (f, f)
    for f in "sin cos tan exp exp2 log log2 log10 sqrt".split():
        s += "float OV native_%s(float x) { return __builtin_%sf(x); }\nfloat OV half_%s(float x) { return __builtin_%sf(x); }\n" % (f, f, f, f)
    s += "float OV rsqrt(float x) { return 1.0f / __builtin_sqrtf(x); }\nfloat OV native_rsqrt(float x) { return 1.0f / __builtin_sqrtf(x); }\n"
    s += "float OV native_recip(float x) { return 1.0f / x; }\nfloat OV native_divide(float x, float y) { return x / y; }\n"
    s += "float OV pown(float x, int n) { return __builtin_powf(x, (float)n); }\nfloat OV powr(float x, float y) { return __builtin_powf(x, y); }\n"
    s += "float OV mad(float a, float b, float c) { return a * b + c; }\nfloat OV fma(float a, float b, float c) { return __builtin_fmaf(a, b, c); }\n"
    s += "float OV sincos(float x, float *c) { *c = __builtin_cosf(x); return __builtin_sinf(x); }\n"
    s += "float OV sinpi(float x) { return __builtin_sinf(x * M_PI_F); }\nfloat OV cospi(float x) { return __builtin_cosf(x * M_PI_F); }\n"
    s += "float OV sign(float x) { return x > 0 ? 1.0f : x < 0 ? -1.0f : x; }\nint OV isnan(float x) { return x != x; }\nint OV isfinite(float x) { return x - x == 0; }\n"
    for t in ("float", "int", "uint"):
        s += "{t} OV min({t} a, {t} b) {{ return b < a ? b : a; }}\n{t} OV max({t} a, {t} b) {{ return a < b ? b : a; }}\n".format(t=t)
        s += "{t} OV clamp({t} x, {t} a, {t} b) {{ return x < a ? a : x > b ? b : x; }}\n".format(t=t)
    s += "uint OV abs(int x) { return x < 0 ? -x : x; }\nuint OV rotate(uint x, uint n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }\n"
    for n, e in ((2, "a.x*b.x+a.y*b.y"), (3, "a.x*b.x+a.y*b.y+a.z*b.z"), (4, "a.x*b.x+a.y*b.y+a.z*b.z+a.w*b.w")):
        s += "float OV dot(float{n} a, float{n} b) {{ return {e}; }}\nfloat OV length(float{n} a) {{ return __builtin_sqrtf(dot(a, a)); }}\n".format(n=n, e=e)
        s += "float OV fast_length(float{n} a) {{ return __builtin_sqrtf(dot(a, a)); }}\n".format(n=n)
        s += "float{n} OV normalize(float{n} a) {{ return a / __builtin_sqrtf(dot(a, a)); }}\nfloat{n} OV fast_normalize(float{n} a) {{ return a / __builtin_sqrtf(dot(a, a)); }}\n".format(n=n)
    for t in ("uint", "int"):
        s += "{t} OV atomic_inc(volatile __global {t} *p) {{ return (*p)++; }}\n{t} OV atomic_add(volatile __global {t} *p, {t} v) {{ {t} o = *p; *p += v; return o; }}\n".format(t=t)
    return s


def _compile(src):
    key = hashlib.sha256(src.encode()).hexdigest()
    if key in _libs:
        return _libs[key]
    clang = shutil.which("clang") or shutil.which("clang-18")
    if clang is None:
        raise HarnessError("clang is not installed")
    d = tempfile.mkdtemp(prefix="vp_cl_")
    try:
        names = re.findall(r"__kernel\s+void\s+(\w+)", src)
        loop = "static unsigned long gid, gsz;\nunsigned long vp_gid(void) { return gid; }\nunsigned long vp_gsz(void) { return gsz; }\n"
        loop += "void vp_set(unsigned long i, unsigned long n) { gid = i; gsz = n; }\n"
        for f, t in (("k.cl", src), ("s.cl", _shim()), ("l.c", loop)):
            open(os.path.join(d, f), "w").write(t)
        cl = [clang, "-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header", "-O2", "-fPIC", "-w", "-c"]
        for args in (cl + ["k.cl", "-o", "k.o"], cl + ["s.cl", "-o", "s.o"], [clang, "-shared", "-fPIC", "-O2", "k.o", "s.o", "-x", "c", "l.c", "-lm", "-o", "k.so"]):
            r = subprocess.run(args, cwd=d, capture_output=True, text=True)
            if r.returncode:
                if args[-3] == "k.cl":
                    raise RuntimeError("the kernel does not compile: " + r.stderr[-800:])
                raise HarnessError("cannot build the stand-in for OpenCL: " + r.stderr[-800:])
        try:
            lib = ctypes.CDLL(os.path.join(d, "k.so"), mode=os.RTLD_NOW)
        except OSError as e:
            raise HarnessError("the kernel uses a built-in function the stand-in lacks: %s" % e)
        lib._names = names
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _libs[key] = lib
    return lib


def signature(src, name):
    m = re.search(r"__kernel\s+void\s+%s\s*\((.*?)\)\s*\{" % name, re.sub(r"//[^\n]*|/\*.*?\*/", "", src, flags=re.S), re.S)
    return [a.split()[-1].lstrip("*") for a in m.group(1).split(",")]


class Array:
    def __init__(self, a):
        self.a = np.ascontiguousarray(a)
        self.data = self
        self.shape, self.dtype = self.a.shape, self.a.dtype

    def get(self, *a, **k):
        return self.a.copy()


class Program:
    def __init__(self, ctx, src):
        self._src = src

    def build(self, *a, **k):
        if hook is None:
            _compile(self._src)
        return self

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        args = signature(self._src, name)

        def launch(queue, gsize, lsize, *vals):
            if len(vals) != len(args):
                raise TypeError("%s takes %d arguments, %d given" % (name, len(args), len(vals)))
            d = {k: v.a if isinstance(v, Array) else v for k, v in zip(args, vals)}
            log.append((name, {k: v for k, v in d.items() if not isinstance(v, np.ndarray)}, tuple(gsize)))
            if hook is not None:
                return hook(d, tuple(gsize))
            before.clear()
            after.clear()
            before.update({k: v.copy() for k, v in d.items() if isinstance(v, np.ndarray) and v.size < 10**6})
            after.update({k: v for k, v in d.items() if isinstance(v, np.ndarray)})
            lib = _compile(self._src)
            f = getattr(lib, name)
            f.restype = None
            conv = []
            for v in vals:
                if isinstance(v, Array):
                    conv.append(ctypes.c_void_p(v.a.ctypes.data))
                elif isinstance(v, np.floating):
                    if v.dtype != np.float32:
                        raise TypeError("kernel argument of type %s" % v.dtype)
                    conv.append(ctypes.c_float(v))
                elif isinstance(v, np.integer):
                    conv.append((ctypes.c_int32 if v.dtype == np.int32 else ctypes.c_uint32)(int(v)))
                else:
                    raise TypeError("kernel argument of type %s" % type(v))
            n = int(np.prod(gsize))
            for i in range(n):
                lib.vp_set(ctypes.c_ulong(i), ctypes.c_ulong(n))
                f(*conv)

        return launch


def install():
    if "pyopencl" in sys.modules and not getattr(sys.modules["pyopencl"], "_vp", False):
        del sys.modules["pyopencl"]
    cl, ar = types.ModuleType("pyopencl"), types.ModuleType("pyopencl.array")
    cl._vp = True
    cl.create_some_context = lambda *a, **k: object()
    cl.CommandQueue = lambda *a, **k: object()
    cl.Program = Program
    cl.array = ar
    ar.zeros = lambda q, shape, dtype=np.float32, **k: Array(np.zeros(shape, dtype))
    ar.empty = ar.zeros
    ar.to_device = lambda q, a, **k: Array(np.array(a))
    ar.Array = Array
    sys.modules["pyopencl"], sys.modules["pyopencl.array"] = cl, ar
