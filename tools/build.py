#!/usr/bin/env python3
"""Builds VMEC++ from /repo's current working tree, offline, with the shims in
/verif/shim standing in for the two libraries this sandbox lacks (absl::log,
abscab).  Sources are discovered by globbing, so new or renamed files are seen.

usage: build.py VARIANT TARGET...
  VARIANT  rel | asan | tsan
  TARGET   pymod            the Python extension module (rel only)
           standalone       vmec_standalone
           h:<name>         /verif/harness/<name>.cc linked against the core
           u:<name>         the same, against the util libraries only
"""
import glob
import os
import subprocess
import sys
import sysconfig
import time

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP = f"{REPO}/src/vmecpp/cpp"
VENV = "/opt/vp/venv"
BUILD_ROOT = os.environ.get("VP_BUILD", f"{VERIF}/build")

EXCLUDE = ("_test.cc", "_bench.cc", "standalone", "pybind", "common/enzyme",
           "vmecpp_large_cpp_tests")


def sh(cmd):
    return subprocess.run(cmd, shell=True, check=True, capture_output=True,
                          text=True).stdout.strip()


def core_sources():
    out = []
    for root in (f"{CPP}/util", f"{CPP}/vmecpp"):
        out += glob.glob(f"{root}/**/*.cc", recursive=True)
    return sorted(s for s in out if not any(e in s for e in EXCLUDE))


def fftx_sources():
    f = f"{CPP}/third_party/fftx_codelets"
    return sorted(glob.glob(f"{f}/lib_fftx_iprdftbat_cpu_srcs/*.cpp")
                  + glob.glob(f"{f}/lib_fftx_prdftbat_cpu_srcs/*.cpp"))


VARIANTS = {
    # no -DNDEBUG anywhere: Eigen's and the code's own assertions stay armed
    "rel": "-O1 -fno-math-errno -fopenmp",
    "nofft": "-O1 -fno-math-errno -fopenmp",  # without the generated FFT kernels
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fno-math-errno -fopenmp "
            "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all "
            "-D_GLIBCXX_ASSERTIONS "
            "-fno-sanitize=vptr",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fno-math-errno -fopenmp "
            "-fsanitize=thread",
}


def pc(*pkgs):
    return sh("pkg-config --cflags " + " ".join(pkgs)), sh("pkg-config --libs " + " ".join(pkgs))


def absl_libs():
    # only library archives actually present; --start-group resolves order
    libs = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so")) or \
        sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))
    return libs


def generate(variant, targets):
    bdir = f"{BUILD_ROOT}/{variant}"
    os.makedirs(bdir, exist_ok=True)
    f = f"{CPP}/third_party/fftx_codelets"
    pch = f"{bdir}/pch/vp_pch.h"
    inc = " ".join([
        f"-include {pch}", f"-I{VERIF}/shim", f"-I{CPP}",
        f"-I{VERIF}/harness",
        "-isystem /usr/include/eigen3", "-isystem /usr/include/hdf5/serial",
        f"-I{f}", f"-I{f}/include", f"-I{f}/lib_fftx_iprdftbat_cpu_srcs",
        f"-I{f}/lib_fftx_prdftbat_cpu_srcs"])
    base = f"-std=c++20 -fPIC -w {VARIANTS[variant]} {'' if variant == 'nofft' else '-DVMECPP_USE_FFTX '}-DEIGEN_DONT_PARALLELIZE"
    pyinc = sh(f"{VENV}/bin/python -c \"import sysconfig;print(sysconfig.get_paths()['include'])\"")
    pb = f"{VENV}/lib/python3.12/site-packages/pybind11/include"
    hdf5 = "-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5"
    absl = " ".join(absl_libs())
    ldl = f"-Wl,--start-group {absl} -Wl,--end-group {hdf5} -lnetcdf -llapack -lblas"
    # the thread-sanitizer build brings its own OpenMP runtime
    ldflags = VARIANTS[variant].replace("-fopenmp", "-pthread") if variant == "tsan" else VARIANTS[variant]
    n = []
    n.append("rule cxx\n command = g++ $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $in\n")
    n.append("rule ar\n command = rm -f $out && ar crsT $out $in\n description = AR $out\n")
    n.append("rule link\n command = g++ $flags -fuse-ld=gold -o $out $in $libs\n description = LINK $out\n")
    n.append("rule pch\n command = g++ $flags -x c++-header -MMD -MF $out.d $in -o $out\n depfile = $out.d\n deps = gcc\n description = PCH\n")
    objs = []
    os.makedirs(f"{bdir}/pch", exist_ok=True)
    want = f'#include "{VERIF}/shim/vp_pch.h"\n'
    if not os.path.exists(pch) or open(pch).read() != want:
        open(pch, "w").write(want)
    n.append(f"build {pch}.gch: pch {pch}\n flags = {base} {inc.split(None, 2)[2]}\n")
    fftx = set(fftx_sources())
    finc = f"-I{f} -I{f}/include -I{f}/lib_fftx_iprdftbat_cpu_srcs -I{f}/lib_fftx_prdftbat_cpu_srcs"

    def obj(src, extra="", use_pch=True):
        rel = src.replace("/", "_").lstrip("_")
        o = f"{bdir}/o/{rel}.o"
        if src in fftx:
            n.append(f"build {o}: cxx {src}\n flags = {base} {finc}\n")
        elif not use_pch:
            ninc = inc.replace(pch, f"{VERIF}/shim/vp_pch.h")
            n.append(f"build {o}: cxx {src}\n flags = {base} {ninc} {extra}\n")
        else:
            n.append(f"build {o}: cxx {src} | {pch}.gch\n flags = {base} {inc} {extra}\n")
        return o

    os.makedirs(f"{bdir}/o", exist_ok=True)
    po = []
    if "pymod" in targets:  # the longest one: start it first, without the PCH
        po = [obj(s, f"-isystem {pb} -isystem {pyinc} -fvisibility=hidden", False)
              for s in sorted(glob.glob(f"{CPP}/vmecpp/vmec/pybind11/*.cc"))]
    # Largest translation units first: better packing on 8 cores.
    srcs = core_sources() + [f"{VERIF}/shim/abscab/abscab.cc"] + (fftx_sources() if variant != "nofft" else [])
    if variant == "tsan":
        srcs += [f"{VERIF}/shim/gomp/gomp_pthread.cc"]
    srcs.sort(key=lambda s: (s in fftx, -os.path.getsize(s)))
    for s in srcs:
        if s.endswith("gomp_pthread.cc"):
            objs.append(obj(s, "-fno-sanitize=thread", False))
        else:
            objs.append(obj(s))
    lib = f"{bdir}/libcore.a"
    n.append(f"build {lib}: ar {' '.join(objs)}\n")
    outs = []
    for t in targets:
        if t == "pymod":
            out = f"{bdir}/_vmecpp.so"
            n.append(f"build {out}: link {' '.join(po)} {lib}\n flags = -shared {ldflags}\n libs = {ldl}\n")
        elif t == "standalone":
            so = [obj(f"{CPP}/vmecpp/vmec/vmec_standalone/vmec_standalone.cc")]
            out = f"{bdir}/vmec_standalone"
            n.append(f"build {out}: link {' '.join(so)} {lib}\n flags = {VARIANTS[variant]}\n libs = {ldl}\n")
        elif t.startswith("h:"):
            name = t[2:]
            ho = [obj(f"{VERIF}/harness/{name}.cc")]
            out = f"{bdir}/{name}"
            n.append(f"build {out}: link {' '.join(ho)} {lib}\n flags = {VARIANTS[variant]}\n libs = {ldl}\n")
        elif t.startswith("u:"):   # needs nothing but the util libraries
            name = t[2:]
            ho = [obj(f"{VERIF}/harness/{name}.cc")]
            uo = [f"{bdir}/o/{s.replace('/', '_').lstrip('_')}.o" for s in srcs
                  if s.startswith(f"{CPP}/util/")]
            out = f"{bdir}/{name}"
            n.append(f"build {out}: link {' '.join(ho + uo)}\n flags = {VARIANTS[variant]}\n libs = {ldl}\n")
        elif t == "core":
            out = lib
        else:
            raise SystemExit(f"unknown target {t}")
        outs.append(out)
    n.append("default " + " ".join(outs) + "\n")
    path = f"{bdir}/build.ninja"
    txt = "builddir = %s\n" % bdir + "\n".join(n)
    if not os.path.exists(path) or open(path).read() != txt:
        open(path, "w").write(txt)
    return bdir, outs


def build(variant, targets, quiet=True, jobs=None):
    t0 = time.time()
    bdir, outs = generate(variant, targets)
    r = subprocess.run(["ninja", "-C", bdir] + (["-j", str(jobs)] if jobs else []),
                       capture_output=True, text=True)
    with open(f"{bdir}/build.log", "w") as fh:
        fh.write(r.stdout + r.stderr)
    if r.returncode != 0:
        sys.stderr.write("\n".join((r.stdout + r.stderr).splitlines()[-40:]) + "\n")
        raise RuntimeError(f"build of variant {variant} failed")
    return outs, time.time() - t0


if __name__ == "__main__":
    o, dt = build(sys.argv[1], sys.argv[2:])
    print("\n".join(o))
    print(f"built in {dt:.1f} s")
