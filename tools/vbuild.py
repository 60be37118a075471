"""Builds /repo's library sources and the harnesses against syclmon.

Objects are cached under /verif/build keyed by the content of every file that
went into them, so a check rebuilds exactly what a change in /repo touched.
"""
import hashlib, json, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NCHUNK = 16
CXX = "clang++"
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
DEFS = ("-DNESO_PARTICLES_DEVICE_TYPE_CPU -DNESO_PARTICLES_HDF5 -DRESTRICT=__restrict__ "
        "-DNESO_PARTICLES_VERSION_MAJOR=0 -DNESO_PARTICLES_VERSION_MINOR=10 "
        "-DNESO_PARTICLES_VERSION_PATCH=0 -DNESO_PARTICLES_PETSC "
        "-DNESOASSERT_FUNCTION=vh_assert").split()
INC = [f"-I{VERIF}/syclmon/include", f"-I{REPO}/include", f"-I{VERIF}/harness",
       f"-isystem{PETSC}/include", "-isystem/usr/include/hdf5/openmpi",
       "-isystem/usr/lib/x86_64-linux-gnu/openmpi/include",
       "-include", f"{VERIF}/harness/vh_assert.hpp"]
LIBS = (f"-L{PETSC}/lib -lpetsc_real -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 "
        "-L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi_cxx -lmpi -lpthread -ldl").split()
COMMON = "-std=c++17 -fPIC -w -g1 -O0 -fno-omit-frame-pointer -ffp-contract=off".split()
UB = ("-fsanitize=bounds,signed-integer-overflow,shift,integer-divide-by-zero,"
      "float-cast-overflow,bool,enum,vla-bound,return,unreachable")
FLAVOURS = {
    "asan": ["-fsanitize=address", UB, "-mllvm", "-asan-instrumentation-with-call-threshold=0",
             "-fsanitize-address-use-after-scope"],
    "tsan": ["-fsanitize=thread", "-DVH_TSAN=1"],
    # TSan's instrumentation with the entry points of syclmon/src/hdmon.inc
    "hd": ["-fsanitize=thread", "-DVH_HD=1"],
}


class BuildError(Exception):
    pass


def sha(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in memo:
        with open(path, "rb") as f:
            memo[k] = hashlib.sha256(f.read()).hexdigest()
    return memo[k]


def parse_dep(depfile):
    with open(depfile) as f:
        s = f.read().replace("\\\n", " ")
    s = s.split(":", 1)[1]
    return [x for x in s.split() if not x.startswith("/usr/")]


def compile_obj(src, obj, flags, timeout=800):
    """Compile unless the cached object was built from identical inputs."""
    meta = obj + ".json"
    cmd = [CXX] + COMMON + flags + DEFS + INC
    if os.path.exists(meta) and os.path.exists(obj):
        try:
            m = json.load(open(meta))
            if m["cmd"] == cmd and all(sha(p) == h for p, h in m["deps"].items()):
                return False, ""
        except Exception:
            pass
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj + ".tmp"],
                       capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        err = [x for x in r.stderr.splitlines() if "error" in x]
        raise BuildError(f"{src}:\n" + "\n".join(err[:8])[:3000])
    os.replace(obj + ".tmp", obj)
    json.dump({"cmd": cmd, "deps": {p: sha(p) for p in parse_dep(dep)}}, open(meta, "w"))
    return True, ""


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def chunks():
    srcs = lib_sources()
    # assignment by name so that adding a file moves only one chunk
    by = {}
    sizes = [0] * NCHUNK
    for s in sorted(srcs, key=lambda p: (-os.path.getsize(p) // 4096, p)):
        i = sizes.index(min(sizes))
        sizes[i] += os.path.getsize(s) // 4096 * 4096 + 6000
        by.setdefault(i, []).append(s)
    return {i: sorted(v) for i, v in by.items()}


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def build(flavour, harnesses, jobs=None):
    """Returns {harness: binary path}."""
    jobs = jobs or os.cpu_count() or 4
    d = os.path.join(BUILD, flavour)
    os.makedirs(d, exist_ok=True)
    flags = FLAVOURS[flavour]
    tasks = []
    libobjs = []
    ch = chunks()

    def lib_chunk(i, files):
        u = os.path.join(d, f"chunk{i}.cpp")
        write_if_changed(u, "".join(f'#include "{f}"\n' for f in files))
        o = os.path.join(d, f"chunk{i}.o")
        try:
            compile_obj(u, o, flags)
            return [o]
        except BuildError:
            # files that cannot share a translation unit: one object each
            res = []
            for f in files:
                oo = os.path.join(d, "s_" + f.strip("/").replace("/", "_") + ".o")
                compile_obj(f, oo, flags)
                res.append(oo)
            return res

    with ThreadPoolExecutor(jobs) as ex:
        futs = []
        hf = {}
        for h in harnesses:
            o = os.path.join(d, f"h_{h}.o")
            hf[h] = (o, ex.submit(compile_obj, os.path.join(VERIF, "harness", h + ".cpp"), o, flags))
        for i, files in ch.items():
            futs.append(ex.submit(lib_chunk, i, files))
        rt_o = os.path.join(d, "syclmon.o")
        rt_flags = flags
        if flavour == "tsan":
            rt_flags = ["-DSM_TSAN=1", "-O1"]
        elif flavour == "hd":
            rt_flags = ["-DSM_HD=1", "-O1"]
        plain = {"tsan": ["-DVH_TSAN=1", "-O1"], "hd": ["-DVH_HD=1", "-O1"]}.get(flavour, flags)
        rt = ex.submit(compile_obj, os.path.join(VERIF, "syclmon/src/syclmon.cpp"), rt_o, rt_flags)
        co = os.path.join(d, "vh_core.o")
        core = ex.submit(compile_obj, os.path.join(VERIF, "harness/vh_core.cpp"), co, plain)
        mo = os.path.join(d, "vh_mpi.o")
        mpim = ex.submit(compile_obj, os.path.join(VERIF, "harness/vh_mpi.cpp"), mo, plain)
        errs = []
        for f in futs:
            try:
                libobjs += f.result()
            except BuildError as e:
                errs.append(str(e))
        for f in [rt, core, mpim] + [x[1] for x in hf.values()]:
            try:
                f.result()
            except BuildError as e:
                errs.append(str(e))
        if errs:
            raise BuildError("\n".join(errs))
    # one shared library per flavour, one small executable per harness
    san = [x for x in flags if x.startswith("-fsanitize=")] if flavour != "hd" else []
    lib = os.path.join(d, "libneso.so")
    objs = sorted(libobjs) + [co, mo, rt_o]

    def run_link(out, objs, extra):
        k = [[os.path.basename(o), sha(o)] for o in objs] + san + extra
        kf = out + ".link.json"
        if os.path.exists(out) and os.path.exists(kf) and json.load(open(kf)) == k:
            return
        r = subprocess.run([CXX, "-fuse-ld=/usr/bin/ld.lld" if os.path.exists("/usr/bin/ld.lld") else "-fuse-ld=bfd"]
                           + san + objs + extra + ["-o", out], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(r.stderr[-4000:])
        json.dump(k, open(kf, "w"))

    run_link(lib, objs, ["-shared", "-Wl,--allow-shlib-undefined"] + LIBS)
    bins = {}
    with ThreadPoolExecutor(jobs) as ex:
        for h in harnesses:
            b = os.path.join(d, h)
            bins[h] = (b, ex.submit(run_link, b, [hf[h][0]], [f"-L{d}", "-lneso", f"-Wl,-rpath,{d}"] + LIBS))
        bins = {h: (v[1].result(), v[0])[1] for h, v in bins.items()}
    return bins


if __name__ == "__main__":
    fl = sys.argv[1]
    print(build(fl, sys.argv[2:]))
