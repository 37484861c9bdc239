"""Building: the executor, LLVM IR of /repo's current sources, and the native (sanitized) replay programs."""
import os, subprocess, hashlib, glob, sys, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
FORCED = "-include cassert -include cmath -include cstddef -include cstring -include limits".split()
MPI = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
DEFS = ["-DNDEBUG", "-DEXSEISDAT_MPIIO_COLLECTIVES", "-DEXSEISDAT_VERIF"]
INC = ["-I" + REPO + "/src", "-I" + REPO + "/include", "-I" + REPO + "/util"]
CLANG = ["clang++-18", "-std=gnu++14", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-fno-math-errno", "-ffp-contract=off", "-fno-builtin-memcmp", "-fno-delete-null-pointer-checks", "-emit-llvm", "-c", "-gline-tables-only", "-w"]
SAN = ["-fsanitize=address,shift,integer-divide-by-zero", "-fno-sanitize-recover=all"]
GXX = ["g++", "-std=gnu++14", "-O1", "-g", "-w", "-ffp-contract=off"]
class BuildError(Exception): pass

def sh(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode: raise BuildError(" ".join(cmd)[:400] + "\n" + r.stdout.decode(errors="replace")[-3000:])
    return r.stdout.decode(errors="replace")

def repo_sources():
    out = []
    for d, _, fs in os.walk(REPO + "/src"):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cc")]
    return sorted(out)
def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def tree_files():
    out = []
    for top in ("src", "include", "util"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs if f.endswith((".cc", ".hh", ".h", ".c"))]
    return sorted(out)
def rt_files(): return sorted(glob.glob(V + "/rt/*"))
_th = None
def tree_hash():
    global _th
    if _th is None: _th = _hash(tree_files() + rt_files(), " ".join(CLANG + DEFS + GXX + SAN))
    return _th

class Lock:
    def __init__(self, name): os.makedirs(B, exist_ok=True); self.f = open(os.path.join(B, name + ".lock"), "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def engine():
    h = _hash(sorted(glob.glob(V + "/engine/*")))
    exe = f"{B}/sx-{h}"
    with Lock("engine"):
        if not os.path.exists(exe):
            os.makedirs(B + "/eng", exist_ok=True)
            sh(["make", "-C", V + "/engine", "-j4", "B=" + B + "/eng"])
            os.rename(B + "/eng/sx", exe)
    return exe

def obj_name(d, src): return os.path.join(d, src.replace(REPO, "R").replace(V, "V").replace("/", "_"))
def compile_many(jobs):
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(sh, j) for j in jobs]: f.result()

def repo_ir():
    """One bitcode file of the whole library, from /repo's current sources."""
    d = f"{B}/ir-{tree_hash()}"; out = d + "/repo.bc"
    with Lock("ir"):
        if not os.path.exists(out):
            _clean("ir-", keep=d)
            os.makedirs(d, exist_ok=True)
            srcs = repo_sources()
            compile_many([CLANG + FORCED + DEFS + INC + MPI + [s, "-o", obj_name(d, s) + ".bc"] for s in srcs] +
                         [CLANG + DEFS + INC + MPI + ["-I" + V + "/rt", "-std=gnu++17", "-fno-builtin", V + f"/rt/{n}.cc", "-o", d + f"/{n}.bc"] for n in ("rt", "fakempi")])
            sh(["llvm-link-18", "-o", out + ".tmp"] + [obj_name(d, s) + ".bc" for s in srcs])
            os.rename(out + ".tmp", out)
    return d
def _clean(prefix, keep, n=3):
    import shutil
    ds = sorted((p for p in glob.glob(f"{B}/{prefix}*") if os.path.isdir(p) and p != keep), key=os.path.getmtime)
    for p in ds[:-n] if n else ds: shutil.rmtree(p, ignore_errors=True)

def harness_ir(h, extra=(), fake=True, defs=(), incs=()):
    d = repo_ir(); tag = _hash([f"{V}/harness/{h}.cc"] + sorted(glob.glob(f"{V}/harness/*.hh")), " ".join(list(extra) + list(defs) + list(incs) + [str(fake)]))
    out = f"{d}/h_{h}_{tag}.bc"
    with Lock("h_" + h):
        if os.path.exists(out): return out
        parts = []
        for s in [f"{V}/harness/{h}.cc"] + [REPO + "/" + e for e in extra]:
            o = obj_name(d, s) + "." + tag + ".bc"
            sh(CLANG + FORCED + DEFS + list(defs) + INC + list(incs) + MPI + ["-I" + V + "/rt", "-I" + V + "/harness", s, "-o", o]); parts.append(o)
        sh(["llvm-link-18", "-o", out + ".tmp", d + "/rt.bc"] + ([d + "/fakempi.bc"] if fake else []) + parts + ["--override=" + p for p in []] + [d + "/repo.bc"])
        os.rename(out + ".tmp", out)
    return out

def native_lib():
    d = f"{B}/nat-{tree_hash()}"; out = d + "/librepo.a"
    with Lock("nat"):
        if not os.path.exists(out):
            _clean("nat-", keep=d)
            os.makedirs(d, exist_ok=True)
            srcs = repo_sources()
            compile_many([GXX + SAN + FORCED + DEFS + INC + MPI + ["-c", s, "-o", obj_name(d, s) + ".o"] for s in srcs] +
                         [GXX + SAN + DEFS + INC + MPI + ["-std=gnu++17", "-I" + V + "/rt", "-c", V + f"/rt/{n}.cc", "-o", d + f"/{n}.o"] for n in ("sxnative", "fakempi")])
            if os.path.exists(out + ".tmp"): os.unlink(out + ".tmp")
            sh(["ar", "rcs", out + ".tmp"] + [obj_name(d, s) + ".o" for s in srcs])
            os.rename(out + ".tmp", out)
    return d
def harness_native(h, extra=(), fake=True, defs=(), incs=()):
    d = native_lib(); tag = _hash([f"{V}/harness/{h}.cc"] + sorted(glob.glob(f"{V}/harness/*.hh")), " ".join(list(extra) + list(defs) + list(incs) + [str(fake)]))
    out = f"{d}/n_{h}_{tag}"
    with Lock("n_" + h):
        if os.path.exists(out): return out
        parts = []
        for s in [f"{V}/harness/{h}.cc"] + [REPO + "/" + e for e in extra]:
            o = obj_name(d, s) + "." + tag + ".o"
            sh(GXX + SAN + FORCED + DEFS + list(defs) + INC + list(incs) + MPI + ["-I" + V + "/rt", "-I" + V + "/harness", "-c", s, "-o", o]); parts.append(o)
        sh(["g++", "-o", out + ".tmp"] + SAN + parts + [d + "/sxnative.o"] + ([d + "/fakempi.o"] if fake else []) + [d + "/librepo.a", "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition", "-lfftw3f"])
        os.rename(out + ".tmp", out)
    return out
if __name__ == "__main__":
    engine(); repo_ir(); native_lib()
