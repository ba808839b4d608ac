"""Build the library under test from /repo's working tree (ASan, counted allocations)."""
import hashlib, os, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
WRAPS = ["malloc", "calloc", "realloc", "free", "strdup", "gsl_rng_alloc", "gsl_rng_free", "read", "write"]
FLAGS = ["-g1", "-O1", "-fPIC", "-fno-omit-frame-pointer", "-std=gnu11", "-w"]

class BuildError(Exception):
    pass

def _sources():
    src = sorted(glob.glob(REPO + "/src/*.c"))
    dep = sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/src/*.subst") +
                 glob.glob(REPO + "/include/**/*.h", recursive=True))
    return src, dep

def build(san="address"):
    src, dep = _sources()
    h = hashlib.sha256()
    for f in src + dep + [os.path.join(VERIF, "lib/shim.c"), os.path.abspath(__file__)]:
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(san.encode())
    key = h.hexdigest()[:24]
    out = os.path.join(CACHE, key)
    lib = os.path.join(out, "libccs_vp.so")
    if os.path.exists(lib):
        return lib
    os.makedirs(CACHE, exist_ok=True)
    # keep the cache small
    olds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
    for d in olds[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp", dir=CACHE)
    try:
        with open(tmp + "/version.h", "w") as f:
            f.write('#define CCS_VERSION_STRING "v0.0.2.0"\n#define CCS_VERSION_MAJOR 0\n#define CCS_VERSION_MINOR 0\n'
                    '#define CCS_VERSION_PATCH 2\n#define CCS_VERSION_REVISION 0\n')
        gslc = subprocess.check_output(["pkg-config", "--cflags", "gsl"], text=True).split()
        gsll = subprocess.check_output(["pkg-config", "--libs", "gsl"], text=True).split()
        flags = FLAGS + (["-fsanitize=" + san] if san else [])
        inc = ["-I" + tmp, "-I" + REPO + "/include", "-I" + REPO + "/src"] + gslc
        def cc(f):
            o = os.path.join(tmp, os.path.basename(f) + ".o")
            r = subprocess.run(["gcc", "-c"] + flags + inc + [f, "-o", o], capture_output=True, text=True)
            return r.returncode, r.stderr, o
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(cc, src + [os.path.join(VERIF, "lib/shim.c")]))
        bad = [r for r in rs if r[0]]
        if bad:
            raise BuildError(bad[0][1])
        wl = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
        r = subprocess.run(["gcc", "-shared", "-o", tmp + "/libccs_vp.so"] + flags + [x[2] for x in rs] + wl + gsll + ["-lm"],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        for x in rs:
            os.unlink(x[2])
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(lib):
                raise
        return lib
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def env(lib):
    asan = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
    e = dict(os.environ)
    e.update(LD_PRELOAD=os.path.realpath(asan), VP_LIB=lib, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             PYTHONMALLOC="malloc",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                          "handle_abort=1:malloc_context_size=6:fast_unwind_on_malloc=1:detect_stack_use_after_return=0")
    return e

if __name__ == "__main__":
    print(build())
