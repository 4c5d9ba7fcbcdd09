"""Builds queso_sim: the library's sources from /repo's working tree, instrumented, linked against the simulator."""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")

VECTOR_FLAGS = ["-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_SANITIZE_STD_ALLOCATOR=1"]  # unused capacity is announced to the simulator
LIB_FLAGS = VECTOR_FLAGS + ["-std=c++20", "-O1", "-g1", "-fopenmp", "-fsanitize=thread", "-w", "-D_GLIBCXX_ASSERTIONS", "-DQUESO_BUILD_TESTING=0",
             "-I" + REPO, "-I" + REPO + "/queso", "-I" + REPO + "/external_libraries", "-I" + SIM + "/harness"]
HARNESS_FLAGS = VECTOR_FLAGS + ["-std=c++20", "-O2", "-g1", "-Wall", "-Wno-volatile"]
RT_FLAGS = ["-std=c++20", "-O2", "-g1", "-fPIC", "-fvisibility=hidden", "-fno-threadsafe-statics", "-Wall", "-U_FORTIFY_SOURCE"]


class BuildError(Exception):
    pass


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "queso")):
        dirs[:] = [d for d in dirs if d not in ("tests", "python", "python_scripts", "__pycache__")]
        out += [os.path.join(root, f) for f in files if f.endswith((".cpp", ".cc", ".cxx"))]
    for root, dirs, files in os.walk(os.path.join(REPO, "external_libraries")):
        dirs[:] = [d for d in dirs if d not in ("pybind11", "tests")]
        out += [os.path.join(root, f) for f in files if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(out)


def lib_headers():
    out = []
    for base in ("queso", "external_libraries"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = [d for d in dirs if d not in ("tests", "python", "pybind11", "__pycache__")]
            out += [os.path.join(root, f) for f in files if f.endswith((".h", ".hpp", ".hh", ".hxx", ".inl", ".tpp"))]
    return out


def checked_vector_header(build_dir):
    """A copy of libstdc++'s vector.tcc whose erase() checks its arguments (its own assertions do not). Returns the folder to
    look in first, or None when the installed header is not as expected."""
    r = subprocess.run(["g++", "-E", "-x", "c++", "-std=c++20", "-include", "vector", "/dev/null"], capture_output=True, text=True)
    found = re.search(r'"(/[^"]*/bits/vector\.tcc)"', r.stdout)
    if not found:
        return None
    with open(found.group(1)) as f:
        text = f.read()
    new, n = re.subn(r"(\n    _M_erase\(iterator __position\)\n    \{)", r"\1\n      __glibcxx_assert(begin() <= __position && __position < end());", text)
    new, m = re.subn(r"(\n    _M_erase\(iterator __first, iterator __last\)\n    \{)", r"\1\n      __glibcxx_assert(begin() <= __first && __first <= __last && __last <= end());", new)
    if not n or not m:
        return None
    folder = os.path.join(build_dir, "include-" + hashlib.sha256(new.encode()).hexdigest()[:12])
    path = os.path.join(folder, "bits", "vector.tcc")
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path + ".tmp%d" % os.getpid(), "w") as f:
            f.write(new)
        os.replace(path + ".tmp%d" % os.getpid(), path)
    return folder


def build(build_dir, jobs=8, log=None):
    """Returns the path of the executable. Objects are kept in build_dir under a hash of all that goes into them."""
    os.makedirs(os.path.join(build_dir, "obj"), exist_ok=True)
    checked = checked_vector_header(build_dir)
    lib_flags = LIB_FLAGS + (["-I" + checked] if checked else [])
    hdr = _hash_files(lib_headers())
    harness_hdr = _hash_files(glob.glob(SIM + "/harness/*.h") + glob.glob(SIM + "/rt/*.h"))
    steps, lib_objs, har_objs, rt_objs = [], [], [], []

    def add(src, flags, dep, objs):
        key = hashlib.sha256((" ".join(flags) + "\0" + dep + "\0" + _hash_files([src])).encode()).hexdigest()[:24]
        obj = os.path.join(build_dir, "obj", os.path.basename(src) + "." + key + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            steps.append((src, flags, obj))

    for s in lib_sources():
        add(s, lib_flags, hdr, lib_objs)
    for s in ("api_model.cpp", "api_misc.cpp", "api_settings.cpp"):
        add(os.path.join(SIM, "harness", s), lib_flags, hdr + harness_hdr, lib_objs)
    for s in ("geom.cpp", "core.cpp", "cases.cpp", "props.cpp", "main.cpp"):
        add(os.path.join(SIM, "harness", s), HARNESS_FLAGS, harness_hdr, har_objs)
    for s in ("sched.cpp", "env.cpp", "disk.cpp"):
        add(os.path.join(SIM, "rt", s), RT_FLAGS, harness_hdr, rt_objs)

    # the slow ones first
    weight = {"api_model.cpp": 9, "api_settings.cpp": 8, "embedded_model.cpp": 9, "api_misc.cpp": 8, "props.cpp": 7, "cases.cpp": 6, "io_utilities.cpp": 5}
    steps.sort(key=lambda s: -weight.get(os.path.basename(s[0]), 1))

    def compile_one(step):
        src, flags, obj = step
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.join(build_dir, "obj"))
        os.close(fd)
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            os.unlink(tmp)
            return src + ":\n" + r.stderr[-4000:]
        os.replace(tmp, obj)
        return None

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        errors = [e for e in ex.map(compile_one, steps) if e]
    if errors:
        raise BuildError("\n".join(errors))
    key = hashlib.sha256("\0".join(lib_objs + har_objs + rt_objs).encode()).hexdigest()[:24]
    out = os.path.join(build_dir, "bin-" + key)
    exe = os.path.join(out, "queso_sim")
    if not os.path.exists(exe):
        os.makedirs(out, exist_ok=True)
        so = os.path.join(out, "libqsim.so")
        def run(cmd):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError(" ".join(cmd[:3]) + " ...:\n" + r.stderr[-4000:])
        run(["g++", "-shared"] + rt_objs + ["-o", so + ".tmp", "-Wl,-soname,libqsim.so", "-Wl,--version-script=" + SIM + "/rt/export.map", "-ldl", "-lpthread"])
        os.replace(so + ".tmp", so)
        run(["g++", "-no-pie"] + lib_objs + har_objs + ["-o", exe + ".tmp", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", so, "-Wl,-rpath,$ORIGIN", "-lpthread"])
        os.replace(exe + ".tmp", exe)
        # keep the cache small
        bins = sorted(glob.glob(os.path.join(build_dir, "bin-*")), key=os.path.getmtime)
        for b in bins[:-4]:
            subprocess.run(["rm", "-rf", os.path.abspath(b)])
        objs = sorted(glob.glob(os.path.join(build_dir, "obj", "*.o")), key=os.path.getmtime)
        keep = set(lib_objs + har_objs + rt_objs)
        for o in objs[:-300]:
            if o not in keep:
                os.unlink(o)
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        print(build(sys.argv[1] if len(sys.argv) > 1 else os.path.join(VERIF, "build")))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(1)
    print("%.1f s" % (time.time() - t), file=sys.stderr)
