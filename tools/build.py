#!/usr/bin/env python3
"""Builds a check binary from /repo's current working tree.

build(flavour, targets) writes build/<flavour>/build.ninja and runs ninja.  The source lists of the library and the
tools are read from /repo's CMakeLists.txt files.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
ECKIT = "/opt/odc-deps/lib/python3.12/site-packages/eckitlib"

FLAVOURS = {
    "asan": dict(flags="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer", link="-fsanitize=address"),
    "tsan": dict(flags="-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer", link="-fsanitize=thread"),
    "fuzz": dict(flags="-O1 -g1 -fsanitize=address,fuzzer-no-link -fno-omit-frame-pointer", link="-fsanitize=address,fuzzer"),
    "plain": dict(flags="-O2 -g1", link=""),
}


def list_from(cmake, name):
    txt = open(cmake).read()
    txt = re.sub(r"#.*", "", txt)
    m = re.search(r"list\s*\(\s*APPEND\s+%s\b([^)]*)\)" % name, txt, re.I) or re.search(
        r"set\s*\(\s*%s\b([^)]*)\)" % name, txt, re.I)
    if not m:
        return None
    return [t for t in m.group(1).split() if re.search(r"\.(cc|cpp|c|cxx)$", t) and "$" not in t]


def sources():
    core = list_from(REPO + "/src/odc/CMakeLists.txt", "odclib_src_files")
    tools = list_from(REPO + "/src/odc/tools/CMakeLists.txt", "odctools_src_files")
    templates = list_from(REPO + "/src/odc/CMakeLists.txt", "odclib_templates") or []
    core = ["src/odc/" + s for s in core if s not in templates]
    tools = ["src/odc/tools/" + s for s in tools] + ["src/odc/tools/odc.cc"]
    return core, tools


def write_if_changed(path, txt):
    try:
        if open(path).read() == txt:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(txt)


def sha(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()


def stamp_sources(bdir):
    """Object files are trusted only if every source whose content changed also has a newer mtime."""
    cur = {}
    for root, dirs, files in os.walk(REPO + "/src"):
        for f in files:
            if f.endswith((".cc", ".h", ".in", ".f90", ".c")):
                p = os.path.join(root, f)
                cur[p] = [sha(p), os.stat(p).st_mtime]
    sf = os.path.join(bdir, "sources.json")
    old = {}
    try:
        old = json.load(open(sf))
    except (OSError, ValueError):
        pass
    for p, (h, m) in cur.items():
        if p in old and old[p][0] != h and m <= old[p][1] + 0.001 or (p not in old and old):
            shutil.rmtree(os.path.join(bdir, "obj"), ignore_errors=True)
            break
    if not old:
        shutil.rmtree(os.path.join(bdir, "obj"), ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    with open(sf, "w") as f:
        json.dump(cur, f)


CHECK_FLAGS = "-I%s/harness" % VERIF


def targets():
    """binary name -> (sources, uses library, uses tools)"""
    t = json.load(open(os.path.join(VERIF, "checks", "targets.json")))
    return t


def generate(flavour):
    fl = FLAVOURS[flavour]
    bdir = os.path.join(BUILD, flavour)
    os.makedirs(bdir, exist_ok=True)
    stamp_sources(bdir)
    inc = os.path.join(bdir, "include")
    ver = open(REPO + "/VERSION").read().strip()
    v = (ver.split(".") + ["0", "0"])[:3]
    sub = {
        "odc_VERSION_STR": ver, "odc_VERSION": ver, "odc_VERSION_MAJOR": v[0], "odc_VERSION_MINOR": v[1],
        "odc_VERSION_PATCH": v[2], "CMAKE_INSTALL_PREFIX": "/usr/local", "CMAKE_BINARY_DIR": "/nonexistent",
        "odc_GIT_SHA1": "verif",
    }

    def conf(src, dst):
        txt = open(src).read()
        txt = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), ""), txt)
        write_if_changed(dst, txt)

    conf(REPO + "/src/odc_config.h.in", inc + "/odc_config.h")
    conf(REPO + "/src/odc/ODBAPIVersionSHA1.cc.in", bdir + "/gen/ODBAPIVersionSHA1.cc")
    write_if_changed(inc + "/odc_ecbuild_config.h", "#pragma once\n")

    core, tools = sources()
    L = []
    L.append("ninja_required_version = 1.5")
    L.append("flags = %s -std=gnu++17 -DNDEBUG -D_GLIBCXX_ASSERTIONS -pipe -w -I%s -I%s/src -I%s/include -I%s/include/eckit/sql "
             "-I%s/include/eckit -I%s/harness" % (fl["flags"], inc, REPO, ECKIT, ECKIT, ECKIT, VERIF))
    L.append("libs = -L%s/lib64 -Wl,-rpath,%s/lib64 -leckit_sql -leckit -lm -lpthread -ldl" % (ECKIT, ECKIT))
    L.append("rule cxx\n  command = clang++ $flags $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    L.append("rule link\n  command = clang++ %s -fuse-ld=lld $in -o $out $libs" % fl["link"])

    L.append("rule fortran\n  command = gfortran -O1 -g1 -w $extra -c $in -o $out")

    def obj(src, tag, extra=""):
        if src.endswith(".f90"):
            return fortran(src, tag)
        o = "obj/%s/%s.o" % (tag, src.replace("/", "_"))
        p = src if src.startswith("/") else os.path.join(REPO if tag in ("core", "tools") else VERIF, src)
        L.append("build %s: cxx %s" % (o, p) + ("\n  extra = " + extra if extra else ""))
        return o

    def fortran(src, tag):
        """Module files of the interfaces are outputs of their own compilation, the others wait for them"""
        mod = "obj/mod"
        os.makedirs(os.path.join(bdir, mod), exist_ok=True)
        interfaces = {"@odc.f90": "src/odc/api/odc.f90", "@odc_c_binding.f90": "src/fortran/odc_c_binding.f90"}
        o = lambda s: "obj/core/" + s[1:].replace(".", "_") + ".o"
        for s in interfaces:
            if s not in built:
                built.add(s)
                L.append("build %s: fortran %s\n  extra = -J %s" % (o(s), os.path.join(REPO, interfaces[s]), mod))
        if src in interfaces:
            return o(src)
        r = "obj/%s/%s.o" % (tag, src.replace("/", "_"))
        L.append("build %s: fortran %s | %s\n  extra = -I %s -J obj/mod" %
                 (r, os.path.join(VERIF, src), " ".join(map(o, interfaces)), mod))
        return r

    built = set()
    coreo = [obj(s, "core") for s in core] + [obj(bdir + "/gen/ODBAPIVersionSHA1.cc", "core")]
    # the test registry is not part of the tools: stand-in for the symbol that pulls it in
    write_if_changed(bdir + "/gen/stub.cc",
                     "namespace odc { namespace tool { namespace test { int test_odacapi_setup(int, char**) { return 0; } } } }\n")
    toolo = [obj(s, "tools", "-Dmain=odc_main" if s.endswith("/odc.cc") else "") for s in tools]
    toolo.append(obj(bdir + "/gen/stub.cc", "tools"))
    done = {}
    for name, t in targets().items():
        os_ = []
        for s in t["sources"]:
            if s not in done:
                done[s] = obj(s, "verif", "-O2" if False else "")
            os_.append(done[s])
        if t.get("core", True):
            os_ += coreo
        if t.get("tools"):
            os_ += toolo
        more = ""
        if any(s.endswith(".f90") for s in t["sources"]):
            # gfortran knows where its library is
            lib = subprocess.run(["gfortran", "-print-file-name=libgfortran.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
            more = "\n  libs = %s $libs" % lib
        L.append("build bin/%s: link %s%s" % (name, " ".join(os_), more))
    write_if_changed(bdir + "/build.ninja", "\n".join(L) + "\n")
    return bdir


def build(flavour, names):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock." + flavour), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        bdir = generate(flavour)
        r = subprocess.run(["ninja", "-C", bdir, "--quiet"] + ["bin/" + n for n in names],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:])
            return None
        return [os.path.join(bdir, "bin", n) for n in names]


if __name__ == "__main__":
    t0 = time.time()
    if build(sys.argv[1], sys.argv[2:]) is None:
        sys.exit(2)
    print("built in %.1f s" % (time.time() - t0))
