#!/usr/bin/env python3
"""Driver: check.py <PROPERTY-ID> [--tier quick|thorough] | --setup | --replay FILE

Builds the library from /repo's current working tree (ASan+UBSan, content-addressed object cache in
/verif/build), links the property's harness, runs the generated-case search, confirms and shrinks any failure,
writes evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import hashlib, json, os, re, subprocess, sys, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "orocos_kdl", "src")
MODELS = os.path.join(REPO, "orocos_kdl", "models")
PYKDL = os.path.join(REPO, "python_orocos_kdl")
BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 8
CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fPIC", "-w",
        "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,pointer-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
        "-ftrivial-auto-var-init=pattern"]

# cases of the quick tier as a multiple of those in the LAWs, for properties whose cases are cheap
QUICK = {"A01": 20, "F01": 10, "F02": 5, "F03": 8, "F04": 10, "F05": 4, "F06": 8, "M04": 10, "M05": 12, "J01": 3, "M01": 3, "I06": 3, "K01": 2, "K04": 2, "K06": 2, "M02": 2}

class BuildError(Exception):
    pass


def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def make_config():
    """config.h as cmake generates it for the stock build (old tree interface)."""
    cm = read(os.path.join(REPO, "orocos_kdl", "CMakeLists.txt")).decode()
    ver = re.search(r"SET\(KDL_VERSION ([0-9.]+)\)", cm).group(1)
    v = ver.split(".")
    t = read(os.path.join(SRC, "config.h.in")).decode()
    t = t.replace("@KDL_VERSION_MAJOR@", v[0]).replace("@KDL_VERSION_MINOR@", v[1]).replace("@KDL_VERSION_PATCH@", v[2]).replace("@KDL_VERSION@", ver)
    t = t.replace("#cmakedefine HAVE_STL_CONTAINER_INCOMPLETE_TYPES", "#define HAVE_STL_CONTAINER_INCOMPLETE_TYPES")
    t = t.replace("#cmakedefine KDL_USE_NEW_TREE_INTERFACE", "/* #undef KDL_USE_NEW_TREE_INTERFACE */")
    return t


def headers():
    hs = []
    for root, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith((".h", ".hpp", ".inl")):
                hs.append(os.path.join(root, f))
    hs += glob.glob(MODELS + "/*.hpp")
    return sorted(hs)


def sources():
    ss = []
    for root, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith((".cpp", ".cxx")) and not f.startswith("."):
                ss.append(os.path.join(root, f))
    ss += glob.glob(MODELS + "/*.cpp")
    return sorted(s for s in ss if not s.endswith("test.cpp") and "LWRtest" not in s)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def atomic_compile(cmd, out):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    run(cmd + ["-o", tmp])
    os.replace(tmp, out)


# properties decided on the library built with another configuration
VARIANT = {"K10": ("/* #undef KDL_USE_NEW_TREE_INTERFACE */", "#define KDL_USE_NEW_TREE_INTERFACE")}


class Builder:
    def __init__(self, flags=BASE, tag="san", variant=None):
        self.tag = tag
        self.dir = os.path.join(BUILD, tag)
        os.makedirs(os.path.join(self.dir, "obj"), exist_ok=True)
        self.flags = flags
        cfg = make_config()
        if variant:
            cfg = cfg.replace(*variant)
        self.hhash = sh256(cfg, *[os.path.relpath(h, REPO).encode() + read(h) for h in headers()], " ".join(flags), CXX)
        self.inc = os.path.join(self.dir, "inc-" + self.hhash)
        os.makedirs(self.inc, exist_ok=True)
        cp = os.path.join(self.inc, "config.h")
        if not os.path.exists(cp):
            with open(cp + ".tmp%d" % os.getpid(), "w") as f:
                f.write(cfg)
            os.replace(cp + ".tmp%d" % os.getpid(), cp)
        self.incs = ["-I", self.inc, "-I", SRC, "-I", os.path.join(REPO, "orocos_kdl"), "-I/usr/include/eigen3", "-I", os.path.join(HERE, "harness")]
        eh = os.path.join(HERE, "harness", "pch.hpp")
        self.pch = os.path.join(self.dir, "pch-%s.pch" % sh256(read(eh), read(os.path.join(HERE, "harness", "eigen_assert.hpp")), " ".join(flags), "v2"))
        if not os.path.exists(self.pch):
            tmp = self.pch + ".%d" % os.getpid()
            run([CXX] + self.flags + ["-fpch-instantiate-templates", "-Xclang", "-fno-pch-timestamp", "-x", "c++-header", eh, "-I/usr/include/eigen3", "-o", tmp])
            os.replace(tmp, self.pch)

    def obj(self, src, extra_hash="", more=()):
        o = os.path.join(self.dir, "obj", os.path.basename(src) + "-" + sh256(os.path.relpath(src, REPO), read(src), self.hhash, extra_hash, self.pch, " ".join(more)) + ".o")
        if not os.path.exists(o):
            atomic_compile([CXX] + self.flags + ["-include-pch", self.pch, "-DVERIF_HARNESS"] + self.incs + list(more) + ["-x", "c++", "-c", src], o)
        else:
            os.utime(o)
        return o

    def python(self):
        """Sources, compile flags and link flags of the embedded PyKDL module (property B01)."""
        d = os.path.join(self.inc, "py-" + sh256(SRC)[:8])
        if not os.path.isdir(d):
            tmp = d + ".tmp%d" % os.getpid()
            os.makedirs(os.path.join(tmp, "kdl"))
            for h in os.listdir(SRC):
                if h.endswith((".h", ".hpp", ".inl")) or os.path.isdir(os.path.join(SRC, h)):
                    os.symlink(os.path.join(SRC, h), os.path.join(tmp, "kdl", h))
            os.symlink(os.path.join(self.inc, "config.h"), os.path.join(tmp, "kdl", "config.h"))
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        q = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig as s; print(s.get_path('include')); print(s.get_config_var('LIBDIR')); print('python'+s.get_config_var('LDVERSION'))"], stdout=subprocess.PIPE)
        inc, libdir, lib = q.stdout.decode().split()
        srcs = sorted(glob.glob(os.path.join(PYKDL, "PyKDL", "*.cpp")))
        bundled = os.path.join(PYKDL, "pybind11", "include")
        more = ["-I", d, "-isystem", inc] + ([] if os.path.isdir("/usr/include/pybind11") else ["-isystem", bundled])
        hh = sh256(*[read(h) for h in sorted(glob.glob(os.path.join(PYKDL, "PyKDL", "*.h")))])
        return srcs, more, hh, ["-L" + libdir, "-l" + lib]

    def propobj(self, prop):
        hh = sh256(*[read(f) for f in sorted(glob.glob(HERE + "/harness/*.hpp"))])
        if prop in VARIANT:  # includes the laws of other properties
            hh = sh256(hh, *[read(f) for f in sorted(glob.glob(HERE + "/props/*.cpp"))])
        return self.obj(os.path.join(HERE, "props", prop + ".cpp"), hh, self.python()[1] if prop == "B01" else ())

    def binary(self, prop):
        hh = sh256(*[read(f) for f in sorted(glob.glob(HERE + "/harness/*.hpp"))])
        libs = sources()
        pys, more, ph, link = self.python() if prop == "B01" else ([], (), "", [])
        with ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(self.propobj, prop), ex.submit(self.obj, os.path.join(HERE, "harness", "pbt.cpp"), hh)] + [ex.submit(self.obj, s, ph, more) for s in pys] + [ex.submit(self.obj, s) for s in libs]
            objs = [f.result() for f in futs]
        self.prune()
        b = os.path.join(self.dir, "bin", prop + "-" + sh256(*objs))
        if not os.path.exists(b):
            os.makedirs(os.path.dirname(b), exist_ok=True)
            for old in glob.glob(os.path.join(self.dir, "bin", prop + "-*")):
                try:
                    os.remove(old)
                except OSError:
                    pass
            tmp = b + ".tmp%d" % os.getpid()
            run([CXX, "-fuse-ld=lld"] * 0 + [CXX] + self.flags + objs + ["-o", tmp, "-lpthread"] + link)
            os.replace(tmp, b)
        return b

    def prune(self, keep_mb=3000):
        fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(self.dir + "/obj/*.o")]
        tot = sum(x[1] for x in fs)
        fs.sort()
        now = time.time()
        for m, sz, f in fs:
            if tot < keep_mb << 20 or now - m < 600:
                break
            os.remove(f)
            tot -= sz


def binary_for(prop):
    """The harness of a property and, when its configuration does not build, a note why the stock one is used."""
    if prop in VARIANT:
        try:
            return Builder(variant=VARIANT[prop]).binary(prop), ""
        except BuildError as e:
            b = Builder().binary(prop)
            return b, "the library does not build with %s, the stock configuration was searched instead: %s" % (VARIANT[prop][1], str(e)[-600:])
    return Builder().binary(prop), ""


def known_for(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k["tag"]: k for k in d.get("findings", []) if k["property"] == prop}


def write_replay(prop, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = "property: %s\n%slaw: %s\nchoices: %s\n" % (prop, "before: %s\n" % " ".join(v["before"]) if v.get("before") else "", v["law"], " ".join(v["choices"]))
    p = os.path.join(d, "%s-%s-%s.replay" % (prop, v["law"], sh256(body)[:10]))
    with open(p, "w") as f:
        f.write(body)
        f.write("# re-run with: python3 /verif/check.py --replay %s\n" % p)
        for l in (v["message"] + "\n--- case ---\n" + v["notes"]).splitlines():
            f.write("# " + l + "\n")
    return p


def evidence(prop, tier, seed, laws, wall, violations, assumptions, extra=None):
    ev = sum(l["evaluations"] for l in laws)
    dn = sum(l["distinct_nontrivial"] for l in laws)
    samples = []
    for l in laws:
        for s in l.get("samples", [])[:1]:
            samples.append({"law": l["name"], "case": s})
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": dn,
        "rule": "Cases are drawn from per-law structured generators (choice-sequence driven, seeded by VERIF_SEED); distinct = distinct choice sequences; per-law rule: "
                + " | ".join("%s: %s" % (l["name"], l["rule"]) for l in laws),
        "samples": samples,
        "laws": [{k: l[k] for k in ("name", "evaluations", "nontrivial", "distinct_nontrivial", "discarded", "labels", "known") if k in l} for l in laws],
    }
    if extra:
        cov.update(extra)
    d = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(p + ".tmp", p)


ASSUME = ["clang 18 ASan/UBSan build at -O1 of the working tree's sources with the stock config.h (old tree interface); IEEE double arithmetic",
          "numeric agreement is judged within tolerances scaled to the inputs' magnitude and the result's conditioning"]


def check(prop, tier, seed):
    t0 = time.time()
    if os.path.exists(os.path.join(HERE, "props", prop + ".py")):
        import importlib.util
        spec = importlib.util.spec_from_file_location("prop_" + prop, os.path.join(HERE, "props", prop + ".py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules["checkdriver"] = sys.modules[__name__]
        spec.loader.exec_module(m)
        return m.check(prop, tier, seed, sys.modules[__name__])
    b, other = binary_for(prop)
    if other:
        print("note: " + other)
    tb = time.time() - t0
    work = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    known = known_for(prop)
    out = os.path.join(work, "out.json")
    mult, cap = (QUICK.get(prop, 1.0), 240.0) if tier == "quick" else (float(os.environ.get("VERIF_MULT", 40 * QUICK.get(prop, 1.0))), float(os.environ.get("VERIF_CAP", "560")))
    try:
        cmd = [b, "--prop", prop, "--seed", str(seed), "--mult", str(mult), "--cap", str(cap), "--workers", str(NCPU), "--dir", work, "--out", out]
        if known:
            cmd += ["--known", ",".join(known)]
        env = dict(os.environ)
        env.pop("ASAN_OPTIONS", None)
        env.pop("UBSAN_OPTIONS", None)
        env["LC_ALL"] = "C"
        r = subprocess.run(cmd, cwd=work, env=env)
        if r.returncode != 0 or not os.path.exists(out):
            print("error: harness %s ended with %d" % (prop, r.returncode))
            return 3
        res = json.load(open(out))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    v = res["violation"]
    wall = time.time() - t0
    evidence(prop, tier, seed, res["laws"], wall, 1 if v else 0, ASSUME + ([other] if other else ["for this property the library is built with %s" % VARIANT[prop][1]] if prop in VARIANT else []) + (["the run hit its time cap before its case budget"] if res["capped"] else []),
             {"build_s": round(tb, 1), "time_capped": res["capped"], "infrastructure_notes": res["infra"]})
    for l in res["laws"]:
        print("%-34s eval %9d  nontrivial %9d  distinct %9d  discarded %8d  %s" % (l["name"], l["evaluations"], l["nontrivial"], l["distinct_nontrivial"], l["discarded"], json.dumps(l["labels"]) if l["labels"] else ""))
    hits = {}
    for l in res["laws"]:
        for k, n in l["known"].items():
            hits[k] = hits.get(k, 0) + n
    for k in known:
        if hits.get(k):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    for i in res["infra"]:
        print("note: " + i)
    print("build %.1fs total %.1fs capped=%s" % (tb, wall, res["capped"]))
    if v:
        p = write_replay(prop, v)
        print("law %s: %s" % (v["law"], v["message"][:1500]))
        if v["notes"]:
            print("case:\n" + v["notes"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if res["infra"]:
        return 3
    return 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    try:
        if a and a[0] == "--setup":
            B = Builder()
            with ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(B.obj, sources()))
            ps = sorted(os.path.basename(p)[:-4] for p in glob.glob(HERE + "/props/*.cpp"))
            with ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(B.propobj, [p for p in ps if p not in VARIANT]))
            for p in ps:
                binary_for(p)
            return 0
        if a and a[0] == "--build":
            B = Builder()
            for p in a[1:]:
                print(binary_for(p)[0])
            return 0
        if a and a[0] == "--replay":
            t = open(a[1]).read()
            prop = re.search(r"^property: (\S+)", t, re.M).group(1)
            if os.path.exists(os.path.join(HERE, "props", prop + ".py")):
                import importlib.util
                spec = importlib.util.spec_from_file_location("prop_" + prop, os.path.join(HERE, "props", prop + ".py"))
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                return m.replay(a[1], sys.modules[__name__])
            b = binary_for(prop)[0]
            r = subprocess.run([b, "--replay", os.path.abspath(a[1])])
            return 0 if r.returncode == 0 else 1
        return check(a[0], tier, seed)
    except BuildError as e:
        print("error: build failed\n%s" % e)
        return 4


if __name__ == "__main__":
    sys.exit(main())
