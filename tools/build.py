#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into /verif/build (content-addressed, git-ignored)."""
import concurrent.futures as cf, glob, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SUB = ["", "Manifolds", "Others", "Others/SparseBLAS", "Others/fftw", "Others/wavelet", "Problems", "Solvers", "cwrapper", "cwrapper/blas", "cwrapper/lapack", "test", "BinaryFiles", "Julia", "Matlab"]
FLAVOURS = {
    "sim": (["-O2"], []),
    "asan": (["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-omit-frame-pointer", "-DSIM_ASAN"], ["-fsanitize=address,undefined"]),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    srcs = []
    try:
        for line in open(os.path.join(REPO, "Makefile"), errors="replace"):
            if re.match(r"\s*CPPS\s*\+?=", line):
                for t in line.split("=", 1)[1].split():
                    t = t.replace("$(ROOTPATH)/", "")
                    if t.endswith(".cpp") and not t.startswith("test/") and os.path.exists(os.path.join(REPO, t)):
                        srcs.append(t)
    except OSError:
        pass
    if len(srcs) < 20:
        srcs = []
        for d in ["Manifolds", "Others", "Others/SparseBLAS", "Others/wavelet", "Problems", "Solvers"]:
            srcs += [os.path.relpath(p, REPO) for p in sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))]
    return srcs


def build(flavour="sim", quiet=True):
    cflags, lflags = FLAVOURS[flavour]
    obj = os.path.join(BUILD, "obj")
    os.makedirs(obj, exist_ok=True)
    inc = ["-I" + (os.path.join(REPO, d) if d else REPO) for d in SUB if os.path.isdir(os.path.join(REPO, d))]
    hdrs = []
    for d in SUB:
        hdrs += glob.glob(os.path.join(REPO, d, "*.h")) + glob.glob(os.path.join(REPO, d, "*.hpp"))
    hh = sha(*[p + sha(read(p)) for p in sorted(set(hdrs))])
    simh = sha(*[sha(read(p)) for p in sorted(glob.glob(os.path.join(VERIF, "sim", "*.h")))])
    base = ["-w", "-DDRIVERCPP", "-DROPTLIB_WITH_FFTW", "-DVERIF_SIM"] + cflags
    jobs = []
    for s in lib_sources():
        p = os.path.join(REPO, s)
        fl = ["-std=c++0x"] + base
        jobs.append((p, fl, sha(read(p), hh, " ".join(fl), s)))
    for p in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp"))):
        fl = ["-std=c++14"] + base + ["-I" + os.path.join(VERIF, "sim")]
        jobs.append((p, fl, sha(read(p), hh, simh, " ".join(fl), os.path.basename(p))))
    # slow translation units first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) if "/sim/" not in j[0] else -10 ** 9 - os.path.getsize(j[0]))

    def comp(j):
        p, fl, key = j
        o = os.path.join(obj, key + ".o")
        if os.path.exists(o):
            return o, None
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + fl + inc + ["-c", p, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return o, "%s:\n%s" % (p, r.stdout[-3000:])
        os.replace(tmp, o)
        return o, None

    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        res = list(ex.map(comp, jobs))
    errs = [e for _, e in res if e]
    if errs:
        sys.stderr.write("\n".join(errs[:4]) + "\n")
        raise SystemExit(2)
    objs = [o for o, _ in res]
    key = sha(*(sorted(objs) + lflags))
    exe = os.path.join(BUILD, "sim-%s-%s" % (flavour, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-o", tmp] + objs + lflags + ["-llapack", "-lblas", "-lfftw3", "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-3000:])
            raise SystemExit(2)
        os.replace(tmp, exe)
    used = set(objs)
    # drop objects of earlier trees once the cache grows large
    allo = [os.path.join(obj, f) for f in os.listdir(obj) if f.endswith(".o")]
    if len(allo) > 1500:
        for o in sorted(allo, key=os.path.getmtime)[: len(allo) - 700]:
            if o not in used:
                os.remove(o)
        for e in glob.glob(os.path.join(BUILD, "sim-*")):
            if e != exe and not e.endswith(".tmp"):
                os.remove(e)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "sim"))
