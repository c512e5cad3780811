#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--only SUB] [--scale X]

Builds the harness of one property from /repo's working tree, runs it, writes evidence/<ID>.json.
Exit 0: held; 1: VIOLATION line; 2: error of the check itself."""
import hashlib, json, os, subprocess, sys, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
H = os.path.join(VERIF, "harness")
INC = [f"-I{REPO}/src", "-I/usr/include/eigen3", "-isystem", "/usr/include/libfccp"]
BASE = ["-std=c++17", "-g1", "-DNDEBUG", "-pthread"]
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
       "-ftrivial-auto-var-init=pattern"]
PLAIN = ["-O2"]
MODES = {
    "san": ("g++", SAN, ["-fsanitize=address,undefined"]),
    "plain": ("g++", PLAIN, []),
    "omp": ("g++", ["-O1", "-fopenmp"], []),
    "tsan": ("g++", ["-O1", "-fopenmp", "-fsanitize=thread", "-DTSAN_BUILD"], ["-fsanitize=thread"]),
    "fuzz": ("clang++", ["-O1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all",
                          "-ftrivial-auto-var-init=pattern"],
             ["-fsanitize=address,undefined,fuzzer"]),
}
LIBS = ["-lyaml-cpp", "-lpthread"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def files_digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def repo_sources():
    out = []
    for root, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(root, f) for f in fs if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(out)


def repo_all():
    out = []
    for d in ("src", "generator"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in fs if f.endswith((".cpp", ".hpp", ".h", ".cc", ".hh", ".ipp"))]
    return sorted(out)


_digest = {}


def tree_digest():
    if not _digest:
        _digest["k"] = files_digest(repo_all()), files_digest(glob.glob(H + "/*.hpp"))
    return _digest["k"]


def compile_one(mode, src, extra, own):
    """own: harness file (depends on the harness headers too)"""
    cxx, cf, _ = MODES[mode]
    r, h = tree_digest()
    cmd = [cxx] + BASE + cf + INC + extra
    if not own:
        cmd += ["-include", os.path.join(H, "exit_hook.hpp")]
    with open(src, "rb") as f:
        key = sha(" ".join(cmd), src, f.read(), r, h if own else files_digest([os.path.join(H, "exit_hook.hpp")]))
    obj = os.path.join(BUILD, "obj", f"{os.path.basename(src)}.{mode}.{key}.o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + f".{os.getpid()}.tmp"
    p = subprocess.run(cmd + ["-w", "-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode:
        raise BuildError(f"compiling {src} ({mode}):\n{p.stderr[-4000:]}")
    os.replace(tmp, obj)
    return obj


def build(targets):
    """targets: list of (name, mode, [harness sources], [repo sources] or 'lib' or 'all', [extra flags], [link flags])
    Returns {name: path}.  Everything is compiled in one parallel batch."""
    tree_digest()  # once, before the threads
    jobs = []
    for name, mode, own, repo, extra, link in targets:
        srcs = [(os.path.join(H, s), True) for s in own]
        rs = repo_sources()
        if repo == "lib":
            rs = [s for s in rs if os.path.basename(s) != "main.cpp"]
        elif repo != "all":
            rs = repo
        srcs += [(s, False) for s in rs]
        jobs.append((name, mode, srcs, extra, link))
    # longest first: harness files
    flat = sorted({(m, s, tuple(e) if o else (), o) for _, m, ss, e, _ in jobs for s, o in ss}, key=lambda t: not t[3])
    with ThreadPoolExecutor(8) as ex:
        res = dict(zip(flat, ex.map(lambda t: compile_one(t[0], t[1], list(t[2]), t[3]), flat)))
    out = {}
    for name, mode, srcs, extra, link in jobs:
        objs = [res[(mode, s, tuple(extra) if o else (), o)] for s, o in srcs]
        exe = os.path.join(BUILD, "bin", f"{name}.{sha(*objs, mode, *link)}")
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            cxx, _, lf = MODES[mode]
            tmp = exe + f".{os.getpid()}.tmp"
            p = subprocess.run([cxx] + lf + objs + link + LIBS + ["-o", tmp], capture_output=True, text=True)
            if p.returncode:
                raise BuildError(f"linking {name}:\n{p.stderr[-4000:]}")
            os.replace(tmp, exe)
        out[name] = exe
    return out


def mps_target(name="mps", mode="plain"):
    return (name, mode, [], "all", [], [])


def generators():
    """particle generators, one target per main in generator/"""
    g = os.path.join(REPO, "generator")
    common = sorted(glob.glob(g + "/generator_src/*.cpp")) + \
        [os.path.join(REPO, "src", f) for f in ("particle.cpp", "particles.cpp", "particles_exporter.cpp")]
    return [(n, "plain", [], [os.path.join(g, n + ".cpp")] + common, [], [])
            for n in ("generate_dambreak", "generate_hydrostatic")]


WRAP = ["-Wl,--wrap=exit"]


def harness(pid, mode="san", repo="lib", extra=()):
    return ("prop_" + pid, mode, [f"prop_{pid}.cpp", "pbt.cpp"], repo, list(extra), WRAP)


# per property: targets to build, environment for the harness
def plan(pid):
    t, env = [harness(pid)], {}
    if pid in ("C01", "C15", "C20", "C21", "C22", "C23", "C27", "C31"):
        t.append(mps_target())
        env["PBT_MPS"] = "mps"
    if pid == "C24":
        t += generators()
        env["PBT_GEN_DAMBREAK"] = "generate_dambreak"
        env["PBT_GEN_HYDROSTATIC"] = "generate_hydrostatic"
    if pid == "C27":
        t.append(("runner_C27", "san", ["serial_C26.cpp"], "lib", [], []))
        env["PBT_RUNNER"] = "runner_C27"
    if pid == "C22":
        t.append(("fuzz_C22", "fuzz", ["fuzz_C22.cpp", "pbt.cpp"], "lib", [], WRAP))
    if pid == "C26":
        t = [("prop_C26", "omp", ["prop_C26.cpp", "pbt.cpp", "gomp_stub.cpp"], "lib", [], WRAP),
             ("tsan_C26", "tsan", ["tsan_C26.cpp", "gomp_stub.cpp"], "lib", [], []),
             ("serial_C26", "plain", ["serial_C26.cpp"], "lib", [], [])]
        env["PBT_TSAN"] = "tsan_C26"
        env["PBT_SERIAL"] = "serial_C26"
    return t, env


LEVEL_NOTE = {}


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                out.append(line[len("known: "):])
    return out


def prune():
    """keep the build cache small"""
    for d in ("obj", "bin"):
        p = os.path.join(BUILD, d)
        if not os.path.isdir(p):
            continue
        fs = []
        for f in glob.glob(p + "/*"):
            try:
                st = os.stat(f)
                fs.append((st.st_mtime, st.st_size, f))
            except OSError:  # another check removed it
                pass
        fs.sort()
        tot = sum(s for _, s, _ in fs)
        for m, s, f in fs:
            if tot < 6e9:
                break
            if time.time() - m > 1800:
                try:
                    os.unlink(f)
                except OSError:
                    pass
                tot -= s


def setup():
    """compiles everything once, so that the first check does not have to; checks rebuild what a change affects"""
    os.makedirs(BUILD, exist_ok=True)
    todo, names = [], set()
    for f in sorted(glob.glob(H + "/prop_C*.cpp")):
        for t in plan(os.path.basename(f)[5:-4])[0]:
            if t[0] not in names:
                names.add(t[0])
                todo.append(t)
    try:
        build(todo)
    except BuildError as e:
        print(f"setup: {e}")
        return 0  # the checks report it
    print(f"built {len(todo)} programs")
    return 0


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        return setup()
    pid = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt.get("--seed") or os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    prune()
    try:
        targets, env = plan(pid)
        exes = build(targets)
    except BuildError as e:
        print(f"ERROR property={pid}: cannot build\n{e}")
        return 2
    tb = time.time() - t0
    tmp = f"/tmp/verif-{pid}-{os.getpid()}"
    os.makedirs(tmp)
    os.chmod(tmp, 0o755)
    try:
        e = dict(os.environ)
        for k, v in env.items():
            e[k] = exes[v]
        e["PBT_REPO"] = REPO
        e["PBT_SANLOG"] = tmp + "/san"
        e["ASAN_OPTIONS"] = f"detect_leaks=0:log_path={tmp}/san:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
        e["UBSAN_OPTIONS"] = f"log_path={tmp}/san:print_stacktrace=1:exitcode=99"
        e["LC_ALL"] = "C.UTF-8"
        exe = exes["prop_" + pid]
        if "--replay" in opt and open(opt["--replay"], "rb").read(5) == b"fuzz ":
            return replay_fuzz(exes["fuzz_C22"], opt["--replay"], e)
        if "--replay" in opt:
            return subprocess.run([exe, "--replay", opt["--replay"], "--tmp", tmp], env=e).returncode
        os.makedirs(VERIF + "/replays", exist_ok=True)
        replay = f"{VERIF}/replays/{pid}-{tier}-{seed}.txt"
        if os.path.exists(replay):
            os.unlink(replay)
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", tmp + "/out.json", "--replay-out", replay, "--tmp", tmp]
        for k in ("--scale", "--only", "--jobs", "--budget"):
            if k in opt:
                cmd += [k, opt[k]]
        p = subprocess.run(cmd, env=e)
        if p.returncode not in (0, 1) or not os.path.exists(tmp + "/out.json"):
            print(f"ERROR property={pid}: harness ended with {p.returncode}")
            return 2
        res = json.load(open(tmp + "/out.json"))
        viol = bool(res["violation"])
        extra = {}
        if not viol and pid == "C22" and "--only" not in opt:
            viol, extra = run_fuzz(exes, e, tier, seed, tmp, replay)
        if not viol and pid == "C26" and "--only" not in opt:
            pass
        subs = res["subs"]
        cov = {
            "evaluations": sum(s["evaluations"] for s in subs),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
            "rule": " || ".join(f"{s['name']}: {s['rule']}" for s in subs),
            "samples": [x for s in subs for x in s["samples"][:2]] or ["none"],
            "discarded": sum(s["discarded"] for s in subs),
            "by_check": [{k: s[k] for k in ("name", "planned", "evaluations", "discarded", "distinct_nontrivial",
                                            "longest_case_cpu_s", "wall_s", "labels", "unreproduced")} for s in subs],
        }
        cov.update(extra)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in known_findings(pid):
            print("KNOWN-FINDING: " + k)
        print(f"{pid} {tier} seed={seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
              f"{cov['discarded']} discarded, build {tb:.1f}s, total {time.time()-t0:.1f}s")
        if viol:
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ASSUME = [
    "compiled with g++ 13 / Eigen 3.4.0 / yaml-cpp 0.8 of this sandbox, NDEBUG as shipped",
    "double precision IEEE-754; agreement is judged with the tolerances stated in DESIGN.md",
    "random search: absence of failures is evidence, not proof",
]


def seeds_c22(d):
    """seed corpus: the repository's sample inputs (shortened) and small hand-made files"""
    os.makedirs(d)
    n = 0

    def put(fmt, data):
        nonlocal n
        with open(f"{d}/seed{n:03d}", "wb") as f:
            f.write(bytes([fmt]) + data)
        n += 1
    put(0, b"0\n2\n1 0.1 -0.2 0 1e-3 2 3\n3 -0.1 5 0 0 0 0\n")
    put(0, b"1.5\n0\n")
    put(1, b"0\n2\ntype,x,y,z,vx,vy,vz\n1,0.1,-0.2,0,1e-3,2,3\n3,-0.1,5,0,0,0,0\n")
    put(1, b"0.25\n1\nfluidType,type,density,x,y,z,vx,vy,vz\n1,1,-1,0.1,0.2,0,0,0,0\n")
    put(1, b"0\n1\ntype,x,y,z,vx,vy,vz,density\n1,1,2,0,0,0,0,1000\n")
    arr = lambda t, name, c, body: f'<DataArray type="{t}" Name="{name}" NumberOfComponents="{c}" format="ascii">\n{body}</DataArray>\n'
    for den in ("", arr("Float64", "Density", 1, "1000\n-1\n")):
        put(2, ("<?xml version='1.0' encoding='UTF-8'?>\n<VTKFile type=\"UnstructuredGrid\">\n<UnstructuredGrid>\n<Piece NumberOfPoints=\"2\">\n<Points>\n"
                + arr("Float64", "Position", 3, "0.1 0.2 0\n1 2 0\n") + "</Points>\n<PointData>\n" + arr("Int32", "Particle Type", 1, "1\n3\n")
                + arr("Float64", "Velocity", 3, "1 0 0\n0 0 0\n") + arr("Float64", "Number Density", 1, "6.5\n3.25\n") + den
                + arr("Int32", "Fluid Type", 1, "0\n2\n") + "</PointData>\n</Piece>\n<FieldData>\n<DataArray type=\"Float64\" Name=\"Time\">\n0.5\n</DataArray>\n"
                + "</FieldData>\n</UnstructuredGrid>\n</VTKFile>\n").encode())
    with open(d + ".dict", "w") as f:
        for w in ("type", "fluidType", "density", "x", "y", "z", "vx", "vy", "vz", ",", "nan", "inf", "1e999", "1e-999", "0x1p3", "1e-99999999999",
                  "</DataArray>", "<AppendedData", "Position", "Velocity", "Particle Type", "Fluid Type", "Density", "Number Density", "Time", "-1", "2147483648"):
            f.write('"' + w + '"\n')


def run_fuzz(exes, env, tier, seed, tmp, replay):
    """coverage-guided search with the same oracle; a fixed number of executions, so the seed decides everything"""
    runs = 40000 if tier == "quick" else 1500000
    jobs = 8
    e = dict(env)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    work = tmp + "/fuzz"
    os.makedirs(work)
    seeds_c22(work + "/seeds")

    def one(k):
        d = f"{work}/{k}"
        os.makedirs(d + "/c")
        os.makedirs(d + "/a")
        ek = dict(e, FUZZ_STATS=d + "/stats")
        p = subprocess.run([exes["fuzz_C22"], f"-runs={runs // jobs}", f"-seed={seed * 100 + k + 1}", "-timeout=20", "-rss_limit_mb=2500", "-max_len=2048",
                            f"-dict={work}/seeds.dict", f"-artifact_prefix={d}/a/", d + "/c", work + "/seeds"],
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ek)
        return p.returncode, p.stderr.decode("latin-1")
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, range(jobs)))
    tot = [0] * 5
    corpus = 0
    for k in range(jobs):
        corpus += len(os.listdir(f"{work}/{k}/c"))
        try:
            for line in open(f"{work}/{k}/stats"):
                tot = [a + int(b) for a, b in zip(tot, line.split())]
        except OSError:
            pass
    info = {"fuzz": {"driver": "libFuzzer with the same oracle, ASan and UBSan", "executions": tot[4], "valid": tot[0], "broken": tot[1],
                     "grey_accepted": tot[2], "grey_refused": tot[3], "corpus": corpus}}
    print(f"[C22.fuzz] {tot[4]} executions, {tot[0]} valid, {tot[1]} broken, {tot[2]}/{tot[3]} grey accepted/refused, corpus {corpus}")
    for k, (rc, err) in enumerate(res):
        arts = sorted(glob.glob(f"{work}/{k}/a/*"))
        if rc == 0:
            continue
        if not arts:
            raise RuntimeError(f"libFuzzer ended with {rc} without an artifact:\n{err[-2000:]}")
        art = arts[0]
        # the failure has to show again on its own (timeouts: under a loaded machine they may not)
        again = subprocess.run([exes["fuzz_C22"], "-timeout=60", art], stdin=subprocess.DEVNULL, capture_output=True, env=e)
        if again.returncode == 0:
            info["fuzz"]["unreproduced"] = os.path.basename(art)
            continue
        subprocess.run([exes["fuzz_C22"], "-minimize_crash=1", "-runs=20000", "-max_total_time=20", f"-exact_artifact_path={work}/min", art],
                       stdin=subprocess.DEVNULL, capture_output=True, env=e)
        best = work + "/min" if os.path.exists(work + "/min") and os.path.getsize(work + "/min") else art
        data = open(best, "rb").read()
        msg = [x for x in err.splitlines() if x.startswith("FINDING") or "ERROR:" in x or "runtime error" in x]
        with open(replay, "wb") as f:
            f.write(b"fuzz C22\nhex " + data.hex().encode() + b"\n# ---- what failed\n" + "\n".join(msg[:3]).encode() + b"\n# ---- the file ("
                    + [b"prof", b"csv", b"vtu"][data[0] % 3] + b")\n" + data[1:] + b"\n")
        print("\n".join(msg[:3]))
        print("input: hex " + data[:400].hex())
        return True, info
    return False, info


def replay_fuzz(exe, path, env):
    data = bytes.fromhex(open(path, "rb").read().split(b"\n")[1][4:].decode())
    t = path + ".bin"
    with open(t, "wb") as f:
        f.write(data)
    e = dict(env)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
    rc = subprocess.run([exe, t], env=e).returncode
    os.unlink(t)
    return 1 if rc else 0


if __name__ == "__main__":
    sys.exit(main())
