#!/usr/bin/env python3
"""Runs the check of one property: python3 engine/driver.py P01 [--tier quick|thorough]

Builds /repo's current sources twice (through SymPass for the symbolic run, plainly for the native replay), explores
every harness of the property, replays counterexamples and path witnesses against the native build, writes
evidence/<id>.json.  Exit 0: held.  Exit 1 + VIOLATION line: a counterexample that reproduces on the real code."""
import sys, os, re, json, glob, hashlib, subprocess, time, shutil, random, tempfile, signal, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("SV_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
Z3D = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX = "clang++-18"
NPROC = os.cpu_count() or 4
COMMON = ["-std=c++20", "-O1", "-g0", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize",
          "-mllvm", "-speculate-one-expensive-inst=false", "-D_GLIBCXX_ASSERTIONS", "-include", "cstdlib",
          '-DSLIDE_ROOT_DIR=(std::getenv("SV_ROOT")?std::getenv("SV_ROOT"):".")', "-w", "-fno-access-control"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_sources():
    """the .cpp files the repository's own CMake lists compile (main.cpp excluded)"""
    out = []
    for cm in glob.glob(REPO + "/src/**/CMakeLists.txt", recursive=True):
        txt = re.sub(r"#.*", "", open(cm).read())
        for m in re.findall(r"[\w./-]+\.cpp", txt):
            p = os.path.normpath(os.path.join(os.path.dirname(cm), m))
            if os.path.isfile(p) and os.path.basename(p) != "main.cpp" and p not in out:
                out.append(p)
    return sorted(out)


def repo_incdirs():
    """every CMake library of the repository adds its own directory to the include path"""
    return sorted(set(os.path.dirname(c) for c in glob.glob(REPO + "/src/**/CMakeLists.txt", recursive=True)))


def repo_headers():
    return [p for p in glob.glob(REPO + "/src/**/*", recursive=True) if os.path.isfile(p)]


class BuildError(Exception):
    pass


def use_settings(sets):
    """builds a copy of the current sources with other values of the user settings (constexpr constants of src/settings)"""
    global REPO
    v = os.path.join(BUILD, "var_" + fhash([], REPO + json.dumps(sets, sort_keys=True)))
    src = set(os.path.relpath(p, REPO) for p in glob.glob(REPO + "/src/**/*", recursive=True) if os.path.isfile(p))
    os.makedirs(v, exist_ok=True)
    if not os.path.islink(v + "/data"): os.symlink(REPO + "/data", v + "/data")
    for p in glob.glob(v + "/src/**/*", recursive=True):
        if os.path.isfile(p) and os.path.relpath(p, v) not in src: os.unlink(p)
    left = set(sets)
    for r in src:
        t = open(os.path.join(REPO, r), "rb").read()
        if r.startswith("src/settings/"):
            for k, x in sets.items():
                t, n = re.subn((r"(\bconstexpr\b[^;=]*?\b%s\b\s*)(\{[^}]*\}|=[^;]*)(\s*;)" % k).encode(), ("\\g<1>{ %s }\\g<3>" % x).encode(), t)
                if n: left.discard(k)
        d = os.path.join(v, r)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        if not os.path.exists(d) or open(d, "rb").read() != t: open(d, "wb").write(t)
    if left: raise BuildError("settings not found: %s" % sorted(left))
    REPO = v


def compile_obj(src, out, sym, log=None, defs=(), incs=()):
    env = dict(os.environ)
    cmd = [CXX] + COMMON + list(defs) + ["-I", HERE, "-I", REPO + "/src"] + [x for i in incs for x in ("-I", i)]
    if sym:
        cmd += ["-fpass-plugin=" + os.path.join(BUILD, "SymPass.so"), "-DSV_SYMBOLIC=1"]
        if log:
            env["SYMPASS_LOG"] = log
    cmd += ["-c", src, "-o", out + ".tmp"]
    r = sh(cmd, env=env)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    os.replace(out + ".tmp", out)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    jobs = []
    k = fhash([HERE + "/SymPass.cpp"])
    stamp = BUILD + "/SymPass." + k
    if not (os.path.exists(stamp) and os.path.exists(BUILD + "/SymPass.so")):
        def j1():
            fl = subprocess.check_output(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"], text=True).split()
            r = sh([CXX, "-O1", "-fPIC", "-shared", "-w"] + fl + [HERE + "/SymPass.cpp", "-o", BUILD + "/SymPass.so.tmp"])
            if r.returncode: raise BuildError(r.stdout)
            os.replace(BUILD + "/SymPass.so.tmp", BUILD + "/SymPass.so")
            open(stamp, "w").close()
        jobs.append(j1)
    k = fhash([HERE + "/sym_rt.cpp", HERE + "/sv.hpp", HERE + "/threads.inc"])
    stamp2 = BUILD + "/sym_rt." + k
    if not (os.path.exists(stamp2) and os.path.exists(BUILD + "/sym_rt.o")):
        def j2():
            r = sh([CXX, "-std=c++20", "-O1", "-w", "-fno-access-control", "-I", HERE, "-I", Z3D + "/include", "-c", HERE + "/sym_rt.cpp", "-o", BUILD + "/sym_rt.o.tmp"])
            if r.returncode: raise BuildError(r.stdout)
            os.replace(BUILD + "/sym_rt.o.tmp", BUILD + "/sym_rt.o")
            open(stamp2, "w").close()
        jobs.append(j2)
    k = fhash([HERE + "/native_rt.cpp", HERE + "/sv.hpp", HERE + "/threads.inc"])
    stamp3 = BUILD + "/native_rt." + k
    if not (os.path.exists(stamp3) and os.path.exists(BUILD + "/native_rt.o")):
        def j3():
            r = sh([CXX, "-std=c++20", "-O1", "-w", "-fno-access-control", "-I", HERE, "-c", HERE + "/native_rt.cpp", "-o", BUILD + "/native_rt.o.tmp"])
            if r.returncode: raise BuildError(r.stdout)
            os.replace(BUILD + "/native_rt.o.tmp", BUILD + "/native_rt.o")
            open(stamp3, "w").close()
        jobs.append(j3)
    return jobs


def build(prop, hfiles, defs=()):
    """returns (sym binary, native binary, info)"""
    t0 = time.time()
    ex = ThreadPoolExecutor(NPROC)
    fs = [ex.submit(j) for j in build_engine()]
    srcs = repo_sources()
    key = fhash(repo_headers() + [HERE + "/SymPass.cpp", HERE + "/sv.hpp"], " ".join(COMMON) + " ".join(defs))
    odir = os.path.join(BUILD, "obj_" + key)
    if not os.path.isdir(odir):  # keep the cache small
        old = sorted(glob.glob(BUILD + "/obj_*"), key=os.path.getmtime)
        for o in old[:-5]:
            shutil.rmtree(o, ignore_errors=True)
    os.makedirs(odir, exist_ok=True)
    os.utime(odir)
    now, later = [], []
    jobs, objs = [], {True: [], False: []}
    for s in srcs + hfiles:
        name = os.path.relpath(s, REPO).replace("/", "_") if s.startswith(REPO) else "H_" + os.path.basename(s) + fhash([s] + glob.glob(ROOT + "/harness/*.hpp"))
        for sym in (False, True):
            o = os.path.join(odir, name + (".sym.o" if sym else ".nat.o"))
            objs[sym].append(o)
            if not os.path.exists(o):
                (later if sym else now).append((compile_obj, s, o, sym, o + ".log" if sym else None, defs, [ROOT + "/harness"] + repo_incdirs()))
    jobs += [ex.submit(*a) for a in now]
    for f in fs: f.result()  # the pass is needed from here on
    jobs += [ex.submit(*a) for a in later]
    err = []
    for j in jobs:
        try: j.result()
        except BuildError as e: err.append(str(e))
    if err:
        raise BuildError("\n".join(err))
    hk = fhash(hfiles + glob.glob(ROOT + "/harness/*.hpp") + [HERE + "/sym_rt.cpp", HERE + "/native_rt.cpp", HERE + "/threads.inc"])
    sb = os.path.join(odir, "sym_%s_%s" % (prop, hk))
    nb = os.path.join(odir, "nat_%s_%s" % (prop, hk))
    def link(o, objs, rt, libs):
        if os.path.exists(o): return
        r = sh([CXX, "-o", o + ".tmp"] + objs + [rt] + libs + ["-lpthread"])
        if r.returncode: raise BuildError(r.stdout[-4000:])
        os.replace(o + ".tmp", o)
    zl = [Z3D + "/lib/libz3.so", "-Wl,-rpath," + Z3D + "/lib"]
    l1 = ex.submit(link, sb, objs[True], BUILD + "/sym_rt.o", zl)
    l2 = ex.submit(link, nb, objs[False], BUILD + "/native_rt.o", [])
    l1.result(); l2.result()
    # what was encoded
    fns, ins, ext = set(), 0, set()
    used = sh(["nm", "-C", "--defined-only", sb]).stdout
    for o in objs[True]:
        lp = o + ".log"
        if os.path.exists(lp):
            for l in open(lp):
                if l.startswith("fn "): fns.add(l[3:].strip())
                elif l.startswith("instructions"): ins += int(l.split()[1])
                elif l.startswith("ext "): ext.add(l[4:].strip())
    defd = set(x.split()[-1] for x in sh(["nm", "--defined-only", sb]).stdout.splitlines() if x)
    ext = sorted(e for e in ext if e not in defd)
    return sb, nb, {"functions": len(fns), "fn_list": sorted(fns), "instructions": ins, "external_fp_calls": ext, "build_s": round(time.time() - t0, 2), "sources": [os.path.relpath(s, REPO) for s in srcs]}


def mkroot():
    d = tempfile.mkdtemp(prefix="sv_")
    os.symlink(REPO + "/data", d + "/data")
    os.makedirs(d + "/results")
    os.makedirs(d + "/tmp")
    return d


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        cfg = json.load(open(ROOT + "/harness/checks.json"))
        self.cfg = cfg[prop]
        self.known = []
        kf = ROOT + "/known_findings.json"
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)) if k["property"] == prop and k.get("status") == "known"]

    def tv(self, k, d):
        v = self.cfg.get(k, d)
        if isinstance(v, dict) and ("quick" in v or "thorough" in v):
            return v.get(self.tier, v.get("quick", d))
        return v

    def build(self):
        """builds every part of the check (harness files with their settings); returns [(harness, what)] and what was encoded"""
        global REPO
        base, hs, info = REPO, [], None
        self.bins = {}
        for i, part in enumerate(self.cfg.get("parts") or [self.cfg]):
            REPO = base
            if part.get("settings"): use_settings(part["settings"])
            sb, nb, inf = build(self.prop, [os.path.join(ROOT, "harness", f) for f in part["file"].split()], self.cfg.get("defs", []))
            if info is None: info = inf
            else:
                info["instructions"] = max(info["instructions"], inf["instructions"])
                info["fn_list"] = sorted(set(info["fn_list"]) | set(inf["fn_list"]))
                info["functions"] = len(info["fn_list"])
            for l in sh([sb, "--list"]).stdout.strip().splitlines():
                h, what = l.split("\t")
                if part.get("harnesses") and h not in part["harnesses"]: continue
                d = h if not i else "%s@%d" % (h, i)
                self.bins[d] = (h, sb, nb)
                hs.append([d, what])
        return hs, info

    def native(self, root, h, inputs, timeout=60, obs=None):
        h, _, nb = self.bins[h]
        fd, p = tempfile.mkstemp(dir=root + "/tmp", suffix=".in")
        with os.fdopen(fd, "w") as f:
            for n, v in inputs: f.write("%s %s\n" % (n, v))
        wd = tempfile.mkdtemp(dir=root + "/tmp")
        os.makedirs(wd + "/results"); os.symlink(REPO + "/data", wd + "/data")
        env = dict(os.environ, SV_ROOT=".")
        cmd = [nb, "--harness", h, "--input", p, "--scratch", wd] + self.params
        if obs: cmd += ["--obs", obs]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=wd)
            out, rc = r.stdout.decode(errors="replace"), r.returncode
        except subprocess.TimeoutExpired:
            out, rc = "TIMEOUT", 124
        shutil.rmtree(wd, ignore_errors=True)
        os.unlink(p)
        return rc, out

    def run(self):
        t0 = time.time()
        p = self.prop
        try:
            hs, info = self.build()
        except BuildError as e:
            print("BUILD-FAILED property=%s\n%s" % (p, str(e)[-3000:]))
            return 2
        params = self.tv("params", {})
        self.params = [x for k, v in params.items() for x in ("--param", "%s=%d" % (k, v))]
        skip = self.tv("skip", [])
        hs = [h for h in hs if h[0] not in skip]
        root = mkroot()
        tl = self.tv("time", 150 if self.tier == "quick" else 700)
        width = min(len(hs), max(1, NPROC // 2))
        jobs = max(2, NPROC // max(1, width))
        res = {}
        rc = 0
        try:
            def one(h):
                wd = tempfile.mkdtemp(dir=root + "/tmp")
                os.makedirs(wd + "/results"); os.symlink(REPO + "/data", wd + "/data")
                out = os.path.join(wd, "out.jsonl")
                env = dict(os.environ, SV_ROOT=".")
                lim = "ulimit -v 12000000; " if False else ""
                cmd = [self.bins[h][1], "--harness", self.bins[h][0], "--out", out, "--scratch", wd, "--time", str(tl), "--jobs", str(jobs),
                       "--max-paths", str(self.tv("max_paths", 40000)), "--max-nodes", str(self.tv("max_nodes", 400000)), "--ob-timeout", str(self.tv("ob_timeout", 20 if self.tier == "quick" else 60))] + self.params
                pr = subprocess.Popen(cmd, stdout=open(wd + "/stdout", "w"), stderr=subprocess.STDOUT, env=env, cwd=wd, start_new_session=True)
                killed = False
                try: pr.wait(timeout=tl + 60)
                except subprocess.TimeoutExpired:
                    killed = True
                try: os.killpg(pr.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                pr.wait()
                recs = []
                if os.path.exists(out):
                    for l in open(out, errors="replace"):
                        try: recs.append(json.loads(l))
                        except ValueError: pass
                so = open(wd + "/stdout", errors="replace").read()
                return h, pr.returncode, killed, recs, so[-3000:]
            with ThreadPoolExecutor(width) as ex:
                for h, prc, killed, recs, so in ex.map(one, [x[0] for x in hs]):
                    res[h] = (prc, killed, recs, so)
            return self.report(t0, hs, res, root, info, params, tl)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def report(self, t0, hs, res, root, info, params, tl):
        p = self.prop
        tot = {}
        viols, unrep, und, notes, trunc, bnd = [], [], [], {}, 0, []
        per = {}
        samples, validated, mism = [], 0, []
        labels_all = {}
        rnd = random.Random(self.seed)
        nval = self.tv("validate", 12 if self.tier == "quick" else 40)
        for h, what in hs:
            prc, killed, recs, so = res[h]
            summ = next((r["summary"] for r in recs if "summary" in r), None)
            if summ is None:
                trunc += 1
                notes["%s: exploration did not finish (%s)" % (h, "killed at time limit" if killed else "exit %s" % prc)] = 1
                summ = {}
            for k, v in summ.items():
                if isinstance(v, (int, float)): tot[k] = tot.get(k, 0) + v
            labels = {}
            paths = [r for r in recs if "path" in r]
            for r in paths:
                for l, c in r.get("labels", {}).items(): labels[l] = labels.get(l, 0) + c
            for l, c in labels.items(): labels_all["%s: %s" % (h, l)] = c
            for r in recs:
                if "note" in r: notes["%s: %s" % (h, r["note"])] = notes.get("%s: %s" % (h, r["note"]), 0) + 1
                if "undecided" in r: und.append((h, r["undecided"], r.get("inputs")))
                if "truncated" in r: trunc += 1; notes["%s: truncated by %s" % (h, r["truncated"])] = notes.get("%s: truncated by %s" % (h, r["truncated"]), 0) + 1
            per[h] = {"what": what, "paths": summ.get("paths"), "obligations": summ.get("obligations"), "solver_queries": (summ.get("branch_queries") or 0) + (summ.get("obligation_queries") or 0), "solver_s": summ.get("solver_s"), "wall_s": summ.get("wall_s"), "labels": labels}
            # counterexamples: replay on the native build
            seen = {}
            for r in recs:
                if "violation" not in r: continue
                lab = r["violation"]
                if seen.get(lab, 0) >= 8: continue
                seen[lab] = seen.get(lab, 0) + 1
                rc, out = self.native(root, h, r["inputs"])
                rep = ("REPRODUCED" in out) or (r["kind"] == "crash" and rc not in (0, 5, 7)) or (rc < 0) or rc in (132, 134, 136, 139)
                if r["kind"] == "fptoint": rep = True
                (viols if rep else bnd if r.get("edge") else unrep).append({"harness": h, "label": lab, "inputs": r["inputs"], "native_rc": rc, "native": out[-600:]})
            # undecided obligations: the solver gave no verdict; try the real code on a few inputs (reports only real failures)
            # path witnesses: the native build on a path's model must meet the same obligations with the same values
            cand = [r for r in paths if r.get("model_ok") and not r.get("edge") and "obs" in r and r["path"] == "done"]
            rnd.shuffle(cand)
            for r in cand[:nval]:
                ob = root + "/tmp/obs_%s" % h
                rc, out = self.native(root, h, r["inputs"], obs=ob)
                if "REPRODUCED" in out:
                    # a failure at concrete inputs that the symbolic run did not report: it is a real failure of the code
                    lab = out.split("REPRODUCED ", 1)[1].splitlines()[0].split(" a=")[0]
                    viols.append({"harness": h, "label": lab, "inputs": r["inputs"], "native_rc": rc, "native": out[-600:], "by": "native run of a path witness"})
                    continue
                if rc < 0 or rc in (134, 139):
                    viols.append({"harness": h, "label": "crash", "inputs": r["inputs"], "native_rc": rc, "native": out[-600:], "by": "native run of a path witness"})
                    continue
                got = []
                if os.path.exists(ob):
                    got = [l.rstrip("\n").split("\t") for l in open(ob)]
                    os.unlink(ob)
                ok = True
                for a, b in zip(r["obs"], got):
                    if a[1][:150] != b[1].replace('"', '').replace("\\", "")[:150] and a[1][:150] != b[1][:150]: ok = False; break
                    for x, y in ((a[2], b[2]), (a[3], b[3])):
                        x, y = float(x), float(y)
                        if x != x and y != y: continue
                        if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)): ok = False
                if got and ok: validated += 1
                else: mism.append({"harness": h, "inputs": r["inputs"], "sym": r["obs"][:200], "native": got[:200], "rc": rc, "out": out[-200:]})
            if cand: samples.append({"harness": h, "inputs": [[n, float.fromhex(v) if "x" in v else v] for n, v in cand[0]["inputs"]], "obligations": cand[0]["obs"][:8]})
        # report
        rc = 0
        kn, new = [], []
        for v in viols:
            k = next((k for k in self.known if k["harness"] == v["harness"] and k["label"] == v["label"]), None)
            (kn if k else new).append((v, k))
        printed = set()
        for v, k in kn:
            if k["what"] not in printed:
                printed.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (p, k["what"]))
        rdir = os.path.join(ROOT, "replay")
        if new:
            os.makedirs(rdir, exist_ok=True)
        done = set()
        for i, (v, _) in enumerate(new):
            key = (v["harness"], v["label"])
            if key in done: continue
            done.add(key)
            f = os.path.join(rdir, "%s_%s_%d.json" % (p, v["harness"], i))
            json.dump({"property": p, **v, "replay_cmd": "python3 engine/driver.py %s --replay %s" % (p, os.path.relpath(f, ROOT))}, open(f, "w"), indent=1)
            print("violated: harness %s: %s with %s" % (v["harness"], v["label"], " ".join("%s=%.9g" % (n, float.fromhex(x)) for n, x in v["inputs"][:14])))
            print("VIOLATION property=%s replay=%s" % (p, f))
            rc = 1
        und_n = tot.get("undecided", 0)
        cov = {
            "states": int(tot.get("paths", 0)),
            "transitions": int(tot.get("branch_queries", 0) + tot.get("obligation_queries", 0) + tot.get("branch_by_interval", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples[:12] or ["no completed path"],
            "explanation": "states: complete paths of the real code (each covers every real-valued input satisfying its path condition); transitions: branch and obligation decisions. " + self.cfg.get("bounds", ""),
            "obligations": int(tot.get("obligations", 0)),
            "obligations_decided_by_solver": int(tot.get("obligation_queries", 0)) - int(und_n),
            "obligations_closed_by_normal_form": int(tot.get("by_identity", 0)),
            "obligations_closed_by_interval": int(tot.get("by_interval", 0)),
            "undecided": int(und_n),
            "decided_by_linear_abstraction": int(tot.get("decided_by_linear_abstraction", 0)),
            "branch_feasibility_by_evaluated_witness": int(tot.get("witness_by_evaluation", 0)),
            "exact_nonlinear_queries": int(tot.get("exact_queries", 0)),
            "branch_queries": int(tot.get("branch_queries", 0)),
            "branches_by_interval": int(tot.get("branch_by_interval", 0)),
            "forks": int(tot.get("forks", 0)),
            "paths_assumed_away": int(tot.get("assumed_away", 0)),
            "truncated": int(trunc),
            "solver_s": round(tot.get("solver_s", 0), 3),
            "external_solver_calls": int(tot.get("external_solver_calls", 0)),
            "witness_mismatches": len(mism),
            "unreproduced_counterexamples": len(unrep), "counterexamples_within_rounding_of_a_branch_not_reproduced": len(bnd),
            "known_findings": sorted(printed),
            "harnesses": per,
            "bounds": self.cfg.get("bounds", ""), "parameters": params,
            "functions_encoded": info["functions"], "instructions_encoded": info["instructions"],
            "functions_sample": [f for f in info["fn_list"]][:0] or self.cfg.get("functions", []),
            "sources": info["sources"], "unmodelled_fp_calls": info["external_fp_calls"],
            "notes": notes,
        }
        complete = not (und_n or trunc or unrep or mism)
        cov["exhaustive"] = bool(complete and rc == 0)
        ev = {"property": p, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["floating-point operations are encoded over the reals (rounding is outside the claim; obligations carry a tolerance) unless the harness sets the IEEE mode",
                              "exp, log, asinh, sinh, pow, sin are axiomatised (sign, monotonicity, interval bounds)", "std::thread runs its function synchronously in the symbolic build",
                              "allocation does not fail; printing a number prints a placeholder"] + self.cfg.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(done)}
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (ROOT, p), "w"), indent=1)
        print("%s %s: paths %d, obligations %d (solver %d, normal form %d, interval %d), branch queries %d, undecided %d, truncated %d, unreproduced %d, witnesses %d ok %d mismatched, solver %.1fs, wall %.1fs" % (
            p, self.tier, cov["states"], cov["obligations"], cov["obligations_decided_by_solver"], cov["obligations_closed_by_normal_form"], cov["obligations_closed_by_interval"], cov["branch_queries"], und_n, trunc, len(unrep), validated, len(mism), cov["solver_s"], ev["wall_s"]))
        if os.environ.get("SV_VERBOSE"):
            for u in unrep[:5]: print("UNREPRODUCED", json.dumps(u)[:1500])
            for m in mism[:3]: print("MISMATCH", json.dumps({**m, "sym": [x for x, y in zip(m["sym"], m["native"]) if x != y], "native": [y for x, y in zip(m["sym"], m["native"]) if x != y]})[:3000])
            for u in und[:8]: print("UNDECIDED", u)
            for n, c in notes.items(): print("NOTE", n, c)
            for h, v in per.items(): print("H", h, v["paths"], "paths", v["obligations"], "obl", v["solver_queries"], "q", v["wall_s"], "s", len(v["labels"]), "labels")
            for h in res:
                if res[h][3].strip() and os.environ.get("SV_VERBOSE") == "2": print("OUT", h, res[h][3][-1500:])
        return rc


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop == "setup":
        ex = ThreadPoolExecutor(4)
        for f in [ex.submit(j) for j in build_engine()]: f.result()
        return 0
    c = Check(prop, tier, seed)
    if "--replay" in a:
        r = json.load(open(a[a.index("--replay") + 1]))
        c.build()
        c.params = [x for k, v in c.tv("params", {}).items() for x in ("--param", "%s=%d" % (k, v))]
        root = mkroot()
        rc, out = c.native(root, r["harness"], r["inputs"])
        print(out)
        shutil.rmtree(root, ignore_errors=True)
        return 1 if "REPRODUCED" in out or rc < 0 else 0
    return c.run()


if __name__ == "__main__":
    sys.exit(main())
