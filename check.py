#!/usr/bin/env python3
"""check.py ID: decide property ID for the code in /repo's working tree.

exit 0  every obligation of the property's harnesses was discharged
exit 1  an obligation failed (VIOLATION line, replay file written)
exit 2  undecided: the check itself could not finish (build error, lost anchor, ...)
"""
import fnmatch, glob, json, os, re, shutil, signal, subprocess, sys, tarfile, threading, time
from concurrent.futures import ThreadPoolExecutor

T0 = time.time()
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
KANI = os.path.join(VERIF, "kani")
sys.path.insert(0, VERIF)
import checks as C

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
LIMIT = 840 if TIER == "quick" else 7200      # wall clock for everything
FLAGS = ["-Z", "stubbing", "-Z", "unstable-options", "-Z", "concrete-playback",
         "--no-memory-safety-checks", "--no-assertion-reach-checks", "--no-undefined-function-checks"]
CBMC = {"rec": ["--cbmc-args", "--max-field-sensitivity-array-size", "80"],
        "frame": ["--cbmc-args", "--max-field-sensitivity-array-size", "600"]}
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
CRATES = ["leaf", "link", "hdr", "ci", "app", "frame", "rec"]


def left():
    return LIMIT - (time.time() - T0)


def die(msg, ev=None):
    print("ERROR: " + msg)
    if ev:
        ev()
    sys.exit(2)


def put(path, data):
    """Write only when changed, so that cargo does not rebuild for nothing."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(data, str):
        data = data.encode()
    if not os.path.exists(path) or open(path, "rb").read() != data:
        open(path, "wb").write(data)


# ------------------------------------------------------------------ preparation
def winnow_version():
    lock = open(os.path.join(REPO, "Cargo.lock")).read()
    v = re.findall(r'name = "winnow"\nversion = "(0\.7\.[^"]+)"', lock)
    if not v:
        die("winnow 0.7 is no longer a dependency")
    return v[0]


def prepare():
    """Everything that is derived from /repo or from the registry, mechanically."""
    os.makedirs(BUILD, exist_ok=True)
    ver = winnow_version()
    dst = os.path.join(BUILD, "winnow")
    stamp = os.path.join(dst, ".stamp")
    patch = os.path.join(KANI, "winnow-error.patch")
    want = ver + "\n" + open(patch).read()
    if not os.path.exists(stamp) or open(stamp).read() != want:
        shutil.rmtree(dst, ignore_errors=True)
        home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
        src = glob.glob(f"{home}/registry/src/*/winnow-{ver}")
        if src:
            shutil.copytree(src[0], dst)
        else:
            crate = glob.glob(f"{home}/registry/cache/*/winnow-{ver}.crate")
            if not crate:
                die(f"winnow {ver} is not in the cargo cache")
            tmp = os.path.join(BUILD, "untar")
            shutil.rmtree(tmp, ignore_errors=True)
            tarfile.open(crate[0]).extractall(tmp)
            shutil.move(os.path.join(tmp, f"winnow-{ver}"), dst)
        r = subprocess.run(["patch", "-p1", "-s", "-i", patch], cwd=dst, capture_output=True, text=True)
        if r.returncode:
            die("the error type reduction does not apply to winnow " + ver + ": " + r.stdout + r.stderr)
        open(stamp, "w").write(want)
    # application.rs verbatim, plus a read accessor for two private fields
    app = open(f"{REPO}/src/parse/application_layer/application.rs").read()
    app += ("\nimpl ApplicationMessage {\n\tpub fn parts_for_verification(&self) -> (&MessageApplication, u64) {\n"
            "\t\t(&self.message_application, self.block_number)\n\t}\n}\n")
    put(f"{BUILD}/gen/application.rs", app)
    # types.rs without its module declarations
    types = open(f"{REPO}/src/parse/types.rs").read()
    put(f"{BUILD}/gen/types_body.rs", "".join(l for l in types.splitlines(True) if not re.match(r"(pub(\(\w+\))? )?mod \w+;", l)))


def harness_list(crate):
    """(module path, harness) of every harness declared in the crate's sources."""
    out = []
    for f in sorted(glob.glob(f"{KANI}/{crate}/src/*.rs")):
        stem = os.path.basename(f)[:-3]
        if stem == "main":
            continue
        mods = [(stem, -1)] if stem != "lib" else []
        level = 0
        for line in open(f):
            m = re.match(r"\s*pub mod (\w+) \{", line)
            if m and stem != "lib" or m and m.group(1) == "lvar":
                mods.append((m.group(1), level))
            m = re.match(r"\s*(\w+) \[\d+\] \{", line) or re.match(r"\s*(take_\w+) \w+, \d+, \d+;", line)
            if m:
                out.append(("::".join(n for n, _ in mods), m.group(1)))
            level += line.count("{") - line.count("}")
            while mods and level <= mods[-1][1]:
                mods.pop()
    return out


def select(crate, patterns):
    sel = []
    for mod, h in harness_list(crate):
        full = (mod + "::" if mod else "") + h
        for p in patterns:
            if "::" in p:
                if full.startswith(p):
                    sel.append(full)
                    break
            elif h.startswith(p) or p == h + "$":
                sel.append(full)
                break
    return sel


# ------------------------------------------------------------------ running kani
STOP = threading.Event()          # a violation was found: no need to go on elsewhere
RUNNING = set()


def stop():
    STOP.set()
    for pid in list(RUNNING):
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def run(cmd, cwd, timeout, log, env=ENV):
    if STOP.is_set():
        open(log, "w").close()
        return 1
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        RUNNING.add(p.pid)
        try:
            p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)   # stragglers (cbmc) as well
        except ProcessLookupError:
            pass
        rc = p.wait()
        RUNNING.discard(p.pid)
    return rc


def fresh():
    """Recompile everything but the dependencies, whatever the time stamps say."""
    for d in glob.glob(f"{BUILD}/kt/**/.fingerprint/*", recursive=True):
        if re.match(r"(libmbus|libmbus_macros|" + "|".join(CRATES) + r")-[0-9a-f]+$", os.path.basename(d)):
            shutil.rmtree(d, ignore_errors=True)


def elsewhere(crate, n, widen=False):
    """The same crates below another path. Kani derives symbol names from paths, and
    for some of them its translation goes wrong (a Vec that is pushed to without having
    been allocated); see `suspicious`. With `widen`, the crates use a copy of /repo/src
    in which everything restricted to the crate is public (the text is the same otherwise),
    so that a harness crate also sees helpers that one module shares with another."""
    alt = f"{BUILD}/alt-{crate}-{n}"
    shutil.rmtree(alt, ignore_errors=True)
    shutil.copytree(KANI, alt, ignore=shutil.ignore_patterns("target"))
    if widen:
        shutil.copytree(REPO, f"{alt}/repo", ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
        for root, _, files in os.walk(f"{alt}/repo/src"):
            for f in files:
                if f.endswith(".rs"):
                    t = open(f"{root}/{f}").read()
                    t = re.sub(r"\bpub\((crate|super|self|in [\w:]+)\)", "pub", t)
                    t = re.sub(r"^((?:    |\t)*)(?:mod (\w+);)", r"\1pub mod \2;", t, flags=re.M)
                    open(f"{root}/{f}", "w").write(t)
        lib = open(f"{alt}/{crate}/src/lib.rs").read()
        open(f"{alt}/{crate}/src/lib.rs", "w").write(lib.replace(f'"{REPO}/src', f'"{alt}/repo/src'))
    else:
        os.symlink(REPO, f"{alt}/repo")
    t = open(f"{alt}/{crate}/Cargo.toml").read()
    assert f'"{REPO}"' in t
    open(f"{alt}/{crate}/Cargo.toml", "w").write(t.replace(f'"{REPO}"', f'"{alt}/repo"'))
    return f"{alt}/{crate}"


BASE = {}     # crate -> directory to use instead of the one in /verif/kani (see `elsewhere`)


def kani(crate, harnesses, jobs, per_harness, extra=(), tag="run", reserve=20, cwd=None):
    cwd = cwd or BASE.get(crate) or f"{KANI}/{crate}"
    shutil.copy(f"{REPO}/Cargo.lock", f"{cwd}/Cargo.lock")
    out = f"{BUILD}/{crate}.{tag}.json"
    log = f"{BUILD}/{crate}.{tag}.log"
    if os.path.exists(out):
        os.remove(out)
    cmd = ["cargo", "kani", "--lib", "--target-dir", f"{BUILD}/kt"] + FLAGS + ["--exact", "--output-format=terse", "-j", str(jobs),
           "--export-json", out, "--harness-timeout", f"{int(per_harness)}s"] + list(extra)
    for h in harnesses:
        cmd += ["--harness", h]
    cmd += CBMC.get(crate, [])
    rc = run(cmd, cwd, left() - reserve, log)
    text = open(log, errors="replace").read()
    res = {}
    if os.path.exists(out):
        try:
            d = json.load(open(out))
        except ValueError:        # stopped while writing it
            return res, text, " ".join(cmd)
        stats = {x["harness_id"]: (x.get("cbmc_stats") or {}) for x in d.get("cbmc", [])}
        for r in d["verification_results"]["results"]:
            res[r["harness_id"]] = {"checks": r.get("checks", []), "ok": r["status"] == "Success",
                                    "ms": r.get("duration_ms", 0), "solver": stats.get(r["harness_id"], {})}
        cmdline = " ".join(cmd)
        return res, text, cmdline
    return res, text, " ".join(cmd)


IGNORE_CAT = ("unwind", "cover", "unsupported_construct", "code_coverage", "reachability_check")


def classify(r):
    """ok / violated (+ failed checks) / unwind / undecided"""
    failed = [c for c in r["checks"] if c["status"] == "Failure"]
    real = []
    for c in failed:
        cat, desc = c.get("category", ""), c.get("description", "")
        if cat in IGNORE_CAT or desc.startswith("unwinding assertion") or "trusted contract" in desc or "not currently supported" in desc:
            continue
        real.append(c)
    if real:
        return "violated", real
    if any(c.get("category") == "unwind" or c.get("description", "").startswith("unwinding assertion") for c in failed):
        return "unwind", failed
    if r["ok"] and r["checks"]:
        return "ok", []
    return "undecided", failed


def suspicious(r):
    """An invalid pointer: impossible in safe Rust, so the translation is at fault."""
    return any(c["status"] == "Failure" and (c.get("category") == "safety_check" or c.get("description", "").startswith(("dereference failure", "Kani does not support reasoning about pointer to unalloc")))
               for c in r["checks"])


# ------------------------------------------------------------------ replay
def playback(crate, h, unwind):
    """The verifier's counterexamples for harness h: lists of input bytes."""
    cwd = BASE.get(crate) or f"{KANI}/{crate}"
    shutil.copy(f"{REPO}/Cargo.lock", f"{cwd}/Cargo.lock")
    log = f"{BUILD}/{crate}.playback.log"
    cmd = ["cargo", "kani", "--lib", "--target-dir", f"{BUILD}/kt"] + FLAGS + [
        "--exact", "--harness", h, "--concrete-playback=print"] + (["--unwind", str(unwind)] if unwind else []) + CBMC.get(crate, [])
    run(cmd, cwd, min(400, left() - 60), log)
    text = open(log, errors="replace").read()
    out = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S):
        vals = [int(x) for v in re.findall(r"vec!\[([^\]]*)\]", m.group(1)) for x in v.replace(" ", "").split(",") if x]
        if vals not in out:
            out.append(vals)
    return out, text


def native(crate, h, vals):
    """Run the harness natively (real winnow, no stubs) on the recorded bytes."""
    cwd = BASE.get(crate) or f"{KANI}/{crate}"
    shutil.copy(f"{REPO}/Cargo.lock", f"{cwd}/Cargo.lock")
    cmd = ["cargo", "run", "-q", "--offline", "--manifest-path", f"{cwd}/Cargo.toml", "--target-dir", f"{BUILD}/native", "--",
           h.split("::")[-1]] + [str(v) for v in vals]
    try:
        # not below /verif/kani: its cargo configuration replaces winnow
        env = dict(ENV, RUSTFLAGS="-Awarnings", RUST_BACKTRACE="0")
        p = subprocess.run(cmd, cwd=BUILD, env=env, capture_output=True, text=True, errors="replace", timeout=max(10, left() - 10))
    except subprocess.TimeoutExpired:
        return None, "timeout", " ".join(cmd)
    return p.returncode, (p.stdout + p.stderr)[-4000:], " ".join(cmd)


NONE = {"checks": [], "ok": False, "ms": 0, "solver": {}}
BROKEN = []     # (crate, compiler output) of crates that do not build


def group(crate, jobs, hs, more, results, cmds):
    """Prove the harnesses hs of one crate, with retries; fills results."""
    per = C.TIMEOUT if TIER == "quick" else 3000
    res, text, cmd = kani(crate, hs, jobs, per, more + ["--fail-fast"])
    if not res and re.search(r"^error(\[|:)", text, re.M) and crate != "leaf" and not STOP.is_set():
        BASE[crate] = elsewhere(crate, 0, widen=True)
        res, text2, cmd = kani(crate, hs, jobs, per, more + ["--fail-fast"])
        if not res:
            del BASE[crate]
            BROKEN.append((crate, text))
            print(text2[-1500:])
            return

    def clear():
        for n in (1, 2, 3):
            odd = [h for h, r in res.items() if classify(r)[0] != "ok" and suspicious(r)]
            if odd and left() > 120:
                again, _, _ = kani(crate, odd, jobs, per, more, tag=f"alt{n}", cwd=elsewhere(crate, n, crate in BASE))
                res.update(again)
    clear()
    rest = [h for h in hs if h not in res]
    if res and rest and not STOP.is_set() and not any(classify(r)[0] == "violated" for r in res.values()):
        # stopped at a harness that is merely undecided
        res2, text, _ = kani(crate, rest, jobs, per, more, tag="rest")
        res.update(res2)
        clear()
    cmds.append(re.sub(r"( --harness \S+)+", f" --harness <{len(hs)} harnesses>", cmd))
    if not res and re.search(r"^error(\[|:)", text, re.M):
        BROKEN.append((crate, text))
        return
    if not res and not STOP.is_set():
        print(text[-1500:])
    for h in hs:
        results[(crate, h)] = res.get(h, NONE)
    if any(classify(results[(crate, h)])[0] == "violated" for h in hs):
        return
    # retries: more unwinding, or less memory pressure
    for kind, j, extra in (("undecided", max(1, min(2, jobs // 3)), []), ("unwind", jobs, ["--unwind", "300"]), ("unwind", jobs, ["--unwind", "40"])):
        again = [h for h in hs if classify(results[(crate, h)])[0] == kind]
        if again and left() > 60 and not STOP.is_set():
            res, text, cmd = kani(crate, again, j, max(60, left() - 60), more + extra, tag="retry")
            for h in again:
                if h in res and classify(res[h])[0] in ("ok", "violated"):
                    results[(crate, h)] = res[h]
                    if extra:
                        results[(crate, h)]["unwind"] = extra[1]


# ------------------------------------------------------------------ main
def main():
    if len(sys.argv) != 2 or sys.argv[1] not in C.PROPS:
        print("usage: check.py " + "|".join(C.PROPS))
        sys.exit(2)
    pid = sys.argv[1]
    prepare()
    fresh()
    groups = list(C.PROPS[pid]) + (list(C.THOROUGH.get(pid, [])) if TIER == "thorough" else [])
    results, cmds, crates = {}, [], {}
    problems = []

    def evidence(violations):
        write_evidence(pid, results, crates, cmds, violations, problems)

    # Several crates: two at a time, so that one compiles while the other is being proved.
    workers = 2 if len({g[0] for g in groups}) > 1 else 1
    todo, seen = [], set()
    for crate, jobs, pats, *more in groups:
        hs = [h for h in select(crate, pats) if (crate, h) not in seen]
        if not hs:
            die(f"no harness selected in {crate}")
        seen |= {(crate, h) for h in hs}
        todo.append((crate, jobs if workers == 1 else max(1, jobs * 5 // 8), hs, list(more[0]) if more else []))
    locks = {t[0]: threading.Lock() for t in todo}

    def work(t):
        crate, jobs, hs, more = t
        with locks[crate]:
            if not STOP.is_set():
                group(crate, jobs, hs, more, results, cmds)
        if any(classify(results.get((crate, h), NONE))[0] == "violated" for h in hs):
            stop()

    with ThreadPoolExecutor(workers) as pool:
        futures = [pool.submit(work, t) for t in todo]
    violated = STOP.is_set()
    for f in futures:
        if f.exception() and not violated:
            f.result()
    STOP.clear()
    results = {(t[0], h): results.get((t[0], h), NONE) for t in todo for h in t[2] if not violated or (t[0], h) in results}
    if BROKEN and not violated:
        for crate, text in BROKEN:
            print(text[-3000:])
        evidence(0)
        die("these harness crates do not build against /repo (see above): " + ", ".join(c for c, _ in BROKEN))

    bad = [(k, classify(r)[1]) for k, r in results.items() if classify(r)[0] == "violated"]
    if bad:
        evidence(len(bad))
        report(pid, results, bad)
        sys.exit(1)
    for k, r in results.items():
        c, f = classify(r)
        if c != "ok":
            problems.append(f"{k[0]}::{k[1]}: {c} " + "; ".join(sorted({x['description'] for x in f}))[:300])
    # vacuity: every cover point is reachable in some harness
    covers = {}
    for k, r in results.items():
        for c in r["checks"]:
            if c.get("category") == "cover":
                key = (k[0], c["location"].get("line"), c["description"])
                covers[key] = covers.get(key, False) or c["status"] == "Satisfied"
    problems += [f"cover point not reachable: {k}" for k, v in covers.items() if not v]
    evidence(0)
    for line in known(pid):
        print(line)
    if problems:
        die("undecided: " + "\n  ".join(problems))
    n = sum(len(r["checks"]) for r in results.values())
    print(f"{pid}: {len(results)} harnesses, {n} obligations, all discharged, {time.time()-T0:.0f} s")
    sys.exit(0)


def known(pid):
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known:") and f"property={pid} " in l:
                out.append("KNOWN-FINDING: " + l[len("known:"):].strip())
    return out


def report(pid, results, bad):
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    path = f"{VERIF}/replays/{pid}.txt"
    bad.sort(key=lambda b: results[b[0]]["ms"])
    out, found = [], False
    for (crate, h), failed in bad:
        out.append(f"harness {crate}::{h}: failed obligations")
        for c in failed:
            l = c.get("location", {})
            out.append(f"  {c.get('description')}   [{c.get('category')}; {c.get('function')}; {l.get('file')}:{l.get('line')}]")
    for (crate, h), failed in bad[:3]:
        if left() < 120:
            out.append("(no time left for a replay)")
            break
        vals, text = playback(crate, h, results[(crate, h)].get("unwind"))
        if not vals:
            out += [f"\nverifier output for {crate}::{h} (no concrete values)", text[-3000:]]
        for v in vals[:12]:
            rc, txt, cmd = native(crate, h, v)
            out += [f"\ncounterexample for {crate}::{h}: input bytes {v}", f"replay on the real code: (cd {BUILD} && {cmd})", f"exit {rc}", txt]
            if rc == 101:
                found = True
                break
        if found:
            break
    open(path, "w").write("\n".join(out) + "\n")
    for l in out[:20]:
        print(l)
    print(f"VIOLATION property={pid} replay={path}" + ("" if found else " no-failing-input-found"))


def write_evidence(pid, results, crates, cmds, violations, problems):
    info = C.INFO.get(pid, {})
    total = passed = 0
    per, bounded = [], []
    symex = solver = 0.0
    for (crate, h), r in results.items():
        n = [c for c in r["checks"] if c.get("category") != "cover"]
        ok = [c for c in n if c["status"] != "Failure" and c["status"] not in ("Undetermined", "Unknown")]
        total += len(n)
        passed += len(ok)
        symex += r["solver"].get("runtime_symex_s", 0) or 0
        solver += r["solver"].get("runtime_decision_procedure_s", 0) or 0
        b = next((why for pat, why in C.BOUNDED if fnmatch.fnmatch(f"{crate}::{h}", pat)), None)
        if b:
            bounded.append(f"{crate}::{h}: {b}")
        per.append({"harness": f"{crate}::{h}", "status": classify(r)[0], "obligations": len(n), "discharged": len(ok),
                    "seconds": round(r["ms"] / 1000, 1), "kind": "bounded" if b else "complete", "bound": b})
    cov = {
        "obligations": total, "discharged": passed,
        "checker_cmd": " && ".join(cmds),
        "trusted_base": C.TRUSTED + info.get("trusted", []),
        "backend": "Kani 0.68 / CBMC 6.11 symbolic execution, CaDiCaL",
        "functions_under_contract": info.get("functions", []),
        "callee_contracts_used": info.get("callees", []),
        "harnesses": per,
        "harnesses_complete": sum(1 for p in per if p["kind"] == "complete"),
        "harnesses_bounded": len(bounded),
        "bounded": bounded,
        "symex_s": round(symex, 1), "decision_s": round(solver, 1),
        "undecided": problems,
    }
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov,
          "assumptions": C.ASSUMPTIONS + info.get("assumptions", []),
          "wall_s": round(time.time() - T0, 1), "violations": violations}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)


if __name__ == "__main__":
    main()
