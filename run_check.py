#!/usr/bin/env python3
"""Run the check of one property.

    run_check.py ID quick|thorough        decide the property on /repo's current working tree
    run_check.py --replay FILE            run one recorded failing case again
    run_check.py --list                   what is registered

Builds the library from /repo's sources together with a workload-and-monitor program from /verif/harness, under the
sanitizers, into a private temporary directory, runs the registered sections on all cores, and writes
/verif/evidence/<ID>.json.  Exit 0: held on everything explored.  Exit 1: a line VIOLATION property=... replay=...
Exit 2: the check itself could not run.
"""
import glob, json, os, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import spec  # noqa: E402

QUICK = 3  # quick runs: multiple of each parallel section's count
JOBS = 8
COMMON = "-std=gnu11 -g -fno-omit-frame-pointer -w"
SAN = "-fsanitize=address,undefined -fno-sanitize=pointer-overflow -fno-sanitize-recover=all"
WRAP = "-DWRAP_ALLOC -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=remove,--wrap=rmdir,--wrap=unlink,--wrap=rename"
# flavours of the same sources: instrumented debug build, instrumented release build (guards compiled out),
# the optimisation level users ship, and an uninitialised-memory build
FLAVOURS = {
    "asan": ("clang", f"{COMMON} -O1 {SAN}", WRAP),
    "asan-ndebug": ("clang", f"{COMMON} -O1 -DNDEBUG {SAN}", WRAP),
    "gcc-o2": ("gcc", f"{COMMON} -O2 -fsanitize=address,undefined -fno-sanitize=pointer-overflow -fno-sanitize-recover=all", WRAP),
    "msan": ("clang", f"{COMMON} -O1 -fsanitize=memory -fsanitize-memory-track-origins=1 -fno-sanitize-recover=all", ""),
    "tsan": ("clang", f"{COMMON} -O1 -DNDEBUG -fsanitize=thread", WRAP),
    "tsan-o0": ("clang", f"{COMMON} -O0 -DNDEBUG -fsanitize=thread", WRAP),
    "o2": ("gcc", f"{COMMON} -O2", WRAP),
    "o2-ndebug": ("gcc", f"{COMMON} -O2 -DNDEBUG", WRAP),
}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(work, needed):
    """needed: set of (harness, flavour) -> {key: path}"""
    srcs = sorted(glob.glob(f"{REPO}/src/**/*.c", recursive=True))
    if not srcs:
        raise CheckError("no sources under /repo/src")
    jobs, libs, exes = [], {}, {}
    for fl in sorted({f for _, f in needed}):
        cc, cf, _ = FLAVOURS[fl]
        d = os.path.join(work, "lib-" + fl)
        os.makedirs(d)
        libs[fl] = []
        for i, s in enumerate(srcs):
            o = os.path.join(d, f"{i}.o")
            libs[fl].append(o)
            jobs.append(f"{cc} {cf} -I{REPO}/inc -c {s} -o {o}")
        jobs.append(f"{cc} {cf} {FLAVOURS[fl][2].split(' ')[0]} -I{VERIF}/harness -I{REPO}/inc -c {VERIF}/harness/h.c -o {d}/h.o")
    for h, fl in sorted(needed):
        cc, cf, _ = FLAVOURS[fl]
        jobs.append(f"{cc} {cf} -I{VERIF}/harness -I{REPO}/inc -c {VERIF}/harness/{h}.c -o {work}/{h}-{fl}.o")
    links = []
    for h, fl in sorted(needed):
        cc, cf, wr = FLAVOURS[fl]
        exe = os.path.join(work, f"{h}-{fl}")
        d = os.path.join(work, "lib-" + fl)
        links.append(f"{cc} {cf} {wr} {work}/{h}-{fl}.o {d}/h.o {' '.join(libs[fl])} -o {exe} -lm -lpthread")
        exes[(h, fl)] = exe
    with ThreadPoolExecutor(JOBS) as ex:
        for batch in (jobs, links):
            for cmd, r in zip(batch, ex.map(lambda c: sh(["bash", "-c", c]), batch)):
                if r.returncode:
                    raise CheckError(f"build failed: {cmd}\n{r.stdout[-3000:]}")
    return exes


def read_status(path):
    try:
        b = open(path, "rb").read()
        magic, cur, inc = struct.unpack("3Q", b[:24])
        if magic != 0x56455249:
            return None
        fail = b[24:1624].split(b"\0")[0].decode(errors="replace")
        n = struct.unpack("Q", b[1624:1632])[0]
        tr = [b[1632 + (i % 64) * 400:][:400].split(b"\0")[0].decode(errors="replace") for i in range(max(0, n - 64), n)]
        return {"case": cur, "in_case": inc, "fail": fail, "trace": tr}
    except (OSError, struct.error):
        return None


def run_unit(work, exe, tag, section, seed, start, count, maxs, tier, case_s, env_extra):
    d = os.path.join(work, "run", tag)
    if os.path.isdir(d):
        cleanup(d)
    os.makedirs(d + "/scratch")
    os.chmod(d, 0o777)
    os.chmod(d + "/scratch", 0o777)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "LSAN_", "MSAN_"))}
    env.update(TZ="UTC", LANG="C", LC_ALL="C", VERIF_CASE_SECONDS=str(case_s), HOME=d + "/scratch")
    env.update(env_extra)
    out, status = d + "/out.json", d + "/status"
    cmd = [exe, section, str(seed), str(start), str(count), str(maxs), out, status, d + "/scratch", tier]
    with open(d + "/stdout", "wb") as so, open(d + "/stderr", "wb") as se:
        p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=env, cwd=d + "/scratch", start_new_session=True)
        try:
            rc = p.wait(timeout=maxs + 4 * case_s + 60)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    res = {"tag": tag, "rc": rc, "dir": d, "cmd": cmd, "stderr": tail(d + "/stderr"), "status": read_status(status)}
    if rc == 0:
        try:
            res["summary"] = json.load(open(out))
            hb = open(out + ".hashes", "rb").read()
            res["hashes"] = set(struct.unpack(f"{len(hb) // 8}Q", hb))
        except (OSError, ValueError) as e:
            res["rc"] = f"no summary ({e})"
    return res


def tail(path, n=6000):
    try:
        b = open(path, "rb").read()
        return b[:n].decode(errors="replace") if len(b) <= n else (b[:n // 2] + b"\n...\n" + b[-n // 2:]).decode(errors="replace")
    except OSError:
        return ""


def cleanup(d):
    subprocess.run(["chmod", "-R", "u+rwx", d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    shutil.rmtree(d, ignore_errors=True)


def describe(r):
    s = r["status"] or {}
    if r["rc"] == 77:
        return "oracle: " + s.get("fail", "?")
    if r["rc"] == 78 or r["rc"] == "timeout":
        return "the case did not finish (hang)"
    if r["rc"] == 99:
        first = [l for l in r["stderr"].splitlines() if "ERROR:" in l or "runtime error" in l or "WARNING:" in l]
        return "sanitizer: " + (first[0].strip() if first else "report")
    if isinstance(r["rc"], int) and r["rc"] < 0:
        return f"process killed by signal {-r['rc']}"
    last = [l for l in r["stderr"].splitlines() if l.strip()]
    return f"process ended unexpectedly (exit {r['rc']})" + (f": {last[-1].strip()}" if last else "")


def confirm(work, exe, unit, r, tier, case_s, seed):
    """Decide whether a failing unit is a real violation: it has to fail again, alone or as the same run."""
    st = r["status"]
    env = unit.get("env", {})
    if r["rc"] == 3:
        raise CheckError(f"harness error: {r['stderr'][-2000:]}")
    if st and st["in_case"]:
        for k in range(2):
            r2 = run_unit(work, exe, r["tag"] + f"-alone{k}", unit["section"], seed, st["case"], 1, 60, tier, max(60, 2 * case_s), env)
            if r2["rc"] != 0:
                return r2, f"case {st['case']} alone"
    for k in range(2):
        r2 = run_unit(work, exe, r["tag"] + f"-again{k}", unit["section"], seed, r["start"], r["count"], r["maxs"], tier, case_s, env)
        if r2["rc"] not in (0, 3):
            return r2, "same run again"
    if unit.get("timing") or r["rc"] in (78, "timeout"):
        return None, "not reproduced"
    return r, "first run (not reproduced again)"


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--list":
        for p in spec.PROPS:
            print(p["id"], p["title"], [u["harness"] + "/" + u["section"] for u in p["units"]])
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) != 3 or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    pid, tier = sys.argv[1], sys.argv[2]
    prop = {p["id"]: p for p in spec.PROPS}.get(pid)
    if not prop:
        print("unknown property", pid)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix=f"vita-verif-{pid}-")
    os.chmod(work, 0o755)
    try:
        return check(prop, tier, seed, work)
    except CheckError as e:
        print("CHECK ERROR:", e)
        return 2
    finally:
        cleanup(work)


def check(prop, tier, seed, work):
    pid = prop["id"]
    t0 = time.time()
    units = [u for u in prop["units"] if tier == "thorough" or not u.get("thorough_only")]
    needed = {(u["harness"], u.get("flavour", "asan")) for u in units}
    exes = build(work, needed)
    tb = time.time() - t0
    known = load_known(pid)
    tasks = []
    budget = prop.get("thorough_s", 600) / max(1, len(units)) if tier == "thorough" else None
    for ui, u in enumerate(units):
        total = u["count"] * (1 if u.get("serial") else prop.get("quick", QUICK)) if tier == "quick" else u["count"] * u.get("scale", 40)
        if u.get("fixed"):
            total = u["count"]
        maxs = u.get("max_s", 40) if tier == "quick" else max(budget, u.get("max_s", 40))
        nw = 1 if u.get("serial") else min(JOBS, total)
        per = -(-total // nw)
        for w in range(nw):
            tasks.append((ui, u, w, w * per, min(per, total - w * per), maxs))
    case_s = 20 if tier == "quick" else 60

    def go(t):
        ui, u, w, start, count, maxs = t
        fl = u.get("flavour", "asan")
        if count <= 0:
            return None
        r = run_unit(work, exes[(u["harness"], fl)], f"{ui}-{w}", u["section"], seed, start, count, maxs, tier, u.get("case_s", case_s), u.get("env", {}))
        r.update(unit=u, start=start, count=count, maxs=maxs)
        return r

    results, violations, notes = [], [], []
    parallel = [t for t in tasks if not t[1].get("serial")]
    serial = [t for t in tasks if t[1].get("serial")]
    with ThreadPoolExecutor(JOBS) as ex:
        results += [r for r in ex.map(go, parallel) if r]
    results += [r for r in map(go, serial) if r]
    confirmed_sections = set()
    for r in results:
        if r["rc"] == 0:
            continue
        u = r["unit"]
        key = (u["section"], u.get("flavour", "asan"))
        if len(violations) >= 3 or key in confirmed_sections:
            continue
        rr, how = confirm(work, exes[(u["harness"], u.get("flavour", "asan"))], u, r, tier, u.get("case_s", case_s), seed)
        if rr is None:
            notes.append(f"{u['section']}: {describe(r)} did not happen again; not counted")
            continue
        confirmed_sections.add(key)
        violations.append((u, rr, how))
    agg_ev, samples, evals, cases, hashes, per_section = {}, [], 0, 0, {}, {}
    for r in results:
        if r["rc"] != 0:
            continue
        s = r["summary"]
        u = r["unit"]
        name = f"{u['section']}[{u.get('flavour', 'asan')}]"
        ps = per_section.setdefault(name, {"cases": 0, "oracle_evaluations": 0})
        ps["cases"] += s["cases"]
        ps["oracle_evaluations"] += s["evaluations"]
        cases += s["cases"]
        evals += s["evaluations"]
        for k, v in s["events"].items():
            agg_ev[k] = agg_ev.get(k, 0) + v
        hashes.setdefault(u["section"], set()).update(r["hashes"])
        samples += s["samples"][:3]
    if not violations and (cases == 0 or evals == 0):
        raise CheckError("the monitors observed nothing: " + "; ".join(f"{r['rc']} {r['stderr'][-300:]}" for r in results if r["rc"] != 0))
    nd = sum(len(h) for h in hashes.values())
    uniq = []
    for s in samples:
        if s not in uniq:
            uniq.append(s)
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": prop["level"],
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": nd, "rule": prop["rule"], "samples": uniq[:12] or ["(no sample: see violations)"],
            "oracle_evaluations": evals, "observed_events": dict(sorted(agg_ev.items())), "sections": per_section,
        },
        "assumptions": prop.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if notes:
        evid["coverage"]["notes"] = notes
    if prop.get("exhaustive") and not violations:
        evid["coverage"]["exhaustive_part"] = prop["exhaustive"]
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(evid, f, indent=1)
    for n in notes:
        print("note:", n)
    for line in known:
        print(line)
    print(f"{pid} {tier}: {cases} cases, {evals} oracle evaluations, {nd} distinct, build {tb:.1f}s, total {time.time() - t0:.1f}s")
    if not violations:
        return 0
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    for i, (u, r, how) in enumerate(violations):
        st = r["status"] or {}
        rp = f"{VERIF}/replays/{pid}-{u['section']}-{i}.json"
        with open(rp, "w") as f:
            json.dump({"property": pid, "harness": u["harness"], "section": u["section"], "flavour": u.get("flavour", "asan"), "env": u.get("env", {}),
                       "seed": seed, "tier": tier, "case": st.get("case", 0), "start": r["cmd"][3], "count": r["cmd"][4], "reproduced": how,
                       "reason": describe(r), "operations": st.get("trace", []), "stderr": r["stderr"][-4000:]}, f, indent=1)
        print(f"  {u['section']}: {describe(r)}")
        for t in st.get("trace", [])[-12:]:
            print("     ", t)
        print(f"VIOLATION property={pid} replay={rp}")
    return 1


def load_known(pid):
    out = []
    try:
        for l in open(f"{VERIF}/known_findings.txt"):
            if l.startswith(f"finding: property={pid} "):
                out.append("KNOWN-FINDING: " + l[len("finding: "):].strip())
    except OSError:
        pass
    return out


def replay(path):
    j = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vita-verif-replay-")
    os.chmod(work, 0o755)
    try:
        exe = build(work, {(j["harness"], j["flavour"])})[(j["harness"], j["flavour"])]
        for start, count in ((j["case"], 1), (int(j["start"]), int(j["count"]))):
            r = run_unit(work, exe, "replay", j["section"], j["seed"], start, count, 120, j["tier"], 60, j.get("env", {}))
            if r["rc"] != 0:
                print(f"case {start} (+{count}):", describe(r))
                for t in (r["status"] or {}).get("trace", [])[-30:]:
                    print("   ", t)
                print(r["stderr"][-4000:])
                print(f"VIOLATION property={j['property']} replay={path}")
                return 1
        print("not reproduced")
        return 0
    except CheckError as e:
        print("CHECK ERROR:", e)
        return 2
    finally:
        cleanup(work)


if __name__ == "__main__":
    sys.exit(main())
