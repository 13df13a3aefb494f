#!/usr/bin/env python3
"""Driver of the checks:  vf.py setup | check Cxx [quick|thorough] | replay FILE | determinism Cxx

check: builds the simulator and the modules from /repo's working tree, runs the seeds of the tier in parallel
workers, confirms and minimises what fails, writes evidence/Cxx.json. Exit 0: held, 1: VIOLATION, 2: no answer."""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
import vfbuild as B

HERE = B.HERE
WORKERS = 8
QUICK_CAP = 300     # seconds of simulation after which a quick check stops early
THOROUGH = float(os.environ.get("VF_THOROUGH_SECONDS", "600"))

HOST = ("plain",)
# flavours of the host modules, emulated parts, sanitised simulator
PROPS = {
    "C01": dict(flavours=["plain"], arm=["m4", "m0"]),
    "C02": dict(flavours=["plain"], arm=["m4", "m0"]),
    "C03": dict(flavours=["plain"], arm=["m4", "m0"]),
    "C04": dict(flavours=["plain"], arm=["m4"]),
    "C05": dict(flavours=["inst"], arm=["m4", "m0"], parts=["e"]),
    "C06": dict(flavours=["inst"], arm=["m4", "m0"], parts=["e"]),
    "C07": dict(flavours=["plain"], nondet=True, arm=["m4", "m0"], parts=["e"]),
    "C08": dict(flavours=["plain", "asan"], asan=True, arm=["m4", "m0"], parts=["e"]),
    "C09": dict(flavours=["lib"]),
    "C10": dict(flavours=["plain"], only=["ref-Saber", "avx-Saber", "uavx-Saber", "uref-Saber", "x4-Saber"]),
    "C11": dict(flavours=["plain"], only=["ref-Saber", "avx-Saber", "uavx-Saber", "uref-Saber", "x4-Saber"]),
    "C12": dict(flavours=["plain", "inst"], arm=["m4", "m0"], parts=["i"]),
    "C13": dict(flavours=["plain"], only=["x4-"]),
    "C14": dict(flavours=["asm", "inst"], arm=["m4", "m0"], parts=["e"]),
    "C15": dict(flavours=[], arm=["m4"]),
    "C16": dict(flavours=[], arm=["m0"]),
    "C17": dict(flavours=[], arm=["m0", "m0mem", "m0per"]),
    "C20": dict(flavours=["plain", "inst"], only=["ref-Saber", "avx-Saber", "x4-", "uref-Saber", "uavx-Saber"], arm=["m0"], parts=["i"]),
}
HOST_REAL = ["all C and assembly-free vector code of the five host trees (25 configurations), compiled from /repo with the project's flags"]
M4_REAL = ["Cortex-M4 machine code of both trees at three security levels, with 13-bit and 4-bit secret keys"]
M0_REAL = ["Cortex-M0 firmware machine code"]
M4_STUB = ["hash functions and randombytes of pqm4 (not in this repository)", "Cortex-M4 core (instruction-set simulator)"]
M0_STUB = ["Cortex-M0 core, timer, serial line, generator, clock tree (simulated)"]
REAL = {"*": dict(real=HOST_REAL + M4_REAL + M0_REAL + ["OpenSSL"], stub=["network, key storage, process crash and restart (simulated)", "system randomness (seeded stream)"] + M4_STUB + M0_STUB)}
REAL["C04"] = dict(real=HOST_REAL + M4_REAL + ["OpenSSL"], stub=["key storage, restart (simulated)", "system randomness (seeded stream)"] + M4_STUB)
for _p in ("C05", "C06", "C14"):
    REAL[_p] = dict(real=["the host trees compiled with access and block instrumentation", *M4_REAL, *M0_REAL, "OpenSSL (not preempted inside)"],
                    stub=["thread scheduler (fibers switched at instrumented accesses)", "system randomness (seeded stream)"] + M4_STUB + M0_STUB)
REAL["C14"] = dict(real=["machine code of the host trees with the project's flags, with reports inserted in its assembly", "the host trees compiled with access and block instrumentation", *M4_REAL, *M0_REAL, "OpenSSL (not traced)"],
                   stub=["system randomness (seeded stream)", "heap (deterministic addresses)"] + M4_STUB + M0_STUB)
REAL["C09"] = dict(real=HOST_REAL + ["OpenSSL, except for the calls that are told to fail"], stub=["allocator and library calls that fail", "abort and exit (recorded)", "system randomness (seeded stream)"])
REAL["C10"] = REAL["C11"] = dict(real=["rng.c of every tree", "OpenSSL"], stub=["crash and restart, stored state (simulated)"])
REAL["C13"] = dict(real=["Variants/SaberX4_avx2", "OpenSSL"], stub=["system randomness (seeded stream)"])
REAL["C15"] = dict(real=M4_REAL, stub=M4_STUB + ["interrupt handlers"])
REAL["C20"] = dict(real=["the hash, extendable-output and keystream code of the host trees, with the project's flags and instrumented", *M0_REAL], stub=["Cortex-M0 core (simulated)", "interrupts and abandonment (simulated)"])
REAL["C16"] = REAL["C17"] = dict(real=M0_REAL, stub=M0_STUB)


def known_findings():
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(\S+) (.*)$", line)
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


class NoAnswer(Exception):
    pass


def build(prop):
    spec = PROPS[prop]
    os.makedirs(B.BUILD, exist_ok=True)
    asan = spec.get("asan", False)
    pairs = []
    for c in B.host_configs() if spec["flavours"] else []:
        if "only" in spec and not any(c["id"].startswith(o) for o in spec["only"]):
            continue
        for f in spec["flavours"]:
            pairs.append((c, f))
    arm = B.arm_jobs(spec.get("arm", []))
    sims = [B.build_sim()] + ([B.build_sim(asan=True)] if asan else [])
    mods = B.build_set(pairs, arm)
    return sims, mods


def sim_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("ASAN_", "UBSAN_", "LD_", "MALLOC_", "GLIBC_TUNABLES", "OPENSSL_", "SIM_")):
            del e[k]
    e["ASAN_OPTIONS"] = "halt_on_error=0:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:allow_user_segv_handler=1:allocator_may_return_null=1:log_path=/dev/null"
    e["OPENSSL_CONF"] = "/dev/null"
    e["LC_ALL"] = "C"
    return e


def replay(sim, mods, path, timeout=180, verbose=False):
    """(failed, hash, kind, detail); a process that dies or hangs is a failure, too"""
    cmd = [sim, "replay", path, "--mods", mods] + (["--verbose", "1"] if verbose else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=sim_env(), timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "timeout", "hang", "the replay did not end within %d s" % timeout
    out = r.stdout.decode(errors="replace")
    m = re.search(r"^REPLAY failed=(\d) hash=(\w+) kind=(.*)\ndetail=(.*)$", out, re.M)
    if verbose:
        sys.stdout.write(out)
    if not m:
        raise NoAnswer("replay of %s ended with %d: %s" % (path, r.returncode, r.stderr.decode(errors="replace")[-500:]))
    return m.group(1) == "1", m.group(2), m.group(3), m.group(4)


def confirm(sim, mods, prop, plan_text, work, rerun):
    """Replays a failing plan in fresh processes, minimises it and returns (path, kind, detail) or None."""
    p = os.path.join(work, "failing.plan")
    open(p, "w").write(plan_text)
    first = replay(sim, mods, p)
    tries = [first] + [replay(sim, mods, p) for _ in range(2)]
    stable = all(t[0] and t[1] == first[1] for t in tries)
    name = "%s-%s.plan" % (prop, hashlib.sha256(plan_text.encode()).hexdigest()[:12])
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    final = os.path.join(HERE, "replays", name)
    if not stable:
        if not any(t[0] for t in tries):
            tries += [replay(sim, mods, p) for _ in range(8)]
        bad = [t for t in tries if t[0]]
        if not bad:
            return rerun(final)
        with open(final, "w") as f:
            f.write("# the outcome varies between identical runs: the code under test is not deterministic\n# kind %s\n# detail %s\n" % bad[0][2:] + plan_text)
        return final, bad[0][2], bad[0][3] + " (outcome varies between identical runs)"
    mp = os.path.join(work, "min.plan")
    kind, detail = first[2], first[3]
    try:
        r = subprocess.run([sim, "minimise", p, "--mods", mods, "--budget", "40", "--out", mp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=sim_env(), timeout=240)
        if r.returncode == 0:
            a, b = replay(sim, mods, mp), replay(sim, mods, mp)
            if a[0] and b[0] and a[1] == b[1] and a[2] == kind:
                shutil.copy(mp, final)
                return final, a[2], a[3]
    except subprocess.TimeoutExpired:
        pass
    with open(final, "w") as f:
        f.write("# kind %s\n# detail %s\n# hash %s\n" % (kind, detail, first[1]) + plan_text)
    return final, kind, detail


def run_workers(sim, mods, prop, seed, tier, budget, work, tag, stop_early=False, extra=()):
    """stop_early: as soon as one worker has found something, the others are stopped"""
    procs = []
    for w in range(WORKERS):
        b = os.path.join(work, "%s%d" % (tag, w))
        cmd = [sim, "run", "--prop", prop, "--seed", str(seed), "--first", str(w), "--stride", str(WORKERS), "--tier", tier,
               "--budget", str(budget), "--out", b + ".json", "--current", b + ".cur", "--distinct", b + ".dis", "--mods", mods, *extra]
        procs.append((w, b, subprocess.Popen(cmd, stdout=open(b + ".log", "w"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=sim_env())))
    out = []
    end = time.time() + budget + 150
    left, stopped = list(procs), set()
    while left and time.time() < end:
        time.sleep(0.05)
        for w, b, p in [x for x in left if x[2].poll() is not None]:
            left = [x for x in left if x[0] != w]
            found = p.returncode != 0
            if not found and os.path.exists(b + ".json"):
                d = json.load(open(b + ".json"))
                found = "fail" in d
            if found and stop_early:
                for w2, _, p2 in left:
                    stopped.add(w2)
                    p2.kill()
                    p2.wait()
                left = []
                break
    for w, b, p in procs:
        if w in stopped:
            continue
        if p.poll() is None:
            p.kill()
            p.wait()
        d = None
        if os.path.exists(b + ".json") and p.returncode == 0:
            d = json.load(open(b + ".json"))
        log = open(b + ".log", errors="replace").read()[-800:]
        out.append((w, b, p.returncode, d, log))
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    sims, mods = build(prop)
    tb = time.time() - t0
    if tier == "quick":
        budget = spec.get("cap", QUICK_CAP)
    else:
        budget = THOROUGH
    work = tempfile.mkdtemp(prefix="run-", dir=B.BUILD)
    known = [k for k in known_findings() if k[0] == prop]
    seen_known = set()
    violation = None
    tot = dict(runs=0, sim_time=0, twice=0, nondet=0, capped=False)
    faults, ops, probes, samples, distinct, rules = {}, {}, {}, [], set(), []
    hashes = []
    try:
        parts = [(prop, sims[0])] + [(prop + x, sims[0]) for x in spec.get("parts", [])] + ([(prop + "a", sims[1])] if len(sims) > 1 else [])
        for si, (p2, sim) in enumerate(parts):
            if violation:
                break
            for w, b, rc, d, log in run_workers(sim, mods, p2, seed, tier, budget / len(parts), work, "w%d-" % si, stop_early=not known):
                plan = None
                if d is None:
                    cur = b + ".cur"
                    if not os.path.exists(cur):
                        raise NoAnswer("worker %d ended with %s before its first run: %s" % (w, rc, log))
                    plan = open(cur).read()
                else:
                    for k in ("runs", "sim_time", "twice", "nondet"):
                        tot[k] += d[k]
                    tot["capped"] |= d["capped"]
                    hashes.append(d["hash"])
                    for src, dst in ((d["faults"], faults), (d["ops"], ops), (d["probes"], probes)):
                        for k, v in src.items():
                            dst[k] = dst.get(k, 0) + v
                    if d["rule"] not in rules:
                        rules.append(d["rule"])
                    if len(samples) < 6:
                        samples += d["samples"][:1]
                    raw = open(b + ".dis", "rb").read() if os.path.exists(b + ".dis") else b""
                    distinct.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
                    if "fail" in d:
                        plan = d["fail"]["plan"]
                    elif d["nondet"] and spec.get("nondet"):
                        plan = d["nondet_plan"]
                if plan is None or violation:
                    continue

                def rerun(final, w=w, p2=p2, sim=sim, d=d):
                    # fails only after the worker's earlier runs: repeat the whole sequence
                    idx = d["fail"]["index"] if d and "fail" in d else None
                    if idx is None:
                        return None
                    out = os.path.join(work, "again.json")
                    cmd = [sim, "run", "--prop", p2, "--seed", str(seed), "--first", str(w), "--stride", str(WORKERS), "--tier", tier, "--budget",
                           str(budget + 60), "--count", str(idx + 1), "--out", out, "--mods", mods]
                    subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=sim_env(), timeout=budget + 120)
                    e = json.load(open(out))
                    if "fail" not in e:
                        return None
                    open(final, "w").write("# sequence: %s\n# kind %s\n# detail %s\n%s" % (" ".join(cmd[1:]), e["fail"]["kind"], e["fail"]["detail"], e["fail"]["plan"]))
                    return final, e["fail"]["kind"], e["fail"]["detail"]

                if d is not None and d["nondet"] and "fail" not in d:
                    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                    final = os.path.join(HERE, "replays", prop + "-nondet.plan")
                    open(final, "w").write("# two runs of this plan give different results\n" + plan)
                    violation = (final, "nondeterminism", "the same inputs and random bytes gave different results in two runs")
                    continue
                got = confirm(sim, mods, prop, plan, work, rerun)
                if got is None:
                    raise NoAnswer("a failure (%s) could not be reproduced" % (d["fail"]["detail"] if d and "fail" in d else "worker ended with %s" % rc))
                k = [x for x in known if x[1] == got[1] and re.search(x[2], got[2])]
                if k:
                    seen_known.add(k[0])
                else:
                    violation = got
        runs = tot["runs"]
        wall = time.time() - t0
        cov = dict(
            evaluations=runs, distinct_nontrivial=len(distinct), rule="; ".join(rules), samples=samples[:6],
            operations=ops, operations_total=sum(ops.values()), faults_injected=faults, faults_total=sum(faults.values()), probes=probes,
            simulated_time_units=tot["sim_time"], runs_per_hour=int(runs * 3600 / max(0.001, wall - tb)), seeds="VERIF_SEED=%d, run indices 0..%d" % (seed, runs),
            determinism=dict(plans_run_twice=tot["twice"], different=tot["nondet"], history_hashes=hashes),
            stopped_by_time_limit=tot["capped"], workers=WORKERS, build_seconds=round(tb, 1), components=REAL.get(prop, REAL.get("*", {})))
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2),
                  assumptions=["gcc 13 on this machine stands for the user's compiler", "OpenSSL's AES, SHA-2 and SHA-3 are right",
                               "sampling: a clean batch is evidence, not proof"],
                  violations=1 if violation else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        json.dump(ev, open(tmp, "w"), indent=1, sort_keys=True)
        os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    print("%s %s: %d runs, %d distinct, %d operations, %d faults, %.0f s (%.0f s build), nondeterministic %d" %
          (prop, tier, tot["runs"], len(distinct), sum(ops.values()), sum(faults.values()), time.time() - t0, tb, tot["nondet"]))
    if violation:
        print("%s: %s" % (violation[1], violation[2]))
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    return 0


def main():
    sys.stdout.reconfigure(line_buffering=True)
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "check":
            tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
            try:
                return check(a[1], tier)
            except B.BuildError:
                raise
            except Exception as e:  # a worker lost to the machine rather than to the code under test: once more
                print("once more: %s: %s" % (type(e).__name__, e))
                return check(a[1], tier)
        if a[0] == "setup":
            os.makedirs(B.BUILD, exist_ok=True)
            sim = B.build_sim()
            return subprocess.run([sim, "selftest", os.path.join(B.REPO, "KAT")], env=sim_env()).returncode
        if a[0] == "replay":
            prop = re.search(r"^prop (\S+)", open(a[1]).read(), re.M).group(1)
            base = prop[:3]
            sims, mods = build(base)
            f = replay(sims[1] if prop.endswith("a") else sims[0], mods, a[1], verbose=True)
            if f[0]:
                print("VIOLATION property=%s replay=%s" % (base, a[1]))
            return 1 if f[0] else 0
    except Exception as e:  # never mistaken for a violation
        print("NO ANSWER: %s: %s" % (type(e).__name__, e))
        return 2
    return 2


if __name__ == "__main__":
    sys.exit(main())
