#!/usr/bin/env python3
"""Decides one property of /repo by model checking and trace validation with TLC.

    check.py PROPERTY [quick|thorough]
    check.py PROPERTY --replay FILE     validates a recorded session again

1. model checks the specification with small constants (laws, invariants),
2. lets TLC generate behaviours where the check has a generator,
3. compiles the harness from /repo's working tree, replays the generated behaviours and the harness's own systematic and
   seeded drivers in the real code, recording one event per call,
4. lets TLC decide whether each recorded trace is a behaviour of the specification.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from registry import CHECKS  # noqa: E402

REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VP_JOBS", "8"))
T0 = time.time()


class CheckError(Exception):
    pass


def note(msg):
    print("[%6.1f] %s" % (time.time() - T0, msg), flush=True)


def run(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=e, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return 124, out


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, work, timeout, workers=1, extra=(), env=None, heap="1400m"):
    """Runs TLC on spec/module.tla in its own metadata directory."""
    tag = hashlib.sha1(repr((module, cfg, extra, env, time.time(), os.getpid())).encode()).hexdigest()[:10]
    meta = os.path.join(work, "tlc_" + tag)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xss16m", "-Xmx" + heap,
           "-XX:TieredStopAtLevel=4", "-cp", JAR + ":" + DEPS, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-config", os.path.join(SPEC, cfg), "-noGenerateSpecTE",
           *extra, os.path.join(SPEC, module + ".tla")]
    rc, out = run(cmd, timeout, cwd=meta, env=env)
    shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(s for s in out.splitlines() if not s.startswith(("Parsing file", "Semantic processing")))
    return rc, out


def tlc_states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(mod, cfg, work, timeout, plain=False):
    """Exhaustive run; returns (states, transitions, {action: count}).  Plain: the model prints its actions by itself, where
    TLC's coverage statistics of deeply nested operators take too much memory."""
    rc, out = tlc(mod, cfg, work, timeout, workers=max(2, JOBS // 2), extra=() if plain else ("-coverage", "1"), heap="6g")
    if rc != 0:
        raise CheckError("model %s/%s failed (rc=%d):\n%s" % (mod, cfg, rc, out[-4000:]))
    gen, dist = tlc_states(out)
    acts = {}
    for name, d, g in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
        acts[name] = acts.get(name, 0) + int(g)
    for name in re.findall(r'^"VPACT (\w+)"', out, re.M):
        acts[name] = acts.get(name, 0) + 1
    return dist, gen, acts


# ---------------------------------------------------------------- traces
def validate(module, trace, work, timeout):
    """(accepted, consumed, total, states, transitions)"""
    rc, out = tlc(module, module + ".cfg", work, timeout, env={"TRACE": trace})
    m = re.search(r"\"VPTRACE\", (\d+), (\d+)", out)
    gen, dist = tlc_states(out)
    if not m:
        inv = re.search(r"Error: (Invariant|Action property) (\w+) is violated", out)
        if inv:
            # A property of the specification fails in a state the implementation was observed in.
            n = len(re.findall(r"^State \d+:", out, re.M))
            return False, max(0, n - 1), -1, dist, gen
        if re.search(r"Overflow when computing|Attempted to|outside the domain|The error occurred when TLC was evaluating", out):
            # The event is no member of what the specification ranges over: its judgement cannot even be evaluated.
            n = len(re.findall(r"^State \d+:", out, re.M))
            if n:
                note("evaluation error: %s" % " ".join(re.findall(r"^Error: .*", out, re.M))[:400])
                return False, max(0, n - 1), -1, dist, gen
        raise CheckError("trace validation with %s failed (rc=%d):\n%s" % (module, rc, out[-5000:]))
    consumed, total = int(m.group(1)), int(m.group(2))
    return consumed == total, consumed, total, dist, gen


def compile_part(check, name, defs, work, flags, incdirs=()):
    exe = os.path.join(work, "h_" + name)
    src = os.path.join(ROOT, "harness", check["harness"] + ".cpp")
    cmd = ["g++", "-std=gnu++20", *flags, "-w", "-I", os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3",
           "-I", os.path.join(ROOT, "harness"), *["-D" + d for d in defs], src, "-o", exe]
    rc, out = run(cmd, 800)
    if rc != 0:
        raise CheckError("compilation of %s (%s) failed:\n%s" % (src, name, out[:4000]))
    return exe


HARNESS_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:"
                    "detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=0",
    "VP_RUN": "1",
}


def run_harness(exe, trace, seed, tier, shard, shards, script, timeout):
    cmd = [exe, trace, str(seed), tier, str(shard), str(shards)]
    if script:
        cmd.append(script)
    rc, out = run(cmd, timeout, env=HARNESS_ENV)
    m = re.search(r"VPSTATS (.*)", out)
    stats = {}
    if m:
        for kv in m.group(1).split():
            k, v = kv.split("=")
            stats[k] = int(v)
    if rc == 0 and m:
        return stats, None
    # The library ended the process (or hung): an observation like any other, which no specification allows.
    why = "timeout" if rc == 124 else "exit %d" % rc
    text = " ".join(re.findall(r"[\x20-\x7e]+", out))[:300].replace("\\", "/").replace('"', "'")
    data = b""
    if os.path.exists(trace):
        with open(trace, "rb") as f:
            data = f.read()
        data = data[:data.rfind(b"\n") + 1]
    with open(trace, "wb") as f:
        f.write(data)
        f.write((json.dumps({"op": "Crash", "why": why, "text": text}) + "\n").encode())
    return stats, why + ": " + text


def session_of(lines, idx):
    """The events from the last Begin up to and including line idx."""
    b = idx
    while b > 0 and not lines[b].startswith('{"op":"Begin"'):
        b -= 1
    return lines[b:idx + 1]


def corrupt(lines, rnd):
    """Changes one recorded number of one event that is not a Begin/Load; returns the line index or None."""
    import random
    r = random.Random(rnd)
    idxs = [i for i, s in enumerate(lines) if not s.startswith(('{"op":"Begin"', '{"op":"Load"')) and re.search(r"\d", s)]
    r.shuffle(idxs)
    return idxs


def main():
    pid = sys.argv[1]
    check = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    args = sys.argv[2:]
    if args and args[0] == "--replay":
        replay = args[1]
    elif args:
        tier = args[0]
    deep = tier == "thorough"
    work = os.path.join(ROOT, "build", "%s_%s_%d" % (pid, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        if replay:
            ok, consumed, total, _, _ = validate(check["trace"], os.path.abspath(replay), work, 600)
            print("accepted" if ok else "rejected at event %d of %d" % (consumed + 1, total))
            if not ok:
                print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 0 if ok else 1
        return decide(pid, check, seed, tier, deep, work)
    except CheckError as e:
        print("CHECK ERROR: %s" % e, flush=True)
        return 2
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def decide(pid, check, seed, tier, deep, work):
    budget = 3000 if deep else 800
    mc_states = mc_trans = 0
    actions = {}
    mcs = list(check.get("mc", ())) + (list(check.get("mc_deep", ())) if deep else [])
    flags_list = [("q", ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"])]
    if deep:
        flags_list.append(("o", ["-O2"]))
        if "avx2" in open("/proc/cpuinfo").read():
            flags_list.append(("v", ["-O2", "-mavx2", "-mfma"]))
    flags_list = check.get("flags_deep" if deep else "flags", flags_list)
    parts = check["parts"]

    pool = cf.ThreadPoolExecutor(max_workers=JOBS)
    builds = {}
    for tag, flags in flags_list:
        for name, defs in parts.items():
            builds[(tag, name)] = pool.submit(compile_part, check, tag + "_" + name, defs, work, flags)

    # Generated behaviours
    scripts = {}
    gen_states = 0
    gen_count = 0
    for g in check.get("gen", ()):
        n = g["deep"] if deep else g["quick"]
        if g.get("mode", "simulate") == "simulate":
            rc, out = tlc(g["module"], g.get("cfg", g["module"] + ".cfg"), work, 600, workers=1,
                          extra=("-simulate", "num=%d" % n, "-depth", str(g["depth"]), "-seed", str(seed)), heap="2g")
        else:  # every transition of the small model
            rc, out = tlc(g["module"], g["deep_cfg"] if deep and "deep_cfg" in g else g["module"] + ".cfg", work, 600,
                          workers=1, heap="4g")
        lines = []
        seen = set()
        for m in re.finditer(r'^"VPGEN(.*)"$', out, re.M):
            s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            if s not in seen:
                seen.add(s)
                lines.append(s)
        if rc != 0 or not lines:
            raise CheckError("generator %s failed (rc=%d):\n%s" % (g["module"], rc, out[-3000:]))
        conv = g["convert"]
        path = os.path.join(work, "script_%d.txt" % len(scripts))
        with open(path, "w") as f:
            for s in lines:
                f.write(conv(json.loads(s)) + "\n")
        scripts[path] = path
        gen_count += len(lines)
        gen_states += tlc_states(out)[1]
    script = None
    if scripts:
        script = os.path.join(work, "script.txt")
        with open(script, "w") as f:
            for p in scripts.values():
                f.write(open(p).read())
        note("%d generated behaviours" % gen_count)

    for mod, cfg in mcs:
        d, g, acts = model_check(mod, cfg, work, budget, check.get("mc_plain", False))
        mc_states += d
        mc_trans += g
        for k, v in acts.items():
            actions[k] = actions.get(k, 0) + v
        note("model %s: %d distinct states, %d generated" % (cfg, d, g))
    for a in check.get("mc_actions", ()):
        if not actions.get(a):
            raise CheckError("action %s of the model was never taken" % a)

    exes = {k: f.result() for k, f in builds.items()}
    note("%d harness binaries built" % len(exes))

    # Runs
    shards = check.get("shards_deep", 4) if deep else check.get("shards", 1)
    runs = []
    for (tag, name), exe in exes.items():
        for s in range(shards):
            trace = os.path.join(work, "t_%s_%s_%d.ndjson" % (tag, name, s))
            runs.append((trace, exe, s))
    futs = [pool.submit(run_harness, exe, tr, seed, tier, s, shards, script, 1500 if deep else 150) for tr, exe, s in runs]
    stats = {}
    for (tr, exe, s), f in zip(runs, futs):
        st, crash = f.result()
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        if crash:
            note("harness %s shard %d ended abnormally: %s" % (os.path.basename(exe), s, crash[:200]))
    note("recorded: %s" % " ".join("%s=%d" % kv for kv in sorted(stats.items())))

    # Bins for TLC
    files = sorted(runs, key=lambda r: -os.path.getsize(r[0]))
    nbins = min(len(files), JOBS * (2 if deep else 1))
    bins = [[0, []] for _ in range(nbins)]
    for r in files:
        b = min(bins, key=lambda b: b[0])
        b[0] += os.path.getsize(r[0])
        b[1].append(r)
    ops = {}
    total_events = sessions = 0
    distinct = set()

    def one(i, b):
        path = os.path.join(work, "bin_%d.ndjson" % i)
        owner = []
        lines = []
        for r in b[1]:
            with open(r[0]) as f:
                ls = f.read().splitlines()
            owner += [r] * len(ls)
            lines += ls
        with open(path, "w") as f:
            f.write("\n".join(lines) + ("\n" if lines else ""))
        if not lines:
            return lines, owner, (True, 0, 0, 0, 0)
        return lines, owner, validate(check["trace"], path, work, budget)

    results = [f.result() for f in [pool.submit(one, i, b) for i, b in enumerate(bins)]]
    tr_states = tr_trans = 0
    accepted_sessions = 0
    samples = []
    rejected = []
    for lines, owner, (ok, consumed, total, d, g) in results:
        tr_states += d
        tr_trans += g
        for s in lines:
            op = s[7:s.index('"', 7)]
            ops[op] = ops.get(op, 0) + 1
            if op == "Begin":
                sessions += 1
            else:
                distinct.add(hash(s))
        total_events += len(lines)
        if ok:
            accepted_sessions += sum(1 for s in lines if s.startswith('{"op":"Begin"'))
            if len(samples) < 3:
                cand = [s for s in lines[len(lines) // 2:] if not s.startswith('{"op":"Begin"') and len(s) < 600]
                samples += cand[:1]
        else:
            rejected.append((lines, owner, consumed))
    note("validated %d events in %d sessions; rejected traces: %d" % (total_events, sessions, len(rejected)))

    violations = []
    for lines, owner, consumed in rejected:
        idx = min(consumed, len(lines) - 1)
        trace, exe, shard = owner[idx]
        sess = session_of(lines, idx)
        rp = os.path.join(ROOT, "replays", "%s-%s-%d.ndjson" % (pid, os.path.basename(trace)[2:-7], seed))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            f.write("\n".join(sess) + "\n")
        # Repeat the run and the judgement before reporting.
        again = os.path.join(work, "again_" + os.path.basename(trace))
        confirmed = False
        for _ in range(3):
            run_harness(exe, again, seed, tier, shard, shards, script, 1500 if deep else 150)
            ok2, c2, _, _, _ = validate(check["trace"], again, work, budget)
            if not ok2:
                confirmed = True
                break
        print("rejected event: %s" % lines[idx][:1500])
        if not confirmed:
            raise CheckError("a rejection could not be repeated: %s" % rp)
        violations.append(rp)
        break

    if not violations:
        missing = [o for o in check.get("required", ()) if not ops.get(o)]
        if missing:
            raise CheckError("no event of kind %s was recorded: vacuous" % ", ".join(missing))
        # The binding: a recorded result changed by one must be rejected.
        if check.get("selftest", True):
            selftest(pid, check, results, work, seed, 6 if deep else 2)

    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": mc_states + tr_states + gen_states,
            "transitions": mc_trans + tr_trans,
            "traces_validated_against_impl": accepted_sessions,
            "samples": samples[:3] or ["none accepted"],
            "model_states": mc_states,
            "model_actions": actions,
            "trace_events": total_events,
            "distinct_trace_events": len(distinct),
            "event_kinds": ops,
            "generated_behaviours_replayed": gen_count,
            "harness_counters": stats,
            "harness_builds": sorted("%s:%s" % k for k in exes),
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for rp in violations:
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
    if violations:
        return 1
    note("%s holds on everything explored" % pid)
    return 0


def selftest(pid, check, results, work, seed, n):
    import random
    rnd = random.Random(seed)
    done = 0
    pick = [r for r in results if r[0]]
    key = check.get("selftest_key")
    tries = 0
    while done < n and tries < 60:
        tries += 1
        lines = rnd.choice(pick)[0]
        i = rnd.randrange(len(lines))
        if lines[i].startswith(('{"op":"Begin"', '{"op":"Load"')):
            continue
        if check.get("selftest_ops") and lines[i][7:lines[i].index('"', 7)] not in check["selftest_ops"]:
            continue
        sess = session_of(lines, i)
        if len(sess) > 400:
            continue
        e = json.loads(sess[-1])
        # The last number of the post state of the event.
        path = mutate_last(e.get(key) if key else e, rnd, check.get("selftest_delta", 1))
        if path is None:
            continue
        t = os.path.join(work, "selftest_%d.ndjson" % done)
        with open(t, "w") as f:
            f.write("\n".join(sess[:-1] + [json.dumps(e, separators=(",", ":"))]) + "\n")
        ok, _, _, _, _ = validate(check["trace"], t, work, 300)
        if ok:
            raise CheckError("binding self-test: a corrupted result was accepted: %s -> %s" % (sess[-1][:600], json.dumps(e)[:600]))
        done += 1
    note("binding self-test: %d corrupted events rejected" % done)


def mutate_last(o, rnd, delta):
    """Adds delta to a number inside the last container value of o; returns True or None."""
    leaves = []

    def walk(x):
        items = x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()
        for k, v in items:
            if isinstance(v, bool):
                continue
            if isinstance(v, int):
                leaves.append((x, k))
            else:
                walk(v)

    walk(o)
    if not leaves:
        return None
    x, k = rnd.choice(leaves)
    x[k] += delta
    return True


if __name__ == "__main__":
    sys.exit(main())
