#!/usr/bin/env python3
"""Runs one check: builds the monitors against /repo's working tree, runs the
numbered cases of the check on all cores under supervision (crashes, hangs and
memory exhaustion are confirmed alone before they are reported), and writes
evidence/<ID>.json from what the monitors observed.

usage: check.py <ID> [--seed N] [--tier quick|thorough] [--scale F]
       check.py --setup
exit: 0 held, 1 violated (VIOLATION line), 2 no answer
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
sys.path.insert(0, os.path.join(HERE, "tools"))
from rules import RULES, CASES, LEVELS  # noqa: E402

NOREPLY = 2


class Trouble(Exception):
    """The check cannot give an answer."""


def say(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
    e.update(kw)
    return e


def cargo(crate, target, args, toolchain=None, **kw):
    """Builds `crate`; cargo's notion of freshness (time stamps) is backed by
    a hash of the contents of /repo."""
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + args + ["--offline", "--quiet"]
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "repo-hash")
    want = tree_hash()
    try:
        have = open(stamp).read()
    except OSError:
        have = None
    cwd = os.path.join(HERE, crate)
    e = env(CARGO_TARGET_DIR=target, **kw)
    if have != want:
        if have is not None:
            subprocess.run(["cargo"] + (["+" + toolchain] if toolchain else [])
                           + ["clean", "--offline", "--quiet", "-p", "parse-proof-of-concept", "-p", crate]
                           + (["--target", "x86_64-unknown-linux-gnu"] if "--target" in args else []),
                           cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            os.remove(stamp)
        except OSError:
            pass
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Trouble("build failed:\n" + r.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(want)


def build_harness():
    cargo("harness", TARGET, ["build"])
    return os.path.join(TARGET, "debug", "harness")


def build_asan():
    t = os.path.join(HERE, "target-asan")
    cargo("harness", t, ["build", "--target", "x86_64-unknown-linux-gnu"], toolchain="nightly",
          RUSTFLAGS="-Zsanitizer=address -Cdebuginfo=1")
    return os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "harness")


def cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return None


def limits(cpu=None, mem=12 << 30):
    def f():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


HANG_CPU = 25  # CPU seconds without finishing a case before it is looked at alone
SOLO_CPU = 90  # CPU seconds a single case gets alone (normal: well under 1)


def solo(binary, check, seed, tier, idx, mem=12 << 30):
    """Reruns one case alone. Returns (kind, text)."""
    r = subprocess.run([binary, "case", "--check", check, "--seed", str(seed), "--index", str(idx), "--tier", tier],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(ASAN_OPTIONS="detect_leaks=0"),
                       preexec_fn=limits(SOLO_CPU, mem))
    out = r.stdout.decode("utf-8", "replace").strip()
    err = r.stderr.decode("utf-8", "replace").strip()
    if r.returncode == 1:
        return "violation", out
    if r.returncode == 0:
        return "held", out
    if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return "violation", (f"this case does not terminate: stopped after {SOLO_CPU} s of CPU time "
                             f"(signal {-r.returncode}); a case normally takes milliseconds\n{describe(binary, check, seed, tier, idx)}")
    if r.returncode < 0:
        return "violation", f"the process dies of signal {-r.returncode}\n{err[-4000:]}\n{describe(binary, check, seed, tier, idx)}"
    if "AddressSanitizer" in err:
        return "violation", err[:6000]
    return "trouble", f"exit {r.returncode}: {out[-2000:]} {err[-2000:]}"


def describe(binary, check, seed, tier, idx):
    return f"case: check {check}, seed {seed}, tier {tier}, index {idx}"


def run_sharded(binary, check, seed, tier, cases, budget, label, mem=12 << 30, shards=None):
    """Returns (stats, violations) where violations = [(idx, text)]."""
    shards = shards or max(1, min(os.cpu_count() or 1, 8, cases))
    tmp = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
    stats = dict(done=0, evaluations=0, discarded=0, counts={}, maxima={}, samples=[], hashfiles=[], cut_short=False)
    violations = []
    try:
        ws = []

        def start(k, skip):
            out = os.path.join(tmp, f"{k}.json")
            prog = os.path.join(tmp, f"{k}.progress")
            errf = open(os.path.join(tmp, f"{k}.err"), "wb")
            p = subprocess.Popen([binary, "run", "--check", check, "--seed", str(seed), "--tier", tier,
                                  "--cases", str(cases), "--shard", str(k), "--shards", str(shards),
                                  "--budget", str(budget), "--progress", prog, "--out", out,
                                  "--skip", ",".join(map(str, skip))],
                                 stdout=subprocess.DEVNULL, stderr=errf,
                                 env=env(ASAN_OPTIONS="detect_leaks=0"), preexec_fn=limits(None, mem))
            errf.close()
            return dict(k=k, p=p, out=out, prog=prog, idx=None, cpu=0.0, skip=skip)

        ws = [start(k, []) for k in range(shards)]

        def last_idx(w):
            try:
                return int(open(w["prog"]).read())
            except (OSError, ValueError):
                return None

        def kill_all():
            for w in ws:
                if w["p"].poll() is None:
                    w["p"].kill()
                    w["p"].wait()

        def suspect(w, why):
            """Something went wrong while a case ran: look at it alone."""
            idx = last_idx(w)
            if idx is None:
                raise Trouble(f"worker {w['k']} of {label}: {why} before its first case: "
                              + open(os.path.join(tmp, f"{w['k']}.err"), errors="replace").read()[-3000:])
            kind, text = solo(binary, check, seed, tier, idx, mem)
            if kind == "violation":
                return idx, text
            if kind == "trouble":
                raise Trouble(f"case {idx}: {text}")
            raise Trouble(f"worker {w['k']} of {label} at case {idx}: {why}, but the case alone holds")

        pending = list(ws)
        while pending and not violations:
            time.sleep(0.05)
            for w in list(pending):
                rc = w["p"].poll()
                if rc is None:
                    idx, cpu = last_idx(w), cpu_of(w["p"].pid) or 0.0
                    if idx != w["idx"]:
                        w["idx"], w["cpu"] = idx, cpu
                    elif cpu - w["cpu"] > HANG_CPU and idx is not None:
                        w["p"].kill()
                        w["p"].wait()
                        violations.append(suspect(w, "no progress"))
                        break
                    continue
                pending.remove(w)
                if rc in (0, 1, 3) and os.path.exists(w["out"]):
                    d = json.load(open(w["out"]))
                    if "harness_error" in d:
                        e = d["harness_error"]
                        raise Trouble(f"the harness failed at case {e['index']}: {e['message']}")
                    for k in ("done", "evaluations", "discarded"):
                        stats[k] += d[k]
                    for k, v in d["counts"].items():
                        stats["counts"][k] = stats["counts"].get(k, 0) + v
                    for k, v in d["maxima"].items():
                        stats["maxima"][k] = max(stats["maxima"].get(k, 0), v)
                    stats["samples"] += d["samples"]
                    hf = w["out"] + ".hashes"
                    if os.path.exists(hf):
                        stats["hashfiles"].append(hf)
                    if "violation" in d:
                        v = d["violation"]
                        violations.append((v["index"], v["message"]))
                        break
                else:
                    violations.append(suspect(w, f"the worker ended with {rc}"))
                    break
        kill_all()
        if stats["done"] < cases and not violations:
            stats["cut_short"] = True
        n = 0
        if stats["hashfiles"]:
            r = subprocess.run([binary, "distinct"] + stats["hashfiles"], stdout=subprocess.PIPE, env=env(ASAN_OPTIONS="detect_leaks=0"))
            n = int(r.stdout.decode().strip() or 0)
        stats["distinct"] = n
        return stats, violations
    finally:
        for w in ws:
            if w["p"].poll() is None:
                w["p"].kill()
                w["p"].wait()
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(check):
    """finding: property=<id> key=<text that identifies the failing input> :: <what fails>"""
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == check:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def replay_file(check, name, text):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text + "\n")
    return p


def write_evidence(check, tier, seed, coverage, t0, nviol, assumptions):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    d = dict(property=check, tier=tier, seed=seed, level=LEVELS.get(check, "exploration"), coverage=coverage,
             assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=nviol)
    p = os.path.join(HERE, "evidence", f"{check}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1, ensure_ascii=False)
    os.replace(p + ".tmp", p)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build_harness()
        build_asan()
        try:
            import ebnf
            ebnf.build(sys.modules[__name__])
        except ImportError:
            pass
        say("built")
        return 0
    check = args[0]

    def opt(k, d):
        return args[args.index(k) + 1] if k in args else d
    seed = int(opt("--seed", os.environ.get("VERIF_SEED") or 1))
    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    scale = float(opt("--scale", "1"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    try:
        if check == "C23":
            import ebnf
            return ebnf.check(sys.modules[__name__], seed, tier, scale, t0)
        return parse_check(check, seed, tier, scale, t0)
    except Trouble as e:
        say(f"NO ANSWER from {check}: {e}")
        return NOREPLY


def parse_check(check, seed, tier, scale, t0):
    if check not in CASES:
        raise Trouble("no such check")
    binary = build_harness()
    t_build = time.time() - t0
    cases = max(8, int(CASES[check][0] * scale))
    runs = [("instrumented build", binary, cases, 12 << 30, seed)]
    budget = 150.0
    if tier == "thorough":
        budget = 300.0
        cases = int(cases * CASES[check][1])
        runs = [(f"instrumented build, seed {s}", binary, cases, 12 << 30, s) for s in (seed, seed + 1000003)]
    if check == "C24":
        a = build_asan()
        t_build = time.time() - t0
        runs.append(("AddressSanitizer build", a, cases // 6, None, seed + 77))
        for c in ("C02", "C15", "C12"):
            runs.append((f"AddressSanitizer build, cases of {c}", a, max(8, int(CASES[c][0] * scale / 60)), None, seed + 78, c))
    total = dict(evaluations=0, distinct=0)
    coverage = dict(evaluations=0, distinct_nontrivial=0, rule=RULES[check], samples=[], runs=[])
    viol = []
    for label, b, n, mem, s, *other in runs:
        ck = other[0] if other else check
        st, vs = run_sharded(b, ck, s, tier, n, budget, label, mem)
        coverage["evaluations"] += st["evaluations"]
        coverage["distinct_nontrivial"] += st["distinct"]
        coverage["samples"] += st["samples"][:4]
        coverage["runs"].append(dict(run=label, seed=s, cases=st["done"], cases_planned=n, discarded_cases=st["discarded"],
                                     evaluations=st["evaluations"], distinct_nontrivial=st["distinct"],
                                     observed=st["counts"], maxima=st["maxima"]))
        for idx, text in vs:
            for key, what in known_findings(check):
                if key in text:
                    say(f"KNOWN-FINDING: property={check} {what}")
                    break
            else:
                viol.append((ck, b, s, idx, text, label))
        if viol:
            break
        if st["done"] < 0.02 * n or (st["evaluations"] == 0 or st["distinct"] < 20) and scale >= 1:
            raise Trouble(f"too little observed in {label}: {st['done']} of {n} cases, {st['evaluations']} evaluations, "
                          f"{st['distinct']} distinct non-trivial ones")
    coverage["samples"] = coverage["samples"][:10]
    coverage["build_s"] = round(t_build, 2)
    for key, what in known_findings(check):
        say(f"KNOWN-FINDING: property={check} {what}")
    write_evidence(check, tier, seed, coverage, t0, len(viol), ASSUME)
    if viol:
        ck, b, s, idx, text, label = viol[0]
        p = replay_file(check, f"{check}-{tier}-{s}-{idx}.txt",
                        f"property {check}, {label}\n"
                        f"rerun: {b} case --check {ck} --seed {s} --tier {tier} --index {idx}\n\n{text}")
        say(text[:3000])
        say(f"VIOLATION property={check} replay={p}")
        return 1
    say(f"{check} held: {coverage['evaluations']} evaluations, {coverage['distinct_nontrivial']} distinct non-trivial, "
        f"{time.time() - t0:.1f} s")
    return 0


ASSUME = [
    "rustc/std and the harness' own oracles (reference semantics, array cursor, reference scanner, hand-written parsers) are trusted",
    "only the generated programs, inputs and histories were observed; see rule and runs",
]

if __name__ == "__main__":
    sys.exit(main())
