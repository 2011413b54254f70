#!/usr/bin/env python3
"""Decide one property of /repo by generated-input search.

  check.py C01            run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --replay FILE  run one saved case again
  check.py --build        only build

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
VARIANTS = ["spec", "subiot", "wizzilab"]
CORES = 8
TIER = os.environ.get("VERIF_TIER") or "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED") or "1")
except ValueError:
    SEED = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:6], "big")
# case counts of the thorough tier, relative to quick
SCALE = {"quick": 1.0, "thorough": 20.0}[TIER]

# How cases are made and what makes one count as non-trivial, per property.
RULES = json.load(open(os.path.join(HERE, "rules.json")))


class Broken(Exception):
    """The check could not give an answer."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ build

def env():
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    for k in [k for k in e if k.startswith("CARGO_PROFILE_")]:
        e.pop(k)
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    return e


def sources_digest():
    """Cargo goes by modification times; this goes by content."""
    h = hashlib.sha256()
    for root in (REPO, os.path.join(HERE, "harness"), os.path.join(HERE, "mem"), os.path.join(HERE, "cov")):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".md", ".sh")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


def forget_stale(tdir, digest):
    """Make cargo rebuild our crates and the library when their content has changed."""
    mark = os.path.join(tdir, "sources.digest")
    old = open(mark).read() if os.path.exists(mark) else None
    if old != digest:
        for d, dirs, _ in os.walk(tdir):
            if os.path.basename(d) == ".fingerprint":
                for x in list(dirs):
                    if re.match(r"(dash7|d7check|d7mem|d7cov)(-|_)", x):
                        shutil.rmtree(os.path.join(d, x))
                dirs[:] = []
    return mark


def cargo(args, tdir, what, timeout=600, extra=None):
    e = env()
    e["CARGO_TARGET_DIR"] = tdir
    e.update(extra or {})
    t = time.time()
    p = subprocess.run(["cargo"] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, cwd=HERE)
    if p.returncode != 0:
        raise Broken(f"building {what} failed:\n{p.stdout[-6000:]}")
    log(f"built {what} in {time.time() - t:.1f} s")


def built(tdir, digest, what, args, out, extra=None):
    mark = forget_stale(tdir, digest)
    cargo(args, tdir, what, extra=extra)
    with open(mark, "w") as f:
        f.write(digest)
    if not os.path.exists(out):
        raise Broken(f"{out} is missing")
    return out


def build_harness(v, digest):
    tdir = os.path.join(TARGET, v)
    return built(tdir, digest, f"harness for {v}",
                 ["build", "--offline", "--locked", "--manifest-path", os.path.join(HERE, "harness/Cargo.toml"),
                  "--features", v], os.path.join(tdir, "debug/d7check"),
                 # the library reports its edges and comparisons, which steer the search
                 {"RUSTC_WRAPPER": os.path.join(HERE, "cov/rustc.sh")})


def build_cli(v, digest):
    tdir = os.path.join(TARGET, "cli-" + v)
    return built(tdir, digest, f"command line tool for {v}",
                 ["build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                  "-p", "dash7-cli", "--no-default-features", "-F", v], os.path.join(tdir, "debug/dash7"),
                 {"CARGO_PROFILE_DEV_DEBUG": "0"})


def build_mem(v, digest):
    tdir = os.path.join(TARGET, "mem-" + v)
    return built(tdir, digest, f"memory driver for {v}",
                 ["build", "--offline", "--locked", "--manifest-path", os.path.join(HERE, "mem/Cargo.toml"),
                  "--features", v], os.path.join(tdir, "debug/d7mem"))


def miri_cmd(v, cases):
    """Run the memory driver under the interpreter; cargo leaves its build in the same place."""
    return ["cargo", "miri", "run", "-q", "--offline", "--locked", "--manifest-path",
            os.path.join(HERE, "mem/Cargo.toml"), "--features", v, "--target-dir",
            os.path.join(TARGET, "miri-" + v), "--", cases]


MIRI_ENV = {"RUSTUP_TOOLCHAIN": "nightly",
            "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance"}


def build_miri(v, digest):
    """An empty run builds everything."""
    tdir = os.path.join(TARGET, "miri-" + v)
    mark = forget_stale(tdir, digest)
    rc, out = run_child(miri_cmd(v, "/dev/null"), timeout=600, extra=MIRI_ENV, limited=False)
    if rc != 0 or "done" not in out.split():
        raise Broken(f"building for Miri ({v}) failed:\n{out[-6000:]}")
    with open(mark, "w") as f:
        f.write(digest)
    return tdir


def seed_target(src, dst):
    """Start a variant's build from the dependencies another variant has built."""
    if os.path.isdir(src) and not os.path.isdir(dst):
        shutil.copytree(src, dst, symlinks=True)


def staged(fn, dirs, digest):
    """Build the first variant, then the others from its dependencies, side by side."""
    first, rest = VARIANTS[0], VARIANTS[1:]
    res = {}
    cold = not os.path.isdir(dirs(rest[0]))
    if cold:
        res[first] = fn(first, digest)
        for v in rest:
            seed_target(dirs(first), dirs(v))
    todo = [v for v in VARIANTS if v not in res]
    with cf.ThreadPoolExecutor(len(todo)) as ex:
        for v, r in zip(todo, ex.map(lambda v: fn(v, digest), todo)):
            res[v] = r
    return res


def build(cli=False, mem=False):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        digest = sources_digest()
        jobs = [(build_harness, "")]
        if cli:
            jobs.append((build_cli, "cli-"))
        if mem:
            jobs += [(build_mem, "mem-"), (build_miri, "miri-")]
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            fs = [ex.submit(staged, fn, lambda v, pre=pre: os.path.join(TARGET, pre + v), digest) for fn, pre in jobs]
            rs = [f.result() for f in fs]
        return rs[0], rs[1] if cli else {}


# ------------------------------------------------------------------ running

def dictionary():
    """The numbers in the sources under test, as hints to the generators: those something is compared with, and all."""
    num = r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)?(?![\w.])"
    cmp, lit = set(), set()

    for d in ("dash7/src", "dash7-cli/src"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".rs"):
                    continue
                t = open(os.path.join(root, f), encoding="utf-8", errors="replace").read()
                t = re.sub(r"//[^\n]*", "", t.split("#[cfg(test)]\nmod test")[0])
                for m in re.finditer(r"(?<![\w.])" + num, t):
                    try:
                        v = int(m.group(1).replace("_", ""), 0)
                    except ValueError:
                        v = int(m.group(1).replace("_", "").lstrip("0") or "0")
                    lit.add(v)
                    before, after = t[:m.start()].rstrip()[-3:], t[m.end():].lstrip()[:3]
                    if re.search(r"(==|!=|<=|>=|<|>|%|&|\||\.\.=?|\.\.)$", before) and not before.endswith("->") \
                            or re.match(r"(==|!=|<=|>=|<|>|=>|\.\.|\|)", after) \
                            or re.search(r"const\s+\w+\s*:[^=;]*=\s*$", t[max(0, m.start() - 80):m.start()]):
                        cmp.add(v)
    top = 1 << 64
    return ";".join(",".join(str(x) for x in sorted(y) if x < top) for y in (cmp, lit))


_dict = []


def hints():
    if not _dict:
        try:
            _dict.append(dictionary())
        except (OSError, ValueError):
            _dict.append(";")
    return _dict[0]


LIMIT = 780 if TIER == "quick" else 6 * 3600


def run_child(args, timeout=None, extra=None, limited=True):
    e = env()
    e["D7_HINTS"] = hints()
    e.update(extra or {})

    def pre():
        import resource
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limited:
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

    p = subprocess.Popen(args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         preexec_fn=pre, cwd=HERE)
    try:
        out, _ = p.communicate(timeout=timeout or LIMIT)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ""


def known_list():
    """The committed findings: {id: property}."""
    res = {}
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(C\d+) (K\d+) ", line)
        if m:
            res[m.group(2)] = m.group(1)
    return res


def save_replay(prop, failure, name=None):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(failure, indent=1)
    path = os.path.join(d, name or f"{prop}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def crashed(prop, variant, binary, last, out):
    """A child ended without a report: does its last case do it again?"""
    try:
        raw = open(last, "rb").read()
        sub, n, js = raw.split(b"\n", 2)
        case = json.loads(js[:int(n)])
    except Exception:
        return None
    f = {"property": prop, "dialect": variant, "sub": sub.decode(), "case": case,
         "reason": "the process ends abnormally: " + out[-600:]}
    tmp = last + ".replay"
    json.dump(f, open(tmp, "w"))
    rc, o = run_child([binary, "replay", tmp, "--out", last + ".out"], timeout=120)
    os.unlink(tmp)
    if rc is not None and rc < 0:
        f["reason"] = f"the process is ended by signal {-rc}: {o[-600:]}"
        return f
    if rc == 0:
        return json.load(open(last + ".out"))["failure"]
    return None


def explore(prop, bins, clis, work, only=None, scale=None):
    """All shards of all variants; returns (reports, hashes, failures)."""
    shards = CORES
    jobs = [(v, s) for s in range(shards) for v in (only or VARIANTS)]
    stop = []

    def one(job):
        v, s = job
        if stop:
            return None
        base = os.path.join(work, f"{v}-{s}")
        args = [bins[v], "run", prop, "--tier", TIER, "--scale", str(scale or SCALE), "--seed", str(SEED),
                "--shard", str(s), "--shards", str(shards), "--last", base + ".last", "--hashes", base + ".hash",
                "--out", base + ".json"]
        extra = {"D7_WORK": base + ".work"}
        if v in clis:
            extra["D7_CLI"] = clis[v]
        rc, out = run_child(args, extra=extra)
        if rc == 0:
            rep = json.load(open(base + ".json"))
            if rep["failure"]:
                stop.append(1)
            return rep, base + ".hash", rep["failure"]
        if rc is None:
            raise Broken(f"{prop} {v} shard {s} did not finish in {LIMIT} s")
        f = crashed(prop, v, bins[v], base + ".last", out)
        if f is None:
            raise Broken(f"{prop} {v} shard {s} ended with {rc} and its last case does not repeat that:\n{out[-3000:]}")
        stop.append(1)
        return None, None, f

    with cf.ThreadPoolExecutor(CORES) as ex:
        return [r for r in ex.map(one, jobs) if r]


def size_of(f):
    return len(json.dumps(f["case"]))


class Result:
    def __init__(self):
        self.evaluations = 0
        self.distinct = 0
        self.labels = {}
        self.subs = {}
        self.samples = []
        self.known = {}
        self.failures = []
        self.exhaustive = set()
        self.notes = {}


def merge(results):
    r = Result()
    import array
    seen = {}
    per = {}
    for rep, hashes, failure in results:
        if failure:
            r.failures.append(failure)
        if rep is None:
            continue
        v = rep["dialect"]
        r.evaluations += rep["evaluations"]
        if hashes:
            a = array.array("Q")
            a.frombytes(open(hashes, "rb").read())
            seen.setdefault(v, set()).update(a)
        for src, dst in ((rep["labels"], r.labels), (rep["subs"], r.subs), (rep["known"], r.known)):
            for k, n in src.items():
                dst[k] = dst.get(k, 0) + n
        for s in rep["samples"]:
            k = (s["sub"], v)
            if per.get(s["sub"], 0) < 3 and per.get(k, 0) < 1:
                per[k] = 1
                per[s["sub"]] = per.get(s["sub"], 0) + 1
                r.samples.append(dict(s, dialect=v))
        r.exhaustive.update(rep["exhaustive"])
        for sub, (n, kept, edges, there) in rep["guided"].items():
            g = r.notes.setdefault("coverage_guided", {}).setdefault(
                sub, {"cases": 0, "kept": 0, "most_edges_in_one_run": 0, "edges_instrumented": 0})
            g["cases"] += n
            g["kept"] += kept
            g["most_edges_in_one_run"] = max(g["most_edges_in_one_run"], edges)
            g["edges_instrumented"] = max(g["edges_instrumented"], there)
    r.distinct = sum(len(x) for x in seen.values())
    return r


def write_evidence(prop, r, t0):
    rule = RULES[prop]
    labels = dict(sorted(r.labels.items(), key=lambda x: -x[1])[:150])
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": r.evaluations, "distinct_nontrivial": r.distinct, "rule": rule["rule"],
            "samples": r.samples[:40], "cases_per_check": r.subs, "labels": labels,
            "fully_enumerated_checks": sorted(r.exhaustive), "dialects": VARIANTS, **r.notes,
        },
        "assumptions": rule.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(r.failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def finish(prop, r, t0):
    listed = known_list()
    lines = []
    for k in sorted(r.known):
        kid = k.split()[0]
        if listed.get(kid) == prop:
            lines.append(f"KNOWN-FINDING: property={prop} {k} ({r.known[k]} cases)")
        else:
            r.failures.append({"property": prop, "dialect": "any", "sub": "", "case": None,
                               "reason": "not a listed finding: " + k})
    write_evidence(prop, r, t0)
    for l in lines:
        print(l)
    if r.failures:
        f = min(r.failures, key=size_of)
        path = save_replay(prop, f)
        print(f"{f['dialect']} {f['sub']}: {f['reason']}")
        if f["case"] is not None:
            print("case:", json.dumps(f["case"])[:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: held on {r.evaluations} cases ({r.distinct} distinct and non-trivial), {time.time() - t0:.0f} s")
    return 0


# ------------------------------------------------------------------ C23: the dialects side by side

def draw(binary, what, shard, n, out):
    rc, o = run_child([binary, "draw", what, "--seed", str(SEED), "--shard", str(shard), "--n", str(n), "--out", out])
    if rc != 0:
        raise Broken(f"drawing cases ended with {rc}: {o[-2000:]}")
    return open(out).read().splitlines()


def answers(bins, lines, base):
    """What each dialect makes of the cases."""
    cases = base + ".cases"
    with open(cases, "w") as f:
        f.writelines(l + "\n" for l in lines)
    res = {}
    for v in VARIANTS:
        out = f"{base}.{v}"
        rc, o = run_child([bins[v], "eval", cases, "--out", out])
        if rc != 0:
            if len(lines) == 1:
                res[v] = [f"ends with {rc}"]
                continue
            half = len(lines) // 2
            return {v: x + y for (v, x), y in zip(answers(bins, lines[:half], base).items(),
                                                   answers(bins, lines[half:], base).values())}
        res[v] = open(out).read().split("\n")[:-1]
        if len(res[v]) != len(lines):
            raise Broken(f"{v} gave {len(res[v])} answers for {len(lines)} cases")
    return res


def disagree(bins, lines, base):
    """The first case on which the dialects differ: (index, text)."""
    if not lines:
        return None
    a = answers(bins, lines, base)
    for i in range(len(lines)):
        x = {v: a[v][i] for v in VARIANTS}
        if "skip" not in x.values() and len(set(x.values())) > 1:
            return i, "; ".join(f"{v}: {t[:700]}" for v, t in x.items())
    return None


def smaller(seq):
    """Sequences with a part left out, the largest parts first."""
    n = len(seq)
    k = max(n // 2, 1)
    while n:
        for i in range(0, n, k):
            yield seq[:i] + seq[i + k:]
        if k == 1:
            return
        k = (k + 1) // 2


def simpler(case):
    kind, v = next(iter(case.items()))
    if kind == "Enc":
        for x in smaller(v):
            yield {kind: x}
        return
    h = v if kind == "Cmd" else v[1]
    b = [h[i:i + 2] for i in range(0, len(h), 2)]
    wrap = (lambda x: {kind: "".join(x)}) if kind == "Cmd" else (lambda x: {kind: [v[0], "".join(x)]})
    for x in smaller(b):
        yield wrap(x)
    for i in range(len(b)):
        if b[i] != "00":
            yield wrap(b[:i] + ["00"] + b[i + 1:])


def shrink(case, first_failing, simpler, rounds=60):
    """Take the first simpler case that still fails, as long as there is one."""
    reason = None
    for _ in range(rounds):
        cands = list(simpler(case))[:400]
        r = first_failing(cands) if cands else None
        if r is None:
            break
        case, reason = cands[r[0]], r[1]
    return case, reason


def check_cross(prop, work):
    bins, _ = build()
    n = int(40000 * SCALE)
    r = Result()
    seen = set()

    def one(s):
        lines = draw(bins["spec"], "C23", s, n, os.path.join(work, f"d{s}"))
        return lines, answers(bins, lines, os.path.join(work, f"e{s}"))

    with cf.ThreadPoolExecutor(CORES) as ex:
        for lines, a in ex.map(one, range(CORES)):
            for i, l in enumerate(lines):
                x = [a[v][i] for v in VARIANTS]
                if "skip" in x:
                    continue
                r.evaluations += 1
                kind = l.split('"')[1]
                how = x[0].split(" ")[0] if kind != "Enc" else "encoded"
                r.labels[f"{kind} {how}"] = r.labels.get(f"{kind} {how}", 0) + 1
                if len(l) > 16:
                    seen.add(hash(l))
                    if len(r.samples) < 12 and len(l) < 500 and i % 97 == 0:
                        r.samples.append({"case": json.loads(l), "answer of all three": x[0][:400]})
                if len(set(x)) > 1 and not r.failures:
                    r.failures.append({"property": prop, "dialect": "all", "sub": "dialects", "case": json.loads(l),
                                       "reason": "; ".join(f"{v}: {t[:700]}" for v, t in zip(VARIANTS, x))})
    r.distinct = len(seen)
    for f in r.failures:
        base = os.path.join(work, "shrink")
        case, reason = shrink(f["case"], lambda cs: disagree(bins, [json.dumps(c) for c in cs], base), simpler)
        f["case"], f["reason"] = case, reason or f["reason"]
    return r


def replay_cross(f, work):
    bins, _ = build()
    d = disagree(bins, [json.dumps(f["case"])], os.path.join(work, "r"))
    return {"reason": d[1]} if d else None


# ------------------------------------------------------------------ C18: memory

def memory_run(tool, v, lines, base, timeout=None):
    """Run cases under a memory checker: (index of the failing case or None, text, output lines)."""
    path = base + ".cases"
    with open(path, "w") as f:
        f.writelines(l + "\n" for l in lines)
    if tool == "miri":
        args, extra = miri_cmd(v, path), MIRI_ENV
    else:
        # the report goes through the same pipe, so that it follows the number of its case
        args = ["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes", "--leak-check=no",
                os.path.join(TARGET, "mem-" + v, "debug/d7mem"), path]
        extra = {}
    rc, out = run_child(args, timeout=timeout, extra=extra, limited=False)
    if rc is None:
        raise Broken(f"{tool} {v} did not finish in time")
    if rc == 0 and "done" in out.splitlines()[-20:]:
        return None, "", out.splitlines()
    nums = re.findall(r"^case (\d+)$", out, re.M)
    if not nums:
        raise Broken(f"{tool} {v} ended with {rc}:\n{out[-3000:]}")
    tail = out[out.rindex(f"case {nums[-1]}"):]
    if rc == 0 or (rc > 0 and not re.search(r"Undefined Behavior|leak of|==\d+==|memory leaked", tail)):
        raise Broken(f"{tool} {v} ended with {rc}:\n{out[-3000:]}")
    return int(nums[-1]), tail[:1500], out.splitlines()


def simpler_line(line):
    kind, h = line.split(" ")
    b = [h[i:i + 2] for i in range(0, len(h), 2)]
    for x in smaller(b):
        yield kind + " " + "".join(x)
    for i in range(len(b)):
        if b[i] != "00":
            yield kind + " " + "".join(b[:i] + ["00"] + b[i + 1:])


def check_memory(prop, work):
    bins, _ = build(mem=True)
    r = Result()
    seen = set()
    sizes = {"memcheck": int(2000 * SCALE), "miri": int(24 * SCALE)}
    jobs = [(t, v, s) for t in ("miri", "memcheck") for s in range(CORES) for v in VARIANTS]

    def one(job):
        tool, v, s = job
        if r.failures:
            return
        base = os.path.join(work, f"{tool}-{v}-{s}")
        what = {"miri": "C18-interpreter", "memcheck": "C18"}[tool]
        lines = draw(bins[v], what, s, sizes[tool], base + ".draw")
        bad, text, out = memory_run(tool, v, lines, base)
        return job, lines, bad, text, [o for o in out if re.match(r"(accepted|refused|panicked) \d", o)]

    with cf.ThreadPoolExecutor(CORES) as ex:
        for res in ex.map(one, jobs):
            if res is None:
                continue
            (tool, v, s), lines, bad, text, outs = res
            for l, o in zip(lines, outs):
                how, allocations = o.split(" ")[:2]
                kind = l.split(" ")[0]
                r.evaluations += 1
                for k in (f"{tool} {how}", f"{tool} {'file' if kind.startswith('file') else kind}"):
                    r.labels[k] = r.labels.get(k, 0) + 1
                if len(l.split(" ")[1]) >= 4 and int(allocations) > 0:
                    seen.add(hash((tool, v, l)))
                    if len(r.samples) < 16 and len(l) < 300 and len(seen) % 701 == 5:
                        r.samples.append({"checker": tool, "dialect": v, "case": l, "result": how})
            if bad is not None:
                r.failures.append({"property": prop, "dialect": v, "sub": tool, "case": lines[bad],
                                   "reason": text})
    r.distinct = len(seen)
    for f in r.failures[:1]:
        def first(cands):
            try:
                # the interpreter takes seconds for a case
                bad, text, _ = memory_run(f["sub"], f["dialect"], cands[:400 if f["sub"] == "memcheck" else 25],
                                          os.path.join(work, "shrink"), timeout=120)
            except Broken:
                return None
            return None if bad is None else (bad, text)
        case, reason = shrink(f["case"], first, simpler_line, rounds=25 if f["sub"] == "memcheck" else 8)
        f["case"], f["reason"] = case, reason or f["reason"]
    r.failures = r.failures[:1]
    return r


def replay_memory(f, work):
    build(mem=True)
    bad, text, _ = memory_run(f["sub"], f["dialect"], [f["case"]], os.path.join(work, "r"))
    return None if bad is None else {"reason": text}


def check(prop):
    t0 = time.time()
    work = os.path.join(TARGET, f"work-{prop}-{os.getpid()}")
    os.makedirs(work)
    try:
        special = {"C18": check_memory, "C23": check_cross}.get(prop)
        if special:
            return finish(prop, special(prop, work), t0)
        bins, clis = build(cli=prop == "C17")
        return finish(prop, merge(explore(prop, bins, clis, work)), t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    f = json.load(open(path))
    prop = f["property"]
    if f.get("case") is None:
        raise Broken("this violation has no single case; run the check")
    work = os.path.join(TARGET, f"work-replay-{os.getpid()}")
    os.makedirs(work)
    try:
        if prop == "C18":
            r = replay_memory(f, work)
        elif prop == "C23" and f["sub"] == "dialects":
            r = replay_cross(f, work)
        else:
            bins, clis = build(cli=prop == "C17")
            v = f["dialect"]
            extra = {"D7_WORK": os.path.join(work, "w")}
            if v in clis:
                extra["D7_CLI"] = clis[v]
            out = os.path.join(work, "out.json")
            rc, o = run_child([bins[v], "replay", os.path.abspath(path), "--out", out], extra=extra)
            if rc is None or rc > 0:
                raise Broken(f"replay ended with {rc}: {o[-2000:]}")
            r = {"reason": f"ended by signal {-rc}"} if rc < 0 else json.load(open(out))["failure"]
        if r:
            print(r["reason"])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("the case passes")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--build"]:
            build(cli=True, mem=True)
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        return check(a[0])
    except Broken as e:
        print("CHECK-ERROR:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
