#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: builds the harness from /repo's working tree and decides one property.

Seed and tier come from VERIF_SEED and VERIF_TIER.  Exit 0: held on everything explored;
1: violated (a VIOLATION line names the replay file); 2: no answer (the harness could not run).
"""
import fcntl, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, "harness")
TARGET = os.path.join(H, "target")
REPLAYS = os.path.join(HERE, "replays")
ENV = {**os.environ, "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": TARGET, "CARGO_TERM_COLOR": "never"}
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE", "RUST_LOG", "RUNNER_TRACE"):
    ENV.pop(k, None)

def give_up(msg):
    print("check.py: no answer: " + msg, file=sys.stderr)
    sys.exit(2)

def cargo(args, limit=600):
    try:
        return subprocess.run(["cargo"] + args, cwd=H, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return None

def generate(seed, tier, skip):
    r = subprocess.run([os.path.join(TARGET, "debug", "gen"), os.path.join(H, "gen_out"), str(seed), tier, ",".join(skip)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        give_up("gen: " + r.stderr)

def decl_at(path, line):
    """The declaration a line of generated source belongs to."""
    name = None
    with open(path) as f:
        for n, t in enumerate(f, 1):
            if n > line:
                break
            m = re.match(r"\s*// decl (\S+)", t)
            if m:
                name = m.group(1)
    return name

def source_of(name):
    for k in range(8):
        p = os.path.join(H, "gen_out", f"t{k}.rs")
        out, on = [], False
        for t in open(p):
            m = re.match(r"\s*// decl (\S+)", t)
            if m:
                if on:
                    return "".join(out)
                on = m.group(1) == name
            elif on:
                out.append(t)
        if on and out:
            return "".join(out)
    return ""

def build_error(stdout):
    """(declarations with errors, errors elsewhere, text, tk only)"""
    bad, other, text, tk = {}, [], [], False
    for line in stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"].get("level") not in ("error", "error: internal compiler error"):
            continue
        msg = m["message"]
        if not msg.get("spans") and (msg["message"].startswith("aborting due") or msg["message"].startswith("could not compile")):
            continue
        text.append(msg.get("rendered") or msg["message"])
        hit = False
        for s in msg.get("spans", []):
            seen = [s]
            while seen[-1].get("expansion"):
                seen.append(seen[-1]["expansion"]["span"])
            for x in seen:
                g = re.search(r"gen_out/(t\d)\.rs$", os.path.normpath(x["file_name"]))
                if g:
                    n = decl_at(os.path.join(H, "gen_out", g.group(1) + ".rs"), x["line_start"])
                    if n and (s.get("is_primary") or not hit):
                        bad.setdefault(n, msg.get("rendered") or msg["message"])
                        hit = True
        if not hit:
            if m["target"]["name"] == "tk":
                tk = True
            other.append((m["target"]["name"], msg.get("rendered") or msg["message"]))
    return bad, other, "\n".join(text), tk

def build(seed, tier):
    """Builds everything.  Returns (runner, declarations left out, their errors)."""
    r = cargo(["build", "--offline", "-q", "-p", "gen"])
    if r is None or r.returncode != 0:
        give_up("cargo build gen:\n" + (r.stderr if r else "timed out"))
    skip, errors, features = [], {}, []
    for _ in range(12):
        generate(seed, tier, skip)
        r = cargo(["build", "--offline", "-p", "runner", "--keep-going", "--message-format=json"] + features)
        if r is None:
            give_up("cargo build: timed out")
        if r.returncode == 0:
            break
        bad, other, text, tk = build_error(r.stdout)
        for n, e in bad.items():
            errors.setdefault(n, e)
        new = [n for n in bad if n not in skip]
        if tk and not features:
            features = ["--no-default-features"]
            errors.setdefault("tk", "\n".join(e for t, e in other if t == "tk"))
        elif not new:
            give_up("cargo build:\n" + (text or r.stderr)[-6000:])
        skip += new
    else:
        give_up("cargo build: errors remain")
    return skip, errors

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run(exe, args, limit, env=None):
    try:
        r = subprocess.run([exe] + args, cwd=HERE, env=env or ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=limit, preexec_fn=limits)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return None, "", "timed out"

def small_evidence(path, prop, tier, seed, level, rule, sample, start):
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level,
               "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": rule, "samples": [sample[:2000]]},
               "wall_s": round(time.time() - start, 2), "violations": 1}, open(path, "w"), indent=1)

def parse(text):
    return dict(l.split(": ", 1) if ": " in l else (l.rstrip(":"), "") for l in text.splitlines() if ":" in l)

def crash(exe, prop, args, first, tier, seed, evidence, start):
    """The runner was ended by a signal: find the case that did it, and make it smaller."""
    with tempfile.TemporaryDirectory(prefix="yaserde-trace-") as d:
        code, out, err = run(exe, args, 600, {**ENV, "RUNNER_TRACE": d})
        if code is None or code >= 0:
            give_up(f"the runner was ended by signal {-first}, and not again")
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            text = open(p, errors="replace").read()
            def dies(t):
                q = os.path.join(d, "try")
                open(q, "w").write(t)
                c, o, e = run(exe, [prop, "--replay", q] + args[args.index("--skip"):], 120)
                return e if c is not None and c < 0 else None
            if not text or dies(text) is None:
                continue
            g = parse(text)
            def make(v, dd):
                return f"property: {prop}\ntier: {tier}\nseed: {seed}\ntarget: {g['target']}\nv: {' '.join(v)}\nd: {' '.join(dd)}\n"
            v, dd = g.get("v", "").split(), g.get("d", "").split()
            deadline = time.time() + 60
            for which in (0, 1):
                step = max(1, len((v, dd)[which]) // 2)
                while step and time.time() < deadline:
                    cur = [v, dd]
                    if len(cur[which]) >= step:
                        cur[which] = cur[which][:len(cur[which]) - step]
                        if dies(make(*cur)) is not None:
                            v, dd = cur
                            continue
                    step //= 2
            text = make(v, dd)
            why = (dies(text) or "").strip()
            path = os.path.join(REPLAYS, f"{prop}-0.txt")
            msg = f"the process is ended by signal {-first}: {why}"
            open(path, "w").write(text + f"detail: {msg}\n")
            small_evidence(evidence, prop, tier, seed, "exploration", "the case that ended the process", text, start)
            print(f"{g['target']}: {msg}")
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
    give_up(f"the runner was ended by signal {-first}; no single case does it again\n{err}")

def main():
    start = time.time()
    args = sys.argv[1:]
    if not args:
        give_up("usage: check.py <property> [--replay FILE]")
    prop = args[0]
    if prop == "--setup":
        os.makedirs(TARGET, exist_ok=True)
        build(1, "quick")
        return 0
    replay = os.path.abspath(args[args.index("--replay") + 1]) if "--replay" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0xFFFFFFFFFFFFFFFF
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if replay:
        g = parse(open(replay, errors="replace").read())
        tier, seed = g.get("tier", tier), int(g.get("seed", seed))
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    if not replay:
        for f in os.listdir(REPLAYS):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(REPLAYS, f))
    lock = open(os.path.join(TARGET, "check.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    skip, errors = build(seed, tier)
    exe = os.path.join(TARGET, f"runner-{os.getpid()}")
    shutil.copy2(os.path.join(TARGET, "debug", "runner"), exe)
    sources = {}
    if errors:
        generate(seed, tier, [])
        sources = {n: source_of(n) for n in errors if n != "tk"}
        generate(seed, tier, skip)
    fcntl.flock(lock, fcntl.LOCK_UN)
    try:
        if errors and prop == "C18":
            names = sorted(errors, key=lambda n: (n == "tk", len(sources.get(n, "")), n))
            for k, n in enumerate(names[:5]):
                path = os.path.join(REPLAYS, f"C18-{k}.txt")
                open(path, "w").write(f"property: C18\ntier: {tier}\nseed: {seed}\ndeclaration: {n}\n\n{sources.get(n, '')}\n{errors[n]}\n")
                print(f"{n} does not compile:\n{errors[n][:1500]}")
                print(f"VIOLATION property=C18 replay={path}")
            small_evidence(evidence, prop, tier, seed, "exploration", "declarations of the universe that do not compile", sources.get(names[0], names[0]), start)
            return 1
        if replay:
            code, out, err = run(exe, [prop, "--replay", replay, "--skip", ",".join(skip)], 300)
            print(out, end="")
            if code is not None and code < 0:
                print(f"the process is ended by signal {-code}\nVIOLATION property={prop} replay={replay}")
                return 1
            print(err, end="", file=sys.stderr)
            return code if code in (0, 1) else 2
        a = [prop, "--tier", tier, "--seed", str(seed), "--evidence", evidence, "--replays", REPLAYS,
             "--known", os.path.join(HERE, "known_findings.txt"), "--skip", ",".join(skip)]
        if os.path.exists(evidence):
            os.unlink(evidence)
        code, out, err = run(exe, a, 840 - (time.time() - start) if tier == "quick" else 4 * 3600)
        if code is not None and code < 0:
            crash(exe, prop, a, code, tier, seed, evidence, start)
        print(out, end="")
        if skip:
            print(f"left out, because they do not compile: {' '.join(skip)}")
        print(err, end="", file=sys.stderr)
        return code if code in (0, 1) else 2
    finally:
        if os.path.exists(exe):
            os.unlink(exe)

if __name__ == "__main__":
    sys.exit(main())
