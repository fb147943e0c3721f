#!/usr/bin/env python3
"""Runs the solver harnesses of one property against /repo's current tree.

usage: bin/vk.py <PROPERTY> [--tier quick|thorough] [--only HARNESS] [-v]

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not decide.
"""
import json, os, re, subprocess, sys, time, shutil, signal, hashlib, glob
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from checks import CHECKS  # noqa: E402

KANI = os.path.expanduser("~/.kani/kani-0.68.0")
KB = os.path.join(KANI, "bin")
SOL = '--cfg target_os="solana" --cfg swig_verif -Aexplicit_builtin_cfgs_in_flags -Awarnings'
HOST = "x86_64-unknown-linux-gnu"
T0 = time.time()
V = False


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


class Fatal(Exception):
    pass


LIVE, STOP = set(), [False]


def stop_all():
    """ends every tool this run still has running"""
    STOP[0] = True
    for p in list(LIVE):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def sh(cmd, timeout, cwd=None, env=None, mem_gb=None):
    e = dict(os.environ)
    e.update(env or {})

    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))

    if STOP[0]:
        return None, "", "stopped"
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    LIVE.add(p)
    try:
        o, er = p.communicate(timeout=timeout)
        LIVE.discard(p)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        LIVE.discard(p)
        return None, "", "timeout"
    return p.returncode, o.decode("utf8", "replace"), er.decode("utf8", "replace")


# ------------------------------------------------------------------ harness sources
HRE = re.compile(r"((?:[ \t]*///[^\n]*\n)+)\s*\[(\d+),\s*(\d+)\]\s*fn\s+(\w+)\(\)")


def harness_table(path):
    out = []
    src = open(path).read()
    for m in HRE.finditer(src):
        doc = " ".join(l.strip()[3:].strip() for l in m.group(1).strip().splitlines())
        opts = dict(re.findall(r"@(\w+)=(\S+)", doc))
        flags = set(re.findall(r"#(\w+)", doc))
        body = re.sub(r"[@]\w+=\S+|#\w+", "", doc).strip()
        bound = body.split("bound:", 1)[1].strip() if "bound:" in body else body
        out.append(dict(name=m.group(4), q=int(m.group(2)), t=int(m.group(3)), opts=opts, flags=flags, bound=bound))
    return out


# ------------------------------------------------------------------ building
def put(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


ARMS = ["process_" + n for n in (
    "create_v1 sign_v2 add_authority_v1 remove_authority_v1 update_authority_v1 create_session_v1 create_sub_account_v1 "
    "withdraw_from_sub_account_v1 sub_account_sign_v1 toggle_sub_account_v1 migrate_to_wallet_address_v1 transfer_assets_v1 "
    "close_token_account_v1 close_swig_v1 replace_authority_v1 set_rent_claimer_v1 create_sub_account_v2 toggle_sub_account_v2 "
    "sub_account_sign_v2 withdraw_from_sub_account_v2").split()]


def generate(crate, feats):
    """source files derived from /repo's current tree that the harnesses are compiled with"""
    d = os.path.join(ROOT, "build", "gen")
    os.makedirs(d, exist_ok=True)
    if "c24" in feats:
        s = open("/repo/instructions/src/compact_instructions.rs").read()
        put(os.path.join(d, "compact_instructions.rs"), s.replace("std::collections::", "crate::map::"))
    if crate == "prog":
        # each harness sends one kind of instruction and uses some kinds of roles: the dispatcher's
        # other arms and the other signature schemes are replaced by stand-ins that fail the check if
        # they are ever reached (they would only slow the encoding down)
        dead, arms, auths = [], [], []
        known = {"&[AccountInfo]", "&[u8]", "&[AccountClassification]", "&mut [AccountClassification]", "u64", "u32", "usize",
                 "&[u8; 33]", "&[u8; 32]", "&[u8; 40]", "Option<u8>"}

        def stand_in(path, f, name, ps):
            ts = [x.split(":", 1)[1].strip().replace("MAX_INSTRUCTION_PREFIX_LEN", "40") for x in ps.split(",") if ":" in x]
            if not set(ts) <= known:
                return None
            dead.append("pub fn dead_%s(%s) -> Result<(), ProgramError> {\n    chk!(false, \"nothing else is reached\");\n    Ok(())\n}"
                        % (name, ", ".join("_: " + t for t in ts)))
            return " stub(%s::%s => crate::dead::dead_%s)" % (path, name, name)

        for name, ps in re.findall(r"\nfn (process_\w+)\(([^()]*)\) -> ProgramResult \{", open("/repo/program/src/actions/mod.rs").read()):
            if name in ARMS:
                arms.append((name, stand_in("swig::actions", "", name, ps)))
        for tag, mod, name in (("k1", "secp256k1", "secp256k1_authenticate"), ("r1", "secp256r1", "secp256r1_authenticate"),
                               ("px", "programexec", "program_exec_authenticate")):
            f = "/repo/state/src/authority/" + mod
            f = f + ".rs" if os.path.exists(f + ".rs") else f + "/mod.rs"
            g = re.search(r"\n(?:pub )?fn %s\(([^()]*(?:\(\)[^()]*)*)\) -> Result<\(\), ProgramError> \{" % name, open(f).read()) if os.path.exists(f) else None
            if g:
                auths.append((tag, stand_in("swig_state::authority::" + mod, "", name, g.group(1))))
        put(os.path.join(d, "dead.rs"), "#![allow(unused_imports)]\nuse pinocchio::{account_info::AccountInfo, program_error::ProgramError};\nuse swig_state::AccountClassification;\n" + "\n".join(dead) + "\n")
        for f in feats:
            p = os.path.join(ROOT, "h", crate, "src", f + ".rs")
            if not os.path.exists(p):
                continue
            t = open(p).read()
            only = re.findall(r"//@ only:([^\n]*)", t)
            only = only[0].split() if only else []

            def add(m):
                o = re.findall(r"@only=(\S+)", m.group(1))
                keep = ["process_" + k for k in (o[0].split(",") if o else only)]
                if not set(keep) <= {n for n, _ in arms}:
                    keep = []  # the dispatcher was rearranged: use all of it as it is
                st = [x for n, x in arms if x and keep and n not in keep] + [x for tag, x in auths if x and keep and "#" + tag not in m.group(1)]
                return m.group(0) + "".join(st)
            put(os.path.join(d, f + ".rs"), re.sub(r"((?:[ \t]*///[^\n]*\n)+)\s*\[\d+,\s*\d+\]\s*fn\s+\w+\(\)", add, t))


def build_goto(crate, feats, target):
    generate(crate, feats)
    cdir = os.path.join(ROOT, "h", crate)
    lock = os.path.join(cdir, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy("/repo/Cargo.lock", lock)
    os.utime(os.path.join(cdir, "src/lib.rs"))
    cmd = ["cargo", "kani", "--only-codegen", "--no-assertion-reach-checks", "-Z", "unstable-options",
           "--features", ",".join(feats), "--lib"] + (["-Z", "stubbing"] if crate == "prog" or any(" stub(" in open(os.path.join(cdir, "src", f + ".rs")).read() for f in feats if f[0] == "c") else [])
    env = {"RUSTFLAGS": SOL, "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": target, "CARGO_TERM_COLOR": "never"}
    start = time.time() - 1
    rc, o, e = sh(cmd, 600, cwd=cdir, env=env)
    if rc != 0:
        raise Fatal("kani codegen failed:\n" + "\n".join((o + e).splitlines()[-60:]))
    metas = [m for m in glob.glob(os.path.join(target, "**", "*.kani-metadata.json"), recursive=True)
             if os.path.getmtime(m) >= start]
    hs = {}
    for m in metas:
        d = json.load(open(m))
        for h in d.get("proof_harnesses", []):
            hs[h["pretty_name"].split("::")[-1]] = h
    return hs


def build_replay(crate, feats, target, release=False, asan=False):
    cdir = os.path.join(ROOT, "h", crate)
    tc = "nightly" if asan else "1.91.0"
    env = {"RUSTUP_TOOLCHAIN": tc, "RUSTFLAGS": SOL + (" -Zsanitizer=address" if asan else ""),
           "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": target + ("-asan" if asan else ""), "CARGO_TERM_COLOR": "never"}
    cmd = ["cargo", "build", "--bin", "replay", "--features", ",".join(feats), "--target", HOST] + (["--release"] if release else [])
    rc, o, e = sh(cmd, 400, cwd=cdir, env=env)
    if rc != 0:
        raise Fatal("replay build failed:\n" + "\n".join((o + e).splitlines()[-40:]))
    return os.path.join(env["CARGO_TARGET_DIR"], HOST, "release" if release else "debug", "replay")


def link_goto(h, outdir):
    sym, fn = h["goto_file"], h["mangled_name"]
    out = os.path.join(outdir, h["pretty_name"].replace("::", "_") + ".out")
    steps = [
        ["goto-cc", sym, os.path.join(KANI, "library/kani/kani_lib.c"), "-o", out],
        ["goto-cc", out, "--function", fn, "-o", out],
        ["goto-instrument", "--add-library", "--no-malloc-may-fail", out, out],
        ["goto-instrument", "--generate-function-body-options", "assert-false-assume-false",
         "--generate-function-body", ".*", "--drop-unused-functions", out, out],
        ["goto-instrument", "--ensure-one-backedge-per-target", out, out],
    ]
    for s in steps:
        s[0] = os.path.join(KB, s[0])
        rc, o, e = sh(s, 300)
        if rc != 0:
            raise Fatal("link step failed: %s\n%s" % (" ".join(s), (o + e)[-2000:]))
    return out


# ------------------------------------------------------------------ solving
def base_cmd(unwind, opts):
    cmd = [os.path.join(KB, "cbmc"), "--no-malloc-may-fail", "--no-undefined-shift-check",
           "--no-signed-overflow-check", "--no-self-loops-to-assumptions", "--no-pointer-primitive-check",
           "--object-bits", opts.get("objbits", "12"), "--unwind", str(unwind)]
    us = ["memcmp.0:%s" % opts.get("memcmp", "66")] + ["%s:%d" % kv for kv in sorted(opts.get("_grown", {}).items())]
    if "fs" in opts:
        cmd += ["--max-field-sensitivity-array-size", opts["fs"]]
    if "unwindset" in opts:
        us += opts["unwindset"].split(",")
    cmd += ["--unwindset", ",".join(us)]
    return cmd + {"cadical": ["--sat-solver", "cadical"], "minisat": [], "z3": ["--z3"], "bitwuzla": ["--bitwuzla"],
                  "cvc5": ["--cvc5"]}[opts.get("solver", "cadical")]


def properties(gb, unwind, opts):
    rc, o, e = sh(base_cmd(unwind, opts) + ["--show-properties", "--json-ui", gb], 200)
    try:
        for x in json.loads(o):
            if "properties" in x:
                return x["properties"]
    except Exception:
        pass
    raise Fatal("cannot list properties: " + (o + e)[-500:])


def cbmc(gb, unwind, opts, timeout, props, mode, mem=12):
    """mode: 'first' stop at the first failing property; 'all'; 'trace' unsliced, with traces"""
    cmd = base_cmd(unwind, opts)
    cmd += {"first": ["--slice-formula", "--stop-on-fail"], "all": ["--slice-formula"], "trace": ["--trace"]}[mode]
    for q in props:
        cmd += ["--property", q]
    cmd += [gb, "--verbosity", "9", "--json-ui"]
    t = time.time()
    rc, o, e = sh(cmd, timeout, mem_gb=mem)
    dt = time.time() - t
    if rc is None:
        return dict(status="timeout", wall=dt)
    try:
        d = json.loads(o)
    except Exception:
        return dict(status="error", wall=dt, msg="rc=%s " % rc + (o[-1500:] + e[-1500:]))
    r = dict(status="ok", wall=dt, results=[], stats={}, rc=rc)
    for x in d:
        if "result" in x:
            r["results"] = x["result"]
        if "trace" in x and mode == "first":
            st = [y for y in x["trace"] if y.get("stepType") == "failure"][-1]
            r["results"] = [dict(property=st["property"], description=st.get("reason", ""), status="FAILURE", sourceLocation=st.get("sourceLocation", {}))]
        m = x.get("messageText", "")
        if not m:
            continue
        for k, rx in (("steps", r"size of program expression: (\d+) steps"), ("vccs", r"Generated (\d+) VCC"),
                      ("vccs_left", r"Generated \d+ VCC\(s\), (\d+) remaining"), ("vars", r"^(\d+) variables"),
                      ("clauses", r"variables, (\d+) clauses"), ("solver_s", r"Runtime decision procedure: ([\d.e+-]+)s"),
                      ("symex_s", r"Runtime Symex: ([\d.e+-]+)s")):
            g = re.search(rx, m)
            if g:
                v = float(g.group(1))
                if k == "solver_s":
                    r["stats"][k] = r["stats"].get(k, 0) + v
                else:
                    r["stats"][k] = max(r["stats"].get(k, 0), v)
        if x.get("messageType") == "ERROR":
            r["status"], r["msg"] = "error", m
    if not r["results"]:
        r["status"] = "error"
        r.setdefault("msg", o[-800:])
    return r


def fname(res):
    return res.get("sourceLocation", {}).get("function", "")


def classify(res):
    """-> (class, failed)"""
    p, d = res["property"], res.get("description", "")
    failed = res["status"] == "FAILURE"
    if ".cover." in p:
        return "cover", failed
    if d.startswith("VP: ") or d.startswith('"VP: '):
        return "vp", failed
    if "unwind" in p or "unwinding assertion" in d or "recursion" in p:
        return "unwind", failed
    if "misaligned pointer" in d:
        return "align", failed
    if "unsupported" in p or "is not currently supported" in d or "no-body" in p or "no_body" in p:
        return "unsupported", failed
    if "pointer_dereference" in p or "dereference failure" in d or "safety_check" in p or "memcpy" in p or "memmove" in p or "array_bounds" in p \
            or "pointer_arithmetic" in p or "memset" in p or "memcmp" in p or "precondition" in p or "bit_count" in p:
        return "memory", failed
    if d.startswith("attempt to") and ("overflow" in d or "by zero" in d):
        return "overflow", failed
    return "panic", failed


def nondets(trace):
    out = []
    for s in trace:
        if s.get("stepType") != "assignment":
            continue
        fn = s.get("sourceLocation", {}).get("function", "")
        lhs = s.get("lhs", "")
        if not lhs.startswith("goto_symex$$return_value") or lhs.endswith("]"):
            continue
        if "any_raw" not in fn and "any_raw" not in lhs:
            continue
        v = s.get("value", {})
        if "elements" in v:  # array
            for el in v["elements"]:
                out += bits(el["value"])
        else:
            out += bits(v)
    return out


def bits(v):
    b = v.get("binary")
    if b is None:
        raise Fatal("trace value without bits: " + json.dumps(v)[:200])
    n = (len(b) + 7) // 8
    return list(int(b, 2).to_bytes(n, "little"))


def native(binp, name, stream, tmp, env=None):
    f = os.path.join(tmp, name + "-" + hashlib.sha1(bytes(stream)).hexdigest()[:10] + ".hex")
    open(f, "w").write(" ".join("%02x" % x for x in stream) + "\n")
    rc, o, e = sh([binp, name, f], 60, env=env)
    return rc, o, e, f


def main():
    global V
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--only" in a:
        only = a[a.index("--only") + 1]
    V = "-v" in a
    C = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    feat = prop.lower()
    crate = C["crate"]
    feats = [feat] + (["thorough"] if tier == "thorough" else [])
    build = os.path.join(ROOT, "build")
    os.makedirs(build, exist_ok=True)
    tmp = os.path.join(build, "run-" + prop)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    evd = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evd), exist_ok=True)
    if os.path.exists(evd):
        os.remove(evd)
    table = harness_table(os.path.join(ROOT, "h", crate, "src", feat + ".rs"))
    if only:
        table = [h for h in table if h["name"] == only]
    if tier == "quick":
        table = [h for h in table if "thorough" not in h["flags"]]
    ex = ThreadPoolExecutor(int(os.environ.get("VK_JOBS", "8")))
    hs = build_goto(crate, feats, os.path.join(build, "kani-" + crate))
    log("codegen done: %d harnesses" % len(hs))
    ex2 = ThreadPoolExecutor(2)
    rb = ex2.submit(build_replay, crate, feats, os.path.join(build, "native-" + crate))
    cap = float(C.get("cap", 400 if tier == "quick" else 3000))

    panics_ok = C.get("panics", "allowed") == "allowed"
    known = load_known()

    def unw(h):
        return h["q"] if tier == "quick" else h["t"]

    def prepare(h):
        meta = hs.get(h["name"])
        if meta is None:
            raise Fatal("harness %s missing from codegen" % h["name"])
        h["gb"] = link_goto(meta, tmp)
        nopanic = ("nopanic" in h["flags"]) or not panics_ok
        h["checks"], h["covers"], h["fns"] = {}, {}, set()
        for x in properties(h["gb"], unw(h), h["opts"]):
            x = dict(property=x["name"], description=x.get("description", ""), sourceLocation=x.get("sourceLocation", {}), status="")
            c, _ = classify(x)
            fn = fname(x)
            h["fns"].add(fn)
            if c == "cover":
                h["covers"][x["property"]] = x
            elif c == "align" or (c == "panic" and not nopanic):
                continue
            elif c == "overflow" and not nopanic and ("by zero" in x["description"] or not re.search(r"swig|Swig", fn)):
                continue
            else:
                x["class"] = c
                h["checks"][x["property"]] = x
        return h

    def budget(h):
        left = (830 if tier == "quick" else 6000) - (time.time() - T0)
        return max(5, min(left, float(h["opts"].get("timeout", cap))))

    def solve(h, skip=()):
        """first failing check outside `skip`, unwinding problems set aside"""
        skip = set(skip)
        probs = []
        while True:
            r = cbmc(h["gb"], unw(h), h["opts"], budget(h), [q for q in h["checks"] if q not in skip], "first", int(h["opts"].get("mem", "14")))
            r["skip"], r["probs"] = skip, probs
            if r["status"] != "ok":
                return r
            # the unwinding assertions of loops are created on the fly and are always part of the run
            bad = [x for x in r["results"] if x["status"] == "FAILURE" and x["property"] not in skip]
            if not bad:
                return r
            x = bad[0]
            c = classify(x)[0]
            g = re.match(r"(.*)\.unwind\.(\d+)$", x["property"])
            if c == "unwind" and g:
                # the loop needs more rounds than the harness allows for: allow more, then ask again
                loop = g.group(1) + "." + g.group(2)
                n = h["opts"].setdefault("_grown", {}).get(loop, unw(h))
                if "," in loop and unw(h) < 130:  # such a name cannot be given to --unwindset
                    h["q" if tier == "quick" else "t"] = 3 * unw(h) + 6
                    continue
                if n < 130 and "," not in loop:
                    h["opts"]["_grown"][loop] = 3 * n + 6
                    continue
            if c in ("unwind", "unsupported"):
                probs.append("%s: %s (%s) in %s" % (h["name"], x.get("description"), x["property"], fname(x)))
                more = {q for q, y in h["checks"].items() if y["class"] == c} | {x["property"]}
                if more <= skip:
                    return r
                skip |= more
                continue
            r["bad"] = x
            return r

    def cover(h):
        if not h["covers"]:
            return dict(status="ok", wall=0, results=[], stats={})
        grown = len(h["opts"].get("_grown", {}))
        r = cbmc(h["gb"], unw(h), h["opts"], budget(h), list(h["covers"]), "all", int(h["opts"].get("mem", "14")))
        r["grown"] = grown
        return r

    table.sort(key=lambda h: -float(h["opts"].get("weight", "1")))
    list(ex.map(prepare, table))
    fs = [(h, ex.submit(solve, h)) for h in table]
    fc = [(h, ex.submit(cover, h)) for h in table]
    problems, covers, functions, per = [], [], set(), []
    oblig = disch = 0
    solver_s = steps = vccs = 0
    def confirm(h, r):
        """replays a counterexample against the real code; looks for another one when it does not hold up"""
        rbin, rel = rb.result(), rl.result()
        for attempt in range(5):
            x = r["bad"]
            c = classify(x)[0]
            desc = x.get("description", "").strip('"')
            r["skip"].add(x["property"])
            tr = cbmc(h["gb"], unw(h), h["opts"], cap, [x["property"]], "trace", mem=18)
            res = [y for y in tr.get("results", []) if y["property"] == x["property"] and "trace" in y]
            done = False
            if not res:
                problems.append("%s: no trace for %s (%s)" % (h["name"], desc, tr["status"]))
            else:
                stream = nondets(res[0]["trace"])
                ok, detail = [], ""
                for tag, b in (("dev", rbin), ("release", rel)):
                    rc, o, e, f = native(b, h["name"], stream, tmp)
                    if rc not in (0, 3, 4) and (c != "vp" or "VP: " in e):
                        ok.append(tag)
                        detail = (e.strip().splitlines() or [""])[-1] if "panicked" not in e else " ".join(e.split("panicked", 1)[1].split())[:300]
                    elif rc == 3:
                        detail = "assumption not met natively"
                    elif rc == 4:
                        detail = "no such harness"
                    elif rc:
                        detail = "other failure: " + e[-200:]
                if not ok and c in ("memory", "panic", "overflow"):
                    if asan[0] is None:
                        asan[0] = build_replay(crate, feats, os.path.join(build, "native-" + crate), asan=True)
                    rc, o, e, f = native(asan[0], h["name"], stream, tmp, env={"ASAN_OPTIONS": "detect_leaks=0"})
                    if rc not in (0, 3, 4):
                        ok.append("asan")
                        detail = (re.findall(r"ERROR: AddressSanitizer[^\n]*", e) or [e[-300:]])[0]
                if ok and "VP: " not in detail and re.match(r"at src/\w+\.rs", detail):
                    problems.append("%s: the harness itself failed on '%s' (%s)" % (h["name"], desc, detail))
                elif not ok:
                    problems.append("%s: counterexample to '%s' in %s did not reproduce natively (%s)" % (h["name"], desc, fname(x), detail))
                else:
                    k = match_known(known, prop, h["name"], desc, fname(x))
                    if k:
                        if k not in [q for q, _ in knownhits]:
                            knownhits.append((k, desc))
                    else:
                        rp = os.path.join(ROOT, "replays", "%s-%s.json" % (prop, os.path.basename(f)[:-4]))
                        os.makedirs(os.path.dirname(rp), exist_ok=True)
                        json.dump(dict(property=prop, harness=h["name"], crate=crate, features=feats, check=desc, function=fname(x),
                                       location=x.get("sourceLocation", {}), reproduced_in=ok, detail=detail,
                                       inputs_hex=" ".join("%02x" % b for b in stream),
                                       how="cargo build --bin replay --features %s in h/%s with RUSTFLAGS=%r; replay %s FILE-WITH-inputs_hex"
                                           % (",".join(feats), crate, SOL, h["name"])), open(rp, "w"), indent=1)
                        violations.append((h["name"], desc, rp, detail))
                        log("reproduced:", h["name"], desc, ok, detail)
                        done = True
            if done or time.time() - T0 > cap + 200:
                break
            r2 = solve(h, r["skip"])
            if "bad" not in r2:
                if r2["status"] != "ok":
                    problems.append("%s: %s after setting aside %s" % (h["name"], r2["status"], desc))
                break
            r = r2

    rl = None
    violations, knownhits = [], []
    asan = [None]
    of = {f: h for h, f in fs}
    for f in as_completed(of):
        h, r = of[f], f.result()
        n = h["name"]
        functions |= h["fns"]
        problems += r["probs"]
        oblig += len(h["checks"])
        if r["status"] != "ok":
            problems.append("%s: %s %s" % (n, r["status"], r.get("msg", "")[-600:]))
            log(n, r["status"], "%.1fs" % r["wall"], r.get("msg", "")[-600:] if V else "")
            continue
        if "bad" not in r:
            disch += len([q for q in h["checks"] if q not in r["skip"]])
        s = r["stats"]
        solver_s += s.get("solver_s", 0)
        steps += int(s.get("steps", 0))
        vccs += int(s.get("vccs", 0))
        cnt = {}
        for x in h["checks"].values():
            cnt[x["class"]] = cnt.get(x["class"], 0) + 1
        per.append(dict(harness=n, bound=h["bound"], unwind=unw(h), wall_s=round(r["wall"], 2), checks=cnt, verdict="failed" if "bad" in r else "held",
                        stats={k: round(v, 3) for k, v in s.items()}))
        log(n, "FAILED: " + r["bad"].get("description", "") if "bad" in r else "held", "%.1fs" % r["wall"], "steps=%d" % s.get("steps", 0),
            "solver=%.2fs" % s.get("solver_s", 0), cnt)
        if "bad" in r:
            if rl is None:
                for _, g in fc:
                    g.cancel()
                rl = ex2.submit(build_replay, crate, feats, os.path.join(build, "native-" + crate), True)
            confirm(h, r)
            if violations:
                stop_all()
                break
    # ---- witnesses: solver models of reachable points, re-executed against the real code
    validated, samples, undecided = 0, [], []
    if not violations:
        for h, f in fc:
            if f.cancelled():
                f = ex.submit(cover, h)
            r = f.result()
            if r.get("grown", 0) != len(h["opts"].get("_grown", {})):
                r = cover(h)
            if r["status"] != "ok":
                # no verdict on reachability: the checks themselves are decided separately
                log("%s: witnesses undecided: %s %s" % (h["name"], r["status"], r.get("msg", "")[-300:]))
                undecided.append(h["name"])
                continue
            solver_s += r["stats"].get("solver_s", 0)
            for x in r["results"]:
                if x["property"] in h["covers"]:
                    hit = x["status"] == "FAILURE"
                    covers.append((h, x, hit, r["wall"]))
                    if not hit:
                        problems.append("%s: witness not reachable: %s" % (h["name"], x.get("description")))
        pick = {}
        for h, x, hit, wall in sorted(covers, key=lambda c: c[3]):
            if hit and h["name"] not in pick and wall < (25 if tier == "thorough" else 12):
                pick[h["name"]] = (h, x)
        rbin = rb.result()

        def wv(t):
            h, x = t
            tr = cbmc(h["gb"], unw(h), h["opts"], 90, [x["property"]], "trace")
            res = [y for y in tr.get("results", []) if y["property"] == x["property"] and "trace" in y]
            if not res:
                return None
            stream = nondets(res[0]["trace"])
            rc, o, e, f = native(rbin, h["name"], stream, tmp)
            d = x["description"].strip('"')
            return h["name"], d, rc, ("HIT " + d) in o, stream, (e or o)[-200:]

        for t in ex.map(wv, list(pick.values())[:12 if tier == "thorough" else 4] if not problems else []):
            if not t:
                continue
            n, d, rc, hit, stream, tail = t
            if rc == 0 and hit:
                validated += 1
                samples.append(dict(harness=n, witness=d, input_hex="".join("%02x" % b for b in stream)[:400]))
            else:
                log("witness not reproduced natively:", n, d, rc, tail)
    if not samples:
        samples = [dict(harness=p["harness"], bound=p["bound"]) for p in per[:3]] or [{"none": True}]
    repo_fns = sorted(f for f in functions if re.search(r"swig|Swig", f))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 1), violations=len(violations),
              coverage=dict(
                  states=steps, transitions=vccs, traces_validated_against_impl=validated, samples=samples,
                  meaning="bounded symbolic execution (CBMC): states = SSA steps of the unrolled real code, transitions = verification "
                          "conditions generated from it, traces_validated_against_impl = solver models of reachability witnesses "
                          "re-executed natively against the real code with the same outcome",
                  obligations=oblig, discharged=disch, witnesses=len(covers), witnesses_reached=sum(1 for c in covers if c[2]),
                  witnesses_undecided=undecided,
                  solver_seconds=round(solver_s, 2), functions_encoded=repo_fns, harnesses=per,
                  outside_the_claim=C.get("outside", []), known_findings=[k["what"] for k, _ in knownhits], problems=problems),
              assumptions=C.get("assume", []))
    json.dump(ev, open(evd, "w"), indent=1)
    for k, d in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, d, rp, det in violations:
        print("harness %s: %s -- %s" % (n, d, det))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    for p in problems:
        print("PROBLEM", p)
    if not V:
        shutil.rmtree(tmp, ignore_errors=True)
    log("obligations %d/%d, witnesses %d/%d, validated %d" % (disch, oblig, ev["coverage"]["witnesses_reached"], len(covers), validated))
    if violations:
        return 1
    return 2 if problems else 0


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def match_known(known, prop, harness, desc, fn):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and k["harness"] == harness and k["check"] == desc and k.get("function", fn) == fn:
            return k
    return None


if __name__ == "__main__":
    try:
        rc = main()
    except Fatal as e:
        print("PROBLEM", e)
        rc = 2
    sys.stdout.flush()
    stop_all()
    os._exit(rc)
