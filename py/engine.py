"""Machinery shared by the checks: build the tool from /repo, run the compiler of /repo on programs, translate the code it
emits, attach contracts, run Verus on every function, run the emitted code against the reference interpreter."""
import json, os, re, shutil, signal, subprocess, time, threading
from concurrent.futures import ThreadPoolExecutor
import contracts, driver, prelude, ps

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(ROOT, "build")
REPO = os.environ.get("VERIF_REPO_DEV", "/repo")
JOBS = 8
VERIFY_ERRORS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "assertion failure", "possible arithmetic", "possible division", "loop must have a decreases", "decreases not satisfied", "unable to prove", "index out of bounds", "might not be allowed", "failed this postcondition", "invariant_except_break", "loop ensures not satisfied")

class Broken(Exception): pass

def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)

def build_tool():
    env = dict(os.environ, CARGO_INCREMENTAL="0")
    r = sh(["cargo", "+1.90.0", "build", "--offline", "--locked", "--target-dir", os.path.join(BUILD, "tool")], cwd=os.path.join(ROOT, "tool"), env=env)
    if r.returncode: raise Broken("the tool does not build against /repo:\n" + r.stderr[-3000:])
    return os.path.join(BUILD, "tool", "debug", "psv")

def psv_one(cmd, src, files, name="p", asy=False, timeout=30):
    inp = json.dumps({"programs": [{"name": name, "src": src, "async": asy, "anyhow": False, "files": files}]})
    try:
        r = subprocess.run([os.path.join(BUILD, "tool", "debug", "psv"), cmd], input=inp, capture_output=True, text=True, timeout=timeout)
        return json.loads(r.stdout)["results"][0] if r.returncode == 0 else {"ok": False, "stage": "crash", "error": f"exit {r.returncode} " + r.stderr[-500:]}
    except subprocess.TimeoutExpired: return {"ok": False, "stage": "hang", "error": f"no answer within {timeout} s"}

def psv_raw(cmd, arg, each=False, timeout=120):
    """`each`: the answer is a list for arg["texts"]; a text on which the code does not come back is found by halving"""
    try:
        r = subprocess.run([os.path.join(BUILD, "tool", "debug", "psv"), cmd], input=json.dumps(arg), capture_output=True, text=True, timeout=timeout)
        if r.returncode == 0: return json.loads(r.stdout)
        why = {"crash": r.returncode}
    except subprocess.TimeoutExpired: why = {"hang": f"no answer within {timeout} s"}
    if not each: raise Broken(f"{cmd}: {why}")
    ts = arg["texts"]
    if len(ts) <= 1: return [why] * len(ts)
    k = len(ts) // 2; t = max(5, timeout // 4)
    a = psv_raw(cmd, dict(arg, texts=ts[:k]), True, t)
    if any(isinstance(x, dict) and ("hang" in x or "crash" in x) for x in a): return a + [None] * (len(ts) - k)    # one is enough
    return a + psv_raw(cmd, dict(arg, texts=ts[k:]), True, t)

def psv(cmd, progs, timeout=30):
    """one process per program, so that a compiler that does not come back is noticed"""
    def one(p): return psv_one(cmd, p.src(), p.files, p.name, p.asy, timeout)
    with ThreadPoolExecutor(JOBS) as ex: return list(ex.map(one, progs))

# ------------------------------------------------------------------ Verus
DEADLINE = [float("inf")]    # no Verus run goes on beyond this

def group_run(cmd, timeout):
    """runs cmd in a process group of its own, which is ended with it"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try: o, e = p.communicate(timeout=timeout); return o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate(); return None, ""

def verus(text, path, rlimit=40, timeout=150):
    open(path, "w").write(text)
    left = DEADLINE[0] - time.time()
    if left < 3: return {"state": "undecided", "why": "time limit", "stderr": "", "fns": []}
    out, err = group_run(["verus", "--crate-type=lib", "--rlimit", str(rlimit), "--output-json", "--time-expanded", path], min(timeout, left))
    if out is None: return {"state": "undecided", "why": "time limit", "stderr": "", "fns": []}
    try: j = json.loads(out)
    except ValueError: return {"state": "unsupported", "why": "front end", "stderr": err, "fns": []}
    v = j.get("verification-results", {})
    fns = []
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []): fns.append((f["function"].split("::", 1)[1], f["success"], f["time-micros"]))
    o = {"stderr": err, "fns": fns, "verified": v.get("verified", 0), "errors": v.get("errors", 0), "solver_us": sum(f[2] for f in fns)}
    if v.get("success"): o["state"] = "ok"
    elif v.get("encountered-vir-error") or not fns and not v.get("errors"): o["state"] = "unsupported"; o["why"] = "front end"
    else:
        es = [l for l in err.splitlines() if l.startswith("error") and "aborting due" not in l]
        hard = [l for l in es if not any(x in l for x in VERIFY_ERRORS)]
        if any("Resource limit" in l or "rlimit" in l for l in es) : o["state"] = "undecided"; o["why"] = "resource limit"
        elif hard: o["state"] = "unsupported"; o["why"] = hard[0][:200]
        else: o["state"] = "failed"
    return o

def templates():
    r = subprocess.run([os.path.join(BUILD, "tool", "debug", "psv"), "templates"], input="{}", capture_output=True, text=True, timeout=120)
    if r.returncode: raise Broken("templates: " + r.stderr[-500:])
    return json.loads(r.stdout)["results"]

def module(p, code): return f"mod m_{p.name} {{ use super::*; verus! {{ broadcast use vs_seq;\n{code}\n}} }}\nfn main(){{}}\n"

def failed_functions(res, text):
    """[(function, error)] from the messages, by position in the text"""
    lines = text.split("\n"); o = []
    starts = [(i, m.group(1)) for i, l in enumerate(lines) for m in [re.search(r"\bfn (\w+)", l)] if m and "spec fn" not in l]
    names = {f[0] for f in res["fns"] if not f[1]}
    for m in re.finditer(r"(?m)^error: ([^\n]*)\n((?:[ ]+[^\n]*\n)*)", res["stderr"]): o.append(m.group(1) + " @ " + " ".join(re.findall(r":(\d+):\d+", m.group(2))[:1]))
    return sorted(names), o

def verify(p, r, d, tag="", canary=None, rlimit=40, total=False, timeout=150):
    """p: program, r: its translation; total: decoders are shown to terminate -> result"""
    try: g = contracts.Gen(p, total); code, used, missing = g.weave(r["tr"])
    except contracts.NoContract as e: return {"state": "unsupported", "why": "no contract: " + str(e), "fns": []}
    except (KeyError, IndexError, AttributeError, TypeError) as e: return {"state": "unsupported", "why": f"weaving: {type(e).__name__} {e}", "fns": []}
    def spoil(code):
        ty, fn = canary.split("::")[-2:]; c = g.contracts()[f"{ty}:{fn}"]
        if code.count(c) != 1:    # sync and async share a contract text: restrict to the one function
            at = [m.start() for m in re.finditer(re.escape(c), code)]
            at = [a for a in at if code.rfind(f"fn {fn}", 0, a) == max(code.rfind("fn decode_", 0, a), code.rfind("fn encode_", 0, a))]
        else: at = [code.index(c)]
        if not at: raise Broken(f"canary: contract of {canary} not found")
        return code[:at[0]] + c.replace("ensures ", "ensures vs_r is Err, ", 1) + code[at[0] + len(c):]
    need = [k for k in missing if not k.endswith((":vs_to_be_bytes", ":vs_to_le_bytes"))]
    res = None
    # arithmetic hidden first, then the lemmas on what encoders append, then arithmetic revealed: one acceptance is enough
    for mode in ("", "_app", "_open"):
        if mode == "_app":
            if not g.pend: continue
            code = g.weave(r["tr"], append=True)[0]
        text = prelude.text(mode != "_open") + module(p, spoil(code) if canary else code)
        path = os.path.join(d, f"{p.name}{tag}{mode}.rs")
        res = verus(text, path, rlimit, timeout)
        if res["state"] in ("ok", "unsupported") or canary or res.get("why") == "time limit": break
    res["contracts"] = sorted(used); res["missing"] = need; res["path"] = path; res["text"] = text; res["terminating"] = g.terminating
    if res["state"] == "ok" and need: res["state"] = "unsupported"; res["why"] = "functions without a contract: " + ", ".join(need[:6])
    return res

# ------------------------------------------------------------------ differential
def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]

def differential(progs, codes, d, seed, n, jobs=JOBS, per=6, lenient=False):
    """-> {program: (cases, predicted errors, [(line, want, got)])}, {program: rustc messages}"""
    out = {}; rej = {}
    def go(k, group):
        exe, err = driver.build(group, codes, os.path.join(d, f"drv{k}"))
        if exe is None:
            if len(group) == 1: rej[group[0].name] = err; return
            for i, p in enumerate(group): go(f"{k}_{i}", [p])
            return
        for p in group:
            try: cs = driver.cases(p, seed, n)
            except Exception as e:
                if not lenient: raise
                cs = []; out.setdefault("", []).append(f"{p.name}: no inputs: {type(e).__name__} {e}")    # the reference has no answer for this program
            got = driver.run(exe, [c[0] for c in cs])
            out[p.name] = (len(cs), sum(c[1] == "E" for c in cs), [(c[0], c[1], g) for c, g in zip(cs, got) if g != "-" and not same(c[1], g)], len({c[0] for c in cs}))
        shutil.rmtree(os.path.join(d, f"drv{k}"), ignore_errors=True)
        shutil.rmtree(os.path.join(d, f"dep_target_drv{k}"), ignore_errors=True)
    gs = chunks(progs, max(1, min(per, -(-len(progs) // jobs))))
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(lambda a: go(*a), list(enumerate(gs))))
    return out, rej

def same(want, got): return want == got
