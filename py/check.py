"""bin/check <property> <quick|thorough>"""
import json, os, random, re, shutil, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import corpus, driver, engine, findings
from engine import BUILD, ROOT, JOBS

SETTINGS = {"quick": dict(n=150, deeper=1200, canaries=8, rprogs=64, rverify=12, rn=60, verus_until=420, dn=8000), "thorough": dict(n=1500, deeper=6000, canaries=80, rprogs=1200, rverify=200, rn=150, verus_until=20000, dn=200000)}

class Run:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier; s.seed = int(os.environ.get("VERIF_SEED", "1") or 1); s.t0 = time.time()
        s.set = SETTINGS[tier]; s.viol = []; s.cov = {}; s.assume = []; s.notes = []
        s.dir = os.path.join(BUILD, f"{pid}-{tier}"); shutil.rmtree(s.dir, ignore_errors=True); os.makedirs(s.dir)
        s.rep = os.path.join(ROOT, "evidence", "replay"); os.makedirs(s.rep, exist_ok=True)
        for f in os.listdir(s.rep):
            if f.startswith(pid + "-"): os.remove(os.path.join(s.rep, f))
    def violation(s, kind, data, concrete=True):
        """record a violation: the replay file holds what is needed to reproduce it"""
        path = os.path.join(s.rep, f"{s.pid}-{len(s.viol) + 1}.json")
        json.dump(dict(property=s.pid, kind=kind, **data), open(path, "w"), indent=1)
        s.viol.append((path, concrete)); print(f"[{s.pid}] {kind}: {data.get('what', '')[:300]}", flush=True)

    # ---------------------------------------------------------------- code emitted for the programs of the corpus
    def corpus(s):
        progs = corpus.BY[s.pid](); st = {}; tot = s.pid == "P17"
        for p in progs: p.hostile = HEAP if tot else 0
        rs = {p.name: r for p, r in zip(progs, engine.psv("translate", progs))}
        ok = []
        for p in progs:
            r = rs[p.name]
            if not r.get("ok"): s.violation("compiler", dict(what=f"the compiler does not accept {p.name}: {r.get('stage')}: {r.get('error')}", program=p.name, source=p.src(), files=p.files, stage=r.get("stage"), error=r.get("error")))
            else: ok.append(p)
        for what, src, files in corpus.BAD.get(s.pid, []):
            r = engine.psv_one("gen", src, files); s.cov["rejections_checked"] = s.cov.get("rejections_checked", 0) + 1
            if r.get("ok") or r.get("stage") not in ("parse", "semantic"): s.violation("accepted", dict(what=f"{what}: " + ("accepted" if r.get("ok") else f"{r.get('stage')}: {r.get('error')}"), source=src, files=files))
        codes = {p.name: rs[p.name]["code"] for p in ok}
        vd = os.path.join(s.dir, "v"); os.makedirs(vd)
        with ThreadPoolExecutor(JOBS) as ex:
            fd = ex.submit(engine.differential, ok, codes, s.dir, s.seed, s.set["n"], 4)
            ver = {p.name: ex.submit(engine.verify, p, rs[p.name], vd, total=tot) for p in ok if "tr" in rs[p.name]}
            ver = {k: f.result() for k, f in ver.items()}; diff, rej = fd.result()
        bad = set(); undecided = []
        for p in ok:
            if p.name in rej:
                bad.add(p.name); e = "\n".join(x for x in re.split(r"(?m)^(?=error)", rej[p.name]) if x.startswith("error"))
                s.violation("rustc", dict(what=f"the code emitted for {p.name} does not compile: {e[:200]}", program=p.name, source=p.src(), files=p.files, rustc=e[:4000]))
            elif diff[p.name][2]: bad.add(p.name); s.mismatch(p, diff[p.name][2])
        # failed obligations without a failing input so far: look harder, then report
        ctr = dict(ok=0, failed=0, undecided=0, unsupported=0); obl = dis = sus = 0; fns = []; ends = []; bounded = {}
        for p in ok:
            v = ver.get(p.name) or {"state": "unsupported", "why": "translation: " + str(rs[p.name].get("unsupported") or rs[p.name].get("error")), "fns": []}
            ctr[v["state"]] += 1
            mine = [f for f in v["fns"] if f[0].startswith("m_")]
            obl += len(mine); dis += sum(f[1] for f in mine) if v["state"] != "unsupported" else 0; sus += sum(f[2] for f in mine)
            if v["state"] == "ok": fns += [f"{p.name}::{k}" for k in v["contracts"]]; ends += [f"{p.name}::{k}" for k in v["terminating"]]
            if v["state"] == "failed" and p.name not in bad:
                names, errs = engine.failed_functions(v, v["text"])
                d2, _ = engine.differential([p], codes, os.path.join(s.dir), s.seed + 1000, s.set["deeper"])
                if d2.get(p.name) and d2[p.name][2]: s.mismatch(p, d2[p.name][2], names)
                else: s.violation("obligation", dict(what=f"{p.name}: not proved: {', '.join(names)}: {'; '.join(errs)[:200]}", program=p.name, source=p.src(), files=p.files, obligations=names, errors=errs, verus=v["stderr"][-8000:]), concrete=False)
            if v["state"] in ("undecided", "unsupported"):
                d2, _ = engine.differential([p], codes, os.path.join(s.dir), s.seed + 2000, s.set["deeper"])
                if p.name not in bad and d2.get(p.name) and d2[p.name][2]: s.mismatch(p, d2[p.name][2])
                bounded[p.name] = f"{v.get('why')}: {d2[p.name][0] if p.name in d2 else 0} executions instead"
        # must-fail: with an impossible postcondition on every decode and encode function, each of these functions has to fail
        can = [(p, f[0]) for p in ok if ver.get(p.name, {}).get("state") == "ok" for f in ver[p.name]["fns"] if re.search(r"::(de|en)code_(a?sync)$", f[0]) and not f[0].startswith("vs")]
        if can:
            r = random.Random(f"{s.seed}/{s.pid}"); r.shuffle(can)
            can = [c for c in can if f"{c[1].split('::')[-2]}:{c[1].split('::')[-1]}" in ver[c[0].name]["contracts"]][:s.set["canaries"]]
        cn = 0
        with ThreadPoolExecutor(JOBS) as ex:
            for (p, f), v in zip(can, ex.map(lambda a: engine.verify(a[1][0], rs[a[1][0].name], vd, f"_canary{a[0]}", canary=a[1][1]), list(enumerate(can)))):
                if v["state"] == "undecided" and not any(g[0] == f and g[1] for g in v["fns"]): continue    # not accepted, but not refuted within the resource limit
                if v["state"] != "failed" or any(g[0] == f and g[1] for g in v["fns"]): raise engine.Broken(f"must-fail canary did not fail in {f}: {v['state']} {v.get('why')}")
                cn += 1
        if len(can) > 2 and not cn: raise engine.Broken("no must-fail canary was decided")
        ncase = sum(x[0] for x in diff.values())
        nd = sum(x[3] for x in diff.values())
        s.cov.update(programs=len(ok), disagreements_checked=ncase, distinct_inputs=nd, executions_expected_to_fail=sum(x[1] for x in diff.values()), functions_under_contract=len(fns), obligations=obl, discharged=dis, back_end="Verus 0.2026.09.13 (Z3)", solver_s=round(sus / 1e6, 2),
                     verdicts=ctr, bounded_standins=bounded, canaries_failed_as_they_must=cn,
                     checker_cmd="verus --crate-type=lib --rlimit 40 --output-json --time-expanded <program>.rs",
                     trusted_base=s.trusted(), functions=fns[:400],
                     samples=[{"program": p.name, "source": p.src(), "verdict": ver.get(p.name, {}).get("state")} for p in ok[:2]] + [{"input": c[0], "expected": c[1]} for c in driver.cases(ok[0], s.seed, 4)[:4]] if ok else [{"none": True}])
        if tot: s.cov["shown_to_terminate"] = ends
        s.assume += ASSUME
    # ---------------------------------------------------------------- random programs
    def random(s):
        """programs by seed: run against the reference interpreter, some verified as well. Only executions raise alarms here"""
        import rnd
        tot = s.set["rprogs"]; nv = s.set["rverify"]; step = 120; o = dict(programs=0, no_inputs=[], executions=0, expected_errors=0, verified=0, not_verified={}, functions=0, obligations=0, discharged=0, solver_s=0.0); nbad = 0
        for at in range(0, tot, step):
            ps = [rnd.prog(f"r{i}", f"{s.pid}/{s.seed}/{i}", s.pid) for i in range(at, min(at + step, tot))]
            k = min(len(ps), -(-nv * len(ps) // tot))
            for p in ps: p.hostile = HEAP if s.pid == "P17" else 0
            rs = dict(zip([p.name for p in ps], engine.psv("translate", ps[:k]) + engine.psv("gen", ps[k:]))); ok = []
            for p in ps:
                r = rs[p.name]
                if r.get("ok"): ok.append(p)
                elif nbad < 8: nbad += 1; s.violation("compiler", dict(what=f"the compiler does not accept random program {p.name}: {r.get('stage')}: {r.get('error')}", program=p.name, source=p.src(), files=p.files, stage=r.get("stage"), error=r.get("error")))
            codes = {p.name: rs[p.name]["code"] for p in ok}
            vd = os.path.join(s.dir, f"rv{at}"); os.makedirs(vd)
            with ThreadPoolExecutor(JOBS) as ex:
                fv = {p.name: ex.submit(engine.verify, p, rs[p.name], vd, "", None, 20, s.pid == "P17", 60) for p in ok if "tr" in rs[p.name]}
                diff, rej = engine.differential(ok, codes, s.dir, s.seed, s.set["rn"], 6, lenient=True)
                o["no_inputs"] += diff.pop("", [])
                fv = {n: f.result() for n, f in fv.items()}
            for p in ok:
                if p.name in rej:
                    if nbad < 8: nbad += 1; e = "\n".join(x for x in re.split(r"(?m)^(?=error)", rej[p.name]) if x.startswith("error")); s.violation("rustc", dict(what=f"the code emitted for random program {p.name} does not compile: {e[:200]}", program=p.name, source=p.src(), files=p.files, rustc=e[:4000]))
                    continue
                n, ne, bad, _ = diff[p.name]; o["programs"] += 1; o["executions"] += n; o["expected_errors"] += ne
                if bad and nbad < 8: nbad += 1; s.mismatch(p, bad)
                v = fv.get(p.name)
                if v is None:
                    if p in ps[:k]: o["not_verified"][p.name] = "translation: " + str(rs[p.name].get("unsupported"))[:80]
                    continue
                mine = [f for f in v["fns"] if f[0].startswith("m_")]
                if v["state"] == "ok": o["verified"] += 1; o["functions"] += len(v["contracts"]); o["obligations"] += len(mine); o["discharged"] += sum(f[1] for f in mine); o["solver_s"] = round(o["solver_s"] + v["solver_us"] / 1e6, 2)
                else: o["not_verified"][p.name] = v["state"] + ": " + str(v.get("why") or [f[0] for f in mine if not f[1]])[:100]
            shutil.rmtree(vd, ignore_errors=True)
            if nbad >= 8 or time.time() - s.t0 > s.set.get("budget", 3000): break
        s.cov["random_programs"] = o
    # ---------------------------------------------------------------- templates of the prelude's foreign types, lemmas
    def templates(s):
        """the code the compiler inlines for the foreign types of this property, each against the contract its callers assume"""
        import templates
        want = {"P10": "v", "P11": "utf", "P17": ""}.get(s.pid)
        if want is None: return
        ts = [t for t in engine.templates() if t["name"].startswith(want) and not (s.pid == "P17" and t["enc"])]
        d = os.path.join(s.dir, "t"); os.makedirs(d); o = dict(templates=0, obligations=0, discharged=0, bounded_standins={}, canaries_failed_as_they_must=0, solver_s=0.0, functions=[])
        def one(t, tag=""):
            if "verus" not in t: return {"state": "unsupported", "why": t.get("unsupported"), "fns": []}
            x = templates.program(t)
            if x is None: return {"state": "unsupported", "why": "another number of loops", "fns": []}
            if tag:
                c = templates.contract(t["name"], t["enc"])
                if x.count(c) < 1: raise engine.Broken("canary: contract of template not found")
                k = x.rindex(c); x = x[:k] + c.replace("ensures ", "ensures vs_r is Err, ", 1) + x[k + len(c):]
            return dict(engine.verus(x, os.path.join(d, f"{t['name']}_{t['enc']}_{t['async']}{tag}.rs")), text=x)
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, ts)); can = [t for t, r in zip(ts, rs) if r["state"] == "ok" and not t["async"]][:2 if s.tier == "quick" else 16]
            cs = list(ex.map(lambda t: one(t, "_canary"), can))
        for t, c in zip(can, cs):
            if c["state"] == "ok": raise engine.Broken(f"must-fail canary did not fail in template {t['name']}")
            o["canaries_failed_as_they_must"] += c["state"] == "failed"
        for t, v in zip(ts, rs):
            nm = f"{t['name']} {'encoding_gen' if t['enc'] else 'decoding_gen'} {'async' if t['async'] else 'sync'}"
            mine = [f for f in v["fns"] if f[0].startswith("m_")]; o["templates"] += 1; o["obligations"] += max(1, len(mine)); o["discharged"] += sum(f[1] for f in mine) if v["state"] in ("ok", "failed") else 0; o["solver_s"] = round(o["solver_s"] + sum(f[2] for f in mine) / 1e6, 2)
            if v["state"] == "ok": o["functions"].append(nm); continue
            # not discharged: look for a failing input in the programs that use the type
            ps = [p for p in corpus.BY[s.pid]() if p.foreign]; rr = {p.name: r for p, r in zip(ps, engine.psv("gen", ps))}; ps = [p for p in ps if rr[p.name].get("ok")]
            d2, _ = engine.differential(ps, {n: r["code"] for n, r in rr.items() if r.get("ok")}, s.dir, s.seed + 3000, s.set["deeper"])
            bad = [p for p in ps if d2.get(p.name) and d2[p.name][2]]
            if v["state"] != "failed": o["bounded_standins"][nm] = f"{v.get('why')}: {sum(x[0] for x in d2.values())} executions instead"
            if bad:
                if not s.viol: s.mismatch(bad[0], d2[bad[0].name][2], [nm])
            elif v["state"] == "failed":
                names, errs = engine.failed_functions(v, v["text"])
                s.violation("obligation", dict(what=f"template {nm}: not proved: {'; '.join(errs)[:200]}", template=nm, rust=t["rust"], obligations=names, errors=errs, verus=v["stderr"][-8000:]), concrete=False)
        s.cov["foreign_type_templates"] = o
    def lemmas(s):
        """facts about the definitions that the contracts use; they depend on the definitions only, not on /repo"""
        import lemmas, prelude
        f = {"P01": lemmas.scalars, "P10": lemmas.leb128}.get(s.pid)
        if not f: return
        v = engine.verus(prelude.text(True) + "mod m_l { use super::*; verus! {" + f() + "} }\nfn main(){}\n", os.path.join(s.dir, "lemmas.rs"))
        if v["state"] == "failed": raise engine.Broken("lemmas: " + v["stderr"][-1500:])
        mine = [f for f in v["fns"] if f[0].startswith("m_l")]
        s.cov["lemmas"] = dict(state=v["state"], obligations=len(mine), discharged=sum(f[1] for f in mine), solver_s=round(sum(f[2] for f in mine) / 1e6, 2), names=[f[0] for f in mine][:60])
    # ---------------------------------------------------------------- functions of /repo itself
    def direct(s):
        """the functions of a source file of /repo, taken from it on this run, each against its contract"""
        import direct, glob
        job = direct.jobs().get(s.pid)
        if not job: return
        root = os.path.join(engine.REPO, "protospec-build/src"); files = sorted(f for g in job.files for f in glob.glob(os.path.join(root, g), recursive=True))
        d = os.path.join(s.dir, "d"); os.makedirs(d)
        js = engine.psv_raw("direct", {"files": files, **job.mode})
        bad, n, distinct = s.direct_inputs(job, s.set["dn"], 0)
        text, info = job.make(js); v = engine.verus(text, os.path.join(d, "d.rs"), 120) if text else {"state": "unsupported", "why": info, "fns": []}
        mine = [f for f in v["fns"]]; o = dict(source=[os.path.relpath(f, engine.REPO) for f in files], functions=sorted(info) if text else [], contracts=info if text else {}, state=v["state"], left_out_by_the_extraction=job.left_out, bounded_standins={}); tb = sorted(set(re.findall(r"external_body\]\s*(?:pub )?fn (\w+)", text or job.std)) | set(re.findall(r"axiom fn (\w+)", job.std)))
        extra = [f["name"] for p, j in js.items() for f in j.get("fns", []) if not f.get("trait") and f["name"] not in job.table and not ("spans" in job.mode and "/parser/" not in p) and "consts" not in job.mode]
        if v["state"] == "failed" and extra: v["state"] = "unsupported"; v["why"] = "functions without a contract: " + ", ".join(extra)
        if v["state"] != "ok" and not bad: bad, n, distinct = s.direct_inputs(job, s.set["dn"] * 8, 1000)
        if v["state"] in ("unsupported", "undecided"): o["bounded_standins"]["all of them"] = f"{v.get('why')}: {n} executions instead"
        if bad: s.violation("input", dict(what=f"{bad[0]['input'][:120]!r}: expected {str(bad[0]['expected'])[:100]}, got {str(bad[0]['got'])[:100]}", obligations=[f[0] for f in mine if not f[1]], **bad[0], more=bad[1:6]))
        elif v["state"] == "failed":
            names, errs = engine.failed_functions(v, text)
            s.violation("obligation", dict(what=f"not proved: {', '.join(names)}: {'; '.join(errs)[:200]}", obligations=names, errors=errs, verus=v["stderr"][-8000:]), concrete=False)
        if v["state"] == "ok":
            cs = sorted(job.table); random.Random(s.seed).shuffle(cs); o["canaries_failed_as_they_must"] = 0
            if s.tier == "quick": cs = cs[:8]
            with ThreadPoolExecutor(JOBS) as ex:
                for f, c in zip(cs, ex.map(lambda f: engine.verus(job.make(js, spoil=f)[0], os.path.join(d, f"canary_{f.replace('::', '_')}.rs"), 120), cs)):
                    if c["state"] == "ok": raise engine.Broken(f"must-fail canary did not fail in {f}")
                    o["canaries_failed_as_they_must"] += c["state"] == "failed"
        s.cov["functions_of_repo"] = o
        s.cov.update(obligations=len(mine), discharged=sum(f[1] for f in mine) if v["state"] in ("ok", "failed") else 0, functions_under_contract=len(o["functions"]), disagreements_checked=n, distinct_inputs=distinct, samples=[{"input": t, "expected": job.ref(t, **job.runs[-1])} for t in direct.texts(s.pid, s.seed, 8000)[-3:]], back_end="Verus 0.2026.09.13 (Z3)", checker_cmd="verus --crate-type=lib --rlimit 120 --output-json --time-expanded d.rs", trusted_base=tb, solver_s=round(sum(f[2] for f in mine) / 1e6, 2))
        s.assume += job.assume
    def direct_inputs(s, job, n, more):
        """the real code against the reference; an input on which the reference gives no answer (False) is skipped"""
        import direct
        ts = direct.texts(s.pid, s.seed + more, n); bad = []
        # a second, longer look has a time limit: the texts after it are not tried
        seen = 0; till = s.t0 + (s.set["verus_until"] if more else 1e9); step = 1500
        for a in range(0, len(ts), step):
            if time.time() > till: break
            for run in job.runs:
                for t, g in zip(ts[a:a + step], engine.psv_raw(job.cmd, {"texts": ts[a:a + step], **run}, each=True)):
                    w = job.ref(t, **run)
                    if g is None or w is False: continue
                    if g != w if w is not None else not (isinstance(g, dict) and "error" in g): bad.append(dict(input=t, **run, expected="an error" if w is None else w, got=g))
            seen = min(len(ts), a + step)
            if more and bad: break
        return sorted(bad, key=lambda b: len(b["input"])), len(job.runs) * seen, len(set(ts[:seen]))
    def trusted(s):
        import prelude
        t = prelude.text()
        ext = re.findall(r"external_body\]\s*(?:pub )?fn (\w+)", t)
        return [f"assumed contract (external_body): {n}" for n in sorted(set(ext))] + ["uninterpreted: bytes of floats, what gzip/base64 do, what std takes for valid UTF-8/UTF-16", "translation of emitted Rust to Verus (tool/src/translate.rs), Verus, Z3, rustc"]
    def mismatch(s, p, bad, names=()):
        line, want, got = bad[0]
        s.violation("input", dict(what=f"{p.name}: {line[:160]}: expected {want[:80]}, got {got[:80]}", program=p.name, source=p.src(), files=p.files, asy=p.asy, command=line, expected=want, got=got, more=[dict(command=a, expected=b, got=c) for a, b, c in bad[1:6]], obligations=list(names)))

    def finish(s):
        for k in findings.report(s): print(k, flush=True)
        ev = dict(property=s.pid, tier=s.tier, seed=s.seed, level=LEVEL.get(s.pid, "translation_validation"), coverage=s.cov, assumptions=s.assume, wall_s=round(time.time() - s.t0, 1), violations=len(s.viol))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", s.pid + ".json"), "w"), indent=1)
        shutil.rmtree(s.dir, ignore_errors=True)
        # a failing input first; every line names a replay file
        for path, concrete in sorted(s.viol, key=lambda v: not v[1]):
            print(f"VIOLATION property={s.pid} replay={path}" + ("" if concrete else " no-failing-input-found"), flush=True)
            if concrete: break
        return 1 if s.viol else 0

LEVEL = {"P18": "proof", "P19": "proof", "P20": "proof"}
HEAP = 64 << 20
ASSUME = ["streams: the assumed contracts of Read/BufRead/Write (prelude.py); a stream holds fewer than 2^64 bytes; usize is 64 bits",
          "arithmetic in emitted code wraps (release profile); with overflow checks on, the same inputs panic instead",
          "the programs of the corpus stand for the language: what is proved is proved for all inputs of these programs",
          "the emitted code is verified after the translation listed in DESIGN.md (sync and async bodies)",
          "memory is unbounded, except where P17 bounds it; library functions that are called come to an end"]

DIRECT = ("P18", "P19", "P20")

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    r = Run(pid, tier)
    try:
        engine.build_tool(); engine.DEADLINE[0] = r.t0 + r.set["verus_until"]
        if pid in corpus.BY: r.corpus()
        r.templates(); r.lemmas(); r.direct()
        if pid not in DIRECT and not any(c for _, c in r.viol): r.random()    # a failing input is enough
        rc = r.finish()
    except engine.Broken as e:
        print(f"[{pid}] the check could not run: {e}"); rc = 2
    except Exception:
        traceback.print_exc(); print(f"[{pid}] the check could not run"); rc = 2
    sys.exit(rc)
if __name__ == "__main__": main()
