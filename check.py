#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property from /repo's current source.

Exit 0: nothing analysed violates the property.  Exit 1: a construct of the current source violates it
(one VIOLATION line each).  Exit 2: the source could not be analysed at all."""
import sys, os, json, time, subprocess, tempfile, signal, hashlib, traceback, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
RES = "/usr/lib/llvm-18/lib/clang/18"
BASEFLAGS = ["-std=c++17", "-I" + REPO, "-I" + os.path.join(HERE, "drivers"), "-I/usr/include/eigen3",
             "-resource-dir", RES]


class Unanalysable(Exception):
    pass


def build_tools():
    ex, lin = os.path.join(HERE, "build/extract"), os.path.join(HERE, "build/lin.so")
    if not (os.path.exists(ex) and os.path.exists(lin)):
        subprocess.run(["bash", os.path.join(HERE, "setup.sh")], check=True, stdout=subprocess.DEVNULL)


def extract(driver, flags, tmp):
    """type-check driver against the current tree and dump the typed program"""
    out = os.path.join(tmp, hashlib.md5((driver + " ".join(flags)).encode()).hexdigest() + ".json")
    if os.path.exists(out):
        return out
    src = driver if os.path.isabs(driver) else os.path.join(HERE, "drivers", driver)
    p = subprocess.run([os.path.join(HERE, "build/extract"), out, src, REPO + ":" + os.path.join(HERE, "drivers"),
                        "--"] + BASEFLAGS + list(flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0 or not os.path.exists(out):
        raise Unanalysable("%s does not type-check against the current tree:\n%s"
                           % (driver, p.stdout.decode("latin-1")[-3000:]))
    return out


def _child(js, harness, cfg, wfd):
    """run one harness in this (forked) process and send the result back"""
    import gc
    gc.disable()
    sys.setrecursionlimit(100000)
    res = {"harness": harness, "ok": False}
    try:
        from core import Prog, St
        import interp
        prog = Prog(js)
        f = prog.byname.get(harness)
        if not f:
            res["err"] = "harness not found"
        else:
            I = interp.Interp(prog, dict(cfg))
            t = time.time()
            rs = I.call_fn(St.new(), f[0], [], None, "entry")
            res.update(ok=True, ended=len(rs), clean=sum(1 for s, _ in rs if not s.imp), steps=I.steps,
                       secs=round(time.time() - t, 2),
                       asserts=I.asserts,
                       reports=[dict(kind=k[0], where=str(k[1]), msg=str(k[2]), definite=v["definite"],
                                     imp=v["imp"][:4], stack=v["stack"][-8:],
                                     facts=sorted(map(repr, v["cons"]))[:60]) for k, v in I.reports.items()],
                       unsupported=I.unsupported,
                       reach=sorted({k[1] for k in I.events if k[0] == "reach"}),
                       functions=sorted({prog.functions[i]["q"] for i in I.called if i in prog.functions}))
    except Exception:
        res["err"] = traceback.format_exc()[-1500:]
    data = json.dumps(res).encode()
    with os.fdopen(wfd, "wb") as w:
        w.write(data)
    os._exit(0)


def run_harnesses(jobs, deadline, width=8):
    """jobs: [(js, harness, cfg, secs)] -> results; a harness that exceeds its time is undecided"""
    pend = list(enumerate(jobs))
    live, out = {}, [None] * len(jobs)
    import selectors
    sel = selectors.DefaultSelector()
    while pend or live:
        while pend and len(live) < width:
            i, (js, h, cfg, secs) = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                _child(js, h, cfg, w)
            os.close(w)
            live[r] = (i, pid, time.time() + secs, h, [])
            sel.register(r, selectors.EVENT_READ)
        for k, _ in sel.select(0.5):
            b = os.read(k.fd, 1 << 20)
            if b:
                live[k.fd][4].append(b)
                continue
            i, pid, _, h, buf = live.pop(k.fd)
            sel.unregister(k.fd)
            os.close(k.fd)
            os.waitpid(pid, 0)
            try:
                out[i] = json.loads(b"".join(buf))
            except ValueError:
                out[i] = {"harness": h, "ok": False, "err": "analysis process ended early"}
        now = time.time()
        for r in list(live):
            i, pid, dl, h, _ = live[r]
            if now > dl or now > deadline:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                sel.unregister(r)
                os.close(r)
                live.pop(r)
                out[i] = {"harness": h, "ok": False, "err": "time limit", "timeout": True}
        if now > deadline:
            for i, (js, h, cfg, secs) in pend:
                out[i] = {"harness": h, "ok": False, "err": "time limit", "timeout": True}
            pend = []
    return out


def known(prop):
    ks = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else ():
        l = l.strip()
        if l.startswith("known: property=%s " % prop):
            d = dict(kv.split("=", 1) for kv in l.split(" what=")[0].split()[1:] if "=" in kv)
            d["what"] = l.split(" what=", 1)[1] if " what=" in l else ""
            ks.append(d)
    return ks


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    build_tools()
    import props
    spec = props.PROPS[prop]
    budget = spec.get("budget", {}).get(tier, 300 if tier == "quick" else 800)
    tmp = tempfile.mkdtemp(prefix="vp_" + prop + "_")
    viol, undec, cov, errs = [], [], {}, []
    try:
        jobs, meta = [], []
        for hs in spec.get("harness", ()):
            if hs.get("tier") == "thorough" and tier != "thorough":
                continue
            try:
                js = extract(hs["driver"], hs.get("flags", ()), tmp)
            except Unanalysable as x:
                errs.append(str(x))
                continue
            for h in hs["names"] + (hs.get("thorough_names", []) if tier == "thorough" else []):
                jobs.append((js, h, hs.get("cfg", {}), hs.get("secs", {}).get(tier, 200 if tier == "quick" else 700)))
                meta.append(hs)
        res = run_harnesses(jobs, t0 + budget)
        nob = ndis = steps = evals = 0
        fns, samples = set(), []
        for r, hs in zip(res, meta):
            h = r["harness"]
            want_a, want_k = hs.get("asserts"), set(hs.get("kinds", ()))
            if not r["ok"]:
                undec.append("%s: %s" % (h, r.get("err", "?").strip().splitlines()[-1]))
                if "not found" in r.get("err", "") or "Traceback" in r.get("err", ""):
                    errs.append("%s: %s" % (h, r.get("err")))
                continue
            steps += r["steps"]
            fns.update(r["functions"])
            for a, v in r["asserts"].items():
                if want_a is None or a in want_a:
                    nob += 1
                    evals += v["ok"] + v["fail"] + v["maybe"]
                    if v["fail"] == 0 and v["maybe"] == 0:
                        ndis += 1
                    elif v["fail"] == 0:
                        undec.append("%s: %s" % (h, a))
            if want_k:
                nob += 1
            bad = False
            for q in r["reports"]:
                if q["kind"] == "assert":
                    if want_a is not None and q["msg"] not in want_a:
                        continue
                elif q["kind"] not in want_k:
                    continue
                if any(x in q["msg"] and (y in q["where"]) for x, y in hs.get("ignore", ())):
                    continue
                if not q["definite"]:
                    if q["kind"] != "assert":
                        bad = True
                        undec.append("%s: %s %s at %s" % (h, q["kind"], q["msg"], q["where"]))
                    continue
                bad = True
                viol.append(dict(q, harness=h))
            if want_k and not bad:
                ndis += 1
            need = hs.get("reach", ())
            miss = [x for x in need if x not in r["reach"]]
            if miss and not any(v["harness"] == h for v in viol):
                if r["unsupported"]:
                    undec.append("%s: %s not reached" % (h, ",".join(miss)))
                else:
                    viol.append(dict(kind="no-return", where=h, msg="no execution of the phase returns", stack=[h],
                                     facts=[], definite=True, imp=[], harness=h))
            if len(samples) < 6:
                samples.append(dict(harness=h, states_at_end=r["ended"], steps=r["steps"], secs=r["secs"],
                                    asserts={a: [v["ok"], v["fail"], v["maybe"]] for a, v in r["asserts"].items()}))
        cov.update(harnesses=len(jobs), harness_runs_completed=sum(1 for r in res if r["ok"]),
                   obligations=nob, discharged=ndis, abstract_steps=steps, assertion_evaluations=evals,
                   functions_analysed=len(fns),
                   functions_sample=[f for f in sorted(fns) if f.startswith("heu")][:60], samples=samples)
        for qf in spec.get("queries", ()):
            try:
                r = qf(dict(tier=tier, tmp=tmp, extract=extract, repo=REPO, here=HERE, flags=BASEFLAGS,
                            deadline=t0 + budget))
            except Unanalysable as x:
                errs.append(str(x))
                continue
            for v in r.get("violations", ()):
                v.setdefault("stack", [])
                v.setdefault("facts", [])
                v.setdefault("harness", qf.__name__)
                viol.append(v)
            undec += r.get("undecided", [])
            c = r.get("coverage", {})
            cov["obligations"] += c.pop("obligations", 0)
            cov["discharged"] += c.pop("discharged", 0)
            cov.setdefault("queries", {})[qf.__name__] = c
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ks = known(prop)
    real, hit = [], []
    for v in viol:
        k = next((k for k in ks if all(k[f] == v.get(f) or (f == "fn" and k["fn"] in v["stack"]) or
                                       (f == "msg" and k["msg"] in v["msg"].replace(" ", "_"))
                                       for f in k if f not in ("property", "what"))), None)
        (hit.append((k, v)) if k else real.append(v))
    cov["undecided"] = undec[:40]
    cov["explanation"] = spec["explain"]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec.get("level", "other"),
              coverage=cov, assumptions=spec.get("assumes", []) + props.ASSUMES, wall_s=round(time.time() - t0, 2),
              violations=len(real))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d undecided, %d violations, %.1fs" % (
        prop, cov.get("discharged", 0), cov.get("obligations", 0), len(undec), len(real), time.time() - t0))
    for u in undec[:10]:
        print("UNDECIDED:", u)
    seen = set()
    for k, v in hit:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if real:
        rp = os.path.join(HERE, "evidence", prop + ".violation.json")
        json.dump(real, open(rp, "w"), indent=1)
        for v in real[:8]:
            print("  %s at %s: %s (in %s; %s)" % (v["kind"], v["where"], v["msg"], v["stack"][-1] if v["stack"] else "-", v["harness"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errs:
        for x in errs[:4]:
            print("ERROR:", x[:1500])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
