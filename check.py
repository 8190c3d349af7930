#!/usr/bin/env python3
"""python3 check.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import sys, json, traceback
from lib import *


def report(ctx, mism, describe):
    ctx.more = max(0, len(mism) - 20)
    for (j, k, verdict, line) in mism[:20]:
        rec = json.loads(line)
        ctx.violate("%s: %s" % (verdict, describe(rec)), {"trace": j["tag"], "verdict": verdict, "record": rec, "input": describe(rec)})


def src(rec):
    return repr(text(rec[0]))


def c01(ctx):
    jobs = []
    for config in ("exempt", "default"):
        b = ctx.build(config)
        d = ctx.run(b, "lex", sub="lex-" + config)
        if d:
            jobs.append((config, d))
    lex_jobs = dedup(ctx, jobs, "Trace_Lex", "lex")
    lex_jobs += in_macro(ctx, "pmparse", "Trace_PmParse", strict=False, timeout=3600 if ctx.thorough else 300)
    found = ctx.tlc(lex_jobs)
    report(ctx, [m for m in found if m[0]["module"] == "Trace_Lex"], src)
    report(ctx, [m for m in found if m[0]["module"] != "Trace_Lex" and json.loads(m[3])[0] == 0], lambda r: repr(text(r[1])))


def c_print(ctx, focus):
    dirs = []
    for config in ("exempt", "default"):
        d = ctx.run(ctx.build(config), "print", sub="print-" + config)
        if d:
            dirs.append((config, d))
    jobs = dedup(ctx, dirs, "Trace_Print", "print", cfg="Trace_Print_%d.cfg" % focus)
    if focus == 3:
        jobs.insert(0, ctx.model_job("MC_Print", "MC_Print_t.cfg" if ctx.thorough else "MC_Print.cfg", workers=8 if ctx.thorough else 2))
    report(ctx, ctx.tlc(jobs), lambda rec: repr(text(rec[2][0])))


def c02(ctx):
    q = not ctx.thorough
    dirs = []
    for config in ("exempt", "default"):
        d = ctx.run(ctx.build(config), "total", "--n", 70000 if q else 250000, sub="total-" + config, timeout=400 if q else 1800)
        if d:
            dirs.append((config, d))
    jobs = dedup(ctx, dirs, "Trace_Total", "total") if dirs else []
    if dirs:
        jobs.insert(0, ctx.model_job("MC_Total", env={"FAMILIES": os.path.join(dirs[0][1], "families")}))
    report(ctx, ctx.tlc(jobs), lambda r: repr(text(r[1])) if r[0] == 1 else "%r x %d, operation %d" % ([text(x) for x in r[1]], r[2], r[3]))


def c03(ctx):
    c_print(ctx, 3)


def c04(ctx):
    c_print(ctx, 4)


def c_span(ctx, focus, corpus):
    dirs = []
    for config in ("exempt", "loc"):
        d = ctx.run(ctx.build(config), "span", "--corpus", corpus, sub="span-" + config)
        if d:
            dirs.append((config, d))
    jobs = dedup(ctx, dirs, "Trace_Span", "span", cfg="Trace_Span_%d.cfg" % focus)
    report(ctx, ctx.tlc(jobs), src)


def c05(ctx):
    c_span(ctx, 5, "comments")


def c11(ctx):
    c_span(ctx, 11, "all")


def c16(ctx):
    c_span(ctx, 16, "errors")


def simple(ctx, mode, module, configs, describe=None, cfg=None, stem=None, args=(), **kw):
    """One harness mode in several configurations, its records validated by one trace specification."""
    dirs = []
    for config in configs:
        d = ctx.run(ctx.build(config), mode, *args, sub="%s-%s" % (mode, config), **kw)
        if d:
            dirs.append((config, d))
    return dedup(ctx, dirs, module, stem or mode, cfg=cfg) if dirs else []


def c06(ctx):
    jobs = simple(ctx, "lit", "Trace_Lit", ("exempt", "default")) + in_macro(ctx, "lit", "Trace_Lit")
    report(ctx, ctx.tlc(jobs), src)


def c08(ctx):
    report(ctx, ctx.tlc(simple(ctx, "val", "Trace_Val", ("exempt", "boot-exempt"))), src)


def c09(ctx):
    jobs = simple(ctx, "ident", "Trace_Ident", ("exempt", "default"), cfg="Trace_Ident_9.cfg") + in_macro(ctx, "ident", "Trace_Ident", "--random", 2000, cfg="Trace_Ident_9.cfg")
    report(ctx, ctx.tlc(jobs), lambda r: "U+%04X..U+%04X code %d" % (r[1], r[2], r[3]) if r[0] == 1 else repr(text(r[1])))


def in_macro(ctx, mode, module, *args, cfg=None, stem=None, flags="", part=None, **kw):
    """The same mode inside a procedural macro."""
    tag = "macro-old" if flags else "macro"
    d = ctx.run_macro(ctx.build_macro(flags=flags), mode, *args, sub=tag + "-" + (part or stem or mode), **kw)
    return dedup(ctx, [(tag, d)], module, stem or mode, cfg=cfg) if d else []


def c10(ctx):
    jobs = simple(ctx, "order", "Trace_Order", ("exempt", "default")) + in_macro(ctx, "order", "Trace_Order")
    report(ctx, ctx.tlc(jobs), lambda r: "%r, %r" % (text(r[1]), text(r[2])))


def c07(ctx):
    jobs = simple(ctx, "ctor", "Trace_Ctor", ("exempt", "default")) + in_macro(ctx, "ctor", "Trace_Ctor") + in_macro(ctx, "ctor", "Trace_Ctor", flags=OLD)
    report(ctx, ctx.tlc(jobs), lambda r: json.dumps(r)[:300])


def ops(rec):
    return json.dumps(rec)[:400]


def store_jobs(ctx, configs, histories, length, *args, sub="store", cfg=None):
    """Random histories, and those generated by the model checker, executed and validated."""
    dirs = []
    for config in configs:
        d = ctx.run(ctx.build(config), "store", "--histories", histories, "--len", length, *args, sub="%s-%s" % (sub, config))
        if d:
            dirs.append((config, d))
    return dedup(ctx, dirs, "Trace_Store", "store", cfg=cfg) if dirs else []


def report_histories(ctx, mism):
    """As report, with the history that led to the mismatch."""
    ctx.more = max(0, len(mism) - 10)
    for (j, k, verdict, line) in mism[:10]:
        lines = open(j["file"]).read().split("\n")[:k]
        start = max(n for n in range(len(lines)) if json.loads(lines[n])[0] in (0, [0]))
        hist = [json.loads(x) for x in lines[start:]]
        hist = [x[0] if isinstance(x[0], list) else x for x in hist]
        ctx.violate("%s: %s after %d operations" % (verdict, line[:200], len(hist) - 1),
                    {"trace": j["tag"], "verdict": verdict, "operations": hist, "records": [json.loads(x) for x in lines[start:]]})


def scripts_from_model(ctx, limit):
    """Operation scripts, one for every transition of the bounded store model (every state of sharing)."""
    return scripts(ctx, "MC_Store", "Gen_Store_t.cfg" if ctx.thorough else "Gen_Store.cfg", limit)


def scripts(ctx, module, cfg, limit):
    import random as rnd
    j = ctx.model_job(module, cfg, workers=1, heap="8g")
    ctx.tlc([j])
    ops = sorted(json.loads(json.loads(l)[7:]) for l in j["out"].split("\n") if l.startswith('"SCRIPT '))
    j["out"] = ""
    total = len(ops)
    ops = [a for a, b in zip(ops, ops[1:] + [[]]) if b[:len(a)] != a]      # a prefix of another says nothing more
    whole = len(ops)
    if limit and whole > limit:
        ops = rnd.Random(ctx.seed).sample(ops, limit)
    ctx.extra["model_scripts"] = {"transitions": total, "scripts": whole, "executed": len(ops)}
    path = os.path.join(ctx.dir, "scripts")
    with open(path, "w") as f:
        for o in ops:
            f.write(json.dumps(o, separators=(",", ":")) + "\n")
    return path


def c14(ctx):
    q = not ctx.thorough
    path = scripts_from_model(ctx, 12000 if q else None)
    jobs = store_jobs(ctx, ("exempt", "nodef"), 2000 if q else 40000, 24 if q else 60, "--scripts", path)
    jobs += store_jobs(ctx, ("default",), 2000 if q else 40000, 24 if q else 60)
    jobs += in_macro(ctx, "store", "Trace_Store", "--histories", 1200 if q else 20000, "--len", 30, "--salt", 14, "--nospans", 1, cfg="Trace_Store_pm.cfg", stem="store")
    jobs.insert(0, ctx.model_job("MC_Store", "MC_Store_t.cfg" if ctx.thorough else "MC_Store.cfg", workers=4, heap="6g"))
    report_histories(ctx, ctx.tlc(jobs))


def c15(ctx):
    q = not ctx.thorough
    path = scripts_from_model(ctx, 5000 if q else None)
    jobs = store_jobs(ctx, ("exempt", "default"), 2500 if q else 40000, 30 if q else 80, "--salt", 15, "--big", 300, "--scripts", path)
    jobs += in_macro(ctx, "store", "Trace_Store", "--histories", 1200 if q else 20000, "--len", 30, "--salt", 15, "--nospans", 1, cfg="Trace_Store_pm.cfg", stem="store")
    report_histories(ctx, ctx.tlc(jobs))


def map_jobs(ctx, configs, *args):
    dirs = []
    for config in configs:
        d = ctx.run(ctx.build(config), "map", *args, sub="map-" + config)
        if d:
            dirs.append((config, d))
    return dedup(ctx, dirs, "Trace_Map", "map") if dirs else []


def c12(ctx):
    q = not ctx.thorough
    jobs = map_jobs(ctx, ("exempt", "loc", "boot-exempt"), "--histories", 240 if q else 6000, "--len", 120)
    jobs.insert(0, ctx.model_job("MC_Map", "MC_Map.cfg" if q else "MC_Map_t.cfg", workers=4, heap="8g"))
    report_histories(ctx, ctx.tlc(jobs))


def c13(ctx):
    q = not ctx.thorough
    jobs = map_jobs(ctx, ("exempt", "loc"), "--histories", 240 if q else 6000, "--len", 120, "--threads", 1)
    report_histories(ctx, ctx.tlc(jobs))


MACRO_TOOLCHAINS = lambda ctx: ("stable", "nightly") if ctx.thorough else ("stable",)


def c17(ctx):
    import random as rnd
    q = not ctx.thorough
    models = [ctx.model_job("MC_Backend", "MC_Backend_in.cfg", workers=2), ctx.model_job("MC_Backend", "MC_Backend_out.cfg", workers=2)]
    gen = [ctx.model_job("MC_Backend", "Gen_Backend_%s.cfg" % c, workers=1) for c in ("in2", "in3", "out")]
    num = 24 if q else 400
    calls = [ctx.model_job("MC_Calls", "Gen_Calls_%s.cfg" % c, workers=1, simulate=(num, 200)) for c in ("in", "in3", "out")]
    ctx.tlc(gen + models + calls)
    R = rnd.Random(ctx.seed)
    plans = []
    for j, limit in zip(gen, (None, 1000, None) if q else (None, 12000, None)):
        sc = sorted(json.loads(json.loads(l)[7:]) for l in j["out"].split("\n") if l.startswith('"SCRIPT '))
        j["out"] = ""
        whole = [a for a, b in zip(sc, sc[1:] + [[]]) if b[:len(a)] != a]
        # schedules that differ only in the kind of object made count once
        pick = R.sample(whole, limit) if limit and len(whole) > limit else whole
        ctx.extra.setdefault("schedules", []).append({"model": j["tag"], "transitions": len(sc), "schedules": len(whole), "executed": len(pick)})
        plans += [(j["tag"], p) for p in pick]
    # long schedules of calls interrupted anywhere
    for j in calls:
        sc = {}
        for l in j["out"].split("\n"):
            if l.startswith('"SCRIPT '):
                p = json.loads(json.loads(l)[7:])
                sc.setdefault(json.dumps(p[:-1]), p)
        j["out"] = ""
        ctx.extra["schedules"].append({"model": j["tag"], "simulated": len(sc), "steps": sum(map(len, sc.values()))})
        plans += [(j["tag"], p) for p in sc.values()]
    # every kind of object, on one thread, in every mode
    for tag in ("MC_Backend_in", "MC_Backend_out"):
        for pre in ([], [2], [3], [1, 2], [1, 3], [2, 3], [1, 2, 3], [1, 2, 3, 2]):
            plans.append((tag, [[1, x] for x in pre] + [[1, 1]] * 54))
    # in the end every thread makes an object
    for tag, p in plans:
        p += [[1, 5]] + [[t, 1] for t in sorted({t for t, _ in p})]
    hook = "--cfg procmacro2_verif"
    macro = ctx.build_macro(flags=hook)
    binary = ctx.build("default", extra_flags=hook)
    d = os.path.join(ctx.dir, "sched")
    os.makedirs(d)

    def one(n):
        tag, plan = plans[n]
        f = os.path.join(d, "%d.log" % n)
        args = ["sched", "--out", f, "--schedule", json.dumps(plan, separators=(",", ":")), "--kind", str(R0 + n)]
        try:
            if "_out" in tag:
                r = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
            else:
                r = ctx.rustc_macro(macro, args, os.path.join(d, "%d.cur" % n), 150, f)
        except subprocess.TimeoutExpired:
            return (plan, "no answer within 150 s")
        if not os.path.exists(f):
            return (plan, "the process died (%d): %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:]))
        return None
    R0 = R.randrange(1000)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(one, range(len(plans))):
            if r:
                ctx.violate("%s: schedule %s" % (r[1], r[0]), {"schedule": r[0]})
    files = [open(os.path.join(d, "backend.%d.ndjson" % k), "w") for k in range(NCPU)]
    for n in range(len(plans)):
        f = os.path.join(d, "%d.log" % n)
        if os.path.exists(f):
            files[n % NCPU].write(open(f).read())
            os.remove(f)
    for f in files:
        f.close()
    jobs = ctx.trace_jobs("Trace_Backend", d, "backend")
    report_histories(ctx, ctx.tlc(jobs))
    # objects of both implementations
    dirs = []
    for tc in MACRO_TOOLCHAINS(ctx):
        m = ctx.run_macro(ctx.build_macro(tc), "mixed", "--histories", 3000 if q else 60000, "--len", 30, sub="mixed-" + tc)
        if m:
            dirs.append(("macro-" + tc, m))
    if dirs:
        report_histories(ctx, ctx.tlc(dedup(ctx, dirs, "Trace_Mixed", "mixed")))


def c18(ctx):
    q = not ctx.thorough
    path = scripts(ctx, "MC_Deferred", "Gen_Deferred.cfg" if q else "Gen_Deferred_t.cfg", 15000 if q else 200000)
    jobs = []
    for tc in MACRO_TOOLCHAINS(ctx):
        macro = ctx.build_macro(tc)
        for sub, args in (("spans", ["--histories", 2500 if q else 40000, "--len", 30, "--scripts", path]),
                          ("glue", ["--histories", 2500 if q else 40000, "--len", 30, "--nospans", 1, "--salt", 18]),
                          ("tokens", ["--histories", 1000 if q else 20000, "--len", 24, "--tokens", 1])):
            d = ctx.run_macro(macro, "store", *args, sub="store-%s-%s" % (sub, tc), timeout=300 if q else 3600)
            if d:
                jobs += dedup(ctx, [("macro-" + tc, d)], "Trace_Store", "store", cfg="Trace_Store_pm.cfg")
        for mode, module, cfg in (("ctor", "Trace_Ctor", None), ("order", "Trace_Order", None), ("punct", "Trace_Ident", "Trace_Ident_19.cfg")):
            d = ctx.run_macro(macro, mode, sub="%s-%s" % (mode, tc))
            if d:
                jobs += dedup(ctx, [("macro-" + tc, d)], module, mode, cfg=cfg)
    hist = ctx.tlc(jobs)
    report_histories(ctx, [m for m in hist if m[0]["module"] == "Trace_Store"])
    report(ctx, [m for m in hist if m[0]["module"] != "Trace_Store"], ops)
    jobs = []
    for tc in MACRO_TOOLCHAINS(ctx):
        macro = ctx.build_macro(tc)
        for sub, args, strict in (("good", [], False), ("bad", ["--bad", 1], True)):
            d = ctx.run_macro(macro, "pmparse", *args, sub="parse-%s-%s" % (sub, tc), strict=strict, timeout=300 if q else 3600)
            if d:
                jobs += dedup(ctx, [("macro-" + tc, d)], "Trace_PmParse", "pmparse")
    report(ctx, ctx.tlc(jobs), lambda r: repr(text(r[1])))


def c19(ctx):
    q = not ctx.thorough
    jobs = store_jobs(ctx, ("exempt", "default"), 1500 if q else 20000, 24, "--tokens", "1", sub="tokens")
    jobs += in_macro(ctx, "store", "Trace_Store", "--histories", 800 if q else 20000, "--len", 24, "--tokens", 1, cfg="Trace_Store_pm.cfg", stem="store")
    m = ctx.tlc(jobs)
    report_histories(ctx, m)
    pj = simple(ctx, "punct", "Trace_Ident", ("exempt", "default"), cfg="Trace_Ident_19.cfg", stem="punct")
    pj += in_macro(ctx, "punct", "Trace_Ident", cfg="Trace_Ident_19.cfg")
    report(ctx, ctx.tlc(pj), ops)


def c20(ctx):
    q = not ctx.thorough
    configs = ["exempt", "nodef", "default", "loc", "exempt-nodef", "nodef-loc", "boot-exempt", "old", "nightly-exempt", "nightly-loc"]
    with cf.ThreadPoolExecutor(4) as ex:
        bins = dict(zip(configs, ex.map(ctx.build, configs)))
    ctx.extra["configurations"] = configs
    modes = [("lex", "lex", [], "Trace_Lex", None, configs),
             ("print", "print", [], "Trace_Print", "Trace_Print_4.cfg", configs),
             ("lit", "lit", [], "Trace_Lit", None, configs),
             ("ident", "ident", [], "Trace_Ident", "Trace_Ident_9.cfg", configs),
             ("order", "order", [], "Trace_Order", None, configs),
             ("punct", "punct", [], "Trace_Ident", "Trace_Ident_19.cfg", configs),
             ("ctor", "ctor", [], "Trace_Ctor", None, configs),
             ("total", "total", ["--n", 2000], "Trace_Total", None, configs),
             ("store", "store", ["--histories", 1500 if q else 20000, "--len", 24, "--nospans", 1, "--salt", 20], "Trace_Store", None, configs),
             # turning locations on is the same everywhere, too
             ("span", "span", ["--corpus", "all"], "Trace_Span", "Trace_Span_11.cfg", [c for c in configs if "loc" in c or "exempt" in c])]
    pairs = os.path.join(ctx.dir, "config.0.ndjson")
    where, base, todo = [], [], []
    for (mode, stem, args, module, cfg, cs) in modes:
        todo += [(mode, stem, args, c) for c in cs]
    def go(x):
        mode, stem, args, c = x
        return ctx.run(bins[c], mode, *args, sub="%s-%s" % (mode, c), chunks=16)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        got = {(x[0], x[3]): d for x, d in zip(todo, ex.map(go, todo))}
    with open(pairs, "w") as f:
        for n, (mode, stem, args, module, cfg, cs) in enumerate(modes):
            cs = [c for c in cs if got[mode, c]]
            if not cs:
                continue
            blocks = {c: digests(got[mode, c], stem) for c in cs}
            # (which characters a literal escapes depends on the standard library's Unicode version)
            for group in ([c for c in cs if "nightly" not in c], [c for c in cs if "nightly" in c]):
                for key in sorted(set().union(*(blocks[c] for c in group))):
                    f.write(json.dumps([n, len(where), [blocks[c].get(key, []) for c in group]], separators=(",", ":")) + "\n")
                    where.append((mode, stem, key, group))
            # and what it is the same as, is what the specification says (one part in sixteen; the rest is other properties')
            base += [j for j in ctx.trace_jobs(module, got[mode, cs[0]], stem, cfg=cfg, tag=stem + "@" + cs[0]) if j["file"].endswith(".0.ndjson")]
    jobs = ctx.trace_jobs("Trace_Config", ctx.dir, "config")
    mism = ctx.tlc(jobs + base)
    for (j, k, verdict, line) in [m for m in mism if m[0]["module"] == "Trace_Config"][:10]:
        mode, stem, (chunk, block), cs = where[k - 1]
        recs = {}
        for c in cs:
            lines = open(os.path.join(got[mode, c], "%s.%d.ndjson" % (stem, chunk))).read().split("\n")
            recs[c] = lines[block * 64:block * 64 + 64]
        m = max(map(len, recs.values()))
        first = next((x for x in range(m) if len({r[x] if x < len(r) else None for r in recs.values()}) > 1), 0)
        ctx.violate("configurations disagree (%s): %s" % (mode, {c: (r[first] if first < len(r) else "nothing")[:120] for c, r in recs.items()}),
                    {"mode": mode, "records": {c: r[first] if first < len(r) else None for c, r in recs.items()}})
    report(ctx, [m for m in mism if m[0]["module"] != "Trace_Config"], ops)


def c21(ctx):
    """The tokens of source files, as a macro used in them sees them."""
    q = not ctx.thorough
    uses, files = (24, 24) if q else (40, 240)
    gen = ctx.build("default")
    macros = {"stable": ctx.build_macro("stable", features=("loc",)), "nightly": ctx.build_macro("nightly", features=("loc",)),
              "nightly-exempt": ctx.build_macro("nightly", flags="--cfg procmacro2_semver_exempt", features=("loc",)),
              "boot": ctx.build_macro("stable+boot", features=("loc",))}
    jobs = []
    for tc, macro in macros.items():
        d = os.path.join(ctx.dir, "inside-" + tc)
        os.makedirs(d)
        subprocess.run([gen, "userfiles", "--out", d, "--chunks", str(files), "--uses", str(uses), "--seed", str(ctx.seed)], check=True)

        def one(k):
            f = os.path.join(d, "%d.rs" % k)
            try:
                return k, ctx.rustc_macro(macro, ["at"], os.path.join(d, "cur%d" % k), 120, f, user=f,
                                          env={"PM2H_FILE": f, "PM2H_OUT": os.path.join(d, "inside.%d.ndjson" % k)})
            except subprocess.TimeoutExpired:
                return k, None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for k, r in ex.map(one, range(files)):
                f = os.path.join(d, "%d.rs" % k)
                if r is None or r.returncode != 0:
                    err = r.stderr.decode(errors="replace") if r else "no answer within 120 s"
                    if "can't find crate" in err or "couldn't load" in err:
                        raise ToolError("rustc: " + err[-2000:])
                    ctx.violate("compiling a file that uses the macro failed: " + err[:300], {"file": open(f).read(), "compiler": err[:4000]})
        # few big traces: put files together? each has its own text
        jobs += [j for j in trace_files(ctx, "Trace_Inside", d, "inside", files, "Trace_Inside_%s.cfg" % ("stable" if tc == "stable" else "nightly"), "inside@" + tc)]
    ctx.extra["toolchains"] = list(macros)
    mism = ctx.tlc(jobs)
    ctx.more = max(0, len(mism) - 10)
    for (j, k, verdict, line) in mism[:10]:
        lines = open(j["file"]).read().split("\n")
        ctx.violate("%s: %s" % (verdict, line[:300]), {"trace": j["tag"], "verdict": verdict, "file": text(json.loads(lines[0])[0]), "record": json.loads(line)})


def c23(ctx):
    q = not ctx.thorough
    path = scripts(ctx, "MC_Hygiene", "Gen_Hygiene.cfg" if q else "Gen_Hygiene_t.cfg", 3000 if q else 60000)
    jobs = [ctx.model_job("MC_Hygiene", "MC_Hygiene.cfg" if q else "MC_Hygiene_t.cfg", workers=2)]
    exempt = "--cfg procmacro2_semver_exempt"
    macros = {"stable": ctx.build_macro("stable"), "nightly-exempt": ctx.build_macro("nightly", flags=exempt)}
    if not q:
        macros.update({"nightly": ctx.build_macro("nightly"), "boot-exempt": ctx.build_macro("stable+boot", flags=exempt)})
    dirs = []
    for tag, m in macros.items():
        d = ctx.run_macro(m, "hygiene", "--histories", 300 if q else 6000, "--len", 40 if q else 100, "--scripts", path, sub="hygiene-" + tag, user="hygiene.rs")
        if d:
            dirs.append((tag, d))
    jobs += dedup(ctx, dirs, "Trace_Hygiene", "hygiene") if dirs else []
    report_histories(ctx, ctx.tlc(jobs))


def c22(ctx):
    jobs = simple(ctx, "debug", "Trace_Debug", ("exempt", "loc"), cfg="Trace_Debug_loc.cfg")
    jobs += simple(ctx, "debug", "Trace_Debug", ("default", "nodef"), cfg="Trace_Debug_noloc.cfg")
    q = not ctx.thorough
    mac = []
    for sub, args in (("spans", ["--histories", 1200 if q else 20000, "--len", 30]), ("plain", ["--histories", 600 if q else 10000, "--len", 30, "--nospans", 1, "--salt", 22])):
        mac += in_macro(ctx, "store", "Trace_Store", *args, cfg="Trace_Store_pm.cfg", part="store-" + sub, timeout=300 if q else 3600)
    found = ctx.tlc(jobs + mac)
    report(ctx, [m for m in found if m[0]["module"] != "Trace_Store"], lambda r: "%r / %r" % (text(r[4])[:300], text(r[5])[:300]))
    # of the histories inside a macro only what they printed is this property's business
    report_histories(ctx, [m for m in found if m[0]["module"] == "Trace_Store" and json.loads(m[3])[0][0] == 36])


def trace_files(ctx, module, d, stem, n, cfg, tag):
    jobs = []
    for k in range(n):
        f = os.path.join(d, "%s.%d.ndjson" % (stem, k))
        m = sum(1 for _ in open(f, "rb"))
        jobs.append(dict(kind="trace", module=module, cfg=cfg, file=f, n=m, tag=tag, env={}, cmd=ctx.tlc_cmd(module, cfg, 1, "3g")))
    return jobs


def digests(d, stem):
    """{(file, block of 64 records): digest} of a mode's records"""
    out = {}
    for k in range(64):
        f = os.path.join(d, "%s.%d.ndjson" % (stem, k))
        if not os.path.exists(f):
            break
        lines = open(f).read().split("\n")
        for b in range(0, len(lines), 64):
            h = hashlib.sha256("\n".join(lines[b:b + 64]).encode()).digest()
            out[k, b // 64] = [int.from_bytes(h[x:x + 3], "little") for x in (0, 3, 6)]
    return out


def dedup(ctx, dirs, module, stem, cfg=None):
    """Trace jobs for the first configuration; for the others only those record files that differ."""
    jobs, seen = [], set()
    for (config, d) in dirs:
        for j in ctx.trace_jobs(module, d, stem, cfg=cfg, tag=stem + "@" + config):
            h = hashlib.sha256(open(j["file"], "rb").read()).hexdigest()
            if h not in seen:
                seen.add(h)
                jobs.append(j)
        ctx.extra.setdefault("configurations", []).append(config)
    return jobs


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23}


def main():
    prop = sys.argv[1]
    ctx = Ctx(prop)
    try:
        CHECKS[prop](ctx)
        rc = ctx.finish()
    except ToolError as e:
        if ctx.violations:
            rc = ctx.finish()
        else:
            print("ERROR:", e)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 1 if (ctx.violations and ctx.finish()) else 2
    sys.exit(rc)


main()
