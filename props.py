"""What each check analyses.  harness: drivers under /verif/drivers interpreted abstractly; queries: functions over the
typed program.  asserts/kinds select which verdicts of a harness belong to the property."""
ASSUMES = ["one translation unit per driver, type-checked by clang 18 as C++17 against /repo's current headers",
           "real arithmetic is exact (no rounding, no overflow) unless the property is about non-finite values",
           "standard library and Eigen calls behave as their documentation says (modelled in /verif/engine)"]
SM = "tr rw mc pr lr er bo su el".split()
MEM = ("uaf", "uninit", "oob", "oob?", "null", "div0")
PROPS = {}


def H(driver, names, **k):
    return dict(driver=driver, names=names, **k)


PROPS["G01"] = dict(
    harness=[H("sel.cpp", ["n_" + s for s in SM], asserts={"population_size"}, reach=["after_select"])],
    explain="abstract interpretation of each selection method on an arbitrary population (any size >= the configured "
            "size, any fitness values) down to the state after selection; loops analysed to a fixpoint")
PROPS["G02"] = dict(
    harness=[H("sel.cpp", ["f_" + s for s in SM] + ["g_tr", "g_mc", "g_su"], asserts={"best_is_best"},
               thorough_names=["g_" + s for s in "rw pr lr er el".split()], reach=["after_select"])],
    explain="abstract interpretation of each selection method with one arbitrary individual tracked exactly (Skolem "
            "individual); the reported best is compared with it after selection in both optimisation directions")
PROPS["G03"] = dict(
    harness=[H("sel.cpp", ["n_" + s for s in SM] + ["n_to", "ng_tr", "ng_rw", "ng_mc", "ng_el", "ng_to"],
               asserts={"fail_counter"}, reach=["after_select"])],
    explain="abstract interpretation of each selection method; stagnation counter compared with strict improvement")
PROPS["G04"] = dict(
    harness=[H("sel.cpp", ["n_" + s for s in SM], asserts=set(), kinds=MEM, reach=["after_select"]),
             H("sel.cpp", ["n_to"], asserts=set(), kinds=MEM, reach=["after_select"],
               ignore=[("may reach the end", "")])],
    explain="abstract interpretation with erased-element, initialisation and bounds tracking on every container access "
            "made by each selection method on an arbitrary population")
OMP = ["-fopenmp", "-isystem", __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "drivers/stub")]
_fit = [a + b for a in ("rf0", "rf1", "cf0", "cf1") for b in ("_fit",)]
PROPS["G05"] = dict(
    harness=[H("ga.cpp", ["r_fit", "c_fit"] + _fit, kinds=MEM, reach=["after"]),
             H("ga.cpp", ["r_fit", "c_fit"] + _fit, flags=OMP, kinds=MEM + ("chunk",), reach=["after"])],
    explain="abstract interpretation of the fitness phase on an arbitrary population with one arbitrary individual "
            "tracked exactly, once valid and once not, in the serial and the OpenMP build")
PROPS["G06"] = dict(
    harness=[H("ga.cpp", ["r_cross", "r_mut", "c_cross", "c_mut"], kinds=MEM, reach=["after"]),
             H("ga.cpp", [a + b for a in ("rf0", "rf1", "cf0", "cf1") for b in ("_cross", "_mut")], reach=["after"])],
    explain="abstract interpretation of crossover and mutation on an arbitrary population with one arbitrary "
            "individual (existing or newborn) tracked exactly")
RUNS = [h + m for h in ("run_rec", "run_norec", "run_args") for m in ("", "_unlimited", "_improves", "_stagnates")]
PROPS["G07"] = dict(
    harness=[H("garun.cpp", RUNS, kinds=MEM, reach=["after"])],
    explain="abstract interpretation of the run loop with the phases replaced by ghost counters; typestate of the "
            "phase order, counters as symbols")
PROPS["G08"] = dict(
    harness=[H("ga.cpp", ["r_init", "c_init", "rf0_init", "cf0_init", "rf1_init", "cf1_init"], kinds=MEM, reach=["after"])],
    explain="abstract interpretation of initialisation for an arbitrary configured size")
# ---- particle swarm
PS = "sas sar svs svr efs efr evs evr".split()
_mem = [h + s for h in PS for s in ("_init", "_fit", "_best", "_move")]
PROPS["P01"] = dict(
    harness=[H("pso.cpp", [h + "_init" for h in PS] + [h + "_fmove" for h in ("sas", "sar", "efs", "evr")],
               thorough_names=[h + "_fmove" for h in ("svs", "svr", "efr", "evs")],
               asserts={"position_in_box", "velocity_in_range", "swarm_size"}, reach=["after"]),
             H("pso.cpp", [h + "_move" for h in PS], asserts={"swarm_size"}, kinds=MEM, reach=["after"]),
             H("pso.cpp", ["sas_fmove", "evr_fmove"], asserts={"position_in_box", "velocity_in_range"}, flags=OMP,
               reach=["after"], tier="thorough")],
    explain="abstract interpretation of initialisation and of the move phase on an arbitrary swarm with one arbitrary "
            "particle and one arbitrary component tracked exactly, in a box with arbitrary bounds")
PROPS["P02"] = dict(
    harness=[H("pso.cpp", ["%s_fmove%d" % (h, i) for h in ("efs", "evs") for i in range(1, 8)] +
               ["%s_fmove%d" % (h, i) for h in ("sar", "evr") for i in (2, 3, 6, 7)],
               thorough_names=["%s_fmove%d" % (h, i) for h in PS for i in range(1, 8)],
               asserts={"inertia_term", "velocity_limit", "attraction_term", "position_limit", "position_moves_by_velocity"},
               reach=["after"])],
    explain="abstract interpretation of the move phase in seven regimes (free flight, each limit reached from either "
            "side, pure attraction by either best) on one arbitrary particle and component of an arbitrary swarm")
PROPS["P03"] = dict(
    harness=[H("pso.cpp", [h + s for h in PS for s in ("_best", "_fbest1", "_fbest2", "_init")],
               asserts={"best_never_worsens", "best_matches_its_position", "best_accessor", "best_covers_particles",
                        "particle_best", "particle_untouched", "init_pbest"}, reach=["after"]),
             H("pso.cpp", [h + "_best" for h in PS], asserts=set(), kinds=MEM, reach=["after"]),
             H("pso.cpp", [h + "_fmove" for h in ("efs", "evr")], thorough_names=[h + "_fmove" for h in PS],
               asserts={"best_untouched", "particle_best_untouched"}, reach=["after"])],
    explain="abstract interpretation of best tracking and of the move phase on an arbitrary swarm; a fitness identifies "
            "the position it was computed from through one arbitrary tracked component")
PROPS["P04"] = dict(
    harness=[H("pso.cpp", [h + "_best" for h in PS], asserts={"fail_counter"}, reach=["after"])],
    explain="abstract interpretation of best tracking; stagnation counter compared with strict improvement")
PROPS["P05"] = dict(
    harness=[H("pso.cpp", [h + s for h in PS for s in ("_fit", "_ffit")],
               asserts={"one_evaluation_per_particle", "fitness_of_own_position"}, reach=["after"]),
             H("pso.cpp", [h + "_fit" for h in PS], asserts=set(), kinds=MEM, reach=["after"]),
             H("pso.cpp", [h + s for h in PS for s in ("_fit", "_ffit")], flags=OMP,
               asserts={"one_evaluation_per_particle", "fitness_of_own_position"}, kinds=("chunk",), reach=["after"])],
    explain="abstract interpretation of the fitness phase on an arbitrary swarm, serial and OpenMP builds")
PROPS["P06"] = dict(
    harness=[H("pso.cpp", [h + "_init" for h in PS], kinds=MEM, reach=["after"],
               asserts={"init_size", "init_counters", "init_dimensions", "init_pbest", "fitness_of_own_position",
                        "best_matches_its_position"})],
    explain="abstract interpretation of initialisation for an arbitrary configured size, dimension and box")
PROPS["P07"] = dict(
    harness=[H("psorun.cpp", RUNS, kinds=MEM, reach=["after"])],
    explain="abstract interpretation of the run loop with the phases replaced by ghost counters; typestate of the "
            "phase order, counters as symbols")
PROPS["P08"] = dict(
    harness=[H("pso.cpp", [h + s for h in PS for s in ("_fit", "_dims")], asserts={"range_accessors", "dimensions"}, reach=["after"])],
    explain="abstract interpretation of the swarm box's setters and accessors for arbitrary bounds and dimensions, one "
            "arbitrary component tracked")
# ---- boxes
BX = "dsa dsv dse dra drv csa csv cse cra crv crf cre dsm dsn drm drn csm csn crm crn fdv fcv".split()
BG = ["gdv", "gde"]
PROPS["B01"] = dict(
    harness=[H("box.cpp", [h + "_init" for h in BX + BG + ["bba"]], asserts={"in_box", "size_of_variable"}, kinds=MEM, reach=["after"])],
    explain="abstract interpretation of every box's initialize on arbitrary bounds and dimensions, one arbitrary "
            "component tracked; uniform random draws bounded by their documented range")
PROPS["B02"] = dict(
    harness=[H("box.cpp", [h + s for h in BX + BG for s in ("_in", "_above", "_below", "_in1", "_above1", "_below1")],
               asserts={"in_box", "size_of_variable", "clamped_to_nearest_side"}, kinds=MEM, reach=["after"])],
    explain="abstract interpretation of applyConstraint (whole variable and single component) on an arbitrary variable "
            "whose tracked component is inside, above or below an arbitrary box")
PROPS["B03"] = dict(
    harness=[H("box.cpp", [h + "_delta" for h in BX + BG + ["bba"]], asserts={"in_box", "size_of_variable", "step_size"},
               kinds=MEM, reach=["after"])],
    explain="abstract interpretation of applyDelta on an arbitrary variable inside an arbitrary box")
PROPS["B04"] = dict(
    harness=[H("box.cpp", [h + s for h in BX + BG + ["bba"] for s in ("_access", "_dims")],
               asserts={"dimensions", "component_accessors", "whole_accessors"}, kinds=MEM, reach=["after"])],
    explain="abstract interpretation of the setters followed by the accessors for arbitrary bounds and dimensions")
# ---- Pareto dominance
PROPS["M01"] = dict(
    harness=[H("pareto.cpp", ["d%s%s" % (n, d) for n in "2347x" for d in "lg"], kinds=MEM, reach=["after"])],
    explain="abstract interpretation of the dominance test over every combination of better, equal and worse in 2, 3 "
            "and 4 objectives, all values symbolic; for 7 and run-time many objectives, one arbitrary worse objective")
# ---- atomic orbital search
AO = "sas svr efr evs".split()
_ph = [h + s for h in AO for s in ("_photon", "_nphoton", "_nphoton0")]
PROPS["A01"] = dict(
    harness=[H("aos.cpp", [h + "_init" for h in AO], asserts={"init_size", "init_dimensions", "state_in_box", "init_counters",
                                                              "new_electron_uncomputed"}, kinds=MEM, reach=["after"]),
             H("aos.cpp", _ph, asserts={"state_in_box", "child_dimensions"}, reach=["after"])],
    explain="abstract interpretation of initialisation and of both ways to make a child from an arbitrary parent, in a "
            "box with arbitrary bounds, one arbitrary component tracked")
PROPS["A02"] = dict(
    harness=[H("aos.cpp", [h + s for h in AO for s in ("_fit", "_ffit0", "_ffit1")], kinds=MEM, reach=["after"]),
             H("aos.cpp", [h + s for h in AO for s in ("_fit", "_ffit0", "_ffit1")], flags=OMP, kinds=("chunk",), reach=["after"])],
    explain="abstract interpretation of the fitness phase on an arbitrary population, serial and OpenMP builds, one "
            "arbitrary electron tracked, once computed and once not")
PROPS["A03"] = dict(
    harness=[H("aos.cpp", [h + s for h in AO for s in ("_best", "_fbest", "_mean")], kinds=MEM, reach=["after"])],
    explain="abstract interpretation of best tracking on an arbitrary population; means checked on populations whose "
            "states and energies are all alike")
PROPS["A04"] = dict(
    harness=[H("aos.cpp", [h + s for h in AO for s in ("_sel", "_fsel", "_bsel")], reach=["after"])],
    explain="abstract interpretation of selection and layering on an arbitrary population, with no electron, an "
            "arbitrary one, and a uniquely best one tracked")
PROPS["A05"] = dict(
    harness=[H("aos.cpp", [h + s for h in AO for s in ("_layer", "_flayer", "_mlayer", "_mlayers")], kinds=MEM, reach=["after"])],
    explain="abstract interpretation of the layer phase on a layer of arbitrary electrons, one of them tracked")
PROPS["A06"] = dict(
    harness=[H("aosrun.cpp", [h + m for h in ("run_rec", "run_norec", "run_args") for m in ("", "_improves", "_stagnates")],
               kinds=MEM, reach=["after"])],
    explain="abstract interpretation of the run loop with the phases replaced by ghost counters; typestate of the "
            "phase order, counters as symbols")
PROPS["A07"] = dict(
    harness=[H("aos.cpp", [h + "_upd1" for h in AO], reach=["after"]),
             H("aos.cpp", [h + s for h in AO for s in ("_nphoton", "_photon2", "_photon3")],
               asserts={"step_size", "towards_layer_best", "towards_atom_best", "parent_untouched", "child_dimensions"}, reach=["after"])],
    explain="abstract interpretation of the update phase on an arbitrary layer, and of one child of an arbitrary parent "
            "in regimes that separate its attractor from its repeller")


# ---- OpenMP regions
def omp_regions(env):
    """effects of every parallel region, in the solvers instantiated by drivers/race.cpp"""
    import json, race
    d = json.load(open(env["extract"]("race.cpp", OMP, env["tmp"]), encoding="latin-1"))
    r = race.Race(d).run()
    viol, n, ok, acc, names, seen = [], 0, 0, 0, [], set()
    for f, s, accesses, conflicts in r.regions:
        n += 1
        acc += len(accesses)
        names.append("%s (%d accesses)" % (f["q"], len(accesses)))
        if not conflicts:
            ok += 1
        for a, b in conflicts:
            key = (a.where, race.show(a.loc))
            if key in seen:
                continue
            seen.add(key)
            viol.append(dict(kind="race", where=str(a.where),
                             msg="written in one iteration and %s in another (%s): %s" % (
                                 "written" if b.kind == "w" else "read", b.where, race.show(a.loc)),
                             stack=list(a.stack)[-8:], facts=[race.show(b.loc)]))
    return dict(violations=viol, undecided=["region uses " + u for u in sorted(r.unknown)],
                coverage=dict(obligations=n, discharged=ok, regions=n, accesses=acc, regions_analysed=names))


PROPS["C01"] = dict(
    harness=[H("ga.cpp", ["r_fit", "c_fit"], asserts=set(), flags=OMP, kinds=("chunk",), reach=["after"]),
             H("pso.cpp", ["sas_fit", "evr_fit"], asserts=set(), flags=OMP, kinds=("chunk",), reach=["after"]),
             H("aos.cpp", ["sas_fit", "evs_fit"], asserts=set(), flags=OMP, kinds=("chunk",), reach=["after"])],
    queries=[omp_regions],
    explain="effect analysis of every OpenMP region of every solver family: all reads and writes, through all calls, as "
            "access paths; only elements selected by the loop index itself and the targets of pointers held in them are "
            "private to an iteration. Chunk sizes by abstract interpretation")


# ---- the documented interface
MODULES = ["Global", "EAGlobal", "SimpleMatrix", "Genetic", "PSO", "AOS"]


def api_units(env):
    """type-check every use of the documented interface in drivers/api and every module on its own"""
    import os, re, subprocess
    from concurrent.futures import ThreadPoolExecutor
    api = os.path.join(env["here"], "drivers", "api")
    units = []
    for m in MODULES:
        p = os.path.join(env["tmp"], "only_" + m + ".cpp")
        open(p, "w").write("#include <HeuristicFlow/%s>\n" % m)
        units += [(m + " alone", p, ["-std=c++17"] + f) for f in ([], OMP)] + [(m + " alone, C++20", p, ["-std=c++20"])]
    p = os.path.join(env["tmp"], "all_modules.cpp")
    open(p, "w").write("".join("#include <HeuristicFlow/%s>\n" % m for m in reversed(MODULES)))
    units.append(("all modules", p, ["-std=c++17"]))
    for f in sorted(os.listdir(api)):
        for std, extra in (("-std=c++17", []), ("-std=c++20", []), ("-std=c++17", OMP)):
            if env["tier"] == "thorough" or std == "-std=c++17":
                units.append(("interface of " + f[:-4], os.path.join(api, f), [std] + extra))
    rest = [f for f in env["flags"] if not f.startswith("-std")]

    def one(u):
        name, p, fl = u
        r = subprocess.run(["clang++", "-fsyntax-only", "-ferror-limit=40", "-w"] + rest + fl + [p],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return u, r.returncode, r.stdout.decode("latin-1")

    viol, ok, uses, seen = [], 0, 0, set()
    with ThreadPoolExecutor(8) as ex:
        for (name, p, fl), rc, out in ex.map(one, sorted(units, key=lambda u: -os.path.getsize(u[1]))):
            if rc == 0:
                ok += 1
                continue
            errs = re.findall(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", out, re.M)
            if not errs:
                return dict(violations=[], undecided=["%s: compiler failed: %s" % (name, out[-300:])],
                            coverage=dict(obligations=len(units), discharged=ok))
            for f, l, msg in errs:
                key = (f, l, msg[:80])
                if key in seen or len(seen) > 40:
                    continue
                seen.add(key)
                used = re.search(re.escape("%s:%s:" % (f, l)) + r"(?:.|\n)*?note: in instantiation of (.*)", out)
                viol.append(dict(kind="does-not-type-check", where="%s:%s" % (f, l), msg=msg[:300],
                                 stack=[name + " " + " ".join(x for x in fl if x in ("-std=c++20", "-fopenmp"))],
                                 facts=[used.group(1)[:200]] if used else []))
    return dict(violations=viol, undecided=[], coverage=dict(obligations=len(units), discharged=ok, units=len(units),
                                                             modules=MODULES, files=sorted(os.listdir(api))))


def single_definitions(env):
    """definitions with strong linkage in the headers would clash in a program of two translation units"""
    import os, re, subprocess
    p = os.path.join(env["tmp"], "every_module.cpp")
    open(p, "w").write("".join("#include <HeuristicFlow/%s>\n" % m for m in MODULES))
    viol, n, seen = [], 0, set()
    for extra in ([], OMP):
        r = subprocess.run(["clang++", "-S", "-emit-llvm", "-g1", "-w", "-Xclang", "-disable-llvm-passes", "-o", "-", p] + env["flags"] + extra,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            return dict(violations=[], undecided=["headers do not compile (reported by api_units)"],
                        coverage=dict(obligations=1, discharged=0))
        weak = r"(linkonce|linkonce_odr|weak|weak_odr|internal|private|available_externally|external|appending|common)\b"
        for l in r.stdout.decode("latin-1").splitlines():
            m = re.match(r"define\s+(.*?)@(\"[^\"]+\"|[\w.$]+)\(", l) or re.match(r"@(?P<n>\"[^\"]+\"|[\w.$]+) = (?P<a>.*?)\b(global|constant|alias)\b", l)
            if not m:
                continue
            n += 1
            attrs, name = (m.group("a"), m.group("n")) if "n" in m.groupdict() else (m.group(1), m.group(2))
            if re.search(weak, attrs) or name in seen:
                continue
            seen.add(name)
            q = subprocess.run(["c++filt", name], stdout=subprocess.PIPE).stdout.decode().strip()
            viol.append(dict(kind="multiple-definition", where=q, msg="non-inline definition in a header: a program that "
                             "includes it in two translation units does not link", stack=[q], facts=[l[:200]]))
    return dict(violations=viol, undecided=[], coverage=dict(obligations=1, discharged=int(not viol), definitions=n))


PROPS["C02"] = dict(
    queries=[api_units, single_definitions],
    explain="type checking of instantiations: every combination of the documented template options, with every documented "
            "member used at its documented type; every module header alone; linkage of every definition in the headers")
# ---- reals encoded as integers at compile time
def code_witnesses(env):
    """every static_assert of drivers/codes is an obligation the type checker decides from the current headers"""
    import os, re, subprocess
    d = os.path.join(env["here"], "drivers", "codes")
    viol, und, n, ok = [], [], 0, 0
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        r = subprocess.run(["clang++", "-fsyntax-only", "-ferror-limit=0", "-w", "-fconstexpr-steps=500000000", "-ftemplate-depth=8000"] +
                           env["flags"] + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode("latin-1")
        n += 1
        if r.returncode == 0:
            ok += 1
            continue
        if "maximum step limit" in out or "template instantiation exceeded" in out:
            und.append("%s: evaluation limit of the compiler reached" % f)
            continue
        parts = re.split(r"^(?=\S+?:\d+:\d+: (?:fatal )?error: )", out, flags=re.M)[1:]
        if not parts:
            und.append("%s: compiler failed: %s" % (f, out[-300:]))
        seen = set()
        for b in parts:
            w, l, msg = re.match(r"(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", b).groups()
            tail = msg.split("': ")[-1] if "static assertion" in msg else msg
            if tail in seen or len(seen) > 20:
                continue
            seen.add(tail)
            facts = re.findall(r"note: (expression evaluates to .*)", b) + re.findall(r"note: (in instantiation of .*?) requested", b)
            viol.append(dict(kind="witness-fails" if "static assertion" in msg else "does-not-type-check", where="%s:%s" % (w, l),
                             msg=msg[:300], stack=[tail], facts=[x[:200] for x in facts[:3]]))
    return dict(violations=viol, undecided=und, coverage=dict(obligations=n, discharged=ok, files=sorted(os.listdir(d)),
                static_assertions=sum(open(os.path.join(d, f)).read().count("static_assert(") for f in os.listdir(d))))


_UM = {"unroll": 64, "small": 64, "anyorder": 1, "finite": 1, "exact": 40, "maxper": 64}
PROPS["S01"] = dict(
    harness=[H("matrix.cpp", [h + t for h in "fixed dynamic moved grown mixed mapped".split() for t in ("_d", "_d1", "_r", "_r2")],
               kinds=MEM, reach=["after"], cfg=_UM)],
    explain="abstract interpretation of every constructor, assignment, accessor, resize and reserve of the three matrix classes, all "
            "element values unknown, storage as arrays whose elements are tracked one by one")
PROPS["U01"] = dict(
    harness=[H("maths.cpp", ["chaos%d" % i for i in range(5)] + ["chaos_random"], kinds=MEM, reach=["after"], cfg=_UM)],
    explain="symbolic normal form of every value the logistic map yields, as a polynomial of the seed, through each of its interfaces")
PROPS["U02"] = dict(
    harness=[H("maths.cpp", "extremes_d extremes_i smallest4 largest4 signs factorials_i factorials_u triangle_i triangle_u triangle_big".split(),
               kinds=MEM, reach=["after"], cfg=_UM)],
    explain="abstract interpretation of the helpers: extremes and signs on unknown values, factorials and combinations on every "
            "argument of the listed ranges")
PROPS["E01"] = dict(
    queries=[code_witnesses],
    explain="compile-time witnesses: the type checker evaluates the constant expressions of the current headers for every exponent range, "
            "the boundary mantissas, signs, quotients and coefficients listed in drivers/codes")
# ---- default genetic operators and random helpers
_RE = "sa sv ea ev".split()
_IN = "ia iv ei exi".split()
PROPS["D01"] = dict(
    harness=[H("ops.cpp", [p + s for p in _RE for s in ("_swap", "_swapb", "_rand", "_rand1", "_rand2", "_randb", "_randb2", "_real", "_realb")]
               + [p + s for p in _IN for s in ("_swap", "_rand")]
               + [p + "_cut%d" % i for p in "es" for i in range(4)], reach=["after"])],
    explain="abstract interpretation of every default crossover on two arbitrary parents of any size, one arbitrary component "
            "tracked exactly; the single cut on four tracked components for a draw anywhere in each quarter")
PROPS["D02"] = dict(
    harness=[H("ops.cpp", [p + s for p in _RE for s in ("_init", "_ibox", "_mbox", "_mboxs")]
               + [p + s for p in _IN for s in ("_ibox", "_mbox", "_msym", "_msymr")]
               + [p + "_one%d" % i for p in "es" for i in range(4)], reach=["after"])],
    explain="abstract interpretation of the default initialisation and mutation operators with arbitrary boxes and parents, one "
            "arbitrary component tracked exactly; four tracked components for the one that is mutated")
PROPS["D03"] = dict(
    harness=[H("rnd.cpp", ["unit", "span", "idx_i", "idx_z", "idx_u", "btw_i", "btw_z", "btw_l", "many0", "many1"]
               + ["even%d" % i for i in range(4)], kinds=MEM, reach=["after"])],
    explain="abstract interpretation of the random helpers with the underlying uniform draw anywhere in [0,1), and in each quarter of it")
# ---- multi-objective selection
_N = ["any", "wf", "wl", "bf", "bl", "eq"]
PROPS["N01"] = dict(
    harness=[H("nsga.cpp", ["n2l_" + m for m in _N] + ["n2g_bf", "n2g_wl", "n3g_bl", "m3l_bl"],
               thorough_names=["%s_%s" % (s, m) for s in ("n2l", "n2g", "n3g", "m3l") for m in _N], reach=["after"]),
             H("nsga.cpp", ["n2l_any", "n2l_bf", "n2l_wf", "m3l_bl"], thorough_names=["n2l_" + m for m in _N] + ["m3l_any", "m3l_bl"],
               reach=["after"], flags=OMP)],
    explain="abstract interpretation of the domination count over an arbitrary population, one arbitrary solution tracked "
            "exactly, every other solution related to it objective by objective")
_RP = "any2 any3 a2_1 a2_6 a3_3 a3_5 a4_3 ax_4 s2_1 s2_4 s2_12 s3_3 s3_4 s4_3 sx_4 sx_2 t2_23 t3_34 t4_22 tx_23 c3_12 c3_19 c5_10 c8_20".split()
PROPS["N02"] = dict(
    harness=[H("refp.cpp", _RP, thorough_names=_RP + ["a5_2", "s3_7", "s5_2", "t3_43"], kinds=MEM, reach=["after"], cfg={"unroll": 64, "small": 128, "anyorder": 1})],
    explain="abstract interpretation of the reference-point generation: for the listed precisions every point is computed "
            "exactly in rational arithmetic; for two and three objectives also with the precision unknown")
_SM = {"unroll": 64, "small": 64, "anyorder": 1, "finite": 1, "exact": 16}
_S2 = [p + m for p in ("n2l_", "n2g_", "n2d_") for m in "chain chain2 total exact split two late all crowded".split()]
_S3 = [p + m for p in ("n3l_", "n3m_") for m in "total exact two all".split()] + ["n3l_chain", "n3l_chain2", "n3l_split", "ends_a", "ends_b"]
_FA = [n + m for n in "tr4 tr5 tr5b el4 el5 el5b rw2 rw2b su2 su2b lr3 lr4 er2 er3 to4 to4b to4c to5a to5b to5c to5d to5e to5f to5 rw3 rw3b mc4 su3 er4 lr2".split() for m in ("_l", "_g")] + "bo2_g bo2_l bo2b_g bo2b_l".split()
PROPS["G09"] = dict(
    harness=[H("fair.cpp", _FA, reach=["after"], cfg=_SM)],
    explain="abstract interpretation of each selection method on populations of two to five individuals whose fitness values "
            "are unknown but for their order; every individual is tracked, every draw is any value of the stated range")
PROPS["M02"] = dict(
    harness=[H("moacc.cpp", [p + m for p in ("n2l_", "n2g_", "n2d_", "n3l_", "n3d_") for m in "one some none all ideal1 ideal".split()],
               kinds=MEM, reach=["after"], cfg=dict(_SM, maxper=64))],
    explain="abstract interpretation of the front and ideal-point accessors on small populations with unknown fitness values; "
            "every individual and front member is tracked, comparisons fork")
PROPS["N03"] = dict(
    harness=[H("nsel.cpp", _S2 + _S3, thorough_names=_S2 + _S3 + ["n3l_late", "n3m_split"], reach=["after"], cfg=_SM)],
    explain="abstract interpretation of the whole selection on populations of four and five solutions whose fitness values are "
            "unknown but for the order of domination; every place, pointer and set element is tracked, comparisons fork")
PROPS["N04"] = dict(
    harness=[H("niche.cpp", "near2 near3 neard norm_a norm_b norm_c norm_d".split(), reach=["after"], cfg=dict(_SM, maxper=64))],
    explain="abstract interpretation of normalisation and association with symbolic fitness values and reference points, "
            "results compared as rational functions of them")
PROPS["N05"] = dict(
    harness=[H("niche.cpp", "niche_least niche_near niche_near2 niche_both niche_even niche_run".split(), kinds=MEM, reach=["after"], cfg=_SM)],
    explain="abstract interpretation of niche preservation on small populations with unknown distances and draws; every map "
            "entry, iterator and chosen solution is tracked, comparisons and draws fork")
# ---- built-in test functions
_T1 = "ackley beale goldstein booth bukin matyas levy himmelblau easom cross egg holder mccormick schaffer2 schaffer4 camel rastrigin sphere rosenbrock tang".split()
_C1 = {"unroll": 64, "small": 64}
PROPS["T01"] = dict(
    harness=[H("testfun.cpp", [c + "_" + f for f in _T1 for c in "aevd"], kinds=MEM, reach=["after"], cfg=_C1)],
    explain="symbolic normal form of the value each test function returns, as a term over its decision variables, compared "
            "with the normal form of the published formula, for std and Eigen, fixed and run-time sized variables")
_T2 = "schafferN1 schafferN2 binh chang poloni vien".split()
_T3 = "fonseca kurpos kurneg kurmix dtlz1 dtlz2 dtlz3 dtlz4 dtlz7 dtlz5 dtlz6 dtlz8 dtlz9".split()
PROPS["T02"] = dict(
    harness=[H("testmo.cpp", [c + "_" + f for f in _T2 for c in "a e ae w x ax ew xx".split()] +
               [c + "_" + f for f in _T3 for c in "a e ae w x ax xx".split()], kinds=MEM, reach=["after"], cfg=_C1)],
    explain="symbolic normal form of every objective each test problem computes, as a term over its decision variables, compared "
            "with the normal form of the published formula, for std and Eigen, fixed and run-time sized variables and objectives")
