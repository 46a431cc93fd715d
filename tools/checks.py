"""The checks, one function per property."""
import json
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor

REGISTRY = {}


def check(prop):
    def deco(f):
        REGISTRY[prop] = f
        return f
    return deco


def generated(result):
    """Behaviours a specification printed with PrintT("GEN " \\o ToJson(..))."""
    out = []
    for line in result.out.splitlines():
        if line.startswith('"GEN '):
            out.append(json.loads(json.loads(line)[4:]))
    return out


def recorder(c, exe, *args, timeout=200):
    """A function recording a trace with the harness exe."""
    def record(path):
        try:
            p = c.run([exe, path] + [str(a) for a in args], ok=None, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "no end after %d s" % timeout
        if p.returncode != 0:
            return "exit code %d: %s" % (p.returncode, (p.stderr or p.stdout)[-3000:])
        return None
    return record


def mpi_recorder(c, ranks, exe, *args, timeout=200):
    """The same, on several processes."""
    def record(path):
        cmd = [exe, path] + [str(a) for a in args]
        if ranks > 1:
            cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(ranks)] + cmd
        try:
            p = c.run(cmd, ok=None, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "no end after %d s" % timeout
        if p.returncode != 0:
            return "exit code %d: %s" % (p.returncode, (p.stderr or p.stdout)[-3000:])
        return None
    return record


# ---------------------------------------------------------------------------
@check("P01")
def line_search(c):
    c.model_check("MCLineSearch")
    g = c.tlc("MCLineSearch", workers=1, consts={"Emit": "TRUE"})
    stim = os.path.join(c.work, "stimuli")
    beh = generated(g)
    with open(stim, "w") as f:
        for b in beh:
            f.write(" ".join([str(b["nmax"]), b["alpha"], b["f0"]] + b["trials"]) + "\n")
    c.log("%d behaviours of the model" % len(beh))
    exe = c.build("line_search", ["line_search.cc"], ["source/line_search.cc", "source/run_time_parameters.cc"])
    c.conform("TraceLineSearch", recorder(c, exe, stim, c.seed, c.pick(1500, 15000)))


RECORDS = ["source/gradient_crystal_plasticity/quadrature_point_history.cc",
           "source/run_time_parameters.cc"]


# ---------------------------------------------------------------------------
@check("P02")
def hardening(c):
    c.model_check("MCHardening", consts={"Depth": c.pick(5, 7)})
    g = c.tlc("MCHardening", workers=8, consts={"Emit": "TRUE", "Depth": c.pick(4, 5)})
    stim = os.path.join(c.work, "stimuli")
    beh = generated(g)
    step = max(1, len(beh) // c.pick(1500, 15000))
    beh = beh[c.seed % step::step]
    with open(stim, "w") as f:
        for b in beh:
            w = [b["law"]["g0"], b["law"]["H"], b["law"]["q"],
                 "1" if b["law"]["perfect"] else "0", b["chr"]]
            for o in b["ops"]:
                w += [o["op"]] + list(o["v"])
            f.write(" ".join(w) + "\n")
    c.log("%d behaviours of the model" % len(beh))
    exe = c.build("hardening", ["hardening.cc"], RECORDS)
    c.conform("TraceHardening", recorder(c, exe, stim, c.seed, c.pick(400, 4000), c.pick(25, 60)))
    import simulation as s
    exe = simulator(c)
    families = [s.history, s.constitutive, s.rate_independent, s.reversal, s.perfectly_plastic, s.bouncing, s.embracing, s.exhausted]
    samples = s.sample(c.seed, c.pick(4, 40), families=families) + s.sample(c.seed, c.pick(1, 8), (3,), families=[s.constitutive])
    for k in range(0, len(samples), 60):
        c.conform("TraceRecords", simulations(c, exe, "h", samples[k:k + 60]), label="TraceRecords %d" % (k // 60))


# ---------------------------------------------------------------------------
@check("P03")
def damage(c):
    c.model_check("MCDamage", consts={"Depth": c.pick(4, 6)})
    g = c.tlc("MCDamage", consts={"Emit": "TRUE", "Depth": c.pick(4, 5),
                                  "Openings": '{"0.0", "0.5", "1.5"}', "Forces": '{"0.5", "2.0"}',
                                  "Laws": '{"exp", "acc", "accdecay"}' if c.quick else
                                  '{"exp", "expzero", "acc", "acczero", "accdecay"}'})
    stim = os.path.join(c.work, "stimuli")
    beh = generated(g)
    step = max(1, len(beh) // c.pick(1500, 15000))
    beh = beh[c.seed % step::step]
    with open(stim, "w") as f:
        for b in beh:
            p = b["prm"]
            w = ["1" if b["exp"] else "0", p["deltac"], p["beta"], p["A"], p["c"], p["m"],
                 p["limit"], "1" if p["zero"] else "0", b["chr"]]
            for o in b["ops"]:
                w += [o["op"]] + list(o["v"])
            f.write(" ".join(w) + "\n")
    c.log("%d behaviours of the model" % len(beh))
    exe = c.build("damage", ["damage.cc"], RECORDS)
    c.conform("TraceDamage", recorder(c, exe, stim, c.seed, c.pick(800, 8000), c.pick(25, 60)))
    import simulation as s
    exe = simulator(c)
    samples = (s.sample(c.seed, c.pick(16, 150), families=[s.decohesion, s.constitutive])
               + s.sample(c.seed, c.pick(3, 30), (3,), families=[s.decohesion]))
    samples = [(n, k) for n, k in samples if k["deco"]]
    for k in range(0, len(samples), 60):
        c.conform("TraceRecords", simulations(c, exe, "f", samples[k:k + 60]), label="TraceRecords %d" % (k // 60))


# ---------------------------------------------------------------------------
@check("P04")
def shared_records(c):
    c.model_check("MCSharedRecords", consts={"Depth": c.pick(7, 10)})
    exe = c.build("shared_records", ["shared_records.cc"], RECORDS)
    c.conform("TraceSharedRecords", recorder(c, exe, c.seed, c.pick(150, 1500), c.pick(60, 200)))


def programmes(c, most):
    """The model of the loading programmes and the programmes it covers."""
    c.model_check("MCLoadProgramme", consts={
        "Counts": c.pick("{1, 2, 7}", "{1, 2, 3, 7}"), "Cycles": c.pick("{0, 1, 2}", "{0, 1, 2, 5}"),
        "Durations": c.pick('{"1.0", "0.3"}', '{"1.0", "0.3", "4.7"}')})
    g = c.tlc("MCLoadProgramme", consts={"Emit": "TRUE", "Counts": "{1, 2, 3, 7}"})
    beh = generated(g)
    seen = {json.dumps(b, sort_keys=True): b for b in beh}
    beh = [seen[k] for k in sorted(seen)]
    step = max(1, len(beh) // most)
    stim = os.path.join(c.work, "stimuli")
    with open(stim, "w") as f:
        for b in beh[c.seed % step::step]:
            f.write(" ".join(["1" if b["cyclic"] else "0", "1" if b["skip"] else "0", b["max"], b["min"],
                              b["dur"], b["phase"], b["period"], str(b["n"]), str(b["nphase"]),
                              str(b["nq"]), str(b["cycles"])]) + "\n")
    return stim


PROGRAMME_SOURCES = ["source/boundary_conditions.cc", "source/run_time_parameters.cc"]


@check("P05")
def schedule(c):
    stim = programmes(c, c.pick(300, 3000))
    exe = c.build("load_programme", ["load_programme.cc"], PROGRAMME_SOURCES)
    c.conform("TraceLoadProgramme", recorder(c, exe, "schedule", stim, c.seed, c.pick(200, 3000)))


@check("P06")
def boundary_values(c):
    stim = programmes(c, c.pick(150, 1500))
    exe = c.build("load_programme", ["load_programme.cc"], PROGRAMME_SOURCES)
    c.conform("TraceLoadProgramme", recorder(c, exe, "values", stim, c.seed, c.pick(100, 2000)))


# ---------------------------------------------------------------------------
def file_words(f):
    if f == [["missing"]]:
        return ["-1"]
    w = [str(len(f))]
    for l in f:
        w += [str(len(l))] + list(l)
    return w


@check("P07")
def crystal_files(c):
    c.model_check("MCCrystalFiles", label="MCCrystalFiles 2D")
    d3 = {"Dim": "3", "MaxLines": "1", "Coordinates": c.pick('{"0.0", "1.0"}', '{"0.0", "1.0", "-1.0"}'),
          "Angles": c.pick('{"0.0", "50.0"}', '{"0.0", "50.0", "-120.0"}')}
    c.model_check("MCCrystalFiles", label="MCCrystalFiles 3D", consts=d3)
    stim = os.path.join(c.work, "stimuli")
    n = 0
    with open(stim, "w") as f:
        for dim, k in ((2, {"Coordinates": '{"0.0", "1.0"}', "Angles": '{"0.0", "-30.0"}'}), (3, d3)):
            beh = generated(c.tlc("MCCrystalFiles", consts=dict(k, Emit="TRUE")))
            seen = {json.dumps(b): b for b in beh}
            beh = [seen[k] for k in sorted(seen)]
            step = max(1, len(beh) // c.pick(700, 5000))
            for b in beh[c.seed % step::step]:
                n += 1
                f.write(" ".join([str(dim)] + file_words(b["angles"]) + file_words(b["dirs"])
                                 + file_words(b["normals"])) + "\n")
    c.log("%d sets of files of the model" % n)
    exe = c.build("crystal_files", ["crystal_files.cc"], ["source/crystal_data.cc"])
    scratch = os.path.join(c.work, "files")
    os.makedirs(scratch)
    c.conform("TraceCrystalFiles", recorder(c, exe, stim, c.seed, c.pick(400, 5000), scratch))


# ---------------------------------------------------------------------------
@check("P08")
def parameters(c):
    c.model_check("MCParameters")
    if not c.quick:
        c.model_check("MCParameters", label="MCParameters pairs", consts={"Depth": "2", "OnlyFitting": "TRUE"}, timeout=1800)
    beh = generated(c.tlc("MCParameters", consts={"Emit": "TRUE"}))
    many = generated(c.tlc("MCParameters", cfg="GenParameters.cfg", workers=1,
                           args=["-simulate", "num=%d" % c.pick(400, 4000), "-depth", "7", "-seed", str(c.seed)]))
    seen = {json.dumps(b): b for b in beh + many}
    beh = [seen[k] for k in sorted(seen)]
    random.Random(c.seed).shuffle(beh)
    beh = beh[:c.pick(2400, 10**6)]
    # ... some of them in three dimensions, where the data may lie in other files
    dimension = ["1. Spatial discretization parameters", "Spatial dimension"]
    flat = [b for b in many if all(path[-1] != dimension[-1] for path, text in b["set"])]
    beh += [dict(b, set=b["set"] + [[dimension, "3"]]) for b in flat[:c.pick(90, 900)]]
    c.log("%d files of the model" % len(beh))
    exe = c.build("parameters", ["parameters.cc"], ["source/run_time_parameters.cc"])
    parts = [beh[i::8] for i in range(8)]
    for i, part in enumerate(parts):
        with open(os.path.join(c.work, "stimuli%d" % i), "w") as f:
            for j, b in enumerate(part):
                # data for three dimensions beside those for two: mostly where they matter
                space = any(path[-1] == "Spatial dimension" and text == "3" for path, text in b["set"])
                f.write("\t".join([b["prob"], "01"[j % 4 != 1 if space else j % 3 == 0]] + [x for path, text in b["set"]
                                                for x in ("\x1f".join(path), text)]) + "\n")
    def record(path):
        def one(i):
            return recorder(c, exe, os.path.join(c.work, "stimuli%d" % i),
                            os.path.join(c.work, "files%d" % i))("%s.%d" % (path, i))
        with ThreadPoolExecutor(8) as ex:
            bad = [r for r in ex.map(one, range(8)) if r]
        with open(path, "w") as f:
            for i in range(8):
                f.write(open("%s.%d" % (path, i)).read())
        return bad[0] if bad else None
    c.conform("TraceParameters", record)


# ---------------------------------------------------------------------------
LAWS = ["source/constitutive_laws.cc", "source/crystal_data.cc", "source/run_time_parameters.cc"]


def scratch_dir(c):
    d = os.path.join(c.work, "files")
    os.makedirs(d, exist_ok=True)
    return d


@check("P13")
def interface_laws(c):
    c.model_check("MCInterfaceLaws", consts={"Depth": c.pick(4, 5)})
    exe = c.build("interface_laws", ["interface_laws.cc"], LAWS)
    c.conform("TraceInterfaceLaws", recorder(c, exe, c.seed, c.pick(400, 2000), c.pick(30, 40)))


@check("P14")
def crystal_laws(c):
    c.model_check("MCCrystalLaws", consts={"Depth": c.pick(2, 3)})
    exe = c.build("crystal_laws", ["crystal_laws.cc"], LAWS)
    c.conform("TraceCrystalLaws", recorder(c, exe, c.seed, c.pick(150, 1500), c.pick(30, 40), scratch_dir(c)))


@check("P15")
def microtraction(c):
    c.model_check("MCMicrotraction", consts={"Depth": c.pick(3, 4)})
    exe = c.build("microtraction", ["microtraction.cc"], LAWS)
    c.conform("TraceMicrotraction", recorder(c, exe, c.seed, c.pick(150, 1500), c.pick(15, 20), scratch_dir(c)))


# ---------------------------------------------------------------------------
@check("P12")
def dof_layout(c):
    c.model_check("MCDofLayout", label="MCDofLayout 2D", consts={"MaxLength": c.pick(3, 4), "MaxSlips": c.pick(1, 2)})
    c.model_check("MCDofLayout", label="MCDofLayout 2D wide",
                  consts={"Widths": "{2}", "MaxCrystals": c.pick(2, 3), "MaxSlips": 1, "MaxLength": 2})
    c.model_check("MCDofLayout", label="MCDofLayout 3D",
                  consts={"Dims": "{3}", "MaxCrystals": 2, "MaxSlips": 1, "MaxLength": c.pick(2, 3)})
    rng = random.Random(c.seed)
    cases = []
    for k, num in (({"MaxLength": c.pick(3, 4), "MaxSlips": 3}, c.pick(110, 2000)),
                   ({"MaxLength": 2, "MaxSlips": 2, "Widths": "{2}"}, c.pick(60, 2000)),
                   ({"MaxLength": 2, "MaxSlips": 1, "Widths": "{3}", "MaxCrystals": 2}, c.pick(60, 2000)),
                   ({"MaxLength": 2, "MaxSlips": 2, "Dims": "{3}", "Widths": "{1, 2}", "MaxCrystals": 2},
                    c.pick(40, 300))):
        g = generated(c.tlc("MCDofLayout", consts=dict(k, Emit="TRUE")))
        g.sort(key=json.dumps)
        cases += rng.sample(g, min(num, len(g)))
    lines = []
    for g in cases:
        q, m = g["cfg"], {tuple(a[0][:2]): a[1] for a in g["at"]}
        w, l = [1 + max(x[i] for x in m) for i in (0, 1)]
        lines.append(" ".join(map(str, [q["dim"], q["nc"], q["ns"], int(q["deco"]), q["du"], q["ds"], rng.randrange(2), w, l]
                                  + [m[i, j] for i in range(w) for j in range(l)])))
    c.log("%d configurations of the model" % len(lines))
    exe = c.build("dof_layout", ["dof_layout.cc"], ["source/fe_field.cc", "source/utilities.cc", "source/run_time_parameters.cc"])
    # deal.II cannot distribute a field without slip systems in parallel
    known = re.compile(r"3 [2-9] \d 0 2 2 ")
    for ranks in (1, 2, 3):
        stim = os.path.join(c.work, "stimuli%d" % ranks)
        with open(stim, "w") as f:
            f.write("\n".join(l for l in (lines[ranks - 1::3] if c.quick else lines)
                              if not known.match(l) and (ranks == 1 or l.split()[2] != "0")) + "\n")
        c.conform("TraceDofLayout", mpi_recorder(c, ranks, exe, stim, c.seed),
                  label="TraceDofLayout %d processes" % ranks, env={"KNOWN": ""})
    stim = os.path.join(c.work, "stimuli_known")
    with open(stim, "w") as f:
        f.write("\n".join(l for l in lines if known.match(l)) + "\n")
    c.conform_known("TraceDofLayout", mpi_recorder(c, 1, exe, stim, c.seed), "quadratic-3d",
                    "with quadratic displacements and slips in 3D the displacements at the middle of the "
                    "edges on grain boundaries are not shared between the crystals", label="TraceDofLayout quadratic 3D")


# ---------------------------------------------------------------------------
# Whole simulations
def simulator(c):
    """The real application with observation points."""
    from vlib import REPO
    sources = []
    for d, _, files in os.walk(os.path.join(REPO, "source")):
        sources += [os.path.relpath(os.path.join(d, f), REPO) for f in files if f.endswith(".cc")]
    return c.build("simulation", ["simulation.cc"], sorted(sources), ["-I", REPO], hooks=True, private=True)


def simulations(c, exe, what, samples, limit=200):
    """A function which runs the configurations (name, config) and writes one
    behaviour per configuration."""
    import simulation
    import shutil
    import subprocess

    def record(path):
        def one(sample):
            name, cfg = sample
            where = os.path.join(c.work, "runs", name)
            args = simulation.write(cfg, where)
            out = where + ".nd"
            try:
                p = c.run([exe, out, what, str(c.seed)] + args, ok=None, timeout=limit)
                fault = None if p.returncode == 0 else "exit code %d: %s" % (p.returncode, (p.stderr or p.stdout)[-3000:])
            except subprocess.TimeoutExpired:
                fault = "no end after %d s" % limit
            shutil.rmtree(where, ignore_errors=True)
            return name, out, fault

        os.makedirs(os.path.join(c.work, "runs"), exist_ok=True)
        faults = []
        with ThreadPoolExecutor(8) as ex, open(path, "w") as f:
            for name, out, fault in ex.map(one, samples):
                if fault:
                    faults.append("%s %s" % (name, fault))
                    continue
                with open(out) as g:
                    f.write(g.read().rstrip("\n") + "\n")
                os.remove(out)
        return "; ".join(faults[:3]) or None
    return record


@check("P09")
def newton_step(c):
    import simulation
    c.model_check("MCNewtonStep", consts=c.pick({}, {"NMax": 4, "LoopsMax": 4}))
    exe = simulator(c)
    samples = (simulation.sample(c.seed, c.pick(7, 60)) + simulation.sample(c.seed, c.pick(1, 8), (3,))
               + simulation.sample(c.seed, c.pick(12, 60), families=[simulation.reversal, simulation.searching]))
    for k in range(0, len(samples), 120):
        c.conform("TraceNewtonStep", simulations(c, exe, "s", samples[k:k + 120]),
                  label="TraceNewtonStep %d" % (k // 120))


@check("P10")
def active_set(c):
    import simulation
    c.model_check("MCActiveSet")
    if not c.quick:
        c.model_check("MCActiveSet", consts={"Systems": 2, "StepsMax": 1, "ChangesMax": 1})
    c.model_check("MCTrialMicrostress", consts=c.pick({}, {"Depth": 2}), timeout=1800)
    exe = simulator(c)
    ri, others = [simulation.rate_independent], [f for f in simulation.FAMILIES if f != simulation.rate_independent]
    samples = (simulation.sample(c.seed, c.pick(20, 200), families=ri)
               + simulation.sample(c.seed, c.pick(2, 20), (3,), families=ri)
               + simulation.sample(c.seed, c.pick(3, 30), families=others)
               + simulation.sample(c.seed, c.pick(6, 50), families=[simulation.reversal])
               + simulation.sample(c.seed, c.pick(6, 50), families=[simulation.perfectly_plastic]))
    for k in range(0, len(samples), 120):
        c.conform("TraceActiveSet", simulations(c, exe, "sa", samples[k:k + 120]),
                  label="TraceActiveSet %d" % (k // 120))
    samples = (simulation.sample(c.seed + 7, c.pick(10, 150), families=ri)
               + simulation.sample(c.seed + 7, c.pick(2, 30), families=[simulation.perfectly_plastic])
               + simulation.sample(c.seed + 7, c.pick(1, 12), (3,), families=ri))
    for k in range(0, len(samples), 60):
        c.conform("TraceTrialMicrostress", simulations(c, exe, "sa", samples[k:k + 60]),
                  label="TraceTrialMicrostress %d" % (k // 60))


@check("P11")
def time_steps(c):
    import simulation
    c.model_check("MCTimeSteps", consts=c.pick({}, {"StepsMax": 5}))
    exe = simulator(c)
    samples = (simulation.sample(c.seed, c.pick(16, 120), families=[simulation.history])
               + simulation.sample(c.seed, c.pick(12, 80), families=[simulation.degrees])
               + simulation.sample(c.seed, c.pick(4, 30))
               + simulation.sample(c.seed, c.pick(1, 10), (3,), families=[simulation.history, simulation.monolithic]))
    for k in range(0, len(samples), 120):
        c.conform("TraceTimeSteps", simulations(c, exe, "s", samples[k:k + 120]),
                  label="TraceTimeSteps %d" % (k // 120))


@check("P16")
def system_matrix(c):
    import simulation
    c.model_check("MCWeakForm", cfg="MCTangents.cfg", consts=c.pick({}, {"Depth": 3, "Bodies": EVERY_BODY}), timeout=1800)
    exe = simulator(c)
    samples = (simulation.sample(c.seed, c.pick(24, 200), families=[simulation.constitutive])
               + simulation.sample(c.seed, c.pick(2, 20), families=[simulation.sandwiched])
               + simulation.sample(c.seed, c.pick(3, 40), families=simulation.FAMILIES + [simulation.history])
               + simulation.sample(c.seed, c.pick(4, 40), (3,), families=[simulation.constitutive]))
    for k in range(0, len(samples), 60):
        c.conform("TraceWeakForm", simulations(c, exe, "j", samples[k:k + 60]), label="TraceWeakForm %d" % (k // 60))


EVERY_BODY = '{"free", "rate", "dimless", "interacting", "opening", "damaged", "fatigue"}'


@check("P19")
def weak_form(c):
    import simulation
    c.model_check("MCWeakForm", consts=c.pick({}, {"Depth": 4, "Bodies": EVERY_BODY}), timeout=1800)
    exe = simulator(c)
    samples = (simulation.sample(c.seed, c.pick(16, 120), families=[simulation.constitutive])
               + simulation.sample(c.seed, c.pick(2, 20), families=[simulation.sandwiched])
               + simulation.sample(c.seed, c.pick(3, 30), families=simulation.FAMILIES + [simulation.history])
               + simulation.sample(c.seed, c.pick(2, 12), (3,), families=[simulation.constitutive]))
    for k in range(0, len(samples), 60):
        c.conform("TraceWeakForm", simulations(c, exe, "w", samples[k:k + 60]), label="TraceWeakForm %d" % (k // 60))


@check("P17")
def run(c):
    import simulation
    c.model_check("MCRun", consts=c.pick({}, {"Phases": "{1, 2, 3}", "Quarters": "{1, 2, 3}", "Cycles": "{1, 2, 3}"}))
    exe = simulator(c)
    samples = (simulation.sample(c.seed, c.pick(50, 400), families=[simulation.reports])
               + simulation.sample(c.seed, c.pick(3, 40))
               + simulation.sample(c.seed, c.pick(6, 40), (3,), families=[simulation.reports]))
    for k in range(0, len(samples), 120):
        c.conform("TraceRun", simulations(c, exe, "d", samples[k:k + 120]), label="TraceRun %d" % (k // 120))


@check("P18")
def fields(c):
    import simulation
    c.model_check("MCFields", consts=c.pick({}, {"Bodies": EVERY_BODY, "Depth": 3}), timeout=1800)
    exe = simulator(c)
    samples = (simulation.sample(c.seed, c.pick(50, 400), families=[simulation.reports])
               + simulation.sample(c.seed, c.pick(2, 30), families=[simulation.embracing, simulation.degrees])
               + simulation.sample(c.seed, c.pick(8, 40), (3,), families=[simulation.reports]))
    for k in range(0, len(samples), 120):
        c.conform("TraceFields", simulations(c, exe, "p", samples[k:k + 120]), label="TraceFields %d" % (k // 120))
