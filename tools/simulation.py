"""Parameter files of small simulations and the matching description for the
specification."""
import copy
import json
import os

DEFAULT = dict(
    dim=2, height="1.0", ne=4, nc=2, du=1, ds=1,
    load=dict(cyclic=False, skip=True, max="0.01", min="0.0", dur="1.0", n=3, phase="1.0",
              nphase=2, period="1.0", nq=1, cycles=1),
    bc="microfree", deco=False, dimless=True, factor="1.0", skipex=False,
    chars=dict(u="0.01", l="1.0", g="60.0", c="28500.0", t="1.0"),
    strategy="monolithic", precond="built-in",
    krylov=["directsolver"] * 3,
    nmax=[20, 20, 20], loops=60, reset=True,
    tol=["1e-8", "1e-8", "1e-8"],
    ls=[False, False, False], lsmax=[5, 5, 5], lsalpha="1e-4",
    hard=dict(g0="60.0", H="100.0", q="1.0", perfect=False),
    hooke=["107942.28436442571", "61246.24912213496", "28500.0"],
    scalar=dict(ri=False, fn="erf", p="1.0"),
    vect=dict(n="2.0", l="0.1", g0="60.0", reg="1e-16"),
    cohesive=dict(model="OrtizEtAl", delta="2.5e-2", t="700.0", beta="1.0"), contact="1e4",
    damage=dict(macro=False, micro=True, acc="1.0", decay="0.0", exp="1.0", model="OrtizEtAl",
                endurance="0.0", zero=False, deg="1.0"),
    micro="1e3",
    angles=["0.", "30."],
    directions=[["0.5", "0.8660254037844386"], ["-0.5", "0.8660254037844386"]],
    normals=[["-0.8660254037844386", "0.5"], ["-0.8660254037844386", "-0.5"]],
    outfreq=1, homogenization=False, homfreq=1, outdamage=False, outdimless=False, fluct=False,
    macrostrain=[], loads=dict(supply=[], tractions=[]),
)


def config(**changes):
    c = copy.deepcopy(DEFAULT)
    for k, v in changes.items():
        if isinstance(v, dict):
            c[k].update(v)
        else:
            c[k] = v
    return c


def b(x):
    return "true" if x else "false"


def newton(c, i):
    return """
      subsection Krylov parameters
        set Absolute tolerance           = 1e-12
        set Maximum number of iterations = 2000
        set Relative tolerance           = 1e-10
        set Solver type                  = %s
      end
      subsection Line search parameters
        set Alpha condition constant     = %s
        set Maximum number of iterations = %d
      end
      subsection Newton-Raphson parameters
        set Absolute tolerance of the residual = %s
        set Relative tolerance of the residual = %s
        set Line search algorithm              = %s
        set Maximum number of iterations       = %d
      end
""" % (c["krylov"][i], c["lsalpha"], c["lsmax"][i], c["tol"][i], "0.9" if float(c["tol"][i]) < 0.9 else "1e4", b(c["ls"][i]), c["nmax"][i])


def write(c, path):
    """Writes path.prm, path.json and the input files into the directory
    path; returns the command-line arguments of the harness."""
    os.makedirs(os.path.join(path, "out", "paraview"), exist_ok=True)
    for name, rows in (("angles", c["angles"]), ("directions", c["directions"]), ("normals", c["normals"])):
        with open(os.path.join(path, name + ".txt"), "w") as f:
            for r in rows:
                f.write((r if isinstance(r, str) else ", ".join(r)) + "\n")
    l = c["load"]
    text = """
subsection 0. Infinite strip parameters (Extended in 1. and 2.)
  subsection Loading parameters
    set Control type = displacement_control
  end
end
subsection 1. Spatial discretization parameters
  set FE's polynomial degree - Displacements = %d
  set FE's polynomial degree - Slips         = %d
  set Mapping - Apply to interior cells      = false
  set Mapping - Polynomial degree            = 1
  set Number of global refinements           = 0
  set Spatial dimension                      = %d
  subsection Problem specific parameters
    set Height of the strip                             = %s
    set Number of elements in y-direction = %d
    set Number of equally sized crystals in y-direction = %d
  end
end
""" % (c["du"], c["ds"], c["dim"], c["height"], c["ne"], c["nc"])
    text += """
subsection 2. Temporal discretization parameters
  subsection Simple loading
    set Loading type = %s
    set Maximum load = %s
    set Minimum load = %s
    subsection Cyclic load parameters
      set Duration of un- and loading phase            = %s
      set Number of cycles                             = %d
      set Number of steps during a quarter cycle       = %d
      set Number of steps during un- and loading phase = %d
      set Period                                       = %s
      set Skip unloading phase                         = %s
    end
    subsection Monotonic load parameters
      set Duration of monotonic load            = %s
      set Number of steps during monotonic load = %d
    end
  end
end
""" % ("cyclic" if l["cyclic"] else "monotonic", l["max"], l["min"], l["phase"], l["cycles"], l["nq"],
       l["nphase"], l["period"], b(l["skip"]), l["dur"], l["n"])
    text += """
subsection 3. Input parameters
  set Euler angles path name = %s/angles
  set Slip directions path name = %s/directions
  set Slip normals path name    = %s/normals
end
subsection 4. Output parameters
  set Graphical output directory      = %s/out/
  set Graphical output frequency      = %d
  set Output damage variable field    = %s
  set Output dimensionless quantities = %s
  set Output fluctuations fields      = %s
  set Terminal output frequency       = 1
end
subsection 5. Postprocessing parameters
  subsection Homogenization
    set Compute homogenized quantities = %s
    set Homogenization frequency       = %d
  end
end
""" % (path, path, path, path, c["outfreq"], b(c["outdamage"]), b(c["outdimless"]), b(c["fluct"]),
       b(c["homogenization"]), c["homfreq"])
    d, h, v, s = c["damage"], c["hard"], c["vect"], c["scalar"]
    text += """
subsection 6. Solver parameters
  set Allow decohesion at grain boundaries         = %s
  set Boundary conditions at grain boundaries      = %s
  set Skip extrapolation of start value            = %s
  set Extrapolation factor                         = %s
  set Solution algorithm                           = %s
  set Verbose                                      = false
  set Zero damage evolution during un- and loading = false
  subsection Dimensionless formulation parameters
    set Solve the dimensionless problem = %s
    subsection Reference parameters
      set Reference displacement value    = %s
      set Reference length value          = %s
      set Reference slip resistance value = %s
      set Reference stiffness value       = %s
      set Reference time value            = %s
    end
  end
""" % (b(c["deco"]), c["bc"], b(c["skipex"]), c["factor"], c["strategy"], b(c["dimless"]),
       c["chars"]["u"], c["chars"]["l"], c["chars"]["g"], c["chars"]["c"], c["chars"]["t"])
    text += """
  subsection Constitutive laws' parameters
    subsection Cohesive law's parameters
      set Cohesive law model                   = %s
      set Critical opening displacement        = %s
      set Critical cohesive traction           = %s
      set Tangential to normal stiffness ratio = %s
    end
    subsection Contact law's parameters
      set Penalty coefficient = %s
    end
    subsection Damage evolution parameters
      set Couple macrotraction to damage = %s
      set Couple microtraction to damage = %s
      set Damage accumulation constant   = %s
      set Damage decay constant          = %s
      set Damage decay exponent          = %s
      set Damage evolution model         = %s
      set Endurance limit                = %s
      set Set damage to zero             = %s
    end
    subsection Degradation function parameters
      set Degradation exponent           = %s
    end
    subsection Hardening law's parameters
      set Hardening parameter      = %s
      set Initial slip resistance  = %s
      set Linear hardening modulus = %s
      set Perfect plasticity       = %s
    end
    subsection Hooke-Law's parameters
      set C1111 = %s
      set C1122 = %s
      set C1212 = %s
    end
    subsection Microtraction law's parameters
      set Grain boundary modulus = %s
    end
    subsection Scalar microstress law's parameters
      set Rate-independent behavior = %s
      set Regularization function   = %s
      set Regularization parameter  = %s
    end
    subsection Vectorial microstress law's parameters
      set Defect energy index      = %s
      set Energetic length scale   = %s
      set Initial slip resistance  = %s
      set Regularization parameter = %s
    end
  end
""" % (c["cohesive"]["model"], c["cohesive"]["delta"], c["cohesive"]["t"], c["cohesive"]["beta"], c["contact"],
       b(d["macro"]), b(d["micro"]), d["acc"], d["decay"], d["exp"], d["model"], d["endurance"], b(d["zero"]),
       d["deg"], h["q"], h["g0"], h["H"], b(h["perfect"]), c["hooke"][0], c["hooke"][1], c["hooke"][2],
       c["micro"], b(s["ri"]), s["fn"], s["p"], v["n"], v["l"], v["g0"], v["reg"])
    text += """
  subsection Monolithic algorithm
    set Monolithic preconditioner = %s
%s
  end
  subsection Staggered algorithm
    set Maximum number of solution loops        = %d
    set Reset trial solution at each micro loop = %s
    subsection Linear momentum balance
%s
    end
    subsection Pseudo-balance
%s
    end
  end
end
""" % (c["precond"], newton(c, 0), c["loops"], b(c["reset"]), newton(c, 1), newton(c, 2))
    with open(path + ".prm", "w") as f:
        f.write(text)
    with open(path + ".json", "w") as f:
        json.dump(dict({"e": "config"}, euler=[a.split(", ") for a in c["angles"]], **c), f)
    forces = [["supply"] + c["loads"]["supply"][0] + c["loads"]["supply"][1]] if c["loads"]["supply"] else []
    forces += [[str(i)] + a + m for i, a, m in c["loads"]["tractions"]]
    return [path + ".prm", path + ".json", ",".join(c["macrostrain"]), " ".join(",".join(f) for f in forces)]


# ---------------------------------------------------------------------------
# Families of configurations.  Each takes a random generator and returns the
# changes to the default.
import math


def systems(rng, dim, n):
    """n random slip systems"""
    dirs, norms = [], []
    for _ in range(n):
        a = rng.uniform(0, math.pi)
        s, m = [math.cos(a), math.sin(a)], [-math.sin(a), math.cos(a)]
        if dim == 3:
            # turn the plane of the system out of the plane of the strip
            b = rng.uniform(-0.5, 0.5)
            rot = lambda v: [v[0], v[1] * math.cos(b), v[1] * math.sin(b)]
            s, m = rot(s), rot(m)
        dirs.append([repr(x) for x in s])
        norms.append([repr(x) for x in m])
    return dict(directions=dirs, normals=norms)


def angles(rng, dim, nc):
    one = lambda: "%.2f" % rng.uniform(0, 90)
    return [one() if dim == 2 else ", ".join(one() for _ in range(3)) for _ in range(nc)]


def strip(rng, dim=2, boundaries=True):
    nc = rng.choice([1, 2, 2, 3]) if dim == 2 else rng.choice([1, 2])
    if not boundaries:
        nc = 1
    ne = rng.randint(max(nc, 3), 6) if dim == 2 else rng.choice([2, 3])
    c = dict(dim=dim, nc=nc, ne=ne, angles=angles(rng, dim, nc), height=rng.choice(["1.0", "2.0", "0.5"]))
    if dim == 2 and ne < 5 and rng.random() < 0.25:
        c.update(rng.choice([dict(du=2), dict(ds=2), dict(du=2, ds=2)]))
    c.update(systems(rng, dim, rng.choice([1, 2, 2, 3]) if dim == 2 else 1))
    return c


def load(rng, peak, n=None):
    if rng.random() < 0.35:
        return dict(cyclic=True, max="%.5f" % peak, min="%.5f" % (peak * rng.choice([0, 0, 0.3])),
                    phase=rng.choice(["1.0", "0.5"]), nphase=rng.choice([1, 2]), nq=1,
                    cycles=rng.choice([1, 1, 2]), period=rng.choice(["1.0", "2.0"]), skip=rng.random() < 0.5)
    return dict(max="%.5f" % peak, n=n or rng.choice([2, 3, 4]), dur=rng.choice(["1.0", "2.0", "0.3"]))


def laws(rng):
    g0 = "%.1f" % rng.uniform(20, 80)
    return dict(hard=dict(H="%.1f" % rng.uniform(10, 300), q=rng.choice(["1.0", "1.4", "0.5"]),
                          perfect=rng.random() < 0.1, g0=g0),
                vect=dict(l="%.3f" % rng.uniform(0.02, 0.3), n="2.0", g0=g0))


def monolithic(rng, dim=2):
    c = dict(strip(rng, dim), load=load(rng, rng.uniform(0.001, 0.03)), **laws(rng))
    c.update(scalar=dict(fn=rng.choice(["atan", "sqrt", "gd", "tanh", "erf"]), p=rng.choice(["1.0", "0.1", "0.01"])),
             bc=rng.choice(["microfree", "microhard"]), factor=rng.choice(["1.0", "1.0", "0.5", "0.0"]),
             skipex=rng.random() < 0.2, ls=[rng.random() < 0.6] * 3)
    if rng.random() < 0.4:
        c.update(dimless=False, tol=["1e-6"] * 3)
        if c["nc"] > 1 and rng.random() < 0.7:
            c.update(bc="microtraction", micro=rng.choice(["1e2", "1e3"]))
    return c


def decohesion(rng, dim=2):
    """opening grain boundaries"""
    c = dict(monolithic(rng, dim), dimless=False, tol=["1e-5"] * 3, deco=True)
    c.update(strip(rng, dim), load=load(rng, rng.uniform(0.001, 0.01)))
    # a crystal between two closed boundaries is free to float at zero opening,
    # where neither cohesion nor contact is stiff
    c["nc"] = min(c["nc"], 2)
    c["angles"] = c["angles"][:c["nc"]]
    c.update(bc=rng.choice(["microfree", "microtraction"] if c["nc"] > 1 else ["microfree"]),
             cohesive=dict(model="OrtizEtAl", delta="2.5e-2", t=rng.choice(["300.0", "700.0"]),
                           beta=rng.choice(["1.0", "0.7"])),
             damage=dict(macro=rng.random() < 0.6, micro=rng.random() < 0.6, acc=rng.choice(["1.0", "5.0"]),
                         model=rng.choice(["OrtizEtAl", "M1"]), deg=rng.choice(["1.0", "2.0"])))
    return c


def macrostrain(rng, c):
    """a prescribed macroscopic strain (flat, symmetric) of the size of the load"""
    dim = c.get("dim", 2)
    size = 0.002
    if c.get("dimless", True):
        chars = dict(DEFAULT["chars"], **c.get("chars", {}))
        size *= float(chars["l"]) / float(chars["u"])
    e = [[rng.uniform(-size, size) for _ in range(dim)] for _ in range(dim)]
    return ["%.6g" % ((e[i][j] + e[j][i]) / 2) for i in range(dim) for j in range(dim)]


def forces(rng, c):
    """a volume force and tractions on the lateral faces"""
    dim = c.get("dim", 2)
    size = 20.
    if c.get("dimless", True):
        chars = dict(DEFAULT["chars"], **c.get("chars", {}))
        size /= float(chars["g"]) * float(chars["l"]) / float(chars["u"])

    def field():
        return [["%.6g" % rng.uniform(-size, size) for _ in range(n)] for n in (dim, dim * dim)]
    ids = [0, 1] + ([4, 5] if dim == 3 else [])
    ids = [i for i in ids if rng.random() < 0.7]
    return dict(supply=field() if rng.random() < 0.6 else [], tractions=[[i] + field() for i in ids])


def bouncing(rng, dim=2):
    c = monolithic(rng, dim)
    c.update(strategy="bouncing", loops=rng.choice([8, 60]), reset=rng.random() < 0.6,
             tol=["1e-5", "1e-4", "1e-5"], dimless=True)
    if c["bc"] == "microtraction":
        c["bc"] = "microfree"
    c["load"]["n"] = 2
    return c


def embracing(rng, dim=2):
    c = bouncing(rng, dim)
    # a macroscopic tolerance which the start value of a step can already meet:
    # the microscopic problem must be solved all the same
    c.update(strategy="embracing", krylov=["directsolver", "cg", "directsolver"],
             tol=["1e-6"] + rng.choice([["1e-6", "1e-6"], ["1e-5", "1e-7"], ["1e-4", "1e-6"], ["1e1", "1e-6"], ["1e3", "1e-6"]]))
    return c


def rate_independent(rng, dim=2):
    c = rng.choice([monolithic, bouncing, embracing])(rng, dim)
    peak = rng.uniform(0.002, 0.006)
    c.update(scalar=dict(ri=True), bc=rng.choice(["microfree", "microhard"]), load=dict(n=rng.choice([3, 6]), max="%.5f" % peak),
             dimless=True, tol=["1e-8"] * 3 if c.get("strategy", "monolithic") == "monolithic" else ["1e-5", "1e-4", "1e-4"])
    c["hard"]["perfect"] = False
    if rng.random() < 0.3:
        c["macrostrain"] = macrostrain(rng, c)
    return c


def reversal(rng, dim=2):
    """yielding, unloading and yielding again: the set of the start value of a
    step is larger than that of its solution"""
    c = rate_independent(rng, dim)
    peak = rng.uniform(0.004, 0.008)
    c.update(load=dict(cyclic=True, max="%.5f" % peak, min="%.5f" % (peak * rng.choice([0, 0.3, 0.6])), phase="1.0",
                       nphase=rng.choice([3, 4]), nq=rng.choice([1, 2]), cycles=1, period="1.0",
                       skip=rng.random() < 0.3))
    return c


def perfectly_plastic(rng, dim=2):
    """yielding without hardening"""
    c = rate_independent(rng, dim)
    c["hard"]["perfect"] = True
    c["hard"]["g0"] = c["vect"]["g0"] = rng.choice(["40", "60.0", "55.5"])
    c["chars"] = dict(u=rng.choice(["0.01", "0.02"]), l=rng.choice(["1.0", "2.0"]), g=rng.choice(["60.0", "45.0"]), c="28500.0")
    return c


def searching(rng, dim=2):
    """steps of the solver which have to be shortened"""
    c = rng.choice([monolithic, bouncing, embracing, decohesion])(rng, dim)
    c.update(lsalpha=rng.choice(["0.4", "0.49", "0.6", "0.6", "0.7"]), lsmax=[rng.choice([1, 2, 3, 5]) for _ in range(3)],
             ls=[True] * 3, nmax=[12] * 3, loops=8, load=dict(n=rng.choice([1, 2]), max="%.5f" % rng.uniform(0.01, 0.04)))
    return c


def exhausted(rng, dim=2):
    """runs which need more iterations than permitted"""
    c = rng.choice([monolithic, bouncing, embracing, rate_independent])(rng, dim)
    c.update(nmax=[rng.choice([1, 2, 3]) for _ in range(3)], loops=rng.choice([2, 3]))
    return c


def history(rng, dim=2):
    """many steps of different sizes"""
    c = monolithic(rng, dim)
    peak = rng.uniform(0.001, 0.006)
    n, q = rng.choice([1, 2, 3]), rng.choice([1, 1, 2, 3])
    c.update(load=dict(cyclic=True, max="%.5f" % peak, min="%.5f" % (peak * rng.choice([0, 0.3])),
                       phase=rng.choice(["1.0", "0.5", "2.0"]), nphase=n, nq=q, cycles=rng.choice([1, 2]) if q < 3 else 1,
                       period=rng.choice(["1.0", "2.0", "3.0"]), skip=rng.random() < 0.4),
             factor=rng.choice(["1.0", "1.0", "0.5", "0.8"]), skipex=rng.random() < 0.1)
    return c


def degrees(rng, dim=2):
    """polynomial degrees and grain boundary conditions"""
    c = monolithic(rng, dim)
    nc = rng.choice([2, 3])
    c.update(du=rng.choice([1, 2]), ds=rng.choice([1, 2]), nc=nc, ne=rng.randint(3, 4),
             angles=angles(rng, dim, nc), bc=rng.choice(["microhard", "microhard", "microfree"]),
             load=dict(n=rng.choice([2, 3]), max="0.004", dur="1.0"))
    return c


def constitutive(rng, dim=2):
    """all laws and couplings, few steps"""
    c = rng.choice([monolithic, decohesion, decohesion])(rng, dim)
    c["load"] = load(rng, rng.uniform(0.001, 0.006), 2)
    c["vect"]["n"] = rng.choice(["2.0", "2.0", "1.7", "2.5"])
    if c.get("deco"):
        c["damage"].update(decay=rng.choice(["0.0", "0.2"]), exp=rng.choice(["1.0", "2.0"]),
                           endurance=rng.choice(["0.0", "0.05"]), zero=rng.random() < 0.1,
                           deg=rng.choice(["1.0", "2.0", "1.5"]))
    if rng.random() < 0.3:
        c["scalar"] = dict(ri=True)
        c["hard"]["perfect"] = False
        if c.get("bc") == "microtraction":
            c["bc"] = "microhard" if not c.get("deco") else "microfree"
    if rng.random() < 0.4:
        c["macrostrain"] = macrostrain(rng, c)
    if rng.random() < 0.5:
        c["loads"] = forces(rng, c)
    return c


def sandwiched(rng, dim=2):
    """an element with a grain boundary on either side"""
    c = dict(monolithic(rng, dim), dimless=False, tol=["1e-6"] * 3, nc=3, ne=3, angles=angles(rng, dim, 3),
             bc="microtraction", micro=rng.choice(["1e2", "1e3"]), load=load(rng, rng.uniform(0.001, 0.006), 2))
    if rng.random() < 0.5:
        c["loads"] = forces(rng, c)
    return c


def reports(rng, dim=2):
    """what is reported and written, and when"""
    c = rng.choice([monolithic, monolithic, decohesion, decohesion, bouncing, rate_independent])(rng, dim)
    if c.get("strategy") != "bouncing" and not c["scalar"].get("ri") and rng.random() < 0.6:
        c["load"] = programme(rng, rng.uniform(0.001, 0.006))
    c.update(outfreq=rng.choice([1, 1, 2, 3, 7]), homogenization=rng.random() < 0.7, homfreq=rng.choice([1, 1, 2, 3]),
             outdamage=bool(c.get("deco")) and rng.random() < 0.6, outdimless=rng.random() < 0.3, fluct=rng.random() < 0.4,
             height=rng.choice(["1.0", "2.0", "0.5", "0.3"]), macrostrain=[])
    if c.get("dimless", True):
        c["chars"] = dict(u=rng.choice(["0.01", "0.02"]), l=rng.choice(["1.0", "2.0", "0.5"]), g="60.0", c="28500.0")
    return c


def programme(rng, peak):
    """loading programmes with phases and steps of very different lengths"""
    if rng.random() < 0.3:
        return dict(max="%.5f" % peak, n=rng.choice([1, 2, 3, 5]), dur=rng.choice(["1.0", "3.0", "0.7"]))
    n, q, m = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
    return dict(cyclic=True, max="%.5f" % peak, min="%.5f" % (peak * rng.choice([0, 0, 0.3])),
                phase=rng.choice(["1.0", "0.5", "0.07", "3.0"]), nphase=n, nq=q, cycles=m,
                period=rng.choice(["1.0", "2.0", "12.0", "0.3"]), skip=rng.random() < 0.4)


FAMILIES = [monolithic, decohesion, bouncing, embracing, rate_independent, exhausted]


def sample(seed, number, dims=(2,), families=None):
    """number configurations of every family"""
    import random
    out = []
    for f in families or FAMILIES:
        for dim in dims:
            rng = random.Random("%s %s %s" % (seed, f.__name__, dim))
            out += [("%s-%d-%d" % (f.__name__, dim, k), config(**f(rng, dim))) for k in range(number)]
    return out


if __name__ == "__main__":
    import sys
    print(write(config(**json.loads(sys.argv[2])), sys.argv[1]))
