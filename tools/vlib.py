"""Shared machinery of the checks: building harnesses from /repo's working
tree, running TLC on the specifications and reporting.

Exit codes of a check: 0 the property held on everything explored, 1 a
violation (with a VIOLATION line), 2 the machinery itself failed.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GCP_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OUT = os.path.join(VERIF, "out")          # ignored by git
GUARD = "GCP_VERIFICATION"

FALLBACK_FLAGS = """-DDEBUG -isystem /usr/lib/x86_64-linux-gnu/openmpi/include
-isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi
-isystem /usr/include/petsc -isystem /usr/include/trilinos
-isystem /usr/include/hdf5/openmpi -isystem /usr/include/scotch
-isystem /usr/include/suitesparse -isystem /usr/include/opencascade
-isystem /usr/include/slepc -std=gnu++17 -fPIC""".split()


class MachineryError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


def clean_env(**extra):
    env = dict(os.environ)
    env.update(LC_ALL="C.UTF-8", OMPI_ALLOW_RUN_AS_ROOT="1",
               OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_btl_vader_single_copy_mechanism="none",
               OMPI_MCA_ess_singleton_isolated="1",
               OMP_NUM_THREADS="1", DEAL_II_NUM_THREADS="1")
    env.pop("DEAL_II_DIR", None)
    env.update({k: str(v) for k, v in extra.items()})
    return env


def run_session(cmd, timeout, cwd, stdin, env):
    """Runs a command in a session of its own, all of which is ended when its
    time is up (the processes of mpirun included)."""
    with subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                          cwd=cwd, errors="replace", env=env, start_new_session=True) as p:
        try:
            out, err = p.communicate(stdin, timeout=timeout)
        except BaseException:
            subprocess.run(["pkill", "-KILL", "-s", str(p.pid)])
            p.kill()
            raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        os.makedirs(OUT, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="gcp-%s-" % prop)
        self.classes = None
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.violations = []

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *args):
        print("[%6.1fs]" % (time.time() - self.t0), *args, flush=True)

    # ------------------------------------------------------------------ C++
    def build(self, name, harness, sources=(), flags=(), hooks=False,
              private=False, opt="-O0", defines=(), lib=False):
        """Compile harness files (in /verif/harness) and sources of /repo into
        one executable; everything is compiled from the working tree."""
        exe = os.path.join(self.work, name)
        objdir = exe + ".objs"
        os.makedirs(objdir, exist_ok=True)
        base = (["g++"] + FALLBACK_FLAGS
                + ["-I", os.path.join(REPO, "include"),
                   "-I", os.path.join(VERIF, "harness"), opt, "-w"]
                + list(flags) + ["-D" + d for d in defines])
        if hooks:
            base += ["-D" + GUARD]
        jobs = []
        for s in list(sources):
            src = os.path.join(REPO, s)
            # a source which is gone has moved: see the second attempt to link
            if os.path.exists(src):
                jobs.append((src, base + (["-fno-access-control"] if private == "all" else [])))
        for h in harness:
            jobs.append((os.path.join(VERIF, "harness", h),
                         base + (["-fno-access-control"] if private else [])))
        # big translation units first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0)
        objs = []

        def one(job):
            src, cmd = job
            obj = os.path.join(objdir, hashlib.sha1(src.encode()).hexdigest()[:10] + ".o")
            p = subprocess.run(cmd + ["-c", src, "-o", obj], capture_output=True,
                               text=True, env=clean_env())
            return src, obj, p

        def compiled(jobs):
            with ThreadPoolExecutor(8) as ex:
                for src, obj, p in ex.map(one, jobs):
                    if p.returncode != 0:
                        raise MachineryError("compiling %s failed:\n%s" % (src, p.stderr[-6000:]))
                    yield obj

        def linked(objs):
            return subprocess.run(
                ["g++", "-o", exe] + objs
                + ["-L/usr/lib/x86_64-linux-gnu", "-l:libdeal.ii.g.so"] + LINK_EXTRA,
                capture_output=True, text=True, env=clean_env())

        objs += compiled(jobs)
        link = linked(objs)
        if link.returncode != 0 and "undefined reference" in link.stderr:
            # code may have moved to other files: offer all the others
            here = {j[0] for j in jobs}
            others = []
            for d, _, files in os.walk(os.path.join(REPO, "source")):
                others += [os.path.join(d, f) for f in sorted(files) if f.endswith(".cc")]
            archive = exe + ".a"
            subprocess.run(["ar", "rc", archive] + list(compiled(
                [(o, base) for o in others if o not in here])), check=True)
            link = linked(objs + [archive])
        if link.returncode != 0:
            raise MachineryError("linking %s failed:\n%s" % (name, link.stderr[:3000]))
        self.log("built", name)
        return exe

    def run(self, cmd, timeout=300, cwd=None, env=None, ok=(0,), stdin=None):
        # every process gets session files of its own: concurrent starts fail
        # now and then when they share them
        for attempt in range(4):
            session = tempfile.mkdtemp(prefix="m", dir=self.work)
            p = run_session(cmd, timeout=timeout, cwd=cwd or self.work, stdin=stdin,
                            env=clean_env(OMPI_MCA_orte_tmpdir_base=session, **(env or {})))
            shutil.rmtree(session, ignore_errors=True)
            if p.returncode == 0 or ("MPI_Init" not in p.stderr and "orte_init" not in p.stderr):
                break
            time.sleep(0.5 + attempt)
        if ok is not None and p.returncode not in ok:
            raise MachineryError("%s exited with %d\n%s\n%s"
                                 % (cmd, p.returncode, p.stdout[-2000:], p.stderr[-4000:]))
        return p

    # ------------------------------------------------------------------ TLC
    def java_classes(self):
        if self.classes is None:
            self.classes = os.path.join(self.work, "classes")
            os.makedirs(self.classes, exist_ok=True)
            jdir = os.path.join(VERIF, "java")
            files = [os.path.join(jdir, f) for f in sorted(os.listdir(jdir)) if f.endswith(".java")]
            p = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", self.classes] + files,
                               capture_output=True, text=True)
            if p.returncode != 0:
                raise MachineryError("javac failed:\n" + p.stderr)
        return self.classes

    def tlc(self, module, cfg=None, env=None, workers=8, args=(), timeout=800,
            heap="6g", consts=None):
        """Run TLC on spec/<module>.tla.  Returns a TLCResult."""
        cls = self.java_classes()
        spec = os.path.join(VERIF, "spec")
        run = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfgfile = os.path.join(spec, cfg or module + ".cfg")
        if consts:
            text = open(cfgfile).read()
            for k, v in consts.items():
                text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k),
                                  lambda m: m.group(1) + str(v), text)
                if n == 0:
                    raise MachineryError("no constant %s in %s" % (k, cfgfile))
            cfgfile = os.path.join(run, "run.cfg")
            open(cfgfile, "w").write(text)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.TLC.stopAfter=%d" % (timeout - 5),
               "-DTLA-Library=" + spec, "-Djava.io.tmpdir=" + run, "-cp", cls + ":" + JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(run, "states"),
               "-noGenerateSpecTE", "-config", cfgfile] + list(args) + \
              [os.path.join(spec, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, cwd=run,
                               env=clean_env(**(env or {})), timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC on %s timed out" % module)
        res = TLCResult(module, p.stdout + p.stderr, p.returncode, time.time() - t)
        shutil.rmtree(run, ignore_errors=True)
        return res

    def model_check(self, module, label=None, **kw):
        """Exhaustive check of a model; the model itself must satisfy its
        properties (independent of /repo)."""
        r = self.tlc(module, **kw)
        if not r.ok:
            raise MachineryError("the model %s fails its own properties:\n%s"
                                 % (module, r.tail()))
        self.states += r.distinct
        self.transitions += r.generated
        self.parts[label or module] = {"distinct_states": r.distinct,
                                       "transitions": r.generated, "depth": r.depth,
                                       "wall_s": round(r.wall, 1)}
        self.log("model %s: %d states, %d transitions" % (label or module, r.distinct, r.generated))
        return r

    def validate(self, module, trace, label=None, confirm=None, n=None, env=None, **kw):
        """Check a recorded trace file (one JSON array of events per line)
        against spec/<module>.tla.  A deadlock means that the specification
        has no step for an observed event."""
        e = {"TRACE": trace}
        e.update(env or {})
        nseq = sum(1 for l in open(trace) if l.strip())
        if nseq == 0:
            raise MachineryError("empty trace " + trace)
        r = self.tlc(module, env=e, **kw)
        label = label or module
        if r.ok:
            self.states += r.distinct
            self.transitions += r.generated
            self.validated += nseq
            self.parts[label] = {"behaviours": nseq, "distinct_states": r.distinct,
                                 "transitions": r.generated, "wall_s": round(r.wall, 1)}
            self.log("trace %s: %d behaviours accepted, %d states" % (label, nseq, r.distinct))
            return True, None
        if r.rejected:
            return False, r
        raise MachineryError("TLC failed on %s:\n%s" % (module, r.tail()))

    def conform(self, module, record, label=None, **kw):
        """record(path) runs the real code and writes a trace to path.  The
        trace has to be accepted; a rejection is confirmed by recording anew."""
        label = label or module
        path = os.path.join(self.work, re.sub(r"\W", "_", label) + ".ndjson")
        crash = record(path)
        if crash is None:
            ok, r = self.validate(module, path, label=label, **kw)
            if ok:
                self.sample_trace(label, path)
                return True
        # confirm
        path2 = path + ".again"
        crash2 = record(path2)
        if crash is not None:
            if crash2 is None:
                raise MachineryError("%s: a crash did not repeat: %s" % (label, crash))
            self.violation(label, "the real code ended abnormally: %s" % crash2, path2, None)
            return False
        if crash2 is not None:
            self.violation(label, "the real code ended abnormally: %s" % crash2, path2, None)
            return False
        ok, r2 = self.validate(module, path2, label=label, **kw)
        if ok:
            raise MachineryError("%s: a rejection did not repeat" % label)
        self.violation(label, r2.describe(path2), path2, r2)
        return False

    def conform_known(self, module, record, key, what, label=None, **kw):
        """The same for behaviours affected by the known finding `key`: they
        have to conform to the specification (the finding is gone) or to the
        specification with exactly this deviation."""
        if key in self.known:
            path = os.path.join(self.work, "known.ndjson")
            if record(path) is None:
                if self.validate(module, path, label=label, env={"KNOWN": ""}, **kw)[0]:
                    return True
                if self.validate(module, path, label=label, env={"KNOWN": key}, **kw)[0]:
                    self.known_hit[key] = what
                    return True
        return self.conform(module, record, label=label, env={"KNOWN": ""}, **kw)

    def sample_trace(self, label, path, limit=1200):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    self.samples.append("%s: %s" % (label, line[:limit]))
                    return

    # ------------------------------------------------------------- reporting
    def violation(self, label, what, path=None, r=None):
        n = len(self.violations) + 1
        replay = os.path.join(OUT, "%s-%s-%d.replay" % (self.prop, re.sub(r"\W", "_", label), n))
        with open(replay, "w") as f:
            f.write("property %s, check %s, seed %d, tier %s\n%s\n" %
                    (self.prop, label, self.seed, self.tier, what))
            if r is not None:
                f.write("\n--- TLC ---\n" + r.tail(12000) + "\n")
        if path and os.path.exists(path) and os.path.getsize(path) < 50e6:
            shutil.copy(path, replay + ".trace")
        self.log("VIOLATION of %s in %s: %s" % (self.prop, label, what[:3000]))
        self.violations.append((what, replay))

    def known_finding(self, key, what):
        """Report a violation that may be listed as a known finding."""
        if key in self.known:
            self.known_hit[key] = what
            return True
        self.violation(key, what)
        return False

    def finish(self, level="model_checking"):
        for key, what in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, what))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "samples": self.samples[:12] or ["none"],
                           "parts": self.parts},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, replay in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        self.cleanup()
        return 1 if self.violations else 0

    def cleanup(self):
        if os.environ.get("GCP_KEEP"):
            self.log("kept", self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)


class TLCResult:
    def __init__(self, module, out, rc, wall):
        self.module, self.out, self.rc, self.wall = module, out, rc, wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = rc == 0 and "No error has been found" in out
        self.deadlock = "Deadlock reached" in out
        self.invariant = re.findall(r"Invariant (\S+) is violated", out) + \
            re.findall(r"Action property (\S+) is violated", out)
        self.rejected = (not self.ok) and (self.deadlock or bool(self.invariant))

    def tail(self, n=6000):
        lines = [l for l in self.out.splitlines()
                 if not l.startswith(("Loading ", "Parsing file", "Semantic proc", "Linting"))]
        return "\n".join(lines)[-n:]

    def position(self):
        s = re.findall(r"(?m)^/\\ run = (\d+)", self.out)
        i = re.findall(r"(?m)^/\\ pos = (\d+)", self.out)
        return (int(s[-1]) if s else None, int(i[-1]) if i else None)

    def describe(self, path):
        s, i = self.position()
        why = ("invariant %s" % self.invariant) if self.invariant else "no step of the specification"
        ev = ""
        try:
            if s is not None:
                with open(path) as f:
                    lines = [l for l in f if l.strip()]
                seq = json.loads(lines[s - 1])
                k = (i or 1) - 1
                lo = max(0, k - 3)
                ev = "\n".join("  event %d: %s" % (j + 1, json.dumps(seq[j])[:2500])
                               for j in range(lo, min(k + 1, len(seq))))
                if lo > 0:
                    ev = "  event 1: %s\n  ...\n%s" % (json.dumps(seq[0])[:2500], ev)
        except Exception as exc:  # diagnosis only
            ev = "(%s)" % exc
        return "%s: %s accounts for behaviour %s at event %s\n%s" % (self.module, why, s, i, ev)


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (\S+): (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


LINK_EXTRA = ["-ltbb", "-lmpi_cxx", "-lmpi", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/openmpi"]
if os.path.exists("/usr/bin/ld.gold"):
    LINK_EXTRA.append("-fuse-ld=gold")
# the libraries deal.II itself needs, for inline code of its dependencies
LINK_EXTRA.append("-Wl,--as-needed")
for _l in re.findall(r"NEEDED.*\[(\S+)\]",
                     subprocess.run(["readelf", "-d", "/usr/lib/x86_64-linux-gnu/libdeal.ii.g.so"],
                                    capture_output=True, text=True).stdout):
    if _l.startswith(("libtrilinos", "libpetsc", "libslepc", "libhdf5", "libboost", "libz.", "libp4est", "libsc")):
        LINK_EXTRA.append("-l:" + _l)


def main(registry):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", choices=["quick", "thorough"],
                    default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    if a.prop not in registry:
        print("unknown property", a.prop)
        return 2
    c = Check(a.prop, a.tier, a.seed)
    try:
        registry[a.prop](c)
        return c.finish()
    except MachineryError as e:
        print("MACHINERY FAILURE in %s: %s" % (a.prop, e))
        c.cleanup()
        return 2
    except subprocess.TimeoutExpired as e:
        print("MACHINERY FAILURE in %s: %s" % (a.prop, e))
        c.cleanup()
        return 2
