"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Assumes the IEEE-double evaluation of the TLA+ operators in java/Real64.java, the harness that records the calls, "
          "and deal.II; behaviours outside the generated and random ones are not explored.")
CHECKS = {
 "P01": ("TLA+ model of the line search checked by TLC; its behaviours and random ones replayed into the real class and the recorded traces validated by TLC",
         "Exhaustive on the lattice model; the real code is judged on all behaviours of the model plus random searches. "),
 "P02": ("TLA+ model of the slip resistance record in a loading history checked by TLC; its behaviours and random histories run on the real record and the recorded traces validated by TLC",
         "Exhaustive on the lattice model (two slip systems, bounded depth). "),
 "P03": ("TLA+ model of the grain-boundary record with both damage laws checked by TLC; its behaviours and random histories run on the real record and validated by TLC",
         "Exhaustive on the lattice model (bounded depth). "),
 "P04": ("TLA+ model of the shared grain-boundary storage checked by TLC over all crystal arrangements of a small mesh and interleavings of visits; recorded use of the real storage on random meshes validated by TLC",
         "Serial meshes only; the identity of records is observed by address. "),
 "P05": ("TLA+ model of the step planner of a loading programme checked by TLC over all small programmes; the real planner is stepped through the model's and random programmes and the recorded steps validated by TLC",
         "Exhaustive over small programmes in exact arithmetic; the real code over the same and random programmes. "),
 "P06": ("TLA+ definition of the programmed shear checked by TLC (no jumps, bounds, periodicity); values recorded from the real boundary function for generated and random programmes validated by TLC",
         "Point-wise in time on generated and random times. "),
 "P07": ("TLA+ model of reading and checking crystal files with TLA+ tensor algebra; files generated by TLC and at random are read by the real class and the recorded outcome validated by TLC",
         "All small combinations of well-formed and ill-formed files of the model, random files beyond. "),
 "P08": ("TLA+ table of all entries with their admissible values, defaults, mutual constraints and derived quantities checked by TLC over all single assignments; the files of the model and sampled longer files are read by the real classes and the recorded settings validated by TLC",
         "All single deviations from four base files, sampled files of six more assignments. "),
 "P09": ("TLA+ model of the solution strategies checked by TLC; whole loading histories run through the real solver with observation points and the recorded iterations, decisions, restarts and log rows validated by TLC as behaviours of the specification",
         "Model exhaustive for few iterations per loop; the real solver on randomly configured small strips (all strategies, rate-dependent and rate-independent, with and without decohesion, failing and converging), one process. Correction step lengths below the resolution of the recorded numbers are not judged. "),
 "P10": ("TLA+ model of yielding, holding and hardening checked by TLC; active sets, resistances and slips recorded from whole loading histories of the real solver, and from random admissible iterates in between, validated by TLC",
         "Model exhaustive over a small body with tied and clamped nodes; the real solver on randomly configured strips, one process. "),
 "P11": ("TLA+ model of committed solutions and start values checked by TLC; histories of the real solver validated by TLC",
         "Model exhaustive for short histories of unequal steps; the real solver on randomly configured strips and loading programmes, one process. "),
 "P12": ("TLA+ definition of components and unknowns of a mesh checked by TLC (order independence, separation of crystals, continuity); configurations enumerated by TLC are set up with the real finite element field on one to three processes and the recorded numbering, sets, ghost values and norms validated by TLC",
         "Strips and small blocks of up to twelve cells, linear and quadratic elements, up to three crystals and three slip systems. "),
"P13": ("TLA+ model of cohesion, contact and degradation along opening histories checked by TLC (potential, tangents, objectivity, dissipation); evaluations of the real laws along random histories validated by TLC against the TLA+ laws",
         "Model exhaustive over short two-dimensional histories; real laws on random histories in two and three dimensions; at the kink of the normal opening either one-sided tangent is accepted. "),
 "P14": ("TLA+ definition of kinematics, elasticity and microstress laws with tensor algebra, their claimed relations checked by TLC; evaluations of the real laws for random crystals validated by TLC",
         "Model exhaustive over a lattice of states; real laws on random crystals and states. "),
 "P15": ("TLA+ definition of microtractions as derivatives of one interaction energy, symmetries checked by TLC; evaluations of the real law for random pairs of crystals validated by TLC",
         "Model exhaustive over a lattice of slips of four pairs of crystals; real law on random pairs. "),
 "P16": ("TLA+ definition of the discrete balances and their linearisation, the linearisation checked by TLC to be the symmetric derivative; matrices of the real solver at random iterates, applied to random admissible directions, validated by TLC",
         "Model: strip of two elements, all problem variants, short histories; real matrices on randomly configured strips, one process. Points at a kink of the boundary laws are left out. "),
 "P19": ("TLA+ definition of the discrete balances with all records, checked by TLC (equilibrium, invariance, rest state); residuals of whole simulations of the real solver recomputed and validated by TLC",
         "Model: strip of two elements, all problem variants, short histories; real residuals on randomly configured strips, one process; in long iterations every eighth residual. "),
 "P17": ("TLA+ model of the stages, tables and output files of a run checked by TLC over small programmes and output frequencies; whole runs of the real application, with the files they leave, validated by TLC as behaviours of the specification",
         "Model exhaustive over small programmes; real runs on randomly configured strips, one process. "),
 "P18": ("TLA+ definition of the reported fields, averages, boundary stress and damage, relations between them checked by TLC; output files of real runs, and reports of the real classes for arbitrary fields, recomputed and validated by TLC",
         "Model: strip of two elements, all problem variants; real output on randomly configured strips, one process; files carry seven digits. "),
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for pid in props:
    if pid in CHECKS:
        t, note = CHECKS[pid][:2]
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid,
                           thorough_cmd="python3 check.py %s --tier thorough" % pid,
                           technique=t, level="model_checking", level_note=note + COMMON))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="GCP_VERIFICATION", enable="the checks compile /repo's sources with -DGCP_VERIFICATION",
                    source_commits=[l for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines() if " hooks:" in l]),
         checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, "check under construction")) for p in props if p not in CHECKS])
m["hooks"]["source_commits"] = [l.split()[0] for l in m["hooks"]["source_commits"]]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
