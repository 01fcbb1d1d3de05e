"""writes MANIFEST.json"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitoring: path recorder + independent re-evaluation of both weights", "every path drawn by the explored runs; oracle lib/refpi.py evaluates the model definitions in log space"),
 "C02": ("runtime monitoring: moment/independence monitor over all recorded paths", "statistical: every statistic at |z| <= 6.5 with its own error; exact moments of the sampling mixture as oracle"),
 "C03": ("runtime monitoring: per-block event log against result arrays, files and directory", "histories of runs over block layouts, parameters and job numbers; samples re-evaluated from the recorded paths"),
 "C04": ("runtime monitoring: self-identifying samples, conservation and alignment checker", "file sets, orders, limits, duplicates, faults; every loaded entry is traced to its source row"),
 "C05": ("runtime monitoring: round-trip monitor with independent reader, byte snapshots", "bit-exact comparison over generated models, loading paths and corrupted files"),
 "C06": ("runtime monitoring: offline provenance checker over histories of edits, runs and analyses", "log of which model contents produced which samples decides what outputs may contain"),
 "C07": ("runtime monitoring: reported estimates against extended-precision definitions, metamorphic monitors", "relative tolerance a function of conditioning; generated and real sample sets"),
 "C08": ("runtime monitoring: reported jackknife estimates against explicit leave-one-out", "extended-precision leave-one-out oracle"),
 "C09": ("runtime monitoring: invariants of generated matrices, directory snapshots around rotations", "all supported orders over grids of tuning values; histories of rotations and refusals"),
 "C10": ("runtime monitoring: derived files against independently extracted diagonals, directory snapshots", "generated models and histories of replacement"),
 "C11": ("runtime monitoring: imported arrays against the generator's coefficient table", "generated .op files, sequences of imports, truncations"),
 "C12": ("runtime monitoring: path recorder, injectivity and listing checker against own bookkeeping", "hostile directory names, many objects, switches of the sampling set"),
 "C13": ("runtime monitoring: recording scheduler stand-ins, conservation checker, end-to-end job runs", "grids, interleaved submissions, refused submissions; jobs really run from recorded commands"),
 "C14": ("runtime monitoring with fault injection: recorded job log against the stage order over crash histories", "crash points: at every job (before/after), after every recorded stage, failing jobs of seven kinds"),
 "C15": ("runtime monitoring: parsers on generated outputs and their truncations", "the generator knows what each output contains; cuts at arbitrary bytes of the tables"),
 "C16": ("runtime monitoring with fault injection: recording julia stand-in, cache model checker", "eighteen kinds of failures; two to six calculations at the same time in processes of their own, ended in any order; write errors and kills at any byte of the write of the cache"),
 "C17": ("runtime monitoring: invariants of every generated model, predicate monitors", "seeds, dimensions and ranges; predicates on perturbed models"),
 "C18": ("runtime monitoring: written rows re-evaluated at the saved coordinates", "training runs over displaced models and block layouts"),
 "C19": ("runtime monitoring: plotted arrays and artists of the figures against the files written", "grids with gaps, stale files and several data sets; figures are inspected when they are saved, not rendered"),
 "C20": ("runtime monitoring with injected signals: scheduler stand-ins, trace checker of answers and outcome", "signals at six points of the wait, scripts of scheduler answers, each scenario in a process of its own"),
 "C21": ("runtime monitoring: the generators run on scratch copies of the package, offline checker of the files they write against a closed form", "orders 2 to 25, all generators, every row of every table; random tables for storage"),
 "C22": ("runtime monitoring: recorder of every path drawn by the jobs, provenance log of the study, offline oracle in extended precision; exact transfer-matrix values for long runs", "four sources of models, up to three sampling models each, random interleavings of submissions, jobs, edits and analyses; long runs for one and two modes at 7 standard errors"),
 "C23": ("runtime monitoring: the shipped scripts in processes of their own on a scratch copy, logging stand-ins for srun (runs the commands, all at the same time), sbatch and Julia; ledger of requested, calculated and stored values", "3 to 6 data sets per study of both shipped studies, 2 bead counts x 2 temperatures x 2 basis sizes; Julia is a stand-in; two findings in scripts under examples/ are listed, not repaired (no commit may touch them)"),
 "C24": ("runtime monitoring: real processes in one root with random delays around every file system call, compared with the tree left by the same actions in turn; files delivered at chosen file system calls of a running analysis, values against reference estimators over whole files", "14 rounds of about 25 processes and 60 analyses during deliveries (quick); two analyses of one sampling set, or two set-ups of one model, at the same time are excluded"),
}
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i in T:
        checks.append({"property": i, "quick_cmd": "checks/run.sh %s --quick" % i, "thorough_cmd": "checks/run.sh %s --thorough" % i,
                       "technique": T[i][0], "level": "exploration",
                       "level_note": "Held on the executions explored, not proved. " + T[i][1]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": i, "reason": "no check"} for i in ids if i not in T],
     "notes": "No hooks in /repo: the monitors wrap instances and commands from outside. Checks import the code of /repo's working tree (pure Python)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
