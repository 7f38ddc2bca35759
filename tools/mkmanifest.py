"""Writes MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {}
def n(id, technique, note): N[id] = (technique, note)

n("C01", "deviation-bounded exhaustive enumeration of all random-choice sequences of the real tracer (stateless model checking)",
  "Every execution of photon_tracer.step_forward with at most B random draws departing from the default, each over an 4..8-value alphabet, for every scene and photon of the family, checked event by event. Trusts the scene family as representative and the alphabet as hitting every branch.")
n("C02", "exact comparison of outcome laws of real tracer and reference model over all random-choice sequences (stateless model checking)",
  "The formal law over event histories (polynomial weights, order of draws irrelevant) of the real tracer equals that of an independently written model, to order B. Exact up to the alphabet's resolution of thresholds; trusts mc/model.py.")
n("C03", "exhaustive enumeration of the compiled kernel's random-choice sequences under a scripted random stream; outcome law compared with the tracer's",
  "The kernel is rebuilt from the tree with the guarded random-stream hooks; all executions with at most B departures are run on it and its law compared with the Python tracer's own on the same scenes.")
n("C05", "exhaustive enumeration of random-choice sequences; engine tallies compared with an independent recount of the complete histories",
  "Recorders of every kind, facet, node and histogram property are attached at once; every explored photon is tallied by the kernel, by the Python tally and by an independent recount.")
n("C06", "exhaustive enumeration of (photons, bundle, lights, stride, workers) configurations on the real engine",
  "All configurations to the bound; streamed histories and tallies compared with one single run given the same photons.")
n("C04", "exhaustive enumeration of work-to-thread assignments, with all shared accesses of each thread recorded (tsan-instrumented kernel, own runtime) to prove other interleavings equivalent",
  "Kernel rebuilt with a controlled OpenMP runtime: every assignment of work chunks to threads is executed; conflicting accesses between threads inside the parallel region are violations, so interleavings within one assignment are equivalent (dynamic partial-order argument).")
n("C07", "exhaustive enumeration of feature combinations; accepted scenes model checked against the Python tracer over all random-choice sequences",
  "Every single feature and every pair; unsupported ones must be refused, accepted ones must have the tracer's law to order B.")
n("C08", "exhaustive enumeration of task-to-process assignments and schedules of Scene.simulate on a controlled pool",
  "multiprocessing.Pool and Queue are replaced by a controlled scheduler; all assignments of tasks to worker processes are executed on the real code.")
n("C09", "exhaustive interleaving exploration of producers, writer thread and shutdown of the recording pipeline under a cooperative scheduler",
  "All interleavings (up to equivalence) of the real simulate command's threads with controlled queue, event and thread objects and a real sqlite file; also with a database that refuses the k-th row.")
n("C10", "crash-point enumeration of the recording's database operations and file writes on the real code",
  "The process is ended before and after every database operation of every recording history to the bound, and the database reopened.")
n("C11", "exhaustive enumeration of small stored histories and filter combinations; command output compared with a recount",
  "All databases from the history alphabet to the bound and all filter combinations, on the real commands.")
n("C12", "exhaustive enumeration of scene-file option combinations against an independent interpretation of the file",
  "All combinations of each construct's options and all pairs across constructs; the built scene is compared structurally.")
n("C13", "exhaustive enumeration of operation sequences to a depth against a matrix reference model",
  "All sequences of placement operations to the depth bound on all tree shapes; every pair of nodes converted both ways.")
n("C14", "exhaustive enumeration of a finite lattice of rays against each shape, compared with exact-arithmetic roots",
  "All lattice rays; Python shapes and the kernel's routines (through one-step photon traces) both compared with the model.")
n("C15", "exhaustive enumeration of small spectra and query grids against a reference model",
  "All spectra over the value alphabet to the length bound.")
n("C16", "exhaustive enumeration of draw grids for every emission method and phase function, Python and kernel",
  "All draw tuples on the grid; emitted wavelengths and directions compared with the documented law.")
n("C17", "exhaustive enumeration of draw tuples for every mask combination and placement, per-photon and bundle emission",
  "All draw tuples on the grid; law of positions, directions and wavelengths compared with the reference.")
n("C18", "exhaustive enumeration of angle/index/normal grids against reference optics",
  "All grid points including grazing, critical neighbours and equal indices; scalar, delegate and surface level.")
n("C19", "exhaustive enumeration of device operation sequences and photon outcome classes against a reference model",
  "All operation sequences to the depth; the photon stream is scripted to every outcome class.")
n("C20", "breadth-first state-space exploration of the studio's edit operations against a reference document model",
  "All edit sequences to the depth on the real FastAPI application; after each, document, scene and rollback are compared.")
n("C21", "exhaustive exploration of interleavings of client commands, bundle completions and disconnects on the real websocket handler",
  "All interleavings to the bound under a controlled event loop; messages checked against the session protocol model.")
n("C22", "exhaustive enumeration of renderer operation sequences with a recording visualiser against a reference model",
  "All sequences to the depth; displayed set compared with the model after each operation.")

n("C23", "exhaustive interleaving exploration of the real page program under a controlled scheduler of requests, replies, timers and user actions, with the real server answering",
  "All schedules to the depth; at rest page, editor and inspector are compared with the server's document.")
n("C24", "exhaustive enumeration of sequences of user actions and run messages on the real page program, with the real server's messages",
  "All sequences to the depth; everything displayed is compared with the latest run after each step.")

props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(here, "checks", p.lower() + ".py")):
        t, note = N[p]
        checks.append({"property": p, "quick_cmd": f"./run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.py {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": "model checking applies (see DESIGN.md) but its check is not built yet"})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "PVTRACE_VERIF_HOOKS",
               "enable": "mc/kernel.py compiles /repo/pvtrace/engine/_kernel.pyx in a scratch directory with -DPVTRACE_VERIF_HOOKS and links mc/verif_hooks.c",
               "source_commits": [os.popen("git -C /repo log --format=%h --grep='^Verification hooks'").read().strip()]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
