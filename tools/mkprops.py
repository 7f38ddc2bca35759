"""Writes properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A traced photon's history is well formed and its bookkeeping adds up",
  "Every photon traced by the Python tracer starts with one generation event and, unless it can no longer hit anything, ends with exactly one terminal event (exit, non-radiative loss, reaction or kill) after which nothing follows; an absorption is immediately followed, at the same place and in the same material, by exactly one emission, scattering, loss or reaction of the component that absorbed it. "
  "Between successive events the position advances along the direction by exactly the growth of the travelled distance, the clock grows by that distance times n/c of the material being crossed plus any sampled lifetime, the direction stays a unit vector, wavelength changes only on luminescent emission, and the source tag names the last emitter. "
  "The step and path-length limits always stop the photon with a kill, the traced history never depends on mutable state left by earlier photons.",
  ["inputs", "histories"], "all outcomes of every random draw (each draw partitioned into K representatives) along a photon's life up to a step bound, over a family of scenes covering nested and adjacent boxes, spheres, cylinders, every component type, surface type and limit",
  "the tests trace a handful of photons with seeded or unseeded random numbers and look at the event list of one or two fixed scenes; rare branches (reaction, non-radiative scattering, lifetimes, kill by path length, total internal reflection chains) are never forced",
  ["pvtrace/algorithm/photon_tracer.py", "pvtrace/material/material.py", "pvtrace/material/component.py", "pvtrace/light/ray.py"],
  [("step_forward event loop", "pvtrace/algorithm/photon_tracer.py: step_forward"), ("path and clock accumulation", "pvtrace/light/ray.py: Ray.propagate"), ("lifetime sampling", "pvtrace/material/component.py")],
  observe=["(ray, event, metadata) tuples of photon_tracer.step_forward / follow"])

p("C02", "Photon outcomes follow the physical interaction law",
  "In the Python tracer, a photon crossing a material is absorbed before the next interface with probability 1-exp(-alpha d) at an exponentially distributed depth, by each component in proportion to its attenuation coefficient at the photon's wavelength; an absorbing scatterer or luminophore re-emits with probability equal to its quantum yield, absorbers and reactors never do. "
  "At an interface it is reflected with the surface's reflectivity and otherwise transmitted with the surface's transmission direction, where the two sides are the material containing the photon and the material it would enter. "
  "A photon whose next interface is the world boundary leaves the scene there, unattenuated.",
  ["inputs", "histories"], "all sequences of random outcomes up to a step bound for each scene of the family; the distribution over outcome histories is compared exactly with an independent reference model",
  "unit tests assert single outcomes or loose statistics of a few scenes; the law quantifies over every branch probability and nested interface",
  ["pvtrace/algorithm/photon_tracer.py", "pvtrace/material/material.py", "pvtrace/material/component.py", "pvtrace/material/surface.py"],
  [("absorption depth sampling", "pvtrace/material/material.py: Material.penetration_depth"), ("component selection", "pvtrace/material/material.py: Material.component"), ("container search", "pvtrace/algorithm/photon_tracer.py: find_container/next_hit")],
  observe=["distribution of (event, node, component) sequences"])

p("C03", "The compiled engine simulates the same physics as the Python tracer",
  "For every scene the compiled engine accepts, every initial photon and every sequence of random outcomes, the engine produces the same history (events, hit, container and adjacent nodes, component, source, position, direction, wavelength, path length, clock) as the Python tracer would, so the two have the same outcome distribution; this includes the step limit and all three emission methods. (Wavelengths are within the ranges of the materials' spectra.)",
  ["inputs", "histories", "configurations"], "all sequences of random outcomes (K representatives per draw) up to a step bound, for each scene of the family and each emission method, on the natively compiled kernel",
  "the tests compare aggregate event frequencies of two or three scenes within statistical tolerance; a divergence in a rare branch or in one field of the log is invisible to them",
  ["pvtrace/engine/_kernel.pyx", "pvtrace/engine/compiler.py", "pvtrace/engine/api.py"],
  [("native trace loop", "pvtrace/engine/_kernel.pyx: trace_one"), ("scene lowering", "pvtrace/engine/compiler.py: CompiledScene")],
  observe=["EngineResult.histories()"], hook="scripted random stream in the kernel (rng_seed/rng_uniform)")

p("C04", "Engine results do not depend on threads, schedule or history sampling",
  "For a given seed, initial photons and scene, the engine's recorder tallies and every recorded history are the same for any number of worker threads and any interleaving or assignment of work between them, and for any choice of which histories are kept; the kept histories are exactly the sampled subset of the complete set. "
  "No photon is dropped, traced twice, or tallied in another photon's place.",
  ["schedules", "configurations"], "all assignments of work chunks to threads (worker counts 1..4) and, where threads touch shared memory, all interleavings of those accesses up to a preemption bound; all sampling strides 0..n+1 and event budgets",
  "one test compares two thread counts on one uncontrolled OS schedule",
  ["pvtrace/engine/_kernel.pyx", "pvtrace/engine/api.py"],
  [("per-photon random stream", "pvtrace/engine/_kernel.pyx: rng_seed"), ("per-thread accumulators", "pvtrace/engine/_kernel.pyx: trace_bundle"), ("prange dynamic schedule", "pvtrace/engine/_kernel.pyx: trace_bundle")],
  state=[("acc_*", "one row of recorder accumulators per thread, summed after the loop", "pvtrace/engine/_kernel.pyx: trace_bundle")],
  observe=["EngineResult.recorders", "EngineResult.histories()"])

p("C05", "Recorder tallies equal a recount of the complete photon histories",
  "Every recorder's distinct-photon count, crossing count, moments (wavelength, angle, duration, path length) and 1-D and 2-D histograms equal those obtained by walking the complete histories of all photons: each photon counts at most once, at its first matching interaction, and only interactions matching the recorder's node, event kind and facet normal within its tolerance count; values outside a histogram's range are in no bin. "
  "This holds for the engine's own tallies and for the pure-Python tally, which agree.",
  ["inputs", "histories", "configurations"], "all sequences of random outcomes up to a step bound, with recorders for every event kind, facet, node and histogram property attached at once",
  "tests compare one or two recorders of one scene against the log of one seed",
  ["pvtrace/engine/_kernel.pyx", "pvtrace/engine/tally.py", "pvtrace/engine/recorder.py", "pvtrace/engine/api.py", "pvtrace/engine/compiler.py"],
  [("in-kernel tally", "pvtrace/engine/_kernel.pyx: tally"), ("reference tally", "pvtrace/engine/tally.py: tally_histories"), ("result accessors", "pvtrace/engine/api.py: RecorderResult")],
  observe=["RecorderResult.rays/crossings/mean/std/error/histogram"])

p("C06", "Streaming a simulation in bundles equals running it in one go",
  "For any number of photons and any bundle size, streaming with a seed traces exactly the requested number of photons, yields increasing progress totals ending at that number, and every photon's history, and the sum of the bundles' tallies, are those of a single run with the same seed and the same emitted photons, with photons cycling through the scene's lights in the same order; the histories a bundle keeps are its photons' own.",
  ["inputs", "configurations"], "all (photons, bundle size, number of lights, sampling stride, workers) up to a bound",
  "one test streams one size on one single-light scene",
  ["pvtrace/engine/api.py", "pvtrace/engine/emit.py"],
  [("bundle loop with seed offsets", "pvtrace/engine/api.py: simulate_stream"), ("bundle emission", "pvtrace/engine/emit.py: emit_bundle")],
  observe=["yielded (EngineResult, traced) pairs"])

p("C07", "The engine refuses every scene it cannot simulate faithfully",
  "Compiling a scene either raises the unsupported-scene error or yields an engine whose results follow the Python tracer; a scene using meshes, scaled or sheared placements, histogram spectra, custom surface, phase-function or component behaviour, missing materials, volume recorders with facets, duplicate recorder names, values the tracer itself would refuse (a cone half angle outside (0, pi/2], a negative coefficient), or more nodes or recorders than the engine can hold is always refused, never silently simulated as something else; a scene of rigidly placed boxes, spheres and cylinders with built-in behaviour is accepted.",
  ["configurations", "programs"], "all combinations of features (each supported and unsupported variant of geometry, transform, surface, spectrum, phase function, component, recorder) in scenes up to a node bound",
  "tests try four unsupported features one at a time",
  ["pvtrace/engine/compiler.py", "pvtrace/engine/_kernel.pyx"],
  [("feature rejection", "pvtrace/engine/compiler.py: CompiledScene"), ("node limit", "pvtrace/engine/_kernel.pyx: trace_bundle")],
  observe=["compile_scene / simulate return or raise UnsupportedSceneError"])

p("C08", "A multi-process run traces exactly the requested photons, each once",
  "For every number of photons, number of workers, output mode and way the tasks are scheduled on worker processes, a scene simulation traces exactly the requested number of photons; every photon's complete event sequence is delivered exactly once and in order, and no two photons of a run share an identity in the delivered stream. "
  "Tasks draw from differently seeded random streams, the run with one worker and a seed is reproducible, and the end-ray mode delivers exactly the subset of events that are generations, entries, escapes, external reflections and terminal events.",
  ["schedules", "inputs", "configurations"], "all (photons, workers) up to a bound, all assignments of tasks to pool processes, with and without queue, full and end-ray delivery",
  "tests run one or two sizes on whatever schedule the OS picks and only check the length of the result",
  ["pvtrace/scene/scene.py"],
  [("splitting photons over workers", "pvtrace/scene/scene.py: Scene.simulate"), ("queue records", "pvtrace/scene/scene.py: do_simulation_add_to_queue"), ("end-ray filter", "pvtrace/scene/scene.py: is_end_ray")],
  observe=["return value of Scene.simulate", "records on the queue"])

p("C09", "The recording pipeline stores every photon event exactly once",
  "When a simulation finishes or is stopped after its photons are traced, every event put on the results queue is in the database exactly once, attached to its photon, in order, with its values unchanged; events of different photons never share a throw, and the tool always terminates. "
  "If the database refuses a row (the disk is full, say), the command ends with an error: it never hangs and never reports success. "
  "A live view, if asked for, is given histories of single photons, complete and none twice; all of them if it is to show every photon. "
  "This holds for every interleaving of the producing workers, the writer and the shutdown request.",
  ["schedules", "histories"], "all interleavings of producer puts, writer gets and timeouts, and the stop request, for up to 3 photons from up to 3 producers",
  "the CLI tests run the happy path once and check the exit status",
  ["pvtrace/cli/main.py"],
  [("writer thread draining the queue", "pvtrace/cli/main.py: monitor_queue"), ("throw numbering", "pvtrace/cli/main.py: simulate/monitor_queue"), ("row writers", "pvtrace/cli/main.py: write_ray/write_event")],
  observe=["rows of the ray and event tables"])

p("C10", "A results database is usable after a crash at any point",
  "If the process dies at any point while recording, the database file left behind opens, and contains a set of complete records: every stored photon state has its event and every event its photon state, and the contents are a prefix of the recorded stream up to the last commit.",
  ["crash_points", "histories"], "every point between two database operations (and between two file writes) of a recording history of a few photons",
  "no test interrupts a recording",
  ["pvtrace/cli/main.py"],
  [("transactional writes", "pvtrace/cli/main.py: monitor_queue, write_ray, write_event, prepare_database")],
  observe=["rows visible on reopening the database"])

p("C11", "Command-line counts, spectra and times equal a recount of stored photons",
  "For every stored set of photon histories and every combination of query filters (node, kind of event, components of the surface normal within the tolerance, facet label, source), the count command prints the number of distinct photons with a stored event satisfying all the filters, and the spectrum and time commands report exactly the distinct (photon, wavelength) or (photon, duration) pairs of those events, in every output format. reflected and entering mean crossing or reflecting on the node's outside (hit and adjacent are the node), escaping means leaving it (hit and container are the node), and lost, reacted and killed refer to events inside the node (container is the node).",
  ["inputs", "histories", "configurations"], "all databases built from histories up to a small bound and all filter combinations",
  "tests never run the query commands on data",
  ["pvtrace/cli/db.py", "pvtrace/cli/count.py", "pvtrace/cli/spectrum.py", "pvtrace/cli/time.py"],
  [("SQL query builders", "pvtrace/cli/db.py"), ("commands", "pvtrace/cli/count.py, spectrum.py, time.py")],
  observe=["command output"])

p("C12", "A scene file builds exactly the scene it describes",
  "For every scene file accepted by the schema, the built scene has exactly the nodes, hierarchy, placements, geometries, refractive indices, surfaces, components, coefficients, emission spectra, yields, lifetimes, light masks and recorders the file specifies, with the documented defaults for everything it omits; equivalent spellings give equivalent scenes; invalid files are refused with an error and never half-applied.",
  ["inputs", "configurations"], "all combinations of specification options up to a nesting bound",
  "tests parse a few example files and check that parsing does not raise",
  ["pvtrace/cli/parse.py", "pvtrace/data/pvtrace-schema-scene-spec.json"],
  [("spec parsers", "pvtrace/cli/parse.py"), ("schema", "pvtrace/data/pvtrace-schema-scene-spec.json")],
  observe=["Scene returned by load_from_yaml/parse"])

p("C13", "Coordinate conversion between scene nodes is consistent",
  "For every scene tree and every sequence of translations, rotations and location changes, a point, direction or photon converted from one node to another and back is unchanged, conversions compose along any route, distances and angles are preserved by rigid placements, and the result equals the product of the local poses along the path; a moved node takes effect in every later conversion.",
  ["histories", "inputs"], "all operation sequences up to a depth on trees up to four nodes",
  "tests convert single points on fixed two- or three-node chains",
  ["pvtrace/scene/node.py", "pvtrace/geometry/transformable.py", "pvtrace/light/ray.py", "pvtrace/geometry/intersection.py"],
  [("pose composition", "pvtrace/scene/node.py: transformation_to"), ("pose edits", "pvtrace/geometry/transformable.py")],
  observe=["Node.point_to_node, vector_to_node, Ray.representation, Intersection.to"])

p("C14", "Shapes report their true intersections, containment and normals",
  "For every photon position and direction and every shape, the reported intersections are exactly the points ahead of the photon where its line meets the surface, nearest first; points reported inside, on the surface or outside are so; and the normal at a surface point is the outward unit normal, so that entering photons oppose it and leaving ones follow it. "
  "The two independent implementations (Python shapes and engine) agree.",
  ["inputs"], "all rays of an exact finite lattice of origins and directions (including tangent, edge, axis-parallel, inside and on-surface origins) against each shape",
  "tests probe a few rays along the axes",
  ["pvtrace/geometry/box.py", "pvtrace/geometry/sphere.py", "pvtrace/geometry/cylinder.py", "pvtrace/geometry/mesh.py", "pvtrace/geometry/utils.py", "pvtrace/engine/_kernel.pyx"],
  [("intersection routines", "pvtrace/geometry/*.py"), ("kernel intersection routines", "pvtrace/engine/_kernel.pyx: intersect_*")],
  observe=["Geometry.intersections/contains/is_on_surface/normal/is_entering"])

p("C15", "Spectra sample and look up consistently with their data",
  "For every valid spectrum, lookup is the cumulative probability of the data, non-decreasing from 0 to 1, sampling inverts it, and every sample lies within the data range in a region of non-zero weight; evaluation returns the data (interpolated, or per bin for histograms), and queries outside the range and invalid data (unsorted, negative or non-finite) are refused.",
  ["inputs"], "all spectra of up to five points over a small value alphabet, all evaluation points of a grid and all probabilities of a grid including 0 and 1",
  "tests check two spectra at single points",
  ["pvtrace/material/distribution.py"],
  [("cumulative tables", "pvtrace/material/distribution.py: Distribution")],
  observe=["Distribution.__call__, lookup, sample"])

p("C16", "Re-emission obeys the chosen emission method and phase function",
  "A luminophore re-emits within its emission spectrum: never at a shorter wavelength than absorbed with the redshift method, never more than the thermal allowance above the absorbed energy with the kT method, and over the whole spectrum with the full method, with relative weights given by the spectrum restricted to the allowed range. "
  "Scatterers keep the wavelength; directions are unit vectors distributed per the phase function (isotropic, Henyey-Greenstein with mean cosine g for every g in (-1,1) including 0, cone within its half angle, Lambertian). "
  "An absorbed photon is emitted as often as the quantum yield says, given or following from the lifetimes, and emission and loss follow absorption after exponentially distributed times of the radiative and the nonradiative lifetime, at once where there is none.",
  ["inputs", "configurations"], "all pairs of random draws on a fine grid, all absorbed wavelengths of a grid, all emission methods, phase functions and parameters, for the Python tracer and the engine",
  "tests do not exercise emission methods or phase-function laws",
  ["pvtrace/material/component.py", "pvtrace/material/utils.py", "pvtrace/engine/_kernel.pyx", "pvtrace/engine/emit.py"],
  [("emission sampling", "pvtrace/material/component.py: Luminophore.emit"), ("phase functions", "pvtrace/material/utils.py")],
  observe=["emitted photon wavelength and direction"])

p("C17", "Lights emit what their masks promise, cycling fairly, in world frame",
  "A scene asked for n photons emits exactly n, taking its lights in turn; each photon starts inside its light's position mask and within its direction mask as placed in the world, with a wavelength from the light's spectrum, tagged with the light's name, with zero path and clock. "
  "The engine's bundle emission has the same distribution as the per-photon emission for every built-in mask and falls back to it for custom ones.",
  ["inputs", "configurations"], "all draw tuples on a grid for every combination of wavelength, position and direction mask and placement, for 0..n photons and 1..3 lights",
  "tests emit from the default light only",
  ["pvtrace/light/light.py", "pvtrace/scene/scene.py", "pvtrace/scene/node.py", "pvtrace/engine/emit.py"],
  [("light masks", "pvtrace/light/light.py"), ("light cycling", "pvtrace/scene/scene.py: Scene.emit"), ("bundle sampling", "pvtrace/engine/emit.py")],
  observe=["Ray objects of Scene.emit; arrays of emit_bundle"])

p("C18", "Surface optics conserve energy and obey reflection and refraction laws",
  "For every pair of refractive indices and every incidence angle, reflectivity is within [0,1], equals the unpolarised Fresnel value, is total beyond the critical angle, vanishes between equal media and is reciprocal; the reflected direction is the mirror image and the refracted direction obeys Snell's law, both unit vectors in the plane of incidence on the correct side, whichever way the normal points. "
  "A surface reflects exactly the fraction its delegate says, and null surfaces pass every photon undeviated.",
  ["inputs", "configurations"], "all angles of a grid including grazing and critical neighbours, all index pairs of a set, all normals of a set, all draws of a grid, for built-in and custom delegates",
  "two test files check one angle each",
  ["pvtrace/material/surface.py", "pvtrace/material/utils.py"],
  [("Fresnel delegate", "pvtrace/material/surface.py: FresnelSurfaceDelegate"), ("formulae", "pvtrace/material/utils.py")],
  observe=["Surface.is_reflected/reflect/transmit; helper functions"])

p("C19", "The LSC device counts every simulated photon in the right place",
  "For every sequence of building, lighting, simulating and reporting steps, the concentrator model stores one first and one final record per simulated photon across repeated runs, attributes every photon leaving the slab to the facet it left through, and its reported counts (edges, facets, sources, lost, reflected) and optical efficiency are exactly those of the photons' histories, with solar cells, mirrors and films acting on exactly the facets they were added to.",
  ["histories", "configurations"], "all operation sequences up to a depth and all photon outcome classes (each facet, lost, reflected)",
  "the device model has no test",
  ["pvtrace/device/lsc.py"],
  [("history store and labelling", "pvtrace/device/lsc.py: LSC.simulate/_make_dataframe/counts/summary")],
  observe=["LSC.report/counts/summary"])

p("C20", "Studio edits are all-or-nothing and keep document and scene in step",
  "For every sequence of document loads and edits, a valid edit is accepted, an accepted edit changes exactly what it names, the running scene equals the scene built from the current document, and a rejected edit leaves both document and scene exactly as they were; node deletions never leave dangling references, and saving writes exactly the current document.",
  ["histories"], "all edit sequences up to a depth from several documents, valid and invalid edits",
  "the studio has no test",
  ["pvtrace/studio/server.py"],
  [("atomic apply", "pvtrace/studio/server.py: Studio.apply"), ("patch operations", "pvtrace/studio/server.py: _patch")],
  observe=["HTTP responses, Studio.document/scene, saved file"])

p("C21", "A studio simulation session follows its run and stop commands",
  "For every interleaving of run, stop, bundle completion, edits and disconnects on a studio session, progress totals of a run increase to exactly the requested number of photons unless it is stopped, tallies reported are exactly those of the photons traced so far in that run, with the scene it was started on, the paths shown are photons' of the run and no more than asked for, a stopped run reports no more progress after its end is announced and never revives, a new run starts from zero, and an error in one run does not prevent the next.",
  ["schedules", "histories"], "all interleavings of client commands and bundle completions up to a bound",
  "the studio has no test",
  ["pvtrace/studio/server.py"],
  [("websocket loop and stop flag", "pvtrace/studio/server.py: ws endpoint")],
  observe=["websocket messages"])

p("C22", "The live view stays bounded and shows what it was given",
  "For every sequence of adding rays, histories and objects to and removing them from the live view, the histories displayed are the most recent ones up to the configured maximum, each complete with its markers and drawn only where the photon went (an escaping one's last segment may be shortened) in the colour of its wavelength, older ones are removed completely, nodes are drawn with their own shape where they are in the world, identities are never reused while displayed, and removing or clearing removes exactly what was added.",
  ["histories"], "all operation sequences up to a depth with every history shape",
  "one test constructs the renderer",
  ["pvtrace/scene/renderer.py"],
  [("bounded history queue", "pvtrace/scene/renderer.py: MeshcatRenderer.add_history")],
  observe=["objects set and deleted on the visualiser"])

p("C23", "The studio page and the server never drift apart",
  "For every interleaving of typing, applying, saving, inspector edits, dragging, reactive and real-time runs with the server's taking up requests and the arrival of its replies: once everything is answered the page shows exactly the document and scene which the server has, or text typed since and not yet applied; nothing typed is ever lost, no accepted edit is undone, editing one number of the inspector leaves the others exactly as the document has them, a refused edit is reported and what is shown stays the document's, a save which is reported stored all that was typed before it, a dropped object is where it was dropped, and runs are started exactly when asked for, in reactive mode with the last one of the current document.",
  ["schedules", "histories"], "all orders of user actions, requests taken up, replies and timers up to a bound",
  "the page has no test",
  ["pvtrace/studio/static/app.js", "pvtrace/studio/server.py"],
  [("document editing", "pvtrace/studio/static/app.js: applyDocument, patch"), ("inspector", "pvtrace/studio/static/app.js: buildNodeFields, numberField"), ("gizmo", "pvtrace/studio/static/app.js: dragging-changed handler")],
  observe=["editor text, inspector fields and drawn scene of the page", "requests sent", "the server's document"])

p("C24", "The studio page displays the run it was told about",
  "For every sequence of runs, messages, selections, display settings and document changes, what the page displays is exactly what the latest run told last: progress, tallies and means, one plot per histogram with bars, angles and colours in proportion to its bins, heat maps with each bin painted where on the face of the object it is and on one colour scale for all surfaces, the read-out under the pointer, and only paths which photons of that run took, in the colour of their light; nothing of a former run remains once its successor reports, runs are asked for with the numbers entered, layer, isolation, visibility and display settings show exactly what they name, apply to a changed document and survive a reload, a click selects what is visible at that place, and the page never fails.",
  ["histories", "inputs"], "all sequences of user actions and run messages up to a depth",
  "the page has no test",
  ["pvtrace/studio/static/app.js"],
  [("run messages", "pvtrace/studio/static/app.js: connect"), ("heat maps", "pvtrace/studio/static/app.js: refreshHeatmaps, buildRecorderOverlay"), ("layers", "pvtrace/studio/static/app.js: applyLayer")],
  observe=["drawn scene, canvases, inspector and read-out of the page"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), [len(x["title"]) for x in P])
