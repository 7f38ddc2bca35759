"""Writes known_findings.json from the list below (never at check time)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def h(subject):
    o = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    m = [l.split()[0] for l in o.splitlines() if l.split(" ", 1)[1].startswith("fix: " + subject)]
    assert len(m) == 1, (subject, m)
    return m[0]
F = []
def fixed(prop, subject, what):
    F.append({"status": "fixed", "property": prop, "commit": h(subject), "what": f"fixed: property={prop} {h(subject)} {what}"})
def known(prop, key, what):
    F.append({"status": "known", "property": prop, "key": key, "what": what})

fixed("C02", "use the node beyond the surface", "a photon leaving a node into its sibling saw the grandparent's index as the far side")
fixed("C03", "engine uses the node beyond the surface", "same defect in the compiled kernel")
fixed("C16", "engine samples phase functions in the frame", "anisotropic phase functions in rotated nodes were sampled in world frame by the engine")
fixed("C05", "histogram values just below", "values up to one bin width below the range were counted in the first bin")
fixed("C04", "a recorded ray that exhausts", "a photon exhausting its event budget was killed only when its history was kept, so tallies depended on record_every")
fixed("C04", "engine never starts more threads", "workers=0 started the OpenMP default number of threads with accumulators for one (out-of-bounds writes)")
fixed("C03", "engine leaves room for the KILL", "a history filled to the last slot by a two-event interaction lost its KILL record")
fixed("C06", "streamed bundles continue", "each bundle restarted the light cycle, so streamed photons differed from a single run")
fixed("C16", "henyey_greenstein with g=0", "ZeroDivisionError for the isotropic value g=0")
fixed("C03", "engine never selects a component", "draw 0 selected a component with zero coefficient")
fixed("C15", "cumulative distribution weights", "unevenly spaced spectra were sampled as if evenly spaced")
fixed("C15", "distribution refuses spectra", "a spectrum with some non-finite values was accepted")
fixed("C15", "histogram distribution evaluates", "evaluation of a histogram returned a neighbouring bin's value")
fixed("C12", "components accept an integer", "an integer coefficient built a component which failed at its first use")
fixed("C07", "engine refuses scenes with too many", "ValueError in the kernel instead of the unsupported-scene error")
fixed("C07", "engine refuses subclasses", "subclasses of supported classes with their own behaviour were compiled as the base class")
fixed("C17", "bundle emission falls back", "subclasses of lights and masks were sampled as the base class by the engine")
fixed("C07", "engine refuses cone angles and negative", "a cone outside (0, pi/2] or a negative coefficient, which the tracer refuses, was simulated by the engine")
fixed("C08", "results of every task", "two tasks run by one pool process delivered photons under the same identity")
fixed("C11", "time lost, reacted and killed", "time lost|reacted|killed failed with IndexError whenever a photon matched")
fixed("C11", "time commands round JSON", "time --output json rounded durations to 1e-10 s")
fixed("C11", "count lost ignores", "count lost --facet counted photons regardless of the facet")
known("C11", "json:photon twice", "spectrum/time --output json fails (pandas: index must be unique) when one photon matches with two different values, e.g. reflected twice at different times; the JSON layout keyed by photon cannot hold both")
fixed("C12", "scene files with a spectrum but no", "a component given by a spectrum without a coefficient could not be built")
fixed("C12", "scatterers and luminophores with a constant", "a scatterer or luminophore with a constant coefficient could not be built")
fixed("C12", "numeric wavelength mask", "a light with a numeric wavelength mask could not be built")
fixed("C12", "named spectra extend", "a named spectrum sampled past the requested range")
fixed("C13", "look_at with a direction of any length", "look_at needed a unit vector and a node in its rest orientation")
fixed("C13", "translate raises for nodes placed at integer", "translate raised for a node located at integer coordinates")
fixed("C13", "a pose given as integers", "setting an integer pose truncated every later location")
fixed("C13", "look_at away from the face", "look_at opposite to the face of a sheared node turned about an axis not perpendicular to the face")
fixed("C14", "sphere drops an intersection of short chords", "a sphere reported one intersection for chords shorter than 1e-4 (every chord of a sphere below 0.5 um)")
fixed("C14", "cylinder surface test misses", "is_on_surface was false (and is_entering raised) for surface points rounded outwards")
fixed("C14", "cylinder side points near a cap", "side points within 1e-5 of the half length of a cap had the cap's normal, in Python and in the engine")
fixed("C14", "box reports points on the planes", "is_on_surface was true for outside points on the planes of the faces")
fixed("C14", "box misses photons almost parallel", "photons almost parallel to a face missed it, or met it far off")
fixed("C15", "distribution accepts lists", "lists, documented as accepted, raised TypeError")
fixed("C15", "distribution refuses infinite x", "an infinite first or last x was accepted")
fixed("C15", "histogram distribution samples bins without", "probability 0 gave a leading bin of weight zero; when rounding left the last cumulative probability below 1, an array of probabilities gave a single value, or trailing bins of weight zero")
fixed("C16", "henyey_greenstein gives nan", "rounding took the cosine beyond 1 for small g (about one draw in 1e4 for g = 1e-12): nan directions in tracer, engine and bundle emission")
fixed("C17", "a light asked for no particular number", "Light.emit() and Node.emit() gave no photon although documented as endless")
fixed("C18", "equal media reflect grazing", "cancellation made equal media reflect photons within 1e-8 rad of grazing (up to reflectivity 1); at the critical angle a negative root gave nan")
fixed("C19", "LSC cannot add scatterers", "add_scatterer raised TypeError, and a scene with scatterers could not be built")
fixed("C19", "LSC forgets the wavelength range", "the wavelength_range given to LSC was ignored")
fixed("C19", "LSC results need DataFrame.append", "every query of results raised AttributeError with current pandas")
fixed("C19", "LSC can be simulated only once", "a second simulate raised or was not reported: results were cached from the first run")
fixed("C19", "LSC does not store photons which are lost", "photons lost inside had no final record: counts of lost were zero")
fixed("C19", "LSC labels the near facet far", "near and far were exchanged with respect to the facets' normals")
fixed("C19", "specular air gap mirror of the LSC lets photons", "photons passed through the specular air gap mirror")
fixed("C19", "LSC attributes photons which are not on the slab", "photons in the planes of the facets, but not on the slab, counted for the facets")
fixed("C19", "LSC does not attribute photons which meet the air gap", "photons whose last surface was the air gap mirror had no facet")
known("C19", "late light", "a light added after the first simulation (or show) is silently ignored: the scene is built once")
known("C19", "late component", "a component added after the first simulation (or show) is silently ignored: the scene is built once")
known("C19", "late film", "an air gap film added after the first simulation (or show) is silently ignored: the scene is built once")
fixed("C20", "studio reads files named in a document", "spectra and meshes named relative to the document (and uploads) were looked up in the current folder")
fixed("C20", "studio applies documents it cannot show", "a document with .nan or .inf was applied although the request failed, and every later request too")
fixed("C20", "studio cannot set values inside nested lists", "setting a value in a nested list replaced the inner list by a mapping")
fixed("C20", "studio writes numbers and names", "edits wrote 1e-05 or names like yes and 1e5 so that they were read back as another type: valid edits refused, strings stored as booleans")
fixed("C20", "studio cannot delete the last commented", "deleting the last recorder (or its node) or component of a commented section gave invalid YAML: valid deletion refused")
fixed("C21", "simulate_stream refuses a bundle", "simulate_stream(bundle=0) never ended")
fixed("C21", "studio runs do not revive", "a stopped run carried on when the next one started, their batches interleaved in one connection")
fixed("C21", "a studio run traces the scene it was started", "an edit between the start of a run and its first bundle mixed two scenes in a run")
fixed("C21", "report errors of a studio run", "an error in a run ended it without any message: the announced run never finished")
fixed("C22", "node names containing a slash", "such nodes were nested in the display and moved by another node's transform")
fixed("C22", "renderer accepts lines through points with integer", "add_line_segment and add_path failed for integer coordinates")
fixed("C22", "absorbed photons are drawn", "the last segment of an absorbed photon was drawn with a fixed length, past its absorption point")
fixed("C22", "baubles are removed", "baubles stayed displayed after their history was removed")
fixed("C22", "renderer displays the number of histories", "max_histories N showed N - 1 histories, 1 showed none, 0 failed")
fixed("C23", "studio page changes the document by one request", "replies which overtook one another left the page on an older document than the server; Apply during an inspector edit undid the edit")
fixed("C23", "inspector edits keep the text typed", "an inspector edit replaced the editor's text and lost what was typed but not applied")
fixed("C23", "inspector number fields keep", "editing one component of a vector rounded the others to six decimals")
fixed("C23", "dropped gizmo tells", "a real-time drag back to its start, or a scene drawn anew during a drag, left page and document with different positions")
fixed("C24", "recorder read-outs follow", "the tallies in the inspector stayed those of the first bundle until the run ended")
fixed("C24", "heatmaps are painted from the histogram", "after the document was edited the page painted another histogram of the run, or failed and drew no more paths")
fixed("C24", "heatmaps are painted on a face where", "a heat map over part of a face was stretched over all of it, one of other quantities was painted as if it were a place")
fixed("C24", "isolating an object ends", "everything stayed ghosted after the isolated object was deleted")
fixed("C24", "rays and paths are run as entered", "1e3 rays ran one ray, negative numbers were sent")
fixed("C24", "clicks select only what is shown", "clicks selected recorder faces of hidden layers")
fixed("C09", "simulate ends when recording fails", "after a row the database refused (disk full) the writer thread was dead: the command waited for ever, or reported success if the queue was empty by then")
fixed("C09", "live view shows the last photon of every process", "the last photon of every process was never handed to the live view (with one photon, none)")
for w in ("tracer", "engine"):
    known("C14", w + ":grazing 0:double crossing", w + ": a photon crossing Sphere(30) from (-78, 0, 120) along (1, 0, -1)/sqrt(2) crosses the same surface point twice: rounding leaves it 4e-13 before the surface, more than the absolute EPS_ZERO (2.2e-13)")
known("C12", "light:point position mask", "the schema accepts a point as a light's position mask; the parser refuses it (ValueError: Missing attribute)")
known("C12", "light:vector direction mask", "the schema accepts a vector as a light's direction mask; the parser refuses it (ValueError: Missing attribute)")
json.dump({"findings": F}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
print(len(F))
