#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Parallel tracing equals sequential tracing under any worker behaviour",
     "Tracing a collection of rays through any element or group with the parallel method returns exactly the output rays "
     "that sequential tracing returns: every input ray is traced once, every unblocked output appears once with the same "
     "height, angle and position, blocked rays are absent, and the order of the result does not depend on which worker "
     "finishes first. This holds for any number of workers (also more workers than rays), any collection (list, ray source, "
     "lazily generated source, one-shot iterator, empty) and whatever happens to the workers: if they cannot be started, "
     "cannot receive or return data, fail, or die half-way, the call still terminates with the complete correct answer. "
     "The input rays are left as they were.",
     ["schedules", "fault_sequences", "inputs"],
     "every worker count, every assignment and completion order of chunks, every placement of pool-creation, pickling, task and worker-death failures, every input collection",
     "The tests run the real pool once or twice on one machine with lucky timing; no worker ever fails, dies or finishes late, and no fallback with a consumed input is exercised.",
     ["raytracing/matrix.py", "raytracing/rays.py"],
     [("chunking of the explicit ray list over a process pool, concatenation of the partial results", "Matrix.traceManyThroughInParallel"),
      ("fallback to sequential tracing when anything in the pool fails", "Matrix.traceManyThroughInParallel"),
      ("sequential tracing", "Matrix.traceManyThrough")],
     ["return value of traceManyThroughInParallel", "input rays after the call", "termination of the call"],
     state=[("explicit ray list", "snapshot of the input split over workers", "Matrix.traceManyThroughInParallel")])

prop("C02", "Threads sharing an optical path each get the right answer",
     "Several threads may trace rays and beams through, and query, the same optical path or group at the same time: each call "
     "returns what it would return if it ran alone, for every interleaving, namely the trace of its own ray through the current elements "
     "with blocking at every aperture. Threads that iterate over the same path, or over the same stored collection of rays, each see every "
     "element or ray once and in order. No call changes the caller's rays or beams.",
     ["schedules", "inputs"],
     "every interleaving, at the granularity of single interpreter steps, of 2-4 threads calling the reading API of one shared path",
     "All tests are single threaded; a race between a check and an update of shared state inside the path cannot show in them.",
     ["raytracing/matrixgroup.py", "raytracing/matrix.py", "raytracing/imagingpath.py", "raytracing/rays.py", "raytracing/laserpath.py"],
     [("trace through every element in order, one trace per call", "MatrixGroup.trace, Matrix.trace"),
      ("iteration over groups and ray collections", "MatrixGroup.__iter__, Rays.__iter__"),
      ("stops, pupils and special rays computed by tracing", "ImagingPath")],
     ["return values of the calls of each thread", "the rays passed in"],
     state=[("last ray traced and its trace", "remembered from the last call on the group", "MatrixGroup"),
            ("iteration position", "where an iteration over the object has got to", "MatrixGroup, Rays")])

prop("C03", "Edits of a group are all-or-nothing and keep its matrix consistent",
     "After any sequence of edits of a group (append, insert, remove, replace by index or slice, flip, load, add reversed elements) its ABCD matrix, "
     "length, indices of refraction and vertices are those of the composition of the elements it now contains, an empty group being the identity. "
     "An edit that succeeds has exactly the list semantics of its name (the right elements at the right places) with matching indices between neighbours; "
     "an edit that raises (mismatched indices, wrong type, bad position, a source that fails half-way) leaves the elements, their indices, and the group exactly as they were.",
     ["histories", "fault_sequences", "inputs"],
     "every history of edits on groups, nested groups, imaging, laser paths and cavities, with rejected edits and failing element sources at any point",
     "The tests apply one or two edits to a fresh group and hardly look at the group after an edit was refused.",
     ["raytracing/matrixgroup.py", "raytracing/lasercavity.py", "raytracing/matrix.py"],
     [("rebuild of the group by re-appending elements", "MatrixGroup.append/pop/insert/__setitem__/flipOrientation/load"),
      ("index check between neighbours; free space adapts", "MatrixGroup.append")],
     ["elements, length, A B C D, L, frontIndex, backIndex, frontVertex, backVertex of the group after each edit"],
     state=[("elements and the cached A,B,C,D,L,vertices,indices", "the group's contents and its composite matrix", "MatrixGroup")])

prop("C04", "Traces and path properties depend only on the current elements",
     "At any time, tracing a ray or beam through a path, and asking the path for its optical properties (aperture and field stops, "
     "pupil, field of view, chief, principal, marginal and axial rays, NA, f-number, image size, invariant, conjugates, modes), gives what a freshly built path "
     "with the same elements gives, whatever was done before: earlier traces of equal or reused rays, edits, changes of apertures, refused edits, "
     "queries in any order, calls interrupted or failed at any instant. In particular a ray is reported blocked from the first aperture it misses on and carries its own "
     "starting position. Tracing never alters the ray or beam given to it.",
     ["histories", "crash_points", "inputs"],
     "every history of traces, queries, edits and aperture changes on one path, with an interruption at any interpreter step of any read-only call",
     "The tests build a new path for every assertion, so nothing remembered from one call can disturb another, and no call is ever interrupted.",
     ["raytracing/matrixgroup.py", "raytracing/matrix.py", "raytracing/imagingpath.py", "raytracing/laserpath.py", "raytracing/lasercavity.py", "raytracing/ray.py", "raytracing/axicon.py"],
     [("trace through every element with aperture checks", "MatrixGroup.trace, Matrix.trace, Matrix.mul_ray, Matrix.mul_beam"),
      ("properties computed from traces and transfer matrices", "ImagingPath, LaserCavity")],
     ["return values of traces and queries", "attributes of the input ray or beam after the call"],
     state=[("last ray traced and its trace", "remembered from the last call", "MatrixGroup")])

prop("C05", "A ray collection always describes the rays it holds now",
     "For any history of building, appending, loading (also refused or failed loads), iterating and asking for statistics, a ray collection's count, heights, angles and histograms are those of exactly "
     "the rays it holds at that moment, in order, however often and with whatever parameters they were asked for before. Every iteration over the collection yields each ray once, in order, "
     "also when iterations are nested, abandoned, interrupted, or mixed with statistics. Building a collection from any iterable keeps all of its rays, and a refused operation changes nothing.",
     ["histories", "fault_sequences", "crash_points"],
     "every history of operations on ray collections, including failing sources, failing reads and interruptions at any interpreter step of the read-only calls",
     "Each test asks a fresh collection once; stale remembered values need append-ask-load-ask sequences, and failures in the middle.",
     ["raytracing/rays.py"],
     [("remembered values invalidated on change", "Rays.append, Rays.load"),
      ("histograms remembered per parameters", "Rays.rayCountHistogram, Rays.rayAnglesHistogram"),
      ("iteration protocol", "Rays.__iter__/__next__")],
     ["count, len, rays, yValues, thetaValues, rayCountHistogram, rayAnglesHistogram, iteration"],
     state=[("remembered heights, angles and histograms", "results kept from an earlier call", "Rays"), ("iteration position", "position of the current iteration", "Rays")])

prop("C06", "Random ray sources are stable, complete and within bounds",
     "A random ray source of size N yields exactly N rays whatever the stream of random numbers and however it is consumed (iteration, repeated or nested iteration, indexing in any order, negative indices, statistics, partial use, "
     "tracing); the k-th ray never changes once it has been seen. Every ray lies within the heights and angles the source was created with, and shaped sources only contain rays drawn in accordance with their profile. "
     "The rays do not depend on the clock or on how long generation takes, only on the random numbers.",
     ["histories", "fault_sequences", "inputs"],
     "every random stream (including extreme draws), clock behaviour (stalls, jumps), access history, and interruption at any interpreter step",
     "The tests draw from the unseeded global generator and check a few rays; extreme draws, slow generation and mixed access orders practically never occur.",
     ["raytracing/rays.py"],
     [("lazy generation on demand", "RandomRays.__getitem__, RandomRays.__next__"),
      ("rejection sampling", "RandomLambertianRays.randomRay, GaussianProfileUniformRays.randomRay"),
      ("slow generation warning", "RandomRays.__getitem__")],
     ["rays obtained by indexing and iterating", "len, count, yValues, thetaValues"],
     state=[("rays generated so far", "prefix of the source already drawn", "RandomRays")])

prop("C07", "Saved ray collections load back exactly or fail loudly",
     "A ray collection whose save returned normally loads back, in this or a later session, with the same rays in the same order (height, angle, position, blocked state, wavelength), replacing or extending the loading collection as asked, whatever "
     "the size. A save that failed or was cut short at any point (full disk, write error, crash) never makes a later load return other rays than the ones saved before or being saved: the load gives one of those or "
     "raises. A load that raises leaves the loading collection unchanged, and save and load finish in bounded time even if the file disappears, stalls or is changed by others meanwhile.",
     ["crash_points", "fault_sequences", "histories"],
     "every disk fault, short or torn write, crash point, and interference on the file during saves and loads of any collection",
     "The tests save and load on a healthy disk; no write ever fails, is cut short, or is interfered with.",
     ["raytracing/rays.py"],
     [("serialise to the file, then wait for the file to settle", "Rays.save"), ("deserialise, validate, then replace or extend", "Rays.load")],
     ["the rays after load", "exceptions", "simulated time spent"],
     state=[("file contents", "serialised rays", "file system")])

prop("C08", "Saved groups of elements load back exactly or fail loudly",
     "A group of elements whose save returned normally loads back, in this or a later session, as the same elements in order with the same matrices, apertures, indices, labels and therefore the same traces, replacing or extending the loading group as asked. A save that failed or "
     "was cut short at any point never makes a later load return elements other than the ones saved before or being saved: the load gives one of those or raises. A load that raises (damaged file, foreign contents, mismatched indices, read error) leaves the loading group unchanged, "
     "and save and load finish in bounded time even if the file disappears, stalls or is changed by others meanwhile.",
     ["crash_points", "fault_sequences", "histories"],
     "every disk fault, short or torn write, crash point, and interference on the file during saves and loads of any group",
     "The tests save and load on a healthy disk; no write ever fails, is cut short, or is interfered with.",
     ["raytracing/matrixgroup.py"],
     [("serialise to the file, then wait for the file to settle", "MatrixGroup.save"), ("deserialise, validate, then rebuild", "MatrixGroup.load")],
     ["the group after load", "exceptions", "simulated time spent"],
     state=[("file contents", "serialised elements", "file system")])

prop("C09", "Preferences are durable and never damaged",
     "A preference whose assignment returned normally is what every later read returns, in this object, in other objects and in later sessions, until it is assigned again or reset; assignments made by sessions at different times never undo each other. "
     "If the program is killed or the disk fails at any instant, each preference afterwards has the value before or after the operation under way, and no other preference is lost or altered; a read never changes what is stored. "
     "Preferences can be opened whatever the file contains, and then work normally.",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "every history of assignments, reads and resets by several sessions, interleaved at any file operation, killed at any file operation, with disk errors, short writes, full disk and arbitrary file contents",
     "The tests use one object on a healthy disk and never kill, interleave or damage anything.",
     ["raytracing/preferences.py"],
     [("write the dictionary on every assignment", "Preferences.__setitem__, writeToDisk"), ("re-read before every read", "Preferences.__getitem__, readFromDisk"), ("reset", "Preferences.resetPreferences")],
     ["values returned by later reads in this and other sessions", "the preference file"],
     state=[("preference file", "stored dictionary", "file system"), ("dictionary in memory", "copy held by one object", "Preferences")])

prop("C10", "The package always starts, quickly, whatever its environment",
     "Importing the package succeeds and leaves it fully usable whatever the state of the preference file (missing, empty, damaged, valid data of the wrong kind, odd values), the disk (unreadable, unwritable, full, missing home), the clock (any date, jumps, exact seconds) "
     "and the network (down, slow, stalling, garbage, errors), and in every later start after such a fault or a crash at any point of an earlier start. It finishes within a few seconds of network waiting at most.",
     ["fault_sequences", "crash_points", "configurations", "histories"],
     "every sequence of starts with faults at any file, clock or network operation and kills at any of them, over any initial preference file",
     "The tests are run after one successful import; a failing import would end them, and no test varies clock, disk or network at import.",
     ["raytracing/__init__.py", "raytracing/preferences.py", "raytracing/utils.py"],
     [("preferences opened at import", "Preferences.__init__"), ("time of last check parsed", "lastCheckMoreThanADay"), ("version request with time limit, errors swallowed", "checkLatestVersion"), ("mode selection", "raytracing/__init__.py")],
     ["outcome and simulated duration of the import", "a small computation after it"],
     state=[("preference file", "lastVersionCheck, mode", "file system")])

prop("C11", "Update checks are rationed and truthful",
     "A start of the package contacts the package index when no check is recorded or the last recorded one is two days old or more, never when the last recorded one is less than a day old, "
     "and records each check it makes, failed or not, so that later starts are rationed by it. It announces an update if and only if the answer it received lists a version newer than the running one, names the newest listed version whatever the order of the list, "
     "and an unusable answer or failure announces nothing and stops nothing.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of starts at any clock readings (jumps both ways), with every network outcome and every list of published versions",
     "The tests call the check once against the real network with one answer; time never passes.",
     ["raytracing/__init__.py", "raytracing/utils.py"],
     [("compare with stored time of last check", "lastCheckMoreThanADay"), ("request, compare versions, announce", "checkLatestVersion")],
     ["network requests made", "text printed", "stored time of last check"],
     state=[("lastVersionCheck", "time of the last check", "preference file")])

prop("C12", "The chosen verbosity mode is in force, now and in later sessions",
     "After any history of mode choices within a session, the last one chosen decides which hints are shown: beginner shows beginner hints every time, expert shows none of them but still shows expert notes, silent shows neither. "
     "A mode chosen with saving is in force in every later session (and only then), whatever sessions came in between, until another is saved; the expert environment setting overrides it. With no usable stored mode a session starts in beginner mode.",
     ["histories", "fault_sequences", "configurations"],
     "every history of sessions and mode choices, with the preference file damaged, missing or unwritable in between and sessions killed at any file operation",
     "The tests change the mode once in one session and do not look at which warnings come out, nor at a second session.",
     ["raytracing/utils.py", "raytracing/__init__.py", "raytracing/preferences.py"],
     [("install warning filters, save choice", "beginnerMode, expertMode, silentMode"), ("restore at import", "raytracing/__init__.py")],
     ["warnings displayed by the package", "stored mode"],
     state=[("warning filters", "process-wide filter list", "warnings"), ("mode", "stored choice", "preference file")])

prop("C13", "Reading a lens prescription gives the right lens or an error",
     "Reading a Zemax prescription file gives the lens written in the file (surfaces, curvatures, spacings, diameters, glasses at the design wavelength, units) whatever its text encoding and line endings and however the bytes are delivered by the storage; "
     "a read that fails at any point raises instead of giving a different or partial lens. Asking the reader again, in any order, for surfaces, prescription or lens gives the same answer, and lenses built from it are independent of each other.",
     ["fault_sequences", "inputs", "histories"],
     "every delivery of the bytes (short reads, slow reads), every read fault at any point, every encoding, every order of queries",
     "The tests read two healthy files once.",
     ["raytracing/zemax.py"],
     [("guess the encoding by trying", "ZMXReader.determineEncoding"), ("read lines", "ZMXReader.__init__"), ("interpret surfaces", "ZMXReader.surfaceInfo, lensSurfaces, matrixGroup")],
     ["surfaces(), lensSurfaces(), matrixGroup(), prescription(), designWavelength", "exceptions"],
     state=[("lines", "parsed file", "ZMXReader")])

prop("C14", "Drawing never disturbs the optics, nor an earlier drawing a later one",
     "Displaying or saving a figure of a path, whether it succeeds, fails or is interrupted at any point, leaves the path's elements and everything the path computes as it was (the object height may follow the field of view), and the same drawing requested again shows the same rays, elements, labels and annotations "
     "as on a fresh path, in the design the user last chose. In an open figure, any sequence of zoom, resize and visibility events toggles exactly the group clicked and moves only labels.",
     ["histories", "fault_sequences", "schedules"],
     "every history of display, save, design and user-interface events on a path, with a failure at any disk operation or interpreter step of a drawing",
     "The tests draw once per path and hardly look at a second drawing; no drawing fails half-way and no event is delivered.",
     ["raytracing/figure.py", "raytracing/imagingpath.py", "raytracing/laserpath.py", "raytracing/graphics.py"],
     [("figure built from the path on display", "ImagingPath.display, LaserPath.display, Figure.display"), ("event callbacks", "MplFigure.onZoomCallback, onCheckBoxCallback")],
     ["artists in the drawn figure", "traces and properties of the path before and after"],
     state=[("figure contents and design parameters", "labels, points, annotations, groups, style", "Figure")])

prop("C15", "Elements are values: using one changes neither it nor any other",
     "Asking an element, lens, objective, glass, group or path for any property, multiplying, tracing, comparing, printing, iterating or saving it, in any order, from one task or two, whether the call succeeds, is refused, is interrupted at any point or meets a disk error, leaves it, the rays and lists it was given and every other object "
     "exactly as they were. An object changes only when it, or a part it holds, is modified: what it answers, and what it is equal to, is what a fresh session gives that makes only the same object in the same way, whatever else was made, used or refused before. Elements made twice are separate, copies included.",
     ["histories", "fault_sequences", "schedules"],
     "every history of making, grouping, copying, modifying and using elements, with refusals, disk errors and interruptions at any interpreter step, and every interleaving of two tasks that only use them",
     "Each test makes its own few elements, uses them once and never compares them with a second copy made in another history; no use fails half-way.",
     ["raytracing/matrix.py", "raytracing/matrixgroup.py", "raytracing/specialtylenses.py", "raytracing/components.py", "raytracing/materials.py", "raytracing/thorlabs.py", "raytracing/eo.py", "raytracing/olympus.py", "raytracing/imagingpath.py", "raytracing/lasercavity.py"],
     [("shared parts of elements", "MatrixGroup.__init__, MatrixGroup._replaceElements"), ("lenses made from glasses and prescriptions", "CompoundLens, AchromatDoubletLens, SingletLens, Objective"), ("equality", "Matrix.__eq__, MatrixGroup.__eq__")],
     ["answers of every reading method and equality, compared with a fresh session"],
     state=[("element attributes", "matrix, indices, vertices, apertures, label, orientation", "Matrix"), ("elements of a group", "the list and the objects in it", "MatrixGroup")])

prop("C16", "An efficiency report accounts for every ray of its source",
     "A report of the efficiency of a path that has a field stop ends and accounts for every random ray of the source asked for, exactly once, whatever the random numbers: a ray is beyond the limits of the system, vignetted or transmitted as tracing it through the elements the path now contains says. The counts, percentages, "
     "positions of vignetting and invariants printed and the points of the figure are those of these rays and of this path, also when a class is empty or holds one ray, after edits, earlier reports and reports that failed or were interrupted at any point. A report leaves the path unchanged.",
     ["inputs", "histories", "fault_sequences"],
     "every stream of random numbers, including extreme ones and those that leave a class empty, after any history of edits, queries and failed or interrupted reports",
     "No test produces a report: its rays are random and its results are a text and a figure.",
     ["raytracing/imagingpath.py", "raytracing/rays.py"],
     [("the report", "ImagingPath.reportEfficiency"), ("random source", "RandomUniformRays"), ("limits of the system", "ImagingPath.principalRay, ImagingPath.axialRay, MatrixGroup.lagrangeInvariant")],
     ["the printed report and the points of the figure, with every ray recovered from its coordinates"],
     state=[("classes of rays", "transmitted, vignetted, blocked", "ImagingPath.reportEfficiency")])

prop("C17", "The command line runs exactly the examples asked for, each as if alone",
     "`python -m raytracing -e LIST` runs the examples that -l lists under those numbers, in that order and once each (all: every one of them), whatever order the disk lists their files in; anything that is not such a number is refused with an error, never replaced by another example. Each prints its own source and shows "
     "that source with its figure. What an example prints and draws is what it prints and draws alone in a fresh process, whatever ran, failed or was interrupted before it. When an example, a read of its file, standard output or the window fails, the run ends with that error and never as if all had been shown; -l and -c run nothing and list every example and every subclass.",
     ["inputs", "histories", "fault_sequences"],
     "every list of numbers, every order of the directory, every history of examples in a session and every failure or interruption of a read, a print, a window or an example",
     "No test runs the command line or an example.",
     ["raytracing/__main__.py", "raytracing/examples/__init__.py", "raytracing/figure.py"],
     [("choice of the examples", "raytracing.__main__"), ("collection of the examples", "raytracing.examples"), ("class hierarchy", "utils.printClassHierarchy")],
     ["the calls of the examples' code", "what they print and the figures they show, compared with a fresh process"],
     state=[("list of examples", "examples.short", "raytracing.examples")])

# ---- pure properties: listed for breadth, not simulation targets ----
def pure(id, title, statement, files, where, why):
    prop(id, title, statement, ["inputs"], "every element, group and parameter value",
         why, files, [(w, w) for w in where], ["return values"])

pure("C20", "ABCD algebra: products, lengths and determinants are those of the formalism",
     "The product of two elements is the matrix product in propagation order with added lengths and the determinant is the ratio of front to back index; applying a product to a ray or beam equals applying the elements one after the other.",
     ["raytracing/matrix.py"], ["Matrix.mul_matrix", "Matrix.mul_ray", "Matrix.mul_beam"], "Holds for all real matrices; tests use a dozen.")
pure("C21", "Conjugates, focal points, principal planes and magnifications are right",
     "Forward and backward conjugates, focal lengths and positions, principal planes and magnifications of any element or group satisfy their defining equations.",
     ["raytracing/matrix.py", "raytracing/matrixgroup.py"], ["Matrix.forwardConjugate", "Matrix.focusPositions", "Matrix.principalPlanePositions"], "Tests use a few systems.")
pure("C22", "Aperture stop, field stop and special rays satisfy their definitions",
     "The aperture stop is the aperture limiting the axial cone, the chief ray crosses its centre, the marginal rays its edges, and the field stop first blocks the chief ray as height grows.",
     ["raytracing/imagingpath.py"], ["ImagingPath.apertureStop", "ImagingPath.fieldStop", "ImagingPath.chiefRay", "ImagingPath.marginalRays"], "Tests use a few systems.")
pure("C23", "The optical invariant is conserved along any path",
     "For any two rays the optical invariant has the same value at every plane of a path.", ["raytracing/matrix.py"], ["Matrix.opticalInvariant"], "Tests use a few rays.")
pure("C24", "Gaussian beams: radius, size and waist follow from q and propagate by ABCD",
     "Beam size, curvature, waist and Rayleigh range are consistent with the complex parameter in every medium, and cavity modes reproduce themselves after a round trip.",
     ["raytracing/gaussianbeam.py", "raytracing/lasercavity.py"], ["GaussianBeam", "LaserCavity.eigenModes"], "Tests use a few beams.")
pure("C25", "Catalogue lenses and objectives agree with their design data",
     "Each vendor lens and objective, in both orientations, has the focal lengths, vertices and apertures its data sheet implies within tolerance.",
     ["raytracing/thorlabs.py", "raytracing/eo.py", "raytracing/olympus.py", "raytracing/specialtylenses.py"], ["AchromatDoubletLens", "SingletLens", "Objective"], "Tests sample the catalogue.")
pure("C26", "Glass dispersion formulas give the published index within their range",
     "Every material returns the Sellmeier index inside its valid wavelength range and raises outside.", ["raytracing/materials.py"], ["Material.n"], "Tests check a few wavelengths.")
pure("C27", "Deterministic ray sources have the stated counts, ranges and weights",
     "Uniform, Lambertian, object and fixed lamp sources contain the stated number of rays over the stated ranges.", ["raytracing/rays.py"], ["UniformRays", "LambertianRays", "ObjectRays", "LampRays"], "Tests check a few sizes.")
pure("C28", "The lens viewer shows the lens selected",
     "The graphical lens viewer shows the lens selected from the list.", ["raytracing/lensViewer.py"], ["lensViewer"], "The GUI is not exercised by tests.")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
