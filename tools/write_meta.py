"""writes properties.jsonl and MANIFEST.json (run by hand after changes: python3 tools/write_meta.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PS = "bpypolyskel/bpypolyskel.py"
EU = "bpypolyskel/bpyeuclid.py"
FG = "bpypolyskel/poly2FacesGraph.py"
FOOT = ("every valid footprint (simple outer contour, any number of holes, no overlaps) whose exact skeleton has its nodes well separated, "
        "in every place, layout of the arguments, altitude and pitch; with wider tolerances also irregular footprints whose nodes are not separated")
P = []


def prop(id, title, statement, over, quant, tests, files, mech, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=tests,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or ["polygonize()"], hook_needed=None), note=note))


prop("C01", "The roof faces tile the footprint exactly",
     "Projected to the ground, the faces of a hipped roof cover every point of the footprint exactly once and nothing outside of it or inside of "
     "its holes. Neighbouring faces share their border edge in opposite directions and only the eaves belong to a single face.",
     ["inputs"], FOOT,
     "The tests compare a few hundred fixed footprints with recorded faces or only look for crossings; the tiling is never measured, and a new "
     "combination of events in the sweep is a new history.",
     [PS, FG], [("roof from the sweep", PS + ": polygonize"), ("wavefront events", PS + ": _SLAV.handle_edge_event, handle_split_event, handle_dormer_event"),
                ("face tracing", FG + ": faces")],
     "tiling by areas, by directed edges and by drawn points against the contours; exact reference skeleton decides the domain")
prop("C02", "Each wall has one face that starts with its eave",
     "There is exactly one roof face per wall of the footprint (two neighbouring walls in line may share theirs); it is a simple counterclockwise "
     "polygon of at least three distinct valid vertices and begins with the two ends of its wall in the direction of the contour. No face misses "
     "its wall, none is added without a wall.",
     ["inputs"], FOOT,
     "Callers build UV maps and materials from the first edge of a face; tests count faces only for fixed footprints.",
     [PS, FG], [("start of a face", PS + ": polygonize"), ("face tracing and spike removal", FG + ": faces"), ("removal of ghosts", PS + ": removeGhosts")],
     "invariant over the returned index lists")
prop("C03", "Every roof face is a plane of the requested pitch through its eave",
     "All vertices of a face lie in the plane that rises from its wall with the given tangent of the pitch, so that the height above the eaves is "
     "the tangent times the distance from the wall. This also holds for eaves at any altitude.",
     ["inputs"], FOOT,
     "Heights are nowhere compared in the tests of whole buildings; a wrong height of one node among many in one kind of event goes unseen.",
     [PS], [("height of a node", PS + ": _LAVertex.next_event, handle_*_event"), ("height of an apse or merged node", PS + ": mergeCluster, mergeNodeClusters"),
            ("z of the vertices", PS + ": polygonize")],
     "distance of every face vertex to its wall line, tolerance 0.005 units")
prop("C04", "The roof is the straight skeleton of the footprint",
     "The inner vertices of the roof and the borders between its faces are the nodes and arcs of the exact straight skeleton of the footprint. "
     "Where the skeleton is unique, so is the roof.",
     ["inputs"], FOOT,
     "The tests' expected values were recorded from the implementation; none is computed by an independent algorithm.",
     [PS], [("events of the shrinking polygon", PS + ": _LAVertex.next_event"), ("priority queue", PS + ": _EventQueue, skeletonize")],
     "differential against an independent exact wavefront reference (refskel.py)")
prop("C05", "Height and pitch set the size of the roof and nothing else",
     "If a height is given, the highest vertex of the roof is exactly that much above the eaves and all faces have the same pitch; otherwise the "
     "given pitch decides, and with neither the roof stays flat in the plane of the eaves. The plan of the roof does not depend on these values.",
     ["inputs"], FOOT + ", and every combination of height and pitch (both, one, none, integers)",
     "Tests use two or three fixed combinations.", [PS], [("scale of the heights", PS + ": polygonize")],
     "roof heights against the exact highest point and pitch")
prop("C06", "The roof does not depend on where the building stands",
     "A footprint that is moved by any distance on the plane and by any altitude gets the same roof, moved by the same amount, with the same faces.",
     ["inputs"], FOOT + ", moved by up to 10 km and 4 km of altitude", "Tests keep every building where it was recorded.",
     [PS], [("center of the calculation", PS + ": polygonize (center)"), ("altitude of the eaves", PS + ": polygonize (zBase)")],
     "metamorphic: the same footprint moved by whole units")
prop("C07", "Equivalent descriptions of one footprint give the same roof",
     "The start vertex of a contour, the order of the holes, the position of the blocks in the vertex list, vertices that belong to nothing, given "
     "or computed unit vectors, an omitted or empty hole list and a given face list do not change the roof.",
     ["inputs"], FOOT + ", in every equivalent layout of the arguments",
     "Each test has one layout; the start vertex decides over loops that wrap around and is different for every building.",
     [PS], [("indices of the contours", PS + ": polygonize"), ("cyclic patterns", PS + ": detectDormers, detectApses"), ("contour vertices", PS + ": skeletonize")],
     "metamorphic: plain layout against a drawn one, as sets of geometric faces")
prop("C08", "The data of the caller is extended, never changed",
     "The entries of the caller's vertex list, unit vectors, hole list and existing faces stay the same objects with the same values; new vertices "
     "are appended and are finite and objects of their own, and a given face list is extended in place and returned. A second roof in the same lists "
     "leaves the first one alone.",
     ["inputs", "histories"], FOOT + ", with and without debug outputs and with repeated calls in one vertex list",
     "Tests throw their arguments away after one call.", [PS], [("appended vertices", PS + ": polygonize"), ("debug outputs", PS + ": polygonize (debugOutputs)")],
     "invariant over identity and values of all arguments")
prop("C09", "Turned, mirrored and scaled footprints get the turned, mirrored and scaled roof",
     "A rotation, a reflection or a change of scale of the footprint maps the roof to the roof of the image, wall by wall.",
     ["inputs"], FOOT + ", under every motion, reflection and scales from 0.5 to 2", "Tests never compare two calls.",
     [PS, EU], [("geometry of lines and rays", EU), ("bisectors", PS + ": _LAVertex.__init__")], "metamorphic relation of two calls, tolerance by scale")
prop("C10", "The skeleton has exactly the nodes of the exact straight skeleton",
     "The list of skeleton nodes contains every node of the exact straight skeleton of the contours at the right place and height, and no other; "
     "its arcs run along the borders between the slopes.",
     ["inputs"], FOOT + ", with and without given unit vectors", "The tests of the skeleton have a dozen fixed polygons with recorded nodes.",
     [PS], [("the sweep", PS + ": skeletonize"), ("node clusters and ghosts", PS + ": mergeNodeClusters, removeGhosts")],
     "differential against the exact reference", ["skeletonize()"])
prop("C11", "The skeleton is a plane graph that ties every corner to the ridge",
     "The arcs of the skeleton neither cross each other nor a wall, every corner of the footprint has exactly one arc, no node is a dead end, "
     "each component of the footprint's interior is connected, and no arc occurs twice.",
     ["inputs"], FOOT + ", with and without given unit vectors", "The tests only check crossings of fixed footprints.",
     [PS], [("the sweep", PS + ": skeletonize"), ("node clusters and ghosts", PS + ": mergeNodeClusters, removeGhosts")],
     "graph invariants and exact crossing test", ["skeletonize()"])
prop("C12", "Any irregular footprint still gets a complete roof",
     "For every valid footprint without needle-sharp corners the call returns, and the faces are one simple face per wall that tile the footprint, with "
     "all roof vertices above the footprint and between the eaves and half its width times the pitch.",
     ["inputs"], "every valid footprint with walls of at least 0.3 units and corners turning by less than 171 degrees, however irregular or nearly degenerate",
     "Near coincidences of events are rare on the recorded footprints and unbounded in variety.",
     [PS], [("equal and nearly equal events", PS + ": _EventQueue.getAllEqualDistance, skeletonize"), ("nearby tests", PS + ": _LAVertex.next_event")],
     "invariants without a reference; a failure counts if it survives in equivalent positions of the same footprint")
prop("C13", "A dormer changes the roof only above itself",
     "A rectangular protrusion on a wall gets its own ridge at half its width times the pitch, from the middle of its gable to the foot of its valleys; "
     "outside of the protrusion and its valleys the roof is the one of the building without it.",
     ["inputs"], "every body with one to four rectangular protrusions whose valleys stay inside the face of their wall, from any start vertex",
     "Four recorded buildings have dormers, none at the start vertex.",
     [PS], [("pattern of the corners", PS + ": detectDormers"), ("events of a dormer", PS + ": processDormers, _SLAV.handle_dormer_event")],
     "metamorphic against the roof of the body, and the ridge computed by hand")
prop("C14", "Round ends and towers get a fan of faces to their center",
     "Over a round end or tower made of chords of equal circles, all chord faces meet in the center of the circle at the right height, and the rest of "
     "the roof fits; with an irregular round end every face stays in the plane of its wall.",
     ["inputs"], "round ends and towers of 7 to 24 chords on naves and wider bodies, at any place and start vertex, with noise",
     "Few recorded churches.", [PS, EU], [("apse detection", PS + ": detectApses"), ("circle", EU + ": fitCircle3Points"), ("merging", PS + ": mergeNodeClusters, mergeCluster")],
     "comparison with the fan computed by hand")
prop("C15", "Vertices on a straight wall do not change the roof",
     "A wall divided by additional vertices into pieces in line gets pieces of the same plane, and the roof covers the same area in every plane.",
     ["inputs"], FOOT + ", with up to ten additional vertices", "Hardly any recorded test has exactly collinear vertices.",
     [PS], [("bisector of collinear edges", PS + ": _LAVertex.__init__"), ("parallel walls", PS + ": _LAVertex.next_event")],
     "metamorphic: divided against undivided walls, plane by plane")
prop("C16", "Faces of a plane graph are traced completely and in order",
     "For every plane graph with straight edges the face tracing returns every bounded face once, counterclockwise, beginning with its footprint edge, "
     "with dead ends folded away.",
     ["inputs"], "plane straight-line graphs whose first vertices form a polygon, with edges in every order and direction",
     "Tests trace one graph.", [FG], [("rotation system", FG + ": circular_embedding, compare_angles"), ("tracing and spike removal", FG + ": faces")],
     "differential against a tracing in exact integer arithmetic", ["poly2FacesGraph"])
prop("C17", "Lines, rays and edges follow plane geometry",
     "Intersection, distance, direction, normal and length of lines, rays and edges agree with exact geometry; there is an intersection if and only if "
     "the lines are not parallel and it lies ahead of a ray's origin.",
     ["inputs"], "lines, rays and edges through float32 points, in all directions and sizes, parallel and anti-parallel, by all constructors",
     "Tests use integer coordinates and a few positions.", [EU], [("intersection", EU + ": _intersect_line2_line2"), ("line equation", EU + ": Line2"), ("direction and normal", EU + ": Edge2")],
     "differential against rational arithmetic", ["Line2", "Ray2", "Edge2"])
prop("C18", "Crossings of a skeleton are counted exactly",
     "The crossing check reports the number of pairs of skeleton arcs that cross properly; arcs that share an end are no crossing, and the segment test "
     "behind it is right for all segments in general position.",
     ["inputs"], "sets of arcs with shared ends, parallel arcs and crossings; segments in general position", "Tests use it as their own oracle; it is never tested itself.",
     [PS, EU], [("crossing check", PS + ": checkEdgeCrossing"), ("segments", EU + ": ccw, intersect")], "differential against exact integer arithmetic",
     ["checkEdgeCrossing()", "intersect()"])
prop("C19", "Round ends are recognized and their circle is the true one",
     "The circle through points of an arc is the circle of the arc, and points of a straight line have none; every round end of a footprint is reported "
     "with its center, from every start vertex, and no corner that is not round is.",
     ["inputs"], "arcs of all sizes and spans; footprints with none to three round ends, from every start vertex", "Tests fit six arcs.",
     [PS, EU], [("circle", EU + ": fitCircle3Points"), ("pattern of the turns", PS + ": detectApses")], "arcs of known circles", ["fitCircle3Points()", "detectApses()"])
prop("C20", "A result depends on the arguments of the call only",
     "Earlier calls, failed calls, debug settings, later changes of results and arguments by the caller, other processes and hash seeds have no influence "
     "on the result of a call, which is the same bit by bit.",
     ["histories"], "histories of up to six operations, and batches of calls in other processes with other hash seeds and in reverse order",
     "Tests run one call per function and never compare two orders.", [PS], [("module state", PS + ": debugOutputs, mutable defaults"), ("sets of vertices", PS + ": skeletonize, mergeNodeClusters")],
     "stateful histories against the same call alone on a freshly loaded library", ["polygonize()", "skeletonize()"])
prop("C21", "Large footprints get a complete roof",
     "A footprint with many corners, wings or courtyards gets one simple face per wall, the faces tile the footprint, and the call returns within seconds.",
     ["inputs"], "round, winged and perforated footprints of 45 to 250 corners", "A handful of recorded footprints is that large.",
     [PS], [("the sweep", PS + ": skeletonize"), ("holes", PS + ": polygonize, _SLAV")], "invariants without a reference, CPU limit per call")
prop("C22", "The add-on builds a closed house of the chosen size",
     "For every positive scale the operator adds one mesh: walls from the ground to the eaves on the scaled plan of the demo house, and a roof of the documented pitch, "
     "closed except for the ground, with consistent outside faces. Running it again does not depend on earlier runs, and unregistering undoes registering.",
     ["inputs", "histories"], "positive scales of all three axes, sequences of up to four runs", "There is no test of the add-on.",
     ["__init__.py"], [("operator", "__init__.py: add_object"), ("registration", "__init__.py: register, unregister")], "mesh invariants with stand-ins for Blender", ["the operator's execute()"])
prop("C23", "The demo shows the right roof after every movement of its slider",
     "After every movement the drawing consists of the contours and the skeleton of the demo building, with heights from the angle that was set last, and "
     "nothing of earlier drawings.",
     ["histories"], "sequences of slider positions from 0 to 80 degrees", "There is no test of the demo.",
     ["demo.py"], [("drawing", "demo.py: update, slider")], "model-based: drawn lines against a skeleton computed by hand", ["the lines passed to matplotlib"])
prop("C24", "The download script fetches exactly the buildings that may be hipped",
     "For every log the script downloads every building that is not marked as flat or not hipped, once per entry, as way or relation, under its own name "
     "and into the right place.",
     ["inputs"], "log files of all entries and states, with and without final line break", "There is no test of the scripts.",
     ["misc/get_osm_files.py"], [("reading the log", "misc/get_osm_files.py")], "reference reading of the generated log, stand-in for the download", ["urlretrieve"])
prop("C25", "Real buildings keep their complete roof wherever and however they are given",
     "A building from the map whose roof is complete keeps a complete roof of right planes if it is moved, turned, mirrored, scaled a little, given from "
     "another start vertex or with slightly displaced vertices.",
     ["inputs"], "201 mapped buildings under motions, reflections, scales from 0.8 to 1.25 and vertex noise up to 0.02", "Each recorded building is tested as it stands only.",
     [PS], [("the whole pipeline", PS + ": polygonize")], "invariants over perturbed real footprints")
prop("C26", "Faces have no superfluous corners",
     "A roof face bends at each of its upper corners or three or more faces meet there: no face has two corners at one place, and none has a corner on "
     "a straight piece of its border with a single neighbour. Only vertices of the footprint itself may lie on a straight line. "
     "Nor does a face run out to an upper corner and back along nearly the same line.",
     ["inputs"], "every footprint of C12, and symmetric ones whose events coincide: crosses, combs, grids of courtyards, dormers, round ends",
     "The tests compare few faces corner by corner; coinciding events that leave such corners behind are rare on real buildings.",
     [PS], [("parallel edges of a face", PS + ": polygonize (fix adjacent parallel edges)"), ("spikes", PS + ": polygonize (spike removal)"),
            ("node clusters", PS + ": mergeNodeClusters")],
     "invariant over the corners of all faces: use by faces and turn")
prop("C27", "The script generator imports every OSM file with the configured settings",
     "For every configuration the script for Blender registers the add-on of the configured folder once, and then imports every OSM file of the configured folder "
     "exactly once, each with the configured output folder, template, name prefix, assets and the setup script of the add-on; it changes nothing in the folders.",
     ["inputs", "histories"], "folders of OSM files with any names, configurations in any order, up to three runs", "There is no test of the scripts.",
     ["misc/generate_pytest_scripts.py"], [("configuration", "misc/generate_pytest_scripts.py: globals().update"), ("import loop", "misc/generate_pytest_scripts.py: os.listdir")],
     "model-based with stand-ins for Blender and the blosm add-on in a scratch folder", ["bpy.ops.blosm.import_data"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    checks = [dict(property=p["id"], quick_cmd="VERIF_TIER=quick ./check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check " + p["id"],
                   evidence_file="evidence/%s.json" % p["id"], technique="property-based testing (Hypothesis): " + p["note"], level="exploration",
                   level_note="Held on every generated case of the run; see DESIGN.md for the domain, the oracle and the tolerances. Trusts Hypothesis, "
                              "CPython, mathutils and the oracle in pbt/.") for p in P]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3-vt -c 'import hypothesis'", checks=checks, not_applicable=[],
                       notes="pbt/ holds the generators, the oracles and the checks; replay: ./check C01 --replay FILE"), f, indent=1)
        f.write("\n")
