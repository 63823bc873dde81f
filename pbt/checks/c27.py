"""C27: the script generator imports every OSM file of a folder with the configured settings"""
import contextlib
import io
import json
import os
import runpy
import shutil
import sys
import tempfile
import types

import env
import roof
from engine import Section

RULE = ("Scratch folders with 0 to 7 OSM files, a configuration with random names and in random order, and stand-ins for Blender and for the "
        "blosm add-on (a second, wrong copy of the add-on is on the search path as well); 1 to 3 runs with other configurations in one process. "
        "Non-trivial: at least two files, or a second run.")
LETTERS = "abcxyzABC0189_-. äß漢"
ADDON = """
import bpy
SOURCE = __file__
def register():
    bpy.registered(SOURCE)
def unregister():
    pass
"""


def word(g, n=12):
    return "".join(g.one(LETTERS) for _ in range(g.i(1, n))).strip(" .") or "x"


def generate(g):
    runs = []
    for _ in range(g.one([1, 1, 1, 2, 3])):
        files = sorted({"%d_%s.osm" % (g.i(1, 10 ** g.i(1, 9)), word(g)) for _ in range(g.i(0, 7))})
        keys = ["blosmPath", "osmFilesDir", "outputDir", "assetsDir", "outputTemplate", "outputFileNamePrefix"]
        for i in range(5, 0, -1):
            j = g.i(0, i)
            keys[i], keys[j] = keys[j], keys[i]
        runs.append(dict(files=files, keys=keys, osm=word(g), out=word(g), assets=word(g), template=word(g), prefix=word(g), slash=g.p(25)))
    return dict(shape="%d files" % len(runs[0]["files"]), runs=runs)


class Data:
    pass


class Scene(dict):
    """the scene of Blender: custom properties are items, the settings of the add-on exist once it is registered"""
    __hash__ = object.__hash__


def one(run, d, k):
    base = os.path.join(d, "run%d" % k)
    decoy = os.path.join(d, "decoy%d" % k)
    blosm = os.path.join(base, "blosm", "blender-osm")
    osm = os.path.join(base, "osm " + run["osm"])
    work = os.path.join(base, "work")
    for p in (osm, work, os.path.join(blosm, "setup"), os.path.join(decoy, "blender-osm")):
        os.makedirs(p)
    for p in (blosm, os.path.join(decoy, "blender-osm")):
        with open(os.path.join(p, "__init__.py"), "w") as f:
            f.write(ADDON)
    for n in run["files"]:
        open(os.path.join(osm, n), "w").close()
    conf = dict(blosmPath=blosm, osmFilesDir=osm + (os.sep if run["slash"] else ""), outputDir=os.path.join(base, run["out"]),
                assetsDir=os.path.join(base, run["assets"]), outputTemplate=os.path.join(base, run["template"]), outputFileNamePrefix=run["prefix"])
    with open(os.path.join(work, "config_generate_pytest_scripts.txt"), "w") as f:
        json.dump({key: conf[key] for key in run["keys"]}, f)
    scene, log = Scene(), []
    bpy = types.ModuleType("bpy")
    bpy.context = Data()
    bpy.context.scene = scene
    bpy.ops = Data()
    bpy.ops.blosm = Data()

    def registered(source):
        log.append(("register", os.path.realpath(source)))
        scene.blosm = Data()

    def import_data(*a, **kw):
        log.append(("import", dict(scene), dict(vars(scene.blosm))))
        return {"FINISHED"}
    bpy.registered = registered
    bpy.ops.blosm.import_data = import_data
    cwd, path = os.getcwd(), list(sys.path)
    sys.modules["bpy"] = bpy
    sys.path.insert(0, decoy)
    os.chdir(work)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            roof.guarded(runpy.run_path, os.path.join(env.REPO, "misc", "generate_pytest_scripts.py"), run_name="__main__")
    except roof.Hang:
        return ["does not terminate"]
    except SystemExit as e:
        return ["ends with %s" % e]
    except Exception as e:
        return ["raises %s: %s" % (type(e).__name__, e)]
    finally:
        os.chdir(cwd)
        sys.path[:] = path
        for m in ("bpy", "blender-osm"):
            sys.modules.pop(m, None)
    bad = []
    reg = [x for x in log if x[0] == "register"]
    imp = [x for x in log if x[0] == "import"]
    if [x[1] for x in reg] != [os.path.realpath(os.path.join(blosm, "__init__.py"))]:
        bad.append("the add-on is registered %d times, from %s" % (len(reg), [x[1] for x in reg]))
    got = sorted(os.path.realpath(x[2].get("osmFilepath", "")) for x in imp)
    want = sorted(os.path.realpath(os.path.join(osm, n)) for n in run["files"])
    if got != want:
        bad.append("%s are imported instead of %s" % (got, want))
    for _, items, settings in imp:
        for key in ("outputDir", "outputTemplate", "outputFileNamePrefix"):
            if items.get(key) != conf[key]:
                bad.append("%s is %r at an import instead of %r" % (key, items.get(key), conf[key]))
        if settings.get("osmSource") != "file":
            bad.append("the source is %r" % settings.get("osmSource"))
        if settings.get("assetsDir") != conf["assetsDir"]:
            bad.append("assetsDir is %r instead of %r" % (settings.get("assetsDir"), conf["assetsDir"]))
        if os.path.normpath(settings.get("setupScript") or "") != os.path.join(blosm, "setup", "test_hipped.py"):
            bad.append("the setup script is %r" % settings.get("setupScript"))
    left = sorted(os.listdir(osm)) != run["files"] or os.listdir(work) != ["config_generate_pytest_scripts.txt"]
    if left:
        bad.append("the folders have been changed")
    return bad


def judge(case):
    d = tempfile.mkdtemp(prefix="vp27")
    try:
        bad = []
        for k, run in enumerate(case["runs"]):
            bad += ["run %d: %s" % (k, b.replace(d, "")) for b in one(run, d, k)]
        return bad
    finally:
        shutil.rmtree(d)


SECTIONS = [Section("runs", generate, judge, quick=3000, nontrivial=lambda c: len(c["runs"]) > 1 or len(c["runs"][0]["files"]) > 1)]
