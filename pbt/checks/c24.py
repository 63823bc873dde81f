"""C24: the download script fetches every building of a log that may have a hipped roof"""
import contextlib
import io
import os
import runpy
import sys
import tempfile
import urllib.request

import env
import roof
from engine import Section

RULE = ("Log files with random entries (way or relation, with every status of the tests, empty or with separators), with or without a final "
        "line break; the script runs with a stand-in for urlretrieve. Non-trivial: a skipped and a fetched entry.")
SKIP = ("Flat roof", "Not hipped roof")
STATUS = ["Flat roof", "Not hipped roof", "", "Ok", "Failed", "Exception", "Flat", "flat roof", "Not hipped", "Flat roof ", "Hipped roof",
          "Faces with less than 3 vertices", "Flat roof|", "Skeleton edges cross"]


def generate(g):
    L = []
    for _ in range(g.i(0, 9) if g.p(92) else g.i(10, 250)):
        L.append([g.one(["", "-"]) + str(g.i(1, 10 ** g.i(1, 10))) if g.p(8) else str(g.i(1, 10 ** g.i(1, 10))),
                  g.one(["way", "relation"]), g.one(STATUS[:2]) if g.p(35) else g.one(STATUS)])
    return dict(shape="%d lines" % len(L), lines=[x for x in L if "|" not in x[2]], final=g.p(60), crlf=g.p(15))


def judge(case):
    got = []

    def fake(url, filename=None, reporthook=None, data=None):
        got.append((url, filename, data))
        return filename, None
    nl = "\r\n" if case["crlf"] else "\n"
    text = nl.join("|".join(x) for x in case["lines"]) + (nl if case["final"] and case["lines"] else "")
    # a very last empty status without line break is still an entry
    d = tempfile.mkdtemp(prefix="vp24")
    log = os.path.join(d, "log.txt")
    out = os.path.join(d, "osm")
    with open(log, "w", newline="") as f:
        f.write(text)
    real, argv = urllib.request.urlretrieve, sys.argv
    urllib.request.urlretrieve = fake
    sys.argv = ["get_osm_files.py", "--log", log, "--outputDir", out]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            roof.guarded(runpy.run_path, os.path.join(env.REPO, "misc", "get_osm_files.py"), run_name="__main__")
    except roof.Hang:
        return ["does not terminate"]
    except SystemExit as e:
        return ["ends with %s" % e]
    except Exception as e:
        return ["raises %s: %s" % (type(e).__name__, e)]
    finally:
        urllib.request.urlretrieve, sys.argv = real, argv
        if os.path.exists(log):
            os.unlink(log)
        left = os.listdir(d)
        if not left:
            os.rmdir(d)
    bad = []
    if left:
        bad.append("files are left: %s" % left)
    want = [x for x in case["lines"] if x[2] not in SKIP]
    if len(got) != len(want):
        bad.append("%d buildings are fetched instead of %d: %s" % (len(got), len(want), [g[2] for g in got]))
        return bad
    for (url, name, data), (i, t, s) in zip(got, want):
        if not url.startswith("http") or os.path.dirname(name) != out or i not in os.path.basename(name) or not name.endswith(".osm"):
            bad.append("%s is fetched from %s to %s" % (i, url, name))
        q = data.decode("ascii")
        w = "((way(%s););node(w););out;" % i if t == "way" else "((relation(%s););way(r);node(w););out;" % i
        if "".join(q.split()) != w:
            bad.append("%s %s is fetched by %s" % (t, i, q))
    return bad


def nontrivial(c):
    k = sum(x[2] in SKIP for x in c["lines"])
    return 0 < k < len(c["lines"])


SECTIONS = [Section("logs", generate, judge, quick=6000, nontrivial=nontrivial)]
