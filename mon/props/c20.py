"""C20 files."""
import copy
import json
import os
import pathlib
import random
import resource
import shutil
import subprocess
import sys
import tempfile

from .. import gen as G, lib, spec
from ..lib import quiet
from ..monitor import Session, Skip, call, construct, describe, ensure, read
from ..runner import PY, ROOT

QUICK, THOROUGH = 3200, 80000
LEVEL = "exploration"
RULE = ("random documents (non-ASCII names included) loaded from and saved to real files in a private scratch folder: new, nested, "
        "bare, relative, existing and non-ASCII targets; the folder tree before and after is compared, file operations of every other "
        "call are watched with an audit hook, write failures are injected at random offsets with a file-size limit, and by making the "
        "target or its parent unusable; some batches run in a process with the C locale; non-trivial: a file was saved and read back")
REQUIRED = {"distinct_nontrivial": 1000, "saves_compared": 3000, "loads_compared": 2000, "write_failures_injected": 1500,
            "quiet_calls_watched": 3000, "c_locale_documents": 60, "bare_names": 40, "files_replaced": 80, "folders_created": 500}
NO_SHRINK = False
WRITES = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "shutil.move", "shutil.rmtree",
          "shutil.copyfile", "tempfile.mkstemp", "tempfile.mkdtemp", "os.chmod", "os.utime", "subprocess.Popen", "os.system"}
_audit = {"on": False, "hooked": False, "events": []}


def hook(event, args):
    if not _audit["on"]:
        return
    if event == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        writing = (isinstance(mode, str) and any(c in mode for c in "wax+")) or \
            (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if writing:
            _audit["events"].append(("open for writing", repr(path)))
    elif event in WRITES:
        _audit["events"].append((event, repr(args[:1])))


class watch:
    """Record file operations of the calls inside."""

    def __enter__(self):
        if not _audit["hooked"]:
            sys.addaudithook(hook)
            _audit["hooked"] = True
        _audit["events"] = []
        _audit["on"] = True
        return _audit["events"]

    def __exit__(self, *a):
        _audit["on"] = False


TARGETS = ["bare", "new", "nested", "existing", "existing longer", "relative", "relative nested", "existing folder", "unicode",
           "dot", "no suffix", "leaving", "double slash", "spaces", "pathlib", "source", "odd", "odd",
           "link", "link nowhere", "link folder"]
ODD = ["~", "~/x.json", "$HOME.json", "${HOME}/x.json", "%41.json", "a\nb.json", "*.json", "[a].json", "file:x.json", "-",
       "x.JSON", "x.json.gz", ".hidden", "dir.json/x", "x" * 200 + ".json", "e\u0301.json", "\u00e9.json", "a\\b.json", "#x?.json", "x.json ",
       "./~/x.json", "{0}.json", "%s/%d.json", "x.json~", "http://a/b.json", "C:x.json", "true"]


def gen(r, i, tier):
    o = dict(nonimage=r.choice([0, 0.2]), anims=(1, 3), slots=(0, 5), extras=0.1)
    if i % 40 == 3:
        return {"locale": [{"doc": G.gen_doc(r, **o)} for _ in range(8)]}
    doc = G.gen_doc(r, **o)
    case = {"elsewhere": r.random() < 0.3, "doc": doc, "ops": G.gen_ops(r, doc, n=(0, 2)), "target": r.choice(TARGETS), "what": r.choice(["doc", "images"]),
            "odd": r.choice(ODD), "later": [], "raw": r.random() < 0.7, "faults": sorted(r.random() for _ in range(2)) if r.random() < 0.7 else [],
            "broken": r.choice([None, None, "target is a folder", "parent is a file"])}
    if r.random() < 0.5:
        # the history goes on after the first save
        later = G.gen_ops(r, doc, n=(1, 2), keep_anim=False)
        if G.valid_ops(case["ops"] + later, doc) and not G.cleans_empty(case["ops"] + later, doc):
            case["later"] = later
    return case


def shrinkable(path):
    return path[0] in ("later", "faults") and len(path) == 2


def tree(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for x in ds:                    # (what is below a link to a folder is not followed)
            out[os.path.relpath(os.path.join(d, x), top)] = None
        for x in fs:
            if not os.path.exists(os.path.join(d, x)):
                out[os.path.relpath(os.path.join(d, x), top)] = b"link to nowhere"
                continue
            with open(os.path.join(d, x), "rb") as f:
                out[os.path.relpath(os.path.join(d, x), top)] = f.read()
    return out


def save(ed, what, path):
    with quiet():
        return ed.to_json(path) if what == "doc" else ed.save_images_json(path)


def content(what, s):
    return s.doc if what == "doc" else s.images


def parse(b, what):
    def refuse(x):
        raise ValueError("not JSON: %s" % x)
    try:
        return json.loads(b.decode("utf-8"), parse_constant=refuse)
    except ValueError as e:
        ensure(False, "saved %s is not UTF-8 JSON: %s", what, e)


def check(case, stats):
    tmp = tempfile.mkdtemp(prefix="verif-c20-")
    cwd, home = os.getcwd(), os.environ.get("HOME")
    try:
        top = os.path.join(tmp, "work")
        os.mkdir(top)
        os.environ["HOME"] = os.path.join(tmp, "home")      # nothing outside the scratch folder is ever a target
        os.chdir(top)
        return check_locale(case, tmp, stats) if "locale" in case else check_in(case, tmp, top, stats)
    finally:
        os.chdir(cwd)
        if home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = home
        shutil.rmtree(tmp)


def check_in(case, tmp, top, stats):
    from spine_json_lib import SpineAnimationEditor
    doc = case["doc"]
    if not G.valid_ops(case["ops"] + case["later"], doc) or G.cleans_empty(case["ops"] + case["later"], doc):
        raise Skip()
    over = case["target"] == "source"       # saved over the file it was loaded from
    src = os.path.join(top if over else tmp, "in.json")
    with open(src, "w", encoding="utf-8") as f:
        json.dump(doc, f, ensure_ascii=not case["raw"])
    with open(src, "rb") as f:
        raw = f.read()
    if case.get("elsewhere"):               # loaded while the working directory was another
        os.chdir(tmp)
    with watch() as ev:
        try:
            with quiet():
                ed = SpineAnimationEditor.from_json_file(os.path.basename(src) if case.get("elsewhere") and not over else src)
        except Exception as e:
            ensure(False, "from_json_file of a supported document failed: %s", describe(e))
    ensure(not ev, "from_json_file performed %r", ev)
    stats["quiet_calls_watched"] += 1
    s = Session(doc)
    same_editor(ed, s, "from_json_file", stats)
    os.chdir(top)
    for op in case["ops"]:
        with watch() as ev:
            k, v = call(ed, op)
            read(ed)
        ensure(k == "ok", "operation %r failed on a supported document: %s", op, describe(v) if k == "raised" else "")
        ensure(not ev, "%r performed %r", op, ev)
        stats["quiet_calls_watched"] += 1
        s.do(op)
        same_editor(ed, s, "after %r" % (op,), stats)
    now = tree(top)
    ensure(now == ({"in.json": raw} if over else {}), "loading or editing wrote %r", sorted(now))
    # saving
    t = case["target"]
    what = case["what"]
    rel = {"bare": "bare.json", "dot": os.path.join(".", "dot.json"), "no suffix": os.path.join(top, "plain"),
           "new": os.path.join(top, "sub", "out.json"), "nested": os.path.join(top, "a", "b b", "c", "out.json"),
           "existing": os.path.join(top, "there.json"), "existing longer": os.path.join(top, "there.json"),
           "relative": os.path.join("rel", "out.json"), "relative nested": os.path.join("r1", "r2", "r3", "out.json"),
           "existing folder": os.path.join(top, "have", "out.json"), "unicode": os.path.join(top, "ordnerü", "datei日本.json"),
           "leaving": os.path.join("gone", "..", "left.json"), "double slash": top + "//two//out.json",
           "spaces": os.path.join(" a ", " b .json "), "pathlib": pathlib.Path("p1", "p2.json"), "source": src,
           "link": "link.json", "link nowhere": "link.json", "link folder": os.path.join("linked", "out.json"),
           "odd": case.get("odd")}[t]
    target = os.path.join(top, rel)
    with open(os.path.join(top, "bystander.json"), "w") as f:
        f.write("{}")
    os.makedirs(os.path.join(top, "have", "other"))
    if t == "existing":
        with open(target, "w") as f:
            f.write("old")
    if t == "existing longer":
        with open(target, "w") as f:
            f.write("x" * 300000)
    aside = None                        # where a link leads: written there, or the link replaced
    if t.startswith("link"):
        aside = "have/out.json" if t == "link folder" else "there.json"
        os.symlink("have" if t == "link folder" else "there.json", os.path.join(top, "linked" if t == "link folder" else "link.json"))
        if t == "link":
            with open(os.path.join(top, aside), "w") as f:
                f.write("x" * 300000)
    before = tree(top)
    try:
        save(ed, what, rel)
    except Exception as e:
        ensure(False, "saving the %s to a %r target failed: %s", what, t, describe(e))
    after = tree(top)
    key = os.path.relpath(os.path.normpath(target), top)
    ensure(os.path.isfile(target), "saving the %s to %r wrote no file", what, rel)
    with open(target, "rb") as f:
        got = parse(f.read(), what)
    ensure(spec.same(got, content(what, s)), "the saved %s is not what the editor holds: %s", what, spec.Diff(content(what, s), got))
    allowed = {key, "gone", aside}
    p = os.path.dirname(key)
    while p:
        if p not in before:
            allowed.add(p)
            stats["folders_created"] += 1
        p = os.path.dirname(p)
    for x in set(before) | set(after):
        if x not in allowed:
            ensure(x in before and x in after and before[x] == after[x], "saving to %r touched %r", rel, x)
    stats["saves_compared"] += 1
    stats["bare_names"] += t == "bare"
    stats["files_replaced"] += t.startswith("existing") and t != "existing folder"
    same_editor(ed, s, "after saving", stats)
    if what == "doc":
        try:
            with quiet():
                back = SpineAnimationEditor.from_json_file(rel)
        except Exception as e:
            ensure(False, "loading the saved document failed: %s", describe(e))
        twin = Session(s.doc)
        same_editor(back, twin, "the reloaded document", stats)
        graph_from_file(s.doc, rel)
    # later saves write what the editor holds by then, over the file that is there, and do not depend on each other
    for op in case["later"]:
        k, v = call(ed, op)
        ensure(k == "ok", "operation %r after saving failed: %s", op, describe(v) if k == "raised" else "")
        s.do(op)
        same_editor(ed, s, "after saving and %r" % (op,), stats)
        for what2, rel2 in ((what, rel), ("images" if what == "doc" else "doc", str(rel) + ".2")):
            try:
                save(ed, what2, rel2)
            except Exception as e:
                ensure(False, "saving the %s again after %r failed: %s", what2, op, describe(e))
            with open(os.path.join(top, rel2), "rb") as f:
                after = {key: f.read()} if what2 == what else {key + ".2": f.read()}
            got = parse(next(iter(after.values())), what2)
            ensure(spec.same(got, content(what2, s)), "the %s saved after %r is not what the editor holds: %s", what2, op,
                   spec.Diff(content(what2, s), got))
            stats["saves_after_more_edits"] += 1
    with open(target, "rb") as f:
        size = len(f.read())
    # write failures
    for frac in case["faults"]:
        limit = int(frac * size)
        if limit >= size:
            continue
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        if os.path.exists(target):
            os.remove(target)
        err = None
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            save(ed, what, rel)
        except Exception as e:
            err = e
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        stats["write_failures_injected"] += 1
        ensure(err is not None, "writing failed after %d of %d bytes of the %s, but no error reached the caller", limit, size, what)
        ensure(isinstance(err, OSError), "writing failed, but the caller got %s", describe(err))
        same_editor(ed, s, "after a failed save", stats)
        try:
            save(ed, what, rel)
        except Exception as e:
            ensure(False, "saving again after a failed save failed: %s", describe(e))
        with open(target, "rb") as f:
            got = parse(f.read(), what)
        ensure(spec.same(got, content(what, s)), "after a failed save, saving again wrote something else: %s",
               spec.Diff(content(what, s), got))
        stats["saves_compared"] += 1
    if case["broken"]:
        bad = os.path.join(top, "have") if case["broken"] == "target is a folder" else os.path.join(top, "bystander.json", "x.json")
        b = tree(top)
        try:
            save(ed, what, bad)
            err = None
        except Exception as e:
            err = e
        stats["write_failures_injected"] += 1
        ensure(isinstance(err, OSError), "%s, but saving %s", case["broken"], "succeeded" if err is None else describe(err))
        ensure(tree(top) == b, "a save that cannot work changed other files")
        same_editor(ed, s, "after a failed save", stats)
    with open(src, "rb") as f:
        ensure(over or f.read() == raw, "the loaded file was modified")
    return True


def same_editor(ed, s, what, stats):
    now = read(ed)
    ensure(spec.same(now, s.doc), "%s: the document differs from one built from the parsed data: %s", what, spec.Diff(s.doc, now))
    ensure(spec.same(ed.images_references, s.images), "%s: images_references differ: %s", what, spec.Diff(s.images, ed.images_references))
    stats["loads_compared"] += 1


def graph_from_file(doc, path):
    from spine_json_lib.deserializer.spine_nodes import SpineGraphParser, SpineNodeFactory
    from spine_json_lib.graph.dagraph import DAGraph
    try:
        g = DAGraph.create_from_json_file(SpineGraphParser, path, SpineNodeFactory())
        got = g.to_json_data(SpineGraphParser)
    except Exception as e:
        ensure(False, "building the graph from the saved file failed: %s", describe(e))
    for part in ("bones", "slots", "ik"):
        ensure(spec.same(got[part], doc.get(part, [])), "%s of the graph built from the saved file: %s", part,
               spec.Diff(doc.get(part, []), got[part]))


CHILD = r"""
import json, sys
sys.path.insert(0, sys.argv[1])
from spine_json_lib import SpineAnimationEditor
from spine_json_lib.deserializer.spine_nodes import SpineGraphParser, SpineNodeFactory
from spine_json_lib.graph.dagraph import DAGraph
n = int(sys.argv[2])
out = []
for i in range(n):
    try:
        ed = SpineAnimationEditor.from_json_file("in%d.json" % i)
        ed.to_json("out%d.json" % i)
        ed.save_images_json("img%d.json" % i)
        g = DAGraph.create_from_json_file(SpineGraphParser, "in%d.json" % i, SpineNodeFactory())
        out.append(["ok", g.to_json(SpineGraphParser)])
    except Exception as e:
        out.append(["raised", ascii(e)])
open("result.json", "w").write(json.dumps(out))
"""


def check_locale(case, tmp, stats):
    docs = [c["doc"] for c in case["locale"]]
    for i, d in enumerate(docs):
        with open("in%d.json" % i, "w", encoding="utf-8") as f:
            json.dump(d, f, ensure_ascii=False)
    env = dict(os.environ, LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    env.pop("PYTHONIOENCODING", None)
    p = subprocess.run([PY, "-c", CHILD, lib.REPO, str(len(docs))], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError("child failed: %s" % p.stdout[-2000:])
    with open("result.json") as f:
        res = json.load(f)
    for i, (d, got) in enumerate(zip(docs, res)):
        ensure(got[0] == "ok", "under the C locale: loading and saving a UTF-8 document failed: %s", got[1])
        s = Session(d)
        for name, want in (("out%d.json", s.doc), ("img%d.json", s.images)):
            with open(name % i, "rb") as f:
                x = parse(f.read(), "file under the C locale")
            ensure(spec.same(x, want), "under the C locale: the saved %s differs: %s", name % i, spec.Diff(want, x))
            stats["saves_compared"] += 1
        stats["c_locale_documents"] += 1
    return True
