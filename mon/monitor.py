"""The monitored editor: every public call is recorded as an event with the observable state before and after."""
import copy
import pickle
import zlib

from . import spec
from .lib import quiet


class Violation(Exception):
    pass


class Skip(Exception):
    """The case does not exercise the property (not counted)."""


def ensure(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def describe(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if "spine_json_lib" in f.filename]
    at = " at %s:%d" % (where[-1].filename.split("spine_json_lib/", 1)[-1], where[-1].lineno) if where else ""
    return "%s: %s%s" % (type(e).__name__, str(e)[:200], at)


def construct(doc):
    """Build an editor from valid input; failing to is a violation."""
    from spine_json_lib import SpineAnimationEditor
    try:
        with quiet():
            return SpineAnimationEditor(copy.deepcopy(doc))
    except Exception as e:
        raise Violation("loading a supported document failed: " + describe(e))


def call(ed, op):
    """Perform one operation on a real editor.  Returns (kind, value) with kind 'ok' or 'raised'."""
    # all the ways of writing the same call: positional, by keyword, default left out or given
    style = zlib.crc32(repr(op).encode("utf-8", "surrogatepass")) % 3
    with quiet():
        try:
            if op[0] == "anims":
                names = copy.deepcopy(op[1])
                if style == 0:
                    return "ok", ed.erase_animations(names, op[2], op[3])
                kw = {}
                if op[2] is False or style == 1:
                    kw["strict_mode"] = op[2]
                if op[3] or style == 1:
                    kw["is_safe_mode"] = op[3]
                return "ok", ed.erase_animations(animations_to_erase=names, **kw)
            if op[0] == "skins":
                names = copy.deepcopy(op[1])
                if style == 0:
                    return "ok", ed.erase_skins(names, op[2])
                kw = {"is_safe_mode": op[2]} if op[2] or style == 1 else {}
                return "ok", ed.erase_skins(skins_to_erase=names, **kw)
            if op[0] == "clean":
                return "ok", ed.clean_animation()
            if op[0] == "scale":
                if style == 0:
                    return "ok", ed.scale_animation(op[1], op[2])
                return "ok", ed.scale_animation(scaleY=op[2], scaleX=op[1])
        except Exception as e:
            return "raised", e
    raise ValueError(op)


def read(ed):
    try:
        with quiet():
            return ed.to_json_data()
    except Exception as e:
        raise Violation("to_json_data failed: " + describe(e))


class Session:
    """A real editor driven by a history, with an event log.

    With raw, the state before the first operation is the caller's document itself rather than what the editor
    serialises for it, so that something lost while loading counts too.
    """

    def __init__(self, doc, raw=False):
        self.input = copy.deepcopy(doc)
        self.ed = construct(doc)
        self.events = []
        self.doc = self.input if raw else copy.deepcopy(read(self.ed))
        self.images = copy.deepcopy(self.ed.images_references)

    def do(self, op, must_succeed=True):
        before, ibefore = self.doc, self.images
        kind, value = call(self.ed, op)
        if kind == "raised" and must_succeed:
            raise Violation("operation %r failed on a supported document: %s" % (op, describe(value)))
        self.doc = copy.deepcopy(read(self.ed))
        self.images = copy.deepcopy(self.ed.images_references)
        ev = {"op": op, "before": before, "after": self.doc, "ibefore": ibefore, "iafter": self.images,
              "kind": kind, "value": value}
        self.events.append(ev)
        return ev


def cleaning(op):
    return op[0] == "clean" or (op[0] == "anims" and not op[3]) or (op[0] == "skins" and not op[2])


def slot_names(doc):
    return [s["name"] for s in doc.get("slots", [])]


def atts(doc):
    """{(skin, slot, key): attachment}"""
    return {(s["name"], sl, k): a for s in doc.get("skins", [])
            for sl, x in (s.get("attachments") or {}).items() for k, a in x.items()}


def without_skins(doc, names):
    d = dict(doc)
    d["skins"] = [s for s in doc.get("skins", []) if s["name"] not in names]
    return d


# ---------------------------------------------------------------- real documents
FIXTURES = ["spine_json_lib/test/data/original/original.json",
            "spine_json_lib/test/data/original/masquerade_skeleton.json",
            "spine_json_lib/test/data/original/elvira_original.json"]


def fixture(name, keep=None):
    """A real exported document of the repository, optionally with only some of its animations."""
    import json
    import os
    from . import lib
    path = os.path.join(lib.REPO, name)
    if not os.path.exists(path):
        raise Skip()
    with open(path, encoding="utf-8") as f:
        doc = json.load(f)
    if keep is not None:
        doc["animations"] = {k: v for k, v in doc["animations"].items() if k in keep}
    return doc


def base(case):
    return case["doc"] if "doc" in case else fixture(case["fixture"], case.get("keep"))


def fixture_case(r, limit, kinds, n=(1, 2), safe=0.2, big=False, **kw):
    """A case on a real document with at most `limit` animations."""
    from . import gen
    name = r.choice(FIXTURES if big else FIXTURES[:2])
    doc = fixture(name)
    anims = list(doc["animations"])
    keep = sorted(r.sample(anims, min(limit, len(anims))))
    doc["animations"] = {k: v for k, v in doc["animations"].items() if k in keep}
    return {"fixture": name, "keep": keep, "ops": gen.gen_ops(r, doc, kinds=kinds, n=n, safe=safe, **kw)}


# ---------------------------------------------------------------- expected documents
def expected_without_animations(before, names):
    d = copy.deepcopy(before)
    for n in names:
        d.get("animations", {}).pop(n, None)
    return d


def converted_links(before, names):
    """[(skin, slot, key, parent skin, parent attachment, linked mesh)] of links into the skins `names`."""
    skins = {s["name"]: (s.get("attachments") or {}) for s in before.get("skins", [])}
    out = []
    for (sk, sl, k), a in atts(before).items():
        if sk in names or a.get("type") != "linkedmesh":
            continue
        ps = a.get("skin") or "default"
        if ps in names:
            out.append((sk, sl, k, ps, skins[ps][sl][a["parent"]], a))
    return out


def expected_without_skins(before, names):
    """The document in which exactly the skins `names` are gone and links into them became meshes."""
    d = copy.deepcopy(before)
    conv = converted_links(before, names)
    d["skins"] = [s for s in d.get("skins", []) if s["name"] not in names]
    by = {s["name"]: s for s in d["skins"]}
    for sk, sl, k, ps, parent, link in conv:
        m = copy.deepcopy(parent)
        m["type"] = "mesh"
        for f in ("name", "path", "color", "width", "height"):
            m.pop(f, None)
            if link.get(f) is not None:
                m[f] = link[f]
        by[sk]["attachments"][sl][k] = m
    for a in d.get("animations", {}).values():
        df = a.get("deform")
        if not df:
            continue
        for sk, sl, k, ps, parent, link in conv:
            src = df.get(ps, {}).get(sl, {}).get(link["parent"])
            if src is not None and link.get("deform") is not False:
                df.setdefault(sk, {}).setdefault(sl, {})[k] = copy.deepcopy(src)
        for n in names:
            df.pop(n, None)
    return d


def doc_diff(a, b):
    """Differences in meaning between two documents, as text ('' if none)."""
    ca, cb = spec.canon(a), spec.canon(b)
    return "" if spec.same(ca, cb) else "; ".join(spec.diff(ca, cb))


def copied(x, how, stats):
    """A copy of x, or None where x cannot be copied in this way (which nobody promises)."""
    stats["copies_attempted"] += 1
    try:
        data = pickle.dumps(x) if how == "pickle" else copy.deepcopy(x)
    except Exception:
        stats["not_copyable"] += 1
        return None
    if how != "pickle":
        return data
    try:
        return pickle.loads(data)
    except RecursionError:
        stats["not_copyable"] += 1
        return None
    except Exception as e:
        ensure(False, "what pickle made of %s cannot be loaded: %s", type(x).__name__, describe(e))
