"""C02 unsupported or incomplete input is rejected."""
import copy
import random

from .. import gen as G, spec
from ..lib import quiet
from ..monitor import Skip, describe, ensure

QUICK, THOROUGH = 40000, 200000
RULE = ("one mutation (unknown attribute, attribute of another kind, unknown attachment type, or a required attribute "
        "removed) at a random position of a random supported document; non-trivial: every mutated document")
REQUIRED = {"distinct_nontrivial": 3000, "required_removed": 150, "unknown_added": 1500, "foreign_added": 800,
            "type_changed": 100, "unmutated_loaded": 200}
ASSUMPTIONS = ["an attribute of another kind may also be accepted if it is kept in the output"]

UNKNOWN = ["zzz_unknown", "Name", "skinRequired", "fps", "idx", "_id", "c5", "tint", "ofset", "__dict__x", "x ", "default",
           "values", "data", "version", "to_json_data", "__class__", "DEFAULT_VALUES", "items", "attachments2", "NAME", "note", "_", "keys"]
FOREIGN = {  # attributes that exist in the format, for another kind of object
    "bone": ["attachment", "bone", "order", "mix", "skin"], "slot": ["parent", "x", "scaleX", "skin", "offset"],
    "skin": ["bones", "ik", "color", "type"], "ik": ["skin", "rotateMix", "x"], "transform": ["softness", "skin", "mix"],
    "path": ["softness", "x", "uniform"], "event": ["audio", "volume", "name", "time"],
    "region": ["vertices", "parent", "end", "skin", "sequence"], "mesh": ["parent", "skin", "x", "deform", "end"],
    "linkedmesh": ["uvs", "vertices", "hull", "x"], "pathatt": ["width", "uvs", "end", "path"],
    "boundingbox": ["width", "end", "path", "x"], "clipping": ["width", "lengths", "path"], "point": ["width", "end", "scaleX"],
    "animation": ["shear", "twoColor", "attachments", "skins"], "bonetl": ["attachment", "x", "color"],
    "slottl": ["rotate", "deform", "color2"], "bonekey": ["mix", "color", "name", "offset", "value"],
    "slotkey": ["angle", "x", "mix", "alpha"], "ikkey": ["softness", "angle", "uniform"], "transformkey": ["mix", "x"],
    "pathkey": ["mix", "x", "name"], "deformkey": ["name", "x", "attachment"], "drawkey": ["slot", "curve"],
    "offset": ["time", "slots", "index"], "eventkey": ["curve", "value"], "document": ["constraints", "physics", "ikk"],
}


def objects(doc):
    """(kind, path) of every object the format defines, outside the skeleton block."""
    yield "document", ()
    for name, kind in (("bones", "bone"), ("slots", "slot"), ("ik", "ik"), ("transform", "transform"), ("path", "path")):
        for i, _ in enumerate(doc.get(name, [])):
            yield kind, (name, i)
    for i, s in enumerate(doc.get("skins", [])):
        yield "skin", ("skins", i)
        for sl, x in (s.get("attachments") or {}).items():
            for k, a in x.items():
                t = spec.atype(a)
                yield ("pathatt" if t == "path" else t), ("skins", i, "attachments", sl, k)
    for k in doc.get("events", {}):
        yield "event", ("events", k)
    for an, a in doc.get("animations", {}).items():
        p = ("animations", an)
        yield "animation", p
        for group, tl, key in (("bones", "bonetl", "bonekey"), ("slots", "slottl", "slotkey")):
            for n, x in a.get(group, {}).items():
                yield tl, p + (group, n)
                for t, ks in x.items():
                    for i, _ in enumerate(ks):
                        yield key, p + (group, n, t, i)
        for group in ("ik", "transform"):
            for n, ks in a.get(group, {}).items():
                for i, _ in enumerate(ks):
                    yield group + "key", p + (group, n, i)
        for n, x in a.get("path", {}).items():
            for t, ks in x.items():
                for i, _ in enumerate(ks):
                    yield "pathkey", p + ("path", n, t, i)
        for s, x in a.get("deform", {}).items():
            for sl, y in x.items():
                for k, ks in y.items():
                    for i, _ in enumerate(ks):
                        yield "deformkey", p + ("deform", s, sl, k, i)
        for i, k in enumerate(a.get("drawOrder", [])):
            yield "drawkey", p + ("drawOrder", i)
            for j, _ in enumerate(k.get("offsets", [])):
                yield "offset", p + ("drawOrder", i, "offsets", j)
        for i, k in enumerate(a.get("events", [])):
            yield "eventkey", p + ("events", i)


_POOL = {}


def pairs():
    """[(kind, attribute)] of every attribute name of the format that documents never carry in an object of that kind,
    and for every kind some documents holding such an object."""
    if not _POOL:
        r = random.Random(2)
        seen, docs = {}, {}
        for _ in range(150):
            doc = G.gen_doc(r, rich=1.0, extras=0.5, big=0)
            for k, path in objects(doc):
                seen.setdefault(k, set()).update(at(doc, path))
                docs.setdefault(k, []).append((doc, path))
        names = {n for k, x in seen.items() for n in x if k not in ("bonetl", "slottl")} | {n for x in FOREIGN.values() for n in x}
        names |= {"rotate", "translate", "scale", "shear", "attachment", "color", "twoColor", "light", "dark", "sequence"}
        _POOL["pairs"] = [(k, n) for n in sorted(names - {"type", "attachments"}) for k in sorted(seen) if n not in seen[k]]
        _POOL["docs"] = docs
        _POOL["names"] = names | {n for x in seen.values() for n in x}
    return _POOL["pairs"], _POOL["docs"]


def names():
    pairs()
    return _POOL["names"]


def at(doc, path):
    for p in path:
        doc = doc[p]
    return doc


REQ = {"bone": ["name"], "slot": ["name", "bone"], "offset": ["offset"]}


def gen(r, i, tier):
    if i % 5 == 1:
        ps, docs = pairs()
        kind, name = ps[i // 5 % len(ps)]
        doc, path = r.choice(docs[kind])
        return {"doc": doc, "mut": ["foreign", kind, list(path), name, r.choice(["x", 0.5, [1, 2], 7.25])]}
    doc = G.gen_doc(r, rich=0.8)
    if i % 20 == 0:
        return {"doc": doc, "mut": None}
    by = {}
    for kind, path in objects(doc):
        by.setdefault(kind, []).append(path)
    k = r.random()
    if k < 0.12:
        kinds = [x for x in by if x in REQ]
        kind = r.choice(sorted(kinds))
        return {"doc": doc, "mut": ["remove", kind, list(r.choice(by[kind])), r.choice(REQ[kind])]}
    if k < 0.2:
        kinds = [x for x in by if x in ("region", "mesh", "linkedmesh", "pathatt", "boundingbox", "clipping", "point")]
        if kinds:
            kind = r.choice(sorted(kinds))
            return {"doc": doc, "mut": ["type", kind, list(r.choice(by[kind])),
                                        r.choice(["Mesh", "skinnedmesh", "weightedmesh", "regions", "sequence", "slot",
                                                  "image", "boundingBox", "path ", "linkedMesh", "xyz", "", "REGION", "null",
                                                  "linked mesh", "none"])]}
    kind = r.choice(sorted(by))
    path = list(r.choice(by[kind]))
    value = r.choice([None, 0, 1, "", "x", [], {}, False, True, 1.5, [1], {"a": 1}])
    if k < 0.33:
        return {"doc": doc, "mut": ["foreign", kind, path, r.choice(FOREIGN[kind]), r.choice([1, True, "x", 0.5, [1, 2]])]}
    have = sorted(k for k in at(doc, path)) if kind not in ("bonetl", "slottl", "animation", "document") or r.random() < 0.7 else []
    if k < 0.5 and have:
        # an attribute name that careless code could take for one the object has
        name = r.choice(have)
        twin = r.choice([G.twin(r, name), "".join("_" + c.lower() if c.isupper() else c for c in name), name + "s", "_" + name, name + "\t",
                         name[:1].upper() + name[1:], name.lower(), name + ":", "\ufeff" + name])
        if twin not in names():
            return {"doc": doc, "mut": ["unknown", kind, path, twin, copy.deepcopy(at(doc, path)[name]) if r.random() < 0.6 else value]}
    return {"doc": doc, "mut": ["unknown", kind, path, r.choice(UNKNOWN), value]}


def check(case, stats):
    from spine_json_lib import SpineAnimationEditor
    doc = copy.deepcopy(case["doc"])
    mut = case["mut"]
    if mut:
        try:
            o = at(doc, mut[2])
        except (KeyError, IndexError, TypeError):
            raise Skip()
        if mut[0] == "remove":
            o.pop(mut[3], None)
        elif mut[0] == "type":
            o["type"] = mut[3]
        else:
            if mut[3] in o:
                raise Skip()
            o[mut[3]] = copy.deepcopy(mut[4])
    before = copy.deepcopy(doc)
    err = ed = None
    try:
        with quiet():
            ed = SpineAnimationEditor(doc)
    except Exception as e:
        err = e
    ensure(spec.same(before, doc), "loading modified the caller's data (%s)", mut and mut[:4])
    if mut is None:
        stats["unmutated_loaded"] += 1
        ensure(err is None, "a document of supported attributes was refused: %s", err and describe(err))
        return False
    stats[{"remove": "required_removed", "type": "type_changed", "unknown": "unknown_added",
           "foreign": "foreign_added"}[mut[0]]] += 1
    stats["kind_" + mut[1]] += 1
    if err is None:
        if mut[0] == "foreign":
            try:
                with quiet():
                    out = ed.to_json_data()
                got = at(out, mut[2])
                ensure(mut[3] in got and spec.same(got[mut[3]], before and at(before, mut[2])[mut[3]]),
                       "attribute %r of %s %s was accepted and silently lost", mut[3], mut[1], mut[2])
            except (KeyError, IndexError, TypeError):
                ensure(False, "attribute %r of %s %s was accepted and silently lost", mut[3], mut[1], mut[2])
            stats["accepted_and_kept"] += 1
            return True
        ensure(False, "%s %r at %s %s was accepted silently", mut[0], mut[3], mut[1], mut[2])
    from spine_json_lib.data.spine_exceptions import SpineParsingException
    ensure(isinstance(err, (SpineParsingException, ValueError, KeyError)),
           "%s %r at %s %s raised %s", mut[0], mut[3], mut[1], mut[2], describe(err))
    stats["rejections"] += 1
    return True
