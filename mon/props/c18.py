"""C18 scale tags."""
import math
import re

from .. import gen as G, spec
from ..lib import quiet
from ..monitor import Session, construct, describe, ensure

QUICK, THOROUGH = 32000, 200000
RULE = ("random names built from plain text, incomplete, complete, repeated, unsupported and malformed tags; and documents with "
        "tags in bone and slot names, where the scale of each image is recomputed by walking the bones; non-trivial: a tag present")
REQUIRED = {"distinct_nontrivial": 2500, "names": 1500, "refused": 400, "images_scaled": 1000, "images_unscaled": 500,
            "bad_documents": 100,
            "images_with_several_scales": 100, "images_that_lost_a_scale": 10}

PLAIN = ["", "arm", "a b", "über", "x_", "scale", "scale:2", ":", "1.5", "[", "]", "[]", "[scale]", "[scale:", "scale:2]",
         "[:2]", "[scale:]", "[ : ]", "(scale:2)", "{scale:2}", "[scale=2]", "[scale;2]", "[scale 2]"]
NUMBERS = [("2", 2.0), ("0.5", 0.5), ("1", 1.0), ("1.0", 1.0), ("10", 10.0), ("007", 7.0), (".5", 0.5), ("3.", 3.0),
           ("0.125", 0.125), ("0", 0.0), ("1.005", 1.005), ("0.995", 0.995), ("1.0000001", 1.0000001), ("0.99999", 0.99999),
           ("0.001", 0.001), ("1000000", 1e6), ("12345.678", 12345.678), ("1.1", 1.1), ("00.50", 0.5), ("1e3", 1000.0),
           ("2E1", 20.0), ("0.0", 0.0)]
SPACES = ["", "", "", " ", " ", "  ", "\t", " \t ", "\n", "\u00a0", "\u3000", "\r\n"]


def tag(r, name, value):
    s = lambda: r.choice(SPACES)
    return "[%s%s%s:%s%s%s]" % (s(), name, s(), s(), value, s())


def gen_name(r):
    """(name, expected) with expected a float, None (no tag) or 'ValueError'."""
    kind = r.choice(["none", "one", "one", "one", "two", "unsupported", "nonnumeric"])
    parts, exp = [r.choice(PLAIN)], None
    if kind == "one":
        t, exp = r.choice(NUMBERS)
        parts += [tag(r, "scale", t)]
    elif kind == "two":
        exp = "ValueError"
        for _ in range(2):
            parts += [tag(r, "scale", r.choice(NUMBERS)[0]), r.choice(["", "x", " ", "_"])]
    elif kind == "unsupported":
        exp = "ValueError"
        parts += [tag(r, r.choice(["foo", "Scale", "scales", "scal", "x-y", "2", "SCALE", "scale2"]), r.choice(["1", "2.5"]))]
        if r.random() < 0.3:
            parts.insert(r.choice([1, 2]), tag(r, "scale", "2"))
    elif kind == "nonnumeric":
        exp = "ValueError"
        parts += [tag(r, "scale", r.choice(["abc", "1.2.3", "1 2", "2x", "x2", "1..2", "..", ".", "nan", "inf", "NaN", "infinity", "1e999", "0x10", "e5", "1e"]))]
    tail = r.choice(["", "", "b", " ", "_2", "]x", "-"])
    # text before and after must not join into another tag
    head = parts[0] if kind == "none" else parts[0].replace("[", "(")
    return "".join([head] + parts[1:] + [tail]), exp


def gen(r, i, tier):
    k = r.random()
    if k < 0.5:
        n, e = gen_name(r)
        return {"name": n, "expect": e}
    doc = G.gen_doc(r, tags=r.choice([0.2, 0.5, 0.9]), nonimage=0.1, bones=(1, 8), slots=(1, 6), anims=(1, 2),
                    deep=r.random() < 0.3, hostile=0.1)
    if k < 0.56 and doc.get("slots"):
        for _ in range(20):
            n, e = gen_name(r)
            if e == "ValueError":
                return {"doc": doc, "bad": n, "where": r.choice(["slot", "bone"]), "ops": []}
    ops = G.gen_ops(r, doc, kinds=("anims", "skins", "clean", "scale"), n=(0, 2)) if r.random() < 0.5 else []
    return {"doc": doc, "ops": ops}


MY_TAG = re.compile(r"\[\s*scale\s*:\s*([0-9]*\.?[0-9]*(?:[eE][0-9]+)?)\s*\]")


def name_scale(n):
    m = MY_TAG.search(n)
    return float(m.group(1)) if m else 1.0


def scales(doc):
    """{image: set of scales}"""
    bones = {b["name"]: b for b in doc["bones"]}
    slot = {}
    for s in doc.get("slots", []):
        f = name_scale(s["name"])
        b = s["bone"]
        while bones[b].get("parent") is not None:
            f *= name_scale(b)
            b = bones[b]["parent"]
        slot[s["name"]] = f
    out = {}
    for sk in doc["skins"]:
        for sl, x in (sk.get("attachments") or {}).items():
            for k, a in x.items():
                if spec.atype(a) in spec.IMAGE_TYPES:
                    out.setdefault(spec.image_of(a, k), set()).add(slot[sl])
    return out


def check(case, stats):
    from spine_json_lib.utils import get_tags_from_name
    if "name" in case:
        n, e = case["name"], case["expect"]
        stats["names"] += 1
        try:
            got = get_tags_from_name(n)
        except ValueError as x:
            stats["refused"] += 1
            ensure(e == "ValueError", "name %r refused: %s", n, describe(x))
            return True
        except Exception as x:
            ensure(False, "name %r: %s", n, describe(x))
        ensure(e != "ValueError", "name %r gave %r instead of ValueError", n, got)
        ensure(got == ({} if e is None else {"scale": e}), "name %r gave tags %r", n, got)
        got.clear()   # the answer is the caller's: what becomes of it is not seen in the next one
        got["scale"] = -7.0
        again = get_tags_from_name(n)
        ensure(again == ({} if e is None else {"scale": e}), "name %r gave tags %r when asked again", n, again)
        return e is not None
    doc = case["doc"]
    if "bad" in case:
        from spine_json_lib import SpineAnimationEditor
        import copy
        doc = copy.deepcopy(doc)
        bad = case["bad"]
        doc["bones"].append({"name": bad + "b", "parent": "root"})
        doc["slots"].append({"name": bad + "s", "bone": bad + "b"} if case["where"] == "slot" else
                            {"name": "plain slot", "bone": bad + "b"})
        doc["skins"][0].setdefault("attachments", {})[doc["slots"][-1]["name"]] = {"pic": {"width": 1, "height": 1}}
        stats["bad_documents"] += 1
        try:
            with quiet():
                SpineAnimationEditor(doc)
        except ValueError:
            return True
        except Exception as x:
            ensure(False, "document with tag in name %r: %s", bad, describe(x))
        ensure(False, "document with name %r was accepted", bad)
    s = Session(doc)
    want = scales(doc)
    tagged = False
    for op in [None] + case["ops"]:
        if op is not None:
            s.do(op)
        live = scales(s.doc)
        for img, fs in live.items():
            ref = s.images.get(img)
            ensure(ref is not None, "image %r is not listed", img)
            got = ref.get("scale")
            stats["images_with_several_scales"] += len(fs) > 1
            stats["images_that_lost_a_scale"] += fs != want[img]
            if any(f != 1.0 and abs(f - 1.0) < 1e-12 for f in fs) or "scale" in ref and 0 < abs(got - 1.0) < 1e-12:
                stats["rounding_next_to_1_skipped"] += 1
                continue
            stats["images_unscaled" if fs == {1.0} else "images_scaled"] += 1
            tagged |= fs != {1.0}
            if "scale" not in ref:
                ensure(1.0 in fs, "image %r has no scale recorded, but the slots showing it have %r (after %r)", img, sorted(fs), op)
            else:
                ensure(isinstance(got, float) and got != 1.0 and any(math.isclose(got, f, rel_tol=1e-9, abs_tol=1e-12) for f in fs),
                       "image %r has scale %r recorded, but the slots showing it have %r (after %r)", img, got, sorted(fs), op)
    return tagged
