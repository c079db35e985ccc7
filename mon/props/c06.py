"""C06 images_references is exactly the images in use."""
import os

from .. import gen as G, spec
from ..monitor import Session, base, ensure, fixture_case, without_skins

QUICK, THOROUGH = 8400, 140000
RULE = ("random documents whose attachments share names and image paths across slots and skins, under histories of erase/clean "
        "operations; the image list is recomputed independently from the serialised document after every operation; "
        "non-trivial: the image list changed")
REQUIRED = {"distinct_nontrivial": 700, "lists_compared": 8000, "images_listed": 15000, "skin_reports": 1000}


def gen(r, i, tier):
    if i % (1000 if tier == "quick" else 2500) == 5:
        return fixture_case(r, 4, ["anims", "clean", "skins"], big=(tier != "quick"))
    o = dict(skins=(1, 5), slots=(1, 8))
    return G.gen_case(r, dict(nonimage=r.choice([0, 0.1, 0.4]), **o), kinds=("anims", "skins", "skins", "clean"), n=(1, 4),
                      safe=0.4, keep_anim=r.random() < 0.6)


def listed(s, doc, images, what, stats):
    ensure(isinstance(images, dict), "images_references is %r", type(images))
    want = spec.images_of(doc)
    got = set(images)
    ensure(want == got, "%s: images_references lacks %r and lists unused %r", what, sorted(want - got, key=str),
           sorted(got - want, key=str))
    folder = doc["skeleton"].get("images", "./images/")
    for k, v in images.items():
        ensure(v.get("path") == os.path.join(folder, k), "%s: image %r has path %r", what, k, v.get("path"))
    stats["lists_compared"] += 1
    stats["images_listed"] += len(images)


def check(case, stats):
    doc = base(case)
    s = Session(doc)
    listed(s, doc, s.images, "after loading", stats)
    listed(s, s.doc, s.images, "after loading", stats)
    changed = False
    for op in case["ops"]:
        ev = s.do(op)
        listed(s, ev["after"], ev["iafter"], "after %r" % (op,), stats)
        changed |= set(ev["ibefore"]) != set(ev["iafter"])
        if op[0] == "skins":
            rep = ev["value"][1]
            gone = spec.images_of(ev["before"], skins=op[1]) - spec.images_of(without_skins(ev["before"], op[1]))
            ensure(all(isinstance(x, str) for x in rep), "erase_skins reported %r", rep)
            ensure(set(rep) == gone, "%r reported images %r, but exactly %r are no longer used", op, sorted(set(rep)), sorted(gone))
            stats["skin_reports"] += 1
            stats["images_reported"] += len(gone)
    return changed
