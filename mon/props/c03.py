"""C03 erasing animations preserves the rendering of the others."""
from .. import gen as G, spec
from ..monitor import Session, base, ensure, fixture_case

QUICK, THOROUGH = 7200, 110000
RULE = ("random supported documents (and the repository's real documents) with histories of animation erasing; every frame "
        "of every remaining animation and skin is compared with the original through an independent renderer; non-trivial: "
        "at least one frame draws something and the operation changed the document beyond the named animations or erased one")
REQUIRED = {"distinct_nontrivial": 500, "frames_compared": 20000, "pictures_drawn": 20000, "slots_removed": 300}


def gen(r, i, tier):
    if i % (900 if tier == "quick" else 2000) == 5:
        return fixture_case(r, 4, ["anims", "clean"], big=(tier != "quick"))
    o = {}
    if r.random() < 0.25:
        o = dict(slots=(4, 14), skins=(1, 5), anims=(2, 6))
    o.setdefault("anims", (1, 5))
    return G.gen_case(r, dict(nonimage=r.choice([0, 0.1, 0.3]), **o), kinds=("anims", "anims", "anims", "clean"), n=(1, 3), safe=0.1)


def check(case, stats):
    doc = base(case)
    s = Session(doc)
    erased = False
    if "fixture" in case:
        stats["real_documents"] += 1
    for op in case["ops"]:
        ev = s.do(op)
        after = ev["after"]
        stats["operations"] += 1
        stats["slots_removed"] += len(doc.get("slots", [])) - len(after.get("slots", []))
        erased |= bool(ev["op"][0] == "anims" and ev["op"][1])
        for part in ("bones", "ik", "transform", "path", "events"):
            a, b = spec.canon(doc)[part], spec.canon(after)[part]
            ensure(spec.same(a, b), "%s changed by %r: %s", part, op, spec.Diff(a, b))
        ca, cb = spec.canon(doc)["animations"], spec.canon(after)["animations"]
        for an, b in cb.items():
            a = ca.get(an)
            ensure(a is not None, "animation %r appeared", an)
            for part in ("bones", "ik", "transform", "path", "events"):
                ensure(spec.same(a.get(part), b.get(part)), "animation %r: %s timelines changed by %r: %s", an, part, op,
                       spec.Diff(a.get(part), b.get(part)))
        names = [x["name"] for x in doc.get("skins", [])]
        ensure(names == [x["name"] for x in after.get("skins", [])], "skins changed: %r", names)
        try:
            d, n, drawn = spec.compare_scenes(doc, after)
        except spec.Invalid as e:
            ensure(False, "after %r: %s", op, e)
        stats["frames_compared"] += n
        stats["pictures_drawn"] += drawn
        ensure(d is None, "after %r: %s", op, d)
    return bool(stats["pictures_drawn"]) and (erased or len(doc.get("slots", [])) != len(s.doc.get("slots", [])))


