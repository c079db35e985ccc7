"""C05 draw order survives slot removal."""
from .. import gen as G, spec
from ..monitor import Session, base, ensure, fixture_case

QUICK, THOROUGH = 8000, 130000
RULE = ("random documents with 2-24 slots and draw-order keyframes built from random permutations (redundant, zero and reset "
        "keys included) under histories that remove slots; each keyframe's order is computed by an independent copy of the "
        "runtime's algorithm before and after; non-trivial: a keyframe with at least one moved slot and at least one removed slot")
REQUIRED = {"distinct_nontrivial": 800, "keys_compared": 5000, "permuted_keys": 3000, "reset_keys": 200}


def gen(r, i, tier):
    if i % (1000 if tier == "quick" else 2500) == 5:
        return fixture_case(r, 4, ["anims", "clean", "skins"], big=(tier != "quick"))
    return G.gen_case(r, dict(slots=(2, r.choice([4, 6, 10, 16, 24])), anims=(1, 4), draworder=0.95, bones=(1, 3), rich=0.2,
                              constraints=0.15, nonimage=0.05),
                      kinds=("anims", "anims", "clean", "skins"), n=(1, 3), safe=0.1)


def check(case, stats):
    doc = base(case)
    s = Session(doc, raw=True)
    nontrivial = False
    for op in case["ops"]:
        ev = s.do(op)
        before, after = ev["before"], ev["after"]
        nb = [x["name"] for x in before.get("slots", [])]
        na = [x["name"] for x in after.get("slots", [])]
        ensure([n for n in nb if n in set(na)] == na, "slot order changed: %r -> %r", nb, na)
        for an, anim in after.get("animations", {}).items():
            kb = before["animations"][an].get("drawOrder", [])
            ka = anim.get("drawOrder", [])
            ensure(len(kb) == len(ka), "animation %r: %d draw-order keyframes became %d", an, len(kb), len(ka))
            for x, y in zip(kb, ka):
                tx, ty = x.get("time") or 0, y.get("time") or 0
                ensure(float(tx) == float(ty), "animation %r: keyframe time %r became %r", an, tx, ty)
                want = [n for n in spec.draw_order(nb, x) if n in set(na)]
                try:
                    got = spec.draw_order(na, y)
                except spec.Invalid as e:
                    ensure(False, "animation %r, time %r: %s (from %r, slots %r -> %r)", an, ty, e, x, nb, na)
                ensure(want == got, "animation %r, time %r: order should be %r, is %r (from %r to %r, slots %r)",
                       an, ty, want, got, x, y, nb)
                stats["keys_compared"] += 1
                moved = spec.draw_order(nb, x) != nb
                stats["permuted_keys"] += moved
                if not x.get("offsets"):
                    stats["reset_keys"] += 1
                    ensure(not y.get("offsets"), "animation %r, time %r: a reset keyframe gained offsets %r", an, ty, y)
                stats["order_changed_by_removal"] += bool(moved and len(na) < len(nb))
                nontrivial |= moved and len(na) < len(nb)
    return nontrivial
