"""C07 erasing skins leaves the others rendering the same."""
from .. import gen as G, spec
from ..monitor import (Session, atts, base, cleaning, converted_links, doc_diff, ensure, expected_without_skins,
                       fixture_case)

QUICK, THOROUGH = 7200, 110000
RULE = ("random documents with several skins and linked meshes pointing into the default or other skins, under histories of "
        "skin erasing; non-trivial: a skin was erased and (a linked mesh had to be converted or something is drawn)")
REQUIRED = {"distinct_nontrivial": 800, "skins_removed": 1500, "links_converted": 300, "frames_compared": 20000}


def gen(r, i, tier):
    if i % (900 if tier == "quick" else 2500) == 5:
        return fixture_case(r, 3, ["skins"], big=(tier != "quick"), safe=0.4)
    o = dict(skins=(2, 5), slots=(1, 6), anims=(1, 4))
    return G.gen_case(r, dict(nonimage=r.choice([0, 0.1, 0.3]), missing=0.05, **o), kinds=("skins", "skins", "skins", "anims"),
                      n=(1, 3), safe=0.45)


def check(case, stats):
    doc = base(case)
    s = Session(doc, raw=True)
    nontrivial = False
    for op in case["ops"]:
        ev = s.do(op)
        if op[0] != "skins":
            continue
        before, after = ev["before"], ev["after"]
        want = [x["name"] for x in before["skins"] if x["name"] not in op[1]]
        got = [x["name"] for x in after.get("skins", [])]
        ensure(want == got, "skins should be %r, are %r", want, got)
        stats["skins_removed"] += len(before["skins"]) - len(want)
        links = converted_links(before, op[1])
        stats["links_converted"] += len(links)
        exp = expected_without_skins(before, op[1])
        if not cleaning(op):
            d = doc_diff(exp, after)
            ensure(not d, "%r: %s", op, d)
        A = atts(after)
        E = atts(exp)
        for sk, sl, k, ps, parent, link in links:
            if (sk, sl, k) in A:
                d = spec.diff(spec.canon_att(E[sk, sl, k], k), spec.canon_att(A[sk, sl, k], k))
                ensure(not d, "linked mesh %s/%s/%s (parent in erased skin %r) converted wrongly: %s", sk, sl, k, ps, "; ".join(d))
        for an, a in after.get("animations", {}).items():
            for sk, y in a.get("deform", {}).items():
                ensure(sk not in op[1] or not any(y.values()), "animation %r keeps deform timelines of erased skin %r", an, sk)
            for sk, y in exp["animations"][an].get("deform", {}).items():
                for sl, z in y.items():
                    for k, keys in z.items():
                        if keys and (sk, sl, k) in A:
                            g = a.get("deform", {}).get(sk, {}).get(sl, {}).get(k)
                            ensure(spec.same([spec.fill_key(x, "deform") for x in keys],
                                             [spec.fill_key(x, "deform") for x in g or []]),
                                   "animation %r: deform timeline %s/%s/%s of a remaining skin changed", an, sk, sl, k)
                            stats["deforms_compared"] += 1
        try:
            d, n, drawn = spec.compare_scenes(exp, after)
        except spec.Invalid as e:
            ensure(False, "after %r: %s", op, e)
        ensure(d is None, "after %r: %s", op, d)
        stats["frames_compared"] += n
        nontrivial |= len(want) < len(before["skins"]) and bool(links or drawn)
    return nontrivial
