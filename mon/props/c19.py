"""C19 cleaning is complete."""
from .. import gen as G, spec
from ..monitor import (Session, atts, base, cleaning, ensure, expected_without_animations, expected_without_skins, fixture_case)

QUICK, THOROUGH = 8000, 130000
RULE = ("random documents rich in hidden, transparent, empty and unattached slots and unused attachments, under histories of cleaning "
        "operations; every surviving slot and attachment must be justified by an independent statement of the rules; non-trivial: "
        "a slot or an attachment was removed and something survived")
REQUIRED = {"distinct_nontrivial": 1200, "slots_justified": 4000, "attachments_justified": 5000, "slots_removed": 2000,
            "attachments_removed": 3000, "kept_only_as_referenced": 50}


def gen(r, i, tier):
    if i % (1000 if tier == "quick" else 2500) == 5:
        return fixture_case(r, 4, ["anims", "clean", "skins"], big=(tier != "quick"))
    o = {}
    if r.random() < 0.3:
        o = dict(slots=(3, 12), skins=(2, 4))
    return G.gen_case(r, dict(nonimage=r.choice([0, 0.1, 0.3]), anims=(1, 5), **o), kinds=("anims", "anims", "skins", "clean", "scale"),
                      n=(1, 3), safe=0.15)


def check(case, stats):
    doc = base(case)
    s = Session(doc, raw=True)
    nontrivial = False
    for op in case["ops"]:
        ev = s.do(op)
        if not cleaning(op):
            continue
        pre = ev["before"]
        if op[0] == "anims":
            pre = expected_without_animations(pre, op[1])
        elif op[0] == "skins":
            pre = expected_without_skins(pre, op[1])
        if not pre.get("animations"):
            continue
        after = ev["after"]
        vis, used = spec.visible_names(pre)
        non, refd = spec.nonimage_slots(pre), spec.referenced_slots(pre)
        A = atts(after)
        shown = {sl for _, sl, _ in A}
        keep = {x["name"] for x in after.get("slots", [])}
        for n in keep:
            if n in refd:
                stats["kept_only_as_referenced"] += n not in vis or n not in shown
                continue
            ensure(n in shown, "%r left slot %r, which has no attachment in any skin", op, n)
            ensure(n in vis or n in non, "%r left slot %r, which no animation can show", op, n)
            stats["slots_justified"] += 1
        # names a kept slot can ever show
        exempt = (non | refd) & keep
        for x in pre.get("slots", []):
            if x["name"] in exempt:
                used.add(x.get("attachment"))
                for a in pre["animations"].values():
                    used.update(k.get("name") for k in a.get("slots", {}).get(x["name"], {}).get("attachment", []))
        meshes = {k for (sk, sl, k), a in atts(pre).items() if a.get("type") == "mesh" and sl in keep}
        for (sk, sl, k), a in A.items():
            ensure(k in used or k in meshes, "%r left attachment %s/%s/%s, which no visible slot uses", op, sk, sl, k)
            stats["attachments_justified"] += 1
        gone = len(pre.get("slots", [])) - len(keep)
        stats["slots_removed"] += gone
        lost = len(atts(pre)) - len(A)
        stats["attachments_removed"] += lost
        nontrivial |= bool((gone or lost) and keep)
    return nontrivial
