"""C08 removes only what it reports."""
import copy

from .. import gen as G, spec
from ..monitor import (Session, atts, base, cleaning, doc_diff, ensure, expected_without_animations,
                       expected_without_skins, fixture_case)

QUICK, THOROUGH = 8000, 130000
RULE = ("random documents under histories of erase/clean operations, strict or not, safe or not; for every operation the "
        "document after must equal the document before minus the named and the reported parts; non-trivial: the operation "
        "removed something")
REQUIRED = {"distinct_nontrivial": 1000, "safe_ops": 800, "cleaning_ops": 1500, "slots_removed": 800,
            "attachments_removed": 300, "unknown_ignored": 200}


def gen(r, i, tier):
    if i % (1000 if tier == "quick" else 2500) == 5:
        return fixture_case(r, 4, ["anims", "clean", "skins"], big=(tier != "quick"))
    o = {}
    if r.random() < 0.3:
        o = dict(slots=(3, 12), skins=(2, 4), anims=(1, 5))
    return G.gen_case(r, dict(nonimage=r.choice([0, 0.1, 0.3]), **o), kinds=("anims", "anims", "skins", "clean"), n=(1, 3),
                      safe=0.35, keep_anim=r.random() < 0.6)


def frame(exp, after, removed, stats):
    """after must be exp minus the slots `removed` and minus some attachments."""
    exp = copy.deepcopy(exp)
    keep = atts(after)
    exp["slots"] = [x for x in exp.get("slots", []) if x["name"] not in removed]
    for sk in exp.get("skins", []):
        for sl in list(sk.get("attachments") or {}):
            if sl in removed:
                del sk["attachments"][sl]
                continue
            for k in list(sk["attachments"][sl]):
                if (sk["name"], sl, k) not in keep:
                    del sk["attachments"][sl][k]
                    stats["attachments_removed"] += 1
    after = copy.deepcopy(after)
    for an, a in exp.get("animations", {}).items():
        a["slots"] = {k: v for k, v in a.get("slots", {}).items() if k not in removed}
        for sk, y in a.get("deform", {}).items():
            for sl in list(y):
                y[sl] = {k: v for k, v in y[sl].items() if (sk, sl, k) in keep}
        b = after.get("animations", {}).get(an)
        if b is None:
            continue
        # which offsets are needed is decided by C05; here: same keyframes, offsets only of surviving slots
        for x in a.get("drawOrder", []) + b.get("drawOrder", []):
            for o in x.get("offsets") or []:
                if x in b.get("drawOrder", []):
                    ensure(o.get("slot") not in removed, "draw order of %r still names removed slot %r", an, o.get("slot"))
            x["offsets"] = []
    return doc_diff(exp, after)


def check(case, stats):
    doc = base(case)
    s = Session(doc, raw=True)
    nontrivial = False
    for op in case["ops"]:
        ev = s.do(op)
        before, after, value = ev["before"], ev["after"], ev["value"]
        exp = before
        removed, removed_atts = [], []
        if op[0] == "anims":
            known = before.get("animations", {})
            stats["unknown_ignored"] += any(n not in known for n in op[1])
            exp = expected_without_animations(before, op[1])
            ensure(spec.same(value.result_data_json, after), "the returned document is not what the editor serialises: %s",
                   spec.Diff(value.result_data_json, after))
            removed, removed_atts = value.result_summary
        elif op[0] == "skins":
            exp = expected_without_skins(before, op[1])
            removed, removed_atts = value[0]
        elif op[0] == "clean":
            removed, removed_atts = value
        removed, removed_atts = list(removed), list(removed_atts)
        if not cleaning(op):
            stats["safe_ops"] += 1
            d = doc_diff(exp, after)
            ensure(not d, "%r in safe mode changed more than the named parts: %s", op, d)
            ensure(not removed and not removed_atts, "%r in safe mode reports removals %r", op, (removed, removed_atts))
        else:
            stats["cleaning_ops"] += 1
            gone = {x["name"] for x in before.get("slots", [])} - {x["name"] for x in after.get("slots", [])}
            ensure(gone == set(removed), "%r: slots removed %r, reported %r", op, sorted(gone), sorted(set(removed), key=str))
            stats["slots_removed"] += len(gone)
            d = frame(exp, after, gone, stats)
            ensure(not d, "%r changed something that survives: %s", op, d)
            for (sk, sl, k) in set(atts(exp)) - set(atts(after)):
                ensure(sl in gone or k in removed_atts, "%r: attachment %s/%s/%s removed but not reported", op, sk, sl, k)
        nontrivial |= not spec.same(before, after)
    return nontrivial
