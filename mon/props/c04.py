"""C04 every edited document stays loadable."""
import json

from .. import gen as G, spec
from ..monitor import Session, base, construct, doc_diff, ensure, fixture_case, read

QUICK, THOROUGH = 6800, 120000
RULE = ("random supported documents under random histories of erase/clean/scale operations; after every operation the result "
        "is loaded by an independent reference checker and by the library; non-trivial: something was removed")
REQUIRED = {"distinct_nontrivial": 1000, "states_checked": 4000, "slots_removed": 1000, "skins_removed": 500}


def gen(r, i, tier):
    if i % (1000 if tier == "quick" else 2500) == 5:
        return fixture_case(r, 4, ["anims", "clean", "skins"], big=(tier != "quick"))
    o = {}
    if r.random() < 0.25:
        o = dict(slots=(4, 14), skins=(2, 5), anims=(1, 5))
    return G.gen_case(r, dict(nonimage=r.choice([0, 0.1, 0.4]), **o), n=(1, 4), keep_anim=r.random() < 0.7)


def check(case, stats):
    doc = base(case)
    s = Session(doc)
    removed = False
    for op in [None] + case["ops"]:
        if op is None:
            after = s.doc
        else:
            ev = s.do(op)
            before, after = ev["before"], ev["after"]
            stats["op_" + op[0]] += 1
            stats["slots_removed"] += len(before.get("slots", [])) - len(after.get("slots", []))
            stats["skins_removed"] += len(before.get("skins", [])) - len(after.get("skins", []))
            removed |= not spec.same(before, after)
        try:
            spec.load(json.loads(json.dumps(after)))
        except spec.Invalid as e:
            ensure(False, "after %r a runtime refuses the document: %s", op, e)
        except (KeyError, TypeError, AttributeError) as e:
            ensure(False, "after %r the document is malformed: %r", op, e)
        back = read(construct(after))
        d = doc_diff(after, back)
        ensure(not d, "after %r the library reloads the document differently: %s", op, d)
        stats["states_checked"] += 1
    return removed
