"""C01 lossless round trip."""
import copy
import json

from .. import gen as G, spec
from ..monitor import FIXTURES, base, construct, doc_diff, ensure, read

QUICK, THOROUGH = 5200, 90000
RULE = ("seeded random supported Spine 3.8 documents (every supported attribute present/absent/equal to a default) and "
        "the repository's real documents; non-trivial: at least 3 bones+slots+animations")
REQUIRED = {"distinct_nontrivial": 800}


def gen(r, i, tier):
    if i in (3, 11, 21):
        return {"fixture": FIXTURES[(i // 8) % 3]}
    o = {}
    if r.random() < 0.2:
        o = dict(bones=(6, 25), slots=(6, 25), skins=(1, 6), anims=(1, 6))
    if r.random() < 0.2:
        o["tags"] = 0.3
    return {"doc": G.gen_doc(r, rich=r.choice([0.5, 1.0]), extras=0.2, **o)}


def check(case, stats):
    doc = base(case)
    keep = copy.deepcopy(doc)
    ed = construct(doc)
    out = read(ed)
    try:
        text = json.dumps(out)
    except (TypeError, ValueError) as e:
        ensure(False, "the serialised document is not JSON: %s", e)
    out = json.loads(text)
    d = doc_diff(keep, out)
    ensure(not d, "round trip changed the document: %s", d)
    ensure(spec.same(out.get("skeleton"), keep["skeleton"]), "skeleton block changed: %s",
           spec.diff(keep["skeleton"], out.get("skeleton")))
    again = read(construct(out))
    ensure(spec.same(out, again), "serialising the reloaded output differs: %s", spec.Diff(out, again))
    ensure(spec.same(json.loads(json.dumps(read(ed))), out), "a second read of the same editor differs")
    stats["values_compared"] += text.count(":")
    stats["omitted_defaults"] += json.dumps(keep).count(":") - text.count(":")
    return len(doc.get("bones", [])) + len(doc.get("slots", [])) + len(doc.get("animations", {})) >= 3


