"""C17 version order."""
import copy
import operator

from .. import gen as G, spec
from ..lib import quiet
from ..monitor import Skip, construct, describe, doc_diff, ensure, read

QUICK, THOROUGH = 50000, 300000
RULE = ("random triples of versions (small components that differ in one place, large components, missing patches; as "
        "SpineVersion or as text on either side), malformed version strings, and documents stripped for a random version; "
        "non-trivial: two of the versions differ, or a malformed string, or a document with control values")
REQUIRED = {"distinct_nontrivial": 2500, "comparisons": 30000, "malformed": 500, "documents": 250, "stripped_keys": 100}

OPS = {"<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge}
MALFORMED = ["", "3", "3.", ".8", "3..8", "3.8.", "3.8.1.2", "a.b", "3.x", "3.8.x", "x.3.8", " 3.8", "3.8 ", "3 .8", "3. 8",
             "3,8", "3.8-beta", "3.8.59-beta", "3.8.-1", "3.8.+5", "3.-8", "-3.8", "+3.8.1", "3.8.1_0", "3_0.8", "345.-8", "3.8\n",
             "3.8.1\n", "3.8.1e2", "3.8.0x1", "v3.8", "3.8.1.", "..", ".", "3-8", "3.8,1", "3:8", "3.8. 1", "3.8 .1", "38", "3a8"]


def version(r, base=None):
    if base is not None and r.random() < 0.6:
        t = list(base)
        i = r.randrange(3)
        t[i] = max(0, t[i] + r.choice([-1, 1, 1, 2, 10, 0]))
        return t
    k = r.random()
    if k < 0.5:
        return [r.choice([2, 3, 3, 3, 4]), r.choice([0, 6, 7, 8, 8, 8, 9, 10]), r.choice([0, 0, 1, 9, 10, 59, 75, 99])]
    if k < 0.8:
        return [r.randint(0, 12), r.randint(0, 12), r.randint(0, 12)]
    return [r.randint(0, 5), r.choice([0, 8, 999, 1000, 1001, 5000]), r.choice([0, 999, 1000, 1001, 99999, 10 ** 7])]


def text(r, t):
    if t[2] == 0 and r.random() < 0.6:
        return "%d.%d" % (t[0], t[1])
    if r.random() < 0.04:
        return "%s.%s.%s" % tuple(r.choice(["", "0", "00"]) + str(x) for x in t)
    return "%d.%d.%d" % tuple(t)


def gen(r, i, tier):
    k = r.random()
    if k < 0.1:
        m = r.choice(MALFORMED)
        if r.random() < 0.3:
            t = text(r, version(r))
            j = r.randint(0, len(t))
            m = t[:j] + r.choice([" ", "-", "_", "x", "..", "+", "\n", "\t", "e", ",", "/", "b"]) + t[j:]
        return {"malformed": m}
    if k < 0.18:
        return {"doc": G.gen_doc(r, bones=(2, 6), slots=(1, 6), anims=(1, 3)), "version": text(r, version(r))}
    a = version(r)
    b = version(r, a)
    c = version(r, b)
    return {"versions": [[t, text(r, t)] for t in (a, b, c)]}


def strip(doc):
    d = copy.deepcopy(doc)
    n = 0
    for a in d.get("animations", {}).values():
        keys = [k for g in ("bones", "slots") for tl in a.get(g, {}).values() for ks in tl.values() for k in ks]
        keys += [k for ks in a.get("ik", {}).values() for k in ks]
        for k in keys:
            for c in ("c2", "c3", "c4"):
                n += k.pop(c, None) is not None
    return d, n


def check(case, stats):
    from spine_json_lib.data.spine_version_type import SpineVersion
    if "malformed" in case:
        m = case["malformed"]
        stats["malformed"] += 1
        try:
            v = SpineVersion(m)
        except ValueError:
            pass
        except Exception as e:
            ensure(False, "version %r raised %s instead of ValueError", m, describe(e))
        else:
            ensure(False, "malformed version %r accepted as %s", m, v)
        good = SpineVersion("3.8.1")
        for name, f in OPS.items():
            for x, y in ((good, m), (m, good)):
                try:
                    got = f(x, y)
                except ValueError:
                    continue
                except Exception as e:
                    ensure(False, "%s %s %s raised %s instead of ValueError", x, name, y, describe(e))
                ensure(False, "comparison %s %s %r with a malformed version gave %r", x, name, y, got)
        return True
    if "versions" in case:
        vs = case["versions"]
        try:
            objs = [SpineVersion(t) for _, t in vs]
        except Exception as e:
            ensure(False, "version refused: %s", describe(e))
        for i, (ta, sa) in enumerate(vs):
            for j, (tb, sb) in enumerate(vs):
                for name, f in OPS.items():
                    want = f(tuple(ta), tuple(tb))
                    forms = [("SpineVersion(%r) %s SpineVersion(%r)", objs[i], objs[j]),
                             ("SpineVersion(%r) %s %r", objs[i], sb), ("%r %s SpineVersion(%r)", sa, objs[j])]
                    for label, x, y in forms:
                        try:
                            got = f(x, y)
                        except Exception as e:
                            ensure(False, (label % (sa, name, sb)) + " raised " + describe(e))
                        ensure(bool(got) == want, (label % (sa, name, sb)) + " is %r" % (got,))
                        stats["comparisons"] += 1
        return len({tuple(t) for t, _ in vs}) > 1
    doc = case["doc"]
    t = case["version"]
    nums = [int(x) for x in t.split(".")]
    ed = construct(doc)
    try:
        with quiet():
            ed.spine_anim_data.data.clean_unsupported_attributes(SpineVersion(t))
    except Exception as e:
        ensure(False, "clean_unsupported_attributes(%s) raised %s", t, describe(e))
    exp, n = strip(doc) if nums < [3, 8] else (doc, 0)
    out = read(ed)
    d = doc_diff(exp, out)
    ensure(not d, "clean_unsupported_attributes(%s): %s", t, d)
    # also when serialised for that version: nothing is stripped from 3.8 on
    stats["documents"] += 1
    stats["stripped_keys"] += n
    return bool(strip(doc)[1])
