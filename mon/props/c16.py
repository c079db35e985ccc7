"""C16 document and node graph."""
import copy
import json

from .. import gen as G, spec
from ..monitor import copied, describe, ensure

QUICK, THOROUGH = 32000, 180000
RULE = ("random documents whose names repeat across kinds of element and end in (or contain) type suffixes; the graph is explored "
        "through its public queries and compared with nodes and edges computed from the document, converted back, and then put "
        "through random sequences of removals against a set model, reported names included; non-trivial: at least three kinds of "
        "edges exist and a removal removed something")
REQUIRED = {"distinct_nontrivial": 1500, "nodes_compared": 50000, "edges_compared": 50000, "removals": 5000, "names_reported": 8000,
            "conversions": 4000, "copies_attempted": 1000}
TYPES = ("BONE", "SLOT", "ATTACHMENT", "IMAGE", "IK")
FREE_OPS = True


def gen(r, i, tier):
    doc = G.gen_doc(r, hostile=0.9, nonimage=r.choice([0, 0.2, 0.5]), anims=(0, 0), common_names=3, constraints=0.7)
    # share names between kinds
    if r.random() < 0.6:
        pool = [b["name"] for b in doc["bones"]]
        ren = {}
        for s in doc.get("slots", []):
            n = r.choice(pool) + r.choice(["", "", "_SLOT", "_ATTACHMENT", "_IMAGE"])
            if n not in ren.values() and n not in [x["name"] for x in doc["slots"]] and r.random() < 0.5:
                ren[s["name"]] = n
        for s in doc.get("slots", []):
            s["name"] = ren.get(s["name"], s["name"])
        for sk in doc["skins"]:
            if "attachments" in sk:
                sk["attachments"] = {ren.get(k, k): v for k, v in sk["attachments"].items()}
                for x in sk["attachments"].values():
                    for a in x.values():
                        if "end" in a:
                            a["end"] = ren.get(a["end"], a["end"])
        for p in doc.get("path", []):
            p["target"] = ren.get(p["target"], p["target"])
    rem = []
    slots = [s["name"] for s in doc.get("slots", [])]
    keys = sorted({k for sk in doc["skins"] for x in (sk.get("attachments") or {}).values() for k in x})
    for _ in range(r.randint(1, 4)):
        k = r.choice(["slots", "atts", "leafs", "heads"])
        if k == "slots":
            rem.append([k, r.sample(slots, r.randint(0, len(slots)))])
        elif k == "atts":
            rem.append([k, r.sample(keys, r.randint(0, len(keys)))])
        else:
            rem.append([k, r.choice(TYPES)])
            if k == "leafs" and r.random() < 0.4:
                names = sorted({x["name"] for p in ("bones", "slots", "ik") for x in doc.get(p, [])} | set(keys) | {"nobody"})
                rem[-1].append(r.sample(names, r.randint(0, len(names))))
    case = {"doc": doc, "removals": rem}
    if r.random() < 0.2:
        case["copied"] = r.choice(["copy.deepcopy", "pickle"])
    return case


def shrinkable(path):
    return path[0] == "removals" and len(path) == 2


def expected(doc):
    nodes, edges = set(), set()
    for b in doc["bones"]:
        nodes.add((b["name"], "BONE"))
        if b.get("parent") is not None:
            edges.add(((b["parent"], "BONE"), (b["name"], "BONE")))
    for s in doc.get("slots", []):
        nodes.add((s["name"], "SLOT"))
        edges.add(((s["bone"], "BONE"), (s["name"], "SLOT")))
    for sk in doc["skins"]:
        for sl, x in (sk.get("attachments") or {}).items():
            for k, a in x.items():
                nodes.add((k, "ATTACHMENT"))
                edges.add(((sl, "SLOT"), (k, "ATTACHMENT")))
                if spec.atype(a) in spec.IMAGE_TYPES:
                    img = spec.image_of(a, k)
                    nodes.add((img, "IMAGE"))
                    edges.add(((k, "ATTACHMENT"), (img, "IMAGE")))
    for c in doc.get("ik", []):
        nodes.add((c["name"], "IK"))
        edges.add(((c["target"], "BONE"), (c["name"], "IK")))
        for b in c["bones"]:
            edges.add(((c["name"], "IK"), (b, "BONE")))
    return nodes, edges


def gid(n):
    return "%s_%s" % n


def compare(g, nodes, edges, gone, what, stats):
    for n in nodes:
        x = g.get_node(gid(n))
        ensure(x is not None, "%s: no node %r", what, gid(n))
        ensure(x.node_type == n[1], "%s: node %r has type %r", what, gid(n), x.node_type)
        kids = sorted(gid(b) for a, b in edges if a == n)
        ensure(sorted(x.children) == kids, "%s: children of %r should be %r, are %r", what, gid(n), kids, sorted(x.children))
        par = sorted(gid(a) for a, b in edges if b == n)
        ensure(sorted(x.parents) == par, "%s: parents of %r should be %r, are %r", what, gid(n), par, sorted(x.parents))
        stats["nodes_compared"] += 1
        stats["edges_compared"] += len(kids)
    for n in gone:
        ensure(g.get_node(gid(n)) is None, "%s: node %r is still there", what, gid(n))
    heads = sorted(gid(n) for n in nodes if not any(b == n for _, b in edges))
    tails = sorted(gid(n) for n in nodes if not any(a == n for a, _ in edges))
    ensure(sorted(g.get_heads_id()) == heads, "%s: heads should be %r, are %r", what, heads, sorted(g.get_heads_id()))
    ensure(sorted(g.get_tails_id()) == tails, "%s: tails should be %r, are %r", what, tails, sorted(g.get_tails_id()))
    # nothing beside the model is reachable
    seen, todo = set(), list(heads) + [gid(n) for n in nodes]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(g.get_node(x).children)
    ensure(seen == {gid(n) for n in nodes}, "%s: unexpected nodes %r", what, sorted(seen - {gid(n) for n in nodes}))


def convert(g, doc, nodes, what, stats):
    from spine_json_lib.deserializer.spine_nodes import SpineGraphParser
    try:
        data = g.to_json_data(SpineGraphParser)
        again = json.loads(g.to_json(SpineGraphParser))
    except Exception as e:
        ensure(False, "%s: converting the graph back failed: %s", what, describe(e))
    for part, ty in (("bones", "BONE"), ("slots", "SLOT"), ("ik", "IK")):
        want = [x for x in doc.get(part, []) if (x["name"], ty) in nodes]
        ensure(spec.same(want, data[part]), "%s: %s of the graph: %s", what, part, spec.Diff(want, data[part]))
        ensure(spec.same(want, again[part]), "%s: %s of the serialised graph: %s", what, part, spec.Diff(want, again[part]))
    stats["conversions"] += 1


def check(case, stats):
    from spine_json_lib.spine_graph_container import SpineGraphContainer
    doc = case["doc"]
    given = copy.deepcopy(doc)
    try:
        c = SpineGraphContainer(given)
    except Exception as e:
        ensure(False, "building the graph of a supported document failed: %s", describe(e))
    ensure(spec.same(given, doc), "building the graph changed the document: %s", spec.Diff(doc, given))
    nodes, edges = expected(doc)
    if case.get("copied"):
        c = copied(c, case["copied"], stats) or c
    compare(c.graph, nodes, edges, (), "new graph", stats)
    convert(c.graph, doc, nodes, "new graph", stats)
    ensure(spec.same(given, doc), "converting the graph changed the document")
    removed_any = False
    gone = set()
    for kind, arg, *keep in case["removals"]:
        keep = keep[0] if keep else ()
        what = "after %s %r%s" % (kind, arg, keep and " but %r" % (keep,) or "")
        if kind in ("slots", "atts"):
            ty = {"slots": "SLOT", "atts": "ATTACHMENT"}[kind]
            now = [(n, ty) for n in arg if (n, ty) in nodes]
            try:
                got = (c.remove_slots if kind == "slots" else c.remove_attachments)([n for n, _ in now])
            except Exception as e:
                ensure(False, "%s: %s", what, describe(e))
            ensure(sorted(x.id for x in got) == sorted(gid(n) for n in now), "%s: returned %r", what, [x.id for x in got])
            rem = set(now)
            stats["names_reported"] += len(rem)
        else:
            rem = set()
            while True:
                left = nodes - rem
                if kind == "leafs":
                    step = {n for n in left if n[1] == arg and not any(a == n and b in left for a, b in edges)}
                else:
                    step = {n for n in left if n[1] == arg and not any(b == n and a in left for a, b in edges)}
                if not rem:
                    now = (c.get_leafs_of_type if kind == "leafs" else c.get_heads_with_type)(arg)
                    ensure(sorted(now) == sorted(gid(n) for n in step), "before %s %r: %s are %r, should be %r", kind, arg, kind,
                           sorted(now), sorted(gid(n) for n in step))
                    stats["leafs_and_heads_listed"] += 1
                step = {n for n in step if n[0] not in keep}
                if not step:
                    break
                rem |= step
            try:
                name = "".join(list(arg))    # (equal to the type, not the same object)
                got = (c.remove_leafs_of_type(name, keep) if keep else c.remove_leafs_of_type(name)) if kind == "leafs" else c.remove_heads_of_type(name)
            except Exception as e:
                ensure(False, "%s: %s", what, describe(e))
            ensure(sorted(got) == sorted(n for n, _ in rem), "%s: should report %r, reports %r", what, sorted(n for n, _ in rem),
                   sorted(got))
            stats["names_reported"] += len(rem)
        nodes = nodes - rem
        gone |= rem
        edges = {(a, b) for a, b in edges if a in nodes and b in nodes}
        stats["removals"] += 1
        removed_any |= bool(rem)
        compare(c.graph, nodes, edges, gone, what, stats)
        convert(c.graph, doc, nodes, what, stats)
    return removed_any and len({(a[1], b[1]) for a, b in expected(doc)[1]}) >= 3
