"""C15 validation and path enumeration against brute force."""
from .. import graphs
from ..monitor import describe, ensure

QUICK, THOROUGH = 120000, 250000
RULE = ("random directed graphs of 1-8 nodes with and without cycles, several components, random node types (type strings made at "
        "run time), random start/end/depth, asked again after nodes and edges came and went; a few graphs 1000-3000 deep; non-trivial: a cycle, an unconnected head, or at least two paths")
REQUIRED = {"distinct_nontrivial": 3000, "cyclic": 1500, "acyclic": 1500, "with_unconnected": 1500, "paths_compared": 4000,
            "path_queries": 2500, "refused_queries": 1500, "deep_graphs": 15, "asked_again_after_a_change": 8000}
ROOT = "INPUT_ROOT_NODE_TYPE"


def gen(r, i, tier):
    if i % 3000 == 13:
        return gen_deep(r)
    k = r.random()
    n = r.randint(1, 8)
    if k < 0.04:
        return gen_long(r)
    if k < 0.5:
        nodes, edges = graphs.digraph(r, n, r.choice([0.1, 0.2, 0.35, 0.6]))
    else:
        nodes, edges = graphs.dag(r, n, r.choice([0.2, 0.4, 0.7, 1.0]))
    heads = set(nodes) - {b for _, b in edges}
    good = r.random() < 0.6
    types = {}
    for x in nodes:
        if x in heads and good:
            types[x] = ROOT
        else:
            types[x] = r.choice([ROOT, "ACTION_NODE_TYPE", "DEFAULT", 0, 1, 3, "", "INPUT_ROOT_NODE_TYPE2", "INPUT_ROOT_NODE", ROOT.lower(), ROOT + " ",
                                 "ROOT", "My" + ROOT])
    qs = []
    for _ in range(3):
        qs.append([r.choice(nodes), r.choice(nodes + ["missing"] if r.random() < 0.2 else nodes),
                   r.choice([None, None, 0, 1, 2, 3, 4, 5, 20])])
    return {"nodes": nodes, "edges": edges, "types": types, "queries": qs, "odd": r.randint(1, 20) if r.random() < 0.4 else 0,
            "steps": graphs.gen_steps(r, nodes, edges, False) if r.random() < 0.3 else []}


def gen_long(r):
    """A long chain with a few shortcuts and dead ends, so that depth limits (the default one too) cut paths."""
    n = r.randint(15, 32)
    nodes = ["n%d" % k for k in range(n)]
    edges = [[nodes[k], nodes[k + 1]] for k in range(n - 1)]
    for _ in range(r.randint(0, 5)):
        a, b = sorted(r.sample(range(n), 2))
        if [nodes[a], nodes[b]] not in edges:
            edges.append([nodes[a], nodes[b]])
    types = {x: r.choice([ROOT, "DEFAULT"]) for x in nodes}
    types[nodes[0]] = ROOT
    qs = []
    for _ in range(5):
        a, b = sorted([r.choice([0, 0, r.randrange(n)]), r.choice([n - 1, n - 1, 19, 20, r.randrange(n)]) % n])
        qs.append([nodes[a], nodes[b], r.choice([None, None, 0, 10, 19, 20, 21, 25, n - 1, n, n + 1])])
    order = nodes[:]
    r.shuffle(order)
    r.shuffle(edges)
    return {"nodes": order, "edges": edges, "types": types, "queries": qs}


def gen_deep(r):
    """Chains deeper than the interpreter's recursion limit, closed to a cycle or not."""
    n = r.choice([1000, 1500, 3000])
    nodes = ["n%d" % k for k in range(n)]
    edges = [[nodes[k], nodes[k + 1]] for k in range(n - 1)]
    if r.random() < 0.5:
        a = r.randrange(n - 1)
        edges.append([nodes[a], "side"])
        nodes.append("side")
        if r.random() < 0.5:
            edges.append(["side", nodes[r.randrange(a + 1, n)]])
    if r.random() < 0.4:
        a, b = sorted(r.sample(range(1, n), 2))
        edges.append([nodes[b], nodes[a]])
    types = {x: "DEFAULT" for x in nodes}
    types[nodes[0]] = ROOT
    qs = [[nodes[0], nodes[n - 1], r.choice([n - 1, n, 5000])], [nodes[0], nodes[n - 1], None],
          [nodes[r.randrange(n)], nodes[r.randrange(n)], 5000]]
    order = nodes[:]
    k = r.random()
    if k < 0.3:
        order.reverse()
    elif k < 0.6:
        r.shuffle(order)
    return {"nodes": order, "edges": edges, "types": types, "queries": qs}


def shrinkable(path):
    return path[0] in ("edges", "queries", "steps") and len(path) == 2


def check(case, stats):
    nodes, edges = case["nodes"], case["edges"]
    # type strings equal to, but not identical with, any constant of the program
    types = {k: ("".join(list(v)) if isinstance(v, str) else v) for k, v in case["types"].items()}
    g = graphs.build(nodes, edges, types, case.get("odd", 0))
    stats["odd_nodes"] += bool(case.get("odd"))
    nontrivial = ask(g, nodes, edges, types, case["queries"], stats)
    for step in case.get("steps", []):
        model = graphs.after(nodes, edges, step)
        if model is None:
            break                           # only a shrunken case
        graphs.apply(g, step)
        nodes, edges = model
        if step[0] == "+n":
            types[step[1]] = step[2]
        ask(g, nodes, edges, types, case["queries"], stats)
        stats["asked_again_after_a_change"] += 1
    return nontrivial


def ask(g, nodes, edges, types, queries, stats):
    before = graphs.snapshot(g, nodes)
    try:
        errors = g.validate().errors
    except Exception as e:
        ensure(False, "validate raised %s", describe(e))
    reach = graphs.reach_cycle(nodes, edges)
    heads = set(nodes) - {b for _, b in edges}
    lonely = {n for n in heads if types[n] != ROOT}
    got = {}
    for e in errors:
        for k, v in e.items():
            ensure(k not in got, "error %s reported twice", k)
            got[k] = v
    ensure(set(got) <= {"CIRCULAR_REFS", "UNCONNECTED_NODES"}, "unknown errors %r", got)
    ensure(("CIRCULAR_REFS" in got) == bool(reach), "nodes reaching a cycle: %r, reported: %r", sorted(reach), got.get("CIRCULAR_REFS"))
    if reach:
        ensure(set(got["CIRCULAR_REFS"]) <= reach and got["CIRCULAR_REFS"], "nodes reaching a cycle: %r, reported: %r",
               sorted(reach), got["CIRCULAR_REFS"])
    rep = list(got.get("UNCONNECTED_NODES", []))
    ensure(sorted(rep) == sorted(lonely), "unconnected nodes %r, reported %r", sorted(lonely), rep)
    stats["cyclic" if reach else "acyclic"] += 1
    stats["deep_graphs"] += len(nodes) >= 1000
    stats["with_unconnected"] += bool(lonely)
    several = False
    for a, b, limit in queries:
        kw = {} if limit is None else {"maximum_depth": limit}
        try:
            paths, err = g.get_all_paths(a, b, **kw), None
        except Exception as e:
            paths, err = None, e
        if reach or lonely or a not in nodes or b not in nodes:
            stats["refused_queries"] += 1
            ensure(err is not None, "paths %r -> %r of an invalid graph or with an unknown node: %r", a, b, paths)
            ensure(isinstance(err, ValueError), "paths %r -> %r raised %s", a, b, describe(err))
            continue
        ensure(err is None, "paths %r -> %r raised %s", a, b, err and describe(err))
        want = sorted(graphs.simple_paths(edges, a, b, 20 if limit is None else limit))
        ensure(sorted(paths) == want, "paths %r -> %r (limit %r): should be %r, are %r", a, b, limit, want, sorted(paths))
        stats["path_queries"] += 1
        stats["paths_compared"] += len(want)
        several |= len(want) > 1
    ensure(before == graphs.snapshot(g, nodes), "validation or path search changed the graph")
    return bool(reach or lonely or several)
