"""C14 execution order."""
from .. import graphs
from ..monitor import describe, ensure

QUICK, THOROUGH = 90000, 300000
RULE = ("random acyclic graphs of 0-14 nodes (every density, several heads, shuffled insertion order), some of 60-200 nodes, some 1000-3000 deep; asked again "
        "after nodes and edges came and went; "
        "non-trivial: a node with two parents")
REQUIRED = {"distinct_nontrivial": 4000, "several_heads": 4000, "edges_checked": 40000, "deep_graphs": 8, "asked_again_after_a_change": 8000}


def gen(r, i, tier):
    if i % 2000 == 13:
        n = r.choice([1000, 1500, 3000])
        names = ["n%d" % k for k in range(n)]
        edges = [[a, b] for a, b in zip(names, names[1:])]
        for _ in range(r.randint(0, 20)):
            a, b = sorted(r.sample(range(n), 2))
            if b > a + 1 and [names[a], names[b]] not in edges:
                edges.append([names[a], names[b]])
        # side entries: heads that join the chain
        for k in range(r.randint(0, 5)):
            edges.append(["h%d" % k, names[r.randrange(n)]])
            names.append("h%d" % k)
        k = r.random()
        if k < 0.4:
            names.reverse()
        elif k < 0.7:
            r.shuffle(names)
        if r.random() < 0.5:
            r.shuffle(edges)
        return {"nodes": names, "edges": edges}
    if i % 100 == 7:
        n, p = r.randint(60, 200), r.choice([0.01, 0.02, 0.05])
    else:
        n, p = r.randint(0, 14), r.choice([0.1, 0.2, 0.3, 0.5, 0.8])
    if n > 20:
        names = ["n%d" % k for k in range(n)]
        edges = [[names[a], names[b]] for b in range(n) for a in range(b) if r.random() < p]
        r.shuffle(edges)
        r.shuffle(names)
        return {"nodes": names, "edges": edges}
    nodes, edges = graphs.dag(r, n, p)
    return {"nodes": nodes, "edges": edges, "odd": r.randint(1, 20) if r.random() < 0.4 else 0, "steps": graphs.gen_steps(r, nodes, edges, True) if r.random() < 0.4 else []}


def shrinkable(path):
    return path[0] in ("edges", "steps") and len(path) == 2


def ask(g, nodes, edges, stats):
    before = graphs.snapshot(g, nodes)
    try:
        out = g.sequential_order_of_execution()
    except Exception as e:
        ensure(False, "sequential_order_of_execution raised %s", describe(e))
    ensure(sorted(out) == sorted(nodes), "nodes %r, returned %r", sorted(nodes), out)
    pos = {n: i for i, n in enumerate(out)}
    for a, b in edges:
        ensure(pos[a] < pos[b], "%r comes before its parent %r in %r", b, a, out)
    ensure(before == graphs.snapshot(g, nodes), "the call changed the graph")
    stats["edges_checked"] += len(edges)
    stats["orders_checked"] += 1


def check(case, stats):
    nodes, edges = case["nodes"], case["edges"]
    g = graphs.build(nodes, edges, odd=case.get("odd", 0))
    stats["odd_nodes"] += bool(case.get("odd"))
    ask(g, nodes, edges, stats)
    stats["deep_graphs"] += len(nodes) >= 1000
    heads = len(set(nodes) - {b for _, b in edges})
    stats["several_heads"] += heads > 1
    seen = [b for _, b in edges]
    for step in case.get("steps", []):
        model = graphs.after(nodes, edges, step)
        if model is None or graphs.reach_cycle(*model):
            break                           # only a shrunken case
        graphs.apply(g, step)
        nodes, edges = model
        ask(g, nodes, edges, stats)
        stats["asked_again_after_a_change"] += 1
    return len(seen) != len(set(seen))
