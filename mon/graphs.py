"""Random graphs and a set-of-nodes/set-of-edges model."""
from .gen import Names, twin


def ids(r, n):
    """n distinct node names, some of which look like generated ids or like each other."""
    out = []
    names = Names(r, 0.4)
    while len(out) < n:
        if r.random() < 0.2:
            x = twin(r, r.choice(out)) if out and r.random() < 0.3 else names.one()
            if x not in out:
                out.append(x)
            continue
        x = r.choice(["n%d" % r.randint(0, 99), str(r.randint(1, 12)), "a" * r.randint(1, 4), "é%d" % r.randint(0, 9), "x y", "",
                      "A", "BONE", "1 ", "01", "parents", "None", "é", "e\u0301", "ß", "ss", "\u212b", "\u00c5"])
        if x not in out:
            out.append(x)
    return out


def dag(r, n, p, heads=1):
    """(nodes in insertion order, edges in insertion order) of a random acyclic graph."""
    order = ids(r, n)
    edges = []
    for j in range(n):
        for i in range(j):
            if r.random() < p:
                edges.append([order[i], order[j]])
    nodes = order[:]
    r.shuffle(nodes)
    r.shuffle(edges)
    return nodes, edges


def digraph(r, n, p):
    nodes = ids(r, n)
    edges = [[a, b] for a in nodes for b in nodes if a != b and r.random() < p]
    r.shuffle(edges)
    return nodes, edges


TYPES = ["DEFAULT", "BONE", 0, 7, ""]


def build(nodes, edges, types=None, odd=0):
    """odd > 0: nodes that share public ids, data and types, or carry the id of another node as public id."""
    from spine_json_lib.graph.dagraph import DAGraph
    g = DAGraph()
    for i, n in enumerate(nodes):
        if odd:
            pub = [None, "public", n, nodes[(i + odd) % len(nodes)], "public", ""][(i * odd + i // 3) % 6]
            g.add_node(node_id=n, node_type=types[n] if types else TYPES[(i + odd) % 5], public_id=pub,
                       node_data=[None, {"v": 1}, {}, [nodes[0]], 0][(i + 2 * odd) % 5])
        elif types:
            g.add_node(node_id=n, node_type=types[n])
        else:
            g.add_node(node_id=n)
    for a, b in edges:
        g.add_edge(a, b)
    return g


def kids(edges):
    out = {}
    for a, b in edges:
        out.setdefault(a, set()).add(b)
    return out


def reach_cycle(nodes, edges):
    """Nodes from which a directed cycle can be reached."""
    k = kids(edges)
    left = {n: len(k.get(n, ())) for n in nodes}
    above = {}
    for a, bs in k.items():
        for b in bs:
            above.setdefault(b, []).append(a)
    dead = [n for n, c in left.items() if not c]
    while dead:
        d = dead.pop()
        del left[d]
        for a in above.get(d, ()):
            left[a] -= 1
            if not left[a]:
                dead.append(a)
    return set(left)


def simple_paths(edges, a, b, limit):
    k = kids(edges)
    out = []

    todo = [[a]]
    while todo:
        path = todo.pop()
        if len(path) > limit:
            continue
        if path[-1] == b:
            out.append(path)
            continue
        todo.extend(path + [c] for c in k.get(path[-1], ()) if c not in path)
    return out


def snapshot(g, nodes):
    """Public view of a graph."""
    out = {}
    for n in nodes:
        x = g.get_node(n)
        out[n] = None if x is None else (sorted(x.children), sorted(x.parents), x.node_type, x.num_children, x.num_parents)
    return out


def gen_steps(r, nodes, edges, acyclic, n=(1, 4)):
    """Changes to make between questions: [["-n", id], ["+n", id, type], ["+e", a, b], ["-e", a, b]]."""
    nodes, edges, steps = list(nodes), [list(e) for e in edges], []
    new = 0
    for _ in range(r.randint(*n)):
        k = r.random()
        if k < 0.3 and edges:
            steps.append(["-e"] + r.choice(edges))
        elif k < 0.45 and nodes:
            steps.append(["-n", r.choice(nodes)])
        elif k < 0.6:
            steps.append(["+n", "new%d" % new, r.choice(["DEFAULT", "INPUT_ROOT_NODE_TYPE"])])
            new += 1
        elif len(nodes) > 1:
            a, b = r.sample(nodes, 2)
            if acyclic and a in reachable(edges, b):
                a, b = b, a
            steps.append(["+e", a, b])
        else:
            continue
        nodes, edges = after(nodes, edges, steps[-1])
    return steps


def reachable(edges, a):
    k, out, todo = kids(edges), {a}, [a]
    while todo:
        for b in k.get(todo.pop(), ()):
            if b not in out:
                out.add(b)
                todo.append(b)
    return out


def after(nodes, edges, step):
    """The model after a change, or None if it is not a legal one (in a shrunken case)."""
    kind, a = step[0], step[1:]
    if kind == "-n":
        return ([n for n in nodes if n != a[0]], [e for e in edges if a[0] not in e]) if a[0] in nodes else None
    if kind == "+n":
        return (nodes + [a[0]], edges) if a[0] not in nodes else None
    if kind == "-e":
        return (nodes, [e for e in edges if e != a]) if a in edges else None
    if a[0] not in nodes or a[1] not in nodes:
        return None
    return nodes, edges + ([a] if a not in edges else [])


def apply(g, step):
    kind, a = step[0], step[1:]
    if kind == "-n":
        g.remove_node_by_id(a[0])
    elif kind == "+n":
        g.add_node(node_id=a[0], node_type=a[1])
    elif kind == "-e":
        g.remove_edge(*a)
    else:
        g.add_edge(*a)
