"""C11 determinism."""
import json
import os
import random
import shutil
import subprocess
import tempfile

from .. import gen as G, lib, spec
from ..monitor import Session, ensure
from ..runner import PY, ROOT

QUICK, THOROUGH = 205, 5000
BATCH = 7
NO_SHRINK = True
RULE = ("batches of random documents and histories, each run in three fresh processes with different hash seeds, one of them "
        "under the C locale with the library's messages going to a real ASCII pipe: serialised text, image references and "
        "summaries must be identical at every step; and, in one process, the same history on a document with shuffled object "
        "members and with permuted request lists must mean the same; non-trivial: an operation removed something")
REQUIRED = {"distinct_nontrivial": 100, "processes": 300, "states_compared_across_processes": 3000, "shuffled_documents": 700,
            "permuted_requests": 120, "non_ascii_documents": 200}


def gen(r, i, tier):
    batch = []
    for _ in range(BATCH):
        doc = G.gen_doc(r, nonimage=r.choice([0, 0.1, 0.3]), slots=(2, 10), skins=(1, 5), anims=(1, 5), tags=r.choice([0, 0, 0.6]))
        ops = G.gen_ops(r, doc, n=(1, 4), safe=0.2)
        batch.append({"doc": doc, "ops": ops})
    return {"batch": batch, "plan": r.randrange(10 ** 9)}


def check(case, stats):
    r = random.Random(case["plan"])
    batch = case["batch"]
    tmp = tempfile.mkdtemp(prefix="verif-c11-")
    try:
        src = os.path.join(tmp, "in.json")
        with open(src, "w", encoding="utf-8") as f:
            json.dump(batch, f)
        procs = []
        for k in range(3):
            env = dict(os.environ, PYTHONHASHSEED=str([0, r.randrange(1, 2 ** 32), r.randrange(1, 2 ** 32)][k]), PYTHONPATH=ROOT)
            if k == 1:
                env.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
                env.pop("PYTHONIOENCODING", None)
            if k == 2:
                env.update(TZ="Asia/Kolkata", HOME=tmp, USER="nobody", PYTHONMALLOC="malloc", MON_CLUTTER="1")
            out = os.path.join(tmp, "out%d.json" % k)
            procs.append((subprocess.Popen([PY] + (["-O"] if k == 2 else []) + ["-m", "mon.child", lib.REPO, src, out],
                                           cwd=[tmp, "/", ROOT][k], env=env,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT), out, env))
        results = []
        for p, out, env in procs:
            text = p.communicate()[0]
            if p.returncode != 0:
                raise RuntimeError("child failed: %s" % text[-2000:])
            with open(out, encoding="utf-8") as f:
                results.append(json.load(f))
            stats["processes"] += 1
    finally:
        shutil.rmtree(tmp)
    for n, c in enumerate(batch):
        stats["non_ascii_documents"] += not json.dumps(c["doc"], ensure_ascii=False).isascii()
        for k in (1, 2):
            for step, (a, b) in enumerate(zip(results[0][n], results[k][n])):
                what = "document %d, after %r" % (n, c["ops"][step - 1] if step else "loading")
                for x in (a, b):
                    ensure(x[0] != "raised", "%s: %s", what, x[1] if len(x) > 1 else "")
                if a[0] != b[0]:
                    d = spec.Diff(json.loads(a[0]), json.loads(b[0]))
                    ensure(False, "%s: the serialised text differs between processes: %s", what, str(d) or "order of members")
                ensure(spec.same(a[1], b[1]), "%s: image references differ between processes: %s", what, spec.Diff(a[1], b[1]))
                ensure(a[3] == b[3], "%s: the text of the image references differs between processes: order of members", what)
                ensure(a[2] == b[2], "%s: reports differ between processes: %r and %r", what, a[2], b[2])
                stats["states_compared_across_processes"] += 1
            ensure(len(results[0][n]) == len(results[k][n]), "document %d: histories of different length", n)
    nontrivial = False
    for n, c in enumerate(batch):
        s = Session(c["doc"])
        t = Session(G.shuffle_keys(r, c["doc"]))
        stats["shuffled_documents"] += 1
        for op in c["ops"]:
            q = json.loads(json.dumps(op))
            if op[0] in ("anims", "skins"):
                r.shuffle(q[1])
                stats["permuted_requests"] += q[1] != op[1]
            ev = s.do(op)
            t.do(q)
            nontrivial |= not spec.same(ev["before"], ev["after"])
            a, b = spec.canon(s.doc), spec.canon(t.doc)
            ensure(spec.same(a, b), "document %d, after %r: shuffled object members or request %r change the result: %s", n, op, q[1:2],
                   spec.Diff(a, b))
            ensure(spec.same(s.images, t.images), "document %d, after %r: shuffled object members change the image references: %s", n,
                   op, spec.Diff(s.images, t.images))
    return nontrivial
