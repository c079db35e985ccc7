"""Run a batch of histories in this process and write what was observed: python -m mon.child REPO IN OUT."""
import json
import os
import sys


def observe(batch):
    from spine_json_lib import SpineAnimationEditor
    from .monitor import describe
    out = []
    for case in batch:
        log = []
        try:
            ed = SpineAnimationEditor(case["doc"])
        except Exception as e:
            out.append([["raised", describe(e)]])
            continue

        def see(report):
            log.append([json.dumps(ed.to_json_data()), ed.images_references, report, json.dumps(ed.images_references)])
        see(None)
        for op in case["ops"]:
            try:
                if op[0] == "anims":
                    v = ed.erase_animations(op[1], op[2], op[3])
                    rep = [sorted(v.result_summary[0]), sorted(v.result_summary[1]), json.dumps(v.result_data_json)]
                elif op[0] == "skins":
                    v = ed.erase_skins(op[1], op[2])
                    rep = [sorted(v[0][0]), sorted(v[0][1]), sorted(set(v[1]))]
                elif op[0] == "clean":
                    v = ed.clean_animation()
                    rep = [sorted(v[0]), sorted(v[1])]
                else:
                    ed.scale_animation(op[1], op[2])
                    rep = None
            except Exception as e:
                log.append(["raised", describe(e)])
                break
            see(rep)
        out.append(log)
    return out


def main():
    sys.dont_write_bytecode = True
    repo, src, dst = sys.argv[1:4]
    clutter = [[object() for _ in range(k % 7)] for k in range(20000)] if os.environ.get("MON_CLUTTER") else []
    del clutter[::3]        # the library's objects lie at other places in memory
    sys.path.insert(0, repo)
    with open(src, encoding="utf-8") as f:
        batch = json.load(f)
    res = observe(batch)
    with open(dst, "w", encoding="utf-8") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
