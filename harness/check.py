"""check.py ID [quick|thorough]: decides one property for /repo's working tree."""
import json, os, random, shutil, sys, tempfile, time, traceback
import cases as gen
import known, observe, sut, tlc
from plan import FOCUS, PLAN
from sut import VERIF, ToolError

CHUNK = 15000


def judge(prop, path, workers=8):
    """TLC's verdict on a trace: (result, mismatches)."""
    r = tlc.run("Trace", env={"PEMV_PROP": prop, "PEMV_TRACE": path}, heap="14g", workers=workers)
    return r, [json.loads(t) for t in r.tagged("MISMATCH")]


def culprit(prop, path, scratch):
    """The record that TLC can't judge, because what the program wrote makes no sense at all, with the verdict of the exact judgement."""
    with open(path, encoding="utf-8") as f:
        lines = f.read().rstrip("\n").split("\n")
    part = os.path.join(scratch, "part.ndjson")

    def verdict(p, lo, hi):
        with open(part, "w", encoding="utf-8") as f:
            f.write("\n".join(lines[lo:hi]) + "\n")
        return judge(p, part)

    lo, hi = 0, len(lines)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if verdict(prop, lo, mid)[0].ok:
            lo = mid
        else:
            hi = mid
    t, mismatches = verdict("ALL", lo, hi)
    return [dict(m, rec=lo + 1) for m in mismatches]


def shown(c):
    """An invocation in a form to read and to replay."""
    out = {k: c[k] for k in ("env", "profile", "files", "named", "tty", "nocolor", "term", "note", "style", "ambient") if c[k]}
    out["argv"] = [a if isinstance(a, str) else {"bytes": a.hex()} for a in c["argv"]]
    if c["mates"]:
        out["compared with"] = [[a if isinstance(a, str) else {"bytes": a.hex()} for a in m["case"]["argv"]] for m in c["mates"]]
    if c.get("decode"):
        out["decode"] = True
    return out


def short(c):
    text = json.dumps(shown(c), ensure_ascii=False)
    return json.loads(text) if len(text) < 600 else text[:600] + "..."


def random_cases(prop, r, n):
    plan, focus = PLAN[prop], FOCUS.get(prop)
    names, weights = list(plan["random"]), list(plan["random"].values())
    out = []
    for name in r.choices(names, weights, k=n):
        f = gen.GENERATORS[name]
        if focus and name == "single_value":
            out.append(f(r, focus["ops"]))
        elif focus and name == "value_in_block":
            tags = [bytes.fromhex(t) for t in focus["tags"].split()] if focus["tags"] else gen.DECODABLE
            out.append(f(r, tags, focus["wrong"]))
        else:
            out.append(f(r))
    return [gen.elsewhere(c, r) if r.random() < .12 else c for c in out]


def explore(plan, size, scratch):
    """TLC on the models: (results, invocations)."""
    path = os.path.join(scratch, "models.json")
    with open(path, "w") as f:
        json.dump(plan["models"], f)
    r = tlc.run("MC", env={"PEMV_MODELS": path}, constants={"Size": size}, heap="14g")
    if not r.ok:
        raise ToolError("the design fails its own check (%s):\n%s" % (r.what, r.text[-3000:]))
    found = []
    for t in sorted(set(r.tagged("CASE"))):
        found.append(gen.from_model(json.loads(t)))
    return r, found


def main(prop, tier):
    started = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deep = tier == "thorough"
    plan = PLAN[prop]
    r = random.Random("%s %d" % (prop, seed))
    scratch = tempfile.mkdtemp(prefix="pemv-check-")
    try:
        binary = sut.build(scratch)
        known.report(prop, sut.Runner(binary, scratch))
        states = transitions = 0
        design = []
        for module, cfg, quick, thorough in plan["design"]:
            env = {}
            if module in ("MC", "MC_Effects"):
                env["PEMV_MODELS"] = os.path.join(scratch, "models0.json")
                with open(env["PEMV_MODELS"], "w") as f:
                    json.dump(["Commands", "Detection", "SettingsBad", "Sizes", "BerShapes"], f)
            d = tlc.run(module, cfg, env=env, constants=thorough if deep else quick, heap="14g")
            if not d.ok:
                raise ToolError("the design fails its own check (%s):\n%s" % (d.what, d.text[-3000:]))
            states, transitions = states + d.states, transitions + d.transitions
            design.append({"model": cfg, "constants": thorough if deep else quick, "states": d.states, "seconds": round(d.seconds, 1)})
        mc, todo = explore(plan, 2 if deep else 1, scratch)
        states, transitions = states + mc.states, transitions + mc.transitions
        design.append({"model": "MC", "inputs": plan["models"], "states": mc.states, "seconds": round(mc.seconds, 1)})
        from_models = len(todo)
        todo += random_cases(prop, r, plan["n"][deep])
        for name in plan["special"]:
            todo += list(gen.SPECIAL[name](r, deep))
        todo = [c for c in (gen.with_mates(prop, c, r) for c in todo) if c is not None and gen.possible(c)]
        validated = runs = 0
        classes, found, samples = {}, [], []
        for k in range(0, len(todo), CHUNK):
            path = os.path.join(scratch, "trace.ndjson")
            done, n, cl = observe.observe_all(binary, todo[k:k + CHUNK], path, scratch)
            runs += n
            for x, y in cl.items():
                classes[x] = classes.get(x, 0) + y
            if not done:
                continue
            t, mismatches = judge(prop, path)
            if not t.ok and not mismatches:
                mismatches = culprit(prop, path, scratch)
            states, transitions = states + t.states, transitions + t.transitions
            if mismatches:
                with open(path, encoding="utf-8") as f:
                    lines = f.read().split("\n")
                for m in mismatches:
                    found.append((done[m["rec"] - 1], m["expected"], json.loads(lines[m["rec"] - 1])))
                break
            if not t.ok:
                raise ToolError("TLC can't judge the trace (%s):\n%s" % (t.what, t.text[-3000:]))
            validated += len(done)
            for c in r.sample(done, min(2, len(done))):
                samples.append(short(c))
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - started, 1),
            "violations": len(found),
            "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": validated,
                         "samples": samples[:8], "design_models": design, "inputs_from_models": from_models, "program_runs": runs,
                         "results_by_class": classes,
                         "rule": "every invocation explored by TLC in the models, and %d random or large ones, run on the real program; "
                                 "each observation judged by TLC against the specification's behaviour for the same input" % (len(todo) - from_models)},
            "assumptions": ["the observations of harness/sut.py are what the program wrote", "TLC evaluates the specification correctly"]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
        if found:
            c, expected, rec = min(found, key=lambda x: len(json.dumps(shown(x[0]))))
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, tier, seed))
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": prop, "invocation": shown(c), "expected": expected, "observed": rec["obs"]}, f, indent=1, ensure_ascii=False)
            print("%s: %s" % (prop, json.dumps(short(c), ensure_ascii=False)))
            print("expected: %s" % json.dumps(expected, ensure_ascii=False)[:1500])
            print("observed: %s" % json.dumps({k: rec["obs"][k] for k in ("class", "rc", "out", "err")}, ensure_ascii=False)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s held: %d states explored, %d observed invocations agree with the specification (%d runs, %.0f s)"
              % (prop, states, validated, runs, time.time() - started))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except ToolError as e:
        print("ERROR:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
