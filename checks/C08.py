"""C08: model files.  Specs: ModelFile, FileLayout."""
import os
import shutil
import tempfile

from harness.py import modelfile
from lib import cover, cxx, report, tlc

CUTS = [("start", 0), ("start", 3), ("start", 11), ("head", -1), ("head", 0), ("head", 1), ("table", -1), ("table", 0), ("data", 1), ("first", -1), ("first", 0), ("middle", 0), ("end", -1)]
HARM = ["magic", "version", "other_format", "garbage", "zeros", "index_huge", "index_short", "name_huge", "count_more", "count_huge", "table_far", "table_wrap",
        "table_early", "offset_far", "offset_wrap", "size_huge", "size_small", "shape_long", "shape_negative", "shape_wrap", "shape_more"]
KINDS = ["cpp1", "cpp2", "pyall", "pystream"]


def item(name, ty, shape, how="plain", label=None, cpp=True):
    n, b = modelfile.TYPES[ty][:2]
    known = modelfile.TYPES[ty][3 if how.startswith("np") else 2] is not None
    py = known and not how.endswith("unsupported") and how != "not a tensor"
    e = modelfile.elements(shape)
    return dict(name=name, type=ty, shape=list(shape), how=how, label=name if label is None else label, size=e // n * b,
                len=len(name.encode()), nul="\0" in name, py=py and len(shape) <= 16, cpp=cpp and e % n == 0 and len(shape) <= 16)


SMALL = [item("w", 0, [2, 3]), item("b", 128, [3], label=""), item("w", 16, [5]), item("x.y", 129, [0, 4], label="other"), item("n" * 257, 0, [1]), item("s", 132, [], "np")]
MANY = SMALL[:4] + [
    item("model.layers.0.q_proj.weight", 1, [4, 2], "strided", label=""), item("é.权", 18, [2, 2], "np_fortran"), item("swapped", 17, [3, 2], "np_swapped"),
    item("m" * 255, 130, [3]), item("", 16, [2]), item("part", 0, [3, 2], "part"), item("deep", 16, [1] * 15 + [2]), item("empty", 0, [0]), item("scalar", 1, []),
    item("c64", 201, [2], "np"), item("c128", 202, [1, 2], "np"), item("f64", 0, [2], "unsupported"), item("nf64", 0, [2], "np_unsupported"),
    item("list", 0, [2], "not a tensor"), item("a\0b", 16, [3]), item("k" * 300, 129, [1]), item("w", 132, [2, 1, 2]), item("w ", 129, [700])]
BLOCKS = [item("q4", 2, [2, 32]), item("q8", 8, [64], label="x"), item("q4k", 12, [1, 256]), item("byte", 134, [33]), item("u32", 131, [2]), item("u64", 133, [3, 1]),
          item("bf", 128, [2, 3]), item("q4", 0, [1])]


def consts(items, kinds, caps, put, cuts=CUTS, harm=HARM):
    return dict(Kinds=set(kinds), Items=tuple(tlc.Rec({k: tuple(v) if isinstance(v, list) else v for k, v in i.items() if k in ("name", "len", "size", "shape", "type", "py", "cpp", "nul")}
                                                      | dict(name=f"t{[x['name'] for x in items].index(i['name'])}")) for i in items),
                Caps=set(caps), MaxPut=put, Cuts={tlc.Rec(dict(at=a, by=b)) for a, b in cuts}, Harm=set(harm))


def replay(ctx, name, exes, items, paths, step):
    d, plain = cxx.Driver(exes[0], env=modelfile.ENV), cxx.Driver(exes[1])
    tmp = tempfile.mkdtemp(prefix="c08")
    f = modelfile.File(items, tmp, d, plain, step)
    bad = steps = 0
    for p in paths:
        done = []
        for a in p:
            if a["op"] == "init":
                continue
            steps += 1
            done.append([a["op"], a["args"]])
            try:
                got = f.open(**a["args"]) if a["op"] == "open" else f.step(a["op"], a["args"])
                what = modelfile.fault(a["res"], got, items)
            except (cxx.Died, OSError, ValueError, RuntimeError) as e:
                what = repr(e)
            except Exception as e:       # whatever the code under test raises
                what = f"{type(e).__name__}: {e}"
            if what:
                bad += 1
                ctx.violation(f"{name}: {f.kind}: {done[-1][0]} {done[-1][1]}: {what}"[:600],
                              dict(where=name, done=done, items=[{k: i[k] for k in ("name", "type", "shape", "how")} for i in items], what=what))
                break
        f.close()
        if bad >= 4:
            break
    d.stop()
    plain.stop()
    shutil.rmtree(tmp, ignore_errors=True)
    ctx.count("implementation_steps", steps)
    lays = list({tuple(tuple(sorted(e.items())) for e in x) for x in f.layouts})
    logs = [[dict(e) for e in x] for x in lays if x]
    if logs:
        rej, _ = tlc.validate("FileLayout", logs)
        for i, k in rej[:3]:
            ctx.violation(f"{name}: layout: tensor {k + 1} of {logs[i]}"[:500], dict(where=name, layout=logs[i]))
        ctx.add_traces(len(logs) - len(rej), [dict(check=name, log=logs[0][:4])])
    return steps, len(logs)


def graph(ctx, name, exes, items, kinds, caps, put, cuts=CUTS, harm=HARM, limit=None):
    r = tlc.explore("ModelFile", consts(items, kinds, caps, put, cuts, harm), view="vars", invariants=["Consistent"], workers=4)
    ctx.add_model(r)
    paths, cov = cover.edge_cover(r["init"], r["edges"], max_len=60, seed=ctx.seed, limit=limit)
    ctx.count("transitions_replayed", cov)
    s, n = replay(ctx, name, exes, items, paths, 40)
    ctx.log(f"{name}: {r['states']} states, {cov}/{len(r['edges'])} transitions, {s} steps, {n} layouts")


def sim(ctx, name, exes, items, kinds, caps, put, num, depth, step):
    tr = tlc.simulate("ModelFile", consts(items, kinds, caps, put), depth=depth, num=num, seed=ctx.seed, invariants=["Consistent"], next_="SimNext", procs=2, stop="~ENABLED SimNext")
    s, n = replay(ctx, name, exes, items, tr, step)
    ctx.log(f"{name}: {len(tr)} behaviours, {s} steps, {n} layouts")


def full_disk(ctx, exes):
    """A file that cannot be written in full is not reported as written."""
    d = cxx.Driver(exes[0], env=modelfile.ENV)
    f = modelfile.File(SMALL, tempfile.mkdtemp(prefix="c08"), d, None, 1)
    for kind in KINDS:
        f.open(kind, 4)
        f.put = [0, 1]
        try:
            if kind.startswith("cpp"):
                f.path = "/dev/full"
                r = f.cpp()
            else:
                w = modelfile.writer()
                full = w("/dev/full", "model", "Streaming" if kind == "pystream" else "Static", **(dict(max_params_descriptor_buffer_num=4) if kind == "pystream" else {}))
                obj = {SMALL[i]["name"]: modelfile.as_object(SMALL[i]) for i in f.put}
                if kind == "pystream":
                    for n, t in obj.items():
                        full.streaming_write(n, t)
                else:
                    full.static_write(obj)
                full.finalize()
                r = dict(k="done")
        except OSError:
            r = dict(k="refused")
        if r["k"] != "refused":
            ctx.violation(f"{kind}: writing to a full disk: {r}", dict(kind=kind, got=r))
        f.close()
        f.path = os.path.join(f.dir, "model.mllm")
    d.stop()
    shutil.rmtree(f.dir, ignore_errors=True)


def body(ctx):
    exes = modelfile.build()
    n = ctx.pick(60, 1200)
    q = ctx.quick
    jobs = [(full_disk, (exes,), {})]
    for k in KINDS[::-1]:
        slow = q and k == "pystream"        # the same file as pyall writes: every harm is done to that
        jobs.append((graph, (k, exes, SMALL, [k], [0, 1, 2], 2), dict(cuts=CUTS[9:10] if slow else CUTS, harm=["magic"] if slow else HARM)))
        jobs.append((sim, (f"{k}, many tensors", exes, MANY, [k], [2, 5, 9], 9, n, 24, ctx.pick(37, 1)), {}))
    for k in ("cpp1", "cpp2"):
        jobs.append((sim, (f"{k}, block types", exes, BLOCKS, [k], [0], 6, n, 18, ctx.pick(37, 5)), {}))
    ctx.parallel(jobs, procs=6)


if __name__ == "__main__":
    report.main("C08", body)
