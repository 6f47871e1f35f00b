"""C22: histories generated from the ideal library (MCApi), replayed; every call has to fit the ideal (TraceApi), and to return what it
returns as the first call of a fresh process."""
from .. import api, core, hist
LEVEL = "model_checking"

def whole(script, assign, salt, related=False):
    def f(a, r):
        hist.Replay(a, assign, salt, related).run(script)
    return f

def run(ck):
    T = ck.thorough
    ck.model("MCApi", "MCApiBig.cfg" if T else "MCApi.cfg", workers=8, timeout=800)
    ck.tick("ideal model")
    n = 240 if T else 48
    scripts = hist.generate(ck, n)
    ck.tick("histories")
    long = hist.generate(ck, 12 if T else 3, 1200 if T else 400, "MCApiLong.cfg" if T else "MCApiMany.cfg")
    ck.tick("long histories")
    for cfg in ("default", "scalar", "clang", "own") if T else ("default", "scalar"):
        path = core.lib(cfg, ("shim_api.c",), tag="p")
        todo, part = [], scripts if cfg == "default" else scripts[:4] if cfg == "own" else scripts[::4]
        for i, h in enumerate(part):
            as_ = hist.sets_for(i, cheap=i % 6 != 5 or cfg != "default")
            todo.append((f"history {i} {cfg}", whole(h, as_, i, i % 4 != 0)))
            # the same calls in other processes: backwards, and a few only
            todo.append((f"history {i} {cfg} backwards", whole(h[::-1], as_, i, i % 4 != 0)))
            todo.append((f"history {i} {cfg} sampled", whole(h[i % 5::5], as_, i, i % 4 != 0)))
        if cfg == "default":
            for i, h in enumerate(long):
                as_ = dict(a=core.FSETS[(ck.seed + 5 * i) % 6])
                todo += [(f"long history {i}", whole(h, as_, i, i % 2)), (f"long history {i} sampled", whole(h[3::50], as_, i, i % 2)),
                         (f"long history {i} end", whole(h[-20:], as_, i, i % 2))]
        evs = api.jobs(ck, path, todo)
        ck.add(calls=sum(map(len, evs)))
        # one history after the other, as one history: equal calls must have had equal results
        tr = [evs[k] + evs[k + 1] + evs[k + 2] for k in range(0, len(evs), 3)]
        ck.sample([f"{e['op']} {e['set']} rc={e['rc']}" for e in tr[0][:20]])
        ck.validate_traces("TraceApi", tr)
        ck.tick(f"replay {cfg}")
