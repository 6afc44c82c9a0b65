"""Assertions that concrete runs of the unchanged code break by rounding alone (near singular matrices, saturated
tanh ...): the search for replayable inputs (run.search) never reports them.  Writes lib/rounding.json."""
import json
import sys
from concurrent.futures import ThreadPoolExecutor
import build as bld
import run


def one(a):
    prop, inst = a
    bad = set()
    for seed in run.SEARCH:
        rc, o = run.sh([run_bins["native"], inst.h] + ["%s=%s" % kv for kv in inst.params.items()] + ["--witness=%d" % seed], 10)
        if rc in (0, 5):
            continue
        if rc is None:
            bad.add("panic: hang")
            continue
        for l in o.splitlines():
            if l.startswith("NATIVE-FAIL "):
                bad.add(l[12:].split(" (")[0] if l.endswith(")") else l[12:])
            if l.startswith("NATIVE-PANIC "):
                bad.add("panic")
    return inst.name(), bad


if __name__ == "__main__":
    run_bins, _ = bld.build()
    jobs = [(p, run.Inst(**i)) for p, P in run.PROPS.items() for i in P["instances"]]
    out = {}
    with ThreadPoolExecutor(8) as ex:
        for h, bad in ex.map(one, jobs):
            if bad:
                out.setdefault(h, set()).update(bad)
    json.dump(dict((h, sorted(b)) for h, b in sorted(out.items())), open(run.V + "/lib/rounding.json", "w"), indent=1)
