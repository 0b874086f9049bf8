"""Generation of parser histories: files, handlers, queries, callback faults."""
from . import inigen as G
from . import harness as H

SECS = ["A", "B", "C", "D", "E", "SEC F", "a", "Default"]
QKEYS = ["k1", "k2", "key four", "k-5", "op1", "nokey"]


def gen_ini(rng, ops, nfiles=1, p_missing=0.0, p_bad=0.0, p_cycle=0.15, allow_interp=False, p_default=0.35,
            max_opts=5, values=None, keys=None, nmax=6, p_use=0.5):
    """{name: lines}"""
    names = rng.sample(SECS, rng.randrange(1, nmax + 1))
    files = {}
    for i in range(nfiles):
        sub = names if i == 0 else rng.sample(names, rng.randrange(1, len(names) + 1))
        files[f"f{i}.ini"] = G.sections_text(rng, sub, ops, p_missing=p_missing, p_bad=p_bad, p_cycle=p_cycle,
                                             allow_interp=allow_interp, p_default=p_default, max_opts=max_opts,
                                             values=values, keys=keys, targets=names, p_use=p_use)
    return files, names


def gen_query(rng, names, parse=True, extra=("NOPE",)):
    s = rng.choice(names + (["DEFAULT"] if rng.random() < 0.15 else []) + (list(extra) if rng.random() < 0.1 else []))
    k = rng.choice(QKEYS)
    q = [["get", s], ["getopt", s, k], ["item", s], ["options", s], ["items", s], ["has_sec", s],
         ["has_opt", s, k], ["get", s], ["items", s]]
    if rng.random() < 0.25:
        q = [["all"], ["sections", False], ["keys"], ["len"], ["iter"], ["raw"]]
        if parse:
            q += [["sections", True], ["sections", "force"], ["parse_all"]]
    elif parse and rng.random() < 0.3:
        q = [["parse", s], ["parse", s, True, True]]
    return rng.choice(q)


def put_files(w, files):
    for n in sorted(files):
        w.put(n, "\n".join(files[n]) + "\n")


def raw_bytes(files, order=None):
    return [("\n".join(files[n]) + "\n").encode("utf-8") for n in (order or sorted(files))]
