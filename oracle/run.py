"""Runs the property-level checkers for one property against the real library.  Started by /verif/check.py with the
interpreter that has the library's dependencies; prints one JSON object.

    run.py search PROPERTY SEED WORKER WORKERS SECONDS CASES [corpus files...]
    run.py replay FILE
"""
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402
import shrink  # noqa: E402

CLEAN = dict(p_weird=0, p_overlap=0, p_badliteral=0, p_badpos=0, p_badindex=0, p_dup=0, p_twodef=0, p_oddsize=0)
SMALL = dict(periphs=(1, 2), children=(1, 3), fields=(0, 2))
NEST = dict(depth=3, p_cluster=.6, children=(1, 3), periphs=(1, 2), fields=(0, 1))
DERIVE = dict(p_derive=.6, depth=3, p_cluster=.5, children=(1, 3), periphs=(1, 3), p_prop=.4)
DIM = dict(p_dim=.5, p_cluster=.4, fields=(0, 2), children=(1, 3))
FIELDS = dict(periphs=(1, 1), children=(1, 2), p_cluster=.2, fields=(1, 5), p_fieldderive=.4, p_own_ab=1)


def J(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out


GEN = [("dev", {}, 2), ("dev", CLEAN, 2), ("dev", DERIVE, 2), ("dev", J(CLEAN, DIM, dict(p_derive=.4)), 2)]
PROFILES = {
    "C01": [("dev", J(CLEAN, NEST), 4), ("dev", J(CLEAN, NEST, DERIVE), 3), ("dev", J(CLEAN, NEST, DIM), 3), ("dev", {}, 2)],
    "C02": [("dev", J(CLEAN, NEST), 4), ("dev", J(CLEAN, NEST, dict(p_ab=(1, 4), p_prop=.6)), 3), ("dev", J(CLEAN, NEST, DIM, dict(p_derive=.4)), 3), ("dev", {}, 2)],
    "C03": [("dev", J(CLEAN, NEST, dict(p_prop=.3, p_prop_zero=.4)), 4), ("dev", J(CLEAN, DERIVE, dict(p_prop_zero=.4)), 4), ("dev", J(CLEAN, FIELDS, dict(p_wc=.5, p_attr=.4)), 2), ("dev", {}, 2)],
    "C04": [("dev", J(CLEAN, NEST, dict(p_prop=.5, p_oddsize=.15)), 4), ("dev", J(DERIVE, CLEAN, dict(p_oddsize=.1)), 4), ("dev", {}, 2)],
    "C05": [("dev", J(CLEAN, DERIVE, dict(p_attr=.4, p_wc=.3)), 5), ("dev", J(DERIVE, dict(p_attr=.4, p_dim=.3)), 3), ("dev", J(CLEAN, FIELDS, dict(p_attr=.5, p_wc=.4)), 3)],
    "C06": [("dev", J(CLEAN, DERIVE), 4), ("dev", J(DERIVE, dict(p_dim=.3)), 4), ("dev", J(CLEAN, DERIVE, dict(p_derive=.9)), 3), ("dev", J(CLEAN, DERIVE, SMALL, dict(p_derive=.8, p_dangling=.2)), 2)],
    "C07": [("dev", J(DERIVE, dict(p_dangling=.15, p_weird=.2)), 3), ("dev", dict(p_weird=.3, p_badpos=.1, p_badliteral=.1, p_badindex=.2, p_twodef=.1, p_dup=.1), 3), ("index", {}, 1), ("enum", {}, 2), ("pos", {}, 2), ("dev", J(FIELDS, dict(p_badpos=.2)), 2)],
    "C08": [("dev", J(CLEAN, DIM), 4), ("dev", J(DIM, dict(p_derive=.4)), 4), ("dev", J(DIM, dict(p_badindex=.15, p_weird=.15)), 2), ("index", {}, 1), ("dev", J(CLEAN, DIM, FIELDS, dict(p_dim=.6)), 2)],
    "C09": [("index", {}, 8), ("dev", J(DIM, dict(p_badindex=.2)), 2)],
    "C10": [("pos", {}, 6), ("dev", J(CLEAN, FIELDS), 3), ("dev", J(FIELDS, DIM, dict(p_badpos=.1)), 2)],
    "C11": [("dev", J(FIELDS, dict(p_dup=.1, p_overlap=.2)), 5), ("dev", J(CLEAN, FIELDS), 3), ("dev", J(FIELDS, DIM, dict(p_overlap=.15, p_reserved=.2)), 3)],
    "C12": [("dev", dict(p_dup=.25, p_alt=.4), 5), ("dev", J(DIM, dict(p_dup=.2, p_alt=.3)), 3), ("dev", J(DERIVE, dict(p_dup=.2)), 3)],
    "C13": [("enum", dict(p_dup=.2), 8), ("dev", J(FIELDS, dict(p_enum=.7)), 2)],
    "C14": [("enum", dict(p_lit=.5), 5), ("enum", dict(p_x=.7, p_default=.2), 4), ("dev", J(FIELDS, dict(p_enum=.7, p_x=.5)), 1)],
    "C15": [("enum", dict(p_default=1.0), 8), ("enum", dict(p_default=.9, p_twodef=.2), 2), ("dev", J(FIELDS, dict(p_enum=.7, p_default=.8)), 2)],
    "C16": [("dev", J(CLEAN, FIELDS, dict(p_enum=.9, p_enumderive=.4)), 6), ("dev", J(FIELDS, dict(p_enum=.9, p_enumderive=.4, p_weird=.2)), 3)],
    "C17": [("order", CLEAN, 5), ("order", J(CLEAN, DERIVE), 4), ("order", J(CLEAN, NEST, dict(p_alt=.4)), 3), ("dev", J(CLEAN, dict(p_alt=.4)), 2), ("order", J(CLEAN, DIM, dict(p_enum=.5, p_enumderive=.4)), 2)],
    "C18": [("dev", dict(p_overlap=.4, p_alt=.3, p_weird=0), 5), ("dev", J(CLEAN, NEST, dict(p_overlap=.4, p_alt=.4)), 4), ("dev", J(CLEAN, SMALL, dict(periphs=(2, 5), p_overlap=.4, p_alt=.5)), 4)],
    "C19": [("rt", {}, 5), ("rt", CLEAN, 5), ("rt", J(SMALL, dict(p_attr=.8, p_meta=.9, p_wc=.7, p_cpu=.9)), 4)],
    "C20": [("conv", CLEAN, 5), ("conv", J(CLEAN, DERIVE), 3), ("conv", J(CLEAN, SMALL, dict(p_attr=.8, p_meta=.9, p_wc=.7, p_cpu=.9, p_enum=.6)), 5), ("conv", J(CLEAN, DIM), 2)],
    "C21": [("literal", {}, 1)],
    "C22": [("tree", {}, 5), ("tree", J(SMALL, dict(p_attr=.8, p_meta=.9, p_wc=.7, p_cpu=.9)), 5)],
    "C23": [("pure", CLEAN, 5), ("pure", J(CLEAN, DERIVE), 4), ("pure", J(CLEAN, DIM), 4), ("pure", {}, 2)],
    "C24": [("map", J(CLEAN, dict(p_ab=(1, 4))), 5), ("map", J(CLEAN, NEST), 4), ("map", J(CLEAN, DERIVE), 2)],
    "C25": [("valid", {}, 1)],
    "C26": [("dev", dict(p_reserved=.25, p_oddsize=.15, p_empty=.2), 5), ("dev", J(DERIVE, dict(p_reserved=.2, p_oddsize=.1, p_empty=.2)), 4), ("dev", J(DIM, dict(p_reserved=.2)), 2), ("enum", {}, 1)],
    "C27": [("dev", J(CLEAN, SMALL, dict(p_cpu=.9, p_meta=.8, p_ab=(1, 4))), 6), ("dev", J(SMALL, dict(p_cpu=.8, p_meta=.5, p_derive=.5)), 3)],
    "C28": [("entry", CLEAN, 6), ("entry", {}, 2), ("garbage", {}, 1)],
}


class Stop(Exception):
    pass


def with_alarm(f, seconds):
    def h(sig, frame):
        raise checks.Hang()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def judge(checker, data, limit=20.0):
    """-> None | [(tags, message)]"""
    try:
        return with_alarm(lambda: checks.CHECKS[checker][1](data), limit)
    except checks.Hang:
        return [(checks.ALLP, f"no result after {limit:.0f} s")]
    except (RecursionError, MemoryError) as e:
        return [(checks.ALLP, f"{type(e).__name__} on a small description")]


def relevant(prop, res):
    return [m for tags, m in res or [] if prop in tags]


def minimise(prop, checker, data, budget=5.0):
    end = time.time() + budget
    if isinstance(data.get("spec"), dict):
        data = dict(data)

        def fails(sp):
            if time.time() > end:
                return False
            try:
                return bool(relevant(prop, judge(checker, dict(data, spec=sp), 5)))
            except Exception:
                return False
        for k in ("fmt", "order"):
            if data.get(k) is not None:
                d2 = dict(data, **{k: None})
                try:
                    if relevant(prop, judge(checker, d2, 5)):
                        data = d2
                except Exception:
                    pass
        data["spec"] = shrink.shrink(data["spec"], fails, budget)
    return data


def nontrivial(data, res):
    return res is not None


def search(prop, seed, worker, workers, seconds, cases, corpus):
    t0 = time.time()
    prof = PROFILES[prop]
    wheel = [p for p in prof for _ in range(p[2])]
    st = {"evaluations": 0, "skipped": 0, "distinct": 0, "samples": [], "violation": None, "corpus": 0, "checkers": {}}
    seen = set()

    def one(checker, data, gen=True):
        res = judge(checker, data)
        st["evaluations"] += 1
        c = st["checkers"].setdefault(checker, 0)
        st["checkers"][checker] = c + 1
        if res is None:
            st["skipped"] += 1
            return
        h = hashlib.sha1(json.dumps([checker, data], sort_keys=True, default=str).encode()).digest()
        seen.add(h)
        if len(st["samples"]) < 2 and gen:
            st["samples"].append({"checker": checker, "case": json.dumps(data, default=str)[:1500]})
        bad = relevant(prop, res)
        if bad:
            small = minimise(prop, checker, data)
            again = relevant(prop, judge(checker, small))
            if again:
                data, bad = small, again
            st["violation"] = {"checker": checker, "data": data, "messages": bad[:5]}
            raise Stop()

    try:
        for i, f in enumerate(corpus):
            if i % workers == worker:
                c = json.load(open(f))
                if prop in c["properties"]:
                    st["corpus"] += 1
                    one(c["checker"], c["data"], False)
        i = worker
        while i < cases and time.time() - t0 < seconds:
            checker, knobs, _ = wheel[(i // workers + worker) % len(wheel)]
            rng = random.Random(f"{seed}/{prop}/{i}")
            one(checker, checks.CHECKS[checker][0](rng, knobs))
            i += workers
    except Stop:
        pass
    st["distinct"] = len(seen)
    st["seconds"] = round(time.time() - t0, 2)
    return st


def main():
    warnings.simplefilter("ignore")
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    if sys.argv[1] == "search":
        prop, seed, w, n, secs, cases = sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), float(sys.argv[6]), int(sys.argv[7])
        out = search(prop, seed, w, n, secs, cases, sys.argv[8:])
    else:
        c = json.load(open(sys.argv[2]))
        out = {"messages": relevant(c["property"], judge(c["checker"], c["data"]))}
    sys.stdout.write("\n@@RESULT " + json.dumps(out, default=str) + "\n")


if __name__ == "__main__":
    main()
