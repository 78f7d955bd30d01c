"""Runner of the properties of the Python layer, on Hypothesis: the counterpart of pbt.hpp.

A sub-check is (name, strategy of JSON-able cases, check, cases quick, cases thorough). check(case) returns
(non-trivial?, [labels], note) and raises Fail(key, message) when the property does not hold. Hypothesis generates and
shrinks; the shrunk case, as JSON, is the replay file.
"""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import warnings


class Fail(Exception):
    def __init__(self, key, *msg):
        super().__init__(key + ": " + " ".join(str(m) for m in msg))
        self.key = key


class Skip(Exception):
    """The case says nothing."""


def require(cond, key, *msg):
    if not cond:
        raise Fail(key, *msg)


def text(case):
    return json.dumps(case, sort_keys=True)


def judge(check, case):
    """(key, message) of what is wrong, or None."""
    try:
        return None, check(case)
    except Skip:
        return None, (False, ["skipped"], "")
    except Fail as e:
        return (e.key, str(e)), None
    except RecursionError:
        return None, (False, ["skipped"], "")
    except Exception as e:
        return ("exception", "unexpected " + type(e).__name__ + ": " + str(e)[:300] + " | " +
                " | ".join(l.strip().replace("\n", " ") for l in traceback.format_tb(e.__traceback__)[-3:])), None


def worker(pid, subs, w, nw, seed, thorough, scale, only, deadline, known, out):
    import hypothesis as h
    warnings.simplefilter("ignore")
    res = {"subs": {}}
    for s in subs:
        name, strat, check, quick, thor = s
        r = {"ev": 0, "labels": {}, "distinct": [], "sample": "", "fail": None, "known": {}}
        res["subs"][name] = r
        if only and name != only:
            continue
        n = max(1, int((thor if thorough else quick) * scale / nw))
        seen = set()
        last = {}
        past = []  # the cases this process ran before, for failures that need what they left behind

        def one(case):
            if time.time() > deadline and not last:
                return
            bad, info = judge(check, case)
            r["ev"] += 1
            if bad:
                k = name + "/" + bad[0]
                if k in known:
                    r["known"][k] = r["known"].get(k, 0) + 1
                    return
                if last and last["key"] != bad[0]:
                    return  # another defect than the one being shrunk
                if not last:
                    last.update(first=case, past=list(past))
                last.update(key=bad[0], msg=bad[1], case=case)
                raise AssertionError(bad[1])
            if not last:
                past.append(text(case))
            nontrivial, labels, note = info
            for l in labels:
                r["labels"][l] = r["labels"].get(l, 0) + 1
            if nontrivial:
                t = text(case)
                seen.add(hashlib.sha1(t.encode()).hexdigest()[:16])
                if not r["sample"]:
                    r["sample"] = name + ": " + (note or t)[:500]

        st = h.settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                        suppress_health_check=list(h.HealthCheck), phases=[h.Phase.generate, h.Phase.shrink],
                        print_blob=False, verbosity=h.Verbosity.quiet)
        hs = int(hashlib.sha1(("%s/%s/%s/%d" % (seed, pid, name, w)).encode()).hexdigest()[:12], 16)
        f = h.seed(hs)(st(h.given(strat)(one)))
        try:
            f()
        except BaseException as e:  # what Hypothesis raises once it has shrunk
            if not last:
                res["error"] = name + ": " + type(e).__name__ + ": " + str(e)[:400]
        if last:
            r["fail"] = last
        r["distinct"] = sorted(seen)
    with open(out, "w") as f:
        json.dump(res, f)


def apart(check, before, case):
    """Does the case fail in a process of its own, after these others?"""
    sys.stdout.flush()
    q = os.fork()
    if q == 0:
        rc = 0
        try:
            fd = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            for b in before:
                judge(check, b)
            rc = 1 if judge(check, json.loads(text(case)))[0] else 0
        finally:
            os._exit(rc)
    return os.waitpid(q, 0)[1] != 0


def load_known(root, pid):
    known = {}
    try:
        for l in open(os.path.join(root, "known_findings.txt")):
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2].strip()
                key, _, txt = rest.partition(" ")
                known[key[len("key="):]] = txt
    except OSError:
        pass
    return known


def run(pid, subs, rule, assumptions):
    t0 = time.time()
    root = os.environ.get("VERIF_ROOT", "/verif")
    seed = os.environ.get("VERIF_SEED") or "1"
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_SUB")
    nw = int(os.environ.get("VERIF_JOBS", "8"))
    budget = float(os.environ.get("VERIF_BUDGET", "740" if thorough else "300"))
    known = load_known(root, pid)
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            d = json.load(f)
        for name, _, check, _, _ in subs:
            if name == d["sub"]:
                warnings.simplefilter("ignore")
                for b in d.get("before", []):
                    judge(check, b)
                bad, info = judge(check, d["case"])
                print("case:", text(d["case"]))
                print("FAILS: " + bad[1] if bad else "passes")
                if bad:
                    print("VIOLATION property=%s replay=%s" % (pid, sys.argv[2]))
                return 1 if bad else 0
        print("no such sub-check:", d["sub"])
        return 2

    tmp = tempfile.mkdtemp(prefix="pyprop.")
    pids = []
    for w in range(nw):
        sys.stdout.flush()
        q = os.fork()
        if q == 0:
            rc = 3
            try:
                fd = os.open(os.path.join(tmp, "e%d" % w), os.O_CREAT | os.O_WRONLY, 0o600)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                os.chdir(tmp)
                worker(pid, subs, w, nw, seed, thorough, scale, only, t0 + budget, known, os.path.join(tmp, "w%d" % w))
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(rc)
        pids.append(q)
    hard = t0 + budget + 100
    bad_workers = 0
    for w, q in enumerate(pids):
        while True:
            p, st = os.waitpid(q, os.WNOHANG)
            if p:
                if st:
                    bad_workers += 1
                    print("worker %d ended with status %d" % (w, st))
                    print(open(os.path.join(tmp, "e%d" % w)).read()[-2000:])
                break
            if time.time() > hard:
                os.kill(q, 9)
                os.waitpid(q, 0)
                break
            time.sleep(0.01)
    ev, labels, distinct, samples, kn, fails, errors = {}, {}, {}, [], {}, [], []
    for w in range(nw):
        try:
            with open(os.path.join(tmp, "w%d" % w)) as f:
                res = json.load(f)
        except (OSError, ValueError):
            continue
        if "error" in res:
            errors.append(res["error"])
        for name, r in res["subs"].items():
            ev[name] = ev.get(name, 0) + r["ev"]
            lab = labels.setdefault(name, {})
            for k, v in r["labels"].items():
                lab[k] = lab.get(k, 0) + v
            distinct.setdefault(name, set()).update(r["distinct"])
            if r["sample"] and not any(x.startswith(name + ":") for x in samples):
                samples.append(r["sample"])
            for k, v in r["known"].items():
                kn[k] = kn.get(k, 0) + v
            if r["fail"]:
                fails.append((name, r["fail"]))
    for f in os.listdir(tmp):
        os.remove(os.path.join(tmp, f))
    os.rmdir(tmp)

    violations, reported, unconfirmed = 0, set(), 0
    fails.sort(key=lambda x: (x[0], x[1]["key"], len(text(x[1]["case"])), text(x[1]["case"])))
    for name, f in fails:
        full = name + "/" + f["key"]
        if full in reported:
            continue
        check = [s[2] for s in subs if s[0] == name][0]
        warnings.simplefilter("ignore")
        before = []
        if not all(apart(check, [], f["case"]) for _ in range(3)):
            # not on its own: with the cases its process had run before?
            f["case"] = f["first"]
            n, past, until = 1, [json.loads(t) for t in f["past"]], time.time() + 150
            while True:
                before = past[-n:]
                if apart(check, before, f["case"]) or n >= len(past) or time.time() > until:
                    break
                n *= 2
            n = len(before) // 2
            while n and time.time() < until:
                i = 0
                while i + n <= len(before) and len(before) > 1 and time.time() < until:
                    b = before[:i] + before[i + n:]
                    if apart(check, b, f["case"]):
                        before = b
                    else:
                        i += n
                n //= 2
            if not all(apart(check, before, f["case"]) for _ in range(2)):
                unconfirmed += 1
                continue
        reported.add(full)
        violations += 1
        os.makedirs(os.path.join(root, "replays"), exist_ok=True)
        path = os.path.join(root, "replays", "%s-%s-%d.txt" % (pid, name, violations))
        with open(path, "w") as o:
            json.dump({"property": pid, "sub": name, "case": f["case"], "before": before, "seed": seed, "key": f["key"], "message": f["msg"]}, o,
                      indent=1)
        print("FAILED %s: %s%s\n  case: %s" % (name, "(after %d other case(s) in the same process) " % len(before) if before else "",
                                               f["msg"], text(f["case"])))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for k, t in known.items():
        print("KNOWN-FINDING: property=%s %s: %s (hit %d times)" % (pid, k, t, kn.get(k, 0)))
    for e in errors:
        print("error:", e)
    evs = sum(ev.values())
    dn = sum(len(x) for x in distinct.values())
    sub = {}
    for name, _, _, quick, thor in subs:
        sub[name] = {"planned": int((thor if thorough else quick) * scale), "evaluations": ev.get(name, 0),
                     "distinct_nontrivial": len(distinct.get(name, ())), "classes": labels.get(name, {})}
    wall = time.time() - t0
    evidence = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(seed), "level": "exploration",
                "coverage": {"evaluations": evs, "distinct_nontrivial": dn, "rule": rule,
                             "samples": samples or ["(no non-trivial case was reached)"], "sub_checks": sub,
                             "known_findings_hit": kn, "unconfirmed": unconfirmed},
                "assumptions": assumptions, "wall_s": wall, "violations": violations}
    os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
    with open(os.path.join(root, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d violation(s), %.1f s" % (pid, evs, dn, violations, wall))
    if violations:
        return 1
    return 2 if evs == 0 or bad_workers or errors else 0
