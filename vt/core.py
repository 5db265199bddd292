"""Runner: drives the workload of one property in forked workers, watches every call to
the code under test, and turns what was observed into a verdict, evidence and replays."""
import collections
import contextlib
import hashlib
import json
import mmap
import os
import pickle
import random
import resource
import shutil
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known-findings.txt")


class HarnessError(Exception):
    """The check itself could not do its work (inconclusive)."""


class Violation(Exception):
    pass


class Outcome:
    """What one call did: a result or an error."""
    __slots__ = ("value", "error")

    def __init__(self, value=None, error=None):
        self.value, self.error = value, error

    @property
    def ok(self):
        return self.error is None

    def kind(self):
        return "ok" if self.error is None else type(self.error).__name__

    def __repr__(self):
        return "result" if self.ok else f"{type(self.error).__name__}: {str(self.error)[:200]}"


class Stream:
    """n cases; fn(ctx, i) runs case i. exhaustive: the cases enumerate a finite space."""

    def __init__(self, name, fn, quick, thorough=None, exhaustive=False, rule="", limit=100.0):
        self.name, self.fn, self.n = name, fn, {"quick": quick, "thorough": quick if thorough is None else thorough}
        self.exhaustive, self.rule, self.limit = exhaustive, rule, limit


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.counts = collections.Counter()
        self.seen_ = collections.defaultdict(set)
        self.hashes = set()
        self.samples = []
        self.fails = []
        self.knowns = set()
        self.errors = []
        self.parsers = {}
        self.stream, self.i = None, 0
        self.rng = random.Random(0)

    # --- the code under test, observed at its public boundary -----------------
    def new_parser(self, lines=False, cache=True):
        import pycep
        self.counts["parsers constructed"] += 1
        return pycep.BicepParser(add_line_numbers=lines, cache=cache)

    def parser(self, lines=False):
        p = self.parsers.get(lines)
        if p is None:
            p = self.parsers[lines] = self.new_parser(lines)
        return p

    def call(self, fn, *a, **k):
        try:
            o = Outcome(value=fn(*a, **k))
        except RecursionError as e:
            o = Outcome(error=RecursionError(str(e)))
        except Exception as e:
            o = Outcome(error=e)
        except BaseException as e:  # SystemExit and the like: no error a caller can be expected to handle
            o = Outcome(error=e)
            self.fail(f"the call ended with {type(e).__name__}, which is no ordinary error", call=repr(k)[:3000])
        self.counts["call:" + o.kind()] += 1
        return o

    def parse(self, text, lines=False, parser=None):
        return self.call((parser or self.parser(lines)).parse, text=text)

    def tree(self, text, parser=None):
        return self.call((parser or self.parser(False)).create_tree, text=text)

    # --- bookkeeping ------------------------------------------------------------
    def ran(self, key, nontrivial=True, sample=None):
        """counts one judged case"""
        self.counts["evaluations"] += 1
        if nontrivial:
            if not isinstance(key, bytes):
                key = repr(key).encode("utf-8", "surrogatepass")
            self.hashes.add(hashlib.blake2b(key, digest_size=8).digest())
        if len(self.samples) < 2 and (sample is not None or isinstance(key, str)):
            self.samples.append({"stream": self.stream.name, "case": str(key if sample is None else sample)[:1500]})

    def seen(self, category, item):
        s = self.seen_[category]
        if len(s) < 20000:
            s.add(item)

    def fail(self, message, **info):
        self.fails.append({"stream": self.stream.name, "i": self.i, "message": message, **info})

    def known(self, key, message, **info):
        """the case failed exactly in the way finding `key` describes"""
        if key in known_keys(self.prop):
            self.knowns.add(key)
        else:
            self.fail(message, **info)


_known_cache = None


def known_entries():
    """[(property, key, text)] of the known findings"""
    global _known_cache
    if _known_cache is None:
        out = []
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                if line.startswith("known: "):
                    p, k, text = line[7:].strip().split(" ", 2)
                    out.append((p.split("=")[1], k.split("=")[1], text))
        _known_cache = out
    return _known_cache


def known_keys(prop):
    return {k for p, k, _ in known_entries() if p == prop}


def seed_rng(seed, prop, stream, i):
    return random.Random(f"{seed}:{prop}:{stream}:{i}")


def run_case(ctx, st, i):
    ctx.stream, ctx.i = st, i
    ctx.rng = seed_rng(ctx.seed, ctx.prop, st.name, i)
    try:
        st.fn(ctx, i)
    except (HarnessError, MemoryError, OSError) as e:
        ctx.errors.append(f"{st.name}[{i}]: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    except Exception as e:
        ctx.fail(f"the observed behaviour could not be interpreted: {type(e).__name__}: {e}", traceback=traceback.format_exc()[-3000:])


def _worker(w, n, ctx, streams, out, slot, deadline):
    """runs the cases w, w+n, ... of every stream. When the time is short every stream gets
    its share of it first, what is left of the streams follows."""
    pos = 0
    todo = [collections.deque(range(w, st.n[ctx.tier], n)) for st in streams]
    for again in (False, True):
        for si, st in enumerate(streams):
            left = deadline - time.time()
            until = deadline if again else time.time() + left / (len(streams) - si)
            first = not again
            while todo[si] and (first or time.time() < until) and len(ctx.fails) < 20:
                first, i = False, todo[si].popleft()
                pos += 1
                struct.pack_into("qqqq", slot, w * 32, pos, si, i, 1)
                c0 = ctx.counts["evaluations"]
                run_case(ctx, st, i)
                ctx.counts["cases of " + st.name] += 1
                ctx.counts["evaluations of " + st.name] += ctx.counts["evaluations"] - c0
    if len(ctx.fails) < 20:
        ctx.counts["cases skipped at the deadline"] += sum(map(len, todo))
    struct.pack_into("qqqq", slot, w * 32, pos, -1, -1, 0)
    with open(out, "wb") as f:
        pickle.dump((ctx.counts, dict(ctx.seen_), ctx.hashes, ctx.samples, ctx.fails, ctx.knowns, ctx.errors), f)


def kill_tree(pid):
    """kills a process and all that descend from it"""
    parents = collections.defaultdict(list)
    for q in os.listdir("/proc"):
        if q.isdigit():
            with contextlib.suppress(OSError, IndexError, ValueError), open(f"/proc/{q}/stat") as f:
                parents[int(f.read().rsplit(")", 1)[1].split()[1])].append(int(q))
    todo = [pid]
    while todo:
        q = todo.pop()
        todo += parents[q]
        with contextlib.suppress(OSError):
            os.kill(q, 9)


def cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            p = f.read().rsplit(")", 1)[1].split()
        return sum(map(int, p[11:15])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def run(prop, tier, seed, check, workers=None):
    t0 = time.time()
    budget = float(os.environ.get("VT_BUDGET", "420" if tier == "quick" else "780"))
    workers = workers or check.workers or os.cpu_count() or 4
    streams = check.streams
    scratch = tempfile.mkdtemp(prefix=f"vt-{prop}-", dir=os.environ.get("VT_TMP"))
    os.environ["TMPDIR"] = tempfile.tempdir = os.path.join(scratch, "tmp")
    os.mkdir(tempfile.tempdir)
    try:
        return _run(t0, budget, prop, tier, seed, check, workers, streams, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(t0, budget, prop, tier, seed, check, workers, streams, scratch):
    fails, knowns, errors = [], set(), []
    counts, seen, hashes, samples = collections.Counter(), collections.defaultdict(set), set(), []
    ctx0 = Ctx(prop, tier, seed, scratch)
    # can the parser be used at all?
    probe = "import pycep\npycep.BicepParser().parse(text='var a = 1\\n')\n"
    import subprocess
    r = subprocess.run([sys.executable, "-B", "-c", probe], capture_output=True, text=True, cwd=scratch, timeout=300)
    usable = r.returncode == 0
    if not usable:
        fails.append({"stream": "construct", "i": 0, "message": "a parser cannot be constructed or does not parse 'var a = 1': " + r.stderr[-1500:]})
    else:
        # construct once in front of the workers, which share it
        if check.preload:
            ctx0.parser(False), ctx0.parser(True)
        if check.setup:
            check.setup(ctx0)
        slot = mmap.mmap(-1, 32 * workers)
        procs, done = {}, set()
        deadline = t0 + budget

        def spawn(w):
            out = os.path.join(scratch, f"out-{w}")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    _worker(w, workers, ctx0, streams, out, slot, deadline)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            procs[w] = [pid, out, (0, 0.0, time.monotonic())]

        for w in range(workers):
            spawn(w)
        while procs:
            time.sleep(0.05)
            for w, (pid, out, mark) in list(procs.items()):
                pos, si, i, busy = struct.unpack_from("qqqq", slot, w * 32)
                cpu = cpu_of(pid)
                if mark[0] != pos:
                    procs[w][2] = mark = (pos, cpu or 0.0, time.monotonic())
                p, status = os.waitpid(pid, os.WNOHANG)
                limit, waited = streams[si].limit, time.monotonic() - mark[2]
                stuck = busy and cpu is not None and cpu - mark[1] > limit and f"used {cpu - mark[1]:.0f} s of CPU time"
                stuck = stuck or busy and waited > max(240, 3 * limit) and f"waited for {waited:.0f} s"
                if p == 0 and not stuck:
                    if time.time() > deadline + 90:
                        kill_tree(pid)
                        os.waitpid(pid, 0)
                        errors.append(f"worker {w} still busy with {streams[si].name}[{i}] long after the deadline")
                        del procs[w]
                    continue
                if p == 0:
                    kill_tree(pid)
                    os.waitpid(pid, 0)
                    fails.append({"stream": streams[si].name, "i": i, "message": f"case {stuck} without coming to an end"})
                    del procs[w]
                    # one stuck case is enough: the others of this worker are given up
                    continue
                del procs[w]
                if os.WIFSIGNALED(status):
                    fails.append({"stream": streams[si].name, "i": i, "message": f"the process died from signal {os.WTERMSIG(status)}"})
                    continue
                if os.WEXITSTATUS(status) != 0 or not os.path.exists(out):
                    errors.append(f"worker {w} ended with status {status} in case {si}:{i}")
                    continue
                with open(out, "rb") as f:
                    c, s, h, sm, fl, kn, er = pickle.load(f)
                counts.update(c)
                for k, v in s.items():
                    seen[k] |= v
                hashes |= h
                samples += sm
                fails += fl
                knowns |= kn
                errors += er
    return finish(t0, prop, tier, seed, check, streams, counts, seen, hashes, samples, fails, knowns, errors)


def finish(t0, prop, tier, seed, check, streams, counts, seen, hashes, samples, fails, knowns, errors):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fails.sort(key=lambda f: (len(f.get("text", "")) or 10**6, f["stream"], f["i"]))
    evs = counts.pop("evaluations", 0)
    # samples: one or two per stream
    per, pick = collections.Counter(), []
    for s in samples:
        if per[s["stream"]] < 2 and len(pick) < 12:
            per[s["stream"]] += 1
            pick.append(s)
    missing = [s.name for s in streams if s.n[tier] and not counts["evaluations of " + s.name]]
    cov = {
        "evaluations": evs, "distinct_nontrivial": len(hashes), "rule": check.rule, "samples": pick or [{"case": "none"}],
        "streams": {s.name: {"cases": counts.pop("cases of " + s.name, 0), "evaluations": counts.pop("evaluations of " + s.name, 0),
                             "enumerates a finite space completely": s.exhaustive, **({"what": s.rule} if s.rule else {})} for s in streams},
        "observed": dict(sorted(counts.items())),
        "distinct observed": {k: {"count": len(v), "some": sorted(map(str, v))[:40]} for k, v in sorted(seen.items())},
    }
    if streams and all(s.exhaustive for s in streams) and not counts.get("cases skipped at the deadline"):
        cov["exhaustive"] = True
    ev = {"property": prop, "tier": tier, "seed": seed, "level": check.level, "coverage": cov, "assumptions": check.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    os.replace(path + ".tmp", path)
    for k in sorted(knowns):
        text = next(t for p, kk, t in known_entries() if kk == k and p == prop)
        print(f"KNOWN-FINDING: property={prop} {text}")
    print(f"{prop} {tier}: {evs} evaluations, {len(hashes)} distinct non-trivial, {ev['wall_s']} s")
    if fails:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, f in enumerate(fails[:5]):
            rp = os.path.join(rdir, f"{prop}-{n}.json")
            with open(rp, "w", encoding="utf-8", errors="backslashreplace") as fh:
                json.dump({"property": prop, "tier": tier, "seed": seed, **f}, fh, indent=1, default=str)
            print(f"  {f['stream']}[{f['i']}]: {f['message'][:700]}")
            if f.get("text"):
                print("    text: " + repr(f["text"])[:700])
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        print("INCONCLUSIVE:", *errors[:5], sep="\n")
        return 3
    if missing or not evs:
        print("INCONCLUSIVE: nothing was judged in " + ", ".join(missing))
        return 3
    return 0


class Check:
    def __init__(self, streams, rule, technique, note, level="exploration", assumptions=(), workers=None, setup=None, preload=True):
        self.streams, self.rule, self.technique, self.note = streams, rule, technique, note
        self.level, self.assumptions, self.workers, self.setup, self.preload = level, list(assumptions), workers, setup, preload
