"""Property testing engine, the same idea as harness/src/engine.rs.

A case is a function of a tape of bounded integers.  Exploring, the tape is
drawn from a generator seeded by (VERIF_SEED, property, case index); a failing
tape is shrunk by deleting, zeroing and lowering draws, and the shrunk tape is
the replay file.
"""
import hashlib
import json
import mmap
import os
import pickle
import random
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

WORKERS = 8
BUDGET = 780  # seconds for a whole run: longer is no answer


class Fail(Exception):
    """The property does not hold for this case."""


def ensure(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


class Src:
    def __init__(self, seed=None, tape=None):
        self.rng = random.Random(seed) if tape is None else None
        self.tape = tape
        self.rec = []

    def upto(self, top):
        """A number in 0..=top; smaller is simpler."""
        if self.rng is not None:
            v = int(self.rng.random() * (top + 1)) if top < 1 << 40 else self.rng.randrange(top + 1)
        else:
            i = len(self.rec)
            v = min(self.tape[i], top) if i < len(self.tape) else 0
        self.rec.append(v)
        return v

    def below(self, n):
        return self.upto(n - 1)

    def range(self, lo, hi):
        return lo + self.upto(hi - lo)

    def bool(self):
        return self.upto(1) == 1

    def one_in(self, n):
        return self.upto(n - 1) == n - 1

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def weighted(self, ws):
        x = self.upto(sum(ws) - 1)
        for i, w in enumerate(ws):
            if x < w:
                return i
            x -= w
        return len(ws) - 1

    def size(self, top):
        """Small sizes more often."""
        return min(self.upto(top), self.upto(top)) if self.bool() else self.upto(top)


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.known = set()
        self.labels = {}
        self.reset()

    def reset(self):
        self.k = None
        self.non = False
        self.notes = []

    def key(self, *x):
        self.k = hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest()

    def nontrivial(self, x=True):
        self.non = self.non or bool(x)

    def note(self, t):
        self.notes.append(t)

    def label(self, t):
        self.labels[t] = self.labels.get(t, 0) + 1


def run_case(prop, src, ctx):
    """None if the property held, else what went wrong."""
    ctx.reset()
    try:
        prop.case(src, ctx)
    except Fail as e:
        return str(e)
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # includes the panic exception
        where = "".join(traceback.format_tb(e.__traceback__)[-1:]).strip()
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, where)
    return None


def src_of(prop, seed, i):
    return Src(seed="%d/%s/%d" % (seed, prop.id, i))


def limits(log):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 2)


def worker(prop, seed, n, w, base, shared):
    scratch = os.path.join(base, "w%d" % w)
    os.mkdir(scratch)
    limits(os.path.join(base, "err%d" % w))
    ctx = Ctx(scratch)
    keys, samples, done, bad = set(), [], 0, None
    for i in range(w, n, WORKERS):
        struct.pack_into("<q", shared, 8 * w, i)
        src = src_of(prop, seed, i)
        err = run_case(prop, src, ctx)
        if err is not None:
            bad = (i, src.rec, err)
            break
        done += 1
        if ctx.non:
            if ctx.k not in keys and len(samples) < 2:
                samples.append("\n".join(ctx.notes)[:1500])
            keys.add(ctx.k)
    with open(os.path.join(base, "out%d" % w), "wb") as f:
        pickle.dump((done, keys, samples, bad, ctx.known, ctx.labels), f)


def attempt(prop, tape, base):
    """In a child: 'ok', ('fail', tape, text, notes) or ('crash', signal)."""
    out = os.path.join(base, "attempt")
    if os.path.exists(out):
        os.unlink(out)
    scratch = os.path.join(base, "replay")
    pid = os.fork()
    if pid == 0:
        try:
            os.makedirs(scratch, exist_ok=True)
            limits(os.path.join(base, "err-replay"))
            ctx, src = Ctx(scratch), Src(tape=tape)
            err = run_case(prop, src, ctx)
            with open(out, "wb") as f:
                pickle.dump((err, src.rec, "\n".join(ctx.notes)), f)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(9)
    st = wait(pid, time.time() + 120)
    if st is None:
        return ("hang",)
    if os.WIFSIGNALED(st):
        return ("crash", os.WTERMSIG(st))
    if os.WEXITSTATUS(st) != 0:
        return ("error",)
    with open(out, "rb") as f:
        err, rec, notes = pickle.load(f)
    return "ok" if err is None else ("fail", rec, err, notes)


def wait(pid, until):
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return st
        if time.time() > until:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None
        time.sleep(0.002)


def shrink_in_process(prop, tape, base):
    """Shrink a failure that can be caught; runs in a child."""
    scratch = os.path.join(base, "shrink")
    os.makedirs(scratch, exist_ok=True)
    ctx = Ctx(scratch)
    end = time.time() + 40

    def fails(t):
        src = Src(tape=t)
        return src.rec if run_case(prop, src, ctx) is not None else None

    best = list(tape)
    tries = 0
    changed = True
    while changed and tries < 6000 and time.time() < end:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and tries < 6000 and time.time() < end:
            i = 0
            while i < len(best) and tries < 6000 and time.time() < end:
                tries += 1
                r = fails(best[:i] + best[i + size:])
                if r is not None and (len(r), r) < (len(best), best):
                    best, changed = r, True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or tries > 6000 or time.time() > end:
                break
            for v in [0, best[i] // 2, best[i] - 1]:
                if i < len(best) and 0 <= v < best[i]:
                    tries += 1
                    r = fails(best[:i] + [v] + best[i + 1:])
                    if r is not None and (len(r), r) < (len(best), best):
                        best, changed = r, True
                        break
    return best


def shrink(prop, tape, base):
    out = os.path.join(base, "shrunk")
    pid = os.fork()
    if pid == 0:
        try:
            limits(os.path.join(base, "err-shrink"))
            best = shrink_in_process(prop, tape, base)
            with open(out, "wb") as f:
                pickle.dump(best, f)
        finally:
            os._exit(0)
    wait(pid, time.time() + 90)
    if os.path.exists(out):
        with open(out, "rb") as f:
            return pickle.load(f)
    return tape


def full_tape(prop, seed, i, base):
    """Tape of a case that kills the process: record draws in a shared file."""
    path = os.path.join(base, "tape")
    pid = os.fork()
    if pid == 0:
        try:
            os.makedirs(os.path.join(base, "replay"), exist_ok=True)
            limits(os.path.join(base, "err-replay"))
            src = src_of(prop, seed, i)
            f = open(path, "wb", buffering=0)
            draw = src.upto

            def upto(top):
                v = draw(top)
                f.write(b"%d\n" % v)
                return v

            src.upto = upto
            run_case(prop, src, Ctx(os.path.join(base, "replay")))
        finally:
            os._exit(0)
    wait(pid, time.time() + 120)
    with open(path, "rb") as f:
        return [int(x) for x in f.read().split()]


def oom(base, names):
    for n in names:
        try:
            with open(os.path.join(base, n), "rb") as f:
                if b"memory allocation of" in f.read():
                    return True
        except OSError:
            pass
    return False


def run(prop, seed, tier, evidence):
    t0 = time.time()
    n = prop.quick if tier == "quick" else prop.thorough
    if os.environ.get("VH_CASES"):
        n = int(os.environ["VH_CASES"])
    base = tempfile.mkdtemp(prefix="vp-%s-" % prop.id)
    try:
        return explore(prop, seed, tier, n, base, evidence, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def explore(prop, seed, tier, n, base, evidence, t0):
    shared = mmap.mmap(-1, 8 * WORKERS)
    for w in range(WORKERS):
        struct.pack_into("<q", shared, 8 * w, -1)
    pids = []
    for w in range(WORKERS):
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                worker(prop, seed, n, w, base, shared)
                code = 0
            except BaseException:
                traceback.print_exc()
            os._exit(code)
        pids.append(pid)
    bad, crashed, known, labels, keys, samples, done = [], [], set(), {}, set(), [], 0
    budget = BUDGET if tier == "quick" else 6 * 3600
    for w, pid in enumerate(pids):
        st = wait(pid, t0 + budget)
        at = struct.unpack_from("<q", shared, 8 * w)[0]
        if st is None:
            print("no answer: out of time at case %d" % at, file=sys.stderr)
            for p in pids[w + 1:]:
                os.kill(p, signal.SIGKILL)
            return 2
        if os.WIFSIGNALED(st):
            if os.WTERMSIG(st) == signal.SIGKILL or oom(base, ["err%d" % w]):
                print("no answer: out of memory at case %d" % at, file=sys.stderr)
                return 2
            crashed.append((at, os.WTERMSIG(st)))
            continue
        if os.WEXITSTATUS(st) != 0:
            with open(os.path.join(base, "err%d" % w), errors="replace") as f:
                print("harness error at case %d:\n%s" % (at, f.read()[-3000:]), file=sys.stderr)
            return 2
        with open(os.path.join(base, "out%d" % w), "rb") as f:
            d, k, s, b, kn, la = pickle.load(f)
        done += d
        keys |= k
        samples += s
        known |= kn
        for x, c in la.items():
            labels[x] = labels.get(x, 0) + c
        if b:
            bad.append(b)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop.id, k))
    first = min([b[0] for b in bad] + [c[0] for c in crashed], default=None)
    replay = None
    if first is not None:
        sig = dict(crashed).get(first)
        if sig is None:
            tape = [b for b in bad if b[0] == first][0][1]
            tape = shrink(prop, tape, base)
            r = attempt(prop, tape, base)
            if not (isinstance(r, tuple) and r[0] == "fail"):
                b = [b for b in bad if b[0] == first][0]
                r = ("fail", b[1], b[2], "")
            text, notes = r[2], r[3]
        else:
            tape = full_tape(prop, seed, first, base)
            text, notes = "the interpreter was killed by signal %d" % sig, ""
        replay = os.path.join(evidence, "replay-%s.json" % prop.id)
        with open(replay, "w") as f:
            json.dump({"property": prop.id, "seed": seed, "case": first, "tape": tape, "failure": text, "case_text": notes}, f, indent=1)
        print("case %d fails (shrunk to %d draws):\n%s\n%s" % (first, len(tape), text, notes))
    ev = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done + len(bad) + len(crashed),
            "distinct_nontrivial": len(keys),
            "rule": prop.rule,
            "samples": samples[:6],
            "labels": labels,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": 1 if replay else 0,
    }
    with open(os.path.join(evidence, prop.id + ".json.new"), "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(os.path.join(evidence, prop.id + ".json.new"), os.path.join(evidence, prop.id + ".json"))
    print("%s: %d cases, %d distinct and non-trivial, %.1f s" % (prop.id, done + len(bad) + len(crashed), len(keys), time.time() - t0))
    if replay:
        print("VIOLATION property=%s replay=%s" % (prop.id, replay))
        return 1
    return 0


def replay(props, path):
    with open(path) as f:
        r = json.load(f)
    prop = props[r["property"]]
    base = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        a = attempt(prop, r["tape"], base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if a == "ok":
        print("the property holds for this case")
        return 0
    if a[0] == "fail":
        print("%s\n%s" % (a[2], a[3]))
    else:
        print("the interpreter was killed: %r" % (a,))
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1
