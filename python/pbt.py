"""A small property-based testing engine, the Python twin of lib/pbt.hpp.

A claim is a function of a Case; everything random it uses is drawn from the
Case, which records each draw as an integer choice. A run is a function of the
choice sequence, so a failure is shrunk by editing that sequence and replayed
from a file. Claims run in forked workers whose choices lie in shared memory, so
a case that ends its process or hangs is a failure like any other.

  @claim(500)
  def name(c): ... c.integer(0, 5) ... c.check(cond, "...")
  @known("name", "what fails")
  def name(): return True      # while the fixed input still fails
  main("P01", "rule text")
"""
import hashlib, json, math, mmap, os, signal, struct, sys, tempfile, time, traceback

M64 = (1 << 64) - 1
CAP = 1 << 15
HEAD = 64


def mix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
    return x ^ (x >> 31)


class Failure(Exception):
    pass


class Discard(Exception):
    pass


class Slot(object):
    """claim, index, running, number of choices; started; the choices"""
    def __init__(self):
        self.m = mmap.mmap(-1, HEAD + 8 * CAP)

    def begin(self, claim, index):
        self.end()
        struct.pack_into("<QQ", self.m, 0, claim, index)
        struct.pack_into("<Qd", self.m, 24, 0, time.time())
        struct.pack_into("<Q", self.m, 16, 1)

    def end(self):
        struct.pack_into("<Q", self.m, 16, 0)

    def choose(self, n, v):
        if n < CAP:
            struct.pack_into("<Q", self.m, HEAD + 8 * n, v)
            struct.pack_into("<Q", self.m, 24, n + 1)

    def state(self):
        return struct.unpack_from("<QQQQd", self.m, 0)

    def choices(self):
        n = self.state()[3]
        return list(struct.unpack_from("<%dQ" % n, self.m, HEAD))


class Case(object):
    def __init__(self, slot, seed=0, replay=None):
        self.slot, self.seed, self.replay, self.pos = slot, seed, replay, 0
        self.hash = 1469598103934665603
        self.isNontrivial = False
        self.checks = 0
        self.labels = set()
        self.notes = []

    # ---- draws; the simplest value is what choice 0 gives ----
    def bits(self, bound):
        if bound <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            if v >= bound:
                v %= bound
        else:
            self.seed = (self.seed + 0x9e3779b97f4a7c15) & M64
            v = (mix(self.seed) * bound) >> 64
        self.slot.choose(self.pos, v)
        self.pos += 1
        self.hash = mix(self.hash ^ v)
        return v

    def integer(self, lo, hi):
        return lo + self.bits(hi - lo + 1)

    def boolean(self):
        return self.bits(2) == 1

    def oneIn(self, n):
        return self.bits(n) == n - 1

    def sign(self):
        return -1.0 if self.boolean() else 1.0

    def real(self, lo, hi):
        n = 1 << 44
        f = self.bits(n) / (n - 1.0)
        if lo < 0 < hi:
            return f * (-lo) * -1.0 if self.bits(2) else f * hi
        return min(hi, max(lo, lo + f * (hi - lo)))

    def logReal(self, lo, hi):
        return min(hi, max(lo, math.exp(self.real(math.log(lo), math.log(hi)))))

    def anyReal(self, m):
        k = self.bits(6)
        if k == 0:
            return 0.0
        if k == 1:
            return float(self.integer(-int(min(m, 10)), int(min(m, 10))))
        if k == 2:
            return self.sign() * self.logReal(1e-12 * m, m)
        return self.real(-m, m)

    def pick(self, seq):
        return seq[self.bits(len(seq))]

    def reals(self, n, lo, hi):
        return [self.real(lo, hi) for _ in range(n)]

    def shuffled(self, seq):
        s = list(seq)
        for i in range(len(s) - 1, 0, -1):
            j = i - self.bits(i + 1)
            s[i], s[j] = s[j], s[i]
        return s

    def subset(self, seq):
        return [x for x in seq if self.boolean()]

    # ---- verdicts ----
    def fail(self, m):
        raise Failure(m + (" | case: " + self.note()[:3000] if self.notes else ""))

    def check(self, ok, m):
        self.checks += 1
        if not ok:
            self.fail(m)

    def eq(self, a, b, m):
        self.checks += 1
        if not (a == b):
            self.fail("%s: got %r, expected %r" % (m, a, b))

    def near(self, a, b, atol, rtol, m):
        import numpy as np
        self.checks += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.fail("%s: shape %s, expected %s" % (m, a.shape, b.shape))
        if a.size == 0:
            return
        tol = atol + rtol * max(np.abs(a).max(), np.abs(b).max())
        if not np.abs(a - b).max() <= tol:
            self.fail("%s: off by %g (tolerance %g)\n got\n%r\n expected\n%r" % (m, np.abs(a - b).max(), tol, a, b))

    def raises(self, f, m, kinds=(Exception,)):
        """f() must be refused with one of the kinds of exception"""
        self.checks += 1
        try:
            r = f()
        except kinds:
            return
        except Failure:
            raise
        except Exception as e:
            self.fail("%s: refused with %s: %s" % (m, type(e).__name__, e))
        self.fail("%s: not refused, gives %r" % (m, r))

    def discard(self):
        raise Discard()

    def nontrivial(self, yes=True):
        if yes:
            self.isNontrivial = True

    def label(self, l):
        self.labels.add(l)

    def say(self, *a):
        self.notes.append(" ".join(str(x) for x in a))

    def note(self):
        return "; ".join(self.notes)


CLAIMS, KNOWNS = [], []


def claim(cases):
    def deco(f):
        CLAIMS.append((f.__name__, cases, f))
        return f
    return deco


def known(name, what):
    def deco(f):
        KNOWNS.append((name, what, f))
        return f
    return deco


def runOne(fn, c):
    """'pass' | 'fail' | 'discard', message"""
    try:
        fn(c)
        return "pass", ""
    except Failure as e:
        return "fail", str(e)
    except Discard:
        return "discard", ""
    except BaseException as e:  # SystemExit too
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        return "fail", "unexpected exception %s: %s (%s)%s" % (
            type(e).__name__, str(e)[:1500], where, " | case: " + c.note()[:3000] if c.notes else "")


def quiet():
    n = os.open("/dev/null", os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)


class Runner(object):
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.seed, self.scale, self.cap, self.hang, self.shrinkTime, self.workers = 1, 1.0, 90.0, 120.0, 15.0, 8
        self.json, self.replays, self.only = None, ".", None
        self.trial = Slot()

    def attempt(self, fn, choices, loud=False):
        """one case in a child: outcome, message, choices used"""
        r, w = os.pipe()
        sys.stdout.flush()
        p = os.fork()
        if p == 0:
            os.close(r)
            if not loud:
                quiet()
            signal.alarm(int(self.hang) + 1)
            self.trial.begin(0, 0)
            c = Case(self.trial, replay=choices)
            o, m = runOne(fn, c)
            sys.stdout.flush()
            os.write(w, ("%s %s" % (o, m)).encode("utf-8", "replace")[:60000])
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(p, 0)
        used = self.trial.choices()
        if data:
            o, _, m = data.decode("utf-8", "replace").partition(" ")
            return o, m, used
        if os.WIFSIGNALED(st):
            s = os.WTERMSIG(st)
            return "fail", "hangs (more than %d s)" % self.hang if s == signal.SIGALRM else "ended by signal %d" % s, used
        return "fail", "ended its process with code %d" % os.WEXITSTATUS(st), used

    def shrink(self, fn, best, msg):
        t0 = time.time()

        def better(cand):
            nonlocal best, msg
            if time.time() - t0 > self.shrinkTime:
                return False
            o, m, used = self.attempt(fn, cand)
            if o == "fail" and (len(used), used) < (len(best), best):
                best, msg = used, m
                return True
            return False

        improved = True
        while improved and time.time() - t0 < self.shrinkTime:
            improved = False
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() - t0 < self.shrinkTime:
                i = 0
                while i < len(best) and time.time() - t0 < self.shrinkTime:
                    if better(best[:i] + best[i + size:]):
                        improved = True
                    else:
                        i += size
                size //= 2
            for i in range(len(best)):
                if i >= len(best) or time.time() - t0 > self.shrinkTime:
                    break
                if best[i] == 0:
                    continue
                if better(best[:i] + [0] + best[i + 1:]):
                    improved = True
                    continue
                lo, hi = 0, best[i]
                while hi - lo > 1 and i < len(best) and time.time() - t0 < self.shrinkTime:
                    mid = (lo + hi) // 2
                    if better(best[:i] + [mid] + best[i + 1:]):
                        improved = True
                        hi = min(mid, best[i]) if i < len(best) else 0
                    else:
                        lo = mid
        return best, msg

    def worker(self, w, nw, slot, start, stop, path, totals):
        quiet()
        stats = {k: [0, 0, 0, 0] for k in range(len(CLAIMS))}  # evaluated, discarded, non-trivial, checks
        labels, hashes, samples, fails = {}, set(), [], {}
        try:
            for k in range(start[0], len(CLAIMS)):
                name, _, fn = CLAIMS[k]
                i = w if k > start[0] else start[1]
                taken = 0
                while i < totals[k]:
                    if stop.m[HEAD + k] or stop.m[HEAD + 1000]:
                        break
                    slot.begin(k, i)
                    c = Case(slot, seed=mix(mix(self.seed) ^ mix(k * 1000003 + 7) ^ (i * 2 + 1)))
                    o, m = runOne(fn, c)
                    if o == "fail":
                        fails[k] = [i, m, slot.choices()]
                        stop.m[HEAD + k] = 1
                    elif o == "discard":
                        stats[k][1] += 1
                    stats[k][3] += c.checks
                    if o != "discard":
                        stats[k][0] += 1
                        if c.isNontrivial:
                            stats[k][2] += 1
                            hashes.add(mix(c.hash ^ mix(k)))
                            if taken < 2 and w == 0 and c.notes:
                                taken += 1
                                samples.append(name + ": " + c.note()[:400])
                        for l in c.labels:
                            labels[l] = labels.get(l, 0) + 1
                    slot.end()
                    i += nw
        finally:
            with open(path, "w") as f:
                json.dump([stats, labels, sorted(hashes), samples, fails], f)
            slot.end()
        os._exit(0)

    def run(self):
        t0 = time.time()
        only = self.only
        totals = [max(1, int(math.ceil(n * self.scale))) if only in (None, name) else 0 for name, n, _ in CLAIMS]
        nw = self.workers
        stop = Slot()
        for k in range(len(CLAIMS)):
            stop.m[HEAD + k] = 0
        tmp = tempfile.mkdtemp(prefix="pbt_")
        slots = [Slot() for _ in range(nw)]
        pids, gen, files = {}, [0] * nw, []
        failed = {}

        def spawn(w, start):
            path = os.path.join(tmp, "w%d.%d" % (w, gen[w]))
            gen[w] += 1
            files.append(path)
            slots[w].end()
            sys.stdout.flush()
            p = os.fork()
            if p == 0:
                try:
                    self.worker(w, nw, slots[w], start, stop, path, totals)
                finally:
                    os._exit(9)
            pids[p] = w

        for w in range(nw):
            spawn(w, (0, w))
        while pids:
            p, st = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                if time.time() - t0 > self.cap:
                    stop.m[HEAD + 1000] = 1
                for q, w in list(pids.items()):
                    s = slots[w].state()
                    # a worker may be writing its slot: believe only what is read twice
                    if s[2] and time.time() - s[4] > self.hang and slots[w].state() == s:
                        time.sleep(0.05)
                        if slots[w].state() != s:
                            continue
                        os.kill(q, signal.SIGKILL)
                time.sleep(0.01)
                continue
            if p not in pids:
                continue
            w = pids.pop(p)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
                continue
            k, i, running, _, started = slots[w].state()
            if running:
                what = "hangs" if time.time() - started > self.hang else (
                    "ended by signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "ended its process")
                if k not in failed:
                    failed[k] = [i, what, slots[w].choices()]
                stop.m[HEAD + k] = 1
                spawn(w, (k, i + nw))
        search = time.time() - t0
        stats = {k: [0, 0, 0, 0] for k in range(len(CLAIMS))}
        labels, hashes, samples = {}, set(), []
        for path in files:
            try:
                d = json.load(open(path))
            except (OSError, ValueError):
                continue
            finally:
                if os.path.exists(path):
                    os.unlink(path)
            for k, v in d[0].items():
                for j in range(4):
                    stats[int(k)][j] += v[j]
            for l, n in d[1].items():
                labels[l] = labels.get(l, 0) + n
            hashes.update(d[2])
            samples += d[3]
            for k, v in d[4].items():
                failed.setdefault(int(k), v)
        os.rmdir(tmp)
        violations = unconfirmed = 0
        for k in sorted(failed):
            name, _, fn = CLAIMS[k]
            index, msg, choices = failed[k]

            def confirmed(v):
                nonlocal msg
                for _ in range(3):
                    o, m, _u = self.attempt(fn, v)
                    if o != "fail":
                        return False
                    msg = m
                return True
            if not confirmed(choices):
                unconfirmed += 1
                sys.stderr.write("UNCONFIRMED %s %s: %s\n" % (self.pid, name, msg))
                continue
            best, _m = self.shrink(fn, choices, msg)
            if not confirmed(best):
                best = choices
                confirmed(best)
            violations += 1
            path = os.path.join(self.replays, "%s-%s.replay" % (self.pid, name))
            with open(path, "w") as f:
                f.write("property %s\nclaim %s\nchoices %d%s\nmessage %s\n" % (
                    self.pid, name, len(best), "".join(" %d" % v for v in best), json.dumps(msg)))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  claim %s (case %d of seed %d): %s" % (name, index, self.seed, msg))
        kn = []
        for name, what, fn in KNOWNS:
            def wrapped(c, fn=fn):
                c.check(not fn(), "still fails")
            kn.append({"name": name, "what": what, "fails": self.attempt(wrapped, [])[0] == "fail"})
        out = {"claims": {CLAIMS[k][0]: {"cases": s[0], "nontrivial": s[2], "discarded": s[1], "checks": s[3],
                                         "planned": totals[k]} for k, s in stats.items()},
               "labels": labels, "samples": samples, "known": kn, "evaluations": sum(s[0] for s in stats.values()),
               "distinct_nontrivial": len(hashes), "nontrivial": sum(s[2] for s in stats.values()), "rule": self.rule,
               "violations": violations, "unconfirmed": unconfirmed, "search_s": search}
        if self.json:
            with open(self.json, "w") as f:
                json.dump(out, f)
        return 1 if violations else 0

    def replay(self, path):
        name, choices = None, []
        for line in open(path):
            word, _, rest = line.strip().partition(" ")
            if word == "claim":
                name = rest
            elif word == "choices":
                choices = [int(x) for x in rest.split()[1:]]
        for n, _, fn in CLAIMS:
            if n == name:
                o, m, _u = self.attempt(fn, choices, loud=True)
                print("%s %s" % ({"fail": "FAILS", "pass": "passes", "discard": "discarded"}[o], m))
                return 1 if o == "fail" else 0
        sys.stderr.write("no such claim\n")
        return 2


def main(pid, rule):
    r, a = Runner(pid, rule), sys.argv[1:]
    rep = None
    while a:
        k = a.pop(0)
        if k == "--list":
            for n, cases, _ in CLAIMS:
                print(n, cases)
            sys.exit(0)
        v = a.pop(0)
        if k == "--seed": r.seed = int(v)
        elif k == "--scale": r.scale = float(v)
        elif k == "--cap": r.cap = float(v)
        elif k == "--hang": r.hang = float(v)
        elif k == "--shrink": r.shrinkTime = float(v)
        elif k == "--workers": r.workers = int(v)
        elif k == "--json": r.json = v
        elif k == "--replays": r.replays = v
        elif k == "--only": r.only = v
        elif k == "--replay": rep = v
        else:
            sys.stderr.write("unknown argument %s\n" % k)
            sys.exit(2)
    sys.stdout.flush()
    code = r.replay(rep) if rep else r.run()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
