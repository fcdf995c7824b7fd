"""Property-based testing engine: tape-driven generators, batched execution,
shrinking on the tape, replay confirmation and evidence.

Every random choice of a case is drawn from one Tape.  A tape is seeded from
(VERIF_SEED, property, case index) or replays a recorded list of choices, so a
case is a pure function of its tape.  Shrinking edits the recorded choices
(delete chunks, zero, halve, decrement) and regenerates the case.
"""
import hashlib, json, os, random, sys, time, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Tape:
    __slots__ = ("rng", "rec", "pos", "replay")

    def __init__(self, seed=None, replay=None):
        self.rec = []
        self.pos = 0
        self.replay = replay
        self.rng = random.Random(seed) if replay is None else None

    def below(self, n):
        """uniform in [0, n); 0 is the simplest choice"""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = v if 0 <= v < n else v % n
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def near0(self, lo, hi):
        """integer in [lo,hi], shrinks to the value closest to 0"""
        z = min(max(0, lo), hi)
        v = self.below(hi - lo + 1)
        # order: z, z+1, z-1, ...
        up, down = hi - z, z - lo
        m = min(up, down)
        if v <= 2 * m:
            return z + (v + 1) // 2 if v % 2 else z - v // 2
        k = v - m
        return z + k if up > down else z - k

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks to False"""
        return self.below(den) >= den - num

    def choice(self, xs):
        return xs[self.below(len(xs))]

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        v = self.below(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.below(i + 1)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def bits(self, signed, width):
        """integer of the type, biased to boundaries and small values"""
        lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
        k = self.below(10)
        if k < 5:
            return self.near0(max(lo, -20), 20)
        if k < 7:
            b = self.below(width)
            v = (1 << b) + self.near0(-1, 1)
            if signed and self.bool():
                v = -v
            return min(max(v, lo), hi)
        if k == 7:
            return self.choice([hi, lo, hi - 1, lo + 1, hi // 2])
        return lo + self.below(hi - lo + 1)

    def real_ratio(self):
        return self.below(1000) / 1000.0


class Bad(Exception):
    """Generator could not build a case from this tape (discarded)."""


class Case:
    """One generated case. Subclasses add payload; `key` identifies it for
    distinctness; `classes` is a list of labels for the distribution."""
    key = None
    nontrivial = True
    classes = ()

    def text(self):
        return str(self.key)


class Check:
    """Base class of all checks.

    gen(tape) -> Case ; run(cases) -> list of None|str (failure message).
    """
    prop = None
    quick_cases = 400
    thorough_factor = 12
    batch = 40
    workers = 8
    rule = ""
    level = "exploration"
    assumptions = ()
    max_wall_quick = 420
    max_wall_thorough = 6 * 3600
    shrink_budget = 160
    shrink_wall = 60

    keep_going = False
    abort = False       # set once enough failures were found: in-flight batches stop

    # ---- to override
    def setup(self):
        pass

    def gen(self, t):
        raise NotImplementedError

    def run(self, cases):
        raise NotImplementedError

    def known(self):
        """probe known findings: yields (description, still_failing)"""
        return []

    def extra_evidence(self):
        return {}

    def finish(self):
        pass

    # ---- engine
    def case_from_seed(self, i):
        for k in range(200):
            t = Tape(seed="%s/%s/%d/%d" % (self.seed, self.prop, i, k))
            try:
                c = self.gen(t)
            except Bad:
                with self.lock:
                    self.discarded += 1
                continue
            c.tape = t.rec
            return c
        raise RuntimeError("generator of %s discards everything" % self.prop)

    def case_from_tape(self, rec):
        t = Tape(replay=rec)
        try:
            c = self.gen(t)
        except Bad:
            return None
        c.tape = t.rec
        return c

    def fails(self, case):
        r = self.run([case])
        return r[0]

    def shrink(self, case, msg):
        best, bmsg = case, msg
        end = time.time() + self.shrink_wall
        tried = 0
        seen = set()

        def attempt(rec):
            nonlocal best, bmsg, tried
            if tried >= self.shrink_budget or time.time() > end:
                return False
            k = tuple(rec)
            if k in seen:
                return False
            seen.add(k)
            c = self.case_from_tape(list(rec))
            if c is None or (len(c.tape), c.tape) >= (len(best.tape), best.tape):
                return False
            tried += 1
            m = self.fails(c)
            if m is None or self.fail_class(m) != self.fail_class(msg):
                return False
            best, bmsg = c, m
            return True

        improved = True
        while improved and tried < self.shrink_budget and time.time() < end:
            improved = False
            n = len(best.tape)
            size = max(1, n // 2)
            while size >= 1:
                i = 0
                while i < len(best.tape):
                    rec = best.tape[:i] + best.tape[i + size:]
                    if attempt(rec):
                        improved = True
                    else:
                        i += size
                size //= 2
            size = max(1, len(best.tape) // 2)
            while size >= 2:
                i = 0
                while i < len(best.tape):
                    if any(best.tape[i:i + size]):
                        if attempt(best.tape[:i] + [0] * min(size, len(best.tape) - i) + best.tape[i + size:]):
                            improved = True
                    i += size
                size //= 2
            for i in range(len(best.tape)):
                if i >= len(best.tape) or best.tape[i] == 0:
                    continue
                for v in (0, best.tape[i] // 2, best.tape[i] - 1):
                    if i < len(best.tape) and v < best.tape[i]:
                        if attempt(best.tape[:i] + [v] + best.tape[i + 1:]):
                            improved = True
                            break
        return best, bmsg

    def group_fails(self, g):
        if not g:
            return None
        for r in self.run(list(g)):
            if r is not None:
                return r
        return None

    def shrink_group(self, grp):
        """the failure needs several cases together: minimise the set"""
        m = self.group_fails(grp)
        if m is None or self.group_fails(grp) is None or self.group_fails(grp) is None:
            return None, None
        end = time.time() + self.shrink_wall
        best = list(grp)
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                cand = best[:i] + best[i + size:]
                mm = self.group_fails(cand)
                if mm is not None:
                    best, m = cand, mm
                else:
                    i += size
            size //= 2
        if all(self.group_fails(best) for _ in range(3)):
            return best, m
        return None, None

    def fail_class(self, msg):
        return msg.split(":", 1)[0]

    def write_replay(self, case, msg):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        if isinstance(case, list):
            tapes = [c.tape for c in case]
            text = "\n".join(c.text() for c in case)
        else:
            tapes, text = [case.tape], case.text()
        h = hashlib.sha1(json.dumps(tapes).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "tapes": tapes, "message": msg[:4000],
                       "case": text}, f, indent=1)
        return p

    def main(self, argv):
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if "--thorough" in argv:
            self.tier = "thorough"
        self.lock = threading.Lock()
        self.discarded = 0
        t0 = time.time()
        self.setup()
        if "--replay" in argv:
            rp = json.load(open(argv[argv.index("--replay") + 1]))
            cs = [self.case_from_tape(x) for x in rp["tapes"]]
            for c in cs:
                print(c.text())
            m = self.group_fails(cs)
            print("FAILS: %s" % m if m else "passes")
            return 1 if m else 0
        if "--show" in argv:
            c = self.case_from_seed(int(argv[argv.index("--show") + 1]))
            print(c.text())
            print(self.fails(c))
            return 0
        n = self.quick_cases
        if self.tier == "thorough":
            n *= self.thorough_factor
        if os.environ.get("VERIF_CASES"):
            n = int(os.environ["VERIF_CASES"])
        limit = self.max_wall_quick if self.tier == "quick" else self.max_wall_thorough
        known_lines = []
        for desc, still in self.known():
            if still:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (self.prop, desc))
        evals = 0
        keys = set()
        dist = {}
        samples = []
        failures = []
        keep_going = self.keep_going = bool(os.environ.get("VERIF_KEEP_GOING"))
        idx = 0
        stop = False

        def do_batch(lo, hi):
            cases = [self.case_from_seed(i) for i in range(lo, hi)]
            if stop:
                return [], []
            return cases, self.run(cases)

        maxfail = int(os.environ.get("VERIF_MAXFAIL", "1000")) if keep_going else 1
        with ThreadPoolExecutor(self.workers) as ex:
            pending = {}
            order = []
            while idx < n or pending:
                while idx < n and len(pending) < self.workers * 2 and not stop:
                    hi = min(n, idx + self.batch)
                    f = ex.submit(do_batch, idx, hi)
                    pending[f] = idx
                    idx = hi
                if not pending:
                    break
                f = min(pending, key=lambda q: pending[q]) if not any(q.done() for q in pending) else \
                    min((q for q in pending if q.done()), key=lambda q: pending[q])
                cases, res = f.result()
                del pending[f]
                grp = cases
                for c, r in zip(cases, res):
                    evals += 1
                    for l in c.classes:
                        dist[l] = dist.get(l, 0) + 1
                    if c.nontrivial:
                        k = c.key if c.key is not None else c.text()
                        h = hashlib.sha1(repr(k).encode()).digest()[:12]
                        if h not in keys:
                            keys.add(h)
                            if len(samples) < 3 and len(keys) % 7 == 1:
                                samples.append(c.text()[:3000])
                    if r is not None:
                        failures.append((c, r, grp))
                if len(failures) >= maxfail or time.time() - t0 > limit:
                    stop = True
                    self.abort = True
                    idx = n
        self.abort = False
        rc = 0
        reported = 0
        unconfirmed = 0
        for c, r, grp in failures[: (50 if keep_going else 6)]:
            m = self.fails(c)
            if m is None:
                # only in company of its batch mates: retry, else not counted
                m = self.fails(c)
                if m is None:
                    g, gm = self.shrink_group(grp)
                    if g is None:
                        unconfirmed += 1
                        print("note: failure did not reproduce: %s" % r[:500], file=sys.stderr)
                        continue
                    p = self.write_replay(g, gm)
                    print("---- group of %d cases\n%s\n---- %s" % (len(g), "\n".join(x.text() for x in g)[:6000], gm[:3000]))
                    print("VIOLATION property=%s replay=%s" % (self.prop, p))
                    reported += 1
                    rc = 1
                    if not keep_going:
                        break
                    continue
            best, bm = self.shrink(c, m) if not os.environ.get("VERIF_NOSHRINK") else (c, m)
            if all(self.fails(best) for _ in range(3)):
                p = self.write_replay(best, bm)
                print("---- shrunk case\n%s\n---- %s" % (best.text(), bm[:3000]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                reported += 1
                rc = 1
                if not keep_going:
                    break
            else:
                unconfirmed += 1
                print("note: failure not reproducible 3x: %s" % bm[:500], file=sys.stderr)
        for l in known_lines:
            print(l)
        self.finish()
        cov = {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": self.rule,
               "samples": samples or ["(none)"], "distribution": dict(sorted(dist.items())),
               "discarded": self.discarded, "unconfirmed": unconfirmed,
               "known_findings_still_present": len(known_lines)}
        cov.update(self.extra_evidence())
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": list(self.assumptions),
              "wall_s": round(time.time() - t0, 2), "violations": reported}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d cases, %d distinct non-trivial, %d violation(s), %.1fs" %
              (self.prop, evals, len(keys), reported, time.time() - t0))
        return rc
