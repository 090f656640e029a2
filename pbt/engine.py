"""A small property-based testing engine: generators draw from a recorded choice sequence, failures are shrunk by
editing that sequence (the approach of Hypothesis/minithesis, without its per-draw cost: tools here run in 3 ms).

A generator is a function of a Draw; smaller choices mean simpler values.
"""
import random, time


class Draw:
    __slots__ = ("rng", "prefix", "choices", "_tmp")

    def __init__(self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self._tmp = None

    def n(self, hi):
        """integer in [0, hi]"""
        i = len(self.choices)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v > hi:
                v = hi
        elif self.rng is not None:
            v = int(self.rng.random() * (hi + 1)) if hi else 0
        else:
            v = 0
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.n(hi - lo)

    def bool(self):
        return self.n(1) == 1

    def chance(self, num, den=100):
        """True with probability num/den; False is the simpler value"""
        i = len(self.choices)
        if i < len(self.prefix):
            v = 1 if self.prefix[i] else 0
        elif self.rng is not None:
            v = 1 if self.rng.random() * den < num else 0
        else:
            v = 0
        self.choices.append(v)
        return v == 1

    def pick(self, xs):
        return xs[self.n(len(xs) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; simplest first"""
        tot = sum(w for w, _ in pairs)
        i = len(self.choices)
        if i < len(self.prefix):
            k = min(self.prefix[i], len(pairs) - 1)
        elif self.rng is not None:
            x = self.rng.random() * tot
            k = 0
            while k < len(pairs) - 1 and x >= pairs[k][0]:
                x -= pairs[k][0]
                k += 1
        else:
            k = 0
        if not pairs[k][0]:
            k = next(j for j, (w, _) in enumerate(pairs) if w)
        self.choices.append(k)
        return pairs[k][1]

    def list(self, f, lo=0, hi=5, p=60):
        """list of f(self); continues with probability p% between lo and hi"""
        out = []
        while len(out) < hi:
            if len(out) >= lo and not self.chance(p):
                break
            out.append(f(self))
        return out

    def str(self, alphabet, lo=0, hi=5, p=60):
        return "".join(self.list(lambda d: d.pick(alphabet), lo, hi, p))

    def subset(self, xs, p=50):
        return [x for x in xs if self.chance(p)]

    def shuffled(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.n(i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


def generate(gen, rng):
    d = Draw(rng)
    return gen(d), d.choices


def replay(gen, choices):
    d = Draw(None, choices)
    return gen(d), d.choices


def shrink(gen, fails, choices, deadline):
    """fails(case) -> bool.  Returns the smallest failing (case, choices) found before the deadline."""
    seen = set()
    best = [None, list(choices)]
    best[0], best[1] = replay(gen, best[1])

    def key(c):
        return (len(c), c)

    def attempt(c):
        if time.time() > deadline:
            raise TimeoutError
        t = tuple(c)
        if t in seen:
            return False
        seen.add(t)
        try:
            case, used = replay(gen, c)
        except Exception:
            return False
        if key(used) >= key(best[1]):
            return False
        tu = tuple(used)
        if tu != t:
            if tu in seen:
                return False
            seen.add(tu)
        if fails(case):
            best[0], best[1] = case, used
            return True
        return False

    try:
        improved = True
        while improved:
            improved = False
            # delete blocks
            for k in (64, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1):
                i = len(best[1]) - k
                while i >= 0:
                    c = best[1]
                    if i + k <= len(c):
                        new = c[:i] + c[i + k:]
                        if attempt(new):
                            improved = True
                        elif i > 0 and c[i - 1] > 0:
                            new2 = list(new)
                            new2[i - 1] -= 1
                            if attempt(new2):
                                improved = True
                    i -= 1 if k <= 8 else k // 2
            # zero blocks
            for k in (8, 4, 2, 1):
                i = len(best[1]) - k
                while i >= 0:
                    c = best[1]
                    if i + k <= len(c) and any(c[i:i + k]):
                        if attempt(c[:i] + [0] * k + c[i + k:]):
                            improved = True
                    i -= 1
            # lower values
            i = len(best[1]) - 1
            while i >= 0:
                if i < len(best[1]) and best[1][i] > 0:
                    lo, hi = 0, best[1][i]
                    while lo + 1 < hi:
                        mid = (lo + hi) // 2
                        if i < len(best[1]) and attempt(best[1][:i] + [mid] + best[1][i + 1:]):
                            hi = mid
                            improved = True
                        else:
                            lo = mid
                    if i < len(best[1]) and best[1][i] > 0 and attempt(best[1][:i] + [best[1][i] - 1] + best[1][i + 1:]):
                        improved = True
                i -= 1
    except TimeoutError:
        pass
    return best[0], best[1]
