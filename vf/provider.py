"""Where the random choices of most generated cases come from.

Hypothesis' own engine spends most of a small budget on mutations of a few
cases and favours small integers: of 40 cases some 7 are independent. Here
every case is drawn afresh. A choice between a few values goes through all of
them in random order before any is repeated (per argument), so that each is
met; larger ranges are uniform with extra weight on their ends. Hypothesis
still does the shrinking.
"""
import math
import random

from hypothesis.internal.conjecture import providers as P

STATE = {"seed": 0, "arg": ""}


class Fresh(P.PrimitiveProvider):
    lifetime = "test_function"

    def __init__(self, conjecturedata, /):
        super().__init__(conjecturedata)
        self.r = random.Random(STATE["seed"])
        self.decks = {}
        self.count = {}

    def per_test_case_context_manager(self):
        import contextlib

        @contextlib.contextmanager
        def ctx():
            self.count = {}
            yield
        return ctx()

    def _deck(self, lo, hi):
        arg = STATE["arg"]
        n = self.count[arg] = self.count.get(arg, 0) + 1
        deck = self.decks.setdefault((arg, n, lo, hi), [])
        if not deck:
            deck.extend(range(lo, hi + 1))
            self.r.shuffle(deck)
        return deck.pop()

    def draw_boolean(self, p=0.5):
        if p <= 0 or p >= 1:
            return p >= 1
        if p == 0.5:
            return bool(self._deck(0, 1))
        return self.r.random() < p

    def draw_integer(self, min_value=None, max_value=None, *, weights=None,
                     shrink_towards=0):
        lo = -2 ** 31 if min_value is None else min_value
        hi = max(lo, 2 ** 31) if max_value is None else max_value
        if hi - lo < 12:
            return self._deck(lo, hi)
        if hi - lo < 2 ** 24 and self.r.random() < 0.08:
            return self.r.choice([lo, lo + 1, hi, hi - 1])
        return self.r.randint(lo, hi)

    def draw_float(self, *, min_value=-math.inf, max_value=math.inf,
                   allow_nan=True, smallest_nonzero_magnitude=0.0):
        lo, hi = max(min_value, -1e9), min(max_value, 1e9)
        u = self.r.random()
        if u < 0.08:
            x = self.r.choice([lo, hi, min(max(0.0, lo), hi),
                               float(min(max(round((lo + hi) / 2), lo), hi))])
        elif u < 0.16 and math.floor(hi) >= math.ceil(lo):
            x = float(self.r.randint(math.ceil(lo), math.floor(hi)))
        else:
            x = lo + (hi - lo) * self.r.random()
        x = min(max(x, lo), hi)
        if abs(x) < smallest_nonzero_magnitude:
            x = 0.0 if lo <= 0 <= hi else lo
        return x

    def draw_string(self, intervals, *, min_size=0, max_size=10):
        n = self.r.randint(min_size, min(max_size, min_size + 10))
        return "".join(chr(intervals[self.r.randrange(len(intervals))])
                       for _ in range(n))

    def draw_bytes(self, min_size=0, max_size=10):
        return self.r.randbytes(self.r.randint(min_size,
                                               min(max_size, min_size + 10)))


P.AVAILABLE_PROVIDERS["vf"] = Fresh
