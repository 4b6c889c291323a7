"""A Hypothesis backend with even distributions.

Hypothesis draws integers (and thereby the members of sampled_from) from a distribution concentrated at zero: with a few
hundred cases, the later members of a list of choices may never be drawn. Here, integers and floats of a bounded range
are drawn evenly. Shrinking and replay are Hypothesis' own.
"""
import math
from hypothesis.internal.conjecture.providers import HypothesisProvider, AVAILABLE_PROVIDERS


class UniformProvider(HypothesisProvider):
    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
        if min_value is not None and max_value is not None and weights is None:
            return self._random.randint(min_value, max_value)
        return super().draw_integer(min_value, max_value, weights=weights, shrink_towards=shrink_towards)

    def draw_float(self, *, min_value=-math.inf, max_value=math.inf, allow_nan=True, smallest_nonzero_magnitude):
        r = self._random.random()
        if r > .15 and math.isfinite(min_value) and math.isfinite(max_value) and math.isfinite(max_value - min_value):
            x = min(max(min_value + (max_value - min_value) * self._random.random(), min_value), max_value)
            if r < .4:
                x = min(max(float(round(x, 1)), min_value), max_value)
            if x == 0 or abs(x) >= smallest_nonzero_magnitude:
                return x
        return super().draw_float(min_value=min_value, max_value=max_value, allow_nan=allow_nan, smallest_nonzero_magnitude=smallest_nonzero_magnitude)


AVAILABLE_PROVIDERS["uniform"] = UniformProvider
