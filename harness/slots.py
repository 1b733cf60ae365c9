"""Drawing structures and other compile-time choices from Hypothesis, seeded."""

import hypothesis
from hypothesis import HealthCheck, Phase, settings

import json


def draw(strategy, n, seed):
    """n distinct draws, a pure function of the seed"""
    out, seen = [], set()

    @hypothesis.seed(seed)
    @settings(
        max_examples=max(40, 6 * n),
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate,),
    )
    @hypothesis.given(strategy)
    def collect(x):
        key = json.dumps(x, sort_keys=True)
        if key not in seen:
            seen.add(key)
            out.append(x)

    collect()
    # the first draws of a run are the simplest ones: take from the end
    return out[-n:]
