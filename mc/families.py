"""
Configurations the checks explore.

A scenario is a plain tuple (kind, xs, ys, params, context name, budgets): the
strategy to build, finite domains of coordinates (`ys` is `None` when the y
strategy is omitted), sizes parameters and the budgets of `explorer.explore`.
Everything here is a deterministic enumeration; nothing is sampled.
"""
from fractions import Fraction
from itertools import combinations, product
from typing import Any, NamedTuple


class Scenario(NamedTuple):
    kind: str
    xs: Any
    ys: Any
    params: dict
    context: str = 'int'
    budgets: dict = {}
    rich: bool = False


# -- gap patterns ------------------------------------------------------------

def uniform(p):
    return (1,) * (p - 1)


def near_uniform(p, count, alphabet):
    """gaps sequences with at most `count` gaps other than 1"""
    size = p - 1
    for amount in range(count + 1):
        for indices in combinations(range(size), amount):
            for values in product(alphabet, repeat=amount):
                gaps = [1] * size
                for index, value in zip(indices, values):
                    gaps[index] = value
                yield tuple(gaps)


def all_gaps(p, alphabet):
    return product(alphabet, repeat=p - 1)


def wild(p):
    """strongly irregular gaps sequences"""
    size = p - 1
    result = [
        tuple(2 ** i for i in range(size)),
        tuple(2 ** (size - i) for i in range(size)),
        tuple(2 ** abs(i - size // 2) for i in range(size)),
        tuple(2 ** (size - abs(i - size // 2)) for i in range(size)),
        tuple(1 if i % 2 else 10 for i in range(size)),
        tuple(10 if i % 2 else 1 for i in range(size)),
        tuple(1 + i for i in range(size)),
        tuple(2 * i + 1 for i in range(size))[::-1],
        tuple((1, 2, 1, 4, 1, 6, 3, 1, 5, 2, 1, 7)[i % 12]
              for i in range(size)),
        tuple((7, 1, 1, 1)[i % 4] for i in range(size)),
        tuple((1, 1, 3)[i % 3] for i in range(size)),
    ]
    return list(dict.fromkeys(result))


# -- values ------------------------------------------------------------------

def accumulate(gaps, start=0):
    values = [start]
    for gap in gaps:
        values.append(values[-1] + gap)
    return tuple(values)


def to_values(gaps, variant, context):
    """`variant` picks offset and scale; order of gaps is kept"""
    variant %= 3
    if variant == 0:
        values = accumulate(gaps)
    elif variant == 1:
        values = accumulate(gaps, -(sum(gaps) // 2) - 1)
    else:
        values = accumulate(gaps, -2 * sum(gaps) - 5)
    if context == 'fraction':
        scale = (Fraction(1), Fraction(1, 3), Fraction(5, 7))[variant]
        return tuple(Fraction(value) * scale for value in values)
    if context == 'float':
        # differences of these are rounded
        return tuple(value / (10, 3, 7)[variant] for value in values)
    scale = (1, 1, 5)[variant]
    return tuple(value * scale for value in values)


def pairs(x_gaps, y_gaps, context='int', *, y_shift=0):
    y_gaps = list(y_gaps)
    index = 0
    for x in x_gaps:
        for y in y_gaps:
            yield (
                to_values(x, index, context),
                tuple(
                    value + y_shift
                    for value in to_values(y, index // 3, context)
                ),
            )
            index += 1


def scenarios(kind, domains, params, context='int', budgets={}, rich=False):
    for xs, ys in domains:
        for one in params if isinstance(params, list) else [params]:
            yield Scenario(kind, xs, ys, one, context, budgets, rich)


FULL = {'max_collection': 0}


def full(**kwargs):
    return {'max_collection': 0, **kwargs}


FRACTIONAL = {
    'star_contours', 'contours', 'concave_contours', 'multisegments', 'mixes',
}


def natural_context(kind):
    return 'fraction' if kind in FRACTIONAL else 'int'


def integers_of(values):
    return tuple(values)


def fractions_of(values, denominator=1):
    return tuple(Fraction(value, denominator) for value in values)
