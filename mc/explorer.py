"""
Stateless model checker for Hypothesis strategies.

Every source of nondeterminism a strategy can consult (integers, booleans,
floats, collection sizes/contents/orders and the `random.Random` objects handed
out by `st.randoms`) is turned into an explicit choice point owned by the
explorer.  An execution is one run of the *real* strategy code under the real
Hypothesis drawing machinery; it is identified by the list of the answers given
at its choice points.  `explore` enumerates executions depth-first, replaying
a prefix of answers and taking the default answer afterwards.

Choice points have a kind:
  's'  structural: all alternatives are explored (subject to the deviation
       budget, if any);
  'o'  order in which members of a drawn *subset* come out: alternatives are
       explored within a separate budget (`max_order`), the default being a
       scrambled order;
  'c'  size and members of a drawn unique collection: explored within a
       separate budget (`max_collection`, unlimited by default), the default
       being the largest collection;
  'r'  choices made by a `random.Random` object handed out by the strategy:
       explored within a separate budget (`max_random`, unlimited by default);
  'u'  integers without an upper or a lower bound: few representatives,
       explored within the same budget as orders;
  'v'  (told from 's' only if asked for) coordinates: only the least and the
       greatest ones are explored within a separate budget (`max_values`).

An execution which consumes more CPU time than `STEP_LIMIT` or more choices
than Hypothesis allows is reported with the status 'hang'.
"""
import math
import signal
from fractions import Fraction
from itertools import product

from hypothesis.control import BuildContext
from hypothesis.errors import UnsatisfiedAssumption
from hypothesis.internal.conjecture.data import (
    ConjectureData,
    Status,
    StopTest,
)
from hypothesis.internal.conjecture.providers import PrimitiveProvider
from hypothesis.internal.conjecture import utils as cu
from hypothesis.strategies._internal import collections as hc
from hypothesis.strategies._internal import random as hr
from hypothesis.strategies._internal import strategies as hs

WIDE = 200


class BrokenReplay(Exception):
    pass


PATIENCE = 40
PATTERNS = (
    # always the first, the last, the middle one
    lambda n, index: 0,
    lambda n, index: n - 1,
    lambda n, index: n // 2,
    # in order, in reversed order
    lambda n, index: index,
    lambda n, index: -1 - index,
    # each one twice
    lambda n, index: index // 2,
    lambda n, index: -1 - index // 2,
    # always the second one
    lambda n, index: 1,
    # first and last ones in turn
    lambda n, index: -(index % 2),
    # the last one only at first, the last one except at first
    lambda n, index: -(index == 0),
    lambda n, index: -(index > 0),
)


def orthogonal_array(order, strength):
    """
    Rows over `order` (a prime) levels and factors such that any `strength`
    factors take each combination of levels in exactly one of the rows.
    """
    for coefficients in product(range(order), repeat=strength):
        yield tuple(
            sum(
                coefficient * factor ** power
                for power, coefficient in enumerate(coefficients)
            ) % order
            for factor in range(order)
        )


class ChoiceProvider(PrimitiveProvider):
    avoid_realization = False

    def __init__(self, prefix=(), spread=0, habits=None, values=False):
        super().__init__(None)
        # whether coordinates are told from other choices
        self.values = values
        self.value_depth = 0
        self.prefix = prefix
        self.spread = spread
        # patterns of answers to kinds of questions in order of appearance
        self.habits = habits
        self.asked = {}
        self.labels = []
        self.trace = []
        self.script = None
        self.reduced = True
        self.random_depth = 0
        self.unbounded = 0

    # -- choice points -----------------------------------------------------
    def choose(self, n, default=0, kind='s'):
        if n <= 1:
            return 0
        if self.random_depth and kind == 's':
            kind = 'r'
        if self.value_depth and kind == 's':
            kind = 'v'
        index = len(self.trace)
        if index < len(self.prefix):
            choice = self.prefix[index]
            if choice >= n:
                raise BrokenReplay((index, choice, n))
        else:
            choice = default = (
                default
                if self.habits is None
                else (default + self.habitual(n, kind)) % n
            )
        self.trace.append((n, choice, kind, default))
        return choice

    def default(self, n):
        """
        the first alternative unless another base execution is asked for:
        ones with different `spread` take different alternatives everywhere
        """
        if not self.spread:
            return 0
        position = len(self.trace)
        return (self.spread * (position * position + 3 * position + 1)
                + position // 2) % n

    def habitual(self, n, kind):
        """similar questions are answered following the same pattern"""
        question = (self.labels[-1] if self.labels else None, n, kind)
        number, index = self.asked.setdefault(
            question, (len(self.asked), 0)
        )
        self.asked[question] = number, index + 1
        if index >= PATIENCE:
            # otherwise loops of draws may never end
            return 0
        return PATTERNS[self.habits[number % len(self.habits)]](n, index)

    def span_start(self, label, /):
        if self.habits is not None:
            self.labels.append(label)

    def span_end(self, discard, /):
        if self.habits is not None and self.labels:
            self.labels.pop()

    # -- primitive draws ---------------------------------------------------
    def draw_boolean(self, p=0.5):
        if p <= 0:
            return False
        if p >= 1:
            return True
        if self.script is not None:
            return bool(self.script)
        return bool(self.choose(2, self.default(2)))

    def draw_integer(
        self, min_value=None, max_value=None, *, weights=None,
        shrink_towards=0,
    ):
        if self.script is not None:
            return min_value + self.script.pop(0)
        if min_value is not None and max_value is not None:
            width = max_value - min_value + 1
            if width <= WIDE:
                return min_value + self.choose(width, self.default(width))
            options = [min_value, min_value + 1, (min_value + max_value) // 2,
                       max_value]
            return options[self.choose(4)]
        if min_value is None and max_value is None:
            # each draw has its own default answer
            index = self.unbounded
            self.unbounded += 1
            value = (index + 1) // 2 * (1 if index % 2 else -1)
            return (value, 0, 10 ** 25 + value)[self.choose(3, 0, 'u')]
        base = (
            shrink_towards
            if min_value is None
            else max(min_value, shrink_towards)
        )
        if max_value is not None:
            base = min(base, max_value)
            return base - self.choose(2, 0, 'u')
        return base + self.choose(2, 0, 'u')

    def draw_float(
        self, *, min_value=-math.inf, max_value=math.inf, allow_nan=True,
        smallest_nonzero_magnitude=None,
    ):
        options = []
        for value in (0.0, min_value, max_value, (min_value + max_value) / 2
                      if math.isfinite(min_value) and math.isfinite(max_value)
                      else 1.0, 0.5, -1.0):
            if (
                min_value <= value <= max_value
                and math.isfinite(value)
                and value not in options
            ):
                options.append(value)
        return options[self.choose(len(options))]

    def draw_string(self, intervals, *, min_size=0, max_size=10 ** 10):
        raise NotImplementedError

    def draw_bytes(self, min_size=0, max_size=10 ** 10):
        raise NotImplementedError


def _scrambled(indices):
    # middle-out permutation: neither ascending nor descending
    indices = list(indices)
    result = []
    while indices:
        result.append(indices.pop(len(indices) // 2))
    return result


def order_options(indices):
    """representative orders of a subset, default first"""
    indices = list(indices)
    options = []
    for option in (
        _scrambled(indices),
        indices,
        indices[::-1],
        indices[1:] + indices[:1],
        indices[::2] + indices[1::2],
        indices[:-2] + indices[-1:] + indices[-2:-1],
    ):
        if option not in options:
            options.append(option)
    return options


_original_unique_sampled_draw = hc.UniqueSampledListStrategy.do_draw
_original_filtered_draw = hs.FilteredStrategy.do_filtered_draw
_original_sampled_draw = hs.SampledFromStrategy.do_draw
_original_random_draw = hr.RandomStrategy.do_draw
_original_reject = cu.many.reject


def _unique_sampled_draw(self, data):
    provider = data.provider
    if (
        not isinstance(provider, ChoiceProvider)
        or not provider.reduced
        or self.tuple_suffixes is not None
        or self.element_strategy._transformations
    ):
        return _original_unique_sampled_draw(self, data)
    elements = list(self.element_strategy.elements)
    keys = []
    for value in elements:
        keys.append(tuple(key(value) for key in self.keys))
    distinct = [
        index for index, key in enumerate(keys) if key not in keys[:index]
    ]
    if len(distinct) != len(elements):
        return _original_unique_sampled_draw(self, data)
    count = len(elements)
    high = count if self.max_size == math.inf else min(count, self.max_size)
    low = self.min_size
    if low > high:
        return _original_unique_sampled_draw(self, data)
    size = low + provider.choose(high - low + 1, high - low, 'c')
    subset_count = math.comb(count, size)
    subset = _nth_combination(
        count, size, provider.choose(subset_count, 0, 'c')
    )
    orders = order_options(subset)
    order = orders[provider.choose(len(orders), 0, 'o')]
    remaining = list(range(count))
    script = []
    for index in order:
        position = remaining.index(index)
        # LazySequenceCopy.pop semantics: plain list pop
        script.append(position)
        del remaining[position]
    provider.script = script
    try:
        return _original_unique_sampled_draw(self, data)
    finally:
        provider.script = None


def _nth_combination(n, k, index):
    result = []
    start = 0
    while k:
        for candidate in range(start, n):
            block = math.comb(n - candidate - 1, k - 1)
            if index < block:
                result.append(candidate)
                start = candidate + 1
                k -= 1
                break
            index -= block
    return result


def _filtered_draw(self, data):
    provider = data.provider
    if not isinstance(provider, ChoiceProvider) or not provider.reduced:
        return _original_filtered_draw(self, data)
    value = data.draw(self.filtered_strategy)
    for condition in self.flat_conditions:
        if not condition(value):
            return hs.filter_not_satisfied
    return value


def _sampled_draw(self, data):
    provider = data.provider
    if (
        not isinstance(provider, ChoiceProvider)
        or not provider.values
        or not isinstance(self.elements[0], Fraction)
    ):
        return _original_sampled_draw(self, data)
    provider.value_depth += 1
    try:
        return _original_sampled_draw(self, data)
    finally:
        provider.value_depth -= 1


def _reject(self, why=None):
    provider = self.data.provider
    if isinstance(provider, ChoiceProvider) and provider.reduced:
        self.data.mark_invalid(why)
    return _original_reject(self, why)


class _OwnedRandom(hr.ArtificialRandom):
    def _hypothesis_do_random(self, method, kwargs):
        provider = self._own_provider()
        if provider is None:
            return super()._hypothesis_do_random(method, kwargs)
        provider.random_depth += 1
        try:
            return super()._hypothesis_do_random(method, kwargs)
        finally:
            provider.random_depth -= 1

    def _own_provider(self):
        data = self._ArtificialRandom__data
        provider = data.provider
        return provider if isinstance(provider, ChoiceProvider) else None


def _random_draw(self, data):
    return _OwnedRandom(note_method_calls=False, data=data)


def install():
    """reductions are active only for runs driven by `ChoiceProvider`"""
    hc.UniqueSampledListStrategy.do_draw = _unique_sampled_draw
    hs.FilteredStrategy.do_filtered_draw = _filtered_draw
    hs.SampledFromStrategy.do_draw = _sampled_draw
    cu.many.reject = _reject
    hr.RandomStrategy.do_draw = _random_draw


def _wrapped_test():
    pass


class Execution:
    __slots__ = 'status', 'value', 'trace', 'data', 'fresh'

    def __init__(self, status, value, trace, data):
        self.status, self.value, self.trace, self.data = (
            status, value, trace, data
        )

    @property
    def choices(self):
        return [entry[1] for entry in self.trace]

    @property
    def hypothesis_choices(self):
        return list(self.data.choices)


def run(
    strategy, prefix=(), *, reduced=True, spread=0, habits=None, values=False
):
    """
    one execution of the strategy;
    status is 'ok', 'reject', 'error' or 'hang'
    """
    provider = ChoiceProvider(prefix, spread, habits, values)
    provider.reduced = reduced
    data = ConjectureData(random=None, provider=provider)
    return _run(strategy, data, provider)


STEP_LIMIT = 20.


class Hang(BaseException):
    """draw takes too much of CPU time"""


def _on_alarm(_signal_number, _frame):
    # fires again in case the first one is lost in a destructor or a callback
    raise Hang(f'no result after {STEP_LIMIT} s of CPU time')


def guard():
    """to be called once in the main thread of a process"""
    signal.signal(signal.SIGVTALRM, _on_alarm)


_timer_is_active = [False]


def limited(function, *args, **kwargs):
    """calls function under CPU time limit"""
    if (
        _timer_is_active[0]
        or signal.getsignal(signal.SIGVTALRM) is not _on_alarm
    ):
        return function(*args, **kwargs)
    _timer_is_active[0] = True
    signal.setitimer(signal.ITIMER_VIRTUAL, STEP_LIMIT, 1.)
    try:
        return function(*args, **kwargs)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        _timer_is_active[0] = False


def _draw(strategy, data):
    with BuildContext(data, wrapped_test=_wrapped_test):
        return data.draw(strategy)


def _run(strategy, data, provider):
    try:
        value = limited(_draw, strategy, data)
        status = 'ok'
    except (StopTest, UnsatisfiedAssumption) as error:
        if (
            data.status is Status.OVERRUN and provider is not None
            # uniform answers may keep loops of draws going
            and provider.habits is None
        ):
            status, value = 'hang', Hang('endless sequence of choices')
        else:
            status, value = 'reject', error
    except BrokenReplay as error:
        # code under test asked for other alternatives than the last time
        status, value = 'broken', error
    except Hang as error:
        status, value = 'hang', error
    except Exception as error:
        status, value = 'error', error
    return Execution(
        status, value, provider.trace if provider is not None else [], data
    )


def replay_with_hypothesis(strategy, choices):
    """
    replays a recorded choice sequence through stock Hypothesis
    (only the randomness stays owned), without any of the reductions
    """
    data = ConjectureData.for_choices(choices)
    return _run(strategy, data, None)


def explore_habits(strategy, *, habits, reduced=True, part=None):
    """
    Enumeration of executions in which similar questions (asked in the same
    place with the same number of options) are answered following the same
    pattern (always the first, always the last, in turn etc.): `habits` is
    a pair of the number of patterns and the number of kinds of questions
    such that all combinations of patterns are covered for them.
    """
    for number, row in enumerate(orthogonal_array(*habits)):
        if part is None or number % part[1] == part[0]:
            execution = run(strategy, reduced=reduced, habits=row)
            execution.fresh = len(execution.trace)
            yield execution


def explore(
    strategy, *, max_order=0, max_collection=None, max_random=None,
    max_deviations=None, cap=None, prefix=(), reduced=True, part=None,
    spread=0, max_values=None,
):
    """
    Depth-first enumeration of all executions extending `prefix`, with at most
    `max_order` deviations from the default answers at choice points of kinds
    'o' and 'u', `max_collection` at ones of kind 'c', `max_random` at ones
    of kind 'r' and `max_deviations` at ones of kind 's' (`None` stands for
    no limit).  `part` is a pair of an index and a count: only this share of
    the tree is explored.  `spread` picks default answers (see
    `ChoiceProvider.default`).  If `max_values` is given coordinates have
    this budget of their own and only extreme ones are taken.
    """
    limits = {
        'o': max_order, 'u': max_order, 'c': max_collection, 'r': max_random,
        's': max_deviations, 'v': max_values,
    }
    values = max_values is not None
    stack = [(list(prefix), {})]
    count = 0
    is_root = True
    while stack:
        prefix_, used = stack.pop()
        execution = run(
            strategy, prefix_, reduced=reduced, spread=spread, values=values
        )
        # number of choice points not seen by previous executions
        execution.fresh = len(execution.trace) - len(prefix_) + bool(prefix_)
        if not is_root or part is None or part[0] == 0:
            yield execution
        count += 1
        if cap is not None and count >= cap:
            if stack:
                raise Truncated(count)
            return
        trace = execution.trace
        choices = [entry[1] for entry in trace]
        for index in range(len(trace) - 1, len(prefix_) - 1, -1):
            n, _, kind, default = trace[index]
            limit = limits[kind]
            if limit is None:
                next_used = used
            else:
                group = 'o' if kind == 'u' else kind
                count_ = used.get(group, 0)
                if count_ >= limit:
                    continue
                next_used = {**used, group: count_ + 1}
            head = choices[:index]
            for alternative in (
                (n - 1, 0) if kind == 'v' else range(n - 1, -1, -1)
            ):
                if alternative != default:
                    stack.append((head + [alternative], next_used))
        if is_root:
            is_root = False
            if part is not None:
                stack = stack[part[0]::part[1]]


class Truncated(Exception):
    pass


install()
