"""
Judgement of a single generated value (plain, see `kinds.to_plain`):
`None` when the property holds, a short explanation otherwise.
"""
from . import kinds, oracle


def _segment_coordinates(segments):
    for start, end in segments:
        for x, y in (start, end):
            yield (0, x)
            yield (1, y)


def provenance(scenario, plain):
    """C01"""
    kind = scenario.kind
    domains = (
        scenario.xs, scenario.xs if scenario.ys is None else scenario.ys
    )
    allowed = [
        {(type(value), value) for value in domain} for domain in domains
    ]
    types = [{type(value) for value in domain} for domain in domains]
    lenient = False
    strict_items = []
    lenient_items = []
    if kind == 'convex_contours':
        lenient = True
    elif kind == 'contours':
        lenient = oracle.is_convex(plain)
    elif kind == 'multisegments':
        lenient = True
    if kind == 'mixes':
        points, segments, polygons = plain
        for point in points:
            strict_items += kinds.plain_coordinates('points', point)
        for polygon in polygons:
            strict_items += kinds.plain_coordinates('polygons', polygon)
        lenient_items += _segment_coordinates(segments)
    elif lenient:
        lenient_items += kinds.plain_coordinates(kind, plain)
    else:
        strict_items += kinds.plain_coordinates(kind, plain)
    for axis, value in strict_items:
        if (type(value), value) not in allowed[axis]:
            return (
                f'{"xy"[axis]}-coordinate {value!r} is not from its domain'
            )
    for axis, value in lenient_items:
        if (type(value), value) in allowed[axis]:
            continue
        if type(value) not in types[axis]:
            return (
                f'{"xy"[axis]}-coordinate {value!r} is of type '
                f'{type(value).__name__}'
            )
        if not min(domains[axis]) <= value <= max(domains[axis]):
            return f'{"xy"[axis]}-coordinate {value!r} is out of range'
    return None


def sizes(scenario, plain):
    """C02"""
    return kinds.sizes_problem(scenario.kind, plain, scenario.params)


def geometry(scenario, plain):
    """C03, C07, C08, C09, C10, C11"""
    return kinds.geometry_problem(scenario.kind, kinds.normalized(plain))


def simple_contour(scenario, plain):
    """C03"""
    [vertices] = oracle.to_integers([kinds.normalized(plain)])
    return oracle.valid_contour(vertices) or oracle.contour_ccw(vertices)


def shape(scenario, plain):
    """C04"""
    return kinds.geometry_problem(scenario.kind, kinds.normalized(plain))


def star(scenario, plain):
    """C05"""
    return oracle.star_visible(kinds.normalized(plain))


def non_degenerate(scenario, plain):
    """C06"""
    plain = kinds.normalized(plain)
    kind = scenario.kind
    if kind in ('segments', 'boxes', 'multipoints'):
        return kinds.geometry_problem(kind, plain)
    if kind == 'multisegments':
        points, segments = (), plain
    else:
        points, segments, _ = plain
    if len(set(points)) != len(points):
        return 'repeated points'
    if any(start == end for start, end in segments):
        return 'degenerate segment'
    return None


def nothing(scenario, plain):
    """C14: only the way a draw ends matters"""
    return None


JUDGES = {
    'C01': provenance, 'C02': sizes, 'C03': simple_contour, 'C04': shape,
    'C05': star, 'C06': non_degenerate, 'C07': geometry, 'C08': geometry,
    'C09': geometry, 'C10': geometry, 'C11': geometry, 'C14': nothing,
}
