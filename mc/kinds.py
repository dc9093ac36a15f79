"""
Public strategies of the library seen as data: how to call them, how to turn
what they generate into plain tuples, what the generated values must satisfy.
"""
import math
import warnings
from fractions import Fraction

from ground.context import Context
from hypothesis import strategies as st

from hypothesis_geometry import planar

from . import oracle

FRACTION_CONTEXT = Context(coordinate_factory=Fraction, sqrt=math.sqrt)
INT_CONTEXT = Context(coordinate_factory=int, sqrt=math.sqrt)
FLOAT_CONTEXT = Context(coordinate_factory=float, sqrt=math.sqrt)

KINDS = (
    'points', 'multipoints', 'segments', 'multisegments', 'contours',
    'convex_contours', 'concave_contours', 'triangular_contours',
    'rectangular_contours', 'boxes', 'star_contours', 'multicontours',
    'polygons', 'multipolygons', 'mixes',
)


class Malformed(Exception):
    """generated value is not even of the promised type"""


def _expect(value, cls, what):
    if type(value) is not cls:
        raise Malformed(
            f'{what}: expected {cls.__qualname__}, '
            f'got {type(value).__qualname__}'
        )
    return value


def plain_point(value, context):
    _expect(value, context.point_cls, 'point')
    return (value.x, value.y)


def plain_segment(value, context):
    _expect(value, context.segment_cls, 'segment')
    return (
        plain_point(value.start, context), plain_point(value.end, context)
    )


def plain_contour(value, context):
    _expect(value, context.contour_cls, 'contour')
    return tuple(plain_point(vertex, context) for vertex in value.vertices)


def plain_polygon(value, context):
    _expect(value, context.polygon_cls, 'polygon')
    return (
        plain_contour(value.border, context),
        tuple(plain_contour(hole, context) for hole in value.holes),
    )


def plain_box(value, context):
    _expect(value, context.box_cls, 'box')
    return (value.min_x, value.max_x, value.min_y, value.max_y)


def plain_multipoint(value, context):
    _expect(value, context.multipoint_cls, 'multipoint')
    return tuple(plain_point(point, context) for point in value.points)


def plain_multisegment(value, context):
    _expect(value, context.multisegment_cls, 'multisegment')
    return tuple(
        plain_segment(segment, context) for segment in value.segments
    )


def plain_multicontour(value, context):
    if not isinstance(value, (list, tuple)):
        raise Malformed(f'multicontour: got {type(value).__qualname__}')
    return tuple(plain_contour(contour, context) for contour in value)


def plain_multipolygon(value, context):
    _expect(value, context.multipolygon_cls, 'multipolygon')
    return tuple(
        plain_polygon(polygon, context) for polygon in value.polygons
    )


def plain_mix(value, context):
    _expect(value, context.mix_cls, 'mix')
    empty_cls = context.empty_cls
    discrete, linear, shaped = value.discrete, value.linear, value.shaped
    if type(discrete) is empty_cls:
        points = ()
    else:
        points = plain_multipoint(discrete, context)
        if not points:
            raise Malformed('mix: non-empty discrete component has no points')
    if type(linear) is empty_cls:
        segments = ()
    elif type(linear) is context.segment_cls:
        segments = (plain_segment(linear, context),)
    else:
        segments = plain_multisegment(linear, context)
        if len(segments) < 2:
            raise Malformed(
                f'mix: multisegment linear component of {len(segments)}'
            )
    if type(shaped) is empty_cls:
        polygons = ()
    elif type(shaped) is context.polygon_cls:
        polygons = (plain_polygon(shaped, context),)
    else:
        polygons = plain_multipolygon(shaped, context)
        if len(polygons) < 2:
            raise Malformed(
                f'mix: multipolygon shaped component of {len(polygons)}'
            )
    return (points, segments, polygons)


PLAIN = {
    'points': plain_point,
    'multipoints': plain_multipoint,
    'segments': plain_segment,
    'multisegments': plain_multisegment,
    'contours': plain_contour,
    'convex_contours': plain_contour,
    'concave_contours': plain_contour,
    'triangular_contours': plain_contour,
    'rectangular_contours': plain_contour,
    'star_contours': plain_contour,
    'boxes': plain_box,
    'multicontours': plain_multicontour,
    'polygons': plain_polygon,
    'multipolygons': plain_multipolygon,
    'mixes': plain_mix,
}


def to_plain(kind, value, context):
    return PLAIN[kind](value, context)


def plain_coordinates(kind, plain):
    """yields (axis, coordinate)"""
    if kind == 'boxes':
        min_x, max_x, min_y, max_y = plain
        yield from ((0, min_x), (0, max_x), (1, min_y), (1, max_y))
        return
    stack = [plain]
    while stack:
        item = stack.pop()
        if (
            isinstance(item, tuple)
            and len(item) == 2
            and not isinstance(item[0], tuple)
        ):
            yield (0, item[0])
            yield (1, item[1])
        else:
            stack.extend(item)


def normalized(plain):
    """integral fractions become ints: the oracle is much faster on them"""
    if isinstance(plain, tuple):
        return tuple([normalized(item) for item in plain])
    if type(plain) is int:
        return plain
    plain = Fraction(plain)
    return plain.numerator if plain.denominator == 1 else plain


# -- sizes -------------------------------------------------------------------

MIN_SIZES = {
    'multipoints': 1, 'multisegments': 2, 'contours': 3, 'convex_contours': 3,
    'concave_contours': 4, 'star_contours': 3, 'multicontours': 2,
    'polygons': 3, 'multipolygons': 2,
}


def _bounds(params, name, floor):
    low = max(params.get(f'min_{name}', floor), floor)
    return low, params.get(f'max_{name}')


def _size_problem(what, size, bounds):
    low, high = bounds
    if size < low:
        return f'{what} is {size}, less than {low}'
    if high is not None and size > high:
        return f'{what} is {size}, greater than {high}'
    return None


def _polygon_sizes_problem(polygon, border, holes, hole):
    border_vertices, hole_contours = polygon
    return (
        _size_problem('border size', len(border_vertices), border)
        or _size_problem('holes count', len(hole_contours), holes)
        or next(
            filter(
                None,
                (
                    _size_problem('hole size', len(contour), hole)
                    for contour in hole_contours
                ),
            ),
            None,
        )
    )


def sizes_problem(kind, plain, params):
    if kind in ('points', 'segments', 'boxes'):
        return None
    if kind in ('triangular_contours',):
        return _size_problem('size', len(plain), (3, 3))
    if kind in ('rectangular_contours',):
        return _size_problem('size', len(plain), (4, 4))
    if kind == 'polygons':
        return _polygon_sizes_problem(
            plain, _bounds(params, 'size', 3), _bounds(params, 'holes_size', 0),
            _bounds(params, 'hole_size', 3),
        )
    if kind == 'mixes':
        points, segments, polygons = plain
        problem = (
            _size_problem(
                'points count', len(points), _bounds(params, 'points_size', 0)
            )
            or _size_problem(
                'segments count', len(segments),
                _bounds(params, 'segments_size', 0),
            )
            or _size_problem(
                'polygons count', len(polygons),
                _bounds(params, 'polygons_size', 0),
            )
        )
        if problem:
            return problem
        for polygon in polygons:
            problem = _polygon_sizes_problem(
                polygon, _bounds(params, 'polygon_border_size', 3),
                _bounds(params, 'polygon_holes_size', 0),
                _bounds(params, 'polygon_hole_size', 3),
            )
            if problem:
                return problem
        return None
    problem = _size_problem(
        'size', len(plain), _bounds(params, 'size', MIN_SIZES[kind])
    )
    if problem:
        return problem
    if kind == 'multicontours':
        for contour in plain:
            problem = _size_problem(
                'contour size', len(contour),
                _bounds(params, 'contour_size', 3),
            )
            if problem:
                return problem
    if kind == 'multipolygons':
        for polygon in plain:
            problem = _polygon_sizes_problem(
                polygon, _bounds(params, 'border_size', 3),
                _bounds(params, 'holes_size', 0),
                _bounds(params, 'hole_size', 3),
            )
            if problem:
                return problem
    return None


# -- geometric validity ------------------------------------------------------

def geometry_problem(kind, plain):
    """`plain` is expected to be normalized"""
    if kind == 'points':
        return None
    if kind == 'boxes':
        min_x, max_x, min_y, max_y = plain
        return None if min_x < max_x and min_y < max_y else 'degenerate box'
    if kind == 'multipoints':
        return None if len(set(plain)) == len(plain) else 'repeated points'
    if kind == 'segments':
        return None if plain[0] != plain[1] else 'degenerate segment'
    if kind == 'multisegments':
        return oracle.segments_family(plain)
    if kind.endswith('contours') and kind != 'multicontours':
        [vertices] = oracle.to_integers([plain])
        problem = oracle.valid_contour(vertices) or oracle.contour_ccw(
            vertices
        )
        if problem:
            return problem
        if kind in ('convex_contours', 'triangular_contours'):
            return None if oracle.is_convex(vertices) else 'not convex'
        if kind == 'concave_contours':
            return None if not oracle.is_convex(vertices) else 'convex'
        if kind == 'star_contours':
            return oracle.star_visible(vertices)
        if kind == 'rectangular_contours':
            xs, ys = {x for x, _ in plain}, {y for _, y in plain}
            return (
                None
                if len(plain) == 4 and len(xs) == len(ys) == 2
                else 'not an axis-aligned rectangle'
            )
        return None
    if kind == 'multicontours':
        contours = oracle.to_integers(plain)
        for index, vertices in enumerate(contours):
            problem = oracle.valid_contour(vertices) or oracle.contour_ccw(
                vertices
            )
            if problem:
                return f'contour {index}: {problem}'
        return oracle.contours_family(contours)
    if kind == 'polygons':
        return oracle.valid_polygon(*plain)
    if kind == 'multipolygons':
        for index, polygon in enumerate(plain):
            problem = oracle.valid_polygon(*polygon)
            if problem:
                return f'polygon {index}: {problem}'
        return oracle.polygons_family(plain)
    if kind == 'mixes':
        return oracle.valid_mix(*plain)
    raise ValueError(kind)


def make(kind, x, y, params, context):
    factory = getattr(planar, kind)
    args = (x,) if y is None else (x, y)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return factory(*args, context=context, **params)


def sampled(values):
    return st.sampled_from(list(values))
