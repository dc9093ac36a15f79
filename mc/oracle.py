"""
Exact planar-geometry oracle, written independently of the code under test and
of its dependencies.  Points are (x, y) pairs of exact numbers (int/Fraction).
Every predicate returns None when satisfied or a short string saying why not.
"""
from fractions import Fraction
from math import lcm


def sign(value):
    return (value > 0) - (value < 0)


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def turn(o, a, b):
    return sign(cross(o, a, b))


def in_box(p, a, b):
    return (
        min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    )


def on_segment(p, a, b):
    return turn(a, b, p) == 0 and in_box(p, a, b)


DISJOINT, TOUCH, CROSS, OVERLAP = 'disjoint', 'touch', 'cross', 'overlap'


def segments_relation(a, b, c, d):
    """
    touch: common point is an endpoint of one of the segments;
    cross: common point is interior to both;
    overlap: infinitely many common points
    """
    if (
        max(a[0], b[0]) < min(c[0], d[0])
        or max(c[0], d[0]) < min(a[0], b[0])
        or max(a[1], b[1]) < min(c[1], d[1])
        or max(c[1], d[1]) < min(a[1], b[1])
    ):
        return DISJOINT
    abc, abd = turn(a, b, c), turn(a, b, d)
    if abc * abd > 0:
        return DISJOINT
    cda, cdb = turn(c, d, a), turn(c, d, b)
    if cda * cdb > 0:
        return DISJOINT
    if abc == abd == 0:
        (a, b), (c, d) = sorted((a, b)), sorted((c, d))
        start, end = max(a, c), min(b, d)
        if start > end:
            return DISJOINT
        return TOUCH if start == end else OVERLAP
    if abc == 0 or abd == 0 or cda == 0 or cdb == 0:
        return TOUCH
    return CROSS


def edges(vertices):
    return [
        (vertices[index - 1], vertices[index])
        for index in range(len(vertices))
    ]


def doubled_area(vertices):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in edges(vertices))


def locate(p, vertices):
    """1 interior, 0 boundary, -1 exterior of a simple contour"""
    inside = False
    for a, b in edges(vertices):
        if on_segment(p, a, b):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            side = turn(a, b, p)
            if (b[1] > a[1]) == (side > 0):
                inside = not inside
    return 1 if inside else -1


def contour_simple(vertices):
    """strictly simple: non-adjacent edges are disjoint, adjacent ones share
    nothing but the common vertex; no repeated vertices"""
    count = len(vertices)
    if count < 3:
        return f'only {count} vertices'
    if len(set(vertices)) != count:
        return 'repeated vertices'
    sides = edges(vertices)
    for i in range(count):
        for j in range(i + 1, count):
            relation = segments_relation(*sides[i], *sides[j])
            adjacent = j == i + 1 or (i == 0 and j == count - 1)
            if adjacent:
                if count == 3:
                    if relation != TOUCH:
                        return f'adjacent edges {relation}'
                elif relation != TOUCH:
                    return f'adjacent edges {relation}'
                else:
                    # sharing exactly the common vertex is guaranteed by TOUCH
                    # of two segments with a common endpoint
                    pass
            elif relation != DISJOINT:
                return f'edges {i} and {j} {relation}'
    return None


def contour_strict(vertices):
    count = len(vertices)
    for index in range(count):
        if turn(
            vertices[index - 1], vertices[index], vertices[(index + 1) % count]
        ) == 0:
            return f'vertex {index} is collinear with its neighbours'
    return None


def contour_ccw(vertices):
    return None if doubled_area(vertices) > 0 else 'not counterclockwise'


def contour_cw(vertices):
    return None if doubled_area(vertices) < 0 else 'not clockwise'


def is_convex(vertices):
    count = len(vertices)
    turns = {
        turn(
            vertices[index - 1], vertices[index], vertices[(index + 1) % count]
        )
        for index in range(count)
    }
    return turns == {1} or turns == {-1}


def valid_contour(vertices):
    return (
        contour_simple(vertices)
        or contour_strict(vertices)
    )


def to_integers(contours):
    """scales contours to integer coordinates"""
    scale = 1
    for vertices in contours:
        for x, y in vertices:
            for value in (x, y):
                if not isinstance(value, int):
                    scale = lcm(scale, Fraction(value).denominator)
    return [
        [(int(x * scale), int(y * scale)) for x, y in vertices]
        for vertices in contours
    ]


def star_visible(vertices):
    """every vertex is visible from the area centroid"""
    [vertices] = to_integers([vertices])
    area = cx = cy = 0
    for a, b in edges(vertices):
        piece = a[0] * b[1] - a[1] * b[0]
        area += piece
        cx += (a[0] + b[0]) * piece
        cy += (a[1] + b[1]) * piece
    if area == 0:
        return 'zero area'
    scale = 3 * area
    center = (cx, cy)
    scaled = [(x * scale, y * scale) for x, y in vertices]
    sides = edges(scaled)
    for index, vertex in enumerate(scaled):
        if vertex == center:
            continue
        for a, b in sides:
            relation = segments_relation(center, vertex, a, b)
            if relation == CROSS or relation == OVERLAP:
                return f'vertex {index} is hidden from the centroid'
    return None


def edges_do_not_cross(first, second):
    for a, b in first:
        for c, d in second:
            relation = segments_relation(a, b, c, d)
            if relation == CROSS or relation == OVERLAP:
                return f'edges {(a, b)} and {(c, d)} {relation}'
    return None


def doubled_midpoints(first_edges, second_vertices):
    """
    doubled midpoints of the pieces edges are cut into by the vertices lying
    on them (complete subdivision as long as edges do not cross or overlap)
    """
    for a, b in first_edges:
        cuts = [v for v in second_vertices if on_segment(v, a, b)]
        cuts = sorted({a, b, *cuts})
        for p, q in zip(cuts, cuts[1:]):
            yield (p[0] + q[0], p[1] + q[1])


def doubled(vertices):
    return [(2 * x, 2 * y) for x, y in vertices]


def pieces_locations(edges_, vertices):
    region = doubled(vertices)
    return {locate(p, region) for p in doubled_midpoints(edges_, vertices)}


def regions_interiors_disjoint(first, second):
    """assumes edges do not cross/overlap"""
    first_locations = pieces_locations(edges(first), second)
    if 1 in first_locations:
        return 'interiors of contours intersect'
    if 1 in pieces_locations(edges(second), first):
        return 'interiors of contours intersect'
    if first_locations == {0}:
        return 'contours coincide'
    return None


def hole_within_border(hole, border):
    """assumes edges do not cross/overlap"""
    locations = pieces_locations(edges(hole), border)
    if -1 in locations:
        return 'hole sticks out of the border'
    if 1 in pieces_locations(edges(border), hole):
        return 'border goes through the hole'
    if locations == {0}:
        return 'hole coincides with the border'
    return None


def contours_family(contours):
    """pairwise: edges neither cross nor overlap, interiors are disjoint"""
    for i, first in enumerate(contours):
        for second in contours[i + 1:]:
            problem = edges_do_not_cross(edges(first), edges(second)) or (
                regions_interiors_disjoint(first, second)
            )
            if problem:
                return problem
    return None


def valid_polygon(border, holes):
    problem = valid_contour(border) or contour_ccw(border)
    if problem:
        return f'border: {problem}'
    for index, hole in enumerate(holes):
        problem = valid_contour(hole) or contour_cw(hole)
        if problem:
            return f'hole {index}: {problem}'
    for index, hole in enumerate(holes):
        problem = edges_do_not_cross(edges(border), edges(hole)) or (
            hole_within_border(hole, border)
        )
        if problem:
            return f'hole {index} vs border: {problem}'
    problem = contours_family(holes)
    if problem:
        return f'holes: {problem}'
    return None


def polygon_edges(polygon):
    border, holes = polygon
    return [edge for contour in (border, *holes) for edge in edges(contour)]


def locate_in_polygon(p, polygon):
    border, holes = polygon
    location = locate(p, border)
    if location != 1:
        return location
    for hole in holes:
        hole_location = locate(p, hole)
        if hole_location == 1:
            return -1
        if hole_location == 0:
            return 0
    return 1


def polygons_interiors_disjoint(first, second):
    """assumes edges do not cross/overlap, polygons valid"""
    for one, other in ((first, second), (second, first)):
        other_doubled = (
            doubled(other[0]), [doubled(hole) for hole in other[1]]
        )
        vertices = [v for contour in (other[0], *other[1]) for v in contour]
        # pieces of border are enough: an interior intersection free of
        # crossings is bounded by pieces of one boundary inside of the other
        locations = {
            locate_in_polygon(p, other_doubled)
            for p in doubled_midpoints(polygon_edges(one), vertices)
        }
        if 1 in locations:
            return 'interiors of polygons intersect'
        if locations == {0}:
            return 'polygons coincide'
    return None


def polygons_family(polygons):
    for i, first in enumerate(polygons):
        for second in polygons[i + 1:]:
            problem = edges_do_not_cross(
                polygon_edges(first), polygon_edges(second)
            ) or polygons_interiors_disjoint(first, second)
            if problem:
                return problem
    return None


def segments_family(segments):
    for i, (a, b) in enumerate(segments):
        if a == b:
            return f'segment {i} is degenerate'
    for i, (a, b) in enumerate(segments):
        for j in range(i + 1, len(segments)):
            c, d = segments[j]
            relation = segments_relation(a, b, c, d)
            if relation == CROSS or relation == OVERLAP:
                return f'segments {i} and {j} {relation}'
    return None


def valid_mix(points, segments, polygons):
    """points/segments/polygons are lists (possibly empty)"""
    if bool(points) + bool(segments) + bool(polygons) < 2:
        return 'less than two non-empty components'
    if len(set(points)) != len(points):
        return 'repeated points'
    problem = segments_family(segments)
    if problem:
        return f'linear: {problem}'
    for index, (border, holes) in enumerate(polygons):
        problem = valid_polygon(border, holes)
        if problem:
            return f'polygon {index}: {problem}'
    problem = polygons_family(polygons)
    if problem:
        return f'shaped: {problem}'
    for point in points:
        for a, b in segments:
            if on_segment(point, a, b):
                return f'point {point} lies on segment {(a, b)}'
        for polygon in polygons:
            if locate_in_polygon(point, polygon) != -1:
                return f'point {point} belongs to polygon'
    for polygon in polygons:
        polygon_edges_ = polygon_edges(polygon)
        problem = edges_do_not_cross(segments, polygon_edges_)
        if problem:
            return f'linear vs shaped: {problem}'
        vertices = [v for c in (polygon[0], *polygon[1]) for v in c]
        polygon_doubled = (
            doubled(polygon[0]), [doubled(hole) for hole in polygon[1]]
        )
        for p in doubled_midpoints(segments, vertices):
            if locate_in_polygon(p, polygon_doubled) != -1:
                return 'segment goes through the interior of polygon'
    return None
