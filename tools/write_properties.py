"""source of /verif/properties.jsonl (keeps the lines readable)"""
import json
import pathlib

PLANAR = 'hypothesis_geometry/planar.py'
BASE = 'hypothesis_geometry/_core/base.py'
FACT = 'hypothesis_geometry/_core/factories.py'
CONTR = 'hypothesis_geometry/_core/contracts.py'
TRI = 'hypothesis_geometry/_core/triangular.py'
QUAD = 'hypothesis_geometry/_core/subdivisional.py'
UTILS = 'hypothesis_geometry/_core/utils.py'
CONST = 'hypothesis_geometry/_core/constants.py'

P = []


def add(id_, title, statement, over, text, why, files, mechanism, state=()):
    anchors = {
        'files': files,
        'mechanism': [
            {'name': name, 'where': where} for name, where in mechanism
        ],
    }
    if state:
        anchors['state'] = [
            {'name': n, 'meaning': m, 'where': w} for n, m, w in state
        ]
    P.append({
        'id': id_, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why, 'anchors': anchors,
    })


add(
    'C01', 'Coordinates come from the axis strategies',
    'Every x-coordinate of a generated geometry is a value (of the same type) '
    'drawn from the x-coordinates strategy and every y-coordinate one drawn '
    'from the y-coordinates strategy. Only convex contours, and the contours, '
    'multisegments and mix segments built from them, may carry new '
    'coordinates; those keep the coordinate type and stay within the range of '
    'the axis strategy.',
    ['inputs', 'configurations'],
    'all outcomes of all random choices of every strategy, for every pair of '
    'axis domains (different per axis) and every size configuration',
    'the tests draw a hundred random geometries over one fraction range per '
    'axis and look at the range only; a value leaking from one axis to the '
    'other, or recomputed, inside of both ranges goes unnoticed',
    [BASE, FACT],
    [
        ('grid points in general position', f'{BASE}: to_point_sequence_in_general_position_strategy'),
        ('axis slicing in mixes and multipolygons', f'{BASE}: xs_to_mix/ys_to_mix, xs_to_polygons/ys_to_polygons'),
        ('clamping of convex vertices', f'{FACT}: to_convex_vertex_sequence'),
    ],
)
add(
    'C02', 'Requested sizes are respected everywhere',
    'For every strategy with size parameters each generated geometry has '
    'every size (vertices of contours, borders and holes, number of points, '
    'segments, contours, holes, polygons, and each component of a mix) within '
    'the requested inclusive bounds, and never below the minimum of its kind. '
    'Triangular contours have 3 and rectangular ones 4 vertices.',
    ['inputs', 'configurations'],
    'all combinations of lower/upper bounds including absent upper bounds and '
    'nested bounds, all outcomes of the random choices',
    'a test picks a few random bounds and a few geometries each; off-by-one '
    'at a particular combination of bounds, domain size and construction '
    'branch is not reached',
    [BASE, PLANAR, FACT],
    [
        ('size filters', f'{CONTR}: has_valid_size, multicontour_has_valid_sizes'),
        ('size arithmetic', f'{BASE}: to_size_strategy, to_hole_sizes, to_point_counts'),
        ('chi-algorithm growth', f'{FACT}: _to_vertex_sequence'),
    ],
)
add(
    'C03', 'Contours are simple, strict and counterclockwise',
    'Every generated contour (general, convex, concave, triangular, '
    'rectangular, star) has pairwise distinct vertices, no two edges sharing '
    'anything but the common endpoint of neighbours, no three consecutive '
    'vertices on a line, and counterclockwise order.',
    ['inputs', 'configurations'],
    'all exact coordinates domains (uniform, irregular, with collinear and '
    'cocircular points, of any magnitude), all sizes, all random choices',
    'degenerate configurations (collinear triples, equal angles, huge or tiny '
    'coordinates) are hit by random fractions almost never',
    [FACT, BASE, TRI, QUAD],
    [
        ('collinear vertices removal', f'{FACT}: compress_contour'),
        ('chi-algorithm over Delaunay triangulation', f'{FACT}: to_vertex_sequence'),
        ('triangulation', f'{TRI}: Triangulation.delaunay'),
        ('star sweep', f'{FACT}: to_star_contour_vertices'),
    ],
)
add(
    'C04', 'Convex and concave contours are what they say',
    'Every convex or triangular contour turns left at each vertex, every '
    'concave contour has at least four vertices and a reflex angle, and every '
    'rectangular contour is an axis-aligned rectangle with counterclockwise '
    'vertices.',
    ['inputs', 'configurations'],
    'all coordinates domains, sizes and random choices (including every way '
    'to split and shuffle the increments of a convex walk)',
    'tests sample a few contours per run; the number of increments splits and '
    'shuffles alone is beyond them',
    [FACT, BASE, CONTR],
    [
        ('convex walk', f'{FACT}: to_convex_vertex_sequence'),
        ('concavity filter', f'{CONTR}: are_vertices_non_convex'),
        ('branch selection by size', f'{BASE}: to_convex_vertex_sequence_strategy'),
    ],
)
add(
    'C05', 'Star contours see every vertex from the centroid',
    'For every generated star contour each segment from the centroid of the '
    'region it bounds to a vertex neither crosses nor overlaps an edge.',
    ['inputs', 'configurations'],
    'all sets of points the strategy may start from, over all exact '
    'coordinates domains of any magnitude and spacing',
    'the removal loop has to reach a fixed point for every point set; tests '
    'see a hundred random ones, and points with nearly equal directions '
    'never appear',
    [FACT],
    [
        ('angular sweep and removal loop', f'{FACT}: to_star_contour_vertices'),
        ('angle containment', f'{CONTR}: angle_contains_point'),
    ],
)
add(
    'C06', 'Segments, boxes, multipoints are non-degenerate',
    'Segments have different endpoints, boxes have min_x < max_x and '
    'min_y < max_y, multipoints contain no repeated points, also inside of '
    'mixes and multisegments.',
    ['inputs', 'configurations'],
    'all coordinates drawn in any order, including domains with few values, '
    'with repeated equal values and of mixed sign',
    'random fractions practically never collide, so the distinctness guards '
    'are hardly executed by tests',
    [BASE],
    [
        ('endpoints filter', f'{BASE}: to_segment_strategy'),
        ('sorted unique pairs', f'{BASE}: to_box_strategy'),
        ('unique points', f'{BASE}: to_unique_point_sequence_strategy'),
    ],
)
add(
    'C07', 'Multisegments do not cross or overlap',
    'Any two segments of a generated multisegment share at most one point, '
    'and that point is an endpoint of at least one of them.',
    ['inputs', 'configurations'],
    'all construction branches (vertical, horizontal, sub-sequence of contour '
    'edges, independent segments), sizes and coordinates domains',
    'random fractions rarely give collinear or touching segments, which are '
    'the cases telling apart touching, crossing and overlapping',
    [BASE, CONTR],
    [
        ('branches', f'{BASE}: to_non_crossing_non_overlapping_segment_sequence_strategy'),
        ('filter', f'{CONTR}: are_segments_non_crossing_non_overlapping'),
    ],
)
add(
    'C08', 'Contours of a multicontour have disjoint interiors',
    'Each contour of a generated multicontour is a valid (simple, strict, '
    'counterclockwise) contour, edges of different contours neither cross nor '
    'overlap, and interiors of the regions they bound do not intersect.',
    ['inputs', 'configurations'],
    'all splits of the points into contours, all alternations of sweep '
    'directions, all coordinates domains',
    'tests check crossings of edges on few samples and never check that '
    'contours are not nested',
    [FACT, BASE],
    [
        ('sweep partition with shared points', f'{FACT}: to_multicontour'),
        ('touch predicates', f'{CONTR}: has_vertical_leftmost_segment, has_horizontal_lowermost_segment'),
    ],
)
add(
    'C09', 'Polygons are valid',
    'In every generated polygon the border is a simple strict '
    'counterclockwise contour, holes are simple strict clockwise contours '
    'lying inside of the border, holes have pairwise disjoint interiors, and '
    'edges of different contours neither cross nor overlap.',
    ['inputs', 'configurations'],
    'all border/hole sizes, all point sets (with collinear and cocircular '
    'points), all random choices of holes sizes and sweep directions',
    'tests check orientation and sizes of contours, but nothing about where '
    'the holes are relative to the border and to each other',
    [FACT, BASE, TRI, QUAD],
    [
        ('holes placement', f'{FACT}: to_polygon'),
        ('border growth blocked by holes', f'{FACT}: to_polygon.is_mouth'),
        ('inner points accounting', f'{BASE}: to_polygon_strategy'),
    ],
    [('boundary points', 'points the border may not absorb', f'{FACT}: to_polygon')],
)
add(
    'C10', 'Polygons of a multipolygon do not overlap',
    'Each polygon of a generated multipolygon is valid, edges of different '
    'polygons neither cross nor overlap, and interiors of different polygons '
    'do not intersect.',
    ['inputs', 'configurations'],
    'all slicings of the coordinates between polygons along either axis, with '
    'and without shared coordinates, with and without holes, and the '
    'construction from multicontours',
    'tests never compare the polygons of a multipolygon with each other '
    'beyond a few random samples; sharing an extreme coordinate needs a '
    'specific slicing',
    [BASE, FACT],
    [
        ('slicing with touching', f'{BASE}: to_multipolygon_strategy'),
        ('touch predicates', f'{CONTR}: has_vertical_leftmost_segment, has_horizontal_lowermost_segment'),
    ],
)
add(
    'C11', 'Mix components are valid and disjoint',
    'Every generated mix has at least two non-empty components, each valid on '
    'its own; its points lie neither on its segments nor in its polygons; its '
    'segments and polygon edges neither cross nor overlap, and no segment '
    'passes through the interior of a polygon. A component is empty, single '
    '(segment, polygon) or multiple exactly according to its number of '
    'elements, points always forming a multipoint.',
    ['inputs', 'configurations'],
    'all orders of slices, partitions of points and segments, touching '
    'combinations along either axis, all combinations of required components',
    'the orderings and slicings of the components multiply; tests sample few '
    'and do not look for segments inside of polygons',
    [BASE, PLANAR],
    [
        ('slices', f'{BASE}: to_mix_strategy'),
        ('components selection', f'{PLANAR}: mixes'),
    ],
)
add(
    'C12', 'Contradictory sizes are rejected with ValueError',
    'A call raises ValueError, naming an offending bound, exactly '
    'when for one of its size bound pairs the upper bound is present and is '
    'less than the minimum of the kind, or less than the lower bound, or the '
    'lower bound is negative, or when upper bounds leave a mix with less than '
    'two possible components. Every other combination gives a strategy.',
    ['configurations'],
    'all combinations of bounds for every strategy with size parameters, for '
    'all bound pairs of a call at once',
    'tests try random bad values for some of the pairs of some strategies and '
    'one pair at a time, never the exact frontier between good and bad',
    [PLANAR, CONST],
    [('validation', f'{PLANAR}: _validate_sizes, mixes')],
)
add(
    'C13', 'Too low lower bounds warn once and are clamped',
    'An accepted call emits one HypothesisWarning, naming the bound, for each '
    'lower bound below the minimum of its kind and no other, and '
    'returns a strategy with the same set of possible geometries as the call '
    'with that bound raised to the minimum.',
    ['configurations', 'inputs'],
    'all combinations of lower bounds below the minimum, negative included, '
    'with and without upper bounds, for every strategy with size parameters',
    'tests check a warning for a single bound of some strategies and never '
    'draw from the strategies obtained this way',
    [PLANAR],
    [('validation', f'{PLANAR}: _validate_sizes'), ('clamping', f'{PLANAR}: max(min_..., minimum)')],
)
add(
    'C14', 'Drawing never crashes or hangs',
    'For any accepted parameters and any exact coordinates closed under '
    'division (such as Fraction), a draw ends after finitely many choices '
    'with a geometry or with a refusal by Hypothesis (rejected example, '
    'invalid argument because a coordinates domain is too small); no other '
    'exception escapes.',
    ['inputs', 'configurations'],
    'all random choices, all small parameter combinations, domains that are '
    'too small, degenerate, irregular, with repeated values, huge or tiny',
    'tests use unbounded fractions domains only, hence neither scarce, nor '
    'irregular, nor extreme coordinates',
    [FACT, BASE, TRI, UTILS],
    [
        ('growth loops of chi-algorithm', f'{FACT}: _to_vertex_sequence, to_polygon'),
        ('removal loop', f'{FACT}: to_star_contour_vertices'),
        ('sizes arithmetic', f'{UTILS}: to_prior_prime, to_next_prime'),
    ],
)
add(
    'C15', 'Equal choices give equal geometries',
    'Replaying the recorded choices of a draw, with the same or an equally '
    'parametrized strategy, in the same or another process with another hash '
    'seed, gives an equal geometry with the same order of its parts.',
    ['inputs', 'schedules'],
    'all recorded choice sequences, several iteration orders of hash-based '
    'containers (hashes of points and of internal objects included), fresh '
    'and reused strategies, other processes',
    'tests never replay; Hypothesis itself relies on it for shrinking and '
    'its example database',
    [FACT, BASE],
    [
        ('total order of candidates', f'{FACT}: _edge_key'),
        ('sets of points and edges', f'{FACT}: to_polygon, _to_vertex_sequence'),
    ],
)
add(
    'C16', 'Draws do not depend on history',
    'What a draw gives for its choices does not depend on which strategies '
    'were created, or which draws were made, accepted, rejected or '
    'interrupted before it in the process, nor do later operations '
    'change geometries already generated.',
    ['histories'],
    'all sequences (up to a depth) of creating and drawing from strategies of '
    'different kinds, parameters, coordinates and contexts',
    'every test uses its strategies in isolation and checks one value at a '
    'time',
    [BASE, FACT, TRI, QUAD],
    [('no module-level or closure state', f'{BASE}, {FACT}: per-draw lists and sets only')],
)
add(
    'C17', 'Concurrent draws do not interfere',
    'Draws from the same or different strategies running concurrently give '
    'the same geometries for the same choices as the draws running one after '
    'another, however their steps interleave.',
    ['schedules'],
    'all interleavings of two draws, preempted at random choices and at lines '
    'of the library, up to a preemption bound',
    'tests are single-threaded; strategies are defined once and shared by '
    'the threads running property tests',
    [BASE, FACT],
    [('no shared mutable state', f'{BASE}: closures of composite strategies')],
)
add(
    'C18', 'Every requested size and composition is reachable',
    'For sufficiently rich coordinates the small admissible sizes are all '
    'generated by some choices: contours (general, convex, concave) with '
    'exactly the requested least number of vertices, also when both bounds '
    'are equal, multipoints, multisegments and polygon borders of each size '
    'between the bounds, different numbers and sizes of contours, holes and '
    'polygons, every combination of possible components of a mix, also with '
    'each number and size of parts between small bounds, contours '
    'that are convex and ones that are not, polygons with and without holes, '
    'multipolygons and mixes sliced along either axis in either order.',
    ['inputs', 'configurations'],
    'existence of a choice sequence for each admissible size or composition '
    'within small bounds',
    'tests only look at what was generated; a size or a shape that is never '
    'generated any more leaves them all green',
    [BASE, FACT],
    [
        ('sizes strategies', f'{BASE}: st.integers over admissible sizes'),
        ('chi-algorithm targets size', f'{FACT}: _to_vertex_sequence'),
    ],
)
add(
    'C19', 'Elementary strategies generate exactly all geometries',
    'Over finite domains the sets of geometries that can be generated are '
    'exactly: all points, all ordered pairs of different points as segments, '
    'all boxes, all rectangles and all counterclockwise non-degenerate '
    'triangles (up to the first vertex), and all sequences of distinct points of '
    'admissible length as multipoints, and all pairs of segments which neither '
    'cross nor overlap as multisegments of size two.',
    ['inputs', 'configurations'],
    'all pairs of small finite domains, all choices; both inclusions',
    'sampling cannot show that something is never generated, nor that '
    'everything is',
    [BASE],
    [('elementary strategies', f'{BASE}: to_point_strategy, to_segment_strategy, to_box_strategy, to_triangular_vertex_sequence_strategy')],
)
add(
    'C20', 'Results are built with the classes of the given context',
    'Every geometry, and every geometry inside of it, is an instance of the '
    'class the passed context assigns to its kind, also when different '
    'contexts with different classes are used side by side in a process.',
    ['configurations', 'histories'],
    'all strategies with contexts of custom classes, all construction '
    'branches, alternation of contexts',
    'tests use a single context with default classes, so a hard-coded or '
    'remembered class passes them',
    [BASE, FACT, PLANAR],
    [('constructors', f'{BASE}: context.*_cls'), ('hull and triangulation', f'{FACT}, {TRI}, {QUAD}')],
)
add(
    'C21', 'Omitting the y strategy means reusing the x strategy',
    'A strategy created without y-coordinates has exactly the same possible '
    'geometries as the one created with the x-coordinates strategy passed for '
    'both axes.',
    ['configurations', 'inputs'],
    'all strategies, sizes and domains; equality of the sets of possible '
    'outcomes',
    'tests treat both cases separately with random samples of each and never '
    'compare them',
    [BASE],
    [('fallback', f'{BASE}: y_coordinate_strategy is None')],
)

path = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
path.write_text(''.join(json.dumps(p) + '\n' for p in P))
