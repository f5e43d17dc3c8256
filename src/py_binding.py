"""Programs of C24. mc.choose enumerates; every step of the module is compared with a reference in Python."""
import gc, heapq, itertools, math, os, shutil, tempfile
import mc
import pyplanning as nav


def check(ok, *what):
    if not ok:
        mc.fail(" ".join(str(w) for w in what))


def pick(seq):
    return seq[mc.choose(len(seq))]


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or a == b


def xyt(p):
    return (p.x(), p.y(), p.theta)


def wrap(t):
    return math.remainder(t, 2 * math.pi)


def same(a, b, tol=1e-9):
    return near(a[0], b[0], tol) and near(a[1], b[1], tol) and abs(wrap(a[2] - b[2])) <= max(tol, 1e-9)


def rc(c):
    return (c.row, c.col)


# ---------------------------------------------------------------- values
NUM = [0.0, -0.0, 0.1, -2.5, 1e-9, 1e6]
ANG = [0.0, 0.1, -2.0, 3.0]


def values():
    for name, names in mc.enums.items():
        for k, v in names.items():
            check(int(getattr(getattr(nav, name), k)) == v, "value of", name, k)
    kind = mc.choose(3)
    a, b = pick(NUM), pick(NUM)
    mc.split()
    if kind == 0:
        c, d = pick(NUM), pick(NUM)
        p, q = nav.Point2d(a, b), nav.Point2d(c, d)
        check((p.x(), p.y()) == (a, b), "Point2d", (a, b), "reads", (p.x(), p.y()))
        s, m = p + q, p - q
        check((s.x(), s.y()) == (a + c, b + d), "Point2d", (a, b), "+", (c, d), "is", (s.x(), s.y()))
        check((m.x(), m.y()) == (a - c, b - d), "Point2d", (a, b), "-", (c, d), "is", (m.x(), m.y()))
        check((p == q) == ((a, b) == (c, d)) and (p != q) == ((a, b) != (c, d)), "comparison of", (a, b), (c, d))
        check((p.x(), p.y(), q.x(), q.y()) == (a, b, c, d), "operands changed")
    elif kind == 1:
        t, c, u = pick(ANG), pick(NUM), pick(ANG)
        ways = [nav.Pose2d(a, b, t), nav.Pose2d(nav.Point2d(a, b), t)]
        for p in ways:
            check(xyt(p) == (a, b, t), "Pose2d", (a, b, t), "reads", xyt(p))
            check((p.position.x(), p.position.y()) == (a, b), "position of", (a, b, t))
        p, q = ways[mc.choose(2)], nav.Pose2d(c, b, u)
        s, m = p + q, p - q
        ref = (a + c * math.cos(t) - b * math.sin(t), b + c * math.sin(t) + b * math.cos(t), t + u)
        check(same(xyt(s), ref), "Pose2d", xyt(p), "+", xyt(q), "is", xyt(s), "instead of", ref)
        dx, dy = a - c, 0.0
        ref = (dx * math.cos(u) + dy * math.sin(u), -dx * math.sin(u) + dy * math.cos(u), t - u)
        check(same(xyt(m), ref, 1e-6), "Pose2d", xyt(p), "-", xyt(q), "is", xyt(m), "instead of", ref)
        check((p == q) == (not p != q), "== and != agree")
        check(p == ways[0] and not (p != ways[1]), "equal poses are equal")
        # Writes go to the object, and only to it
        p.theta = u
        check(xyt(p) == (a, b, u) and xyt(q) == (c, b, u), "writing theta")
        p.position = nav.Point2d(c, a)
        check(xyt(p) == (c, a, u), "writing position gives", xyt(p))
        pos = p.position
        del p
        check((pos.x(), pos.y()) == (c, a), "the position outlives its pose")
    else:
        r, k = pick([-1, 0, 3, 100000]), pick([-1, 0, 7])
        g = nav.GridCellPosition(r, k)
        check(rc(g) == (r, k), "GridCellPosition", (r, k), "reads", rc(g))
        check(str(r) in repr(g) and str(k) in repr(g), "repr", repr(g))
        g.row = k
        check(rc(g) == (k, k), "writing row")
        g.col = r
        check(rc(g) == (k, r), "writing col")
        check(rc(nav.GridCellPosition()) == rc(nav.GridCellPosition()), "default cell")
    mc.transition(1)
    mc.state("%d %r %r" % (kind, a, b))
    mc.outcome("%d" % kind)


def spaces():
    lo = (pick([-2.0, 0.0]), pick([-1.0, 0.5]), pick([-3.0, -1.0]))
    hi = tuple(l + d for l, d in zip(lo, (pick([0.0, 4.0]), 2.0, pick([0.5, 2.0]))))
    mc.split()
    v = tuple(pick([l - 0.125, l, (l + h) / 2, h, h + 0.1]) for l, h in zip(lo, hi))
    how = mc.choose(2)
    s = nav.StateSpaceSE2(nav.Pose2d(*lo), nav.Pose2d(*hi)) if how == 0 else nav.StateSpaceSE2([nav.Pose2d(*lo), nav.Pose2d(*hi)])
    check([xyt(b) for b in s.bounds] == [lo, hi], "bounds are", [xyt(b) for b in s.bounds], "instead of", lo, hi)
    p = nav.Pose2d(*v)
    inside = all(l <= x <= h for l, x, h in zip(lo, v, hi))
    check(s.validate_bounds(p) == inside, "validate_bounds of", v, "in", lo, hi, "is", not inside)
    check(xyt(p) == v, "validate_bounds changes its argument")
    s.enforce_bounds(p)
    ref = tuple(min(max(x, l), h) for l, x, h in zip(lo, v, hi))
    check(xyt(p) == ref, "enforce_bounds of", v, "in", lo, hi, "gives", xyt(p))
    for q in (s.sample_uniform(), s.sample_gaussian(nav.Pose2d(*v), nav.Pose2d(1.0, 1.0, 1.0))):
        check(s.validate_bounds(q), "sample", xyt(q), "outside of", lo, hi)
    f = nav.StateValidatorSE2Free(s)
    b = f.state_space
    del s
    check(f.is_state_valid(nav.Pose2d(*v)) == inside, "free validator for", v)
    check([xyt(x) for x in b.bounds] == [lo, hi], "bounds of the space of a validator")
    mc.transition(1)
    mc.state("%r %r %r" % (lo, hi, v))
    mc.outcome(str(inside))


# ---------------------------------------------------------------- paths
def arc(p, radius, length, steer, sign):
    """Pose after driving length along a circle (steer -1, 0, 1), sign -1 backward."""
    x, y, t = p
    d = sign * length
    if steer == 0:
        return (x + d * math.cos(t), y + d * math.sin(t), t)
    k = steer / radius
    return (x + (math.sin(t + d * k) - math.sin(t)) / k, y - (math.cos(t + d * k) - math.cos(t)) / k, t + d * k)


def paths():
    kind = mc.choose(3)
    start = (pick([0.0, 1.5]), pick([0.0, -2.0]), pick([0.0, 0.7, -2.5]))
    mc.split()
    cut = pick([None, 0.25, 0.6])
    drop = mc.choose(2)
    tol = 1e-6
    if kind == 0:
        end = (pick([0.5, 3.0]), pick([0.0, 4.0]), pick([0.0, 1.0]))
        use = mc.choose(2)
        if use:
            c = nav.PathConnectionSE2()
            p = c.connect(nav.Pose2d(*start), nav.Pose2d(*end))
            del c
        else:
            p = nav.PathSE2(nav.Pose2d(*start), nav.Pose2d(*end))
        check(type(p) is nav.PathSE2, "type of a straight path:", type(p))
        length = math.hypot(end[0] - start[0], end[1] - start[1])
        ref = lambda r: (start[0] + r * (end[0] - start[0]), start[1] + r * (end[1] - start[1]), start[2] + r * (end[2] - start[2]))
        direction = None
        ang = False
    elif kind == 1:
        steering, length = pick([0.0, 0.3, -0.3]), pick([0.5, 3.0])
        d = pick([nav.Direction.FORWARD, nav.Direction.BACKWARD])
        wheelbase = 2.0
        bike = nav.KinematicBicycleModel(wheelbase, 0.0)
        p = nav.PathConstantSteer(bike, nav.Pose2d(*start), steering, length, d)
        if drop:
            del bike
        sgn = 1 if d == nav.Direction.FORWARD else -1
        check(near(p.steering, steering), "steering", p.steering)
        radius = wheelbase / math.tan(abs(steering)) if steering else 1.0
        s = 0 if steering == 0 else 1 if steering > 0 else -1
        ref = lambda r: arc(start, radius, r * length, s, sgn)
        direction = lambda r: d
        ang = True
    else:
        end = (pick([0.5, 3.0]), pick([0.0, 4.0]), pick([0.0, 1.0, 3.0]))
        radius = pick([1.0, 2.0])
        c = nav.PathConnectionReedsShepp(radius, 1.0, 1.0, 0.5)
        p = c.connect(nav.Pose2d(*start), nav.Pose2d(*end))
        if drop:
            del c
        check(type(p) is nav.PathReedsShepp, "type of a Reeds-Shepp path:", type(p))
        check(near(p.min_turning_radius, radius), "min_turning_radius", p.min_turning_radius)
        length = p.get_length()
        check(same(xyt(p.get_final_state()), end, tol), "Reeds-Shepp path ends at", xyt(p.get_final_state()))
        check(length >= math.hypot(end[0] - start[0], end[1] - start[1]) - tol, "Reeds-Shepp path too short")
        ratios = sorted(p.get_cusp_point_ratios())
        check(all(0 < r < 1 for r in ratios), "cusps", ratios)
        for r0, r1 in itertools.combinations(sorted([0.1, 0.45, 0.8]), 2):
            n = sum(1 for r in ratios if r0 < r < r1)
            check((p.get_direction(r0) == p.get_direction(r1)) == (n % 2 == 0), "directions at", r0, r1, "with cusps", ratios)
        ref = None
        ang = True
    before = [xyt(q) for q in p.interpolate([0.0, 0.2, 0.5, 1.0])]
    check([xyt(q) for q in p.interpolate([1.0, 0.2, 0.5, 0.0])] == [before[3], before[1], before[2], before[0]], "interpolate at ratios that are not sorted")
    check(before == [xyt(p.interpolate(r)) for r in (0.0, 0.2, 0.5, 1.0)], "the two ways to interpolate differ")
    check(same(xyt(p.get_initial_state()), start) and same(before[0], start), "path starts at", before[0], "instead of", start)
    check(same(xyt(p.get_final_state()), before[-1], tol), "path ends at", before[-1])
    check(near(p.get_length(), length), "length", p.get_length(), "instead of", length)
    if ref:
        for r, q in zip((0.0, 0.2, 0.5, 1.0), before):
            check(same(q, ref(r), tol), "interpolate", r, "gives", q, "instead of", ref(r))
    if kind == 1:
        for r in (0.1, 0.9):
            check(p.get_direction(r) == direction(r), "direction of", start)
        check(p.get_cusp_point_ratios() == set(), "cusps of an arc")
    if cut is not None:
        at = xyt(p.interpolate(cut))
        q = p
        q.truncate(cut)
        check(same(xyt(p.get_final_state()), at, tol) and near(p.get_length(), length * cut, tol), "truncate", cut, "ends at", xyt(p.get_final_state()), "instead of", at)
        check(same(xyt(p.interpolate(1.0)), at, tol), "end of the truncated path")
    poses = p.interpolate([0.0, 1.0])
    first = xyt(poses[0])
    del p
    check(xyt(poses[0]) == first, "poses outlive their path")
    mc.transition(1)
    mc.state("%d %r %r" % (kind, start, before))
    mc.outcome(str(kind))


# ---------------------------------------------------------------- maps
def world(size=4.0, res=0.5):
    space = nav.StateSpaceSE2(nav.Pose2d(-size / 2, -size / 2, -3.125), nav.Pose2d(size / 2, size / 2, 3.125))
    m = nav.ObstacleListOccupancyMap(res)
    v = nav.StateValidatorOccupancyMap(space, m)
    return space, m, v


def shapes():
    return [lambda: nav.RectangleShape(0.8, 0.4), lambda: nav.CircleShape(0.6, 8), lambda: nav.RegularPolygonShape(0.5, 5),
            lambda: nav.PolygonShape([nav.Point2d(-0.4, -0.4), nav.Point2d(0.6, -0.2), nav.Point2d(0.0, 0.5)]), composite]


def composite():
    c = nav.CompositeShape()
    c.add(nav.RectangleShape(0.8, 0.2))
    c.add(nav.RectangleShape(0.2, 0.8))
    return c


def vertices(kind, pose):
    """Vertices of the shapes above (None: not specified)."""
    if kind == 0:
        v = [(-0.4, -0.2), (0.4, -0.2), (0.4, 0.2), (-0.4, 0.2)]
    elif kind == 3:
        v = [(-0.4, -0.4), (0.6, -0.2), (0.0, 0.5)]
    else:
        return None
    x, y, t = pose
    return [(x + a * math.cos(t) - b * math.sin(t), y + a * math.sin(t) + b * math.cos(t)) for a, b in v]


def occupied(m):
    return frozenset((r, c) for r in range(m.rows()) for c in range(m.columns()) if m.get_occupancy_value(r, c) >= 0)


def maps():
    kind = mc.choose(5)
    where = pick([(0.0, 0.0, 0.0), (0.7, -0.4, 0.8), (1.9, 1.9, 0.0)])
    moved = pick([None, (1.0, 0.5)])
    mc.split()
    space, m, v = world()
    if moved:
        m.set_position(nav.Point2d(*moved))
        where = (where[0] + moved[0], where[1] + moved[1], where[2])
    pos = m.get_position()
    check((pos.x(), pos.y()) == (moved or (0.0, 0.0)), "position of the map", (pos.x(), pos.y()))
    check((m.rows(), m.columns()) == (8, 8), "size of the map", m.rows(), m.columns())
    ox, oy = (moved or (0.0, 0.0))
    # Conversions
    for r, c in ((0, 0), (3, 5), (7, 7)):
        cell = nav.GridCellPosition(r, c)
        l, w = m.grid_cell_to_local_position(cell), m.grid_cell_to_world_position(cell)
        check(near(l.x(), -2 + r * 0.5) and near(l.y(), -2 + c * 0.5), "grid_cell_to_local_position", (r, c))
        check(near(w.x(), l.x() + ox) and near(w.y(), l.y() + oy), "grid_cell_to_world_position", (r, c))
        a, b = nav.Point2d(l.x() + 0.2, l.y() + 0.3), nav.Point2d(w.x() + 0.2, w.y() + 0.3)
        check(rc(m.local_position_to_grid_cell(a, True)) == (r, c) and rc(m.world_position_to_grid_cell(b, True)) == (r, c), "cell of", (r, c))
        x = m.local_position_to_world_position(a)
        y = m.world_position_to_local_position(b)
        check(near(x.x(), b.x()) and near(x.y(), b.y()) and near(y.x(), a.x()) and near(y.y(), a.y()), "local/world", (r, c))
        check(m.is_inside_map(b) and m.is_inside_map(cell), "inside the map", (r, c))
    far = nav.Point2d(ox + 2.2, oy)
    check(not m.is_inside_map(far) and not m.is_inside_map(nav.GridCellPosition(8, 0)), "outside of the map")
    check(rc(m.world_position_to_grid_cell(far, False)) == (8, 4) and rc(m.world_position_to_grid_cell(far, True)) == (-1, -1), "cell of a position outside of the map")
    # Obstacles
    o = nav.Obstacle()
    o.set_shape(shapes()[kind]())
    o.set_pose(nav.Pose2d(*where))
    ref = vertices(kind, where)
    got = [(p.x(), p.y()) for p in o.get_boundary_world_position()]
    if ref:
        check(len(got) == len(ref) and all(any(near(a, x) and near(b, y) for a, b in got) for x, y in ref), "vertices", got, "instead of", ref)
    cells = frozenset(rc(c) for c in o.get_boundary_grid_cell_position(m))
    check(m.get_num_obstacles() == 0 and occupied(m) == frozenset(), "empty map")
    check(m.add_obstacle(o) is True and m.add_obstacle(o) is False, "adding an obstacle, twice")
    check(m.get_num_obstacles() == 1 and occupied(m) == cells and cells, "cells", occupied(m), "instead of", cells)
    for r in range(8):
        for c in range(8):
            cell = nav.GridCellPosition(r, c)
            check(m.get_occupancy_value(r, c) == m.get_occupancy_value(cell), "occupancy value of", (r, c))
            check(m.is_occupied(cell) == ((r, c) in cells), "is_occupied of", (r, c))
    m.update()
    g = nav.GVD(m)
    g.update()
    v.min_safe_radius = 0.5
    check(near(v.min_safe_radius, 0.5), "min_safe_radius")
    v.min_path_interpolation_distance = 0.25
    check(near(v.min_path_interpolation_distance, 0.25), "min_path_interpolation_distance")
    dm = m.get_obstacle_map()
    for r in range(8):
        for c in range(8):
            cell = nav.GridCellPosition(r, c)
            check(dm.get_distance_to_nearest_obstacle(r, c) == g.get_distance_to_nearest_obstacle(r, c) == dm.get_distance_to_nearest_obstacle(cell), "distance map at", (r, c))
            d = 0.5 * min(math.hypot(r - a, c - b) for a, b in cells)
            check(near(g.get_distance_to_nearest_obstacle(r, c), d, 1e-5) and g.get_distance_to_nearest_obstacle(cell) == g.get_distance_to_nearest_obstacle(r, c), "distance of", (r, c))
            check(g.get_path_cost(r, c) == g.get_path_cost(cell) and 0 <= g.get_path_cost(r, c) <= 1, "path cost of", (r, c))
            e = g.get_distance_to_nearest_voronoi_edge(r, c)
            check(e == g.get_distance_to_nearest_voronoi_edge(cell), "Voronoi distance of", (r, c))
            p = m.grid_cell_to_world_position(cell)
            s = nav.Pose2d(p.x() + 0.2, p.y() + 0.2, 0.0)
            check(v.is_state_valid(s) == (d >= 0.5 - 1e-6), "validity of", (r, c), "at", d)
    # Distances at a position are the values of its cell; there is none outside of the map
    p = m.grid_cell_to_world_position(nav.GridCellPosition(2, 3))
    p = nav.Point2d(p.x() + 0.1, p.y() + 0.1)
    for f in (g.get_distance_to_nearest_obstacle, g.get_path_cost):
        check(f(p, 0.0) is True and f(far, 0.0) is False, "query by position", f)
    check(m.remove_obstacle(o) is True and m.remove_obstacle(o) is False and m.get_num_obstacles() == 0 and occupied(m) == frozenset(), "removing an obstacle")
    mc.transition(64)
    mc.state("%d %r %r" % (kind, where, moved))
    mc.outcome(str(len(cells)))


def image(draw, rows, cols):
    """Pixels of the image written by a function, by cell."""
    d = tempfile.mkdtemp(prefix="verif_c24_")
    try:
        name = os.path.join(d, "image.ppm")
        draw(name)
        check(os.path.exists(name), "no image is written")
        data = open(name, "rb").read()
    finally:
        shutil.rmtree(d)
    check(data[:2] == b"P6" and len(data) > 3 * rows * cols, "an image of", len(data), "bytes")
    data = data[-3 * rows * cols:]
    return {(r, c): tuple(data[3 * ((cols - 1 - c) * rows + r):][:3]) for r in range(rows) for c in range(cols)}


def diagrams():
    """Two obstacles: Voronoi edges, potential and image."""
    a = pick([(-1.2, 0.1), (-1.2, 1.4), (-1.0, -1.3)])
    b = pick([(1.3, 0.1), (1.3, -1.2)])
    moved = pick([(0.0, 0.0), (1.0, 0.5)])
    mc.split()
    space, m, v = world()
    m.set_position(nav.Point2d(*moved))
    for w in (a, b):
        o = nav.Obstacle()
        o.set_shape(nav.RectangleShape(0.6, 0.6))
        o.set_pose(nav.Pose2d(w[0] + moved[0], w[1] + moved[1], 0.0))
        m.add_obstacle(o)
    m.update()
    g = nav.GVD(m)
    g.update()
    cells = occupied(m)
    edges = [(r, c) for r in range(8) for c in range(8) if g.get_distance_to_nearest_voronoi_edge(r, c) == 0]
    check(edges and not cells.intersection(edges), "edges", edges)
    img = image(g.visualize, 8, 8)
    for r in range(8):
        for c in range(8):
            cell = nav.GridCellPosition(r, c)
            d = 0.5 * min(math.hypot(r - x, c - y) for x, y in edges)
            e, p = g.get_distance_to_nearest_voronoi_edge(cell), g.get_path_cost(cell)
            check(near(e, d, 0.02) and e == g.get_distance_to_nearest_voronoi_edge(r, c), "distance", e, "of", (r, c), "to the edges, instead of", d)
            check(p == g.get_path_cost(r, c), "path cost of", (r, c))
            if (r, c) in cells:
                check(p == 1 and img[r, c] == (0, 0, 0), "path cost", p, "and colour", img[r, c], "of the obstacle", (r, c))
            else:
                check((p == 0) == ((r, c) in edges) and 0 <= p < 1, "path cost", p, "of", (r, c))
                check(img[r, c] != (0, 0, 0), "colour of the free cell", (r, c))
            w = m.grid_cell_to_world_position(cell)
            check(g.get_path_cost(nav.Point2d(w.x() + 0.2, w.y() + 0.2), 0.0) is True, "path cost of the position of", (r, c))
            check(g.get_distance_to_nearest_voronoi_edge(nav.Point2d(w.x() + 0.2, w.y() + 0.2), 0.0) is True, "Voronoi distance of the position of", (r, c))
    mc.transition(64)
    mc.state("%r %r %r" % (a, b, moved))
    mc.outcome(str(len(edges)))


# ---------------------------------------------------------------- lifetimes
def lifetimes():
    """Objects handed over to others are used after Python dropped its references, in every order."""
    kind = mc.choose(5)
    order = pick(list(itertools.permutations(range(4))))
    ndrop = mc.choose(5)
    mc.split()
    space, m, v = world()
    shape = shapes()[kind]()
    o = nav.Obstacle()
    o.set_shape(shape)
    o.set_pose(nav.Pose2d(0.4, 0.1, 0.3))
    m.add_obstacle(o)
    m.update()
    g = nav.GVD(m)
    g.update()
    ref = [g.get_distance_to_nearest_obstacle(r, c) for r in range(8) for c in range(8)]
    cost = [g.get_path_cost(r, c) for r in range(8) for c in range(8)]
    cells = occupied(m)
    names = ["space", "m", "o", "shape"]
    refs = {"space": space, "m": m, "o": o, "shape": shape}
    del space, m, o, shape
    for k in range(ndrop):
        del refs[names[order[k]]]
        m2 = v.get_occupancy_map()
        check(occupied(m2) == cells and m2.get_num_obstacles() == 1, "the map of the validator after", names[order[k]], "is dropped")
        check([g.get_distance_to_nearest_obstacle(r, c) for r in range(8) for c in range(8)] == ref, "distances after", names[order[k]], "is dropped")
        check([g.get_path_cost(r, c) for r in range(8) for c in range(8)] == cost, "path cost after", names[order[k]], "is dropped")
        v.min_safe_radius = 0.1
        check(v.is_state_valid(nav.Pose2d(-1.9, -1.9, 0.0)), "validity after", names[order[k]], "is dropped")
        check(xyt(v.state_space.bounds[1]) == (2.0, 2.0, 3.125), "bounds after", names[order[k]], "is dropped")
        # The map rebuilds its obstacles from their shapes
        m2.set_position(nav.Point2d(0.5, 0.0))
        m2.set_position(nav.Point2d(0.0, 0.0))
        m2.update()
        check(occupied(m2) == cells, "obstacles placed again after", names[order[k]], "is dropped")
        g.update()
        mc.transition(1)
    last = mc.choose(3)
    if last == 0:
        del v
        check([g.get_path_cost(r, c) for r in range(8) for c in range(8)] == cost, "path cost after the validator is dropped")
    elif last == 1:
        del g
        check(not v.is_state_valid(nav.Pose2d(9.0, 0.0, 0.0)), "validity after the diagram is dropped")
    else:
        m2 = v.get_occupancy_map()
        del v, g
        refs.clear()
        check(occupied(m2) == cells and m2.get_num_obstacles() == 1, "the map outlives its validator")
        m2.update()
    mc.state("%d %r %d %d" % (kind, order, ndrop, last))
    mc.outcome(str(ndrop))


# ---------------------------------------------------------------- grid planners
class GridMap(nav.OccupancyMap):
    """Occupancy map implemented in Python."""

    def __init__(self, rows, cols, blocked, fault=None):
        nav.OccupancyMap.__init__(self, 1.0)
        self.initialize_size(rows, cols)
        self.blocked = blocked
        self.fault = fault

    def IsOccupied(self, cell):
        if self.fault:
            self.fault()
        return (cell.row, cell.col) in self.blocked


def moves(rows, cols, blocked, a):
    for dr in (-1, 0, 1):
        for dc in (-1, 0, 1):
            n = (a[0] + dr, a[1] + dc)
            if (dr or dc) and 0 <= n[0] < rows and 0 <= n[1] < cols and n not in blocked:
                if dr and dc and (a[0] + dr, a[1]) in blocked and (a[0], a[1] + dc) in blocked:
                    continue
                yield n


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def dijkstra(rows, cols, blocked, s, g):
    best = {s: 0.0}
    q = [(0.0, s)]
    while q:
        d, a = heapq.heappop(q)
        if a == g:
            return d
        if d > best[a]:
            continue
        for n in moves(rows, cols, blocked, a):
            e = d + dist(a, n)
            if e < best.get(n, math.inf) - 1e-12:
                best[n] = e
                heapq.heappush(q, (e, n))
    return math.inf


def euclid(a, b):
    return math.hypot(a.row - b.row, a.col - b.col)


class Heuristic(nav.AStarHeuristicN2):
    """Heuristic implemented in Python."""

    def __init__(self):
        nav.AStarHeuristicN2.__init__(self)
        self.goal = None

    def SetGoal(self, goal):
        self.goal = (goal.row, goal.col)

    def GetHeuristicValue(self, state):
        return dist((state.row, state.col), self.goal)


class Propagator(nav.AStarStatePropagatorN2):
    """State propagator implemented in Python."""

    def __init__(self, m, log):
        nav.AStarStatePropagatorN2.__init__(self)
        self.m = m
        self.log = log

    def GetNeighborStates(self, cell):
        a = (cell.row, cell.col)
        self.log.add(a)
        return [(nav.GridCellPosition(*n), nav.NullAction(), dist(a, n)) for n in moves(self.m.rows(), self.m.columns(), self.m.blocked, a)]


class Zero(nav.AStarHeuristicN2):
    """The heuristic that a pair of which is always consistent, in Python."""

    def __init__(self):
        nav.AStarHeuristicN2.__init__(self)

    def GetHeuristicValue(self, cell):
        return 0.0

    def SetGoal(self, goal):
        pass


def planner(which, m, heuristic, fault=None, own=False, logs=(set(), set())):
    """An initialised planner: Python keeps no reference to what it is made of."""
    cost = lambda a, b: (fault and fault(), euclid(a, b))[1]
    h = heuristic()
    p = Propagator(m, logs[0]) if own else nav.AStarStatePropagatorFcnN2(m, cost)
    if which == 0:
        a = nav.AStarN2()
        ok = a.initialize(p, h)
    else:
        a = nav.BidirectionalAStarN2()
        hs = nav.BidirectionalAStarN2.get_average_heuristic_pair(h, heuristic()) if which == 1 else (Zero(), Zero())
        p2 = Propagator(m, logs[1]) if own else nav.AStarStatePropagatorFcnN2(m, cost)
        ok = a.initialize(p, p2, hs[0], hs[1])
    check(ok is True, "initialize returns", ok)
    return a


def verify(what, a, status, rows, cols, blocked, s, g):
    best = dijkstra(rows, cols, blocked, s, g)
    path = [rc(c) for c in a.get_path()]
    found = best < math.inf
    check(status == (nav.Status.SUCCESS if found else nav.Status.FAILURE), what, "status", status, "from", s, "to", g, "blocked", sorted(blocked))
    if not found:
        check(path == [] and a.get_optimal_cost() == math.inf, what, "a failed search has the path", path, "of cost", a.get_optimal_cost())
        return best
    check(path[0] == s and path[-1] == g, what, "path", path, "from", s, "to", g)
    for x, y in zip(path, path[1:]):
        check(y in set(moves(rows, cols, blocked, x)), what, "illegal move", x, y, "blocked", sorted(blocked))
    length = sum(dist(x, y) for x, y in zip(path, path[1:]))
    check(near(length, best) and near(a.get_optimal_cost(), best), what, "length", length, "cost", a.get_optimal_cost(), "instead of", best, "blocked", sorted(blocked))
    return best


def grid_planners():
    rows, cols = 3, 3
    which = mc.choose(3)
    heur = mc.choose(2) if which < 2 else 1
    bits = mc.choose(1 << 9)
    mc.split()
    cells = [(r, c) for r in range(rows) for c in range(cols)]
    blocked = {c for i, c in enumerate(cells) if bits >> i & 1}
    free = [c for c in cells if c not in blocked]
    if not free:
        return
    heuristic = (lambda: nav.AStarHeuristicFcnN2(euclid)) if heur == 0 else Heuristic
    drop, own = mc.choose(2), mc.choose(2)
    m = GridMap(rows, cols, blocked)
    logs = (set(), set())
    a = planner(which, m, heuristic, own=own, logs=logs)
    if drop:
        del m  # the planner still needs it
    for s in (free if mc.thorough() else free[:1] + free[-1:]):
        for g in free:
            a.set_init_state(nav.GridCellPosition(*s))
            a.set_goal_state(nav.GridCellPosition(*g))
            logs[0].clear()
            logs[1].clear()
            st = a.search_path()
            verify("A*" if which == 0 else "bidirectional A*", a, st, rows, cols, blocked, s, g)
            e = a.get_explored_states()
            if which == 0:
                ex = [rc(c) for c in e]
                check(len(set(ex)) == len(ex) and not set(ex) & blocked, "explored", ex)
            else:
                check(len(e) == 2 and all(isinstance(x, set) for x in e), "explored sets", e)
                ex = [rc(c) for c in e[1]]
                check(len(set(ex)) == len(ex) and not set(ex) & blocked, "explored in reverse", ex)
                if own:
                    check(logs[1] <= set(ex) <= logs[1] | {g}, "expanded in reverse", sorted(logs[1]), "but explored", sorted(ex))
                ex = [rc(c) for c in e[0]]
                check(len(set(ex)) == len(ex) and not set(ex) & blocked, "explored forward", ex)
            if own:
                check(logs[0] <= set(ex) <= logs[0] | ({s} if which else {s, g}), "expanded", sorted(logs[0]), "but explored", sorted(ex))
            mc.transition(1)
    mc.state("%d %d %d" % (which, heur, bits))
    mc.outcome("%d" % len(free))


class Boom(Exception):
    pass


def faults():
    """A Python callback raises at each of its calls: the exception reaches the caller, and the next search is right."""
    rows, cols = 3, 3
    which = mc.choose(2)
    blocked = pick([set(), {(1, 1)}, {(0, 1), (1, 1)}, {(0, 1), (1, 1), (2, 1)}])
    where = mc.choose(3)
    at = mc.choose(60)
    mc.split()
    count = [0]

    def fault():
        count[0] += 1
        if count[0] == at + 1:
            raise Boom()

    m = GridMap(rows, cols, blocked, fault if where == 0 else None)
    f = (lambda a, b: (fault(), euclid(a, b))[1]) if where == 1 else euclid
    a = planner(which, m, lambda: nav.AStarHeuristicFcnN2(f), fault if where == 2 else None)
    s, g = (0, 0), pick([(2, 2), (0, 2)])
    a.set_init_state(nav.GridCellPosition(*s))
    a.set_goal_state(nav.GridCellPosition(*g))
    raised = False
    for k in range(2):
        try:
            st = a.search_path()
            verify("search %d with a fault of %d at call %d," % (k, where, at), a, st, rows, cols, blocked, s, g)
        except Boom:
            check(not raised, "raised twice")
            raised = True
        mc.transition(1)
    check(raised == (count[0] > at), "the exception of the callback is lost: call", at, "of", count[0])
    mc.state("%d %r %d %d" % (which, sorted(blocked), where, at))
    mc.outcome("%s" % raised)


# ---------------------------------------------------------------- subclasses
class Straight(nav.PathSE2Base):
    """Path implemented in Python."""

    def __init__(self, a, b, length):
        nav.PathSE2Base.__init__(self)
        self.a, self.b, self.length, self.cuts = a, b, length, []

    def Interpolate(self, ratio):
        return nav.Pose2d(*(x + ratio * (y - x) for x, y in zip(self.a, self.b)))

    def Truncate(self, ratio):
        self.cuts.append(ratio)


class Connection(nav.PathConnectionSE2Base):
    def Connect(self, a, b):
        return nav.PathSE2(b, a)


class Validator(nav.StateValidatorSE2Base):
    def __init__(self, space, limit):
        nav.StateValidatorSE2Base.__init__(self, space)
        self.limit = limit
        self.paths = 0

    def IsStateValid(self, state):
        return state.x() < self.limit

    def IsPathValid(self, path, last):
        self.paths += 1
        return path.get_final_state().x() < self.limit


class PlannerSE2(nav.PathPlannerSE2Base):
    def SearchPath(self):
        self.calls = getattr(self, "calls", 0) + 1
        return nav.Status.FAILURE if self.calls % 2 else nav.Status.SUCCESS

    def GetPath(self):
        return [nav.Pose2d(1.0, 2.0, 3.0)] * self.calls


class PlannerN2(nav.PathPlannerN2Base):
    def SearchPath(self):
        return nav.Status.SUCCESS

    def GetPath(self):
        return [nav.GridCellPosition(1, 2), nav.GridCellPosition(3, 4)]


class Counting(nav.OccupancyMap):
    def __init__(self):
        nav.OccupancyMap.__init__(self, 0.5)
        self.updates = 0
        self.log = []

    def IsOccupied(self, cell):
        return (cell.row + cell.col) % 3 == 0

    def Update(self):
        self.updates += 1
        self.log.append(self.updates)


class Blank(nav.OccupancyMap):
    def __init__(self, log):
        nav.OccupancyMap.__init__(self, 0.5)
        self.log = log

    def IsOccupied(self, cell):
        self.log.append((cell.row, cell.col))
        return False

    def Update(self):
        pass


def subclasses():
    kind = mc.choose(8)
    x = pick([-1.0, 0.0, 2.5])
    y = pick([-1.0, 0.5])
    mc.split()
    if kind == 0:
        p = Straight((x, y, 0.0), (x + 4, y, 1.0), 4.0)
        for r in (0.0, 0.25, 1.0):
            check(same(xyt(p.interpolate(r)), (x + 4 * r, y, r)), "interpolate of a Python path at", r, "is", xyt(p.interpolate(r)))
        check([xyt(q) for q in p.interpolate([0.0, 0.5])] == [(x, y, 0.0), (x + 2, y, 0.5)], "interpolate of a Python path at several ratios")
        p.truncate(0.5)
        check(p.cuts == [0.5], "truncate of a Python path", p.cuts)
    elif kind == 1:
        c = Connection()
        p = c.connect(nav.Pose2d(x, y, 0.0), nav.Pose2d(5.0, 6.0, 1.0))
        check(xyt(p.get_initial_state()) == (5.0, 6.0, 1.0) and xyt(p.get_final_state()) == (x, y, 0.0), "connection implemented in Python")
    elif kind == 2:
        s = nav.StateSpaceSE2(nav.Pose2d(-5.0, -5.0, -1.0), nav.Pose2d(5.0, 5.0, 1.0))
        v = Validator(s, 1.0)
        del s
        check(v.is_state_valid(nav.Pose2d(x, y, 0.0)) == (x < 1.0), "state validity implemented in Python")
        p = nav.PathSE2(nav.Pose2d(9.0, 0.0, 0.0), nav.Pose2d(x, y, 0.0))
        check(v.is_path_valid(p, 0.0) == (x < 1.0) and v.paths == 1, "path validity implemented in Python")
        check(xyt(v.state_space.bounds[0]) == (-5.0, -5.0, -1.0), "state space of a Python validator")
    elif kind == 3:
        p = PlannerSE2()
        p.set_init_state(nav.Pose2d(x, y, 0.0))
        p.set_goal_state(nav.Pose2d(x, y, 1.0))
        for k in range(1, 4):
            check(p.search_path() == (nav.Status.FAILURE if k % 2 else nav.Status.SUCCESS), "search implemented in Python")
            check([xyt(q) for q in p.get_path()] == [(1.0, 2.0, 3.0)] * k, "path implemented in Python")
    elif kind == 4:
        p = PlannerN2()
        p.set_init_state(nav.GridCellPosition(1, 1))
        p.set_goal_state(nav.GridCellPosition(1, 1))
        check(p.search_path() == nav.Status.SUCCESS and [rc(c) for c in p.get_path()] == [(1, 2), (3, 4)], "grid planner implemented in Python")
    elif kind == 5:
        # Given to a validator and a diagram, and dropped
        m = Counting()
        updates = m.log
        v = nav.StateValidatorOccupancyMap(nav.StateSpaceSE2(nav.Pose2d(-2.0, -1.0, -1.0), nav.Pose2d(2.0, 1.0, 1.0)), m)
        check((m.rows(), m.columns()) == (8, 4), "the validator sizes the map")
        g = nav.GVD(m)
        if x < 0:
            del m
        g.update()
        if y < 0:
            del g
        m2 = v.get_occupancy_map()
        before = len(updates)
        m2.update()
        check(len(updates) == before + 1 and m2.is_occupied(nav.GridCellPosition(3, 3)) and not m2.is_occupied(nav.GridCellPosition(3, 2)), "the map of the validator is the Python one")
    elif kind == 6:
        # Searched by the hybrid planner, and dropped
        log = []
        m = Blank(log)
        v = nav.StateValidatorOccupancyMap(nav.StateSpaceSE2(nav.Pose2d(-5.0, -5.0, -3.14), nav.Pose2d(5.0, 5.0, 3.14)), m)
        p = nav.HybridAStar()
        check(p.initialize(v) is True, "initialize")
        if x < 0:
            del m
        if x > 0:
            del m, v
        p.set_init_state(nav.Pose2d(-3.0, 0.0, 0.0))
        p.set_goal_state(nav.Pose2d(3.0, y, 0.0))
        check(p.search_path() == nav.Status.SUCCESS, "search of a Python map")
        check(len(log) > 0, "the map implemented in Python is used")
    else:
        m = Counting()
        m.initialize_size(2.0, 3.0)
        check((m.rows(), m.columns()) == (4, 6), "size of a Python map")
        m.update()
        check(m.updates == 1, "update of a Python map")
        for r in range(4):
            for c in range(6):
                check(m.is_occupied(nav.GridCellPosition(r, c)) == ((r + c) % 3 == 0), "is_occupied of a Python map")
        # Kept by its diagram alone
        g = nav.GVD(m)
        del m
        gc.collect()
        g.update()
        img = image(g.visualize, 4, 6)
        check(set(img.values()) == {(0, 0, 0)}, "image of a diagram without obstacles", set(img.values()))
    mc.transition(1)
    mc.state("%d %r %r" % (kind, x, y))
    mc.outcome(str(kind))


# ---------------------------------------------------------------- hybrid A*
def hybrid():
    """A whole search from Python; everything but the planner may be dropped before it."""
    params = mc.choose(3)
    layout = mc.choose(3)
    goal = pick([(3.0, 3.0, 0.0), (3.0, -2.0, 1.5), (0.5, 3.0, -1.5)])
    mc.split()
    drop = mc.choose(4)
    space, m, v = world(10.0, 0.5)
    v.min_safe_radius = 0.3
    obstacles = []
    for w in [[], [(0.5, 0.0, 0.4)], [(0.5, 0.0, 0.4), (2.0, 1.5, 0.0)]][layout]:
        o = nav.Obstacle()
        o.set_shape(nav.RectangleShape(0.5, 0.5))
        o.set_pose(nav.Pose2d(*w))
        m.add_obstacle(o)
        obstacles.append(o)
    m.update()
    values = (1.5, 0.5, 2.0, 1.0, 0.7, 5, 0.5, 0.2)
    if params == 0:
        a = nav.HybridAStar()
        want = (2.0, 0.0, 1.0, 1.0, 1.0, 5, 1.0, 0.0872)
    else:
        p = nav.HybridAStarSearchParameters(*values)
        a = nav.HybridAStar(p)
        if params == 2:
            del p
        want = values
    q = a.get_search_parameters()
    got = (q.min_turning_radius, q.direction_switching_cost, q.reverse_cost_multiplier, q.forward_cost_multiplier, q.voronoi_cost_multiplier, q.num_generated_motion, q.spatial_resolution, q.angular_resolution)
    check(all(near(x, y) for x, y in zip(got, want)) and near(q.wheelbase, 2.6), "search parameters", got, "instead of", want)
    sp = a.smoother_parameters
    fields = ["step_tolerance", "max_iterations", "learning_rate", "path_weight", "smooth_weight", "voronoi_weight", "collision_weight", "curvature_weight", "collision_ratio"]
    mine = nav.HybridAStarSmootherParameters(1 / want[0])
    for i, f in enumerate(fields):
        setattr(mine, f, 3 + i if f == "max_iterations" else 0.01 * (i + 1))
    a.smoother_parameters = mine
    for i, f in enumerate(fields):
        check(near(getattr(a.smoother_parameters, f), 3 + i if f == "max_iterations" else 0.01 * (i + 1), 1e-5), "smoother parameter", f)
    a.smoother_parameters = sp
    del mine, sp
    a.path_interpolation = 0.1
    check(near(a.path_interpolation, 0.1, 1e-6), "path_interpolation")
    start = (-3.0, -3.0, 0.3)
    check(a.search_path() == nav.Status.FAILURE, "a planner that is not initialised")
    check(a.initialize(v) is True, "initialize")
    check(near(a.smoother_parameters.max_curvature, 1 / want[0], 1e-5), "max_curvature", a.smoother_parameters.max_curvature)
    a.set_init_state(nav.Pose2d(*start))
    a.set_goal_state(nav.Pose2d(*goal))
    if drop == 1:
        del v, space
    elif drop == 2:
        del m, obstacles
    elif drop == 3:
        del m, obstacles, v, space
    st = a.search_path()
    stats = a.get_stats()
    check(st == nav.Status.SUCCESS and stats.graph_search_status == st, "search from", start, "to", goal, "layout", layout, ":", st)
    check(isinstance(stats.smoothing_status, nav.SmoothingStatus), "smoothing status")
    path = [xyt(p) for p in a.get_path()]
    smooth = [xyt(p) for p in a.get_smoothed_path()]
    check(same(path[0], start, 1e-6) and same(path[-1], goal, 1e-5), "path from", path[0], "to", path[-1])
    for x, y in zip(path, path[1:]):
        check(dist(x, y) <= 0.5, "gap of the path at", x, y)
    segments = a.get_graph_search_path()
    at = start
    for e in segments:
        check(isinstance(e, nav.PathNonHolonomicSE2Base), "segment", e)
        check(same(xyt(e.get_initial_state()), at, 1e-6), "segment from", xyt(e.get_initial_state()), "after", at)
        at = xyt(e.get_final_state())
    check(same(at, goal, 1e-5), "the segments end at", at)
    good = stats.smoothing_status in (nav.SmoothingStatus.MAX_ITERATION, nav.SmoothingStatus.STEP_TOLERANCE)
    check(not good or path == smooth, "the path is the smoothed one when smoothing succeeds:", stats.smoothing_status)
    check(a.get_graph_search_optimal_cost() >= min(want[2], want[3]) * dist(start, goal) - 1e-6, "cost", a.get_graph_search_optimal_cost())
    cost, last = 0.0, None
    for e in segments:
        r = [0.0] + sorted(x for x in e.get_cusp_point_ratios() if 1e-9 < x < 1 - 1e-9) + [1.0]
        for x, y in zip(r, r[1:]):
            d = e.get_direction(0.5 * (x + y))
            cost += (y - x) * e.get_length() * (want[3] if d == nav.Direction.FORWARD else want[2])
            cost += want[1] if last is not None and last != d else 0.0
            last = d
    # The Voronoi field costs nothing without obstacles
    check(a.get_graph_search_optimal_cost() >= cost - 1e-3 and (layout or near(a.get_graph_search_optimal_cost(), cost, 1e-4)), "the cost is", a.get_graph_search_optimal_cost(), "instead of", cost)
    explored = a.get_graph_search_explored_path_set()
    check(len(explored) > 0, "explored paths")
    for e in list(explored)[:5]:
        check(isinstance(e, nav.PathNonHolonomicSE2Base) and e.get_length() >= 0, "explored path", e)
    # Image of the obstacle heuristic: the goal is the lightest cell
    img = image(a.visualize_obstacle_heuristic, 20, 20)
    at = (int((goal[0] + 5) // 0.5), int((goal[1] + 5) // 0.5))
    check(img[at] == max(img.values()) and len(set(img.values())) > 5, "image of the heuristic: the goal", at, "is", img[at], "the maximum", max(img.values()))
    if drop in (0, 1):
        for cell in occupied(m):
            check(img[cell] == (0, 0, 0), "image of the heuristic at the obstacle", cell, img[cell])
    seg = segments[0]
    ex = next(iter(explored))
    end = xyt(ex.get_final_state())
    # A second search, that fails
    a.set_goal_state(nav.Pose2d(0.5, 0.0, 0.4) if layout else nav.Pose2d(9.0, 0.0, 0.0))
    check(a.search_path() == nav.Status.FAILURE and a.get_stats().graph_search_status == nav.Status.FAILURE and a.get_path() == [] and a.get_graph_search_path() == [] and a.get_graph_search_optimal_cost() == math.inf, "a search that fails after one that did not", a.get_stats().graph_search_status, len(a.get_path()))
    del a, explored, segments
    check(same(xyt(seg.get_initial_state()), start), "segments outlive their planner")
    check(xyt(ex.get_final_state()) == end, "explored paths outlive their planner")
    if drop in (0, 2):
        check(v.is_state_valid(nav.Pose2d(*start)), "the validator outlives its planner")
    mc.transition(len(path))
    mc.state("%d %d %r %d" % (params, layout, goal, drop))
    mc.outcome("%r" % (len(path),))
