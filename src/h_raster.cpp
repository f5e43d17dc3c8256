// C15: rasterisation of the obstacles.
#include "mc.h"
#include "core/base.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include <set>
#include <queue>
using namespace Planner;

namespace {
	using P2 = std::pair<double, double>;
	using Poly = std::vector<P2>;
	using Cells = std::set<std::pair<int, int>>;

	double distSeg(P2 p, P2 a, P2 b)
	{
		double vx = b.first - a.first, vy = b.second - a.second, wx = p.first - a.first, wy = p.second - a.second;
		double n = vx * vx + vy * vy, t = n > 0 ? std::max(0.0, std::min(1.0, (wx * vx + wy * vy) / n)) : 0;
		return std::hypot(wx - t * vx, wy - t * vy);
	}
	double distPoly(P2 p, const Poly& q)
	{
		double d = 1e18;
		for (size_t i = 0; i < q.size(); i++)
			d = std::min(d, distSeg(p, q[i], q[(i + 1) % q.size()]));
		return d;
	}
	bool inside(P2 p, const Poly& q)
	{
		bool in = false;
		for (size_t i = 0, j = q.size() - 1; i < q.size(); j = i++)
			if ((q[i].second > p.second) != (q[j].second > p.second) && p.first < (q[j].first - q[i].first) * (p.second - q[i].second) / (q[j].second - q[i].second) + q[i].first)
				in = !in;
		return in;
	}
	Poly place(const Poly& q, double x, double y, double t)
	{
		Poly o;
		for (auto& [a, b] : q)
			o.push_back({ x + a * std::cos(t) - b * std::sin(t), y + a * std::sin(t) + b * std::cos(t) });
		return o;
	}
	Poly regular(double r, int n)
	{
		Poly o;
		for (int i = 0; i < n; i++)
			o.push_back({ r * std::cos(2 * M_PI * i / n), r * std::sin(2 * M_PI * i / n) });
		return o;
	}
	Poly rectangle(double dx, double dy) { return { { dx / 2, dy / 2 }, { -dx / 2, dy / 2 }, { -dx / 2, -dy / 2 }, { dx / 2, -dy / 2 } }; }
	std::vector<Point2d> pts(const Poly& q)
	{
		std::vector<Point2d> v;
		for (auto& [a, b] : q)
			v.push_back({ a, b });
		return v;
	}

	struct Map : ObstacleListOccupancyMap {
		Map(float res, float w, float h, double px, double py) :
			ObstacleListOccupancyMap(res)
		{
			SetPosition({ px, py });
			InitializeSize(w, h);
		}
	};

	/// Position of a world point in cell units.
	P2 grid(const OccupancyMap& m, P2 p)
	{
		Point2d o = m.GridCellToWorldPosition(0, 0);
		return { (p.first - o.x()) / m.resolution, (p.second - o.y()) / m.resolution };
	}
	Cells cellsOf(const OccupancyMap& m, Obstacle& o)
	{
		Cells s;
		for (auto& c : o.GetBoundaryGridCellPosition(m)) {
			MC_CHECK(c.row >= 0 && c.row < m.Rows() && c.col >= 0 && c.col < m.Columns(), "cell (" << c.row << "," << c.col << ") is outside of the map");
			s.insert({ c.row, c.col });
		}
		return s;
	}

	void checkPoly(const OccupancyMap& m, Obstacle& o, const Poly& world)
	{
		// Vertices
		auto v = o.GetBoundaryWorldPosition();
		MC_CHECK(v.size() == world.size(), v.size() << " vertices instead of " << world.size());
		for (size_t i = 0; i < v.size(); i++)
			MC_CHECK(std::hypot(v[i].x() - world[i].first, v[i].y() - world[i].second) < 1e-6, "vertex " << i << " is at (" << v[i].x() << "," << v[i].y() << ") instead of (" << world[i].first << "," << world[i].second << ")");
		Cells cells = cellsOf(m, o);
		Poly g;
		bool within = true;
		for (auto& p : world) {
			g.push_back(grid(m, p));
			within = within && g.back().first > 0.001 && g.back().second > 0.001 && g.back().first < m.Rows() - 0.001 && g.back().second < m.Columns() - 0.001;
		}
		// Every cell is next to the boundary
		uint64_t h = cells.size();
		for (auto& [r, c] : cells) {
			double d = distPoly({ r + 0.5, c + 0.5 }, g);
			MC_CHECK(d < 1.42, "cell (" << r << "," << c << ") is marked at " << d << " cells from the boundary");
			h = mc::mix(mc::mix(h, r), c);
		}
		// Every point of the boundary inside the map is in or next to a marked cell
		for (size_t i = 0; i < g.size(); i++) {
			P2 a = g[i], b = g[(i + 1) % g.size()];
			int n = std::max(1, (int)(4 * std::hypot(b.first - a.first, b.second - a.second)));
			for (int k = 0; k <= n; k++) {
				double x = a.first + (b.first - a.first) * k / n, y = a.second + (b.second - a.second) * k / n;
				int r = (int)std::floor(x), c = (int)std::floor(y);
				bool deep = r >= 1 && c >= 1 && r < m.Rows() - 1 && c < m.Columns() - 1;
				if (!deep && !within)
					continue;
				bool ok = false;
				for (int dr = -1; dr <= 1; dr++)
					for (int dc = -1; dc <= 1; dc++)
						ok = ok || cells.count({ r + dr, c + dc });
				MC_CHECK(ok, "the boundary crosses cell (" << r << "," << c << ") and no cell around it is marked");
			}
			// The cell of a vertex is marked
			double fx = a.first - std::floor(a.first), fy = a.second - std::floor(a.second);
			int r = (int)std::floor(a.first), c = (int)std::floor(a.second);
			if (fx > 1e-3 && fx < 0.999 && fy > 1e-3 && fy < 0.999 && r >= 0 && c >= 0 && r < m.Rows() && c < m.Columns())
				MC_CHECK(cells.count({ r, c }), "the cell (" << r << "," << c << ") of a vertex is not marked");
		}
		mc::transition();
		mc::state(h);
		if (!within || g.size() < 3)
			return;
		// The marked cells separate the inside from the outside: flood from the
		// outside with the moves of the grid planner (no squeezing between two
		// diagonal obstacles), the map being surrounded by free cells.
		int R = m.Rows() + 2, C = m.Columns() + 2;
		std::vector<char> occ(R * C), seen(R * C);
		for (auto& [r, c] : cells)
			occ[(r + 1) * C + c + 1] = 1;
		std::queue<int> q;
		q.push(0);
		seen[0] = 1;
		while (!q.empty()) {
			int i = q.front();
			q.pop();
			int r = i / C, c = i % C;
			for (int dr = -1; dr <= 1; dr++)
				for (int dc = -1; dc <= 1; dc++) {
					int nr = r + dr, nc = c + dc;
					if (nr < 0 || nc < 0 || nr >= R || nc >= C || occ[nr * C + nc] || seen[nr * C + nc])
						continue;
					if (dr && dc && occ[nr * C + c] && occ[r * C + nc])
						continue;
					seen[nr * C + nc] = 1;
					q.push(nr * C + nc);
				}
		}
		bool any = false;
		for (int r = 0; r < m.Rows(); r++)
			for (int c = 0; c < m.Columns(); c++) {
				P2 p = { r + 0.5, c + 0.5 };
				if (!inside(p, g) || distPoly(p, g) < 1.5)
					continue;
				any = true;
				MC_CHECK(!seen[(r + 1) * C + c + 1], "the inside cell (" << r << "," << c << ") of a closed obstacle can be reached from its outside");
			}
		if (any)
			mc::outcome(h);
	}

	struct Named {
		Ref<Shape> s;
		Poly p;
	};
	Named shape(int i)
	{
		switch (i) {
		case 0: return { makeRef<RectangleShape>(6.0, 3.0), rectangle(6, 3) };
		case 1: return { makeRef<RectangleShape>(7.0, 0.3), rectangle(7, 0.3) };
		case 2: return { makeRef<RectangleShape>(5.0, 5.0), rectangle(5, 5) };
		case 3: return { makeRef<RegularPolygonShape>(3.5, 3), regular(3.5, 3) };
		case 4: return { makeRef<RegularPolygonShape>(3.2, 7), regular(3.2, 7) };
		case 5: return { makeRef<CircleShape>(3.0, 6), regular(3.0 / std::cos(M_PI / 6), 6) };
		case 6: return { makeRef<CircleShape>(2.6, 12), regular(2.6 / std::cos(M_PI / 12), 12) };
		case 7: {
			Poly p = { { -3, -3 }, { 3.3, -3 }, { 3.3, 3 }, { 0.5, -1 }, { -3, 3 } };
			return { makeRef<PolygonShape>(pts(p)), p };
		}
		case 8: {
			Poly p = { { 0, 0 }, { 3.7, 1.2 } };
			return { makeRef<PolygonShape>(pts(p)), p };
		}
		default: {
			Poly p = { { -3.6, -0.5 }, { 0, -2.7 }, { 3.5, -0.2 }, { 0.4, 3.9 } };
			const std::vector<Point2d> v = pts(p);
			return { makeRef<PolygonShape>(v), p };
		}
		}
	}
	constexpr int numShapes = 10;
}

// Every shape, heading and sub-cell offset, well inside the map.
MC_SCENARIO(C15, inside_map, 0)
{
	float res = mc::pick({ 1.0f, 0.5f });
	int s = mc::choose(numShapes);
	mc::split();
	int n = mc::thorough() ? 16 : 8, nt = mc::thorough() ? 120 : 48;
	int kx = mc::choose(n), ky = mc::choose(n), kt = mc::choose(nt);
	Map m(res, 14, 15, 2.0, -3.0);
	auto sh = shape(s);
	double x = 2.0 + 0.013 + kx * res / n, y = -3.0 + 0.017 + ky * res / n, t = kt * 2 * M_PI / nt - M_PI + 0.001;
	mc::note(mc::Str() << "shape " << s << " at (" << x << "," << y << "," << t << ") resolution " << res);
	Obstacle o;
	o.SetShape(sh.s);
	o.SetPose(Pose2d(x, y, t));
	checkPoly(m, o, place(sh.p, x, y, t));
}
// Partly or completely outside of the map.
MC_SCENARIO(C15, across_border, 0)
{
	int s = mc::choose(numShapes);
	mc::split();
	double x = -9 + 1.5 * mc::choose(13), y = -9 + 1.5 * mc::choose(13);
	int kt = mc::choose(mc::thorough() ? 72 : 24);
	double t = kt * 2 * M_PI / (mc::thorough() ? 72 : 24) + 0.1;
	Map m(0.5f, 9, 8, 0.2, 0.1);
	auto sh = shape(s);
	mc::note(mc::Str() << "shape " << s << " at (" << x << "," << y << "," << t << ")");
	Obstacle o;
	o.SetShape(sh.s);
	o.SetPose(Pose2d(x, y, t));
	checkPoly(m, o, place(sh.p, x, y, t));
}
// Segments between every pair of cells of a small map.
MC_SCENARIO(C15, segments, 0)
{
	const int N = 9;
	int a = mc::choose(N * N);
	mc::split();
	int b = mc::choose(N * N), f = mc::choose(3);
	double off[] = { 0.5, 0.1, 0.9 };
	Map m(1.0f, N, N, 0, 0);
	Poly w = { { a / N - N / 2.0 + off[f], a % N - N / 2.0 + off[f] }, { b / N - N / 2.0 + off[f], b % N - N / 2.0 + off[f] } };
	mc::note(mc::Str() << "segment from cell " << a << " to cell " << b);
	Obstacle o;
	o.SetShape(makeRef<PolygonShape>(pts(w)));
	o.SetPose(Pose2d(0, 0, 0));
	checkPoly(m, o, w);
	// The cells form a chain from one end to the other
	Cells cells = cellsOf(m, o);
	MC_CHECK(cells.count({ a / N, a % N }) && cells.count({ b / N, b % N }), "an end of the segment is not marked");
	std::set<std::pair<int, int>> seen = { { a / N, a % N } };
	std::queue<std::pair<int, int>> q;
	q.push(*seen.begin());
	while (!q.empty()) {
		auto [r, c] = q.front();
		q.pop();
		for (int dr = -1; dr <= 1; dr++)
			for (int dc = -1; dc <= 1; dc++)
				if (cells.count({ r + dr, c + dc }) && seen.insert({ r + dr, c + dc }).second)
					q.push({ r + dr, c + dc });
	}
	MC_CHECK(seen.size() == cells.size(), "the cells of a segment are not connected");
}
// Sizes of the shapes, unions, default pose.
MC_SCENARIO(C15, shapes, 0)
{
	int n = mc::pick({ 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 31, 64, 100, 200 }), kr = mc::choose(6);
	mc::split();
	double r = 0.4 + 0.7 * kr;
	double x = -1.3 + 0.9 * mc::choose(4), t = -3 + 0.75 * mc::choose(8);
	mc::note(mc::Str() << "count " << n << " radius " << r << " at (" << x << ",0.4," << t << ")");
	auto vertices = [&](const Ref<Shape>& s) {
		Obstacle o;
		o.SetShape(s);
		o.SetPose(Pose2d(x, 0.4, t));
		Poly p;
		for (auto& v : o.GetBoundaryWorldPosition())
			p.push_back({ v.x(), v.y() });
		return p;
	};
	Poly circle = vertices(makeRef<CircleShape>(r, n));
	MC_CHECK((int)circle.size() == n, "a circle with " << n << " vertices has " << circle.size());
	MC_CHECK(inside({ x, 0.4 }, circle) && distPoly({ x, 0.4 }, circle) > r * (1 - 1e-6), "the polygon does not contain the circle of radius " << r);
	for (auto& p : circle)
		MC_CHECK(std::hypot(p.first - x, p.second - 0.4) < r / std::cos(M_PI / n) * (1 + 1e-6), "a vertex of the circle is too far");
	Poly reg = vertices(makeRef<RegularPolygonShape>(r, n));
	MC_CHECK((int)reg.size() == n, "a regular polygon with " << n << " vertices has " << reg.size());
	for (auto& p : reg)
		MC_CHECK(std::abs(std::hypot(p.first - x, p.second - 0.4) - r) < 1e-6, "a vertex of the regular polygon is not on its circle");
	double side = std::hypot(reg[0].first - reg[1].first, reg[0].second - reg[1].second);
	for (int i = 0; i < n; i++)
		MC_CHECK(std::abs(std::hypot(reg[i].first - reg[(i + 1) % n].first, reg[i].second - reg[(i + 1) % n].second) - side) < 1e-6, "the regular polygon has sides of different lengths");
	// Union
	Map m(0.5f, 9, 8, 0, 0);
	auto c1 = makeRef<CircleShape>(r, n);
	auto c2 = makeRef<RectangleShape>(r, 2 * r);
	auto comp = makeRef<CompositeShape>();
	Obstacle o;
	o.SetPose(Pose2d(x, 0.4, t));
	o.SetShape(comp);
	MC_CHECK(cellsOf(m, o).empty() && o.GetBoundaryWorldPosition().empty(), "an empty composite shape covers cells");
	comp->Add(c1);
	comp->Add(c2);
	Cells all = cellsOf(m, o), expected;
	size_t nv = o.GetBoundaryWorldPosition().size();
	for (auto& s : std::vector<Ref<Shape>> { c1, c2 }) {
		Obstacle one;
		one.SetPose(Pose2d(x, 0.4, t));
		one.SetShape(s);
		Cells k = cellsOf(m, one);
		expected.insert(k.begin(), k.end());
		nv -= one.GetBoundaryWorldPosition().size();
	}
	MC_CHECK(all == expected && nv == 0, "a composite shape is not the union of its children");
	mc::state(mc::mix(all.size(), n));
	mc::transition();
}
// Rectangles aligned with the grid, anywhere across the border: the cells are exactly those of the outline inside the map.
MC_SCENARIO(C15, aligned, 0)
{
	const int R = 5, C = 4, out = 2;
	int r0 = mc::choose(R + 2 * out) - out, r1 = mc::choose(R + 2 * out) - out, c0 = mc::choose(C + 2 * out) - out;
	mc::split();
	int c1 = mc::choose(C + 2 * out) - out, q = mc::choose(4);
	if (r1 < r0 || c1 < c0)
		mc::prune();
	float res = mc::choose(2) ? 0.5f : 1.0f;
	Map m(res, R * res, C * res, 3.0, -2.0);
	double x0 = 3.0 - R * res / 2 + (r0 + 0.5) * res, x1 = 3.0 - R * res / 2 + (r1 + 0.5) * res, y0 = -2.0 - C * res / 2 + (c0 + 0.5) * res, y1 = -2.0 - C * res / 2 + (c1 + 0.5) * res;
	mc::note(mc::Str() << "rows " << r0 << " to " << r1 << ", columns " << c0 << " to " << c1 << ", quarter turns " << q << ", resolution " << res);
	Obstacle o;
	o.SetShape(q % 2 ? makeRef<RectangleShape>(y1 - y0, x1 - x0) : makeRef<RectangleShape>(x1 - x0, y1 - y0));
	o.SetPose(Pose2d((x0 + x1) / 2, (y0 + y1) / 2, q * M_PI / 2));
	Cells want, got = cellsOf(m, o);
	for (int r = r0; r <= r1; r++)
		for (int c = c0; c <= c1; c++)
			if ((r == r0 || r == r1 || c == c0 || c == c1) && r >= 0 && r < R && c >= 0 && c < C)
				want.insert({ r, c });
	for (auto& k : want)
		MC_CHECK(got.count(k), "the cell (" << k.first << "," << k.second << ") of the outline is not marked");
	for (auto& k : got)
		MC_CHECK(want.count(k), "the cell (" << k.first << "," << k.second << ") is marked and not on the outline");
	mc::state(mc::mix(mc::mix(mc::mix(mc::mix(q, r0), r1), c0), c1));
	mc::transition();
}
// Long sides on a large map, far from the origin; shapes much larger or much smaller than a cell or than the map.
MC_SCENARIO(C15, scales, 0)
{
	float res = mc::pick({ 0.1f, 2.0f });
	const double sizes[] = { 0.004, 0.3, 20, 90, 260, 3000, 90000 };
	double sz = sizes[mc::choose(7)] * res;
	int s = mc::choose(5);
	mc::split();
	int nt = mc::thorough() ? 144 : 36, kt = mc::choose(nt), p = mc::choose(3);
	const double cx = 1500.25, cy = -2750.5;
	Map m(res, 150 * res, 137 * res, cx, cy);
	double x = cx + (p == 1 ? 60.3 * res : p == 2 ? -90 * res : 0.21 * res), y = cy + (p == 1 ? -55.7 * res : p == 2 ? 11.4 * res : 0.13 * res), t = kt * 2 * M_PI / nt + 0.002;
	Poly q = s == 0 ? rectangle(sz, sz / 3) : s == 1 ? rectangle(sz, 0.2 * res) : s == 2 ? regular(sz / 2, 5) : s == 3 ? regular(sz / 2 / std::cos(M_PI / 40), 40) : Poly { { 0, 0 }, { sz, sz / 7 } };
	Ref<Shape> sh;
	if (s == 0)
		sh = makeRef<RectangleShape>(sz, sz / 3);
	else if (s == 1)
		sh = makeRef<RectangleShape>(sz, 0.2 * res);
	else if (s == 2)
		sh = makeRef<RegularPolygonShape>(sz / 2, 5);
	else if (s == 3)
		sh = makeRef<CircleShape>(sz / 2, 40);
	else
		sh = makeRef<PolygonShape>(pts(q));
	mc::note(mc::Str() << "shape " << s << " of size " << sz << " at (" << x << "," << y << "," << t << ") resolution " << res);
	Obstacle o;
	o.SetShape(sh);
	o.SetPose(Pose2d(x, y, t));
	checkPoly(m, o, place(q, x, y, t));
}

// Composite shapes of many and large parts, nested or not: the union of the parts.
MC_SCENARIO(C15, composites, 0)
{
	int n = mc::pick({ 1, 2, 5, 12, 40 }), kind = mc::choose(4), nested = mc::choose(3);
	mc::split();
	int nt = mc::thorough() ? 24 : 6;
	double t = mc::choose(nt) * 2 * M_PI / nt + 0.11, x = 2.3 * mc::choose(4) - 5, y = 1.7 * mc::choose(3) - 2;
	Map m(0.25f, 40, 34, 2, -1);
	std::vector<Ref<Shape>> parts;
	for (int i = 0; i < n; i++) {
		double sz = kind == 0 ? 14 : kind == 1 ? 0.5 + 1.1 * i : kind == 2 ? 30 - 0.7 * i : 0.2;
		if (i % 3 == 0)
			parts.push_back(makeRef<RectangleShape>(sz + 0.1 * i, sz / 2 + 0.3 * i));
		else if (i % 3 == 1)
			parts.push_back(makeRef<CircleShape>(sz / 2 + 0.2 * i, 7 + i));
		else
			parts.push_back(makeRef<PolygonShape>(std::vector<Point2d> { { 0.4 * i, 0.1 * i }, { sz, 0.3 * i }, { -0.2 * i, sz } }));
	}
	mc::note(mc::Str() << n << " parts of kind " << kind << " nested " << nested << " at (" << x << "," << y << "," << t << ")");
	auto comp = makeRef<CompositeShape>();
	auto inner = makeRef<CompositeShape>();
	for (int i = 0; i < n; i++)
		(nested && i % 2 ? inner : comp)->Add(parts[i]);
	if (nested)
		comp->Add(inner);
	if (nested == 2)
		comp->Add(inner);
	Obstacle o;
	o.SetShape(comp);
	o.SetPose(Pose2d(x, y, t));
	Cells all = cellsOf(m, o), expected;
	for (auto& s : parts) {
		Obstacle one;
		one.SetPose(Pose2d(x, y, t));
		one.SetShape(s);
		Cells k = cellsOf(m, one);
		expected.insert(k.begin(), k.end());
	}
	MC_CHECK(all == expected, "a composite shape of " << expected.size() << " cells covers " << all.size());
	mc::state(mc::mix(mc::mix(all.size(), n), kind));
	mc::transition();
}
