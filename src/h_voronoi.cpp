// C13: Voronoi diagram and potential field of a map.
#include "mc.h"
#include "core/base.h"
#include "state_validator/gvd.h"
#include "state_validator/occupancy_map.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include <limits>
#include <unistd.h>
using namespace Planner;

namespace {
	/// Map whose cells hold the identifier of an obstacle.
	struct IdMap : OccupancyMap {
		int R, C;
		std::vector<int> id;
		IdMap(int r, int c, float res) :
			OccupancyMap(res), R(r), C(c), id(r * c, -1)
		{
			InitializeSize(r * res, c * res);
		}
		bool IsOccupied(const GridCellPosition& s) override { return id[s.row * C + s.col] >= 0; }
		void set(int i, int v)
		{
			id[i] = v;
			(*m_occupancyMatrix)[i / C][i % C] = v;
			m_obstacleDistanceMap->SetObstacle({ i / C, i % C });
		}
		void unset(int i)
		{
			id[i] = -1;
			(*m_occupancyMatrix)[i / C][i % C] = -1;
			m_obstacleDistanceMap->UnsetObstacle({ i / C, i % C });
		}
		void toggle(int i, int v)
		{
			if (id[i] >= 0)
				unset(i);
			else
				set(i, v);
		}
		std::string str() const
		{
			std::string s;
			for (int i = 0; i < R * C; i++) {
				s += id[i] < 0 ? '.' : (char)('A' + id[i]);
				if (i % C == C - 1)
					s += '/';
			}
			return s;
		}
		uint64_t hash() const { return mc::hashBytes(id.data(), id.size() * sizeof(int), R * 131 + C); }
	};
	std::string at(int r, int c) { return mc::Str() << "(" << r << "," << c << ")"; }

	uint64_t check(OccupancyMap& m, const std::vector<int>& id, const GVD& g, double slack)
	{
		const int R = m.Rows(), C = m.Columns();
		const float res = m.resolution;
		std::vector<GridCellPosition> edges;
		std::vector<char> isEdge(R * C);
		std::vector<int> near(R * C, -1); // nearest obstacle cell
		bool any = false;
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++) {
				auto o = g.GetNearestObstacleCell(r, c);
				if (o.IsValid()) {
					near[r * C + c] = o.row * C + o.col;
					any = true;
				}
				if (g.GetDistanceToNearestVoronoiEdge(r, c) == 0) {
					isEdge[r * C + c] = 1;
					edges.push_back({ r, c });
				}
			}
		auto dist2 = [&](int i, int j) { int dr = i / C - j / C, dc = i % C - j % C; return dr * dr + dc * dc; };
		auto obst2 = [&](int i) { int dr = i / C - near[i] / C, dc = i % C - near[i] % C; return dr * dr + dc * dc; };
		uint64_t h = mc::hashBytes(id.data(), id.size() * sizeof(int), R * 131 + C);
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++) {
				const int i = r * C + c;
				// Distance to the nearest edge
				float d = g.GetDistanceToNearestVoronoiEdge(r, c);
				GridCellPosition e = g.GetNearestVoronoiEdgeCell(r, c);
				h = mc::mix(h, isEdge[i]);
				MC_CHECK(g.GetDistanceToNearestVoronoiEdge(GridCellPosition(r, c)) == d && g.GetNearestVoronoiEdgeCell(GridCellPosition(r, c)) == e, "the overloads disagree at " << at(r, c));
				if (edges.empty()) {
					MC_CHECK(!e.IsValid() && d > 30000 * res, "there is no Voronoi edge but the distance at " << at(r, c) << " is " << d << " to " << at(e.row, e.col));
				} else {
					MC_CHECK(e.IsValid() && e.row < R && e.col < C, "no nearest Voronoi edge is reported at " << at(r, c));
					MC_CHECK(isEdge[e.row * C + e.col], "the nearest Voronoi edge reported at " << at(r, c) << " is " << at(e.row, e.col) << ", not an edge");
					double best = 1e18, ed = std::hypot(r - e.row, c - e.col);
					for (auto& x : edges)
						best = std::min(best, std::hypot(r - x.row, c - x.col));
					MC_CHECK(std::abs(d - ed * res) <= 1e-4 * res * (1 + ed), "the distance " << d << " at " << at(r, c) << " is not the distance to the reported edge " << at(e.row, e.col));
					MC_CHECK(d <= (best + slack) * res + 1e-4 * res * (1 + best), "the distance " << d << " to the nearest Voronoi edge at " << at(r, c) << " is above the true distance " << best * res);
				}
				// An edge is a free cell between two obstacles
				if (isEdge[i]) {
					MC_CHECK(id[i] < 0, "the Voronoi edge " << at(r, c) << " is occupied");
					MC_CHECK(any && near[i] >= 0, "there is no obstacle but a Voronoi edge at " << at(r, c));
				}
				// Between two cells nearest to different obstacles, the closest to being equidistant is an edge; there is no other edge
				bool want = false;
				if (near[i] >= 0)
					for (int dr = -1; dr <= 1; dr++)
						for (int dc = -1; dc <= 1; dc++) {
							int r1 = r + dr, c1 = c + dc, j = r1 * C + c1;
							if (r1 < 0 || r1 >= R || c1 < 0 || c1 >= C)
								continue;
							if (id[near[i]] == id[near[j]] || (obst2(i) <= 1 && obst2(j) <= 1))
								continue;
							if (std::abs(near[i] / C - near[j] / C) <= 1 && std::abs(near[i] % C - near[j] % C) <= 1)
								continue;
							int fi = dist2(i, near[j]) - dist2(i, near[i]), fj = dist2(j, near[i]) - dist2(j, near[j]);
							if (fi >= 0 && fj >= 0 && fi <= fj)
								want = true;
						}
				MC_CHECK(!isEdge[i] || want, "the cell " << at(r, c) << " is a Voronoi edge but no neighbour is nearest to another obstacle on the other side");
				MC_CHECK(isEdge[i] || !want, "the cell " << at(r, c) << " is not a Voronoi edge although it is between two obstacles");
				// Potential field
				float cost = g.GetPathCost(r, c), od = g.GetDistanceToNearestObstacle(r, c);
				MC_CHECK(g.GetPathCost(GridCellPosition(r, c)) == cost || cost != cost, "the overloads disagree at " << at(r, c));
				MC_CHECK(cost >= 0 && cost <= 1, "the path cost at " << at(r, c) << " is " << cost);
				double field = 0;
				if (any && od < g.dMax) {
					double v = edges.empty() ? 1.0 : (double)d / ((double)od + d);
					field = g.alpha / (g.alpha + od) * v * (od - g.dMax) * (od - g.dMax) / (g.dMax * g.dMax);
				}
				MC_CHECK(od < g.dMax || cost == 0, "the path cost at " << at(r, c) << " is " << cost << " at " << od << " from the nearest obstacle, beyond the range of the field");
				if (any && edges.empty()) // without any edge the field is either dropped or the one of an edge at infinity
					MC_CHECK(cost == 0 || std::abs(cost - field) < 2e-3, "the path cost at " << at(r, c) << " is " << cost);
				else
					MC_CHECK(std::abs(cost - field) < 1e-4, "the path cost at " << at(r, c) << " is " << cost << " instead of " << field);
				// Queries by position
				for (double f : { 0.05, 0.95 }) {
					Point2d p = m.GridCellToWorldPosition(r, c) + Point2d(f * res, (1 - f) * res), q(-7, -7);
					float x = -7;
					MC_CHECK(g.GetPathCost(p, x) && x == cost, "the path cost by position differs in " << at(r, c));
					MC_CHECK(g.GetDistanceToNearestObstacle(p, x) && x == od, "the obstacle distance by position differs in " << at(r, c));
					MC_CHECK(g.GetDistanceToNearestVoronoiEdge(p, x) && x == d, "the edge distance by position differs in " << at(r, c));
					bool ok = g.GetNearestObstaclePosition(p, q);
					MC_CHECK(ok == any, "an obstacle is " << (ok ? "" : "not ") << "found from " << at(r, c) << (any ? "" : " although there is none"));
					if (ok)
						MC_CHECK((q - m.GridCellToWorldPosition(near[i] / C, near[i] % C)).norm() < 1e-9, "the position of the nearest obstacle differs in " << at(r, c));
					ok = g.GetNearestVoronoiEdgePosition(p, q);
					MC_CHECK(ok == !edges.empty(), "a Voronoi edge is " << (ok ? "" : "not ") << "found from " << at(r, c) << (edges.empty() ? " although there is none" : ""));
					if (ok)
						MC_CHECK((q - m.GridCellToWorldPosition(e)).norm() < 1e-9, "the position of the nearest edge differs in " << at(r, c));
				}
			}
		// Outside of the map
		Point2d lo = m.GridCellToWorldPosition(0, 0), hi = m.GridCellToWorldPosition(R, C);
		for (auto& p : { Point2d(lo.x() - 0.5 * res, lo.y() + 0.5 * res), Point2d(lo.x() + 0.5 * res, lo.y() - 0.5 * res), Point2d(hi.x() + 0.5 * res, lo.y() + 0.5 * res), Point2d(lo.x() + 0.5 * res, hi.y() + 0.5 * res) }) {
			float x = -7;
			Point2d q(-7, -7);
			MC_CHECK(!g.GetPathCost(p, x) && !g.GetDistanceToNearestObstacle(p, x) && !g.GetDistanceToNearestVoronoiEdge(p, x) && !g.GetNearestObstaclePosition(p, q) && !g.GetNearestVoronoiEdgePosition(p, q), "a position outside of the map has a value");
		}
		mc::transition();
		mc::state(h);
		return h;
	}
	uint64_t check(IdMap& m, const GVD& g, double slack) { return check(m, m.id, g, slack); }
	/// The diagram of a map is the same whatever the order in which it was created.
	void initialThenToggle(int R, int C, int ids, int toggles)
	{
		IdMap m(R, C, 0.5f);
		m.SetPosition({ 1.5, -2 });
		Scope<GVD> g;
		// 0: created first; 1: created after the obstacles; 2: created after an update of the map
		const int order = mc::choose(3);
		if (order == 0)
			g = makeScope<GVD>(Ref<OccupancyMap>(&m, [](OccupancyMap*) {}));
		for (int i = 0; i < R * C; i++) {
			if (i == 4)
				mc::split();
			int v = mc::choose(ids + 1);
			if (v)
				m.set(i, v - 1);
		}
		mc::note(mc::Str() << "created " << order << " initial " << m.str());
		if (order == 2)
			m.Update();
		if (!g)
			g = makeScope<GVD>(Ref<OccupancyMap>(&m, [](OccupancyMap*) {}));
		g->Update();
		check(m, *g, 0);
		for (int k = 0; k < toggles; k++) {
			int i = mc::choose(R * C), v = mc::choose(ids);
			if (m.id[i] >= 0 && v)
				mc::prune();
			mc::note(mc::Str() << "toggle " << i << " of obstacle " << v);
			m.toggle(i, v);
			g->Update();
			uint64_t h = check(m, *g, 0);
			mc::outcome(h);
		}
	}
}

MC_SCENARIO(C13, toggle3x4, 0) { initialThenToggle(3, 4, mc::thorough() ? 2 : 1, 1); }
MC_SCENARIO(C13, ids3x3, 0) { initialThenToggle(3, 3, 2, mc::thorough() ? 2 : 1); }
MC_SCENARIO(C13, ids2x5, 0) { initialThenToggle(2, 5, 2, 0); }
MC_SCENARIO(C13, ids1x7, 0) { initialThenToggle(1, 7, mc::thorough() ? 3 : 2, 1); }

// Every history of adding, removing obstacle cells and updating, over a few cells of a map.
namespace {
	void histories(int R, int C, const std::vector<int>& cells, const std::vector<int>& ids, int depth)
	{
		IdMap m(R, C, 1.0f);
		GVD g(Ref<OccupancyMap>(&m, [](OccupancyMap*) {}));
		for (int d = 0; d < depth; d++) {
			int op = mc::choose((int)cells.size() + 1);
			if (d == 1)
				mc::split();
			if (op == (int)cells.size()) {
				mc::note("update");
				g.Update();
				check(m, g, 0.1);
			} else {
				m.toggle(cells[op], ids[op]);
				mc::note(mc::Str() << "toggle " << cells[op] << " of obstacle " << ids[op] << ": " << m.str());
			}
		}
		g.Update();
		mc::outcome(check(m, g, 0.1));
	}
}
MC_SCENARIO(C13, histories5x5, 0) { histories(5, 5, { 0, 4, 12, 20, 24 }, { 0, 1, 2, 3, 4 }, mc::thorough() ? 8 : 6); }
MC_SCENARIO(C13, histories6x7, 0) { histories(6, 7, { 8, 9, 26, 33, 6 }, { 0, 0, 1, 1, 2 }, mc::thorough() ? 8 : 6); }

// Overlapping obstacles of a real map, which share cells.
MC_SCENARIO(C13, obstacles, 0)
{
	auto map = makeRef<ObstacleListOccupancyMap>(1.0f);
	map->InitializeSize(8, 7);
	Scope<GVD> g;
	int when = mc::choose(2);
	if (when == 0)
		g = makeScope<GVD>(map);
	std::vector<Ref<Obstacle>> obs;
	std::vector<char> in(4);
	for (int i = 0; i < 4; i++) {
		auto o = makeRef<Obstacle>();
		const double w[] = { 2.5, 1.2, 3.0, 0.8 }, h[] = { 1.5, 2.2, 0.8, 0.8 }, x[] = { -1.5, -0.4, 1.9, 3.1 }, y[] = { -1.4, -0.6, 1.2, -2.4 };
		o->SetShape(makeRef<RectangleShape>(w[i], h[i]));
		o->SetPose(Pose2d(x[i], y[i], 0.3 * i));
		obs.push_back(o);
	}
	auto check1 = [&]() {
		g->Update();
		std::vector<int> id(56);
		for (int i = 0; i < 56; i++)
			id[i] = map->GetOccupancyValue(i / 7, i % 7);
		return check(*map, id, *g, 0.1);
	};
	const int depth = mc::thorough() ? 7 : 6;
	for (int d = 0; d < depth; d++) {
		int op = mc::choose(5);
		if (d == 1)
			mc::split();
		if (op < 4) {
			mc::note(mc::Str() << (in[op] ? "remove " : "add ") << op);
			in[op] ? map->RemoveObstacle(obs[op]) : map->AddObstacle(obs[op]);
			in[op] = !in[op];
		} else {
			mc::note("update");
			map->Update();
			if (g)
				check1();
		}
	}
	if (!g)
		g = makeScope<GVD>(map);
	mc::outcome(check1());
}

// All pairs of obstacles on larger maps, a third one added and the first removed.
namespace {
	void pairs(int R, int C, int stride)
	{
		const int n = R * C;
		int a = mc::choose(n);
		mc::split();
		int b = mc::choose(n);
		if (b == a)
			mc::prune();
		int c = (a * 37 + b * stride) % n;
		IdMap m(R, C, (a + b) % 3 ? 0.25f : 8.0f);
		GVD g(Ref<OccupancyMap>(&m, [](OccupancyMap*) {}));
		mc::note(mc::Str() << "set " << a << ", " << b << "; update; set " << c << "; update; unset " << a << "; update; unset " << b << "; update");
		m.set(a, 0);
		m.set(b, 1);
		g.Update();
		check(m, g, 0.1);
		if (c != a && c != b) {
			m.set(c, 2);
			g.Update();
			check(m, g, 0.1);
		}
		m.unset(a);
		g.Update();
		check(m, g, 0.1);
		m.unset(b);
		g.Update();
		mc::outcome(check(m, g, 0.1));
	}
}
MC_SCENARIO(C13, pairs7x9, 0) { pairs(7, 9, 11); }
MC_SCENARIO(C13, pairs11x13, 1) { pairs(11, 13, 7); }

// The image of the field has a pixel per cell, black exactly on the obstacles (or everywhere without any).
MC_SCENARIO(C13, image, 0)
{
	IdMap m(3, 4, 1.0f);
	for (int i = 0; i < 12; i++) {
		if (i == 3)
			mc::split();
		if (mc::choose(2))
			m.set(i, (i * 5) % 4);
	}
	mc::note(m.str());
	GVD g(Ref<OccupancyMap>(&m, [](OccupancyMap*) {}));
	g.Update();
	char name[] = "/tmp/verif-gvd-XXXXXX";
	int fd = mkstemp(name);
	g.Visualize(name);
	std::string s;
	char buf[4096];
	ssize_t k;
	while ((k = read(fd, buf, sizeof buf)) > 0)
		s.append(buf, k);
	close(fd);
	unlink(name);
	const std::string head = "P6\n#\n3 4\n255\n";
	MC_CHECK(s.size() == head.size() + 36 && s.compare(0, head.size(), head) == 0, "the image is not a 3x4 PPM");
	bool any = false;
	for (int v : m.id)
		any = any || v >= 0;
	for (int r = 0; r < 3; r++)
		for (int c = 0; c < 4; c++) {
			const unsigned char* p = (const unsigned char*)s.data() + head.size() + 3 * ((3 - c) * 3 + r);
			bool black = !p[0] && !p[1] && !p[2];
			int mx = std::max(p[0], std::max(p[1], p[2]));
			if (m.id[r * 4 + c] >= 0 || !any)
				MC_CHECK(black, "the cell " << at(r, c) << " is not black in the image");
			else // the brightness is one minus the path cost
				MC_CHECK(std::abs(mx - 255 * (1 - g.GetPathCost(r, c))) < 1.5, "the brightness of the cell " << at(r, c) << " is " << mx << " for a path cost of " << g.GetPathCost(r, c));
		}
	mc::transition();
	mc::state(m.hash());
}

// Wide maps: obstacles out of range of the field, which vanishes there exactly.
MC_SCENARIO(C13, range, 0)
{
	const int R = mc::pick({ 1, 2, 3 }), C = 110;
	const float res = mc::pick({ 1.0f, 0.7f, 0.3f, 16.0f });
	mc::split();
	IdMap m(R, C, res);
	GVD g(Ref<OccupancyMap>(&m, [](OccupancyMap*) {}));
	const int a = mc::choose(5), b = 60 + 7 * mc::choose(7) + mc::choose(2);
	mc::note(mc::Str() << R << "x" << C << " resolution " << res << " obstacles at columns " << a << " and " << b);
	m.set(a, 0);
	g.Update();
	check(m, g, 0.1);
	m.set((R - 1) * C + b, 1);
	g.Update();
	check(m, g, 0.1);
	m.unset(a);
	g.Update();
	mc::outcome(check(m, g, 0.1));
}

// Larger maps with many obstacles that come and go following a formula.
MC_SCENARIO(C13, crowd, 0)
{
	const int R = mc::pick({ 17, 26 }), C = 40 - R;
	const int seed = mc::choose(mc::thorough() ? 24 : 6);
	mc::split();
	const int ids = mc::pick({ 3, 12, 400 });
	const int m1 = 2 * mc::choose(4) + 7;
	IdMap m(R, C, 0.5f);
	m.SetPosition({ 3, -2 });
	Scope<GVD> g;
	if (m1 % 4 == 3)
		g = makeScope<GVD>(Ref<OccupancyMap>(&m, [](OccupancyMap*) {}));
	mc::note(mc::Str() << R << "x" << C << " seed " << seed << " identifiers " << ids << " step " << m1);
	const int n = R * C;
	for (int t = 0; t < 14; t++) {
		// A few cells at a time, then single ones
		for (int k = 0; k < (t < 4 ? 6 : t == 9 ? 12 : 1); k++) {
			int i = ((t * 16 + k) * (m1 * 13 + seed) + seed * 29) % n;
			m.toggle(i, (i * 7 + t) % ids);
		}
		if (!g && t == 2)
			g = makeScope<GVD>(Ref<OccupancyMap>(&m, [](OccupancyMap*) {}));
		if (g) {
			g->Update();
			mc::outcome(check(m, *g, 0.1));
		}
	}
	for (int i = 0; i < n; i++)
		if (m.id[i] >= 0) {
			m.unset(i);
			if (i % 3 == 0) {
				g->Update();
				check(m, *g, 0.1);
			}
		}
	g->Update();
	mc::outcome(check(m, *g, 0.1));
}
