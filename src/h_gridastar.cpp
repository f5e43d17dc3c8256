// C03: grid A*.
#include "gridmap.h"
using namespace Planner;
using namespace vgrid;

namespace {
	using Fn = double (*)(int, int, int, int);
	double zero(int, int, int, int) { return 0; }
	double half(int a, int b, int c, int d) { return 0.5 * euclid(a, b, c, d); }

	struct Planner2 {
		Ref<CellMap> map;
		AStarN2 astar;
		Fn cost;
		Planner2(const Ref<CellMap>& map, Fn cost, Fn heur) :
			map(map), cost(cost)
		{
			auto prop = makeRef<AStarStatePropagatorFcnN2>(map, [cost](const GridCellPosition& a, const GridCellPosition& b) { return cost(a.row, a.col, b.row, b.col); });
			auto h = makeRef<AStarHeuristicFcnN2>([heur](const GridCellPosition& a, const GridCellPosition& b) { return heur(a.row, a.col, b.row, b.col); });
			MC_CHECK(astar.Initialize(prop, h), "Initialize failed");
		}
		void search(int r0, int c0, int r1, int c1)
		{
			astar.SetInitState({ r0, c0 });
			astar.SetGoalState({ r1, c1 });
			auto d = map->dijkstra(r0, c0, cost);
			double opt = d[r1 * map->C + c1];
			Status st = astar.SearchPath();
			auto path = astar.GetPath();
			double c = astar.GetOptimalCost();
			mc::transition();
			mc::outcome(mc::mixd(path.size(), c));
			if (opt == INF) {
				MC_CHECK(st == Status::Failure && path.empty() && c == INF, "search from (" << r0 << "," << c0 << ") to the unreachable cell (" << r1 << "," << c1 << ") gives a path of " << path.size() << " cells");
				return;
			}
			MC_CHECK(st == Status::Success, "no path from (" << r0 << "," << c0 << ") to the reachable cell (" << r1 << "," << c1 << ")");
			checkGridPath(*map, path, r0, c0, r1, c1, c, cost);
			MC_CHECK(std::abs(c - opt) <= 1e-9 * (1 + opt), "cost " << c << " is not minimal (" << opt << ")");
		}
	};
	void neighbours(int R, int C)
	{
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++) {
				GridCellPosition p(r, c);
				std::set<std::pair<int, int>> got;
				for (auto& n : p.GetNeighbors(R, C)) {
					MC_CHECK(n.row >= 0 && n.row < R && n.col >= 0 && n.col < C, "neighbour (" << n.row << "," << n.col << ") of (" << r << "," << c << ") lies outside of the " << R << "x" << C << " grid");
					MC_CHECK(std::abs(n.row - r) <= 1 && std::abs(n.col - c) <= 1 && !(n == p), "not a neighbour");
					MC_CHECK(p.IsAdjacentTo(n) && n.IsAdjacentTo(p) && p != n, "adjacency disagrees with the neighbours");
					MC_CHECK(p.IsDiagonalTo(n) == (std::abs(n.row - r) == 1 && std::abs(n.col - c) == 1), "diagonal test is wrong");
					MC_CHECK(got.insert({ n.row, n.col }).second, "neighbour listed twice");
				}
				size_t expect = (std::min(r + 1, R - 1) - std::max(r - 1, 0) + 1) * (std::min(c + 1, C - 1) - std::max(c - 1, 0) + 1) - 1;
				MC_CHECK(got.size() == expect, "cell (" << r << "," << c << ") of a " << R << "x" << C << " grid has " << got.size() << " neighbours instead of " << expect);
				for (int r1 = 0; r1 < R; r1++)
					for (int c1 = 0; c1 < C; c1++)
						MC_CHECK(p.IsAdjacentTo({ r1, c1 }) == (got.count({ r1, c1 }) == 1), "the cells (" << r << "," << c << ") and (" << r1 << "," << c1 << ") are " << (got.count({ r1, c1 }) ? "not " : "") << "reported adjacent");
				mc::transition();
			}
		for (auto& p : { GridCellPosition(), GridCellPosition(-1, 0), GridCellPosition(0, -1) })
			MC_CHECK(!p.IsValid() && p.GetNeighbors(R, C).empty(), "an invalid cell has neighbours");
	}
	void grids(int R, int C, bool allPairs)
	{
		auto map = makeRef<CellMap>(R, C);
		pickOcc(*map, 5);
		mc::note("map " + map->str());
		mc::state(map->hash());
		Planner2 a(map, euclid, octile), b(map, biased, half), z(map, euclid, zero);
		int n = R * C;
		for (int s = 0; s < n; s++) {
			if (map->occ[s])
				continue;
			if (!allPairs && s != 0 && s != C && s != n - 1)
				continue;
			for (int g = 0; g < n; g++) {
				if (!allPairs && g % 2 == 1 && g != n - 1)
					continue;
				a.search(s / C, s % C, g / C, g % C);
				if ((s + g) % 3 == 0)
					b.search(s / C, s % C, g / C, g % C);
				if ((s + g) % 5 == 0)
					z.search(s / C, s % C, g / C, g % C);
			}
		}
	}
}

MC_SCENARIO(C03, neighbours, 0) { neighbours(1 + mc::choose(5), 1 + mc::choose(5)); }
MC_SCENARIO(C03, grid3x3, 0) { grids(3, 3, true); }
MC_SCENARIO(C03, grid2x5, 0) { grids(2, 5, true); }
MC_SCENARIO(C03, grid5x2, 0) { grids(5, 2, true); }
MC_SCENARIO(C03, grid1x6, 0) { grids(1, 6, true); }
MC_SCENARIO(C03, grid3x4, 0) { grids(3, 4, mc::thorough()); }
MC_SCENARIO(C03, grid4x4, 1) { grids(4, 4, false); }

// Larger maps: corridors made of up to three walls, each with an optional gap.
MC_SCENARIO(C03, walls, 0)
{
	int R = 9, C = 7;
	auto map = makeRef<CellMap>(R, C);
	for (int w = 0; w < 3; w++) {
		int row = 2 + 2 * w;
		int gap = mc::choose(C + 2); // C: closed wall, C + 1: no wall
		if (gap == C + 1)
			continue;
		for (int c = 0; c < C; c++)
			if (c != gap)
				map->occ[row * C + c] = 1;
	}
	mc::split();
	mc::note("map " + map->str());
	mc::state(map->hash());
	Planner2 a(map, euclid, octile), b(map, biased, half), e(map, euclid, euclid);
	a.search(0, 0, R - 1, C - 1);
	a.search(R - 1, 3, 0, 6);
	b.search(1, 3, 7, 0);
	e.search(3, 3, 3, 0);
	e.search(3, 0, 0, 6);
	b.search(0, 6, 5, 5);
}

// Large maps whose occupancy follows a formula; several searches with the same planner.
MC_SCENARIO(C03, large, 0)
{
	const int R = mc::pick({ 12, 35, 70 }), C = R == 35 ? 40 : R == 12 ? 90 : 20;
	const int seed = mc::choose(mc::thorough() ? 30 : 8);
	mc::split();
	const int m = mc::pick({ 3, 4, 7, 23 });
	auto map = makeRef<CellMap>(R, C, mc::pick({ 1.0f, 0.1f }));
	for (int r = 0; r < R; r++)
		for (int c = 0; c < C; c++)
			map->occ[r * C + c] = (r * r * (seed + 2) + c * (2 * seed + 3) + (r * c) / 5) % m == 0;
	mc::note(mc::Str() << R << "x" << C << " seed " << seed << " modulus " << m);
	mc::state(map->hash());
	Planner2 a(map, euclid, octile), b(map, biased, half);
	const int n = R * C;
	for (int k = 0; k < 4; k++) {
		int s = (k * 977 + seed * 31) % n, g = (n - 1 - k * 733 % n + n) % n;
		while (map->occ[s])
			s = (s + 1) % n;
		(k % 2 ? a : b).search(s / C, s % C, g / C, g % C);
	}
}

// The map changes between the searches made with one planner.
MC_SCENARIO(C03, changing, 0)
{
	const int R = 3, C = 4, n = R * C;
	auto map = makeRef<CellMap>(R, C);
	int base = mc::choose(1 << (mc::thorough() ? 12 : 9));
	mc::split();
	for (int i = 0; i < n; i++)
		map->occ[i] = base >> (i % 9) & (i < 9 || mc::thorough() ? 1 : 0);
	if (mc::thorough())
		for (int i = 0; i < n; i++)
			map->occ[i] = base >> i & 1;
	Planner2 a(map, euclid, octile), z(map, biased, zero);
	int x = mc::choose(n), y = mc::choose(n);
	mc::note(mc::Str() << "map " << map->str() << " changed at " << x << " and " << y);
	for (int k = 0; k < 3; k++) {
		if (k)
			map->occ[k == 1 ? x : y] ^= 1;
		mc::state(map->hash());
		for (int s : { 0, 6, n - 1 })
			if (!map->occ[s])
				(k + s) % 2 ? a.search(s / C, s % C, 2, 0) : z.search(s / C, s % C, 1, 3);
	}
}
