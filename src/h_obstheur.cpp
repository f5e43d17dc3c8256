// C17: obstacle heuristic of the hybrid A*.
#include "gridmap.h"
#include "algo/heuristics.h"
#include <unistd.h>
using namespace Planner;
using namespace vgrid;

namespace {
	struct Heur : ObstaclesHeuristic {
		using ObstaclesHeuristic::ObstaclesHeuristic;
		using AStarConcreteHeuristic<Pose2d>::SetGoal;
	};
	struct Setup {
		Ref<CellMap> map;
		double rev, fwd;
		Scope<Heur> h;
		Setup(int R, int C, float res, double rev, double fwd, const Point2d& pos) :
			map(makeRef<CellMap>(R, C, res)), rev(rev), fwd(fwd)
		{
			map->SetPosition(pos);
			h = makeScope<Heur>(map, rev, fwd);
		}
		/// Set the goal and compare every value with the distances on the grid.
		uint64_t goal(int gr, int gc, double fx, double fy)
		{
			const double res = map->resolution, mult = std::min(rev, fwd);
			const int R = map->R, C = map->C;
			Pose2d g;
			g.position = map->GridCellToWorldPosition(gr, gc) + Point2d(fx * res, fy * res);
			g.theta = 0.3;
			h->SetGoal(g);
			h->Update(g);
			std::vector<double> d;
			const bool in = gr >= 0 && gr < R && gc >= 0 && gc < C;
			if (in)
				d = map->dijkstra(gr, gc, octile);
			uint64_t hash = map->hash();
			for (int r = -1; r <= R; r++)
				for (int c = -1; c <= C; c++)
					for (int k = 0; k < 2; k++) {
						Pose2d p;
						p.position = map->GridCellToWorldPosition(r, c) + Point2d((k ? 0.9 : 0.1) * res, (k ? 0.3 : 0.6) * res);
						p.theta = r - c;
						const double euclid = mult * (p.position - g.position).norm();
						double want = euclid;
						if (in && r >= 0 && r < R && c >= 0 && c < C && d[r * C + c] < INF)
							want = std::max(euclid, mult * d[r * C + c] * res - std::sqrt(2.0) * res);
						const double v = h->GetHeuristicValue(p);
						MC_CHECK(std::abs(v - want) <= 1e-4 * (1 + want), "the heuristic at the cell (" << r << "," << c << ") for the goal (" << gr << "," << gc << ") is " << v << " instead of " << want);
						hash = mc::mixd(hash, v);
					}
			mc::transition();
			mc::state(hash);
			return hash;
		}
	};
	void grids(int R, int C, int splitAt, int goals)
	{
		const int cfg = mc::choose(2);
		Setup s(R, C, cfg ? 0.5f : 1.0f, cfg ? 2.0 : 1.0, cfg ? 0.5 : 1.0, cfg ? Point2d(3, -1.5) : Point2d(0, 0));
		pickOcc(*s.map, splitAt);
		mc::note(s.map->str());
		for (int k = 0; k < goals; k++) {
			int g = goals == R * C ? k : (int)((s.map->hash() >> (k * 7)) % (R * C));
			s.goal(g / C, g % C, 0.25 * (g % 4), 0.3 * (g % 3));
		}
	}
}
MC_SCENARIO(C17, grids3x4, 0) { grids(3, 4, 5, 12); }
MC_SCENARIO(C17, grids4x4, 0) { grids(4, 4, 6, mc::thorough() ? 16 : 3); }
MC_SCENARIO(C17, grids2x7, 0) { grids(2, 7, 6, 4); }
MC_SCENARIO(C17, grids4x5, 1) { grids(4, 5, 7, 3); }

// Mazes: three walls with gaps, every goal.
MC_SCENARIO(C17, mazes, 0)
{
	const int R = 9, C = 7;
	Setup s(R, C, 0.25f, 1.5, 1.2, { 0.1, 0.2 });
	for (int w = 0; w < 3; w++) {
		int row = 2 * w + 1, gap = mc::choose(C + 1), second = mc::choose(3);
		for (int c = 0; c < C; c++)
			s.map->occ[row * C + c] = c != gap && !(second && c == (gap + 2 * second) % C);
		if (w == 0)
			mc::split();
	}
	mc::note(s.map->str());
	for (int g = 0; g < R * C; g += 5)
		s.goal(g / C, g % C, 0.5, 0.5);
}

// One cell blocked out of a larger open map, or two: every goal.
MC_SCENARIO(C17, open, 0)
{
	const int R = 8, C = 9;
	Setup s(R, C, 1.0f, 1.0, 1.0, { 0, 0 });
	int a = mc::choose(R * C);
	mc::split();
	int b = mc::choose(R * C);
	s.map->occ[a] = s.map->occ[b] = 1;
	mc::note(s.map->str());
	int g = (a * 31 + b * 17) % (R * C);
	s.goal(g / C, g % C, 0.9, 0.1);
}

// The heuristic only depends on the last goal and the present obstacles; a goal outside of the map is possible.
MC_SCENARIO(C17, updates, 0)
{
	const int R = 3, C = 5;
	Setup s(R, C, 1.0f, 1.0, 0.8, { 0, 0 });
	const int goals[][2] = { { 0, 0 }, { 2, 4 }, { 1, 2 }, { -1, 1 }, { 1, 5 }, { 0, 3 } };
	const int cells[] = { 2, 7, 12, 6, 8 };
	const int depth = mc::thorough() ? 6 : 5;
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(11);
		if (i == 1)
			mc::split();
		if (op < 6) {
			mc::note(mc::Str() << "goal (" << goals[op][0] << "," << goals[op][1] << ")");
			s.goal(goals[op][0], goals[op][1], 0.4, 0.7);
		} else {
			s.map->occ[cells[op - 6]] ^= 1;
			mc::note(s.map->str());
		}
	}
	mc::outcome(s.goal(2, 0, 0.4, 0.7));
}

// The exported image has a pixel per cell, darker further away from the goal and black where it cannot be reached.
MC_SCENARIO(C17, image, 0)
{
	int snake = mc::choose(5); // 0: every map of 3x4 cells; otherwise a corridor that goes back and forth
	mc::split();
	const int R = snake ? 7 + 2 * snake : 3, C = snake ? 17 - 3 * snake : 4;
	Setup s(R, C, snake == 2 ? 0.5f : 1.0f, snake == 3 ? 2.0 : 1.0, snake == 3 ? 1.5 : 1.0, { 0, 0 });
	int g = 0;
	if (snake) {
		for (int r = 1; r < R; r += 2)
			for (int c = 0; c < C; c++)
				s.map->occ[r * C + c] = c != (r % 4 == 1 ? C - 1 : 0);
		g = mc::choose(R * C);
	} else {
		pickOcc(*s.map, -1);
		g = (int)(s.map->hash() % 12);
	}
	mc::note(mc::Str() << s.map->str() << " goal " << g);
	s.goal(g / C, g % C, 0.5, 0.5);
	auto d = s.map->dijkstra(g / C, g % C, octile);
	char name[] = "/tmp/verif-heur-XXXXXX";
	int fd = mkstemp(name);
	s.h->Visualize(name);
	std::string t;
	char buf[4096];
	ssize_t k;
	while ((k = read(fd, buf, sizeof buf)) > 0)
		t.append(buf, k);
	close(fd);
	unlink(name);
	const std::string head = mc::Str() << "P6\n#\n" << R << " " << C << "\n255\n";
	MC_CHECK(t.size() == head.size() + 3 * R * C && t.compare(0, head.size(), head) == 0, "the image is not a " << R << "x" << C << " PPM");
	double mx = 0;
	for (double x : d)
		if (x < INF)
			mx = std::max(mx, x);
	for (int r = 0; r < R; r++)
		for (int c = 0; c < C; c++) {
			const unsigned char* p = (const unsigned char*)t.data() + head.size() + 3 * ((C - 1 - c) * R + r);
			double want = d[r * C + c] < INF && mx > 0 ? (mx - d[r * C + c]) / mx * 255 : 0;
			MC_CHECK(p[0] == p[1] && p[1] == p[2] && std::abs(p[0] - want) < 1.5, "the brightness of the cell (" << r << "," << c << ") is " << (int)p[0] << " instead of " << want);
		}
}

// Large maps whose occupancy follows a formula.
MC_SCENARIO(C17, large, 0)
{
	const int R = mc::pick({ 12, 35, 70 }), C = R == 35 ? 40 : R == 12 ? 90 : 20;
	const int seed = mc::choose(mc::thorough() ? 30 : 8);
	mc::split();
	const int m = mc::pick({ 3, 4, 7, 23, 100, 101 }); // from 100 on, without regularity
	Setup s(R, C, m == 4 ? 0.5f : 1.0f, 1.0 + 0.25 * (seed % 3), 1.0, { 12, -40 });
	for (int r = 0; r < R; r++)
		for (int c = 0; c < C; c++)
			s.map->occ[r * C + c] = m < 100 ? (r * r * (seed + 2) + c * (2 * seed + 3) + (r * c) / 5) % m == 0 : mc::mix(mc::mix(mc::mix(m, seed), r), c) % 100 < (m == 100 ? 32 : 20);
	mc::note(mc::Str() << R << "x" << C << " seed " << seed << " modulus " << m);
	const int n = R * C;
	for (int k = 0; k < 3; k++) {
		int g = (n - 1 - k * 733 % n + n) % n;
		s.goal(g / C, g % C, 0.4, 0.7);
	}
}
