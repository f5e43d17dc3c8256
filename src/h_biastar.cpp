// C04: bidirectional A* over every small weighted graph.
#include "graphs.h"
#include "gridmap.h"
using namespace Planner;
using namespace vg;

namespace {
	using Bi = BidirectionalAStar<int, int>;

	void runOne(Bi& bi, const Graph& g, int init, int goal)
	{
		bi.SetInitState(init);
		bi.SetGoalState(goal);
		auto d = g.dist(init);
		Status st = bi.SearchPath();
		auto path = bi.GetPath();
		double cost = bi.GetOptimalCost();
		mc::transition();
		mc::outcome(mc::mixd(mc::mix(7, path.size()), cost));
		if (d[goal] == INF) {
			MC_CHECK(st == Status::Failure, "a path is reported although the goal " << goal << " cannot be reached from " << init);
			MC_CHECK(path.empty(), "failed search leaves a path of " << path.size() << " states");
			MC_CHECK(cost == INF, "failed search reports cost " << cost);
		} else {
			MC_CHECK(st == Status::Success, "no path reported although goal " << goal << " is reachable from " << init);
			checkPath(g, path, init, goal, cost, nullptr);
			MC_CHECK(cost == d[goal], "cost " << cost << " is not optimal (" << d[goal] << ")");
		}
	}

	// kind 0: null heuristics; 1: average of exact distances; 2: average of half distances;
	// 3: average pair built from one shared heuristic object (symmetric graphs only);
	// 4, 5: average of an exact and a null heuristic.
	void search(const Graph& g, const Graph& r, int kind, int init, int goal, int init2, int goal2, double dead = 64)
	{
		auto fp = makeRef<Prop<int>>(&g);
		auto rp = makeRef<Prop<int>>(&r);
		auto hf = makeRef<TableH<int>>();
		auto hr = makeRef<TableH<int>>();
		double lambda = kind == 0 ? 0 : kind == 2 ? 0.5 : 1.0;
		hf->table = tableFor(g, lambda, kind == 0 ? 0 : dead);
		hr->table = tableFor(r, lambda, kind == 0 ? 0 : dead);
		if (kind == 4)
			hf->table = tableFor(g, 0, 0);
		if (kind == 5)
			hr->table = tableFor(r, 0, 0);
		Bi bi;
		if (kind == 0)
			MC_CHECK(bi.Initialize(fp, rp, hf, hr), "Initialize failed");
		else {
			auto [a, b] = Bi::GetAverageHeuristicPair(hf, kind == 3 ? hf : hr);
			MC_CHECK(bi.Initialize(fp, rp, a, b), "Initialize failed");
		}
		runOne(bi, g, init, goal);
		runOne(bi, g, init2, goal2);
	}
	uint64_t hashG(const Graph& g)
	{
		uint64_t h = g.n;
		for (int a = 0; a < g.n; a++)
			for (auto& e : g.out[a])
				h = mc::mixd(mc::mix(mc::mix(h, a), e.to), e.w);
		return h;
	}
}

// All undirected graphs over 5 states with weights {none,1,4}.
MC_SCENARIO(C04, undirected5, 0)
{
	Graph g(5);
	int k = 0;
	std::vector<double> ws = { -1, 1, 4 };
	for (int a = 0; a < 5; a++)
		for (int b = a + 1; b < 5; b++) {
			if (k++ == 4)
				mc::split();
			double w = ws[mc::choose((int)ws.size())];
			if (w >= 0) {
				g.add(a, b, w);
				g.add(b, a, w);
			}
		}
	mc::note("graph " + g.str());
	mc::state(hashG(g));
	Graph r = g.reversed();
	for (int kind : { 0, 1, 2, 3, 4, 5 })
		search(g, r, kind, 0, 4, 2, 2);
	search(g, r, 1, 1, 3, 4, 0);
}

// All directed graphs over 4 states with weights {none,1,3}.
MC_SCENARIO(C04, directed4, 0)
{
	Graph g(4);
	int k = 0;
	std::vector<double> ws = { -1, 1, 3 };
	for (int a = 0; a < 4; a++)
		for (int b = 0; b < 4; b++) {
			if (a == b)
				continue;
			if (k++ == 5)
				mc::split();
			double w = ws[mc::choose((int)ws.size())];
			if (w >= 0)
				g.add(a, b, w);
		}
	mc::note("graph " + g.str());
	mc::state(hashG(g));
	Graph r = g.reversed();
	search(g, r, 0, 0, 3, 3, 0);
	search(g, r, 1, 0, 3, 1, 1);
	search(g, r, mc::thorough() ? 4 : 5, 0, 3, 3, 0);
}

// Larger graphs of a family of rings with chords, many searches with one planner.
MC_SCENARIO(C04, large, 0)
{
	int n = mc::pick({ 8, 13, 24, 60 });
	double scale = mc::pick({ 1.0, 0x1p-6, 0x1p-24, 0x1p20, 4.0 });
	double offset = scale == 4.0 ? 33554434.0 : 0.0; // too long for single precision
	int seed = mc::choose(mc::thorough() ? 24 : 6);
	mc::split();
	int s1 = 2 + mc::choose(mc::thorough() ? 7 : 3), s2 = 2 + mc::choose(mc::thorough() ? 6 : 3);
	bool directed = mc::choose(2);
	Graph g = family(n, s1, s2, seed, scale, directed, offset);
	mc::note(mc::Str() << "family " << n << " " << s1 << " " << s2 << " " << seed << " scale " << scale);
	mc::state(hashG(g));
	Graph r = g.reversed();
	// a power of two: the averages are exact
	const double dead = 1LL << 36;
	int a = (seed * 5) % n, b = (n - 1 + s1 * 3) % n;
	for (int kind : { 0, 1, 2, 3, 4, 5 })
		if (kind != 3 || !directed)
			search(g, r, kind, 0, n - 1, a, b, dead);
	// One planner, a search after the other
	auto fp = makeRef<Prop<int>>(&g);
	auto rp = makeRef<Prop<int>>(&r);
	auto hf = makeRef<TableH<int>>();
	auto hr = makeRef<TableH<int>>();
	hf->table = tableFor(g, 1.0, dead);
	hr->table = tableFor(r, 0.5, dead);
	Bi bi;
	auto [x, y] = Bi::GetAverageHeuristicPair(hf, hr);
	MC_CHECK(bi.Initialize(fp, rp, x, y), "Initialize failed");
	for (int k = 0; k < 12; k++)
		runOne(bi, g, (k * 7 + seed) % n, (k * 5 + 3) % n);
}

// Undirected graphs over 6 states: a line with shortcuts, weights {none,1,2,4} (zero weights included).
MC_SCENARIO(C04, weighted6, 1)
{
	Graph g(6);
	int k = 0;
	std::vector<double> ws = { -1, 0, 1, 4 };
	for (int a = 0; a < 6; a++)
		for (int b = a + 1; b < 6; b++) {
			if (b > a + 2 && !(a == 0 && b == 5))
				continue;
			if (k++ == 3)
				mc::split();
			double w = ws[mc::choose((int)ws.size())];
			if (w >= 0) {
				g.add(a, b, w);
				g.add(b, a, w);
			}
		}
	mc::state(hashG(g));
	Graph r = g.reversed();
	for (int kind : { 0, 1, 2, 4, 5 })
		search(g, r, kind, 0, 5, 1, 4);
}

namespace {
	// All the tables of values such that h(goal) = 0 and h(u) - h(v) <= w(u, v)
	std::vector<std::vector<double>> consistentTables(const Graph& g, int goal, const std::vector<double>& values)
	{
		std::vector<std::vector<double>> tables;
		std::vector<int> index(g.n, 0);
		while (true) {
			std::vector<double> h(g.n);
			for (int i = 0; i < g.n; i++)
				h[i] = values[index[i]];
			bool ok = h[goal] == 0;
			for (int a = 0; a < g.n && ok; a++)
				for (auto& e : g.out[a])
					ok = ok && h[a] - h[e.to] <= e.w;
			if (ok)
				tables.push_back(h);
			int i = 0;
			while (i < g.n && ++index[i] == (int)values.size())
				index[i++] = 0;
			if (i == g.n)
				return tables;
		}
	}

	struct Fixed : public AStarConcreteHeuristic<int> {
		std::vector<double> h;
		Fixed(const std::vector<double>& h) :
			h(h) { }
		double GetHeuristicValue(const int& s) override { return h[s]; }
	};

	// Every pair of consistent heuristics, averaged, and every complementary pair
	void allHeuristics(const Graph& g, int goal, const std::vector<double>& values, bool oneNull = false)
	{
		Graph r = g.reversed();
		auto fp = makeRef<Prop<int>>(&g);
		auto rp = makeRef<Prop<int>>(&r);
		auto F = consistentTables(g, goal, values);
		auto R = consistentTables(r, 0, values);
		for (auto& f : F) {
			for (auto& b : R) {
				// One of the heuristics is null
				if (oneNull && *std::max_element(f.begin(), f.end()) > 0 && *std::max_element(b.begin(), b.end()) > 0)
					continue;
				Bi bi;
				auto [x, y] = Bi::GetAverageHeuristicPair(makeRef<Fixed>(f), makeRef<Fixed>(b));
				MC_CHECK(bi.Initialize(fp, rp, x, y), "Initialize failed");
				runOne(bi, g, 0, goal);
				fp->calls.assign(g.n, 0);
				rp->calls.assign(g.n, 0);
			}
			auto b = f;
			for (auto& v : b)
				v = f[0] - v;
			Bi bi;
			MC_CHECK(bi.Initialize(fp, rp, makeRef<Fixed>(f), makeRef<Fixed>(b)), "Initialize failed");
			runOne(bi, g, 0, goal);
		}
	}
}

// Acyclic, undirected or one-way-back graphs over 4 states, with all consistent heuristics of the set of values.
MC_SCENARIO(C04, heuristics4, 0)
{
	Graph g(4);
	int k = 0;
	int shape = mc::choose(3);
	std::vector<double> ws = { -1, 1, 3 };
	if (mc::thorough())
		ws.push_back(2);
	for (int a = 0; a < 4; a++)
		for (int b = a + 1; b < 4; b++) {
			if (k++ == 4)
				mc::split();
			double w = ws[mc::choose((int)ws.size())];
			if (w >= 0) {
				g.add(a, b, w);
				if (shape == 1 || (shape == 2 && b == a + 1))
					g.add(b, a, w);
			}
		}
	mc::note("graph " + g.str());
	mc::state(hashG(g));
	allHeuristics(g, 3, mc::thorough() ? std::vector<double> { 0, 1, 2, 3, 4, 5 } : std::vector<double> { 0, 1, 3, 4 });
}

// Acyclic graphs over 5 states
MC_SCENARIO(C04, heuristics5, 0)
{
	Graph g(5);
	int k = 0;
	std::vector<double> ws = { -1, 1, 3 };
	for (int a = 0; a < 5; a++)
		for (int b = a + 1; b < 5; b++) {
			if (k++ == 5)
				mc::split();
			double w = ws[mc::choose((int)ws.size())];
			if (w >= 0)
				g.add(a, b, w);
		}
	mc::note("graph " + g.str());
	mc::state(hashG(g));
	allHeuristics(g, 4, { 0, 2, 4 }, !mc::thorough());
}

namespace {
	void gridBi(int R, int C)
	{
		using namespace vgrid;
		auto map = makeRef<CellMap>(R, C);
		pickOcc(*map, 5);
		mc::note("map " + map->str());
		mc::state(map->hash());
		using Fn = double (*)(int, int, int, int);
		int k = mc::choose(3);
		Fn cost = k == 0 ? (Fn)vgrid::euclid : (Fn)vgrid::biasedSym;
		Fn heur = k == 2 ? (Fn)vgrid::euclid : (Fn)vgrid::octile;
		auto costFn = [cost](const GridCellPosition& a, const GridCellPosition& b) { return cost(a.row, a.col, b.row, b.col); };
		auto heurFn = [heur](const GridCellPosition& a, const GridCellPosition& b) { return heur(a.row, a.col, b.row, b.col); };
		auto fp = makeRef<AStarStatePropagatorFcnN2>(map, costFn);
		auto rp = makeRef<AStarStatePropagatorFcnN2>(map, costFn);
		auto hf = makeRef<AStarHeuristicFcnN2>(heurFn);
		auto hr = k == 1 ? hf : makeRef<AStarHeuristicFcnN2>(heurFn);
		BidirectionalAStarN2 bi;
		auto [a, b] = BidirectionalAStarN2::GetAverageHeuristicPair(hf, hr);
		MC_CHECK(bi.Initialize(fp, rp, a, b), "Initialize failed");
		int n = R * C;
		for (int s : { 0, C, n - 1 })
			for (int g = 0; g < n; g++) {
				if (map->occ[s] || map->occ[g])
					continue;
				bi.SetInitState({ s / C, s % C });
				bi.SetGoalState({ g / C, g % C });
				double opt = map->dijkstra(s / C, s % C, cost)[g];
				Status st = bi.SearchPath();
				auto path = bi.GetPath();
				double c = bi.GetOptimalCost();
				mc::transition();
				mc::outcome(mc::mixd(path.size(), c));
				if (opt == vgrid::INF)
					MC_CHECK(st == Status::Failure && path.empty() && c == vgrid::INF, "unreachable goal but a path of " << path.size() << " cells");
				else {
					MC_CHECK(st == Status::Success, "no path to a reachable goal");
					checkGridPath(*map, path, s / C, s % C, g / C, g % C, c, cost);
					MC_CHECK(std::abs(c - opt) <= 1e-9 * (1 + opt), "cost " << c << " is not minimal (" << opt << ")");
				}
			}
	}
}
MC_SCENARIO(C04, grid3x3, 0) { gridBi(3, 3); }
MC_SCENARIO(C04, grid2x5, 0) { gridBi(2, 5); }
MC_SCENARIO(C04, grid3x4, 0) { gridBi(3, 4); }
MC_SCENARIO(C04, grid4x4, 1) { gridBi(4, 4); }

// Paths of hundreds of states, hundreds of states in the frontiers
MC_SCENARIO(C04, huge, 0)
{
	int kind = mc::choose(3);
	int n = mc::pick({ 300, 700, 6000 });
	int seed = mc::choose(n > 700 ? 1 : mc::thorough() ? 12 : 3);
	mc::split();
	if (n > 700 && kind == 0) // too deep
		mc::prune();
	double offset = mc::pick({ 0.0, 33554432.0 });
	double lambda = 0.5 * mc::choose(3);
	Graph g = vg::huge(kind, n, seed, offset), r = g.reversed();
	mc::note(mc::Str() << "huge " << kind << " " << n << " " << seed << " offset " << offset << " lambda " << lambda);
	mc::state(hashG(g));
	auto fp = makeRef<Prop<int>>(&g);
	auto rp = makeRef<Prop<int>>(&r);
	auto hf = makeRef<TableH<int>>();
	auto hr = makeRef<TableH<int>>();
	hf->table.resize(n);
	hr->table.resize(n);
	for (int v : { n - 1, n / 2, n / 3, 0, 1 }) {
		hf->table[v] = r.dist(v);
		hr->table[v] = g.dist(v);
		for (auto t : { &hf->table[v], &hr->table[v] })
			for (auto& x : *t)
				x = x == vg::INF ? double(1LL << 36) : lambda * x;
	}
	auto [x, y] = Bi::GetAverageHeuristicPair(hf, hr);
	Bi bi;
	MC_CHECK(bi.Initialize(fp, rp, x, y), "Initialize failed");
	runOne(bi, g, 0, n - 1);
	runOne(bi, g, n / 3, n / 2);
	runOne(bi, g, n - 1, 0);
	runOne(bi, g, 1, n - 1);
}

MC_SCENARIO(C04, lifecycle, 0)
{
	Graph g(3);
	g.add(0, 1, 1);
	g.add(1, 2, 2);
	Graph r = g.reversed();
	auto fp = makeRef<Prop<int>>(&g);
	auto rp = makeRef<Prop<int>>(&r);
	auto h = makeRef<TableH<int>>();
	h->table = tableFor(g, 0.0, 0);
	// The same problem and another one, with averaged heuristics
	Graph g2(3);
	g2.add(0, 1, 16);
	g2.add(1, 2, 16);
	g2.add(0, 2, 8);
	g2.add(2, 0, 4);
	Graph r2 = g2.reversed();
	auto fp2 = makeRef<Prop<int>>(&g2);
	auto rp2 = makeRef<Prop<int>>(&r2);
	auto average = [](const Graph& f, const Graph& b) {
		auto hf = makeRef<TableH<int>>();
		auto hr = makeRef<TableH<int>>();
		hf->table = tableFor(f, 1.0, 64);
		hr->table = tableFor(b, 1.0, 64);
		return Bi::GetAverageHeuristicPair(hf, hr);
	};
	auto [f1, b1] = average(g, r);
	auto [f2, b2] = average(g2, r2);
	Bi bi;
	bi.SetInitState(0);
	bi.SetGoalState(2);
	MC_CHECK(bi.GetPath().empty() && bi.GetOptimalCost() == vg::INF, "a planner that has not searched reports a path");
	bool inited = false, second = false;
	for (int i = 0; i < 5; i++) {
		int op = mc::choose(10);
		if (i == 1)
			mc::split();
		if (op == 0) {
			MC_CHECK(bi.Initialize(fp, rp, h, h), "Initialize failed");
			inited = true;
			second = false;
		} else if (op == 8) {
			MC_CHECK(bi.Initialize(fp, rp, f1, b1), "Initialize failed");
			inited = true;
			second = false;
		} else if (op == 9) {
			MC_CHECK(bi.Initialize(fp2, rp2, f2, b2), "Initialize failed");
			inited = second = true;
		} else if (op < 5) {
			MC_CHECK(!bi.Initialize(op == 1 ? nullptr : fp, op == 2 ? nullptr : rp, op == 3 ? nullptr : h, op == 4 ? nullptr : h), "Initialize accepted a missing component");
			inited = false;
		} else {
			int init = op == 6 ? 2 : 0, goal = op == 6 ? 0 : op == 7 ? 0 : 2;
			if (inited)
				runOne(bi, second ? g2 : g, init, goal);
			else {
				bi.SetInitState(init);
				bi.SetGoalState(goal);
				MC_CHECK(bi.SearchPath() == Status::Failure, "search without components succeeds");
				MC_CHECK(bi.GetPath().empty() && bi.GetOptimalCost() == vg::INF, "a failed search leaves the path of an earlier search");
				mc::transition();
			}
		}
	}
}
