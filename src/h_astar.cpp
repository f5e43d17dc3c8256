// C02: A* search over every small weighted graph.
#include "graphs.h"
using namespace Planner;
using namespace vg;

namespace {
	struct Case {
		int init, goal;
	};

	template <typename State, typename Astar>
	void runOne(Astar& astar, const Graph& g, const Ref<Prop<State>>& prop, int init, int goal, bool onceOnly)
	{
		std::fill(prop->calls.begin(), prop->calls.end(), 0);
		astar.SetInitState(mk<State>(init, 900));
		astar.SetGoalState(mk<State>(goal, 901));
		auto d = g.dist(init);
		Status st = astar.SearchPath();
		auto path = astar.GetPath();
		auto actions = astar.GetActions();
		double cost = astar.GetOptimalCost();
		mc::transition();
		mc::outcome(mc::mixd(mc::mix(7, path.size()), cost));
		if (d[goal] == INF) {
			MC_CHECK(st == Status::Failure, "a path is reported although the goal " << goal << " cannot be reached from " << init);
			MC_CHECK(path.empty() && actions.empty(), "failed search leaves a path of " << path.size() << " states");
			MC_CHECK(cost == INF, "failed search reports cost " << cost);
		} else {
			MC_CHECK(st == Status::Success, "no path reported although goal " << goal << " is reachable from " << init);
			checkPath(g, path, init, goal, cost, &actions);
			MC_CHECK(cost == d[goal], "cost " << cost << " is not optimal (" << d[goal] << ")");
		}
		if (onceOnly)
			for (int v = 0; v < g.n; v++) {
				MC_CHECK(prop->calls[v] <= 1, "state " << v << " is expanded " << prop->calls[v] << " times");
				MC_CHECK(prop->calls[v] == 0 || d[v] != INF, "unreachable state expanded");
			}
	}

	template <typename State, typename Hash, typename Eq, typename Exp>
	void graphSearch(const Graph& g, Case c, Case c2, double lambda, int mode, double dead = 1000.0)
	{
		auto prop = makeRef<Prop<State>>(&g);
		Ref<AStarHeuristic<State>> h;
		auto base = makeRef<TableH<State>>();
		base->table = tableFor(g, lambda, mode % 2 ? dead : 0.0);
		// With dead == 0 a dead end u (no edge leads from it to a live state)
		// has h = 0: h(v) - h(u) could exceed c(v,u). Only lambda = 0 or dead = 1000 are consistent.
		if (mode / 2 == 0)
			h = base;
		else if (mode / 2 == 1) {
			auto weak = makeRef<TableH<State>>();
			weak->table = tableFor(g, lambda / 2, mode % 2 ? dead : 0.0);
			auto comb = makeRef<AStarCombinedHeuristic<State>>();
			comb->Add(weak, base);
			h = comb;
		} else {
			auto inner = makeRef<TableH<S>>();
			inner->table = base->table;
			auto func = [](const State& s) { return S { idOf(s), 1 }; };
			h = makeRef<AStarHeuristicAdapter<State, S, decltype(func)>>(inner, func);
		}
		AStar<State, int, Hash, Eq, true, Exp> astar;
		MC_CHECK(astar.GetPath().empty() && astar.GetOptimalCost() == INF, "a planner that has not searched reports a path");
		MC_CHECK(astar.Initialize(prop, h), "Initialize failed");
		runOne<State>(astar, g, prop, c.init, c.goal, true);
		runOne<State>(astar, g, prop, c2.init, c2.goal, true);
	}

	void treeSearch(const Graph& g, Case c, const std::vector<std::vector<double>>& table)
	{
		auto prop = makeRef<Prop<int>>(&g);
		auto h = makeRef<TableH<int>>();
		h->table = table;
		AStar<int, int, std::hash<int>, std::equal_to<int>, false, ExploredVoid<int>> astar;
		astar.Initialize(prop, h);
		runOne<int>(astar, g, prop, c.init, c.goal, false);
	}

	// Several searches with one planner, the heuristic being the best of three (nested or not, adapted or not):
	// every one of them must follow the goal, since the distances to another goal are not admissible.
	void treeGoals(const Graph& g, const std::vector<Case>& cases, int arrangement)
	{
		auto prop = makeRef<Prop<int>>(&g);
		auto t = tableFor(g, 1.0, 0.0);
		Ref<AStarHeuristic<int>> part[3];
		for (int k = 0; k < 3; k++) {
			// Each knows the distances from the states of its own residue class only
			auto h = makeRef<TableH<int>>();
			h->table = t;
			for (auto& row : h->table)
				for (int v = 0; v < g.n; v++)
					if (v % 3 != k)
						row[v] = 0;
			part[k] = h;
		}
		auto func = [](const int& s) { return s; };
		auto comb = makeRef<AStarCombinedHeuristic<int>>();
		switch (arrangement) {
		case 0:
			comb->Add(part[0], part[1], part[2]);
			break;
		case 1:
			comb->Add(part[2]);
			comb->Add(part[1]);
			comb->Add(part[0]);
			break;
		default: {
			auto inner = makeRef<AStarCombinedHeuristic<int>>();
			inner->Add(part[1], part[2]);
			Ref<AStarHeuristic<int>> innerRef = inner;
			comb->Add(part[0], makeRef<AStarHeuristicAdapter<int, int, decltype(func)>>(innerRef, func));
		}
		}
		AStar<int, int, std::hash<int>, std::equal_to<int>, false, ExploredVoid<int>> astar;
		MC_CHECK(astar.Initialize(prop, comb), "Initialize failed");
		for (auto& c : cases)
			if (g.dist(c.init)[c.goal] != INF)
				runOne<int>(astar, g, prop, c.init, c.goal, false);
	}

	uint64_t hashG(const Graph& g)
	{
		uint64_t h = g.n;
		for (int a = 0; a < g.n; a++)
			for (auto& e : g.out[a])
				h = mc::mixd(mc::mix(mc::mix(h, a), e.to), e.w);
		return h;
	}

	Graph pickGraph(int n, const std::vector<double>& ws, int splitAt, bool selfLoops = false)
	{
		Graph g(n);
		int k = 0;
		for (int a = 0; a < n; a++)
			for (int b = 0; b < n; b++) {
				if (a == b && !selfLoops)
					continue;
				if (k++ == splitAt)
					mc::split();
				double w = ws[mc::choose((int)ws.size())];
				if (w >= 0)
					g.add(a, b, w);
			}
		return g;
	}
	using ExpI = Explored<int, std::hash<int>, std::equal_to<int>>;
	using ExpS = Explored<S, HashS, EqS>;
	using ExpMapS = ExploredMap<S, int, HashS, EqS>;
}

// 3 states, every weight in {none,0,1,3} on all 9 ordered pairs (self loops included).
MC_SCENARIO(C02, graphs3, 0)
{
	Graph g = pickGraph(3, { -1, 0, 1, 3 }, 3, true);
	mc::note("graph " + g.str());
	mc::state(hashG(g));
	for (double lambda : { 0.0, 0.5, 1.0 })
		graphSearch<int, std::hash<int>, std::equal_to<int>, ExpI>(g, { 0, 2 }, { 1, 2 }, lambda, 1);
	graphSearch<S, HashS, EqS, ExpS>(g, { 0, 0 }, { 0, 1 }, 1.0, 3);
}

// 4 states, every weight in {none,1,3} on all 12 ordered pairs.
MC_SCENARIO(C02, graphs4, 0)
{
	Graph g = pickGraph(4, { -1, 1, 3 }, 5);
	mc::note("graph " + g.str());
	mc::state(hashG(g));
	graphSearch<int, std::hash<int>, std::equal_to<int>, ExpI>(g, { 0, 3 }, { 0, 2 }, 0.0, 0);
	graphSearch<int, std::hash<int>, std::equal_to<int>, ExpI>(g, { 0, 3 }, { 3, 1 }, 1.0, 1);
}

// 4 states, weights {none,1,2,5}
MC_SCENARIO(C02, graphs4w, 1)
{
	Graph g = pickGraph(4, { -1, 1, 2, 5 }, 5);
	mc::state(hashG(g));
	graphSearch<int, std::hash<int>, std::equal_to<int>, ExpI>(g, { 0, 3 }, { 3, 1 }, 1.0, 1);
	graphSearch<int, std::hash<int>, std::equal_to<int>, ExpI>(g, { 0, 3 }, { 0, 3 }, 0.5, 1);
}

// 5 states, every edge subset, weights given by a formula that makes long
// detours cheaper than direct edges; edges listed in both orders.
MC_SCENARIO(C02, graphs5, 0)
{
	const int n = 5;
	Graph g(n);
	int k = 0;
	bool rev = mc::choose(2);
	bool all = mc::thorough();
	for (int a = 0; a < n; a++)
		for (int b = 0; b < n; b++) {
			if (a == b)
				continue;
			if (!all && b < a - 1) // quick: forward edges and single back edges
				continue;
			if (k++ == 5)
				mc::split();
			if (mc::choose(2))
				g.add(a, b, b > a ? (b - a) * (b - a) + (a + b) % 2 : 1 + a % 2);
		}
	if (rev)
		g.reverseOrder();
	mc::note("graph " + g.str());
	mc::state(hashG(g));
	graphSearch<int, std::hash<int>, std::equal_to<int>, ExpI>(g, { 0, 4 }, { 1, 3 }, 0.0, 0);
	graphSearch<S, HashS, EqS, ExpMapS>(g, { 0, 4 }, { 2, 4 }, 1.0, 1);
	graphSearch<S, HashS, EqS, ExpS>(g, { 0, 3 }, { 4, 0 }, 0.5, 5);
}

// Parallel edges with different weights and actions, combined and adapted heuristics.
MC_SCENARIO(C02, parallel_edges, 0)
{
	Graph g(3);
	for (int a = 0; a < 3; a++)
		for (int b = 0; b < 3; b++) {
			if (a == b || (a == 2))
				continue;
			for (double w : { 3.0, 1.0, 2.0 })
				if (mc::choose(2))
					g.add(a, b, w);
		}
	mc::split();
	if (mc::choose(2))
		g.reverseOrder();
	mc::note("graph " + g.str());
	mc::state(hashG(g));
	int mode = 1 + 2 * mc::choose(3);
	double lambda = 0.5 * mc::choose(3);
	graphSearch<S, HashS, EqS, ExpS>(g, { 0, 2 }, { 1, 2 }, lambda, mode);
}

// Tree search (no explored set): admissible heuristics are enough, consistent or not.
MC_SCENARIO(C02, tree_search, 0)
{
	// Weights are all positive and the goal is reachable, otherwise the tree is infinite.
	Graph g = pickGraph(4, { -1, 1, 3 }, 5);
	auto d = g.dist(0);
	if (d[3] == INF)
		mc::prune();
	mc::state(hashG(g));
	auto t = tableFor(g, 1.0, 0.0);
	treeSearch(g, { 0, 3 }, t);
	// admissible, inconsistent: half of the states have no estimate
	for (auto& row : t)
		for (int v = 0; v < 4; v += 2)
			row[v] = 0;
	treeSearch(g, { 0, 3 }, t);
}

// Tree search, a goal after the other with the same planner.
MC_SCENARIO(C02, tree_goals, 0)
{
	Graph g(4);
	if (mc::thorough())
		g = pickGraph(4, { -1, 1, 3 }, 5);
	else {
		// every set of edges, weights given by one of three formulas
		int f = mc::choose(3);
		mc::split();
		for (int a = 0; a < 4; a++)
			for (int b = 0; b < 4; b++)
				if (a != b && mc::choose(2))
					g.add(a, b, f == 0 ? 1 + (a * 2 + b) % 3 : f == 1 ? 1 + (a - b) * (a - b) : 1 + 2 * ((a + b) % 2));
	}
	mc::note("graph " + g.str());
	mc::state(hashG(g));
	treeGoals(g, { { 0, 3 }, { 0, 2 }, { 3, 1 }, { 1, 0 } }, 0);
	treeGoals(g, { { 0, 1 }, { 0, 3 }, { 2, 3 } }, 1);
	treeGoals(g, { { 3, 0 }, { 0, 2 }, { 0, 3 } }, 2);
}

// Life cycle: failed searches, missing components, then success again on the same object.
MC_SCENARIO(C02, lifecycle, 0)
{
	Graph g(3);
	g.add(0, 1, 1);
	g.add(1, 2, 2);
	auto prop = makeRef<Prop<int>>(&g);
	auto h = makeRef<TableH<int>>();
	h->table = tableFor(g, 1.0, 1000);
	// Another problem, whose heuristic is not admissible in the first one
	Graph g2(3);
	g2.add(0, 2, 9);
	g2.add(2, 1, 4);
	g2.add(1, 0, 5);
	g2.add(2, 0, 8);
	auto prop2 = makeRef<Prop<int>>(&g2);
	auto h2 = makeRef<TableH<int>>();
	h2->table = tableFor(g2, 1.0, 1000);
	AStar<int, int> astar;
	astar.SetInitState(0);
	astar.SetGoalState(2);
	bool inited = false;
	bool second = false;
	for (int i = 0; i < 6; i++) {
		int op = mc::choose(7);
		if (i == 1)
			mc::split();
		switch (op) {
		case 0:
			mc::note("Initialize");
			MC_CHECK(astar.Initialize(prop, h), "Initialize failed");
			inited = true;
			second = false;
			break;
		case 6:
			mc::note("Initialize(second problem)");
			MC_CHECK(astar.Initialize(prop2, h2), "Initialize failed");
			inited = second = true;
			break;
		case 1:
			mc::note("Initialize(null heuristic)");
			MC_CHECK(!astar.Initialize(prop, nullptr), "Initialize accepted a null heuristic");
			inited = false;
			break;
		case 2:
			mc::note("Initialize(null propagator)");
			MC_CHECK(!astar.Initialize(nullptr, h), "Initialize accepted a null propagator");
			inited = false;
			break;
		case 3:
		case 4:
		case 5: {
			int init = op == 4 ? 2 : 0, goal = op == 4 ? 0 : op == 5 ? 0 : 2;
			mc::note(mc::Str() << "Search(" << init << "->" << goal << ")");
			if (inited)
				runOne<int>(astar, second ? g2 : g, second ? prop2 : prop, init, goal, true);
			else {
				astar.SetInitState(init);
				astar.SetGoalState(goal);
				MC_CHECK(astar.SearchPath() == Status::Failure, "search without components succeeds");
				MC_CHECK(astar.GetPath().empty() && astar.GetActions().empty() && astar.GetOptimalCost() == INF,
					"a failed search leaves the path of an earlier search");
				mc::transition();
			}
			break;
		}
		}
	}
}

// Larger graphs of a family of rings with chords, weights of every magnitude, many searches with one planner.
MC_SCENARIO(C02, large, 0)
{
	int n = mc::pick({ 8, 17, 40, 90 });
	double scale = mc::pick({ 1.0, 0x1p-6, 0x1p-24, 0x1p20, 3.0 });
	double offset = scale == 3.0 ? 33554431.0 : 0.0; // too long for single precision
	int seed = mc::choose(mc::thorough() ? 24 : 6);
	mc::split();
	int s1 = 2 + mc::choose(mc::thorough() ? 7 : 3), s2 = 2 + mc::choose(mc::thorough() ? 6 : 3);
	Graph g = family(n, s1, s2, seed, scale, mc::choose(2), offset);
	mc::note(mc::Str() << "family " << n << " " << s1 << " " << s2 << " " << seed << " scale " << scale);
	mc::state(hashG(g));
	int a = (seed * 5) % n, b = (n - 1 + s1 * 3) % n;
	graphSearch<int, std::hash<int>, std::equal_to<int>, ExpI>(g, { 0, n - 1 }, { a, b }, 0.0, 0);
	graphSearch<int, std::hash<int>, std::equal_to<int>, ExpI>(g, { n / 2, 1 }, { b, a }, 0.5, 1, 1e12);
	graphSearch<S, HashS, EqS, ExpMapS>(g, { 0, n / 2 }, { n - 1, n / 3 }, 1.0, 3, 1e12);
	// One planner, a search after the other
	auto prop = makeRef<Prop<int>>(&g);
	auto h = makeRef<TableH<int>>();
	h->table = tableFor(g, 0.5, 1e12);
	AStar<int, int> astar;
	MC_CHECK(astar.Initialize(prop, h), "Initialize failed");
	for (int k = 0; k < 12; k++)
		runOne<int>(astar, g, prop, (k * 7 + seed) % n, (k * 5 + 3) % n, true);
}

// Paths of hundreds of states, hundreds of states in the frontier
MC_SCENARIO(C02, huge, 0)
{
	int kind = mc::choose(3);
	int n = mc::pick({ 300, 700, 6000 });
	int seed = mc::choose(n > 700 ? 1 : mc::thorough() ? 12 : 3);
	mc::split();
	if (n > 700 && kind == 0) // too deep
		mc::prune();
	double offset = mc::pick({ 0.0, 33554431.0 });
	double lambda = 0.5 * mc::choose(3);
	Graph g = huge(kind, n, seed, offset);
	mc::note(mc::Str() << "huge " << kind << " " << n << " " << seed << " offset " << offset << " lambda " << lambda);
	mc::state(hashG(g));
	auto prop = makeRef<Prop<int>>(&g);
	auto h = makeRef<TableH<int>>();
	// Distances to the goals used only
	Graph r = g.reversed();
	h->table.resize(n);
	for (int goal : { n - 1, n / 2, 0 }) {
		h->table[goal] = r.dist(goal);
		for (auto& x : h->table[goal])
			x = x == INF ? 1e12 : lambda * x;
	}
	AStar<int, int> astar;
	MC_CHECK(astar.Initialize(prop, h), "Initialize failed");
	runOne<int>(astar, g, prop, 0, n - 1, true);
	runOne<int>(astar, g, prop, n / 3, n / 2, true);
	runOne<int>(astar, g, prop, n - 1, 0, true);
	runOne<int>(astar, g, prop, 1, n - 1, true);
}
