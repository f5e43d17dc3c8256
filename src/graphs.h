// Small explicit weighted digraphs and reference shortest paths.
#pragma once
#include "mc.h"
#include "algo/a_star.h"
#include "algo/bidirectional_a_star.h"
#include <limits>

namespace vg {
	const double INF = std::numeric_limits<double>::infinity();

	struct Edge {
		int to;
		double w;
		int id;
	};
	struct Graph {
		int n = 0;
		int nextId = 1;
		std::vector<std::vector<Edge>> out;
		explicit Graph(int n) :
			n(n), out(n) { }
		void add(int a, int b, double w) { out[a].push_back({ b, w, nextId++ }); }
		Graph reversed() const
		{
			Graph r(n);
			for (int a = 0; a < n; a++)
				for (auto& e : out[a])
					r.out[e.to].push_back({ a, e.w, e.id });
			return r;
		}
		void reverseOrder()
		{
			for (auto& v : out)
				std::reverse(v.begin(), v.end());
		}
		/// Shortest distance from s (Bellman-Ford).
		std::vector<double> dist(int s) const
		{
			std::vector<double> d(n, INF);
			d[s] = 0;
			bool changed = true;
			for (int k = 0; k < n && changed; k++) {
				changed = false;
				for (int a = 0; a < n; a++)
					for (auto& e : out[a])
						if (d[a] + e.w < d[e.to]) {
							d[e.to] = d[a] + e.w;
							changed = true;
						}
			}
			return d;
		}
		std::string str() const
		{
			mc::Str s;
			for (int a = 0; a < n; a++)
				for (auto& e : out[a])
					s << a << "->" << e.to << ":" << e.w << " ";
			return s;
		}
	};

	/// Member of a family of larger graphs: rings with chords whose weights follow a formula (zero included).
	inline Graph family(int n, int s1, int s2, int seed, double scale, bool directed, double offset = 0)
	{
		Graph g(n);
		for (int a = 0; a < n; a++) {
			int to[] = { a + 1, (a + s1) % n, (a * s2 + seed) % n, a + 2 };
			for (int k = 0; k < 4; k++) {
				int b = to[k];
				if (b >= n || b == a || (k == 3 && (a + seed) % 3))
					continue;
				double w = scale * ((((a + 1) * (seed + 3) + b * (k + 2) * 7) % 11) + (k == 1 ? 6 : 0)) + offset;
				g.add(a, b, w);
				if (!directed)
					g.add(b, a, w);
			}
		}
		return g;
	}

	/// Long (paths of hundreds of states), wide (hundreds of states waiting to be expanded) and meshed graphs,
	/// from state 0 to state n - 1.
	inline Graph huge(int kind, int n, int seed, double offset)
	{
		Graph g(n);
		for (int a = 0; a + 1 < n; a++) {
			switch (kind) {
			case 0: // chain, with steps of three that are sometimes worth it
				g.add(a, a + 1, offset + 1);
				if (a + 3 < n && (a + seed) % 7 == 0)
					g.add(a, a + 3, 3 * offset + (a % 2 ? 2 : 4));
				if (a % 5 == 0)
					g.add(a + 1, a, offset + seed);
				break;
			case 1: // fan
				if (a) {
					g.add(0, a, offset + (a * 37 + seed * 11) % 101);
					if (a % 3)
						g.add(a, n - 1, offset + (a * 53 + seed * 5) % 97);
					if (a % 4 == 0)
						g.add(a, 1 + (a * 7 + seed) % (n - 2), 1);
				}
				break;
			default: { // mesh
				const int w = 23;
				if (a % w + 1 < w) {
					g.add(a, a + 1, offset + (a * 7 + seed) % 5);
					g.add(a + 1, a, offset + (a * 3 + seed) % 5);
				}
				if (a + w < n) {
					g.add(a, a + w, offset + (a * 5 + seed * 3) % 7);
					g.add(a + w, a, offset + 2);
				}
			}
			}
		}
		return g;
	}

	/// State with a payload that equality and hashing must ignore.
	struct S {
		int v = 0;
		int payload = 0;
	};
	struct EqS {
		bool operator()(const S& a, const S& b) const { return a.v == b.v; }
	};
	struct HashS {
		size_t operator()(const S& a) const { return (size_t)a.v % 2; }
	};

	template <typename State>
	inline int idOf(const State& s);
	template <>
	inline int idOf<int>(const int& s) { return s; }
	template <>
	inline int idOf<S>(const S& s) { return s.v; }
	template <typename State>
	inline State mk(int v, int k);
	template <>
	inline int mk<int>(int v, int) { return v; }
	template <>
	inline S mk<S>(int v, int k) { return S { v, k }; }

	template <typename State>
	struct Prop : public Planner::AStarStatePropagator<State, int> {
		const Graph* g;
		std::vector<int> calls;
		int k = 0;
		explicit Prop(const Graph* g) :
			g(g), calls(g->n) { }
		std::vector<std::tuple<State, int, double>> GetNeighborStates(const State& s) override
		{
			std::vector<std::tuple<State, int, double>> r;
			calls[idOf(s)]++;
			if (calls[idOf(s)] > 2000)
				mc::fail("the search expands the same state over and over");
			for (auto& e : g->out[idOf(s)])
				r.emplace_back(mk<State>(e.to, ++k), e.id, e.w);
			return r;
		}
	};

	/// Heuristic read from a table, one row per goal.
	template <typename State>
	struct TableH : public Planner::AStarConcreteHeuristic<State> {
		std::vector<std::vector<double>> table; // [goal][state]
		double GetHeuristicValue(const State& s) override
		{
			int g = idOf(this->m_goal);
			MC_CHECK(g >= 0 && g < (int)table.size(), "the heuristic is evaluated before its goal was set");
			return table[g][idOf(s)];
		}
		TableH() { this->m_goal = mk<State>(-5, 0); }
	};

	/// table[g][s] = lambda * d(s -> g), dead ends get a large value.
	inline std::vector<std::vector<double>> tableFor(const Graph& g, double lambda, double dead)
	{
		Graph r = g.reversed();
		std::vector<std::vector<double>> t;
		for (int goal = 0; goal < g.n; goal++) {
			auto d = r.dist(goal);
			for (auto& x : d)
				x = (x == INF ? dead : lambda * x);
			t.push_back(d);
		}
		return t;
	}

	/// The path is a chain of edges of the graph from a to b; returns its
	/// cheapest cost, or checks the given edge identifiers.
	template <typename State>
	inline void checkPath(const Graph& g, const std::vector<State>& path, int a, int b, double cost, const std::vector<int>* actions)
	{
		MC_CHECK(!path.empty(), "success but the path is empty");
		MC_CHECK(idOf(path.front()) == a, "path starts at " << idOf(path.front()) << " instead of " << a);
		MC_CHECK(idOf(path.back()) == b, "path ends at " << idOf(path.back()) << " instead of " << b);
		if (actions)
			MC_CHECK(actions->size() + 1 == path.size(), actions->size() << " actions for a path of " << path.size() << " states");
		double sum = 0;
		for (size_t i = 0; i + 1 < path.size(); i++) {
			double best = INF;
			for (auto& e : g.out[idOf(path[i])]) {
				if (e.to != idOf(path[i + 1]))
					continue;
				if (actions && e.id != (*actions)[i])
					continue;
				best = std::min(best, e.w);
			}
			MC_CHECK(best != INF, "path step " << idOf(path[i]) << " -> " << idOf(path[i + 1]) << " is not a transition" << (actions ? " with that action" : ""));
			sum += best;
		}
		MC_CHECK(sum == cost, "reported cost " << cost << " but the path costs " << sum);
	}
}
