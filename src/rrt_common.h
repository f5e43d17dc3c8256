// Environment and oracle shared by the checks of RRT and RRT*: every sample sequence is enumerated.
#pragma once
#include "mc.h"
#include "core/base.h"
#include "algo/path_planner.h"
#include "paths/path_r2.h"
#include "state_space/state_space_r2.h"
#include "state_validator/state_validator_free.h"
#include <map>
#include <set>
using namespace Planner;

namespace rrt {
	/// Axis-aligned boxes that block the straight paths.
	struct Walls : StateValidator<Point2d, 2, double> {
		struct Box {
			double x0, y0, x1, y1;
		};
		std::vector<Box> boxes;
		Walls(const Ref<StateSpace<Point2d, 2, double>>& s, std::vector<Box> b) :
			StateValidator(s), boxes(std::move(b)) { }
		bool IsStateValid(const Point2d& p) override
		{
			return segment(p, p);
		}
		bool segment(const Point2d& a, const Point2d& b) const
		{
			for (auto& w : boxes) {
				double t0 = 0, t1 = 1;
				bool hit = true;
				const double lo[] = { w.x0, w.y0 }, hi[] = { w.x1, w.y1 };
				for (int i = 0; i < 2 && hit; i++) {
					double d = b[i] - a[i];
					if (std::abs(d) < 1e-12)
						hit = a[i] >= lo[i] && a[i] <= hi[i];
					else {
						double u = (lo[i] - a[i]) / d, v = (hi[i] - a[i]) / d;
						t0 = std::max(t0, std::min(u, v));
						t1 = std::min(t1, std::max(u, v));
						hit = t0 <= t1;
					}
				}
				if (hit)
					return false;
			}
			return true;
		}
		bool IsPathValid(const Path<Point2d>& path, float* last = nullptr) override
		{
			bool ok = segment(path.GetInitialState(), path.GetFinalState());
			if (last)
				*last = ok ? 1.0f : 0.0f;
			return ok;
		}
	};
	/// The points to sample are chosen by the explorer.
	struct Space : StateSpace<Point2d, 2, double> {
		std::function<Point2d()> sample;
		Space() :
			StateSpace(std::array<Point2d, 2> { Point2d(-10, -10), Point2d(10, 10) }) { }
		void EnforceBounds(Point2d&) override { }
		bool ValidateBounds(const Point2d&) override { return true; }
		Point2d SampleUniform() override { return sample(); }
		Point2d SampleGaussian(const Point2d&, const Point2d&) override { return sample(); }
	};
	struct Snap {
		bool unknown = false;
		std::vector<Point2d> state;
		std::vector<int> parent;
		std::vector<double> cost;
		std::vector<Ref<Path<Point2d>>> path;
		int find(const Point2d& p) const
		{
			for (size_t i = 0; i < state.size(); i++)
				if (state[i] == p)
					return (int)i;
			return -1;
		}
		uint64_t hash() const
		{
			uint64_t h = state.size();
			for (size_t i = 0; i < state.size(); i++)
				h = mc::mix(mc::mixd(mc::mixd(h, state[i].x()), state[i].y()), parent[i]);
			return h;
		}
	};
	inline std::string str(const Point2d& p) { return mc::Str() << "(" << p.x() << "," << p.y() << ")"; }

	/// Access to the tree of the planner. Should its members be renamed, only
	/// what the planner returns is checked.
	template <typename Planner_, bool Star>
	struct Probe : Planner_ {
		using Planner_::Planner_;
		template <typename U>
		static auto cost(U& node, int) -> decltype((double)node->info.costFromGoal) { return node->info.costFromGoal; }
		template <typename U>
		static double cost(U&, long) { return std::numeric_limits<double>::quiet_NaN(); }
		template <typename U>
		static auto read(U& u, int) -> decltype(u.m_tree.Size(), (*u.m_tree.GetNearestNode(u.m_init))->info.path, Snap())
		{
			Snap s;
			if (u.m_tree.Size() == 0)
				return s;
			using N = std::remove_pointer_t<decltype(u.m_tree.GetNearestNode(u.m_init))>;
			const N* r = u.m_tree.GetNearestNode(u.m_init);
			while (r->GetParent())
				r = r->GetParent();
			std::map<const N*, int> idx;
			r->PreOrderTraversal([&](const N& n) {
				idx[&n] = (int)s.state.size();
				s.state.push_back(n->state);
				s.parent.push_back(n.GetParent() ? idx.at(n.GetParent()) : -1);
				s.path.push_back(n->info.path);
				s.cost.push_back(cost(n, 0));
			});
			MC_CHECK(s.state.size() == u.m_tree.Size(), "the tree reports " << u.m_tree.Size() << " nodes but has " << s.state.size());
			return s;
		}
		template <typename U>
		static Snap read(U&, long)
		{
			Snap s;
			s.unknown = true;
			return s;
		}
		Snap snap() { return read(*this, 0); }
	};

	struct Config {
		Point2d init, goal;
		double maxDist = 1;
		double bias = 0.5;
		unsigned maxIter = 4, maxNodes = 10000;
		std::vector<Walls::Box> boxes;
		std::vector<Point2d> points;
		/// Samples drawn before the enumerated ones.
		std::vector<Point2d> prefix;
	};

	/// Run one search under the sample sequence chosen by the explorer and check every step.
	template <typename Planner_, bool Star>
	struct Run {
		Config c;
		Ref<Space> space = makeRef<Space>();
		Ref<Walls> walls;
		Ref<PathConnectionR2> conn = makeRef<PathConnectionR2>();
		Scope<Probe<Planner_, Star>> planner;
		unsigned samples = 0;
		Snap before;
		bool pending = false;
		Point2d sampled;
		std::function<bool(const Point2d&)> solved;
		std::set<std::pair<double, double>> grown;

		Run()
		{
			walls = makeRef<Walls>(space, std::vector<Walls::Box> {});
			planner = makeScope<Probe<Planner_, Star>>(space, walls, conn);
			mc::setRandomSource([this]() -> uint64_t {
				settle();
				if (c.bias > 0 && samples >= c.prefix.size() && mc::choose(2) == 0) {
					begin(c.goal, "goal");
					return (uint64_t)0;
				}
				return ~0ull - (1ull << 58);
			});
			space->sample = [this]() {
				Point2d p = samples < c.prefix.size() ? c.prefix[samples] : c.points[mc::choose((int)c.points.size())];
				begin(p, "sample");
				return p;
			};
		}
		~Run() { mc::setRandomSource(nullptr); }
		/// A new sample is drawn.
		void begin(const Point2d& p, const char* what)
		{
			mc::note(mc::Str() << what << " " << str(p));
			samples++;
			MC_CHECK(samples <= c.maxIter + 1, samples << " samples are drawn for a maximum of " << c.maxIter << " iterations");
			before = planner->snap();
			MC_CHECK(before.state.size() <= c.maxNodes, "the tree has " << before.state.size() << " nodes for a maximum of " << c.maxNodes);
			sampled = p;
			pending = true;
		}
		/// The previous sample has been processed: compare the tree with what it should be.
		void settle()
		{
			Snap now = planner->snap();
			if (now.unknown)
				return;
			invariants(now);
			mc::transition();
			mc::state(now.hash());
			if (!pending)
				return;
			pending = false;
			MC_CHECK(now.state.size() >= before.state.size() && now.state.size() <= before.state.size() + 1, "the tree grew from " << before.state.size() << " to " << now.state.size() << " nodes");
			// The nodes of the tree before are still there
			for (size_t i = 0; i < before.state.size(); i++) {
				int k = now.find(before.state[i]);
				MC_CHECK(k >= 0, "the node " << str(before.state[i]) << " disappeared");
				if constexpr (Star)
					MC_CHECK(!(now.cost[k] > before.cost[i] + 1e-9), "the cost of the node " << str(before.state[i]) << " grew from " << before.cost[i] << " to " << now.cost[k]);
				else if (before.parent[i] >= 0)
					MC_CHECK(now.state[now.parent[k]] == before.state[before.parent[i]], "the parent of the node " << str(before.state[i]) << " changed");
			}
			// The nearest nodes of the sample, and the states they lead to
			double best = 1e18;
			for (auto& p : before.state)
				best = std::min(best, (p - sampled).norm());
			std::vector<std::pair<int, Point2d>> expected;
			bool none = false;
			for (size_t i = 0; i < before.state.size(); i++) {
				double d = (before.state[i] - sampled).norm();
				if (d > best * (1 + 1e-9))
					continue;
				Point2d t = d > c.maxDist ? Point2d(before.state[i] + (sampled - before.state[i]) * (c.maxDist / d)) : sampled;
				bool known = false;
				for (auto& p : before.state)
					known = known || (p - t).norm() < 1e-9;
				if (!walls->segment(before.state[i], t) || known)
					none = true;
				if (walls->segment(before.state[i], t))
					expected.push_back({ (int)i, t });
			}
			if (now.state.size() == before.state.size()) {
				MC_CHECK(none, "the tree does not grow towards the sample " << str(sampled) << " although the motion from its nearest node is valid");
				return;
			}
			int fresh = -1;
			for (size_t i = 0; i < now.state.size(); i++)
				if (before.find(now.state[i]) < 0)
					fresh = (int)i;
			MC_CHECK(fresh >= 0, "the tree grew without a new state");
			bool ok = false;
			double bound = 0;
			for (auto& [i, t] : expected)
				if ((t - now.state[fresh]).norm() < 1e-9) {
					if constexpr (Star) {
						ok = true;
						bound = std::max(bound, before.cost[i] + (before.state[i] - t).norm());
					} else
						ok = ok || now.state[now.parent[fresh]] == before.state[i];
				}
			MC_CHECK(ok, "the tree grows to " << str(now.state[fresh]) << " from " << str(now.state[now.parent[fresh]]) << " for the sample " << str(sampled));
			if constexpr (Star)
				MC_CHECK(!(now.cost[fresh] > bound + 1e-9), "the node " << str(now.state[fresh]) << " is connected at cost " << now.cost[fresh] << " although its nearest node gives " << bound);
			if constexpr (Star) {
				// No valid parent amongst the k nearest nodes is cheaper
				const Point2d t = now.state[fresh];
				const size_t k = std::max(1, (int)std::log((double)before.state.size()));
				// The parent is one of them, or the nearest node of the sample
				{
					const Point2d par = now.state[now.parent[fresh]];
					bool source = false;
					for (auto& [i, e] : expected)
						source = source || ((e - t).norm() < 1e-9 && before.state[i] == par);
					size_t closer = 0;
					for (auto& q : before.state)
						closer += (q - t).norm() < (par - t).norm() * (1 - 1e-9);
					MC_CHECK(source || closer < k, "the node " << str(t) << " is connected to " << str(par) << ", which is not one of its " << k << " nearest nodes of " << before.state.size());
				}
				for (size_t i = 0; i < before.state.size(); i++) {
					double d = (before.state[i] - t).norm();
					size_t closer = 0;
					for (size_t j = 0; j < before.state.size(); j++)
						closer += j != i && (before.state[j] - t).norm() <= d * (1 + 1e-9);
					if (closer < k && walls->segment(before.state[i], t))
						MC_CHECK(!(now.cost[fresh] > before.cost[i] + d + 1e-9), "the node " << str(t) << " is connected at cost " << now.cost[fresh] << " through " << str(now.state[now.parent[fresh]]) << " although its neighbour " << str(before.state[i]) << " gives " << before.cost[i] + d);
				}
			}
		}
		void invariants(const Snap& s)
		{
			if (s.state.empty())
				return;
			MC_CHECK(s.state[0] == c.init && s.parent[0] == -1, "the root of the tree is " << str(s.state[0]));
			for (size_t i = 0; i < s.state.size(); i++) {
				for (size_t j = 0; j < i; j++)
					MC_CHECK(s.state[i] != s.state[j], "the state " << str(s.state[i]) << " appears twice in the tree");
				if constexpr (Star)
					if (i == 0)
						MC_CHECK(!(s.cost[0] != 0) || std::isnan(s.cost[0]), "the cost of the root is " << s.cost[0]);
				if (i == 0)
					continue;
				Point2d p = s.state[s.parent[i]], q = s.state[i];
				MC_CHECK(walls->segment(p, q), "the tree has an invalid motion from " << str(p) << " to " << str(q));
				MC_CHECK(s.path[i], "the node " << str(q) << " has no path from its parent");
				MC_CHECK(s.path[i]->GetInitialState() == p && s.path[i]->GetFinalState() == q, "the path stored for the node " << str(q) << " goes from " << str(s.path[i]->GetInitialState()) << " to " << str(s.path[i]->GetFinalState()) << " instead of from its parent " << str(p));
				if constexpr (Star)
					MC_CHECK(!(std::abs(s.cost[i] - s.cost[s.parent[i]] - (p - q).norm()) >= 1e-9), "the cost of the node " << str(q) << " is " << s.cost[i] << ", the cost of its parent is " << s.cost[s.parent[i]] << " at distance " << (p - q).norm());
				else
					MC_CHECK((p - q).norm() <= c.maxDist * (1 + 1e-9), "the tree has a motion of length " << (p - q).norm());
			}
		}
		template <typename Params>
		Planner::Status search(const Config& cfg, Params prm)
		{
			c = cfg;
			walls->boxes = c.boxes;
			samples = 0;
			pending = false;
			planner->SetInitState(c.init);
			planner->SetGoalState(c.goal);
			prm.maxIteration = c.maxIter;
			prm.maxNumberTreeNode = c.maxNodes;
			prm.maxConnectionDistance = c.maxDist;
			prm.goalBias = c.bias;
			planner->SetParameters(prm);
			started = false;
			Planner::Status st = planner->SearchPath();
			settle();
			Snap s = planner->snap();
			auto path = planner->GetPath();
			if (st == Status::Success) {
				MC_CHECK(!path.empty() && path.front() == c.init, "the path does not start at the initial state");
				MC_CHECK(solved(path.back()), "the path ends at " << str(path.back()) << ", the goal is " << str(c.goal));
				double len = 0;
				for (size_t i = 1; i < path.size(); i++) {
					MC_CHECK(walls->segment(path[i - 1], path[i]), "the path has an invalid motion from " << str(path[i - 1]) << " to " << str(path[i]));
					if (!Star)
						MC_CHECK((path[i] - path[i - 1]).norm() <= c.maxDist * (1 + 1e-9), "the path has a motion of length " << (path[i] - path[i - 1]).norm());
					int k = s.find(path[i]);
					MC_CHECK(s.unknown || (k >= 0 && s.parent[k] >= 0 && s.state[s.parent[k]] == path[i - 1]), "the path does not follow the tree");
					len += (path[i] - path[i - 1]).norm();
				}
				if (Star && !s.unknown)
					MC_CHECK(!(std::abs(len - s.cost[s.find(path.back())]) >= 1e-9), "the path has length " << len << " but costs " << s.cost[s.find(path.back())]);
				mc::outcome(mc::mixd(path.size(), len));
			} else {
				MC_CHECK(path.empty(), "a failed search returns a path of " << path.size() << " states");
				MC_CHECK(s.unknown || samples >= c.maxIter || s.state.size() >= c.maxNodes, "the search gives up after " << samples << " samples and " << s.state.size() << " nodes");
				for (size_t i = 1; i < s.state.size(); i++)
					MC_CHECK(!solved(s.state[i]), "the search fails although its tree reaches the goal at " << str(s.state[i]));
				mc::outcome(1);
			}
			return st;
		}
		bool started = false;
	};
	/// The goal is sampled in the proportion asked for: all draws of a regular subdivision of [0,1], in every rotation.
	template <typename Planner_, typename Params>
	void goalBias()
	{
		const int n = 20, num = mc::pick({ 0, 1, 2, 5, 10, 13, 19 }), rot = mc::choose(n);
		mc::split();
		const double bias = (double)num / n;
		auto space = makeRef<Space>();
		auto walls = makeRef<Walls>(space, std::vector<Walls::Box> { { 0.6, -50, 0.7, 50 } }); // nothing can be reached
		auto planner = makeScope<Planner_>(space, walls, makeRef<PathConnectionR2>());
		int draws = 0, sampled = 0;
		mc::setRandomSource([&]() -> uint64_t {
			int k = (draws++ * 7 + rot) % n;
			return (uint64_t)((k + 0.5) / n * 18446744073709551616.0);
		});
		space->sample = [&]() {
			sampled++;
			return Point2d(3.0, 3.0);
		};
		Params prm;
		prm.maxIteration = 4 * n - 1;
		prm.maxConnectionDistance = 10;
		prm.goalBias = bias;
		planner->SetParameters(prm);
		planner->SetInitState({ 0, 0 });
		planner->SetGoalState({ 5, 0 });
		mc::note(mc::Str() << "goal bias " << bias << " rotation " << rot);
		auto st = planner->SearchPath();
		mc::setRandomSource(nullptr);
		MC_CHECK(st == Status::Failure, "the search succeeds through a wall");
		MC_CHECK(draws == 0 || draws >= 4 * n - 1, draws << " draws for " << 4 * n << " iterations");
		if (draws) // one draw per iteration decides
			MC_CHECK(std::abs(draws * (1 - bias) - sampled) < 1, "the goal is sampled " << draws - sampled << " times of " << draws << " with a bias of " << bias);
		mc::state(mc::mix(num, rot));
		mc::transition(draws);
	}
	inline std::vector<Point2d> lattice(int n, double step = 1.0)
	{
		std::vector<Point2d> v;
		for (int i = 0; i < n * n; i++)
			v.push_back(Point2d(0.5 + step * (i / n), 0.5 + step * (i % n)));
		return v;
	}
}
