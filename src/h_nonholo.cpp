// C18: non-holonomic heuristic of the hybrid A*.
#include "mc.h"
#include "core/base.h"
#include "algo/heuristics.h"
#include "geometry/reeds_shepp.h"
#include <map>
using namespace Planner;

namespace {
	/// Gives access to the goal of a heuristic.
	struct Combined : AStarCombinedHeuristic<Pose2d> {
		using AStarCombinedHeuristic<Pose2d>::SetGoal;
	};
	struct Cfg {
		double sx, sy, res, ang, radius, rev, fwd, sw;
	};
	const Cfg cfgs[] = {
		{ 6, 4, 1.0, M_PI / 4, 1.0, 1.0, 1.0, 0.0 },
		{ 5, 5, 1.0, M_PI / 6, 2.0, 3.0, 1.0, 0.0 },
		{ 4, 8, 2.0, 1.0, 1.5, 1.0, 2.0, 0.7 },
		{ 3, 3, 0.5, 0.9, 2.0, 0.5, 0.8, 1.0 },
		{ 1, 1, 1.0, 0.0872 * 4, 2.0, 2.0, 0.5, 0.3 },
		{ 9, 2.5, 1.5, 2 * M_PI / 5, 1.0, 1.3, 1.1, 2.0 },
		{ 4, 3, 1.0, M_PI / 3, 2.0, 2.5, 2.5, 0.0 },
		{ 3, 5, 0.8, M_PI / 5, 1.0, 0.5, 0.5, 0.0 },
	};
	/// Cost of the motions of a path.
	double motions(const ReedsShepp::PathSegment& path, const Cfg& c)
	{
		double cost = 0;
		for (int i = 0; i < path.GetNumMotions(); i++) {
			bool fwd = path.GetMotion(i).direction == Direction::Forward;
			cost += path.GetMotion(i).length * c.radius * (fwd ? c.fwd : c.rev);
			if (i > 0 && fwd != (path.GetMotion(i - 1).direction == Direction::Forward))
				cost += c.sw;
		}
		return cost;
	}
	struct Table {
		Cfg c;
		Ref<NonHolonomicHeuristic> h;
		Ref<Combined> comb;
		int nx, ny;
		std::map<std::tuple<int, int, int>, double> cache;
		explicit Table(const Cfg& c) :
			c(c)
		{
			Pose2d lo, hi;
			lo.position = { -1, 2 };
			hi.position = { -1 + c.sx, 2 + c.sy };
			h = NonHolonomicHeuristic::Build({ lo, hi }, c.res, c.ang, c.radius, c.rev, c.fwd, c.sw);
			comb = makeRef<Combined>();
			comb->Add(h);
			nx = h->numSpatialX;
			ny = h->numSpatialY;
			MC_CHECK(nx % 2 == 1 && ny % 2 == 1 && nx * c.res >= c.sx - 1e-9 && ny * c.res >= c.sy - 1e-9, "the table of " << nx << "x" << ny << " cells does not cover the bounds around the goal");
		}
		double cost(int i, int j, int k)
		{
			auto it = cache.find({ i, j, k });
			if (it != cache.end())
				return it->second;
			Pose2d p(i * c.res, j * c.res, k * c.ang);
			auto path = ReedsShepp::Solver::GetOptimalPath(p, Pose2d(0.0, 0.0, 0.0), c.radius, c.rev, c.fwd, c.sw);
			return cache[{ i, j, k }] = motions(path, c);
		}
		void check(const Pose2d& goal, const Pose2d& state)
		{
			comb->SetGoal(goal);
			double v = h->GetHeuristicValue(state);
			MC_CHECK(comb->GetHeuristicValue(state) == v, "the combination of a single heuristic has another value");
			// Pose of the state seen from the goal
			double dx = state.x() - goal.x(), dy = state.y() - goal.y();
			double x = std::cos(goal.theta) * dx + std::sin(goal.theta) * dy, y = -std::sin(goal.theta) * dx + std::cos(goal.theta) * dy;
			double t = std::remainder(state.theta - goal.theta, 2 * M_PI);
			const double eps = 1e-9, straight = std::min(c.rev, c.fwd) * std::hypot(dx, dy);
			bool ok = false;
			std::string cand;
			for (int i = (int)std::ceil(x / c.res - 0.5 - eps); i <= x / c.res + 0.5 + eps; i++)
				for (int j = (int)std::ceil(y / c.res - 0.5 - eps); j <= y / c.res + 0.5 + eps; j++) {
					if (std::abs(i) > nx / 2 || std::abs(j) > ny / 2) {
						ok = ok || std::abs(v - straight) < 1e-5 * (1 + straight);
						cand += mc::Str() << " " << straight;
						continue;
					}
					int n = (int)std::ceil(2 * M_PI / c.ang);
					for (int k = 0; k < n; k++) {
						if (std::abs(std::remainder(t - k * c.ang, 2 * M_PI)) > 0.5 * c.ang + eps)
							continue;
						double w = cost(i, j, k);
						ok = ok || std::abs(v - w) < 1e-5 * (1 + w);
						cand += mc::Str() << " " << w;
					}
				}
			MC_CHECK(ok, "the heuristic from (" << state.x() << "," << state.y() << "," << state.theta << ") to (" << goal.x() << "," << goal.y() << "," << goal.theta << ") is " << v << ", the cost from the nearest pose(s) of the table is" << cand);
			mc::transition();
			mc::state(mc::mixd(mc::mixd(mc::mixd(v, x), y), t));
		}
	};
	Table& table(int i)
	{
		static std::map<int, Scope<Table>> all;
		auto& t = all[i];
		if (!t)
			t = makeScope<Table>(cfgs[i]);
		return *t;
	}
}
// Every pose of a lattice finer than the table, for goals of every heading.
MC_SCENARIO(C18, lattice, 0)
{
	int k = mc::choose(8), f = mc::thorough() ? 8 : 4;
	Table& t = table(k);
	const double res = t.c.res;
	int heading = mc::choose(mc::thorough() ? 16 : 8);
	mc::split();
	Pose2d goal;
	goal.position = { 0.37 * heading, -1.1 };
	goal.theta = heading * (2 * M_PI / (mc::thorough() ? 16 : 8)) - M_PI;
	int nx = f * (t.nx / 2 + 2), ny = f * (t.ny / 2 + 2);
	int ix = mc::choose(2 * nx + 1) - nx, iy = mc::choose(2 * ny + 1) - ny;
	for (int a = -13; a <= 13; a++) {
		Pose2d s;
		s.position = goal.position + Point2d(ix * res / f, iy * res / f);
		s.theta = a * M_PI / 13;
		s.theta = s.WrapTheta();
		mc::note(mc::Str() << "table " << k);
		t.check(goal, s);
	}
}
// Poses of the table itself and rotated ones: the value is the exact Reeds-Shepp cost.
MC_SCENARIO(C18, exact, 0)
{
	int k = mc::choose(8);
	Table& t = table(k);
	mc::split();
	int i = mc::choose(t.nx) - t.nx / 2, j = mc::choose(t.ny) - t.ny / 2;
	int n = (int)std::ceil(2 * M_PI / t.c.ang);
	for (int a = 0; a < n; a++)
		for (double th : { 0.0, 0.7, M_PI / 2, -2.5, M_PI }) {
			Pose2d g(1.5, -0.25, th);
			Pose2d rel(i * t.c.res, j * t.c.res, a * t.c.ang);
			Pose2d s = g + rel;
			Combined& c = *t.comb;
			c.SetGoal(g);
			double v = c.GetHeuristicValue(s);
			auto path = ReedsShepp::Solver::GetOptimalPath(s, g, t.c.radius, t.c.rev, t.c.fwd, t.c.sw);
			double w = motions(path, t.c);
			// The cost may jump next to the poses of the table: compare from the two sides of it
			t.check(g, s);
			double exact = t.cost(i, j, a);
			if (std::abs(w - exact) < 1e-6 && std::abs(std::remainder(a * t.c.ang, 2 * M_PI)) > 0.5 * t.c.ang)
				MC_CHECK(std::abs(v - w) < 1e-4 * (1 + w), "the heuristic at a pose of the table is " << v << ", the Reeds-Shepp cost is " << w);
		}
}
