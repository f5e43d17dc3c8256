// C20: the hybrid A* planner, end to end.
#include "mc.h"
#include "core/base.h"
#include "algo/heuristics.h"
#include "algo/hybrid_a_star.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_space/state_space_se2.h"
#include "utils/random.h"
#include <map>
#include <set>
using namespace Planner;

namespace {
	/// Marks exactly one cell.
	struct CellShape : Shape {
		int r, c;
		CellShape(int r, int c) :
			r(r), c(c) { }
		virtual void GetGridCellsPosition(const OccupancyMap&, const Pose2d&, std::vector<GridCellPosition>& cells) override { cells.push_back({ r, c }); }
		virtual void GetVerticesPosition(const Pose2d&, std::vector<Point2d>&) override { }
	};
	struct Config {
		double radius, sw, rev, fwd, voro;
		unsigned motions;
		double spatial, angular;
	};
	const Config configs[] = {
		{ 2.0, 0.0, 1.0, 1.0, 1.0, 5, 1.0, 0.35 },
		{ 1.5, 1.5, 2.0, 1.0, 0.0, 3, 0.8, 0.4 },
		{ 1.0, 0.7, 1.0, 1.5, 0.5, 7, 1.2, 0.5 },
		{ 2.5, 3.0, 1.2, 1.1, 2.0, 9, 1.0, 0.6 },
	};
	double wrap(double t) { return std::remainder(t, 2 * M_PI); }
	struct Rng {
		std::function<bool()> yes;
		Rng(std::function<bool()> yes)
		{
			mc::setRandomSource([yes]() -> uint64_t { return yes() ? 0 : (~0ull << 11); });
		}
		~Rng() { mc::setRandomSource(nullptr); }
	};
	struct World {
		const Config cfg;
		Ref<StateSpaceSE2> space;
		Ref<ObstacleListOccupancyMap> map;
		Ref<StateValidatorOccupancyMap> val;
		Ref<GVD> gvd;
		struct Heur : AStarCombinedHeuristic<Pose2d> {
			using AStarCombinedHeuristic<Pose2d>::SetGoal;
		} heur;
		Ref<ObstaclesHeuristic> obst;
		HybridAStar planner;
		std::map<std::pair<int, int>, Ref<Obstacle>> obstacles;
		Point2d pos;
		World(const Config& cfg, Point2d pos, float res = 0.5f) :
			cfg(cfg), planner(HybridAStar::SearchParameters(cfg.radius, cfg.sw, cfg.rev, cfg.fwd, cfg.voro, cfg.motions, cfg.spatial, cfg.angular)), pos(pos)
		{
			std::array<Pose2d, 2> b;
			b[0].position = { -5, -4 };
			b[0].theta = -M_PI;
			b[1].position = { 5, 4 };
			b[1].theta = M_PI;
			space = makeRef<StateSpaceSE2>(b);
			map = makeRef<ObstacleListOccupancyMap>(res);
			val = makeRef<StateValidatorOccupancyMap>(space, map);
			val->minSafeRadius = 0.4f;
			val->minPathInterpolationDistance = 0.1f;
			map->SetPosition(pos);
			map->Update();
			gvd = makeRef<GVD>(map);
			heur.Add(NonHolonomicHeuristic::Build(b, cfg.spatial, cfg.angular, cfg.radius, cfg.rev, cfg.fwd, cfg.sw));
			obst = makeRef<ObstaclesHeuristic>(map, cfg.rev, cfg.fwd);
			heur.Add(obst);
			MC_CHECK(planner.Initialize(val), "the initialisation fails");
			MC_CHECK(std::abs(planner.GetSmootherParameters().maxCurvature * cfg.radius - 1) < 1e-5, "the smoother allows a curvature of " << planner.GetSmootherParameters().maxCurvature << " for a turning radius of " << cfg.radius);
			iterations(20);
		}
		/// Iterations of the smoother
		void iterations(int n)
		{
			auto prm = planner.GetSmootherParameters();
			prm.maxIterations = n;
			planner.SetSmootherParameters(prm);
		}
		void move(Point2d p)
		{
			pos = p;
			map->SetPosition(p);
		}
		/// Exactly these cells are occupied.
		void occupy(const std::set<std::pair<int, int>>& cells)
		{
			for (auto it = obstacles.begin(); it != obstacles.end();)
				if (!cells.count(it->first)) {
					map->RemoveObstacle(it->second);
					it = obstacles.erase(it);
				} else
					it++;
			for (auto& c : cells)
				if (!obstacles.count(c)) {
					auto o = makeRef<Obstacle>();
					o->SetShape(makeRef<CellShape>(c.first, c.second));
					map->AddObstacle(o);
					obstacles[c] = o;
				}
			map->Update();
			gvd->Update();
		}
		Pose2d at(double x, double y, double t) const { return Pose2d(pos.x() + x, pos.y() + y, t); }
		bool close(const Pose2d& a, const Pose2d& b, double tol = 2e-3) const
		{
			return (a.position - b.position).norm() <= tol && std::abs(wrap(a.theta - b.theta)) <= tol;
		}
		static std::string str(const Pose2d& p) { return mc::Str() << "(" << p.x() << "," << p.y() << "," << p.theta << ")"; }
		double voronoi(const PathNonHolonomicSE2Base& p) const
		{
			double sum = 0, step = std::sqrt(2.0) * map->resolution;
			for (double l = 0; l < p.GetLength(); l += (float)step) {
				float c;
				if (gvd->GetPathCost(p.Interpolate(l / p.GetLength()).position, c))
					sum += c;
			}
			return cfg.voro * sum * step;
		}
		/// Motion along a segment: length and curvature limits, collisions. Returns its cost.
		double segment(const PathNonHolonomicSE2Base& p, Direction& last, std::vector<double>* cusps = nullptr)
		{
			const double L = p.GetLength();
			double cost = 0;
			const int n = std::max(4, (int)std::ceil(L / 0.05));
			Pose2d prev = p.Interpolate(0.0);
			MC_CHECK(close(prev, p.GetInitialState(), 1e-4), "a segment does not start at its initial state");
			MC_CHECK(close(p.Interpolate(1.0), p.GetFinalState(), 1e-4), "a segment does not end at its final state");
			const auto cuspRatios = p.GetCuspPointRatios();
			for (int i = 1; i <= n && L > 0; i++) {
				Pose2d s = p.Interpolate((double)i / n);
				bool cusp = false;
				for (double c : cuspRatios)
					cusp = cusp || ((i - 1.0) / n <= c && c <= (double)i / n);
				double dl = L / n;
				MC_CHECK((s.position - prev.position).norm() <= dl * 1.001 + 1e-6, "a segment of the path jumps");
				MC_CHECK(std::abs(wrap(s.theta - prev.theta)) <= dl / cfg.radius * 1.001 + 1e-5, "the path turns by " << wrap(s.theta - prev.theta) << " over " << dl << ", tighter than the turning radius " << cfg.radius);
				if (!cusp) {
					// moves along its heading
					Direction d = p.GetDirection((i - 0.5) / n);
					double t = prev.theta + 0.5 * wrap(s.theta - prev.theta);
					Point2d h(std::cos(t), std::sin(t)), m = s.position - prev.position;
					double along = m.dot(h) * (d == Direction::Forward ? 1 : -1);
					MC_CHECK(d != Direction::NoMotion, "a segment of the path has no direction");
					MC_CHECK(std::abs(along - dl) <= 2e-3 * dl + 1e-5 + dl * dl * dl / (cfg.radius * cfg.radius), "the path moves by (" << m.x() << "," << m.y() << ") with the heading " << t << (d == Direction::Forward ? " forward" : " backward"));
				}
				prev = s;
			}
			// Cost: direction by direction
			std::vector<double> r = { 0.0 };
			for (double c : cuspRatios)
				if (c > 1e-9 && c < 1 - 1e-9)
					r.push_back(c);
			r.push_back(1.0);
			for (size_t i = 0; i + 1 < r.size() && L > 0; i++) {
				Direction d = p.GetDirection(0.5 * (r[i] + r[i + 1]));
				cost += (r[i + 1] - r[i]) * L * (d == Direction::Forward ? cfg.fwd : cfg.rev);
				if (last != Direction::NoMotion && d != last)
					cost += cfg.sw;
				last = d;
			}
			return cost + voronoi(p);
		}
		/// Validity at the points of a segment spaced by the interpolation distance of the validator.
		bool valid(const PathSE2Base& p) const
		{
			return val->IsPathValid(p);
		}
		Status search(const Pose2d& init, const Pose2d& goal)
		{
			planner.SetInitState(init);
			planner.SetGoalState(goal);
			return planner.SearchPath();
		}
		/// No pose that was expanded near the goal and that a direct path connects to it gives a cheaper path.
		void expanded(const Pose2d& goal)
		{
			struct Node {
				double cost;
				Direction dir;
			};
			using Key = std::tuple<double, double, double>;
			auto key = [](const Pose2d& p) { return Key(p.x(), p.y(), p.theta); };
			std::map<Key, std::vector<Ref<PathNonHolonomicSE2Base>>> out;
			for (auto& p : planner.GetGraphSearchExploredPathSet())
				out[key(p->GetInitialState())].push_back(p);
			const double found = planner.GetGraphSearchOptimalCost();
			obst->Update(goal);
			heur.SetGoal(goal);
			std::vector<std::pair<Pose2d, Node>> todo = { { planner.GetInitState(), { 0.0, Direction::NoMotion } } };
			for (size_t i = 0; i < todo.size() && i < 5000; i++) {
				const Pose2d at = todo[i].first;
				const Node n = todo[i].second;
				auto it = out.find(key(at));
				if (it == out.end())
					continue;
				// An expanded node: the direct path is one of those tried
				const double h = heur.GetHeuristicValue(at);
				if (h < 9.9 && n.cost < found) {
					PathReedsShepp rs(at, ReedsShepp::Solver::GetOptimalPath(at, goal, cfg.radius, cfg.rev, cfg.fwd, cfg.sw), cfg.radius);
					Direction d = rs.GetDirection(0.0);
					double c = n.cost + rs.ComputeCost(cfg.sw, cfg.rev, cfg.fwd) + voronoi(rs) + (n.dir != Direction::NoMotion && d != Direction::NoMotion && d != n.dir ? cfg.sw : 0.0);
					// The heuristic may be that of a cell next to the goal
					if (c + heur.GetHeuristicValue(rs.GetFinalState()) < found - 2e-3 * (1 + found))
						MC_CHECK(!valid(rs), "the path found costs " << found << " although the pose " << str(at) << ", which was explored, is at the cost " << n.cost << " and leads directly to the goal for a total of " << c);
				}
				for (auto& p : it->second) {
					Direction last = n.dir;
					double c = n.cost + segment(*p, last);
					todo.push_back({ p->GetFinalState(), { c, last } });
				}
			}
		}
		/// Every clause that holds whatever the outcome.
		void check(Status st, const Pose2d& init, const Pose2d& goal)
		{
			const auto path = planner.GetPath();
			const auto& stats = planner.GetStats();
			bool ok = st >= 0, same = close(init, goal, 1e-6);
			MC_CHECK(ok == (stats.graphSearchStatus >= 0), "status " << st << " although the status of the graph search is " << stats.graphSearchStatus);
			const auto segs = planner.GetGraphSearchPath();
			if (!ok) {
				MC_CHECK(path.empty(), "a path of " << path.size() << " poses is returned although no path is found");
				MC_CHECK(segs.empty(), "the graph search has a path although no path is found");
				MC_CHECK(std::isinf(planner.GetGraphSearchOptimalCost()), "the graph search has a cost although no path is found");
				mc::outcome(0);
				return;
			}
			MC_CHECK(same || val->IsStateValid(init), "a path is found from the pose " << str(init) << " which is not valid");
			MC_CHECK(same || val->IsStateValid(goal), "a path is found to the pose " << str(goal) << " which is not valid");
			MC_CHECK(!path.empty(), "the path found is empty");
			MC_CHECK(close(path.front(), init), "the path starts at " << str(path.front()) << " instead of " << str(init));
			MC_CHECK(close(path.back(), goal), "the path ends at " << str(path.back()) << " instead of " << str(goal));
			uint64_t h = path.size();
			int invalid = 0;
			for (auto& p : path) {
				// The graph search validates its path every minPathInterpolationDistance
				bool v = same || val->IsStateValid(p);
				invalid = v ? 0 : invalid + 1;
				MC_CHECK(invalid <= (stats.smoothingStatus < 0 ? 2 : 0), "the pose " << str(p) << " of the path is not valid");
				h = mc::mixd(mc::mixd(h, p.x()), p.y());
			}
			mc::state(h);
			// Path of the graph search
			double cost = 0, length = 0;
			Direction last = Direction::NoMotion;
			Pose2d at = init;
			for (auto& s : segs) {
				MC_CHECK(close(s->GetInitialState(), at, 1e-3), "the segment from " << str(s->GetInitialState()) << " follows the pose " << str(at));
				MC_CHECK(valid(*s), "a segment of the path from " << str(s->GetInitialState()) << " to " << str(s->GetFinalState()) << " is not valid");
				cost += segment(*s, last);
				length += s->GetLength();
				at = s->GetFinalState();
			}
			MC_CHECK(close(at, goal), "the graph search ends at " << str(at) << " instead of " << str(goal));
			MC_CHECK(std::abs(cost - planner.GetGraphSearchOptimalCost()) <= 1e-3 * (1 + cost), "the cost is " << planner.GetGraphSearchOptimalCost() << " instead of " << cost);
			expanded(goal);
			// The points where the direction changes are poses of the path, smoothed or not
			Direction dir = Direction::NoMotion;
			size_t next = 0;
			auto passes = [&](const Pose2d& c) {
				while (next < path.size() && !close(path[next], c))
					next++;
				MC_CHECK(next < path.size(), "the path does not go through the pose " << str(c) << " where its direction changes");
			};
			for (auto& s : segs) {
				if (s->GetLength() == 0)
					continue;
				if (dir != Direction::NoMotion && s->GetDirection(0.0) != dir)
					passes(s->GetInitialState());
				for (double c : s->GetCuspPointRatios())
					if (c > 1e-9 && c < 1 - 1e-9)
						passes(s->Interpolate(c));
				dir = s->GetDirection(1.0);
			}
			// Sampling
			if (planner.GetStats().smoothingStatus < 0 || planner.GetSmootherParameters().maxIterations == 0) {
				double total = 0;
				for (size_t i = 1; i < path.size(); i++) {
					double d = (path[i].position - path[i - 1].position).norm();
					MC_CHECK(d <= planner.pathInterpolation * 2 + 1e-3, "the poses " << i - 1 << " and " << i << " of the path are " << d << " apart instead of at most twice " << planner.pathInterpolation);
					total += d;
				}
				for (auto& p : path) {
					double best = 1e9;
					for (auto& s : segs) {
						const int n = std::max(1, (int)std::ceil(s->GetLength() / 0.05));
						if ((s->GetInitialState().position - p.position).norm() > s->GetLength() + best)
							continue;
						for (int i = 0; i <= n; i++) {
							Pose2d q = s->Interpolate((double)i / n);
							best = std::min(best, (q.position - p.position).norm() + std::abs(wrap(q.theta - p.theta)));
						}
					}
					MC_CHECK(best < 0.1 || segs.empty(), "the pose " << str(p) << " of the path is not on the path of the graph search");
				}
				MC_CHECK(total <= length + 1e-3, "the path is longer than that of the graph search");
				MC_CHECK(total >= length * 0.9 - 0.3, "the path of " << total << " m skips a part of the " << length << " m of the graph search");
			}
			mc::outcome(1 + (int)segs.size());
		}
		/// Cost of the direct Reeds-Shepp connection, or infinity if it is not valid
		double direct(const Pose2d& init, const Pose2d& goal)
		{
			auto w = ReedsShepp::Solver::GetOptimalPath(init, goal, cfg.radius, cfg.rev, cfg.fwd, cfg.sw);
			PathReedsShepp p(init, w, cfg.radius);
			if (!val->IsPathValid(p))
				return INFINITY;
			// The heuristic may be that of a cell next to the goal
			obst->Update(goal);
			heur.SetGoal(goal);
			return p.ComputeCost(cfg.sw, cfg.rev, cfg.fwd) + voronoi(p) + heur.GetHeuristicValue(p.GetFinalState());
		}
	};
	World& world(int cfg)
	{
		static std::map<int, Scope<World>> all;
		auto& w = all[cfg];
		if (!w)
			w = makeScope<World>(configs[cfg], cfg % 2 ? Point2d(7, -3) : Point2d(0, 0));
		return *w;
	}
	using Cells = std::set<std::pair<int, int>>;
	/// Map of 20 x 16 cells of 0.5 m
	const std::vector<Cells> layouts = {
		{},
		{ { 10, 8 } },
		{ { 10, 2 }, { 10, 3 }, { 10, 4 }, { 10, 5 }, { 10, 6 }, { 10, 7 }, { 10, 8 }, { 10, 9 } },
		{ { 9, 0 }, { 9, 1 }, { 9, 2 }, { 9, 3 }, { 9, 4 }, { 9, 5 }, { 9, 6 }, { 9, 7 }, { 9, 8 }, { 9, 9 }, { 9, 10 }, { 9, 11 }, { 9, 12 }, { 9, 13 }, { 9, 14 }, { 9, 15 } },
		{ { 6, 5 }, { 6, 11 }, { 13, 8 }, { 14, 3 } },
	};
}

// Free space: every goal of a lattice around the start.
MC_SCENARIO(C20, open, 0)
{
	int cfg = mc::choose(4), smooth = mc::choose(2);
	int gx = mc::choose(mc::thorough() ? 17 : 9);
	mc::split();
	int gy = mc::choose(mc::thorough() ? 13 : 7), gt = mc::choose(mc::thorough() ? 12 : 6), it = mc::choose(2);
	World& w = world(cfg);
	w.occupy({});
	double step = mc::thorough() ? 0.5 : 1.0;
	Pose2d init = w.at(0.3, -0.2, it ? -2.9 : 0.4), goal = w.at(-4 + step * gx, -3 + step * gy, -M_PI + 2 * M_PI / (mc::thorough() ? 12 : 6) * gt);
	mc::note(mc::Str() << "configuration " << cfg << " from " << w.str(init) << " to " << w.str(goal));
	w.iterations(smooth ? 30 : 0);
	Rng rng([]() { return true; });
	auto st = w.search(init, goal);
	w.check(st, init, goal);
	double d = w.direct(init, goal);
	if (std::isfinite(d)) {
		MC_CHECK(st >= 0, "no path is found although the direct path is free");
		MC_CHECK(w.planner.GetGraphSearchOptimalCost() <= d * 1.001 + 1e-3, "the path found costs " << w.planner.GetGraphSearchOptimalCost() << " although the direct one costs " << d);
	}
	mc::transition();
}
// From a pose to itself.
MC_SCENARIO(C20, still, 0)
{
	int cfg = mc::choose(4), layout = mc::choose(5), x = mc::choose(5);
	mc::split();
	int y = mc::choose(4), t = mc::choose(6), off = mc::choose(3);
	World& w = world(cfg);
	w.occupy(layouts[layout]);
	Pose2d init = w.at(-4 + 1.9 * x, -3 + 1.7 * y, -M_PI + M_PI / 3 * t), goal = init;
	// A goal next to the start, in the same cell
	if (off == 1)
		goal.position += Point2d(0.05, 0.03);
	if (off == 2)
		goal.theta = Pose2d(0.0, 0.0, goal.theta + 0.04).theta;
	mc::note(mc::Str() << "configuration " << cfg << " obstacles " << layout << " from " << w.str(init) << " to " << w.str(goal));
	Rng rng([]() { return true; });
	auto st = w.search(init, goal);
	w.check(st, init, goal);
	if (off == 0 && w.val->IsStateValid(init))
		MC_CHECK(st >= 0 && w.planner.GetGraphSearchOptimalCost() == 0 && w.planner.GetGraphSearchPath().empty(), "the path from a pose to itself costs " << w.planner.GetGraphSearchOptimalCost());
	if (std::isfinite(w.direct(init, goal)))
		MC_CHECK(st >= 0, "no path is found although the direct path is free");
	mc::transition();
}
// Around obstacles: every start and goal of a lattice, every outcome of the random draws of the first expansions.
MC_SCENARIO(C20, obstacles, 0)
{
	int cfg = mc::choose(4), layout = mc::choose(5), sx = mc::choose(mc::thorough() ? 3 : 2), sy = mc::choose(mc::thorough() ? 3 : 2);
	mc::split();
	int gx = mc::choose(mc::thorough() ? 4 : 2), gy = mc::choose(mc::thorough() ? 3 : 2), t = mc::choose(mc::thorough() ? 6 : 3);
	World& w = world(cfg);
	w.occupy(layouts[layout]);
	Pose2d init = w.at(-4.3 + 1.45 * sx, -3.1 + 2.9 * sy, 0.9 * t), goal = w.at(0.35 + 1.3 * gx, -2.7 + 2.6 * gy, 0.7 - 2.1 * t);
	int draws = 0;
	std::string seq;
	Rng rng([&]() {
		if (draws >= (mc::thorough() ? 4 : 2))
			return false;
		draws++;
		bool b = mc::choose(2);
		seq += b ? '1' : '0';
		return b;
	});
	auto st = w.search(init, goal);
	mc::note(mc::Str() << "configuration " << cfg << " obstacles " << layout << " from " << w.str(init) << " to " << w.str(goal) << " draws " << seq);
	w.check(st, init, goal);
	if (layout == 3)
		MC_CHECK(st < 0, "a path is found through a wall");
	// Everything explored is drivable
	for (auto& p : w.planner.GetGraphSearchExploredPathSet()) {
		int n = std::max(1, (int)std::ceil(p->GetLength() / 0.1)), invalid = 0;
		for (int i = 0; i <= n; i++) {
			auto q = p->Interpolate(std::min((double)i / n, 1 - 1e-6));
			invalid = w.val->IsStateValid(q) ? 0 : invalid + 1;
			MC_CHECK(invalid <= (i == 0 || i == n ? 0 : 2), "the search explores a path from " << w.str(p->GetInitialState()) << " to " << w.str(p->GetFinalState()) << " that goes through the invalid pose " << w.str(q));
		}
		mc::transition();
	}
	mc::transition();
}
// One planner used again and again while the obstacles, start and goal change: the same result as a new one.
MC_SCENARIO(C20, histories, 0)
{
	static const Config quick = { 1.5, 0.5, 1.3, 1.0, 0.7, 5, 2.0, 1.0 };
	Rng rng([]() { return true; });
	World w(quick, Point2d(0, 0));
	const int n = 3;
	std::string s;
	for (int i = 0; i < n; i++) {
		int layout = mc::choose(mc::thorough() ? 5 : 4), q = mc::thorough() ? mc::choose(4) : 1 + mc::choose(3);
		if (i == 0)
			mc::split();
		s += mc::Str() << " " << layout << "/" << q;
		mc::note(mc::Str() << "searches" << s);
		const Point2d at = (layout + q) % 2 ? Point2d(3, -2.25) : Point2d(0, 0);
		w.move(at);
		Pose2d init = w.at(-4.1 + q % 2, -2.2, 0.5 * q), goal = w.at(3.9 - q / 2, 2.3 - 1.1 * q, -0.3);
		if (q == 3)
			goal = w.at(5.5, 0, 0); // outside of the map
		w.occupy(layouts[layout]);
		auto st = w.search(init, goal);
		w.check(st, init, goal);
		if (i + 1 == n) {
			struct Result {
				Status st;
				std::vector<Pose2d> path;
				double cost;
				size_t explored;
			};
			static std::map<int, Result> fresh;
			if (!fresh.count(layout * 4 + q)) {
				World f(quick, at);
				f.occupy(layouts[layout]);
				auto st = f.search(init, goal);
				fresh[layout * 4 + q] = { st, f.planner.GetPath(), f.planner.GetGraphSearchOptimalCost(), f.planner.GetGraphSearchExploredPathSet().size() };
			}
			const Result& f = fresh[layout * 4 + q];
			auto st2 = f.st;
			MC_CHECK(st == st2, "status " << st << " instead of " << st2 << " with a new planner");
			auto a = w.planner.GetPath(), b = f.path;
			MC_CHECK(a.size() == b.size(), "a path of " << a.size() << " poses instead of " << b.size() << " with a new planner");
			for (size_t k = 0; k < a.size(); k++)
				MC_CHECK(w.close(a[k], b[k], 1e-6), "the pose " << k << " is " << w.str(a[k]) << " instead of " << w.str(b[k]) << " with a new planner");
			MC_CHECK(std::abs(w.planner.GetGraphSearchOptimalCost() - f.cost) < 1e-6 || st < 0, "another cost than that of a new planner");
			const size_t explored = w.planner.GetGraphSearchExploredPathSet().size();
			MC_CHECK(explored == f.explored, explored << " paths explored instead of " << f.explored << " with a new planner");
		}
	}
	mc::transition();
}
// The path is that of the graph search, smoothed with the parameters of the planner.
MC_SCENARIO(C20, smoothing, 0)
{
	int cfg = mc::choose(4), layout = mc::pick({ 0, 1, 2, 4 }), gx = mc::choose(3);
	mc::split();
	int gy = mc::choose(3), t = mc::choose(mc::thorough() ? 8 : 4), it = mc::pick({ 1, 25 });
	World& w = world(cfg);
	w.occupy(layouts[layout]);
	Pose2d init = w.at(-3.3, -2.1 + 1.9 * gy, 0.8 * t), goal = w.at(0.9 + 1.3 * gx, -2.6 + 2.3 * gy, 2.3 - 1.6 * t);
	mc::note(mc::Str() << "configuration " << cfg << " obstacles " << layout << " from " << w.str(init) << " to " << w.str(goal) << " smoothed " << it << " times");
	Rng rng([]() { return true; });
	w.iterations(0);
	auto st0 = w.search(init, goal);
	const auto raw = w.planner.GetPath();
	const auto segs = w.planner.GetGraphSearchPath();
	const bool rawFails = w.planner.GetStats().smoothingStatus < 0;
	w.iterations(it);
	auto st = w.search(init, goal);
	w.check(st, init, goal);
	MC_CHECK((st0 >= 0) == (st >= 0), "the status depends on the number of smoothing iterations");
	mc::transition();
	if (st < 0 || rawFails || segs.empty())
		return;
	// Poses where the direction changes
	std::unordered_set<int> cusps = { 0, (int)raw.size() - 1 };
	size_t next = 0;
	auto add = [&](const Pose2d& c) {
		while (next < raw.size() && !w.close(raw[next], c, 1e-6))
			next++;
		if (next < raw.size())
			cusps.insert((int)next);
	};
	Direction dir = Direction::NoMotion;
	for (auto& s : segs) {
		if (s->GetLength() == 0)
			continue;
		if (dir != Direction::NoMotion && s->GetDirection(0.0) != dir)
			add(s->GetInitialState());
		for (double c : s->GetCuspPointRatios())
			if (c > 1e-9 && c < 1 - 1e-9)
				add(s->Interpolate(c));
		dir = s->GetDirection(1.0);
	}
	Smoother own;
	own.Initialize(w.val, w.gvd, 1 / w.cfg.radius);
	auto prm = own.GetParameters();
	prm.maxIterations = it;
	own.SetParameters(prm);
	auto so = own.Smooth(raw, cusps);
	MC_CHECK(so == w.planner.GetStats().smoothingStatus, "the smoothing status is " << w.planner.GetStats().smoothingStatus << " instead of " << so);
	const auto& want = so >= 0 ? own.GetPath() : raw;
	const auto got = w.planner.GetPath();
	MC_CHECK(got.size() == want.size(), "the path has " << got.size() << " poses instead of " << want.size());
	for (size_t i = 0; i < got.size(); i++)
		MC_CHECK(w.close(got[i], want[i], 1e-5), "the pose " << i << " is " << w.str(got[i]) << " instead of " << w.str(want[i]) << " once smoothed");
	mc::outcome(100 + so);
}
// A planner given another map plans on that one; without map it fails.
MC_SCENARIO(C20, reinit, 0)
{
	static const Config quick = { 1.5, 0.5, 1.3, 1.0, 0.7, 5, 2.0, 1.0 };
	Rng rng([]() { return true; });
	int a = mc::choose(5), b = mc::choose(5);
	mc::split();
	int search = mc::choose(2), null = mc::choose(2), q = mc::choose(mc::thorough() ? 4 : 2);
	World wa(quick, Point2d(0, 0)), wb(quick, Point2d(2, 1.25), q % 2 ? 0.4f : 0.5f);
	wa.occupy(layouts[a]);
	wb.occupy(layouts[b]);
	mc::note(mc::Str() << "obstacles " << a << " then " << b << (search ? ", searched in between" : "") << (null ? ", without map in between" : "") << " query " << q);
	auto init = [&](World& w) { return w.at(-4.1 + q % 2, -2.2, 0.5 * q); };
	auto goal = [&](World& w) { return w.at(3.9 - q / 2, 2.3 - 1.1 * q, -0.3); };
	if (search)
		wa.check(wa.search(init(wa), goal(wa)), init(wa), goal(wa));
	if (null) {
		MC_CHECK(!wa.planner.Initialize(nullptr), "the initialisation succeeds without validator");
		MC_CHECK(wa.search(init(wa), goal(wa)) < 0, "a planner whose initialisation failed finds a path");
		MC_CHECK(wa.planner.GetPath().empty(), "a planner whose initialisation failed returns the path of an earlier search");
	}
	MC_CHECK(wa.planner.Initialize(wb.val), "the initialisation fails");
	MC_CHECK(wa.planner.GetStateValidator() == wb.val, "the validator is not the last one given");
	wa.iterations(20);
	auto st = wa.search(init(wb), goal(wb)), st2 = wb.search(init(wb), goal(wb));
	wb.check(st2, init(wb), goal(wb));
	MC_CHECK(st == st2, "status " << st << " instead of " << st2 << " with a new planner");
	auto x = wa.planner.GetPath(), y = wb.planner.GetPath();
	MC_CHECK(x.size() == y.size(), "a path of " << x.size() << " poses instead of " << y.size() << " with a new planner");
	for (size_t k = 0; k < x.size(); k++)
		MC_CHECK(wa.close(x[k], y[k], 1e-6), "the pose " << k << " is " << wa.str(x[k]) << " instead of " << wa.str(y[k]) << " with a new planner");
	MC_CHECK(st < 0 || std::abs(wa.planner.GetGraphSearchOptimalCost() - wb.planner.GetGraphSearchOptimalCost()) < 1e-6, "another cost than that of a new planner");
	mc::transition();
}
// Without initialisation
MC_SCENARIO(C20, uninitialised, 0)
{
	HybridAStar p;
	p.SetInitState(Pose2d(0.0, 0.0, 0.0));
	p.SetGoalState(Pose2d(1.0, 0.0, 0.0));
	MC_CHECK(p.SearchPath() < 0 && p.GetPath().empty(), "a planner that is not initialised finds a path");
	MC_CHECK(!p.Initialize(nullptr), "the initialisation succeeds without validator");
	MC_CHECK(p.SearchPath() < 0 && p.GetPath().empty(), "a planner that is not initialised finds a path");
	mc::transition();
}
