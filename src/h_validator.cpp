// C16: validation of states and paths against the occupancy map.
#include "mc.h"
#include "core/base.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_validator/state_validator_free.h"
#include "state_space/state_space_se2.h"
#include "paths/path_se2.h"
#include "paths/path_constant_steer.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_reeds_shepp.h"
#include <set>
using namespace Planner;

namespace {
	/// Marks exactly one cell.
	struct CellShape : Shape {
		int r, c;
		CellShape(int r, int c) :
			r(r), c(c) { }
		virtual void GetGridCellsPosition(const OccupancyMap&, const Pose2d&, std::vector<GridCellPosition>& cells) override { cells.push_back({ r, c }); }
		virtual void GetVerticesPosition(const Pose2d&, std::vector<Point2d>&) override { }
	};
	/// Path following another one, recording where it is evaluated.
	struct Recorder : Path<Pose2d> {
		const Path<Pose2d>& p;
		mutable std::vector<double> ratios;
		Recorder(const Path<Pose2d>& p) :
			Path<Pose2d>(p.GetInitialState(), p.GetLength()), p(p) { this->m_final = p.GetFinalState(); }
		virtual Pose2d Interpolate(double r) const override
		{
			ratios.push_back(r);
			return p.Interpolate(r);
		}
		virtual void Truncate(double) override { }
	};
	struct World {
		Ref<StateSpaceSE2> space;
		Ref<ObstacleListOccupancyMap> map;
		Ref<StateValidatorOccupancyMap> val;
		double bx, by, px, py, tmax;
		std::set<std::pair<int, int>> occ;
		World(double bx, double by, float res, double px, double py, double tmax = M_PI) :
			bx(bx), by(by), px(px), py(py), tmax(tmax)
		{
			std::array<Pose2d, 2> b;
			b[0].position = { -bx, -by };
			b[0].theta = -tmax;
			b[1].position = { bx, by };
			b[1].theta = tmax;
			space = makeRef<StateSpaceSE2>(b);
			map = makeRef<ObstacleListOccupancyMap>(res);
			val = makeRef<StateValidatorOccupancyMap>(space, map);
			map->SetPosition({ px, py });
		}
		void block(int r, int c)
		{
			auto o = makeRef<Obstacle>();
			o->SetShape(makeRef<CellShape>(r, c));
			map->AddObstacle(o);
			occ.insert({ r, c });
		}
		/// Distance between the cell containing the point and the nearest occupied cell.
		double cellDist(double x, double y) const
		{
			double res = map->resolution;
			int r = (int)std::floor((x - px + bx) / res), c = (int)std::floor((y - py + by) / res);
			double d = 1e9;
			for (auto& [a, b] : occ)
				d = std::min(d, std::hypot(a - r, b - c) * res);
			return d;
		}
		bool inBounds(const Pose2d& p, double margin = 0) const
		{
			return std::abs(p.x() - px) <= bx + margin && std::abs(p.y() - py) <= by + margin && std::abs(std::remainder(p.theta, 2 * M_PI)) <= tmax + margin;
		}
		bool onEdge(double x, double y) const
		{
			// too close to the border of a cell (or of the bounds) for the oracle to decide
			double res = map->resolution, u = (x - px + bx) / res, v = (y - py + by) / res;
			return std::abs(u - std::round(u)) < 1e-4 || std::abs(v - std::round(v)) < 1e-4;
		}
		/// 1 valid, 0 invalid, -1 undecided (rounding)
		int valid(const Pose2d& p) const
		{
			if (std::abs(std::abs(p.theta) - tmax) < 1e-9)
				return -1;
			if (!inBounds(p, 1e-6))
				return 0;
			if (onEdge(p.x(), p.y()) || !inBounds(p, -1e-6))
				return -1;
			double d = cellDist(p.x(), p.y());
			if (std::abs(d - val->minSafeRadius) < 1e-4)
				return d == val->minSafeRadius ? 1 : -1;
			return d >= val->minSafeRadius;
		}
	};

	void checkPath(World& w, const Path<Pose2d>& path, const char* what)
	{
		const double len = path.GetLength(), res = w.map->resolution, step = w.val->minPathInterpolationDistance;
		Recorder rec(path);
		float last = -1;
		bool ok = w.val->IsPathValid(rec, &last);
		MC_CHECK(ok == w.val->IsPathValid(path), what << ": the verdict depends on whether the last valid ratio is asked for");
		mc::transition();
		mc::outcome(ok);
		mc::state(mc::mixd(ok, last));
		MC_CHECK(last >= 0 && last <= 1, what << ": last valid ratio " << last);
		Pose2d lastState;
		StateValidatorSE2Base& base = *w.val;
		bool ok2 = base.IsPathValid(path, &lastState);
		Pose2d lp = path.Interpolate(last);
		MC_CHECK(ok2 == ok && std::hypot(lastState.x() - lp.x(), lastState.y() - lp.y()) < 1e-6, what << ": the last valid state is not the one at the last valid ratio");
		int n = std::min(4000, std::max(40, (int)(len / res * 16)));
		const double slack = 1.4143 * res + step + 1e-3;
		bool invalid = false;
		const bool startsValid = w.val->IsStateValid(path.Interpolate(0));
		for (int i = 0; i <= n; i++) {
			double r = (double)i / n;
			Pose2d p = path.Interpolate(r);
			if (!w.val->IsStateValid(p))
				invalid = true;
			if (r > last || !startsValid)
				continue;
			// Everything up to the last valid ratio keeps its clearance
			MC_CHECK(w.inBounds(p, step), what << " declared valid up to " << last << " leaves the bounds at (" << p.x() << "," << p.y() << "), ratio " << r);
			double d = w.cellDist(p.x(), p.y());
			MC_CHECK(d >= w.val->minSafeRadius - slack, what << " declared valid up to " << last << " passes at " << d << " of an obstacle at (" << p.x() << "," << p.y() << "), ratio " << r);
		}
		if (ok) {
			MC_CHECK(last == 1.0f, what << " is valid but its last valid ratio is " << last);
			MC_CHECK(w.val->IsStateValid(path.Interpolate(0)), what << " is declared valid but its initial state is not");
			MC_CHECK(w.val->IsStateValid(path.Interpolate(1)), what << " is declared valid but its final state is not");
		} else {
			for (double r : rec.ratios)
				if (r >= 0 && r <= 1 && !w.val->IsStateValid(path.Interpolate(r)))
					invalid = true;
			MC_CHECK(invalid, what << " is declared invalid but none of its states is");
			// The last valid ratio is tight: an invalid state follows within a step
			if (w.val->IsStateValid(path.Interpolate(0))) {
				bool lv = w.val->IsStateValid(lp) || w.val->IsStateValid(path.Interpolate(std::max(0.0, last - 1e-6)));
				MC_CHECK(lv || len == 0, what << ": the state at the last valid ratio " << last << " is invalid");
			} else
				MC_CHECK(last == 0.0f || len == 0, what << " starts at an invalid state but is valid up to " << last);
		}
	}
}

// Every position of a fine lattice, for every pair of occupied cells.
MC_SCENARIO(C16, states, 0)
{
	int pos = mc::choose(3);
	const double P[][2] = { { 0, 0 }, { 2.3, -1.1 }, { 100.5, 40.2 } };
	float radius = mc::pick({ 0.0f, 0.4f, 0.6f, 0.8f, 1.0f, 1.3f });
	World w(1.5, 2.0, 0.5f, P[pos][0], P[pos][1], 2.0);
	int R = w.map->Rows(), C = w.map->Columns(), n = R * C;
	int a = mc::choose(n + 1);
	mc::split();
	int b = mc::choose(mc::thorough() ? n + 1 : n / 4 + 1);
	if (a < n)
		w.block(a / C, a % C);
	if (b < n && !mc::thorough())
		b = (a * 5 + b * 4) % n;
	if (b < n)
		w.block(b / C, b % C);
	w.map->Update();
	w.val->minSafeRadius = radius;
	mc::note(mc::Str() << "map at (" << w.px << "," << w.py << ") occupied " << a << "," << b << " radius " << radius);
	uint64_t h = 0;
	for (double x = -2.13; x < 2.2; x += 0.24)
		for (double y = -2.63; y < 2.7; y += 0.24)
			for (double t : { 0.3, -1.9, 2.2, -2.1 }) {
				Pose2d p(w.px + x, w.py + y, t);
				int v = w.valid(p);
				bool got = w.val->IsStateValid(p);
				if (v >= 0)
					MC_CHECK(got == (v == 1), "state (" << p.x() << "," << p.y() << "," << t << ") is declared " << (got ? "valid" : "invalid") << "; distance " << w.cellDist(p.x(), p.y()) << ", radius " << radius);
				h = mc::mix(h, got);
				mc::transition();
			}
	mc::state(h);
	mc::outcome(h);
}
// Straight paths between every pair of points of a lattice, obstacles anywhere.
MC_SCENARIO(C16, straight, 0)
{
	int pos = mc::choose(2);
	World w(2.0, 1.5, 0.25f, pos ? 5.3 : 0, pos ? -20.1 : 0, 4.0);
	int R = w.map->Rows(), C = w.map->Columns();
	int o = mc::choose(13);
	mc::split();
	if (o < 12) {
		w.block((o % 4) * 4 + 2, (o / 4) * 4 + 2);
		if (o % 3 == 0)
			w.block(R - 3, C / 2);
	}
	w.map->Update();
	w.val->minSafeRadius = mc::pick({ 0.0f, 0.3f, 0.8f });
	w.val->minPathInterpolationDistance = mc::pick({ 0.05f, 0.3f });
	double x0[] = { -1.9, -0.7, 0.6, 1.97 }, y0[] = { -1.45, 0.1, 1.3 };
	double x1[] = { -2.4, -1.2, 0.03, 1.6, 1.999, 2.2 }, y1[] = { -1.6, -0.9, 0.4, 1.49 };
	int a = mc::choose(12), b = mc::choose(24);
	Pose2d from(w.px + x0[a % 4], w.py + y0[a / 4], 0), to(w.px + x1[b % 6], w.py + y1[b / 6], 0.5);
	mc::note(mc::Str() << "map at (" << w.px << "," << w.py << ") obstacle " << o << " radius " << w.val->minSafeRadius << " step " << w.val->minPathInterpolationDistance << " from (" << from.x() << "," << from.y() << ") to (" << to.x() << "," << to.y() << ")");
	PathSE2 path(from, to);
	checkPath(w, path, "the straight path");
}
// Arcs and Reeds-Shepp paths.
MC_SCENARIO(C16, curved, 0)
{
	int pos = mc::choose(2);
	World w(4.0, 4.0, 0.25f, pos ? -6.5 : 0, pos ? 2.2 : 0, 4.0);
	int o = mc::choose(17);
	mc::split();
	if (o < 16) {
		w.block((o % 4) * 8 + 3, (o / 4) * 8 + 3);
		w.block((o / 4) * 7 + 5, (o % 4) * 8 + 4);
	}
	w.map->Update();
	w.val->minSafeRadius = mc::pick({ 0.0f, 0.6f });
	w.val->minPathInterpolationDistance = mc::pick({ 0.05f, 0.4f });
	auto model = makeRef<KinematicBicycleModel>(1.0, 0.0);
	double x0[] = { -3.6, -1, 0.4, 3.2 };
	int a = mc::choose(16);
	double t = mc::choose(6) * M_PI / 3 - M_PI + 0.05;
	Pose2d from(w.px + x0[a % 4], w.py + x0[a / 4], t);
	int k = mc::choose(8);
	mc::note(mc::Str() << "map at (" << w.px << "," << w.py << ") obstacle " << o << " radius " << w.val->minSafeRadius << " from (" << from.x() << "," << from.y() << "," << t << ") path " << k);
	if (k < 4) {
		PathConstantSteer p(model, from, k % 2 ? 0.5 : -0.3, k < 2 ? 3.0 : 7.0, k == 2 ? Direction::Backward : Direction::Forward);
		checkPath(w, p, "the arc");
	} else {
		Pose2d to(w.px + (k % 2 ? 2.5 : -3.1), w.py + (k < 6 ? 2.9 : -1.8), 1.0);
		PathConnectionReedsShepp conn(1.0, 1, 1, 0);
		auto p = conn.Connect(from, to);
		checkPath(w, *p, "the Reeds-Shepp path");
	}
}
// Paths that do not move.
MC_SCENARIO(C16, degenerate, 0)
{
	World w(1.5, 2.0, 0.5f, 0, 0, 4.0);
	w.block(2, 3);
	w.map->Update();
	w.val->minSafeRadius = 0.6f;
	mc::split();
	double x = -1.8 + 0.31 * mc::choose(12), y = -2.2 + 0.37 * mc::choose(12);
	Pose2d p(x, y, 0.2);
	PathSE2 path(p, p);
	mc::note(mc::Str() << "still path at (" << x << "," << y << ")");
	MC_CHECK(w.val->IsPathValid(path) == w.val->IsStateValid(p), "a path that stays at a state has a different verdict than the state");
	// The validator without obstacles only checks the bounds
	StateValidatorFree<Pose2d, 3, double> freeVal(w.space);
	bool in = std::abs(x) <= 1.5 && std::abs(y) <= 2.0;
	MC_CHECK(freeVal.IsStateValid(p) == in, "the free validator ignores the bounds");
	float last = 0;
	MC_CHECK(freeVal.IsPathValid(path, &last) && last == 1.0f, "the free validator rejects a path");
	mc::state(mc::mixd(mc::mixd(1, x), y));
	mc::transition();
}
// A safe radius much larger than the cells: the clearance is decided more finely than the size of the robot.
MC_SCENARIO(C16, clearance, 0)
{
	int pos = mc::choose(2);
	World w(6.0, 6.0, 0.1f, pos ? 31.7 : 0, pos ? -8.4 : 0, 4.0);
	int o = mc::choose(mc::thorough() ? 9 : 4);
	mc::split();
	w.block(60 + (o % 3) * 7, 60 - (o / 3) * 9);
	w.map->Update();
	w.val->minSafeRadius = mc::pick({ 1.5f, 3.0f });
	w.val->minPathInterpolationDistance = mc::pick({ 0.02f, 0.1f });
	double a = mc::choose(mc::thorough() ? 16 : 8) * M_PI / (mc::thorough() ? 8 : 4) + 0.1;
	double ox = w.px - 6 + 0.1 * (60 + (o % 3) * 7), oy = w.py - 6 + 0.1 * (60 - (o / 3) * 9);
	mc::note(mc::Str() << "map at (" << w.px << "," << w.py << ") obstacle " << o << " radius " << w.val->minSafeRadius << " step " << w.val->minPathInterpolationDistance << " heading " << a);
	// Straight paths passing the obstacle at every lateral offset, starting at several distances
	for (double off = 0.5; off < 3.5; off += 0.11)
		for (double s : { 3.9, 4.4, 5.0 }) {
			double nx = -std::sin(a), ny = std::cos(a), c = std::cos(a), t = std::sin(a);
			Pose2d from(ox + nx * off - c * s, oy + ny * off - t * s, 0), to(ox + nx * off + c * s * 0.8, oy + ny * off + t * s * 0.8, 0);
			if (!w.val->IsStateValid(from))
				continue;
			checkPath(w, PathSE2(from, to), "the straight path");
		}
}
// Paths that leave the bounds and come back: the map is close to, far from or at the origin, and nothing else is near.
MC_SCENARIO(C16, border, 0)
{
	const double P[][2] = { { 0, 0 }, { 2.2, 0.3 }, { -2.2, 1.7 }, { 0.4, -2.1 }, { 1.9, 2.0 }, { 50.3, -70.1 } };
	int pos = mc::choose(6);
	World w(4.0, 3.0, 0.25f, P[pos][0], P[pos][1], 4.0);
	int o = mc::choose(2);
	mc::split();
	if (o)
		w.block(w.map->Rows() / 2, w.map->Columns() / 2);
	w.map->Update();
	w.val->minSafeRadius = 0.3f;
	w.val->minPathInterpolationDistance = mc::pick({ 0.05f, 0.3f });
	int side = mc::choose(4), k = mc::choose(7);
	double in = mc::pick({ 0.13, 0.4, 0.9, 1.6 });
	double t = mc::choose(8) * M_PI / 4 + 0.07;
	double along = (k - 3) * (side < 2 ? 0.8 : 1.1);
	double x = side == 0 ? -4 + in : side == 1 ? 4 - in : along, y = side == 2 ? -3 + in : side == 3 ? 3 - in : along;
	Pose2d from(w.px + x, w.py + y, t);
	auto model = makeRef<KinematicBicycleModel>(1.0, 0.0);
	double steer = mc::pick({ 0.8, -0.5 });
	double len = mc::pick({ 4.5, 9.0 });
	mc::note(mc::Str() << "map at (" << w.px << "," << w.py << ") obstacle " << o << " step " << w.val->minPathInterpolationDistance << " arc from (" << from.x() << "," << from.y() << "," << t << ") steering " << steer << " length " << len);
	PathConstantSteer p(model, from, steer, len, Direction::Forward);
	checkPath(w, p, "the arc");
}

// A safe radius of 100 cells: paths that enter the unsafe area for a moment only are not taken for safe.
MC_SCENARIO(C16, grazing, 0)
{
	int a = mc::choose(mc::thorough() ? 16 : 4), start = mc::choose(mc::thorough() ? 4 : 2);
	mc::split();
	static Scope<World> cached;
	if (!cached) {
		cached = makeScope<World>(9.0, 9.0, 0.05f, 4.7, -3.1, 4.0);
		cached->block(180, 180);
		cached->map->Update();
		cached->val->minSafeRadius = 5.0f;
		cached->val->minPathInterpolationDistance = 0.01f;
	}
	World& w = *cached;
	double t = a * M_PI / (mc::thorough() ? 8 : 2) + 0.1, c = std::cos(t), s = std::sin(t);
	double off = 4.74 + 0.04 * mc::choose(7), from = 1.2 + 0.3 * mc::choose(20) + 0.07 * start;
	double ox = w.px, oy = w.py;
	Pose2d p(ox - s * off - c * from, oy + c * off - s * from, 0), q(ox - s * off + c * 4.5, oy + c * off + s * 4.5, 0);
	mc::note(mc::Str() << "heading " << t << " offset " << off << " from " << from);
	if (!w.val->IsStateValid(p))
		mc::prune();
	checkPath(w, PathSE2(p, q), "the straight path");
}
// Paths much shorter than a step, across the border of a cell, of the clearance or of the bounds.
MC_SCENARIO(C16, tiny, 0)
{
	int pos = mc::choose(2);
	World w(2.0, 1.5, 0.25f, pos ? 5.25 : 0, pos ? -20.5 : 0, 4.0);
	w.block(8, 6);
	w.map->Update();
	w.val->minSafeRadius = mc::pick({ 0.0f, 0.25f, 0.7f });
	w.val->minPathInterpolationDistance = mc::pick({ 0.001f, 0.05f, 0.3f });
	mc::split();
	const double len = mc::pick({ 0.0004, 0.001, 0.004, 0.009, 0.02, 0.06 });
	const int axis = mc::choose(4), line = mc::choose(20);
	const double off = mc::pick({ 0.05, 0.3, 0.5, 0.9 });
	// Across each border of the cells, on both sides
	const double u = -2.0 + 0.25 * line, v = 0.11 + (pos ? 0 : 0.25), s = axis % 2 ? -1 : 1;
	Pose2d from, to;
	from.theta = to.theta = 0.3;
	if (axis < 2) {
		from.position = { w.px + u - s * len * off, w.py + v };
		to.position = { w.px + u + s * len * (1 - off), w.py + v };
	} else {
		from.position = { w.px + v, w.py + u - s * len * off };
		to.position = { w.px + v, w.py + u + s * len * (1 - off) };
	}
	mc::note(mc::Str() << "radius " << w.val->minSafeRadius << " step " << w.val->minPathInterpolationDistance << " from (" << from.x() << "," << from.y() << ") to (" << to.x() << "," << to.y() << ")");
	checkPath(w, PathSE2(from, to), "the tiny path");
	if (w.val->minPathInterpolationDistance > len && !w.val->IsStateValid(to))
		MC_CHECK(!w.val->IsPathValid(PathSE2(from, to)), "a path that ends at an invalid state is valid");
}
