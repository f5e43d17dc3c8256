// C19: smoothing of a path.
#include "mc.h"
#include "core/base.h"
#include "algo/smoother.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_space/state_space_se2.h"
#include <map>
#include <set>
using namespace Planner;

namespace {
	/// Marks exactly one cell.
	struct CellShape : Shape {
		int r, c;
		CellShape(int r, int c) :
			r(r), c(c) { }
		virtual void GetGridCellsPosition(const OccupancyMap&, const Pose2d&, std::vector<GridCellPosition>& cells) override { cells.push_back({ r, c }); }
		virtual void GetVerticesPosition(const Pose2d&, std::vector<Point2d>&) override { }
	};
	using Path_ = std::vector<Pose2d>;
	using Cusps = std::unordered_set<int>;
	struct World {
		Ref<StateSpaceSE2> space;
		Ref<ObstacleListOccupancyMap> map;
		Ref<StateValidatorOccupancyMap> val;
		Ref<GVD> gvd;
		Smoother smoother;
		/// Map of 12 x 10 m (times scale) around (x,y)
		World(float res, const std::vector<std::pair<double, double>>& obstacles, Point2d pos, float safe, float curvature, double scale = 1)
		{
			std::array<Pose2d, 2> b;
			b[0].position = { -6 * scale, -5 * scale };
			b[0].theta = -M_PI;
			b[1].position = { 6 * scale, 5 * scale };
			b[1].theta = M_PI;
			space = makeRef<StateSpaceSE2>(b);
			map = makeRef<ObstacleListOccupancyMap>(res);
			val = makeRef<StateValidatorOccupancyMap>(space, map);
			val->minSafeRadius = safe;
			map->SetPosition(pos);
			for (auto& [x, y] : obstacles) {
				auto o = makeRef<Obstacle>();
				auto c = map->WorldPositionToGridCell(Point2d(pos.x() + x * scale, pos.y() + y * scale));
				o->SetShape(makeRef<CellShape>(c.row, c.col));
				map->AddObstacle(o);
			}
			map->Update();
			gvd = makeRef<GVD>(map);
			gvd->Update();
			MC_CHECK(smoother.Initialize(val, gvd, curvature), "the initialisation fails");
		}
		Smoother::Status run(const Path_& p, const Cusps& c, Smoother::Parameters prm, int iterations)
		{
			prm.maxIterations = iterations;
			smoother.SetParameters(prm);
			return smoother.Smooth(p, c);
		}
		/// Objective of the point i of the path.
		double objective(const std::vector<Point2d>& x, int i, const Path_& orig, const Smoother::Parameters& prm, const GridCellPosition& cell)
		{
			double f = 0.5 * prm.pathWeight * (x[i] - orig[i].position).squaredNorm();
			if (cell.IsValid()) {
				auto oc = gvd->GetNearestObstacleCell(cell), ec = gvd->GetNearestVoronoiEdgeCell(cell);
				if (oc.IsValid()) {
					double u = val->minSafeRadius * (1 + prm.collisionRatio), o = (x[i] - map->GridCellToWorldPosition(oc)).norm();
					if (o < u)
						f += 0.5 * prm.collisionWeight * (o - u) * (o - u);
					if (o < gvd->dMax && ec.IsValid()) {
						double v = (x[i] - map->GridCellToWorldPosition(ec)).norm(), a = gvd->alpha, d = gvd->dMax;
						f += prm.voronoiWeight * a / (a + o) * v / (o + v) * (o - d) * (o - d) / (d * d);
					}
				}
			}
			for (int j = i - 1; j <= i + 1; j++)
				f += 0.5 * prm.smoothWeight * (x[j - 1] - 2 * x[j] + x[j + 1]).squaredNorm();
			return f;
		}
		static double kappa(const std::vector<Point2d>& x, int i)
		{
			Point2d a = x[i] - x[i - 1], b = x[i + 1] - x[i];
			return std::atan2(std::abs(a.x() * b.y() - a.y() * b.x()), a.dot(b)) / a.norm();
		}
		double curvature(const std::vector<Point2d>& x, int i, const Smoother::Parameters& prm)
		{
			double k = kappa(x, i) - prm.maxCurvature;
			return k > 0 ? 0.5 * prm.curvatureWeight * k * k : 0;
		}
		/// The next path is one step down the gradient of the objective.
		void step(const Path_& from, const Path_& to, const Path_& orig, const Cusps& cusps, const Smoother::Parameters& prm)
		{
			const int n = (int)from.size();
			std::vector<Point2d> x;
			for (auto& p : from)
				x.push_back(p.position);
			auto fixed = [&](int i) {
				if (i < 2 || i >= n - 2)
					return true;
				for (int d = -2; d <= 2; d++)
					if (cusps.count(i + d))
						return true;
				return false;
			};
			const double h = 1e-6;
			for (int i = 0; i < n; i++) {
				Point2d g(0, 0);
				bool skip = false;
				auto cell = map->WorldPositionToGridCell(x[i]);
				if (!fixed(i)) {
					// not next to a discontinuity of the objective
					if (cell.IsValid()) {
						Point2d o = map->GridCellToWorldPosition(cell);
						for (int k = 0; k < 2; k++)
							skip = skip || x[i][k] - o[k] < 1e-5 || o[k] + map->resolution - x[i][k] < 1e-5;
						auto ec = gvd->GetNearestVoronoiEdgeCell(cell), oc = gvd->GetNearestObstacleCell(cell);
						skip = skip || (ec.IsValid() && (x[i] - map->GridCellToWorldPosition(ec)).norm() < 1e-3);
						skip = skip || (oc.IsValid() && (x[i] - map->GridCellToWorldPosition(oc)).norm() < 1e-3);
					}
				}
				for (int k = 0; k < 2; k++) {
					double f[2];
					for (int s = 0; s < 2; s++) {
						auto y = x;
						y[i][k] += s ? h : -h;
						f[s] = fixed(i) ? 0 : objective(y, i, orig, prm, cell);
						for (int j = i - 1; j <= i + 1; j++)
							if (j >= 2 && j < n - 2 && !fixed(j))
								f[s] += curvature(y, j, prm);
					}
					g[k] = (f[1] - f[0]) / (2 * h);
				}
				for (int j = i - 1; j <= i + 1; j++)
					if (j >= 2 && j < n - 2 && !fixed(j)) {
						double k = kappa(x, j);
						double ds = std::min((x[j] - x[j - 1]).norm(), (x[j + 1] - x[j]).norm());
						skip = skip || std::abs(k - prm.maxCurvature) < 1e-4 + 8 * h / (ds * ds) || !(k < 1e3) || k * (x[j] - x[j - 1]).norm() > M_PI - 1e-2;
					}
				if (skip)
					continue;
				Point2d want = x[i] - (double)prm.learningRate * g;
				double tol = 1e-6 + 2e-3 * (want - x[i]).norm();
				MC_CHECK((to[i].position - want).norm() <= tol, "the point " << i << " at (" << x[i].x() << "," << x[i].y() << ") moves by (" << to[i].x() - x[i].x() << "," << to[i].y() - x[i].y() << ") instead of (" << want.x() - x[i].x() << "," << want.y() - x[i].y() << ")");
				mc::transition();
			}
		}
		void general(const std::string& when, Smoother::Status st, const Path_& in, const Path_& out, const Cusps& cusps)
		{
			const int n = (int)in.size();
			MC_CHECK((int)out.size() == n, when << ": " << out.size() << " poses are returned for " << n);
			bool safe = true;
			for (int i = 0; i < n; i++) {
				MC_CHECK(std::isfinite(out[i].x()) && std::isfinite(out[i].y()), when << ": the pose " << i << " is (" << out[i].x() << "," << out[i].y() << ")");
				MC_CHECK(out[i].theta == in[i].theta, when << ": the heading of the pose " << i << " changed");
				if (i == 0 || i == n - 1 || cusps.count(i) || n < 5)
					MC_CHECK(out[i].position == in[i].position, when << ": the pose " << i << ", an end or a cusp of the path, moved");
				safe = safe && val->IsStateValid(out[i]);
			}
			MC_CHECK(safe == (st >= 0), when << ": status " << st << " although the path is " << (safe ? "" : "not ") << "safe");
			uint64_t hash = n;
			for (auto& p : out)
				hash = mc::mixd(mc::mixd(hash, p.x()), p.y());
			mc::state(hash);
		}
		/// One to four iterations, each a step down the gradient.
		void steps(const Path_& p, const Cusps& cusps, Smoother::Parameters prm, int count)
		{
			prm.stepTolerance = 1e-12f;
			Path_ prev = p;
			for (int k = 0; k <= count; k++) {
				auto st = run(p, cusps, prm, k);
				Path_ now = smoother.GetPath();
				general(mc::Str() << k << " iterations", st, p, now, cusps);
				if (p.size() < 5) {
					MC_CHECK(st == Smoother::Status::PathSize || st < 0, "a path of " << p.size() << " poses is smoothed");
					continue;
				}
				MC_CHECK(st == Smoother::Status::MaxIteration || st < 0 || st == Smoother::Status::StepTolerance, "status " << st << " after " << k << " iterations");
				if (k == 0)
					for (size_t i = 0; i < p.size(); i++)
						MC_CHECK(now[i].position == p[i].position, "a pose moves without iteration");
				else
					step(prev, now, p, cusps, prm);
				prev = now;
			}
		}
	};
	Smoother::Parameters params(int k, float curvature)
	{
		Smoother::Parameters p(curvature);
		if (k == 1)
			p.pathWeight = 0.3f, p.smoothWeight = 0.1f, p.voronoiWeight = 0.0f, p.learningRate = 0.05f;
		if (k == 2)
			p.voronoiWeight = 0.5f, p.collisionWeight = 0.5f, p.curvatureWeight = 0.0f, p.collisionRatio = 0.8f;
		if (k == 3)
			p.curvatureWeight = 1.0f, p.smoothWeight = 0.0f, p.learningRate = 0.002f;
		return p;
	}
	const std::vector<std::vector<std::pair<double, double>>> layouts = {
		{}, { { 0.3, 1.6 } }, { { -1.2, -1.7 }, { 1.4, 1.8 } }, { { -2.0, 1.5 }, { 0.4, -1.6 }, { 2.6, 1.9 } }, { { 0.1, 0.8 } }
	};
	World& world(int layout, int safe, int pos)
	{
		static std::map<int, Scope<World>> all;
		auto& w = all[layout * 16 + safe * 4 + pos];
		if (!w)
			w = makeScope<World>(0.5f, layouts[layout], pos == 1 ? Point2d(20, -7) : Point2d(0, 0), safe ? 1.3f : 0.6f, 0.5f);
		return *w;
	}
	Pose2d at(const World& w, double x, double y, double t = 0)
	{
		return Pose2d(w.map->GetPosition().x() + x, w.map->GetPosition().y() + y, t);
	}
}

// Every path whose points are shifted sideways, every position of one cusp.
MC_SCENARIO(C19, shifted, 0)
{
	const int n = 7;
	int layout = mc::choose(5), k = mc::choose(4), safe = mc::choose(2);
	mc::split();
	World& w = world(layout, safe, k % 2);
	Path_ p;
	const double off[] = { 0, 0.23, -0.31 };
	std::string s;
	for (int i = 0; i < n; i++) {
		int o = i == 0 || i == n - 1 ? 0 : mc::choose(3);
		s += (char)('0' + o);
		p.push_back(at(w, -2.1 + 0.7 * i, 0.013 * i + off[o], 0.1 * i));
	}
	int cusp = mc::choose(mc::thorough() ? n + 1 : 4);
	Cusps c;
	if (cusp)
		c.insert(cusp - 1);
	mc::note(mc::Str() << "obstacles " << layout << " parameters " << k << " shifts " << s << " cusp " << cusp - 1);
	w.steps(p, c, params(k, 0.5f), 2);
}
// Sharp turns: every sequence of turns.
MC_SCENARIO(C19, turns, 0)
{
	int layout = mc::choose(5), k = mc::choose(4);
	double spacing = mc::pick({ 0.55, 0.04 });
	mc::split();
	World& w = world(layout, 0, 1);
	const int n = mc::thorough() ? 8 : spacing > 0.5 ? 7 : 6;
	const double turn[] = { 0, 0.5, -0.9, 2.0 };
	double x = -2.3, y = -0.4, t = 0.2;
	Path_ p;
	std::string s;
	for (int i = 0; i < n; i++) {
		p.push_back(at(w, x, y, t));
		int c = i + 1 < n ? mc::choose(4) : 0;
		s += (char)('0' + c);
		t += turn[c];
		x += spacing * std::cos(t);
		y += spacing * std::sin(t);
	}
	mc::note(mc::Str() << "obstacles " << layout << " parameters " << k << " spacing " << spacing << " turns " << s);
	w.steps(p, {}, params(k, 0.5f), 1);
}
// Every set of cusps of a path that changes direction there, complete optimisation.
MC_SCENARIO(C19, cusps, 0)
{
	const int n = 10;
	int layout = mc::choose(5), safe = mc::choose(2);
	Cusps c;
	std::string s;
	for (int i = 0; i < n; i++) {
		if (mc::choose(2)) {
			c.insert(i);
			s += mc::Str() << " " << i;
		}
		if (i == 2)
			mc::split();
	}
	World& w = world(layout, safe, 1);
	Path_ p;
	double x = -1.9, y = 0.1, dir = 1;
	for (int i = 0; i < n; i++) {
		p.push_back(at(w, x, y, 0.3));
		if (i && c.count(i))
			dir = -dir;
		x += 0.45 * dir;
		y += 0.06;
	}
	mc::note(mc::Str() << "obstacles " << layout << " cusps" << s);
	auto prm = params(0, 0.5f);
	w.steps(p, c, prm, 2);
	int full = mc::thorough() ? 300 : 60;
	auto st = w.run(p, c, prm, full);
	w.general("smoothing", st, p, w.smoother.GetPath(), c);
	mc::outcome(st + 10);
}
// Paths near and beyond the border of the map, repeated points, points turning back: the result is always finite.
MC_SCENARIO(C19, degenerate, 0)
{
	int layout = mc::choose(5), k = mc::choose(4);
	mc::split();
	World& w = world(layout, 0, k % 2);
	const int n = mc::thorough() ? 7 : 6;
	const std::pair<double, double> at_[] = { { 0.55, 0.15 }, { 1.05, 0.15 }, { 0.55, -0.4 }, { -5.9, 0.15 }, { 5.95, 4.95 } };
	Path_ p;
	std::string s;
	for (int i = 0; i < n; i++) {
		int c = mc::choose(5);
		s += (char)('0' + c);
		p.push_back(at(w, at_[c].first, at_[c].second));
	}
	mc::note(mc::Str() << "obstacles " << layout << " parameters " << k << " points " << s);
	auto prm = params(k, 0.5f);
	for (int it : { 1, 5 }) {
		auto st = w.run(p, {}, prm, it);
		w.general(mc::Str() << it << " iterations", st, p, w.smoother.GetPath(), {});
	}
	mc::transition();
}
// A point of the path next to the origin of an occupied cell, at every bearing, down to a few millimetres.
MC_SCENARIO(C19, close, 0)
{
	int layout = 1 + mc::choose(4), k = mc::choose(4), safe = mc::choose(2);
	mc::split();
	World& w = world(layout, safe, k % 2);
	const double d = mc::pick({ 0.002, 0.005, 0.009, 0.02, 0.06, 0.11, 0.3 }), a = mc::choose(mc::thorough() ? 24 : 12) * M_PI / (mc::thorough() ? 12 : 6) + 0.13;
	auto [ox, oy] = layouts[layout][mc::choose((int)layouts[layout].size())];
	Point2d o = w.map->GridCellToWorldPosition(w.map->WorldPositionToGridCell(at(w, ox, oy).position));
	const int n = 7, which = 2 + mc::choose(3);
	Path_ p;
	for (int i = 0; i < n; i++)
		p.push_back(Pose2d(o.x() + d * std::cos(a) + 0.31 * (i - which), o.y() + d * std::sin(a) + 0.07 * (i - which), 0.2));
	mc::note(mc::Str() << "obstacles " << layout << " parameters " << k << " point " << which << " at " << d << " of a cell, bearing " << a);
	w.steps(p, {}, params(k, 0.5f), 2);
}
// Complete optimisations: they converge, and do not depend on what was smoothed before.
MC_SCENARIO(C19, complete, 0)
{
	int layout = mc::choose(5), safe = mc::choose(2), bend = mc::choose(3), k = mc::choose(2), n = mc::pick({ 1, 3, 4, 5, 6, 9, 14 });
	mc::split();
	World& w = world(layout, safe, 0);
	Path_ p;
	for (int i = 0; i < n; i++) {
		double u = n > 1 ? i / (n - 1.0) : 0;
		double y = bend == 0 ? 0.4 * (i % 2) : bend == 1 ? 2 * u * (1 - u) : (u < 0.5 ? 0 : 0.8);
		p.push_back(at(w, -3 + 6 * u, y - 0.3, u));
	}
	mc::note(mc::Str() << "obstacles " << layout << " bend " << bend << " points " << n << " parameters " << k);
	auto prm = params(k, 0.5f);
	auto st = w.run(p, {}, prm, mc::thorough() ? 2000 : 400);
	Path_ first = w.smoother.GetPath();
	w.general("smoothing", st, p, first, {});
	// Again after another path
	Path_ q(p.rbegin(), p.rend());
	w.run(q, { 0, 3 }, params(3, 0.2f), 3);
	auto st2 = w.run(p, {}, prm, mc::thorough() ? 2000 : 400);
	MC_CHECK(st2 == st && w.smoother.GetPath().size() == first.size(), "smoothing the same path twice gives another status");
	for (size_t i = 0; i < first.size(); i++)
		MC_CHECK(w.smoother.GetPath()[i].position == first[i].position, "smoothing the same path twice gives another path");
	// Fewer iterations or an immediate stop
	if (n >= 5) {
		auto loose = prm;
		loose.stepTolerance = 1e6f;
		auto st3 = w.run(p, {}, loose, 10);
		MC_CHECK(st3 == Smoother::Status::StepTolerance || st3 < 0, "the optimisation does not stop at a small step");
	}
	mc::outcome(st + 10);
	mc::transition();
}
// Without initialisation nothing is smoothed.
MC_SCENARIO(C19, uninitialised, 0)
{
	Smoother s;
	World& w = world(0, 0, 0);
	Path_ p(mc::choose(8), Pose2d(0.0, 0.0, 0.0));
	MC_CHECK(s.Smooth(p) < 0, "a smoother that is not initialised succeeds");
	MC_CHECK(!s.Initialize(nullptr, w.gvd, 1.0f) && !s.Initialize(w.val, nullptr, 1.0f), "the initialisation succeeds without validator or diagram");
	MC_CHECK(s.Smooth(p) < 0, "a smoother that is not initialised succeeds");
	MC_CHECK(s.Initialize(w.val, w.gvd, 1.0f) && s.GetParameters().maxCurvature == 1.0f, "the initialisation fails");
	MC_CHECK(!s.Initialize(nullptr, w.gvd, 1.0f) && s.Smooth(p) < 0, "a smoother whose initialisation fails succeeds");
	mc::transition();
}
// Long paths with cusps at regular intervals; late iterations follow the gradient as the first ones do.
MC_SCENARIO(C19, long, 0)
{
	int layout = mc::choose(5), k = mc::choose(4), n = mc::pick({ 20, 33, 70, 150 });
	mc::split();
	int every = mc::pick({ 0, 3, 7, 16 }), shape = mc::choose(3), late = mc::pick({ 0, 1, 12, 51, 101 });
	World& w = world(layout, 0, k % 2);
	Path_ p;
	Cusps c;
	for (int i = 0; i < n; i++) {
		double u = i / (n - 1.0);
		if (shape == 0)
			p.push_back(at(w, -4.5 + 9 * u, 0.5 * std::sin(9 * u) - 0.2, u));
		else if (shape == 1)
			p.push_back(at(w, (1 + 2.2 * u) * std::cos(12 * u), (1 + 2.2 * u) * std::sin(12 * u), u));
		else
			p.push_back(at(w, -4 + 8 * std::abs(std::fmod(3 * u, 2) - 1), -3 + 6 * u + 0.1 * (i % 2), u));
		if (every && i % every == every - 1)
			c.insert(i);
	}
	mc::note(mc::Str() << "obstacles " << layout << " parameters " << k << " points " << n << " cusps every " << every << " shape " << shape << " after " << late << " iterations");
	auto prm = params(k, 0.5f);
	prm.stepTolerance = 1e-12f;
	auto st = w.run(p, c, prm, late);
	Path_ before = w.smoother.GetPath();
	w.general("before", st, p, before, c);
	st = w.run(p, c, prm, late + 1);
	Path_ now = w.smoother.GetPath();
	w.general("after", st, p, now, c);
	// The smoother computes in single precision the turns between close points
	double close = 1e9;
	for (int i = 1; i < n; i++)
		close = std::min(close, (before[i].position - before[i - 1].position).norm());
	if (close > 0.25)
		w.step(before, now, p, c, prm);
	mc::outcome(st + 10);
	mc::transition();
}
// The optimisation goes on while its steps are large and ends when they are small.
MC_SCENARIO(C19, tolerance, 0)
{
	int layout = mc::choose(5), k = mc::choose(4), shape = mc::choose(3);
	mc::split();
	int n = mc::thorough() ? mc::pick({ 5, 7, 12, 25 }) : mc::pick({ 5, 12 }), cusp = mc::choose(3);
	auto prm = params(k, 0.5f);
	prm.stepTolerance = mc::pick({ 1e-1f, 2e-2f, 3e-3f });
	World& w = world(layout, 0, k % 2);
	Path_ p;
	for (int i = 0; i < n; i++) {
		double u = i / (n - 1.0);
		// bent at the start, at the end, or everywhere
		double y = shape == 0 ? (u < 0.4 ? 0.35 * (i % 2) : 0) : shape == 1 ? (u > 0.6 ? 0.35 * (i % 2) : 0) : 1.2 * std::sin(5 * u);
		p.push_back(at(w, -3 + 6 * u, y - 0.3, u));
	}
	Cusps c;
	if (cusp)
		c.insert(cusp == 1 ? n / 3 : n - 3);
	mc::note(mc::Str() << "obstacles " << layout << " parameters " << k << " points " << n << " shape " << shape << " cusp " << cusp << " tolerance " << prm.stepTolerance);
	const int limit = mc::thorough() ? 1500 : 250;
	auto st = w.run(p, c, prm, limit);
	mc::outcome(st + 10);
	mc::transition();
	w.general("smoothing", st, p, w.smoother.GetPath(), c);
	auto moved = [&](const Path_& a, const Path_& b) {
		double d = 0;
		for (int i = 0; i < n; i++)
			d = std::max(d, (a[i].position - b[i].position).norm());
		return d;
	};
	auto after = [&](int it) {
		w.run(p, c, prm, it);
		return w.smoother.GetPath();
	};
	// Number of iterations done: the path does not change with a larger limit
	const Path_ last = after(limit);
	int lo = 0, hi = limit;
	while (lo < hi) {
		int mid = (lo + hi) / 2;
		if (moved(after(mid), last) == 0 && moved(after(mid + 1), last) == 0 && moved(after(mid + 7), last) == 0)
			hi = mid;
		else
			lo = mid + 1;
	}
	const double lr = prm.learningRate;
	if (lo == 0)
		return; // nothing moves
	if (lo == limit) {
		MC_CHECK(st == Smoother::Status::MaxIteration || st < 0, "status " << st << " after as many iterations as allowed");
		return;
	}
	// A path is not invalid because of its steps: the failure is decided on the result
	MC_CHECK(st == Smoother::Status::StepTolerance || st < 0, "status " << st << " after " << lo << " of " << limit << " iterations");
	const Path_ before = after(lo - 1);
	double m = moved(before, last);
	MC_CHECK(m <= prm.stepTolerance * std::max(1.0, lr) * 1.001, "the optimisation ends after a step of " << m << ", tolerance " << prm.stepTolerance);
	if (lo >= 2) {
		double m2 = moved(after(lo - 2), before);
		MC_CHECK(m2 >= prm.stepTolerance * std::min(1.0, lr) * 0.99, "the optimisation goes on after a step of " << m2 << ", tolerance " << prm.stepTolerance << ", learning rate " << lr);
	}
	mc::state(mc::mixd(lo, m));
}

// A map of 132 x 110 m: obstacles near, at and beyond the range of the Voronoi field, paths of hundreds of points.
MC_SCENARIO(C19, wide, 0)
{
	const std::vector<std::vector<std::pair<double, double>>> where = {
		{ { -5.5, 0.2 }, { 5.4, 0.3 } }, { { -5.5, -4.5 }, { -5.4, 4.4 }, { 5.5, 0.1 } }, { { 0.1, 4.6 }, { 0.2, -4.7 } }, { { -3.1, 0.3 }, { 2.2, 0.6 } }
	};
	int layout = mc::choose((int)where.size()), k = mc::choose(3);
	mc::split();
	int n = mc::pick({ 9, 300, 500 }), shape = mc::choose(3), shift = mc::choose(mc::thorough() ? 20 : 5);
	static std::map<int, Scope<World>> all;
	auto& w = all[layout];
	if (!w)
		w = makeScope<World>(1.0f, where[layout], Point2d(3, -40), 1.5f, 0.5f, 11.0);
	Path_ p;
	Cusps c;
	for (int i = 0; i < n; i++) {
		double u = i / (n - 1.0), t = 40 * u;
		double x = shape == 0 ? -55 + 110 * u : shape == 1 ? (5 + 40 * u) * std::cos(t) : -50 + 100 * std::abs(std::fmod(5 * u, 2) - 1);
		double y = shape == 0 ? 14 * std::sin(7 * u) : shape == 1 ? (5 + 40 * u) * std::sin(t) : -45 + 90 * u + 0.2 * (i % 2);
		p.push_back(at(*w, x + 0.37 * shift, y - 0.29 * shift, u));
		if (n > 100 && i % 61 == 60)
			c.insert(i);
	}
	mc::note(mc::Str() << "obstacles " << layout << " parameters " << k << " points " << n << " shape " << shape << " shift " << shift);
	auto prm = params(k, 0.5f);
	// The curvature of close points is checked elsewhere
	if (n > 100)
		prm.curvatureWeight = 0;
	prm.voronoiWeight = 20 * prm.voronoiWeight;
	w->steps(p, c, prm, 1);
	mc::transition();
}
