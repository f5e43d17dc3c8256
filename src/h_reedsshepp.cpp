// C08: Reeds-Shepp curves.
#include "mc.h"
#include "rs_oracle.h"
#include "core/base.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
using namespace Planner;
using ReedsShepp::PathSegment;
using ReedsShepp::PathWords;
using ReedsShepp::Solver;

namespace {
	rs::Word toWord(const PathSegment& s)
	{
		rs::Word w;
		for (int i = 0; i < s.GetNumMotions(); i++) {
			auto& m = s.GetMotion(i);
			char c = m.steer == Steer::Left ? 'L' : m.steer == Steer::Right ? 'R' : 'S';
			w.push_back({ c, m.direction == Direction::Backward ? -m.length : m.length });
		}
		return w;
	}
	rs::Pose follow(const Pose2d& start, const rs::Word& w, double radius)
	{
		rs::Pose p = { start.x(), start.y(), start.theta };
		for (auto& s : w)
			p = rs::sim(p, s, radius);
		return p;
	}
	std::string str(const rs::Word& w)
	{
		mc::Str s;
		for (auto& k : w)
			s << k.steer << (k.len < 0 ? "b" : "f") << std::abs(k.len) << " ";
		return s;
	}

	void check(const Pose2d& start, const Pose2d& goal, double radius, bool costs, double lenTol = 1e-6)
	{
		// Goal in the frame of the start, normalised
		double dx = (goal.x() - start.x()) / radius, dy = (goal.y() - start.y()) / radius;
		double c = std::cos(start.theta), s = std::sin(start.theta);
		double x = c * dx + s * dy, y = -s * dx + c * dy, phi = rs::wrap(goal.theta - start.theta);
		rs::Candidates ref(x, y, phi);
		MC_CHECK(!ref.words.empty(), "reference without a solution");
		double best = ref.best();

		PathWords word = PathWords::NoPath;
		PathSegment seg = Solver::GetShortestPath(start, goal, radius, &word);
		MC_CHECK(ReedsShepp::IsPathWordValid(word) && seg.GetNumMotions() > 0, "no path is found");
		auto w = toWord(seg);
		for (auto& k : w)
			MC_CHECK(std::isfinite(k.len), "a motion is not finite");
		for (int i = 0; i < seg.GetNumMotions(); i++)
			MC_CHECK(seg.GetMotion(i).length >= -1e-9, "a motion has a negative length");
		auto end = follow(start, w, radius);
		double tol = 1e-5 * radius * (1 + best);
		MC_CHECK(std::hypot(end.x - goal.x(), end.y - goal.y()) < tol && std::abs(rs::wrap(end.t - goal.theta)) < 1e-5,
			"the shortest path " << str(w) << " ends at (" << end.x << "," << end.y << "," << end.t << ") instead of the goal");
		double len = rs::length(w);
		MC_CHECK(std::abs(seg.GetLength(radius) - len * radius) < 1e-6 * radius * (1 + len), "the path " << str(w) << " reports the length " << seg.GetLength(radius));
		MC_CHECK(len <= best + lenTol * (1 + best), "the shortest path " << str(w) << " has length " << len << ", a path of length " << best << " exists");
		double d = Solver::GetShortestDistance(start, goal, radius);
		MC_CHECK(std::abs(d - len * radius) < 1e-6 * radius * (1 + len), "the shortest distance is " << d << " but the shortest path has length " << len * radius);
		double direct = std::hypot(x, y);
		MC_CHECK(len >= direct - 1e-6 * (1 + direct) && len >= std::abs(phi) - 1e-6, "the path is shorter than the straight line");
		// Path object
		PathReedsShepp path(start, seg, radius);
		auto f = path.GetFinalState();
		MC_CHECK(std::hypot(f.x() - goal.x(), f.y() - goal.y()) < tol && std::abs(rs::wrap(f.theta - goal.theta)) < 1e-5, "the final state of the path is not the goal");
		mc::transition();
		mc::state(mc::hashBytes(&word, sizeof word, (uint64_t)(len * 1e6)));
		mc::outcome((uint64_t)word + 1);
		if (!costs)
			return;
		const float params[][3] = { { 1, 1, 0 }, { 3, 1, 0 }, { 1, 1, 5 }, { 2, 0.5f, 1 }, { 1, 2, 0 }, { 1, 3, 0.25f }, { 2, 2, 0 }, { 0.5f, 0.5f, 0 }, { 2, 2, 1 } };
		for (auto& p : params) {
			float rev = p[0], fwd = p[1], sw = p[2];
			PathWords ow = PathWords::NoPath;
			PathSegment os = Solver::GetOptimalPath(start, goal, radius, rev, fwd, sw, &ow);
			MC_CHECK(ReedsShepp::IsPathWordValid(ow) && os.GetNumMotions() > 0, "no optimal path is found");
			auto ww = toWord(os);
			auto e = follow(start, ww, radius);
			MC_CHECK(std::hypot(e.x - goal.x(), e.y - goal.y()) < tol && std::abs(rs::wrap(e.t - goal.theta)) < 1e-5, "the optimal path " << str(ww) << " ends at (" << e.x << "," << e.y << "," << e.t << ") instead of the goal");
			double oc = os.ComputeCost(radius, rev, fwd, sw);
			// Cost of the returned motions
			double rc = 0;
			int prev = 0;
			for (auto& k : ww) {
				int dir = os.GetMotion(&k - &ww[0]).direction == Direction::Forward ? 1 : -1;
				rc += std::abs(k.len) * radius * (dir > 0 ? fwd : rev) + (prev && prev != dir ? sw : 0);
				prev = dir;
			}
			MC_CHECK(std::abs(oc - rc) < 1e-4 * (1 + rc), "the cost of " << str(ww) << " is " << oc << " instead of " << rc << " (reverse " << rev << ", forward " << fwd << ", switch " << sw << ")");
			double bc = ref.bestCost(radius, rev, fwd, sw);
			MC_CHECK(oc <= bc + 1e-4 * (1 + bc), "the optimal path " << str(ww) << " costs " << oc << ", a path of cost " << bc << " exists (reverse " << rev << ", forward " << fwd << ", switch " << sw << ")");
			double sc = seg.ComputeCost(radius, rev, fwd, sw);
			MC_CHECK(oc <= sc + 1e-4 * (1 + sc), "the optimal path costs " << oc << ", the shortest path costs " << sc);
			PathReedsShepp op(start, os, radius);
			MC_CHECK(std::abs(op.ComputeCost(sw, rev, fwd) - oc) < 1e-4 * (1 + oc), "the path and its segment have different costs");
			mc::transition();
		}
	}
	std::string desc(const Pose2d& a, const Pose2d& b, double r)
	{
		return mc::Str() << "from (" << a.x() << "," << a.y() << "," << a.theta << ") to (" << b.x() << "," << b.y() << "," << b.theta << ") radius " << r;
	}
}

// Goals on a lattice around the origin (generic positions).
MC_SCENARIO(C08, lattice, 0)
{
	const int N = mc::thorough() ? 81 : 45, T = mc::thorough() ? 96 : 40;
	int i = mc::choose(N);
	mc::split();
	int j = mc::choose(N), k = mc::choose(T);
	double step = 10.0 / (N - 1);
	Pose2d start(0, 0, 0), goal(-5 + step * i + 0.0137, -5 + step * j - 0.0071, -M_PI + (k + 0.41) * 2 * M_PI / T);
	mc::note(desc(start, goal, 1));
	check(start, goal, 1, true);
}
// Exactly aligned goals (the boundaries between the words), start poses anywhere.
MC_SCENARIO(C08, aligned, 0)
{
	const int M = 9;
	int i = mc::choose(M);
	mc::split();
	int j = mc::choose(M), k = mc::choose(8), a = mc::choose(6), r = mc::choose(3);
	double radius = r == 0 ? 1 : r == 1 ? 2.5 : 0.4;
	const double angles[] = { 0, M_PI / 2, M_PI, 0.3, -2.2, -M_PI / 4 };
	double theta = angles[a];
	// relative goal, exact multiples of the radius
	double gx = (i - 4) * radius, gy = (j - 4) * radius, gt = (k - 4) * M_PI / 4;
	Pose2d start(a * 1.7 - 3, 2 - a * 0.9, theta);
	Pose2d goal(start.x() + std::cos(theta) * gx - std::sin(theta) * gy, start.y() + std::sin(theta) * gx + std::cos(theta) * gy, theta + gt);
	mc::note(desc(start, goal, radius));
	check(start, goal, radius, true);
}
// Tiny displacements.
MC_SCENARIO(C08, tiny, 0)
{
	const double v[] = { 0, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3, 0.05, -0.05 };
	int i = mc::choose(9);
	mc::split();
	double x = v[i], y = mc::pick({ 0.0, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3, 0.05, -0.05 }), t = mc::pick({ 0.0, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3, 0.05, -0.05 });
	double a = mc::pick({ 0.0, 1.1, -2.9, M_PI });
	Pose2d start(0.3, -0.2, a);
	Pose2d goal(start.x() + std::cos(a) * x - std::sin(a) * y, start.y() + std::sin(a) * x + std::cos(a) * y, a + t);
	mc::note(desc(start, goal, 1));
	check(start, goal, 1, false, 2e-3);
}
// Goals from near to far, for large and small radii, starting away from the origin.
MC_SCENARIO(C08, far, 0)
{
	const double ranges[] = { 0.3, 1.9, 4.2, 7, 13, 40, 150, 1000 };
	double range = ranges[mc::choose(8)], radius = mc::pick({ 0.03, 1.0, 6.0, 75.0 });
	mc::split();
	const int D = mc::thorough() ? 96 : 36, T = mc::thorough() ? 48 : 20;
	int i = mc::choose(D), k = mc::choose(T), a = mc::choose(3);
	double dir = (i + (a == 1 ? 0.37 : 0)) * 2 * M_PI / D, th = -M_PI + (k + (a == 1 ? 0.61 : 0)) * 2 * M_PI / T;
	Pose2d start(a == 2 ? 512.25 : 0, a == 2 ? -333.5 : 0, a * 1.3);
	double lx = range * radius * std::cos(dir), ly = range * radius * std::sin(dir);
	Pose2d goal(start.x() + std::cos(start.theta) * lx - std::sin(start.theta) * ly, start.y() + std::sin(start.theta) * lx + std::cos(start.theta) * ly, start.theta + th);
	mc::note(desc(start, goal, radius));
	check(start, goal, radius, true);
}
// Goals a little off the aligned ones, in position or in heading.
MC_SCENARIO(C08, nearly, 0)
{
	const int M = 7;
	int i = mc::choose(M), j = mc::choose(M);
	mc::split();
	int k = mc::choose(4);
	const double eps[] = { 6e-5, -6e-5, 8e-4, -8e-4, 2e-2, -2e-2 };
	double e = eps[mc::choose(6)];
	int what = mc::choose(3);
	double radius = mc::pick({ 1.0, 6.0 });
	double gx = (i - 3 + (what == 0 ? e : 0)) * radius, gy = (j - 3 + (what == 1 ? e : 0)) * radius, gt = k * M_PI / 2 + (what == 2 ? e : 0);
	Pose2d start(0, 0, 0), goal(gx, gy, gt);
	mc::note(desc(start, goal, radius));
	check(start, goal, radius, true, i == 3 && j == 3 ? 2e-3 : 1e-6);
}
// Goals just before and after the distances between the turning circles at which words come and go.
MC_SCENARIO(C08, thresholds, 0)
{
	const double U[] = { 0.02, 1, 1.9, 1.999, 2.001, 2.03, 2.09, 2.3, 3.9, 3.999, 4.001, 4.1, 4.43, 4.471, 4.473, 4.6, 5.9 };
	double u1 = U[mc::choose(17)];
	mc::split();
	const int D = mc::thorough() ? 120 : 36, T = mc::thorough() ? 120 : 36;
	double phi = (mc::choose(D) + 0.23) * 2 * M_PI / D, th = -M_PI + (mc::choose(T) + 0.47) * 2 * M_PI / T;
	double s = mc::choose(2) ? 1 : -1;
	Pose2d start(0, 0, 0), goal(u1 * std::cos(phi) + s * std::sin(th), u1 * std::sin(phi) + 1 - s * std::cos(th), th);
	mc::note(desc(start, goal, 1));
	check(start, goal, 1, true);
}
