// C09: laws of the paths (interpolation, length, truncation, direction, cusps).
#include "mc.h"
#include "core/base.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_r2.h"
#include "paths/path_se2.h"
#include "paths/path_constant_steer.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_composite.h"
using namespace Planner;

namespace {
	double wrap(double a) { return std::remainder(a, 2 * M_PI); }
	struct S {
		double x, y, t;
	};
	S conv(const Pose2d& p) { return { p.x(), p.y(), p.theta }; }
	S conv(const Point2d& p) { return { p.x(), p.y(), 0 }; }
	double dist(const S& a, const S& b) { return std::hypot(a.x - b.x, a.y - b.y); }
	bool same(const S& a, const S& b, double tol) { return dist(a, b) <= tol && std::abs(wrap(a.t - b.t)) <= tol; }
	std::string str(const S& p) { return mc::Str() << "(" << p.x << "," << p.y << "," << p.t << ")"; }

	constexpr int N = 96;
	/// Samples of a path, and the direction of the motion between them.
	struct Shot {
		double len;
		S init, fin;
		std::vector<S> at;
	};
	template <typename P>
	Shot shoot(const P& path)
	{
		Shot s { path.GetLength(), conv(path.GetInitialState()), conv(path.GetFinalState()), {} };
		for (int i = 0; i <= N; i++)
			s.at.push_back(conv(path.Interpolate((double)i / N)));
		return s;
	}
	/// Laws of one path.
	void lawsOf(const Shot& s, double maxCurvature, bool samples, const char* what)
	{
		double tol = 1e-6 * (1 + s.len);
		MC_CHECK(std::isfinite(s.len) && s.len >= 0, what << " has the length " << s.len);
		MC_CHECK(same(s.at[0], s.init, tol), what << " starts at " << str(s.at[0]) << " but its initial state is " << str(s.init));
		MC_CHECK(same(s.at[N], s.fin, tol), what << " ends at " << str(s.at[N]) << " but its final state is " << str(s.fin));
		// The ratio is proportional to the travelled length, and the heading rate is bounded
		double poly = 0, h = s.len / N;
		for (int i = 0; i < N; i++) {
			double d = dist(s.at[i], s.at[i + 1]);
			MC_CHECK(d <= h * (1 + 1e-6) + 1e-9, what << " jumps by " << d << " at ratio " << (double)i / N << " instead of at most " << h);
			if (maxCurvature >= 0)
				MC_CHECK(std::abs(wrap(s.at[i + 1].t - s.at[i].t)) <= h * maxCurvature * (1 + 1e-6) + 1e-9, what << " turns by " << wrap(s.at[i + 1].t - s.at[i].t) << " over " << h << " at ratio " << (double)i / N);
			poly += d;
		}
		// chords: relative error at most (h k)^2 / 24 per step, plus the steps with a cusp
		double k = std::max(0.0, maxCurvature);
		MC_CHECK(poly >= s.len * (1 - h * k * h * k / 8) - 8 * h - 1e-9 || !samples, what << " travels " << poly << " but its length is " << s.len);
		mc::transition();
	}
	/// Direction and cusps against the motion itself.
	void directions(const PathNonHolonomicSE2Base& p, const char* what)
	{
		double len = p.GetLength();
		if (len < 1e-6)
			return;
		auto cusps = p.GetCuspPointRatios();
		for (double c : cusps)
			MC_CHECK(c >= -1e-9 && c <= 1 + 1e-9, what << " has a cusp at ratio " << c);
		// Direction of the motion around each ratio, from the displacement
		auto moving = [&](double r) {
			double e = std::min(1e-4, 1e-3 / len);
			double a = std::max(0.0, r - e), b = std::min(1.0, r + e);
			S p0 = conv(p.Interpolate(a)), p1 = conv(p.Interpolate(b));
			double t = p0.t + wrap(p1.t - p0.t) / 2;
			double f = (p1.x - p0.x) * std::cos(t) + (p1.y - p0.y) * std::sin(t);
			double d = (b - a) * len;
			if (f > 0.99 * d)
				return 1;
			if (f < -0.99 * d)
				return -1;
			return 0; // across a cusp
		};
		int prev = 0;
		double prevR = 0;
		for (int i = 0; i <= N; i++) {
			double r = (i + 0.0) / N;
			int m = moving(r);
			if (m == 0)
				continue;
			bool nearCusp = false;
			for (double c : cusps)
				nearCusp = nearCusp || std::abs(c - r) < std::max(1e-3 / len, 1e-4);
			Direction d = p.GetDirection(r);
			if (!nearCusp || i == 0 || i == N)
				MC_CHECK(d == (m > 0 ? Direction::Forward : Direction::Backward), what << " moves " << (m > 0 ? "forward" : "backward") << " at ratio " << r << " but reports " << (d == Direction::Forward ? "forward" : d == Direction::Backward ? "backward" : "no motion"));
			if (prev && m != prev) {
				bool found = false;
				for (double c : cusps)
					found = found || (c >= prevR - 1e-6 && c <= r + 1e-6);
				MC_CHECK(found, what << " changes direction between the ratios " << prevR << " and " << r << " without a cusp point");
			}
			prev = m;
			prevR = r;
		}
		// Every cusp point is a change of direction
		for (double c : cusps) {
			double e = std::max(2e-4, 2e-3 / len);
			bool alone = c > 2 * e && c < 1 - 2 * e;
			for (double o : cusps)
				if (o != c && std::abs(o - c) < 4 * e)
					alone = false;
			if (alone) {
				int a = moving(c - e), b = moving(c + e);
				MC_CHECK(a * b < 0 || a == 0 || b == 0, what << " has a cusp point at ratio " << c << " where the direction does not change");
			}
		}
		mc::transition();
	}
	/// Truncation: make() builds a fresh path.
	template <typename Make>
	void truncation(Make make, double maxCurvature, bool nonHolonomic, const char* what)
	{
		auto full = make();
		Shot s0 = shoot(*full);
		double tol = 1e-6 * (1 + s0.len);
		double r = mc::pick({ 0.0, 1e-6, 1e-4, 0.1, 0.37, 0.5, 0.77, 0.93, 1.0 });
		mc::note(mc::Str() << "truncated at " << r);
		auto cut = make();
		cut->Truncate(r);
		Shot s1 = shoot(*cut);
		MC_CHECK(std::abs(s1.len - r * s0.len) <= tol, what << " of length " << s0.len << " truncated at " << r << " has length " << s1.len);
		MC_CHECK(same(s1.init, s0.init, tol), what << " truncated at " << r << " starts elsewhere");
		S at = conv(full->Interpolate(r));
		MC_CHECK(same(s1.fin, at, tol), what << " truncated at " << r << " ends at " << str(s1.fin) << " instead of " << str(at));
		for (int i = 0; i <= N; i++) {
			S e = conv(full->Interpolate(r * i / N));
			MC_CHECK(same(s1.at[i], e, tol), what << " truncated at " << r << " is at " << str(s1.at[i]) << " instead of " << str(e) << " at ratio " << (double)i / N);
		}
		lawsOf(s1, maxCurvature, true, what);
		// A second truncation composes
		auto twice = make();
		twice->Truncate(r);
		twice->Truncate(0.6);
		Shot s2 = shoot(*twice);
		MC_CHECK(std::abs(s2.len - 0.6 * r * s0.len) <= tol && same(s2.fin, conv(full->Interpolate(0.6 * r)), tol), what << " truncated at " << r << " then 0.6 has length " << s2.len);
		if constexpr (std::is_base_of_v<PathNonHolonomicSE2Base, std::decay_t<decltype(*cut)>>) {
			directions(*full, what);
			if (r > 0.05) {
				directions(*cut, "the truncated path");
				directions(*twice, "the path truncated twice");
			}
		}
		std::vector<double> rs = { 0, 0.25, r, 1 };
		auto v = static_cast<const Path<std::decay_t<decltype(full->GetInitialState())>>&>(*full).Interpolate(rs);
		MC_CHECK(v.size() == 4, "interpolating several ratios returns " << v.size() << " states");
		for (size_t i = 0; i < 4; i++)
			MC_CHECK(same(conv(v[i]), conv(full->Interpolate(rs[i])), 1e-12), "interpolating several ratios differs from one by one");
		uint64_t h = mc::mixd(mc::mixd(1, s1.fin.x), s1.fin.y);
		mc::state(mc::mixd(h, s1.len));
		mc::outcome(mc::mixd(0, r));
	}

	const double A[] = { 0, 1.3, -2.4, 6.1 };
	const double T[] = { 0, 0.7, M_PI / 2, 3.1, -3.1, -M_PI, -1.2, -0.05 };

	Ref<PathNonHolonomicSE2Base> piece(int kind, const Pose2d& from, double radius)
	{
		static auto model = makeRef<KinematicBicycleModel>(1.0, 0.0);
		double d = std::atan(1.0 / radius);
		switch (kind) {
		case 0: return makeRef<PathConstantSteer>(model, from, 0.0, 1.7, Direction::Forward);
		case 1: return makeRef<PathConstantSteer>(model, from, d, 2.2, Direction::Forward);
		case 2: return makeRef<PathConstantSteer>(model, from, -d, 1.1, Direction::Backward);
		case 3: return makeRef<PathConstantSteer>(model, from, d / 2, 0.6, Direction::Backward);
		case 4: return makeRef<PathConstantSteer>(model, from, 0.0, 0.0, Direction::Forward);
		default: {
			Pose2d to = from + (kind == 5 ? Pose2d(3.1, 1.2, 0.4) : kind == 6 ? Pose2d(-0.6, 1.4, -2.2) : Pose2d(0.2, 2.3, 0.1));
			auto seg = ReedsShepp::Solver::GetShortestPath(from, to, radius);
			return makeRef<PathReedsShepp>(from, seg, radius);
		}
		}
	}
	Ref<PathSE2CompositeNonHolonomic> composite(const std::vector<int>& kinds, double radius)
	{
		auto c = makeRef<PathSE2CompositeNonHolonomic>();
		Pose2d p(1.0, -2.0, 0.3);
		for (int k : kinds) {
			auto s = piece(k, p, radius);
			c->PushBack(s);
			p = s->GetFinalState();
		}
		MC_CHECK(c->Size() == kinds.size(), "the composite path has " << c->Size() << " pieces");
		return c;
	}
}

MC_SCENARIO(C09, straight, 0)
{
	int i = mc::choose(16);
	mc::split();
	int j = mc::choose(16), t0 = mc::choose(8), t1 = mc::choose(3);
	Pose2d a(A[i % 4], A[i / 4], T[t0]), b(A[j % 4], A[j / 4], T[(t0 + 1 + t1) % 8]);
	mc::note(mc::Str() << "from (" << a.x() << "," << a.y() << "," << a.theta << ") to (" << b.x() << "," << b.y() << "," << b.theta << ")");
	if (mc::choose(2)) {
		auto make = [&] { return PathConnectionSE2().Connect(a, b); };
		auto p = make();
		MC_CHECK(same(conv(p->GetInitialState()), conv(a), 1e-9) && same(conv(p->GetFinalState()), conv(b), 1e-9), "the connection does not join the two states");
		MC_CHECK(std::abs(p->GetLength() - dist(conv(a), conv(b))) < 1e-9, "the length of a straight path is not the distance");
		lawsOf(shoot(*p), -1, true, "the straight SE2 path");
		truncation(make, -1, false, "the straight SE2 path");
	} else {
		auto make = [&] { return PathConnectionR2().Connect(a.position, b.position); };
		auto p = make();
		MC_CHECK(p->GetInitialState() == a.position && p->GetFinalState() == b.position, "the connection does not join the two points");
		lawsOf(shoot(*p), -1, true, "the straight R2 path");
		truncation(make, -1, false, "the straight R2 path");
	}
}
MC_SCENARIO(C09, arc, 0)
{
	int t0 = mc::choose(8);
	mc::split();
	double radius = mc::pick({ 1.0, 2.5 });
	double steer = mc::pick({ 0.0, 0.2, -0.2, 1.0, -1.0 }) * std::atan(1.0 / radius);
	double len = mc::pick({ 0.0, 0.4, 3.0, 9.0 });
	Direction dir = mc::choose(2) ? Direction::Forward : Direction::Backward;
	auto model = makeRef<KinematicBicycleModel>(1.0, 0.0);
	Pose2d from(0.4, -3, T[t0]);
	mc::note(mc::Str() << "heading " << T[t0] << " radius " << radius << " steering " << steer << " length " << len << (dir == Direction::Forward ? " forward" : " backward"));
	auto make = [&] { return makeRef<PathConstantSteer>(model, from, steer, len, dir); };
	auto p = make();
	MC_CHECK(p->GetLength() == len && p->GetSteeringAngle() == steer && p->GetDirection(0.3) == dir, "the arc is not the one requested");
	lawsOf(shoot(*p), 1 / radius, true, "the arc");
	truncation(make, 1 / radius, true, "the arc");
}
MC_SCENARIO(C09, reeds_shepp, 0)
{
	const int M = mc::thorough() ? 15 : 9;
	int i = mc::choose(M);
	mc::split();
	int j = mc::choose(M), k = mc::choose(mc::thorough() ? 16 : 8);
	double radius = mc::pick({ 1.0, 2.0 });
	Pose2d from(0.5, 1, 2.0), to(-4 + 8.0 * i / (M - 1) + 0.11, -4 + 8.0 * j / (M - 1) - 0.07, -3 + 0.77 * k);
	float sw = mc::pick({ 0.0f, 2.0f });
	mc::note(mc::Str() << "Reeds-Shepp to (" << to.x() << "," << to.y() << "," << to.theta << ") radius " << radius);
	PathConnectionReedsShepp conn(radius, sw, 1.5, 1.0);
	auto make = [&] { return std::dynamic_pointer_cast<PathReedsShepp>(conn.Connect(from, to)); };
	auto p = make();
	MC_CHECK(p && p->GetMinTurningRadius() == radius, "the connection is not a Reeds-Shepp path");
	MC_CHECK(same(conv(p->GetFinalState()), conv(to), 1e-5), "the connection does not reach the goal");
	lawsOf(shoot(*p), 1 / radius, true, "the Reeds-Shepp path");
	truncation(make, 1 / radius, true, "the Reeds-Shepp path");
	// The cost of a truncated path is that of the motions left
	double r = 0.55;
	auto cut = make();
	cut->Truncate(r);
	double fwd = 0, rev = 0, l = cut->GetLength();
	int n = 2000;
	for (int q = 0; q < n; q++)
		(cut->GetDirection((q + 0.5) / n) == Direction::Forward ? fwd : rev) += l / n;
	double c = cut->ComputeCost(0, 1.5, 1.0), e = fwd + 1.5 * rev;
	MC_CHECK(std::abs(c - e) < 0.01 * (1 + l), "the truncated path costs " << c << " instead of " << e);
	c = cut->ComputeCost(0, 1.0, 1.0);
	MC_CHECK(std::abs(c - l) < 1e-3 * (1 + l), "the truncated path of length " << l << " costs " << c);
}
// Every sequence of pieces.
MC_SCENARIO(C09, composite, 0)
{
	int n = 1 + mc::choose(3);
	int first = mc::choose(8);
	mc::split();
	std::vector<int> kinds = { first };
	for (int i = 1; i < n; i++)
		kinds.push_back(mc::choose(8));
	double radius = 1.3;
	std::string s = "pieces";
	for (int k : kinds)
		s += " " + std::to_string(k);
	mc::note(s);
	auto make = [&] { return composite(kinds, radius); };
	auto p = make();
	double len = 0;
	Pose2d q(1.0, -2.0, 0.3);
	for (int k : kinds) {
		auto pc = piece(k, q, radius);
		len += pc->GetLength();
		q = pc->GetFinalState();
	}
	MC_CHECK(std::abs(p->GetLength() - len) < 1e-9, "the length of the composite path is not the sum");
	MC_CHECK(same(conv(p->GetInitialState()), S { 1.0, -2.0, 0.3 }, 1e-9), "the initial state of the composite path is " << str(conv(p->GetInitialState())));
	MC_CHECK(same(conv(p->GetFinalState()), conv(q), 1e-9), "the final state of the composite path is not that of its last piece");
	lawsOf(shoot(*p), 1 / radius, true, "the composite path");
	truncation(make, 1 / radius, true, "the composite path");
}
// Pieces appended after a truncation.
MC_SCENARIO(C09, append, 0)
{
	int k0 = mc::choose(8);
	mc::split();
	int k1 = mc::choose(8), k2 = mc::choose(8);
	double r = mc::pick({ 0.2, 0.55, 0.8, 1.0 });
	double radius = 1.3;
	mc::note(mc::Str() << "pieces " << k0 << " " << k1 << " truncated at " << r << " then " << k2);
	auto make = [&] {
		auto c = composite({ k0, k1 }, radius);
		c->Truncate(r);
		c->PushBack(piece(k2, c->GetFinalState(), radius));
		return c;
	};
	auto ref = composite({ k0, k1 }, radius);
	double l0 = ref->GetLength() * r, l1 = piece(k2, ref->Interpolate(r), radius)->GetLength();
	auto p = make();
	MC_CHECK(std::abs(p->GetLength() - l0 - l1) < 1e-6 * (1 + l0 + l1), "the length after truncating and appending is " << p->GetLength() << " instead of " << l0 + l1);
	for (int i = 0; i <= N && l0 + l1 > 0; i++) {
		double l = (l0 + l1) * i / N;
		if (l > l0)
			break;
		S e = conv(ref->Interpolate(std::min(1.0, l / ref->GetLength())));
		MC_CHECK(same(conv(p->Interpolate((double)i / N)), e, 1e-6 * (1 + l0 + l1)), "the first part changed after appending a piece");
	}
	lawsOf(shoot(*p), 1 / radius, true, "the composite path");
	if (l0 > 1e-3)
		directions(*p, "the composite path");
	mc::state(mc::mixd(mc::mixd(k2, l0), l1));
}
// Paths made of any sequence of motions, some of them of no length.
MC_SCENARIO(C09, motions, 0)
{
	const double L[] = { 0, 1, 0.6, 2.5 };
	const int n = 1 + mc::choose(mc::thorough() ? 4 : 3);
	const double radius = mc::pick({ 1.0, 2.0 });
	struct M {
		Steer s;
		Direction d;
		double l;
	};
	std::vector<M> ms;
	mc::Str text;
	bool still = false;
	for (int i = 0; i < n; i++) {
		int kinds = n < 3 ? 24 : 12;
		int k = mc::choose(kinds);
		if (i == 0)
			mc::split();
		Direction d = k % 2 ? Direction::Backward : Direction::Forward;
		double l = L[(k / 2 % 2 + (n == 3 ? i == 2 ? 2 : 0 : 0) + (k >= 12 ? 2 : 0)) % 4];
		int st = kinds == 24 ? k / 4 % 3 : k / 4;
		ms.push_back({ st == 0 ? Steer::Left : st == 1 ? Steer::Straight : Steer::Right, d, l });
		text << "LSR"[st] << (k % 2 ? "-" : "+") << l << " ";
		still = still || l == 0;
	}
	mc::note(mc::Str() << "motions " << (std::string)text << "radius " << radius);
	Pose2d from(0.5, 1, 2.0);
	auto make = [&] {
		ReedsShepp::PathSegment seg;
		for (auto& m : ms)
			seg.AddMotion(m.s, m.d, m.l);
		return makeRef<PathReedsShepp>(from, seg, radius);
	};
	auto p = make();
	double len = 0;
	S at = conv(from);
	for (auto& m : ms) {
		double l = m.l * radius, v = m.d == Direction::Forward ? l : -l, k = m.s == Steer::Left ? 1 / radius : m.s == Steer::Right ? -1 / radius : 0;
		if (k == 0) {
			at.x += v * std::cos(at.t);
			at.y += v * std::sin(at.t);
		} else {
			at.x += (std::sin(at.t + k * v) - std::sin(at.t)) / k;
			at.y -= (std::cos(at.t + k * v) - std::cos(at.t)) / k;
			at.t += k * v;
		}
		len += l;
	}
	MC_CHECK(std::abs(p->GetLength() - len) < 1e-9, "the path has length " << p->GetLength() << " instead of " << len);
	MC_CHECK(same(conv(p->GetFinalState()), at, 1e-9), "the path ends at " << str(conv(p->GetFinalState())) << " instead of " << str(at));
	lawsOf(shoot(*p), 1 / radius, true, "the path");
	truncation(make, 1 / radius, true, "the path");
	if (!still) {
		double cost = 0;
		for (size_t i = 0; i < ms.size(); i++)
			cost += ms[i].l * radius * (ms[i].d == Direction::Forward ? 1.25 : 1.5) + (i && ms[i].d != ms[i - 1].d ? 0.75 : 0);
		MC_CHECK(std::abs(p->ComputeCost(0.75, 1.5, 1.25) - cost) < 1e-4 * (1 + cost), "the path costs " << p->ComputeCost(0.75, 1.5, 1.25) << " instead of " << cost);
	}
}
