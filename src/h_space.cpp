// C21: bounds and sampling of the state spaces, under every random draw.
#include "mc.h"
#include "core/base.h"
#include "state_space/state_space_r2.h"
#include "state_space/state_space_se2.h"
#include "utils/random.h"
using namespace Planner;

namespace {
	const double LB[] = { 0, -1, -0.1, -5.3, 1e6, -1e-7, -M_PI, 0.1 };
	const double UB[] = { 1, 1, 0.3, 7.7, 1e6 + 0.1, 1e-9, M_PI, 0.1 };
	constexpr int numBounds = 8;
	/// Draws of the random engine: both ends of the range, and values in between.
	const uint64_t draws[] = { 0, 1, ~0ull, ~0ull - 1, ~0ull << 11, 1ull << 63, (1ull << 63) - 1, 0x123456789abcdef0ull, 0xfedcba9876543210ull, 3ull << 61 };
	constexpr int numDraws = 10;
	template <typename Get>
	void inBounds(const char* what, int n, Get get)
	{
		for (int i = 0; i < n; i++) {
			auto [v, lo, hi] = get(i);
			MC_CHECK(v >= lo && v <= hi, what << ": coordinate " << i << " is " << v << " outside of [" << lo << ", " << hi << "] by " << std::max(lo - v, v - hi));
		}
	}
	struct V {
		double v, lo, hi;
	};
	void feed(const std::vector<int>& seq)
	{
		auto pos = std::make_shared<size_t>(0);
		mc::setRandomSource([seq, pos]() { return draws[seq[(*pos)++ % seq.size()]]; });
	}
}

// Uniform samples are within the bounds and cover them from end to end.
MC_SCENARIO(C21, uniform, 0)
{
	int a = mc::choose(numBounds);
	mc::split();
	int b = mc::choose(numBounds);
	std::vector<int> seq = { mc::choose(numDraws), mc::choose(numDraws) };
	if (mc::thorough())
		seq.push_back(mc::choose(numDraws));
	mc::note(mc::Str() << "bounds [" << LB[a] << "," << UB[a] << "]x[" << LB[b] << "," << UB[b] << "] draws " << seq[0] << "," << seq[1]);
	StateSpaceR2 r2(Point2d(LB[a], LB[b]), Point2d(UB[a], UB[b]));
	feed(seq);
	Point2d p = r2.SampleUniform();
	inBounds("uniform sample of the plane", 2, [&](int i) { return V { p[i], i ? LB[b] : LB[a], i ? UB[b] : UB[a] }; });
	MC_CHECK(r2.ValidateBounds(p), "a uniform sample of the plane is not within the bounds");
	// both ends
	auto range = [&](double v, int k, double lo, double hi, const char* what) {
		double tol = 1e-9 * (hi - lo) + 1e-12 * std::abs(hi);
		if (draws[k] < 2)
			MC_CHECK(v <= lo + tol || v >= hi - tol, what << ": the smallest draw gives " << v << " in the middle of [" << lo << ", " << hi << "]");
		if (draws[k] >= (~0ull << 11))
			MC_CHECK(v <= lo + tol || v >= hi - tol, what << ": the largest draw gives " << v << " in the middle of [" << lo << ", " << hi << "]");
		if (draws[k] == 1ull << 63)
			MC_CHECK(std::abs(v - (lo + hi) / 2) <= tol, what << ": the middle draw gives " << v << " instead of the middle of [" << lo << ", " << hi << "]");
	};
	if (seq[0] == seq[1]) { // whatever the order in which the coordinates are drawn
		range(p.x(), seq[0], LB[a], UB[a], "x");
		range(p.y(), seq[0], LB[b], UB[b], "y");
	}
	Pose2d lo, hi;
	lo.position = { LB[a], LB[b] };
	hi.position = { UB[a], UB[b] };
	lo.theta = LB[(a + b) % numBounds];
	hi.theta = UB[(a + b) % numBounds];
	StateSpaceSE2 se2(lo, hi);
	feed(seq);
	Pose2d q = se2.SampleUniform();
	inBounds("uniform sample of SE2", 3, [&](int i) { return i == 2 ? V { q.theta, lo.theta, hi.theta } : V { q.position[i], lo.position[i], hi.position[i] }; });
	MC_CHECK(se2.ValidateBounds(q), "a uniform sample of SE2 is not within the bounds");
	if (seq[0] == seq[1])
		range(q.theta, seq[0], lo.theta, hi.theta, "theta");
	// Several samples
	StateSpace<Point2d, 2, double>& base = r2;
	StateSpace<Pose2d, 3, double>& bases = se2;
	feed(seq);
	for (unsigned n : { 0u, 1u, 3u }) {
		auto v = base.SampleUniform(n);
		auto w = bases.SampleUniform(n);
		MC_CHECK(v.size() == n && w.size() == n, v.size() << " samples returned out of " << n);
		for (auto& s : v)
			MC_CHECK(r2.ValidateBounds(s), "one of several samples is not within the bounds");
		for (auto& s : w)
			MC_CHECK(se2.ValidateBounds(s), "one of several samples is not within the bounds");
	}
	mc::transition();
	mc::state(mc::mixd(mc::mixd(mc::mixd(a, p.x()), p.y()), q.theta));
	mc::setRandomSource(nullptr);
}
// Gaussian samples are brought back within the bounds, and are the mean without deviation.
MC_SCENARIO(C21, gaussian, 0)
{
	int a = mc::choose(numBounds);
	mc::split();
	int b = (a * 3 + 1 + mc::choose(2)) % numBounds, m = mc::choose(4), s = mc::choose(4);
	std::vector<int> seq;
	for (int i = 0; i < 3; i++)
		seq.push_back(5 + mc::choose(5)); // the polar method rejects the extreme draws
	seq.push_back(5);
	seq.push_back(9);
	seq.push_back(7);
	const double dev[] = { 0, 1e-3, 1, 1e5 }, mean[] = { 0, 0.5, -30, 1e6 };
	Pose2d lo, hi, mu, sd;
	lo.position = { LB[a], LB[b] };
	hi.position = { UB[a], UB[b] };
	lo.theta = LB[(a + b) % numBounds];
	hi.theta = UB[(a + b) % numBounds];
	mu.position = { mean[m], mean[(m + 1) % 4] };
	mu.theta = mean[(m + 2) % 4];
	sd.position = { dev[s], dev[s] };
	sd.theta = dev[s];
	mc::note(mc::Str() << "bounds " << a << "," << b << " mean " << m << " deviation " << dev[s]);
	StateSpaceR2 r2(lo.position, hi.position);
	StateSpaceSE2 se2(lo, hi);
	feed(seq);
	auto clamp = [](double v, double l, double h) { return std::min(std::max(v, l), h); };
	Point2d p = r2.SampleGaussian(mu.position, sd.position);
	Pose2d q = se2.SampleGaussian(mu, sd);
	MC_CHECK(r2.ValidateBounds(p) && se2.ValidateBounds(q), "a Gaussian sample is not within the bounds");
	if (dev[s] == 0) {
		for (int i = 0; i < 2; i++)
			MC_CHECK(p[i] == clamp(mu.position[i], lo.position[i], hi.position[i]) && q.position[i] == p[i], "without deviation the sample is not the mean");
		MC_CHECK(q.theta == clamp(mu.theta, lo.theta, hi.theta), "without deviation the heading is not the mean");
	}
	for (unsigned n : { 0u, 1u, 4u }) {
		auto v = static_cast<StateSpace<Point2d, 2, double>&>(r2).SampleGaussian(mu.position, sd.position, n);
		auto w = static_cast<StateSpace<Pose2d, 3, double>&>(se2).SampleGaussian(mu, sd, n);
		MC_CHECK(v.size() == n && w.size() == n, v.size() << " samples returned out of " << n);
		for (auto& x : v)
			MC_CHECK(r2.ValidateBounds(x), "one of several samples is not within the bounds");
		for (auto& x : w)
			MC_CHECK(se2.ValidateBounds(x), "one of several samples is not within the bounds");
	}
	mc::transition();
	mc::state(mc::mixd(mc::mixd(mc::mixd(a, p.x()), p.y()), q.theta));
	mc::setRandomSource(nullptr);
}
// Validation and enforcement of the bounds.
MC_SCENARIO(C21, bounds, 0)
{
	int a = mc::choose(numBounds);
	mc::split();
	int b = mc::choose(numBounds), c = mc::choose(numBounds);
	Pose2d lo, hi;
	lo.position = { LB[a], LB[b] };
	hi.position = { UB[a], UB[b] };
	lo.theta = LB[c];
	hi.theta = UB[c];
	StateSpaceR2 r2(std::array<Point2d, 2> { lo.position, hi.position });
	StateSpaceSE2 se2(std::array<Pose2d, 2> { lo, hi });
	auto at = [](double l, double h, int k) {
		switch (k) {
		case 0: return std::nextafter(l, -1e300);
		case 1: return l;
		case 2: return (l + h) / 2;
		case 3: return h;
		case 4: return std::nextafter(h, 1e300);
		case 5: return l - 10;
		default: return h + 1e9;
		}
	};
	int i = mc::choose(7), j = mc::choose(7), k = mc::choose(7);
	Pose2d p;
	p.position = { at(LB[a], UB[a], i), at(LB[b], UB[b], j) };
	p.theta = at(LB[c], UB[c], k);
	mc::note(mc::Str() << "state (" << p.x() << "," << p.y() << "," << p.theta << ") bounds " << a << "," << b << "," << c);
	auto in = [](double v, double l, double h) { return v >= l && v <= h; };
	bool ok2 = in(p.x(), LB[a], UB[a]) && in(p.y(), LB[b], UB[b]), ok3 = ok2 && in(p.theta, LB[c], UB[c]);
	MC_CHECK(r2.ValidateBounds(p.position) == ok2, "the validation of a point is wrong");
	MC_CHECK(se2.ValidateBounds(p) == ok3, "the validation of a pose is wrong");
	Point2d e = p.position;
	Pose2d f = p;
	r2.EnforceBounds(e);
	se2.EnforceBounds(f);
	auto clamp = [](double v, double l, double h) { return std::min(std::max(v, l), h); };
	MC_CHECK(e.x() == clamp(p.x(), LB[a], UB[a]) && e.y() == clamp(p.y(), LB[b], UB[b]), "the bounds enforced on a point do not give the nearest point");
	MC_CHECK(f.x() == e.x() && f.y() == e.y() && f.theta == clamp(p.theta, LB[c], UB[c]), "the bounds enforced on a pose do not give the nearest pose");
	MC_CHECK(r2.ValidateBounds(e) && se2.ValidateBounds(f), "a state with enforced bounds is not within the bounds");
	MC_CHECK(r2.bounds[0] == lo.position && r2.bounds[1] == hi.position && se2.dimension == 3 && r2.dimension == 2, "the bounds are not the ones given");
	mc::transition();
	mc::state(mc::mixd(mc::mixd(mc::mixd(a, p.x()), p.y()), p.theta));
	mc::outcome(ok2 + 2 * ok3);
}
