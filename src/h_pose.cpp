// C10: algebra of the poses and kinematic bicycle model.
#include "mc.h"
#include "core/base.h"
#include "geometry/2dplane.h"
#include "utils/maths.h"
#include "models/kinematic_bicycle_model.h"
#include <new>
using namespace Planner;

namespace {
	double wrap(double a) { return std::remainder(a, 2 * M_PI); }
	bool samePose(const Pose2d& a, const Pose2d& b, double tol)
	{
		return std::abs(a.x() - b.x()) <= tol && std::abs(a.y() - b.y()) <= tol && std::abs(wrap(a.theta - b.theta)) <= tol;
	}
	std::string str(const Pose2d& p) { return mc::Str() << "(" << p.x() << "," << p.y() << "," << p.theta << ")"; }
	void wrapped(const Pose2d& p, const char* what)
	{
		MC_CHECK(p.theta >= -M_PI && p.theta <= M_PI, what << " has the heading " << p.theta << " outside of [-pi, pi]");
	}
	const double X[] = { 0, 1, -2.5, 1e3, -3e5, 1e-7 };
	const double Y[] = { 0, -1, 0.3, -77.7 };
	const double T[] = { 0, 0.1, -0.1, M_PI / 2, -M_PI / 2, M_PI, -M_PI, 3.0, -3.0, 2.0, -2.0, 7.0, -9.5, 20 * M_PI + 0.3 };
	Pose2d pose(int i) { return Pose2d(X[i % 6], Y[(i / 6) % 4], T[i / 24]); }
	constexpr int numPoses = 24 * 14;
}

MC_SCENARIO(C10, pairs, 0)
{
	int i = mc::choose(numPoses);
	mc::split();
	int j = mc::choose(numPoses);
	Pose2d a = pose(i), b = pose(j);
	mc::note("a=" + str(a) + " b=" + str(b));
	MC_CHECK(std::abs(wrap(a.theta - T[i / 24])) < 1e-9, "the heading " << T[i / 24] << " became " << a.theta);
	wrapped(a, "a pose");
	double tol = 1e-9 * (1 + a.position.norm() + b.position.norm());
	Pose2d s = a + b, d = a - b, zero(0, 0, 0);
	wrapped(s, "a sum");
	wrapped(d, "a difference");
	// Reference composition
	Pose2d ref(a.x() + std::cos(a.theta) * b.x() - std::sin(a.theta) * b.y(), a.y() + std::sin(a.theta) * b.x() + std::cos(a.theta) * b.y(), a.theta + b.theta);
	MC_CHECK(samePose(s, ref, tol), "a + b = " << str(s) << " instead of " << str(ref));
	MC_CHECK(samePose(b + d, a, tol), "b + (a - b) = " << str(b + d) << " instead of a");
	MC_CHECK(samePose(s - a, b, tol), "(a + b) - a = " << str(s - a) << " instead of b");
	MC_CHECK(samePose(a + zero, a, tol) && samePose(zero + a, a, tol) && samePose(a - a, zero, tol), "the origin is not neutral for " << str(a));
	MC_CHECK((a == b) == (a.x() == b.x() && a.y() == b.y() && a.theta == b.theta) && (a != b) == !(a == b), "equality of " << str(a) << " and " << str(b));
	std::equal_to<Pose2d> eq;
	std::hash<Pose2d> h;
	if (eq(a, b))
		MC_CHECK(h(a) == h(b), "equal poses have different hashes");
	MC_CHECK(eq(a, a) && (a == b ? eq(a, b) : true) && eq(a, b) == eq(b, a), "the equality of poses is not an equivalence");
	if (a.position != b.position)
		MC_CHECK(!eq(a, b), "poses at different positions are equal");
	mc::transition();
	mc::state(h(s));
	for (int k : { 3, 21, 77, 130, 200, 316 }) {
		Pose2d c = pose(k);
		MC_CHECK(samePose((a + b) + c, a + (b + c), tol * (1 + c.position.norm())), "the composition is not associative with c=" << str(c));
	}
}
// Headings that have not been brought back to [-pi, pi]: the bicycle returns such poses, equality and hash must agree on them.
MC_SCENARIO(C10, unwrapped, 0)
{
	int i = mc::choose(14), j = mc::choose(14);
	mc::split();
	int ka = mc::choose(9) - 4, kb = mc::choose(9) - 4;
	double x = mc::pick({ 0.0, -0.0, 2.5 }), x2 = mc::pick({ 0.0, -0.0, 2.5 });
	Pose2d a(x, x2, 0.0), b(x2, x, 0.0);
	a.theta = T[i] + ka * 2 * M_PI;
	b.theta = T[j] + kb * 2 * M_PI;
	mc::note("a=" + str(a) + " b=" + str(b));
	std::equal_to<Pose2d> eq;
	std::hash<Pose2d> h;
	MC_CHECK(!eq(a, b) || h(a) == h(b), "equal poses have different hashes");
	MC_CHECK(!(a == b) || (eq(a, b) && h(a) == h(b)), "equal poses are told apart");
	MC_CHECK(eq(a, b) == eq(b, a) && eq(a, a), "the equality of poses is not an equivalence");
	MC_CHECK(a.x() == b.x() && a.y() == b.y() || !eq(a, b), "poses at different positions are equal");
	MC_CHECK(!eq(a, b) || std::abs(wrap(a.theta - b.theta)) < 1e-9, "poses of different headings are equal");
	Pose2d s = a + b, d = a - b;
	wrapped(s, "a sum");
	wrapped(d, "a difference");
	MC_CHECK(samePose(b + d, a, 1e-8) && samePose(s - a, b, 1e-8), "composition and difference of unwrapped poses");
	std::equal_to<Point2d> peq;
	std::hash<Point2d> ph;
	MC_CHECK(peq(a.position, b.position) == (x == x2) && (x != x2 || ph(a.position) == ph(b.position)), "equality and hash of points");
	mc::transition();
	mc::state(h(a));
}
MC_SCENARIO(C10, wrap, 0)
{
	int k = mc::choose(mc::thorough() ? 20001 : 4001);
	mc::split();
	double t = (k - (mc::thorough() ? 10000 : 2000)) * (mc::thorough() ? 0.005 : 0.025);
	Pose2d p;
	p.position = { 1, 2 };
	p.theta = t;
	double w = p.WrapTheta();
	mc::note(mc::Str() << "angle " << t);
	MC_CHECK(w >= -M_PI && w <= M_PI && std::abs(wrap(w - t)) < 1e-9, "the angle " << t << " is wrapped to " << w);
	MC_CHECK(p.theta == t, "wrapping changes the pose");
	for (double m : { 1.0, 0.3, 2 * M_PI, 7.5 }) {
		double o = Maths::Modulo(t, m);
		MC_CHECK(o >= 0 && o <= m && std::abs(std::remainder(o - t, m)) < 1e-9, t << " modulo " << m << " is " << o);
	}
	mc::state(k);
	mc::transition();
}
// A pose that has not been set is the origin.
MC_SCENARIO(C10, default_pose, 0)
{
	int fill = mc::choose(256);
	mc::split();
	alignas(Pose2d) unsigned char buf[sizeof(Pose2d)];
	memset(buf, fill, sizeof buf);
	asm volatile("" ::: "memory");
	Pose2d* p = new (buf) Pose2d;
	asm volatile("" ::: "memory");
	MC_CHECK(p->x() == 0 && p->y() == 0 && p->theta == 0, "a default pose is " << str(*p));
	mc::state(fill);
	mc::transition();
}
// Motion of the bicycle: closed form, composition, reversal, turning radius.
MC_SCENARIO(C10, bicycle, 0)
{
	double L = mc::pick({ 1.0, 2.6 }), rear = mc::pick({ 0.0, 0.7, 1.3 });
	int ti = mc::choose(14);
	mc::split();
	const double steer[] = { 0, 1e-12, -1e-12, 1e-6, -1e-6, 0.05, -0.05, 0.3, -0.3, 0.9, -0.9, 1.4, -1.4 };
	double delta = steer[mc::choose(13)];
	double dist = mc::pick({ 0.0, 0.01, 0.5, 3.0, 20.0 });
	bool back = mc::choose(2);
	Direction dir = back ? Direction::Backward : Direction::Forward;
	KinematicBicycleModel m(L, rear);
	Pose2d from(1.5, -0.7, T[ti]);
	mc::note(mc::Str() << "wheelbase " << L << " rear " << rear << " steering " << delta << " distance " << dist << (back ? " backward" : " forward") << " heading " << from.theta);
	Pose2d to = m.ConstantSteer(from, delta, dist, dir);
	// Reference: the rear axle follows an arc, the point is rigidly attached to it.
	double sd = back ? -dist : dist;
	double rx = from.x() - rear * std::cos(from.theta), ry = from.y() - rear * std::sin(from.theta);
	double k = std::tan(delta) / L, t1 = from.theta + sd * k;
	double ex, ey;
	if (std::abs(k) > 1e-10) {
		ex = rx + (std::sin(t1) - std::sin(from.theta)) / k;
		ey = ry - (std::cos(t1) - std::cos(from.theta)) / k;
	} else {
		ex = rx + sd * std::cos(from.theta);
		ey = ry + sd * std::sin(from.theta);
	}
	Pose2d ref(ex + rear * std::cos(t1), ey + rear * std::sin(t1), t1);
	double tol = 1e-5 * (1 + dist);
	MC_CHECK(samePose(to, ref, tol), "the bicycle ends at " << str(to) << " instead of " << str(ref));
	// Two halves are the whole, and going back returns to the start
	Pose2d half = m.ConstantSteer(from, delta, dist / 2, dir), two = m.ConstantSteer(half, delta, dist / 2, dir);
	MC_CHECK(samePose(two, to, tol), "two halves end at " << str(two) << " instead of " << str(to));
	Pose2d ret = m.ConstantSteer(to, delta, dist, back ? Direction::Forward : Direction::Backward);
	MC_CHECK(samePose(ret, from, tol), "going back ends at " << str(ret) << " instead of " << str(from));
	// Steering angle of a turning radius
	if (delta > 1e-3) {
		double R = std::hypot(L / std::tan(delta), rear);
		MC_CHECK(std::abs(m.GetSteeringAngleFromTurningRadius(R) - delta) < 1e-6, "the steering angle of radius " << R << " is " << m.GetSteeringAngleFromTurningRadius(R) << " instead of " << delta);
	}
	mc::transition();
	mc::state(mc::mixd(mc::mixd(mc::mixd(ti, to.x()), to.y()), to.theta));
}
