// C06: RRT under every sequence of samples.
#include "rrt_common.h"
#include "algo/rrt.h"
using namespace rrt;
namespace {
	using R = Run<RRTR2, false>;
	void init(R& r)
	{
		r.solved = [&r](const Point2d& p) { return (p - r.c.goal).norm() < 1; };
	}
	const std::vector<std::vector<Walls::Box>> maps = {
		{}, { { 1.2, -1, 1.3, 1.7 } }, { { 1.2, -1, 1.3, 5 } }, { { 0.7, 0.7, 0.8, 2.2 }, { 1.9, 0.2, 2.0, 2.0 } }, { { 0.4, 0.4, 0.6, 0.6 } }, { { 2.2, 2.2, 2.8, 2.8 } }
	};
}
MC_SCENARIO(C06, sequences, 0)
{
	R r;
	init(r);
	Config c;
	c.boxes = maps[mc::choose((int)maps.size())];
	c.maxDist = mc::pick({ 0.8, 1.0, 10.0 });
	c.maxIter = mc::thorough() ? 4 : 3;
	c.init = { 0.5, 0.5 };
	c.goal = { 2.5, 2.5 };
	c.points = lattice(3);
	mc::split();
	r.search(c, RRTParameters());
}
// More iterations over fewer points.
MC_SCENARIO(C06, longer, 0)
{
	R r;
	init(r);
	Config c;
	c.boxes = maps[mc::choose((int)maps.size())];
	c.maxDist = mc::pick({ 0.7, 1.1 });
	mc::split();
	c.maxIter = mc::thorough() ? 9 : 6;
	c.init = { 0.5, 0.5 };
	c.goal = { 2.5, 2.6 };
	c.points = { { 0.5, 2.5 }, { 2.5, 0.5 }, { 1.6, 1.5 } };
	r.search(c, RRTParameters());
}
// Limits on the number of nodes, without goal bias, initial state at the goal or next to it.
MC_SCENARIO(C06, limits, 0)
{
	R r;
	init(r);
	Config c;
	c.boxes = maps[mc::choose((int)maps.size())];
	c.bias = mc::pick({ 0.0, 0.3 });
	c.maxNodes = mc::choose(4);
	mc::split();
	c.maxIter = mc::choose(5);
	c.init = { 0.5, 0.5 };
	c.goal = c.points.empty() && mc::choose(2) ? Point2d(0.5, 0.5) : Point2d(3.1, 0.5);
	c.points = { { 0.5, 0.5 }, { 1.5, 0.5 }, { 0.5, 1.6 }, { 2.4, 0.6 } };
	r.search(c, RRTParameters());
}
// The outcome of a search does not depend on the previous ones.
MC_SCENARIO(C06, searches, 0)
{
	R r;
	init(r);
	Config c;
	c.points = { { 0.5, 2.5 }, { 2.5, 0.5 }, { 1.6, 1.5 } };
	c.maxIter = 2;
	c.maxDist = 1.2;
	int k = mc::choose(mc::thorough() ? 4 : 3), again = mc::pick({ 2, 0, 1 });
	mc::split();
	for (int i = 0; i < 2; i++) {
		c.maxIter = i ? again : 2;
		c.init = i ? Point2d(2.5, 2.5) : Point2d(0.5, 0.5);
		c.goal = (i + k) % 2 ? Point2d(0.5, 0.6) : Point2d(2.4, 1.4);
		c.boxes = maps[(k + i) % maps.size()];
		r.search(c, RRTParameters());
	}
}
// Large trees: long sequences of samples that follow a formula, then enumerated ones.
MC_SCENARIO(C06, large, 0)
{
	R r;
	init(r);
	Config c;
	const int seed = mc::choose(mc::thorough() ? 12 : 4);
	c.maxDist = mc::pick({ 0.6, 2.5 });
	const int box = mc::choose(3);
	mc::split();
	c.init = { 0.5, 0.5 };
	c.goal = { 9.3, 9.1 };
	if (box)
		c.boxes = { { 3.2, -1, 3.3, 6.1 }, { 6.0, 2.4, 6.1, 20 } };
	if (box == 2)
		c.boxes.push_back({ 8.2, 8.0, 8.3, 20 });
	const int n = mc::thorough() ? 300 : 120;
	const int m = 37 + 12 * seed;
	for (int i = 0; i < n; i++)
		c.prefix.push_back(Point2d(0.013 * ((i * m + 5 * seed) % 761), 0.0127 * ((i * i * 3 + i * (m + 4)) % 769)));
	c.points = { { 9.0, 8.8 }, { 8.4, 9.4 }, { 4.5, 6.5 } };
	c.maxIter = n + 1;
	r.search(c, RRTParameters());
}
// Bushy trees: a root (or a chain) with many children, then samples around the goal.
MC_SCENARIO(C06, bushy, 0)
{
	R r;
	init(r);
	Config c;
	const int k = mc::choose(mc::thorough() ? 18 : 13), chain = mc::choose(3);
	mc::split();
	c.init = { 0, 0 };
	c.goal = { 2.2, 0 };
	c.maxDist = 1.3;
	for (int i = 0; i < chain; i++)
		c.prefix.push_back(Point2d(-1.0 * (i + 1), 0));
	for (int i = 0; i < k; i++) { // closer and closer to the root, or to the last node of the chain: all are its children
		double a = M_PI / 2 + M_PI * (i * 7 % 40 + 0.5) / 40, rad = 0.9 * std::pow(0.45, i);
		c.prefix.push_back(Point2d(-1.0 * chain + rad * std::cos(a), rad * std::sin(a)));
	}
	c.points = { { 1.1, 0.3 }, { 2.3, 0.2 }, { 1.05, -0.1 }, { 0, 0 }, { 2.2 + 1e-7, 0 }, { 2.2, 1e-10 }, { 0.1, 0.1 } };
	c.maxIter = (unsigned)c.prefix.size() + (mc::thorough() ? 3 : 2);
	r.search(c, RRTParameters());
}
MC_SCENARIO(C06, bias, 0) { goalBias<RRTR2, RRTParameters>(); }
