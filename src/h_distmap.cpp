// C12: obstacle distance map.
#include "mc.h"
#include "core/base.h"
#include "state_validator/gvd.h"
#include <limits>
using namespace Planner;

namespace {
	struct DM {
		int R, C;
		float res;
		Ref<Grid<int>> occ;
		GVD::ObstacleDistanceMap map;
		std::vector<char> present;
		bool withVoronoi;
		Ref<GVD::VoronoiDistanceMap> voro;
		DM(int R, int C, float res, bool withVoronoi) :
			R(R), C(C), res(res), occ(makeRef<Grid<int>>(R, C, -1)), map(occ, res), present(R * C), withVoronoi(withVoronoi)
		{
			if (withVoronoi)
				voro = map.GetVoronoiDistanceMap();
		}
		void set(int i)
		{
			(*occ)[i / C][i % C] = i;
			map.SetObstacle({ i / C, i % C });
			present[i] = 1;
		}
		void unset(int i)
		{
			(*occ)[i / C][i % C] = -1;
			map.UnsetObstacle({ i / C, i % C });
			present[i] = 0;
		}
		std::string str() const
		{
			std::string s;
			for (int i = 0; i < R * C; i++) {
				s += present[i] ? '#' : '.';
				if (i % C == C - 1)
					s += '/';
			}
			return s;
		}
		/// slack: allowed relative error of the distances (propagation over 8 neighbours)
		uint64_t check(double slack)
		{
			uint64_t h = R;
			bool any = false;
			for (char c : present)
				any |= c;
			for (int r = 0; r < R; r++)
				for (int c = 0; c < C; c++) {
					float d = map.GetDistanceToNearestObstacle(r, c);
					GridCellPosition o = map.GetNearestObstacleCell(GridCellPosition(r, c));
					h = mc::mixd(h, d);
					if (!any) {
						MC_CHECK(!o.IsValid(), "no obstacle is present but (" << o.row << "," << o.col << ") is reported as the nearest to (" << r << "," << c << ")");
						MC_CHECK(d > 30000 * res, "no obstacle is present but the distance at (" << r << "," << c << ") is " << d);
						continue;
					}
					double best = std::numeric_limits<double>::infinity();
					for (int i = 0; i < R * C; i++)
						if (present[i])
							best = std::min(best, std::hypot(r - i / C, c - i % C));
					MC_CHECK(o.IsValid() && o.row < R && o.col < C, "no nearest obstacle reported at (" << r << "," << c << ")");
					MC_CHECK(present[o.row * C + o.col], "the nearest obstacle reported at (" << r << "," << c << ") is the free cell (" << o.row << "," << o.col << ")");
					double od = std::hypot(r - o.row, c - o.col);
					MC_CHECK(std::abs(d - od * res) <= 1e-4 * res * (1 + od), "distance " << d << " at (" << r << "," << c << ") is not the distance to the reported obstacle (" << o.row << "," << o.col << ")");
					MC_CHECK(d >= best * res - 1e-4 * res * (1 + best), "distance " << d << " at (" << r << "," << c << ") is below the true distance " << best * res);
					MC_CHECK(d <= (best + slack) * res + 1e-4 * res * (1 + best), "distance " << d << " at (" << r << "," << c << ") is above the true distance " << best * res);
				}
			mc::transition();
			return h;
		}
	};
	float pickRes() { return mc::pick({ 1.0f, 0.1f }); }

	void initialThenToggle(int R, int C, int toggles, bool voro)
	{
		DM m(R, C, 0.5f, voro);
		for (int i = 0; i < R * C; i++) {
			if (i == 6)
				mc::split();
			if (mc::choose(2))
				m.set(i);
		}
		mc::note("initial " + m.str());
		m.map.Update();
		uint64_t h = m.check(0);
		mc::state(h);
		for (int k = 0; k < toggles; k++) {
			int i = mc::choose(R * C);
			mc::note(mc::Str() << "toggle " << i);
			m.present[i] ? m.unset(i) : m.set(i);
			m.map.Update();
			mc::state(m.check(0));
		}
	}
}

// Every history of set/unset/update on a 3x3 map.
MC_SCENARIO(C12, histories3x3, 0)
{
	float res = pickRes();
	bool voro = mc::choose(2);
	DM m(3, 3, res, voro);
	int depth = mc::thorough() ? 6 : 5;
	for (int d = 0; d < depth; d++) {
		if (d == 1)
			mc::split();
		int op = mc::choose(11);
		if (op < 9) {
			mc::note(mc::Str() << (m.present[op] ? "unset " : "set ") << op);
			m.present[op] ? m.unset(op) : m.set(op);
		} else if (op == 9) {
			mc::note("update");
			m.map.Update();
			mc::state(m.check(0));
		} else {
			// unset a free cell, set an occupied one (no effect on the obstacles)
			mc::note("redundant set/unset of 4");
			m.present[4] ? m.set(4) : m.unset(4);
		}
	}
	m.map.Update();
	uint64_t h = m.check(0);
	mc::state(h);
	mc::outcome(h);
}
MC_SCENARIO(C12, toggle4x4, 0) { initialThenToggle(4, 4, 1, false); }
MC_SCENARIO(C12, toggle3x5, 0) { initialThenToggle(3, 5, 1, true); }
MC_SCENARIO(C12, toggle2x4, 0) { initialThenToggle(2, 4, mc::thorough() ? 4 : 3, true); }
MC_SCENARIO(C12, toggle1x8, 0) { initialThenToggle(1, 8, 2, false); }

// Every initial map, then one obstacle leaves a cell while another cell becomes occupied, in one update.
namespace {
	void initialThenMove(int R, int C)
	{
		DM m(R, C, 0.5f, false);
		for (int i = 0; i < R * C; i++) {
			if (i == 6)
				mc::split();
			if (mc::choose(2))
				m.set(i);
		}
		mc::note("initial " + m.str());
		m.map.Update();
		int from = mc::choose(R * C), to = mc::choose(R * C);
		if (!m.present[from] || m.present[to])
			mc::prune();
		bool setFirst = (from + to) % 2;
		mc::note(mc::Str() << "move " << from << " to " << to);
		if (setFirst)
			m.set(to);
		m.unset(from);
		if (!setFirst)
			m.set(to);
		m.map.Update();
		mc::state(m.check(0));
	}
	// Few obstacles on a larger map, moved one at a time.
	void moving(int R, int C)
	{
		int n = R * C;
		DM m(R, C, 1.0f, false);
		int a = mc::choose(n);
		mc::split();
		int b = mc::choose(n), k = mc::choose(mc::thorough() ? 6 : 2);
		int c = (a * 37 + b * 11 + 7 * k) % n, d = (a * 5 + b * 17 + 31 * k + 3) % n;
		mc::note(mc::Str() << "set " << a << ", " << b << ", " << c << "; update; move " << b << " to " << d << "; update; move " << a << " to " << b << "; update");
		m.set(a);
		m.set(b);
		m.set(c);
		m.map.Update();
		m.check(0.1);
		m.unset(b);
		m.set(d);
		m.map.Update();
		mc::state(m.check(0.1));
		m.set(b);
		if (m.present[a] && a != b)
			m.unset(a);
		m.map.Update();
		mc::state(m.check(0.1));
	}
}
MC_SCENARIO(C12, move3x4, 0) { initialThenMove(3, 4); }
MC_SCENARIO(C12, move3x5, 1) { initialThenMove(3, 5); }
MC_SCENARIO(C12, moving9x11, 0) { moving(9, 11); }
MC_SCENARIO(C12, moving13x16, 0) { moving(13, 16); }

// Few obstacles on a larger map: added in two batches, then removed one by one.
namespace {
	void sparse(int R, int C, const std::vector<int>& cs)
	{
		int n = R * C;
		DM m(R, C, 1.0f, false);
		int a = mc::choose(n);
		mc::split();
		int b = mc::choose(n);
		int c = cs.empty() ? mc::choose(n) : ((a * 37 + b * 11) % n + cs[mc::choose((int)cs.size())]) % n;
		mc::note(mc::Str() << "set " << a << ", " << b << "; update; set " << c << "; update; unset " << b << "; update; unset " << a << "; update");
		m.set(a);
		m.set(b);
		m.map.Update();
		m.check(0.1);
		m.set(c);
		m.map.Update();
		m.check(0.1);
		if (m.present[b])
			m.unset(b);
		m.map.Update();
		mc::state(m.check(0.1));
		if (m.present[a])
			m.unset(a);
		m.map.Update();
		mc::state(m.check(0.1));
	}
}
MC_SCENARIO(C12, sparse9x11, 0) { sparse(9, 11, { 0, 13, 29, 50 }); }
MC_SCENARIO(C12, sparse13x16, 0) { sparse(13, 16, { 0 }); }
MC_SCENARIO(C12, sparse16x19, 1) { sparse(16, 19, { 0 }); }
MC_SCENARIO(C12, all9x11, 1) { sparse(9, 11, {}); }
// Long maps: distances of hundreds of cells.
MC_SCENARIO(C12, long, 0)
{
	const bool tall = mc::choose(2);
	const int L = mc::pick({ 200, 420, mc::thorough() ? 3000 : 1000 }), W = mc::pick({ 1, 3 });
	const int R = tall ? L : W, C = tall ? W : L;
	mc::split();
	DM m(R, C, mc::pick({ 0.1f, 1.0f }), false);
	auto cell = [&](int l, int w) { return tall ? l * W + w : w * L + l; };
	const int a = mc::pick({ 0, L / 3, L - 1 }), b = (a + mc::pick({ 1, L / 2, L - 2, 190 })) % L;
	mc::note(mc::Str() << R << "x" << C << " obstacles at " << a << " and " << b);
	m.set(cell(a, 0));
	m.map.Update();
	mc::state(m.check(0.1));
	m.set(cell(b, W - 1));
	m.map.Update();
	mc::state(m.check(0.1));
	m.unset(cell(a, 0));
	m.map.Update();
	mc::state(m.check(0.1));
	m.set(cell(a, W - 1));
	m.unset(cell(b, W - 1));
	m.map.Update();
	mc::state(m.check(0.1));
}
// Larger maps with many obstacles that come and go following a formula.
MC_SCENARIO(C12, crowd, 0)
{
	const int R = mc::pick({ 21, 40 }), C = 61 - R;
	const int seed = mc::choose(mc::thorough() ? 24 : 6);
	mc::split();
	const int m1 = 2 * mc::choose(4) + 7;
	DM m(R, C, 0.2f, m1 % 4 == 3);
	mc::note(mc::Str() << R << "x" << C << " seed " << seed << " step " << m1);
	const int n = R * C;
	for (int t = 0; t < 16; t++) {
		for (int k = 0; k < (t < 4 ? 9 : t == 9 ? 40 : t % 3 + 1); k++) {
			int i = ((t * 16 + k) * (m1 * 13 + seed) + seed * 29) % n;
			m.present[i] ? m.unset(i) : m.set(i);
		}
		m.map.Update();
		mc::state(m.check(0.35));
	}
	for (int i = 0; i < n; i++)
		if (m.present[i]) {
			m.unset(i);
			if (i % 4 == 0) {
				m.map.Update();
				mc::state(m.check(0.35));
			}
		}
	m.map.Update();
	m.check(0);
}
