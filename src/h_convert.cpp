// C14: conversions between the world, local and grid frames of an occupancy map.
#include "mc.h"
#include "core/base.h"
#include "state_validator/obstacle_list_occupancy_map.h"
using namespace Planner;

namespace {
	/// Reference geometry: cell (r,c) covers the rectangle
	/// [ox + r res, ox + (r+1) res) x [oy + c res, oy + (c+1) res).
	struct Ref_ {
		double ox, oy, res;
		int R, C;
	};
	bool near(double a, double b, double tol) { return std::abs(a - b) <= tol; }

	void checkMap(const OccupancyMap& map, float w, float h, double px, double py)
	{
		const double res = map.resolution;
		const int R = map.Rows(), C = map.Columns();
		MC_CHECK(R * res >= w - 1e-3 * res && (R - 1) * res < w + 1e-3 * res, "a map of width " << w << " and resolution " << res << " has " << R << " rows");
		MC_CHECK(C * res >= h - 1e-3 * res && (C - 1) * res < h + 1e-3 * res, "a map of height " << h << " and resolution " << res << " has " << C << " columns");
		MC_CHECK(map.GetPosition().x() == px && map.GetPosition().y() == py, "the map is not at the position set");
		const double tol = 1e-4 * res;
		const double frac[] = { 0.01, 0.5, 0.98 };
		uint64_t hsh = mc::mix(R, C);
		for (int r = -3; r < R + 3; r++)
			for (int c = -3; c < C + 3; c++) {
				bool in = r >= 0 && r < R && c >= 0 && c < C;
				GridCellPosition cell(r, c);
				MC_CHECK(map.IsInsideMap(cell) == in, "cell (" << r << "," << c << ") inside the map: " << map.IsInsideMap(cell));
				double lx = -w / 2 + r * res, ly = -h / 2 + c * res;
				Point2d l = map.GridCellToLocalPosition(cell), l2 = map.GridCellToLocalPosition(r, c);
				Point2d g = map.GridCellToWorldPosition(cell), g2 = map.GridCellToWorldPosition(r, c);
				MC_CHECK(l == l2 && g == g2, "the overloads disagree at cell (" << r << "," << c << ")");
				MC_CHECK(near(l.x(), lx, tol) && near(l.y(), ly, tol), "local position of cell (" << r << "," << c << ") is (" << l.x() << "," << l.y() << ") instead of (" << lx << "," << ly << ")");
				MC_CHECK(near(g.x(), lx + px, tol) && near(g.y(), ly + py, tol), "world position of cell (" << r << "," << c << ") is (" << g.x() << "," << g.y() << ") instead of (" << lx + px << "," << ly + py << ")");
				for (double fx : frac)
					for (double fy : frac) {
						double qx = lx + fx * res, qy = ly + fy * res;
						Point2d q(qx, qy), p = map.LocalPositionToWorldPosition(q), p2 = map.LocalPositionToWorldPosition(qx, qy);
						MC_CHECK(p == p2 && near(p.x(), qx + px, tol) && near(p.y(), qy + py, tol), "local position (" << qx << "," << qy << ") converted to the world position (" << p.x() << "," << p.y() << ")");
						Point2d back = map.WorldPositionToLocalPosition(p), back2 = map.WorldPositionToLocalPosition(p.x(), p.y());
						MC_CHECK(back == back2 && near(back.x(), qx, tol) && near(back.y(), qy, tol), "local to world to local does not return to (" << qx << "," << qy << ")");
						GridCellPosition got[4] = { map.LocalPositionToGridCell(q, false), map.LocalPositionToGridCell(qx, qy, false), map.WorldPositionToGridCell(p, false), map.WorldPositionToGridCell(p.x(), p.y(), false) };
						for (auto& k : got)
							MC_CHECK(k.row == r && k.col == c, "the position (" << p.x() << "," << p.y() << ") of cell (" << r << "," << c << ") is converted to cell (" << k.row << "," << k.col << ")");
						GridCellPosition gb[4] = { map.LocalPositionToGridCell(q), map.LocalPositionToGridCell(qx, qy), map.WorldPositionToGridCell(p), map.WorldPositionToGridCell(p.x(), p.y()) };
						for (auto& k : gb)
							if (in)
								MC_CHECK(k.row == r && k.col == c, "the position (" << p.x() << "," << p.y() << ") inside the map is not converted to its cell");
							else
								MC_CHECK(!k.IsValid(), "the position (" << p.x() << "," << p.y() << ") outside of the map is converted to cell (" << k.row << "," << k.col << ")");
						MC_CHECK(map.IsInsideMap(p) == in, "the position (" << p.x() << "," << p.y() << ") of cell (" << r << "," << c << ") is reported " << (in ? "outside" : "inside") << " a map of " << R << "x" << C << " cells");
						mc::transition();
					}
			}
		// Far outside of the map
		for (double far : { 1e7, -1e7, 1e10, -1e10, 1e20, -1e300 })
			for (int axis = 0; axis < 3; axis++) {
				Point2d p(px + (axis != 1 ? far : 0), py + (axis != 0 ? far : 0));
				MC_CHECK(!map.WorldPositionToGridCell(p).IsValid() && !map.WorldPositionToGridCell(p.x(), p.y()).IsValid() && !map.IsInsideMap(p), "the position (" << p.x() << "," << p.y() << ") far outside of the map is reported inside");
				mc::transition();
			}
		mc::state(mc::mixd(mc::mixd(hsh, px), py));
	}
}

// Every history of positioning and resizing (the conversions always use the last values).
MC_SCENARIO(C14, histories, 0)
{
	float res = mc::pick({ 1.0f, 0.5f, 0.1f, 0.3f, 0.25f });
	ObstacleListOccupancyMap map(res);
	const double pos[][2] = { { 0, 0 }, { 3.7, -1.3 }, { -250.25, 1000 }, { 0.05, 0.049 } };
	const float size[][2] = { { 4, 6 }, { 5.05f, 0.95f }, { 1, 9.3f }, { 3.96f, 5.93f } };
	int depth = mc::thorough() ? 4 : 3;
	double px = 0, py = 0;
	float w = 0, h = 0;
	bool sized = false;
	for (int d = 0; d < depth; d++) {
		if (d == 1)
			mc::split();
		int op = mc::choose(8);
		if (op < 4) {
			px = pos[op][0], py = pos[op][1];
			map.SetPosition({ px, py });
			mc::note(mc::Str() << "position " << px << "," << py);
		} else {
			w = size[op - 4][0], h = size[op - 4][1];
			map.InitializeSize(w, h);
			sized = true;
			mc::note(mc::Str() << "size " << w << "," << h);
		}
	}
	if (!sized)
		mc::prune();
	checkMap(map, w, h, px, py);
}
// Every size from one cell to a few, exact multiples of the resolution or not.
MC_SCENARIO(C14, sizes, 0)
{
	float res = mc::pick({ 1.0f, 0.5f, 0.1f, 0.3f, 0.7f });
	int a = mc::choose(mc::thorough() ? 28 : 16), b = mc::choose(mc::thorough() ? 28 : 16);
	mc::split();
	const double pos[][2] = { { 0, 0 }, { 1.55, -7.2 }, { 100, 100 } };
	int p = mc::choose(3);
	ObstacleListOccupancyMap map(res);
	const float part[] = { 0, 0.003f, 0.5f, 0.997f };
	float w = res * (1 + a / 4 + part[a % 4]), h = res * (1 + b / 4 + part[b % 4]);
	mc::note(mc::Str() << "resolution " << res << " size " << w << "x" << h << " position " << p);
	map.InitializeSize(w, h);
	map.SetPosition({ pos[p][0], pos[p][1] });
	checkMap(map, w, h, pos[p][0], pos[p][1]);
}
// Long, narrow and large maps, far from the origin, with fine and coarse cells.
MC_SCENARIO(C14, large, 0)
{
	float res = mc::pick({ 0.02f, 0.1f, 1.0f, 12.5f });
	const int cells[][2] = { { 300, 2 }, { 1, 700 }, { 130, 129 }, { 65, 257 } };
	int k = mc::choose(4);
	const double pos[][2] = { { 0, 0 }, { -4321.5, 8000.25 }, { 1e5, -1e5 }, { 3e-4, -2e-5 } };
	int p = mc::choose(4);
	mc::split();
	float w = res * (cells[k][0] - 0.25f), h = res * (cells[k][1] - 0.5f);
	ObstacleListOccupancyMap map(res);
	mc::note(mc::Str() << "resolution " << res << " size " << w << "x" << h << " position " << pos[p][0] << "," << pos[p][1]);
	if (mc::choose(2)) {
		map.InitializeSize(w, h);
		map.SetPosition({ pos[p][0], pos[p][1] });
	} else {
		map.SetPosition({ pos[p][0], pos[p][1] });
		map.InitializeSize(w, h);
	}
	checkMap(map, w, h, pos[p][0], pos[p][1]);
}
// Positions exactly on the border of cells (the numbers are all exact): a cell owns its lower borders, on every side of the map.
MC_SCENARIO(C14, borders, 0)
{
	float res = mc::pick({ 1.0f, 0.5f, 0.25f, 4.0f });
	const int R = 2 * (1 + mc::choose(4)), C = 2 * (1 + mc::choose(4));
	const double pos[][2] = { { 0, 0 }, { 3.25, -17.5 }, { -1024, 0.125 } };
	const int p = mc::choose(3);
	mc::split();
	ObstacleListOccupancyMap map(res);
	map.InitializeSize(R * res, C * res);
	map.SetPosition({ pos[p][0], pos[p][1] });
	mc::note(mc::Str() << "resolution " << res << " " << R << "x" << C << " cells at position " << p);
	MC_CHECK(map.Rows() == R && map.Columns() == C, "the map has " << map.Rows() << "x" << map.Columns() << " cells instead of " << R << "x" << C);
	for (int r = -5; r < R + 5; r++)
		for (int c = -5; c < C + 5; c++)
			for (double fx : { 0.0, 0.5, 0.9375 })
				for (double fy : { 0.0, 0.5, 0.9375 }) {
					const bool in = r >= 0 && r < R && c >= 0 && c < C;
					Point2d q((r + fx - R / 2) * res, (c + fy - C / 2) * res), w = q + Point2d(pos[p][0], pos[p][1]);
					for (auto& k : { map.LocalPositionToGridCell(q, false), map.WorldPositionToGridCell(w, false) })
						MC_CHECK(k.row == r && k.col == c, "the local position (" << q.x() << "," << q.y() << ") of cell (" << r << "," << c << ") is converted to cell (" << k.row << "," << k.col << ")");
					for (auto& k : { map.LocalPositionToGridCell(q), map.WorldPositionToGridCell(w) })
						MC_CHECK(in ? k.row == r && k.col == c : !k.IsValid(), "the local position (" << q.x() << "," << q.y() << ") of cell (" << r << "," << c << ") is converted to cell (" << k.row << "," << k.col << ")");
					MC_CHECK(map.IsInsideMap(w) == in, "the local position (" << q.x() << "," << q.y() << ") is reported " << (in ? "outside" : "inside") << " of the map");
					mc::transition();
				}
	mc::state(mc::mix(mc::mixd(p, res), R * 100 + C));
}
