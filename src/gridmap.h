// Occupancy map driven directly by a cell matrix, and reference grid search.
#pragma once
#include "mc.h"
#include "core/base.h"
#include "algo/a_star_n2.h"
#include "state_validator/occupancy_map.h"
#include <set>
#include <queue>

namespace vgrid {
	const double INF = std::numeric_limits<double>::infinity();
	struct CellMap : public Planner::OccupancyMap {
		int R, C;
		/// Occupancy of the cells; a change is reported to the map like those of a map of obstacles, the cells of
		/// a diagonal belonging to the same obstacle.
		struct Cells {
			CellMap& m;
			std::vector<char> v;
			struct Cell {
				Cells& cells;
				int i;
				operator bool() const { return cells.v[i]; }
				Cell& operator=(bool b)
				{
					if (b != (bool)cells.v[i]) {
						cells.v[i] = b;
						cells.m.changed(i);
					}
					return *this;
				}
				Cell& operator=(const Cell& c) { return *this = (bool)c; }
				Cell& operator^=(bool b) { return *this = b != (bool)*this; }
			};
			Cell operator[](int i) { return { *this, i }; }
			bool operator[](int i) const { return v[i]; }
		} occ;
		CellMap(int r, int c, float res = 1.0f) :
			OccupancyMap(res), R(r), C(c), occ { *this, std::vector<char>(r * c) }
		{
			InitializeSize(r * res, c * res);
			MC_CHECK(Rows() == r && Columns() == c, "a map of " << r << "x" << c << " cells is created with " << Rows() << "x" << Columns());
		}
		CellMap(const CellMap&) = delete;
		void changed(int i)
		{
			const int r = i / C, c = i % C;
			(*m_occupancyMatrix)[r][c] = occ.v[i] ? r + c : -1;
			if (occ.v[i])
				m_obstacleDistanceMap->SetObstacle({ r, c });
			else
				m_obstacleDistanceMap->UnsetObstacle({ r, c });
		}
		bool IsOccupied(const Planner::GridCellPosition& cell) override
		{
			MC_CHECK(cell.row >= 0 && cell.row < R && cell.col >= 0 && cell.col < C, "the occupancy of the cell (" << cell.row << "," << cell.col << ") outside of the map is queried");
			return occ[cell.row * C + cell.col];
		}
		std::string str() const
		{
			std::string s;
			for (int r = 0; r < R; r++) {
				for (int c = 0; c < C; c++)
					s += occ[r * C + c] ? '#' : '.';
				s += '/';
			}
			return s;
		}
		uint64_t hash() const { return mc::hashBytes(occ.v.data(), occ.v.size(), R * 131 + C); }
		bool free(int r, int c) const { return r >= 0 && r < R && c >= 0 && c < C && !occ[r * C + c]; }
		/// A move to one of the 8 neighbours; a diagonal move needs one of the
		/// two cells it passes between to be free.
		bool legal(int r0, int c0, int r1, int c1) const
		{
			if (!free(r1, c1))
				return false;
			int dr = std::abs(r0 - r1), dc = std::abs(c0 - c1);
			if (dr > 1 || dc > 1 || (dr == 0 && dc == 0))
				return false;
			if (dr == 1 && dc == 1)
				return free(r0, c1) || free(r1, c0);
			return true;
		}
		template <typename Cost>
		std::vector<double> dijkstra(int r0, int c0, Cost cost) const
		{
			std::vector<double> d(R * C, INF);
			using Q = std::pair<double, int>;
			std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
			d[r0 * C + c0] = 0;
			q.push({ 0, r0 * C + c0 });
			while (!q.empty()) {
				auto [v, i] = q.top();
				q.pop();
				if (v > d[i])
					continue;
				int r = i / C, c = i % C;
				for (int dr = -1; dr <= 1; dr++)
					for (int dc = -1; dc <= 1; dc++)
						if (legal(r, c, r + dr, c + dc)) {
							double nd = v + cost(r, c, r + dr, c + dc);
							int j = (r + dr) * C + c + dc;
							if (nd < d[j]) {
								d[j] = nd;
								q.push({ nd, j });
							}
						}
			}
			return d;
		}
	};
	inline double euclid(int r0, int c0, int r1, int c1) { return std::sqrt((double)((r0 - r1) * (r0 - r1) + (c0 - c1) * (c0 - c1))); }
	inline double octile(int r0, int c0, int r1, int c1)
	{
		int a = std::abs(r0 - r1), b = std::abs(c0 - c1);
		return std::max(a, b) + (std::sqrt(2.0) - 1) * std::min(a, b);
	}
	/// Direction-dependent, cell-dependent cost (still at least the Euclidean length).
	inline double biased(int r0, int c0, int r1, int c1) { return euclid(r0, c0, r1, c1) * (1 + 0.5 * ((r1 * 3 + c1 * 5) % 3)); }
	/// Symmetric version.
	inline double biasedSym(int r0, int c0, int r1, int c1) { return euclid(r0, c0, r1, c1) * (1 + 0.5 * ((r1 * 3 + c1 * 5) % 3) + 0.5 * ((r0 * 3 + c0 * 5) % 3)); }

	inline void checkGridPath(const CellMap& m, const std::vector<Planner::GridCellPosition>& path, int r0, int c0, int r1, int c1, double cost, double (*fn)(int, int, int, int))
	{
		MC_CHECK(!path.empty(), "success but the path is empty");
		MC_CHECK(path.front().row == r0 && path.front().col == c0, "the path does not start at the initial cell");
		MC_CHECK(path.back().row == r1 && path.back().col == c1, "the path does not end at the goal cell");
		double sum = 0;
		for (size_t i = 0; i + 1 < path.size(); i++) {
			auto &a = path[i], &b = path[i + 1];
			MC_CHECK(m.legal(a.row, a.col, b.row, b.col), "illegal move (" << a.row << "," << a.col << ") -> (" << b.row << "," << b.col << ")");
			sum += fn(a.row, a.col, b.row, b.col);
		}
		MC_CHECK(std::abs(sum - cost) <= 1e-9 * (1 + sum), "reported cost " << cost << " but the path costs " << sum);
	}
	/// Choose the occupancy of a map.
	inline void pickOcc(CellMap& m, int splitAt)
	{
		for (int i = 0; i < m.R * m.C; i++) {
			if (i == splitAt)
				mc::split();
			m.occ[i] = mc::choose(2);
		}
	}
}
