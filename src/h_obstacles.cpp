// C11: occupancy of the map after any history of obstacle additions and removals.
#include "mc.h"
#include "core/base.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include <map>
#include <set>
using namespace Planner;

namespace {
	using Cells = std::set<std::pair<int, int>>;
	struct World {
		int R, C;
		ObstacleListOccupancyMap map;
		std::vector<Ref<Obstacle>> obs;
		std::vector<std::vector<Pose2d>> poses;
		std::vector<int> poseIdx;
		std::map<int, Cells> present;

		World(int R, int C, float res) :
			R(R), C(C), map(res)
		{
			map.InitializeSize(R * res, C * res);
			MC_CHECK(map.Rows() == R && map.Columns() == C, "map size is wrong");
		}
		void obstacle(const Ref<Shape>& shape, const std::vector<Pose2d>& p)
		{
			auto o = makeRef<Obstacle>();
			o->SetShape(shape);
			o->SetPose(p[0]);
			obs.push_back(o);
			poses.push_back(p);
			poseIdx.push_back(0);
		}
		Cells cellsOf(int i)
		{
			Cells s;
			for (auto& c : obs[i]->GetBoundaryGridCellPosition(map)) {
				MC_CHECK(c.row >= 0 && c.row < R && c.col >= 0 && c.col < C, "an obstacle covers the cell (" << c.row << "," << c.col << ") outside of the map");
				s.insert({ c.row, c.col });
			}
			return s;
		}
		void add(int i)
		{
			bool ok = map.AddObstacle(obs[i]);
			MC_CHECK(ok == (present.count(i) == 0), "adding obstacle " << i << " reported " << ok);
			if (ok)
				present[i] = cellsOf(i);
		}
		void remove(int i)
		{
			bool ok = map.RemoveObstacle(obs[i]);
			MC_CHECK(ok == (present.count(i) == 1), "removing obstacle " << i << " reported " << ok);
			present.erase(i);
		}
		void move(int i)
		{
			poseIdx[i] = (poseIdx[i] + 1) % poses[i].size();
			obs[i]->SetPose(poses[i][poseIdx[i]]);
		}
		void restamp()
		{
			for (auto& [i, cells] : present)
				cells = cellsOf(i);
		}
		/// Setting again what is already set may or may not take the obstacles that moved into account.
		void unless(bool same)
		{
			if (same)
				for (auto& [i, cells] : present)
					if (cells != cellsOf(i))
						mc::prune();
		}
		void position(double x, double y)
		{
			unless(map.GetPosition().x() == x && map.GetPosition().y() == y);
			map.SetPosition({ x, y });
			MC_CHECK(map.GetPosition().x() == x && map.GetPosition().y() == y, "the position of the map is not the one set");
			restamp();
		}
		double less = 0;
		/// A map of r x c cells, less a part of a cell
		void resize(int r, int c, double l = 0)
		{
			unless(R == r && C == c && l == less);
			R = r;
			C = c;
			less = l;
			map.InitializeSize((R - l) * map.resolution, (C - l) * map.resolution);
			MC_CHECK(map.Rows() == R && map.Columns() == C, "map size is wrong");
			restamp();
		}
		uint64_t check()
		{
			uint64_t h = present.size();
			MC_CHECK(map.GetNumObstacles() == (int)present.size(), map.GetNumObstacles() << " obstacles reported, " << present.size() << " are present");
			std::map<int, int> idOf;
			for (int r = 0; r < R; r++)
				for (int c = 0; c < C; c++) {
					std::vector<int> by;
					for (auto& [i, cells] : present)
						if (cells.count({ r, c }))
							by.push_back(i);
					bool occ = map.IsOccupied({ r, c });
					MC_CHECK(occ == !by.empty(), "cell (" << r << "," << c << ") is reported " << (occ ? "occupied" : "free") << " but is covered by " << by.size() << " obstacles");
					int v = map.GetOccupancyValue(r, c);
					MC_CHECK(v == map.GetOccupancyValue(GridCellPosition(r, c)), "occupancy values differ");
					MC_CHECK((v >= 0) == occ, "occupancy value " << v << " of the cell (" << r << "," << c << ") disagrees with its occupancy");
					if (by.size() == 1) {
						auto it = idOf.find(by[0]);
						if (it == idOf.end())
							idOf[by[0]] = v;
						else
							MC_CHECK(it->second == v, "the cells of one obstacle carry two identifiers " << v << " and " << it->second);
					}
					h = mc::mix(h, occ);
				}
			std::set<int> ids;
			for (auto& [o, id] : idOf)
				MC_CHECK(ids.insert(id).second, "two obstacles share the identifier " << id);
			for (int r = 0; r < R; r++)
				for (int c = 0; c < C; c++) {
					int v = map.GetOccupancyValue(r, c);
					if (v < 0)
						continue;
					bool ok = false, known = true;
					for (auto& [i, cells] : present)
						if (cells.count({ r, c })) {
							if (!idOf.count(i))
								known = false;
							else if (idOf[i] == v)
								ok = true;
						}
					MC_CHECK(ok || !known, "the cell (" << r << "," << c << ") carries the identifier " << v << " of an obstacle that does not cover it");
				}
			mc::transition();
			return h;
		}
		void checkDistances()
		{
			map.Update();
			auto& dm = map.GetObstacleDistanceMap();
			Cells all;
			for (auto& [i, cells] : present)
				all.insert(cells.begin(), cells.end());
			for (int r = 0; r < R; r++)
				for (int c = 0; c < C; c++) {
					float d = dm->GetDistanceToNearestObstacle(r, c);
					if (all.empty()) {
						MC_CHECK(d > 1e4 * map.resolution, "no obstacle but a distance of " << d);
						continue;
					}
					double best = 1e18;
					for (auto& [a, b] : all)
						best = std::min(best, std::hypot(r - a, c - b));
					MC_CHECK(std::abs(d - best * map.resolution) <= 0.1 * map.resolution, "distance at (" << r << "," << c << ") is " << d << " instead of " << best * map.resolution);
				}
			mc::transition();
		}
	};

	Ref<Shape> rect(double a, double b) { return makeRef<RectangleShape>(a, b); }
	Ref<Shape> composite()
	{
		auto c = makeRef<CompositeShape>();
		c->Add(rect(2, 1));
		c->Add(makeRef<PolygonShape>(std::vector<Point2d> { { 0, 0 }, { 2, 2 }, { -1, 2 } }));
		return c;
	}

	void history(World& w, int depth, bool distances)
	{
		int n = (int)w.obs.size();
		for (int d = 0; d < depth; d++) {
			if (d == 2)
				mc::split();
			int op = mc::choose(3 * n);
			int i = op % n;
			if (op / n == 0) {
				mc::note(mc::Str() << "add " << i);
				w.add(i);
			} else if (op / n == 1) {
				mc::note(mc::Str() << "remove " << i);
				w.remove(i);
			} else {
				if (w.poses[i].size() < 2)
					mc::prune();
				mc::note(mc::Str() << "move " << i);
				w.move(i);
			}
			mc::state(w.check());
			if (distances)
				w.checkDistances();
		}
		w.checkDistances();
		mc::outcome(w.check());
	}
}

// Three obstacles whose boundaries share cells, one of them partly outside of the map.
MC_SCENARIO(C11, overlapping, 0)
{
	World w(8, 7, 1.0f);
	w.obstacle(rect(3, 3), { Pose2d(0.3, 0.2, 0), Pose2d(1.3, 0.2, 0) });
	w.obstacle(rect(3, 1), { Pose2d(0.3, 0.2, M_PI / 2), Pose2d(-2.1, 1.2, 0.4) });
	w.obstacle(composite(), { Pose2d(2.6, 2.1, 0), Pose2d(9, 9, 0) });
	history(w, mc::thorough() ? 7 : 6, false);
}
// Same, with the distances checked after every step, on a finer map at a non-integer resolution.
MC_SCENARIO(C11, with_distances, 0)
{
	World w(7, 8, 0.5f);
	w.obstacle(rect(1.5, 1.5), { Pose2d(0, 0, 0), Pose2d(0.5, 0, 0) });
	w.obstacle(rect(1.5, 0.4), { Pose2d(0.1, 0.1, M_PI / 4) });
	w.obstacle(makeRef<CircleShape>(0.6, 6), { Pose2d(0.6, -0.6, 0), Pose2d(-0.9, 0.9, 0) });
	history(w, mc::thorough() ? 6 : 5, true);
}
// Four identical obstacles at the same place (everything is shared) and identifiers reused.
MC_SCENARIO(C11, identical, 0)
{
	World w(5, 5, 1.0f);
	for (int i = 0; i < 4; i++)
		w.obstacle(rect(2, 2), { Pose2d(0.2 + (i == 3), 0.2, 0) });
	int n = 4;
	for (int d = 0; d < 6; d++) {
		if (d == 2)
			mc::split();
		int op = mc::choose(2 * n);
		op < n ? w.add(op) : w.remove(op - n);
		mc::state(w.check());
	}
	w.checkDistances();
}
// The map itself is moved and resized between the additions and the removals.
MC_SCENARIO(C11, moving_map, 0)
{
	World w(7, 8, 0.5f);
	w.obstacle(rect(1.5, 1.5), { Pose2d(0.1, 0, 0), Pose2d(-0.6, 0.9, 0.2) });
	w.obstacle(rect(1.5, 0.4), { Pose2d(0.4, 0.3, M_PI / 4) });
	w.obstacle(makeRef<CircleShape>(0.8, 5), { Pose2d(3.1, -1.2, 0) });
	const double px[] = { 0, 1, -0.75, 3 }, py[] = { 0, 0.5, 1.6, -1 };
	int depth = mc::thorough() ? 6 : 5;
	for (int d = 0; d < depth; d++) {
		if (d == 2)
			mc::split();
		int op = mc::choose(14);
		if (op < 3)
			w.add(op);
		else if (op < 6)
			w.remove(op - 3);
		else if (op < 10)
			w.position(px[op - 6], py[op - 6]);
		else if (op < 13)
			w.resize(op == 11 ? 5 : 7, op == 11 ? 9 : 8, op == 12 ? 0.7 : 0);
		else
			w.move(0);
		mc::note(mc::Str() << "op " << op);
		mc::state(w.check());
	}
	w.checkDistances();
	mc::outcome(w.check());
}
// Many obstacles, added, moved and removed in orders that follow a formula; identifiers are reused over and over.
MC_SCENARIO(C11, crowd, 0)
{
	const int n = mc::pick({ 24, 300 });
	const int m = mc::pick({ 5, 7, 11, 19 }), k = mc::pick({ 1, 13, 17 });
	mc::split();
	World w(18, 21, 0.5f);
	for (int i = 0; i < n; i++) {
		double x = -5 + 0.37 * ((i * 7) % 29), y = -5.5 + 0.41 * ((i * 11) % 27);
		Ref<Shape> s = i % 3 == 0 ? rect(0.4 + 0.1 * (i % 7), 0.9) : i % 3 == 1 ? makeRef<CircleShape>(0.3 + 0.1 * (i % 5), 6) : Ref<Shape>(makeRef<RegularPolygonShape>(0.6, 3 + i % 4));
		w.obstacle(s, { Pose2d(x, y, 0.3 * i), Pose2d(y, -x, 0.2 * i) });
	}
	mc::note(mc::Str() << n << " obstacles, steps " << m << " and " << k);
	const int every = n > 100 ? 37 : 1;
	for (int t = 0; t < 4 * n; t++) {
		w.add((t * m) % n);
		if (t % 3 == 1)
			w.remove((t * k) % n);
		if (t % 5 == 2)
			w.move((t * 3) % n);
		if (t % 40 == 39)
			w.position(0.25 * (t % 7), -0.5 * (t % 5));
		if (t % every == 0)
			mc::state(w.check());
		if (t % (7 * every) == 0)
			w.checkDistances();
	}
	for (int t = 0; t < n; t++) {
		w.remove((t * m + k) % n);
		if (t % every == 0)
			mc::state(w.check());
	}
	w.checkDistances();
}
// Hundreds of obstacles, each alone on its cells: every one has its own identifier.
MC_SCENARIO(C11, apart, 0)
{
	const int n = mc::pick({ 40, 270, 600 });
	const int m = mc::pick({ 1, 7, 11 }), k = mc::pick({ 1, 13 });
	mc::split();
	World w(41, 63, 1.0f);
	for (int i = 0; i < n; i++) {
		double x = -20 + 2 * (i / 30) + 0.25, y = -31 + 2 * (i % 30) + 0.25;
		w.obstacle(rect(0.1, 0.1), { Pose2d(x, y, 0) });
	}
	mc::note(mc::Str() << n << " obstacles, steps " << m << " and " << k);
	for (int t = 0; t < n; t++)
		w.add((t * m) % n);
	mc::state(w.check());
	for (int t = 0; t < n; t += 3)
		w.remove((t * k) % n);
	mc::state(w.check());
	for (int t = 0; t < n; t += 2)
		w.add((t * m) % n);
	mc::state(w.check());
	for (int t = 0; t < n; t++)
		w.remove((t * k) % n);
	mc::state(w.check());
	w.checkDistances();
}
