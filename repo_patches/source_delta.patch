From 127c6389fc08838799c11a1b3de59e75cc34b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:00 +0000
Subject: [PATCH 01/56] fix: keep the cheapest path to a state in A* tree
 search

In tree search, a child whose state was already in the frontier was dropped
by the frontier (unique membership) even if it was reached by a cheaper path,
so the returned path was not optimal with an admissible heuristic.
---
 planner/src/algo/a_star.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 9cbd016..5881b20 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -401,9 +401,16 @@ namespace Planner {
 						ProcessPossibleShortcut(*inFrontier, std::move(childScope), node);
 					}
 				} else {
-					// Add child to frontier and to the tree
-					m_frontier.Push(child);
-					node->AddChild(std::move(childScope));
+					Node* const* inFrontier = m_frontier.Find(child);
+					if (!inFrontier) {
+						// Add child to frontier and to the tree
+						m_frontier.Push(child);
+						node->AddChild(std::move(childScope));
+					} else {
+						// The frontier only accepts one node per state: keep the
+						// cheapest one
+						ProcessPossibleShortcut(*inFrontier, std::move(childScope), node);
+					}
 				}
 			}
 		}
-- 
2.43.0


From ce28591b63213aaa88a3011981591c02a7a34708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:43 +0000
Subject: [PATCH 02/56] fix: discard the previous solution when a search cannot
 be run

An A* or bidirectional A* search that fails because the planner is not
initialized kept reporting the path and the cost of an earlier search.
---
 planner/src/algo/a_star.h               | 1 +
 planner/src/algo/bidirectional_a_star.h | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 5881b20..ff81b8d 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -328,6 +328,7 @@ namespace Planner {
 			PP_PROFILE_FUNCTION();
 
 			if (!isInitialized) {
+				m_solutionNode = nullptr;
 				PP_ERROR("The algorithm has not been initialized successfully.");
 				return Status::Failure;
 			}
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 8de8e8e..1dd71cd 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -130,6 +130,8 @@ namespace Planner {
 		virtual Status SearchPath() override
 		{
 			if (!isInitialized) {
+				m_fSearch.m_solutionNode = nullptr;
+				m_rSearch.m_solutionNode = nullptr;
 				PP_ERROR("The algorithm has not been initialized successfully.");
 				return Status::Failure;
 			}
-- 
2.43.0


From 132a5b134df086d192b594f2787b1b8dee1eeede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:43 +0000
Subject: [PATCH 03/56] fix: do not duplicate the meeting state in the path of
 bidirectional A*

---
 planner/src/algo/bidirectional_a_star.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 1dd71cd..25ca7ce 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -67,7 +67,9 @@ namespace Planner {
 		{
 			auto fPath = m_fSearch.GetPath();
 			auto rPath = m_rSearch.GetPath();
-			fPath.insert(fPath.end(), rPath.rbegin(), rPath.rend());
+			// The last state of the two paths is the state where they meet
+			if (!rPath.empty())
+				fPath.insert(fPath.end(), std::next(rPath.rbegin()), rPath.rend());
 			return fPath;
 		}
 
-- 
2.43.0


From fcd221b541f2ec92def984830c15c4b846d9ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:00 +0000
Subject: [PATCH 04/56] fix: set the goals of the heuristics averaged for
 bidirectional A*

The heuristics wrapped in an average heuristic were evaluated with a goal that
had never been set.
---
 planner/src/algo/a_star.h               | 2 ++
 planner/src/algo/bidirectional_a_star.h | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index ff81b8d..47876b1 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -33,6 +33,8 @@ namespace Planner {
 		friend class AStarCombinedHeuristic;
 		template <typename S1, typename S2, typename Func>
 		friend class AStarHeuristicAdapter;
+		template <typename S>
+		friend class AverageHeuristic;
 		template <typename S, typename A, typename HashState, typename EqualState, bool GraphSearch, typename ExploredContainer>
 		friend class AStar;
 
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 25ca7ce..374a4bf 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -18,7 +18,12 @@ namespace Planner {
 		/// @copydoc Planner::AStar::GetHeuristicValue
 		virtual double GetHeuristicValue(const State& state) override
 		{
-			return m_constant + (m_toGoalHeuristic->GetHeuristicValue(state) - m_toInitHeuristic->GetHeuristicValue(state)) / 2.0;
+			// The two heuristics may be the same object: set the goal before each evaluation
+			m_toGoalHeuristic->SetGoal(this->m_goal);
+			double toGoal = m_toGoalHeuristic->GetHeuristicValue(state);
+			m_toInitHeuristic->SetGoal(m_init);
+			double toInit = m_toInitHeuristic->GetHeuristicValue(state);
+			return m_constant + (toGoal - toInit) / 2.0;
 		}
 
 	private:
@@ -29,6 +34,7 @@ namespace Planner {
 		{
 			m_init = init;
 			this->m_goal = goal;
+			m_toInitHeuristic->SetGoal(init);
 			m_constant = m_toInitHeuristic->GetHeuristicValue(goal) / 2.0;
 		}
 
-- 
2.43.0


From a2dd991ddf7b7a08d23c67b43c3ae6a8a62841fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:27 +0000
Subject: [PATCH 05/56] fix: consider every meeting point in bidirectional A*

The searches only met in states expanded by both of them, although the
stopping criterion assumes that paths crossing from one search to the other
along an edge are taken into account. The path returned could be longer than
the path found by A*.
---
 planner/src/algo/bidirectional_a_star.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 374a4bf..2f81be3 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -190,10 +190,24 @@ namespace Planner {
 	protected:
 		void FindIntersection(AStarNode<State, Action>* nodeA, UnidirectionalAStar& searchA, UnidirectionalAStar& searchB, double& bestPathCost)
 		{
+			CheckCandidate(nodeA, searchA, searchB, bestPathCost);
+			// The best path may cross from one search to the other along the
+			// edge to a child
+			for (auto& child : nodeA->GetChildren())
+				CheckCandidate(child.get(), searchA, searchB, bestPathCost);
+		}
+
+		void CheckCandidate(AStarNode<State, Action>* nodeA, UnidirectionalAStar& searchA, UnidirectionalAStar& searchB, double& bestPathCost)
+		{
+			// Find the node of the other search with the same state
+			AStarNode<State, Action>* nodeB = nullptr;
 			auto it = searchB.m_explored.find((*nodeA)->state);
-			if (it != searchB.m_explored.end()) {
-				auto nodeB = it->second;
+			if (it != searchB.m_explored.end())
+				nodeB = it->second;
+			else if (auto inFrontier = searchB.m_frontier.Find(nodeA))
+				nodeB = *inFrontier;
 
+			if (nodeB) {
 				// Check the path of the new candidate path
 				double candidatePathCost = (*nodeA)->pathCost + (*nodeB)->pathCost;
 				if (candidatePathCost < bestPathCost) {
-- 
2.43.0


From abb691d25cd97f3c41cdd4c9421c1e66b62d02c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:05 +0000
Subject: [PATCH 06/56] fix: forget every reference to a removed obstacle in
 the distance maps

The cells nearest to an obstacle (or Voronoi edge) are not necessarily
connected, so that the wave raised by its removal could miss some of them:
they kept the removed cell as their nearest obstacle, and a wrong distance.
---
 planner/src/state_validator/gvd.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 31226ba..a00a5ed 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -31,6 +31,18 @@ namespace Planner {
 	{
 		PP_PROFILE_FUNCTION();
 
+		// Discard the cells whose nearest obstacle has been removed. The cells which
+		// share the same nearest obstacle are not necessarily connected, the
+		// propagation alone may miss some of them.
+		if (!m_open.empty()) {
+			for (int r = 0; r < rows; r++) {
+				for (int c = 0; c < columns; c++) {
+					if (m_obstacle[r][c].IsValid() && !IsOccupied(m_obstacle[r][c]))
+						UnsetObstacle({ r, c });
+				}
+			}
+		}
+
 		while (!m_open.empty()) {
 			const auto s = m_open.top().position;
 			m_open.pop();
@@ -201,6 +213,18 @@ namespace Planner {
 	{
 		PP_PROFILE_FUNCTION();
 
+		// Discard the cells whose nearest edge has been removed. The cells which
+		// share the same nearest edge are not necessarily connected, the
+		// propagation alone may miss some of them.
+		if (!m_open.empty()) {
+			for (int r = 0; r < rows; r++) {
+				for (int c = 0; c < columns; c++) {
+					if (m_edge[r][c].IsValid() && !IsOccupied(m_edge[r][c]))
+						UnsetEdge({ r, c });
+				}
+			}
+		}
+
 		while (!m_open.empty()) {
 			const auto s = m_open.top().position;
 			m_open.pop();
-- 
2.43.0


From d028f97e9c40484ef6e800197b427bf051fd2962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 07/56] fix: removing an obstacle does not free the cells of
 the others

Removing an obstacle marked all its cells as free, including the cells also
covered by another obstacle of the map. It also used the current pose of the
obstacle: an obstacle moved after it was added left occupied cells behind.
---
 .../obstacle_list_occupancy_map.cpp           | 22 ++++++++++++++-----
 .../obstacle_list_occupancy_map.h             |  8 ++++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index 35b6b49..efaabcc 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -32,9 +32,11 @@ namespace Planner {
 			throw std::runtime_error("The size of the occupancy matrix has not been initialized");
 
 		auto id = FindSmallestIDAvailable(m_obstacleIDs);
-		if (m_obstacles.insert({ obstacle, id }).second) {
+		auto [it, inserted] = m_obstacles.insert({ obstacle, { id, {} } });
+		if (inserted) {
 			m_obstacleIDs.insert(id);
-			for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
+			it->second.cells = obstacle->GetBoundaryGridCellPosition(*this);
+			for (auto& cell : it->second.cells) {
 				(*m_occupancyMatrix)[cell.row][cell.col] = id;
 				m_obstacleDistanceMap->SetObstacle(cell);
 			}
@@ -51,11 +53,21 @@ namespace Planner {
 		auto it = m_obstacles.find(obstacle);
 		if (it == m_obstacles.end())
 			return false;
-		m_obstacleIDs.erase(it->second);
+		m_obstacleIDs.erase(it->second.id);
+		auto cells = std::move(it->second.cells);
 		m_obstacles.erase(it);
-		for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
+		for (auto& cell : cells)
 			(*m_occupancyMatrix)[cell.row][cell.col] = -1;
-			m_obstacleDistanceMap->UnsetObstacle(cell);
+		// Keep the cells which are also covered by another obstacle
+		for (auto& [other, data] : m_obstacles) {
+			for (auto& cell : data.cells) {
+				if ((*m_occupancyMatrix)[cell.row][cell.col] < 0)
+					(*m_occupancyMatrix)[cell.row][cell.col] = data.id;
+			}
+		}
+		for (auto& cell : cells) {
+			if ((*m_occupancyMatrix)[cell.row][cell.col] < 0)
+				m_obstacleDistanceMap->UnsetObstacle(cell);
 		}
 		return true;
 	}
diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.h b/planner/src/state_validator/obstacle_list_occupancy_map.h
index 22a4552..a78ccfc 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.h
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.h
@@ -23,7 +23,13 @@ namespace Planner {
 		virtual bool IsOccupied(const GridCellPosition& cell) override;
 
 	private:
-		std::unordered_map<Ref<Obstacle>, unsigned int> m_obstacles;
+		struct ObstacleData {
+			unsigned int id;
+			// Cells covered by the obstacle when it was added
+			std::vector<GridCellPosition> cells;
+		};
+
+		std::unordered_map<Ref<Obstacle>, ObstacleData> m_obstacles;
 		std::set<unsigned int> m_obstacleIDs;
 	};
 }
-- 
2.43.0


From 81a83449cbc7b8cdb28798ee456d14c9406d7b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:52 +0000
Subject: [PATCH 08/56] fix: accumulate the Voronoi cost along the path in
 Hybrid A*

Only the cost of the last sample was used, and a path leaving the map between
two validated points aborted the search.
---
 planner/src/algo/hybrid_a_star.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index fb4b68c..603734f 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -99,9 +99,11 @@ namespace Planner {
 		const double pathLength = path.GetLength();
 		for (double length = 0.0; length < pathLength; length += interpLength) {
 			auto position = path.Interpolate(length / pathLength).position;
-			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
-			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
-			voronoiCost = m_gvd->GetPathCost(cell);
+			// The path is only validated at a finite number of points, it may
+			// slightly leave the map between two of them
+			float pathCost;
+			if (m_gvd->GetPathCost(position, pathCost))
+				voronoiCost += pathCost;
 		}
 
 		voronoiCost *= interpLength;
-- 
2.43.0


From 0c608c80124f923d184bd7996198b28f9aef32f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:52 +0000
Subject: [PATCH 09/56] fix: validate the final state of a path

The state at the end of the path was never checked, and the distance to the
border of the map mixed world coordinates with local bounds.
---
 .../state_validator_occupancy_map.cpp             | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index 69d0096..9f8752d 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -39,7 +39,7 @@ namespace Planner {
 
 		double lastValidLength = 0.0;
 		double length = 0.0;
-		while (length < pathLength) {
+		while (true) {
 			Pose2d state = path.Interpolate(length / pathLength);
 
 			// Check current state
@@ -49,20 +49,23 @@ namespace Planner {
 				return false;
 			}
 			lastValidLength = length;
+			if (!(length < pathLength))
+				break;
 
 			// Update length
+			Point2d localPosition = m_map->WorldPositionToLocalPosition(state.position);
 			float distToMapBorder = std::min({
-				state.x() - bounds[0].x(),
-				bounds[1].x() - state.x(),
-				state.y() - bounds[0].y(),
-				bounds[1].y() - state.y(),
+				localPosition.x() - bounds[0].x(),
+				bounds[1].x() - localPosition.x(),
+				localPosition.y() - bounds[0].y(),
+				bounds[1].y() - localPosition.y(),
 			});
 			// TODO add offset
 			GridCellPosition cell = m_map->WorldPositionToGridCell(state.position);
 			float distance = m_map->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(cell);
 			float deltaLength = distance - minSafeRadius;
 			deltaLength = std::min(deltaLength, distToMapBorder);
-			length += std::max(deltaLength, minPathInterpolationDistance);
+			length = std::min(length + std::max(deltaLength, minPathInterpolationDistance), pathLength);
 		}
 
 		if (last)
-- 
2.43.0


From c767ea9962a4ba800db4a4533c882b0d9017d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:52 +0000
Subject: [PATCH 10/56] fix: moving the occupancy map after its initialization
 moves its grid

The origin of the grid was only computed by InitializeSize, so that the
position of the map was ignored when it was set afterwards.
---
 planner/src/state_validator/occupancy_map.cpp | 6 ++++++
 planner/src/state_validator/occupancy_map.h   | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.cpp b/planner/src/state_validator/occupancy_map.cpp
index 042bc79..5c35fe5 100644
--- a/planner/src/state_validator/occupancy_map.cpp
+++ b/planner/src/state_validator/occupancy_map.cpp
@@ -13,6 +13,12 @@ namespace Planner {
 		m_obstacleDistanceMap = makeRef<GVD::ObstacleDistanceMap>(m_occupancyMatrix, resolution);
 	}
 
+	void OccupancyMap::SetPosition(const Point2d& position)
+	{
+		m_localOrigin = position;
+		m_worldGridOrigin = m_localOrigin + m_localGridOrigin;
+	}
+
 	void OccupancyMap::Update()
 	{
 		m_obstacleDistanceMap->Update();
diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 336fa6b..4476752 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -37,7 +37,7 @@ namespace Planner {
 		virtual void Update();
 
 		/// @brief Set the position of the bottom left corner of the map.
-		void SetPosition(const Point2d& position) { m_localOrigin = position; }
+		void SetPosition(const Point2d& position);
 		/// @brief Return the position of the bottom left corner of the map in
 		/// the world coordinates.
 		const Point2d& GetPosition() const { return m_localOrigin; }
@@ -125,7 +125,7 @@ namespace Planner {
 		// Position of the origin of the local frame in the world frame
 		Point2d m_localOrigin = { 0.0, 0.0 };
 		// Position of the origin of the grid frame in the local frame
-		Point2d m_localGridOrigin, m_worldGridOrigin;
+		Point2d m_localGridOrigin = { 0.0, 0.0 }, m_worldGridOrigin = { 0.0, 0.0 };
 		// Matrix of cell occupancy (positive or zero value means occupied)
 		Ref<Grid<int>> m_occupancyMatrix;
 		// Distance map to nearest obstacle
-- 
2.43.0


From 433ee27d6f1a9bc70d1d6b12dea31e790becda4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:52 +0000
Subject: [PATCH 11/56] fix: positions just outside of the occupancy map are
 not in its first row or column

The cell was truncated towards zero.
---
 planner/src/state_validator/occupancy_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 4476752..da47366 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -105,8 +105,8 @@ namespace Planner {
 
 		inline GridCellPosition GridPositionToGridCell(double x, double y, bool bounded) const
 		{
-			int row = static_cast<int>(x / resolution);
-			int col = static_cast<int>(y / resolution);
+			int row = static_cast<int>(floor(x / resolution));
+			int col = static_cast<int>(floor(y / resolution));
 
 			if (!bounded)
 				return GridCellPosition(row, col);
-- 
2.43.0


From 294a1aa223bff73e91d8bec1445927dc330988f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:52 +0000
Subject: [PATCH 12/56] fix: keep the obstacles when the occupancy map is moved
 or resized

The obstacles remained in the list but no longer (or at the wrong place) in
the occupancy grid.
---
 .../obstacle_list_occupancy_map.cpp           | 35 ++++++++++++++++---
 .../obstacle_list_occupancy_map.h             |  8 +++++
 planner/src/state_validator/occupancy_map.h   |  4 +--
 3 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index efaabcc..5ed440e 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -10,6 +10,35 @@ namespace Planner {
 	{
 	}
 
+	void ObstacleListOccupancyMap::InitializeSize(float width, float height)
+	{
+		OccupancyMap::InitializeSize(width, height);
+		for (auto& [obstacle, data] : m_obstacles)
+			OccupyCells(obstacle, data);
+	}
+
+	void ObstacleListOccupancyMap::SetPosition(const Point2d& position)
+	{
+		OccupancyMap::SetPosition(position);
+		for (auto& [obstacle, data] : m_obstacles) {
+			for (auto& cell : data.cells) {
+				(*m_occupancyMatrix)[cell.row][cell.col] = -1;
+				m_obstacleDistanceMap->UnsetObstacle(cell);
+			}
+		}
+		for (auto& [obstacle, data] : m_obstacles)
+			OccupyCells(obstacle, data);
+	}
+
+	void ObstacleListOccupancyMap::OccupyCells(const Ref<Obstacle>& obstacle, ObstacleData& data)
+	{
+		data.cells = obstacle->GetBoundaryGridCellPosition(*this);
+		for (auto& cell : data.cells) {
+			(*m_occupancyMatrix)[cell.row][cell.col] = data.id;
+			m_obstacleDistanceMap->SetObstacle(cell);
+		}
+	}
+
 	unsigned int FindSmallestIDAvailable(const std::set<unsigned int>& IDs)
 	{
 		constexpr int smallestAllowedID = 0;
@@ -35,11 +64,7 @@ namespace Planner {
 		auto [it, inserted] = m_obstacles.insert({ obstacle, { id, {} } });
 		if (inserted) {
 			m_obstacleIDs.insert(id);
-			it->second.cells = obstacle->GetBoundaryGridCellPosition(*this);
-			for (auto& cell : it->second.cells) {
-				(*m_occupancyMatrix)[cell.row][cell.col] = id;
-				m_obstacleDistanceMap->SetObstacle(cell);
-			}
+			OccupyCells(obstacle, it->second);
 			return true;
 		}
 		return false;
diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.h b/planner/src/state_validator/obstacle_list_occupancy_map.h
index a78ccfc..6b664d4 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.h
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.h
@@ -12,6 +12,11 @@ namespace Planner {
 	public:
 		ObstacleListOccupancyMap(float resolution);
 
+		/// @copydoc Planner::OccupancyMap::InitializeSize
+		virtual void InitializeSize(float width, float height) override;
+		/// @copydoc Planner::OccupancyMap::SetPosition
+		virtual void SetPosition(const Point2d& position) override;
+
 		/// @brief Add the obstacle to the grid.
 		bool AddObstacle(const Ref<Obstacle>& obstacle);
 		/// @brief Remove the obstacle from the grid.
@@ -29,6 +34,9 @@ namespace Planner {
 			std::vector<GridCellPosition> cells;
 		};
 
+		/// @brief Set the cells covered by an obstacle as occupied.
+		void OccupyCells(const Ref<Obstacle>& obstacle, ObstacleData& data);
+
 		std::unordered_map<Ref<Obstacle>, ObstacleData> m_obstacles;
 		std::set<unsigned int> m_obstacleIDs;
 	};
diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index da47366..c4a9af2 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -27,7 +27,7 @@ namespace Planner {
 		virtual ~OccupancyMap() = default;
 
 		/// @brief Initialize the size of the occupancy grid.
-		void InitializeSize(float width, float height);
+		virtual void InitializeSize(float width, float height);
 		/// @brief Return the number of rows in the occupancy grid.
 		int Rows() const { return m_rows; }
 		/// @brief Return the number of columns in the occupancy grid.
@@ -37,7 +37,7 @@ namespace Planner {
 		virtual void Update();
 
 		/// @brief Set the position of the bottom left corner of the map.
-		void SetPosition(const Point2d& position);
+		virtual void SetPosition(const Point2d& position);
 		/// @brief Return the position of the bottom left corner of the map in
 		/// the world coordinates.
 		const Point2d& GetPosition() const { return m_localOrigin; }
-- 
2.43.0


From 83b34c6a52453eab2ba96d5f4e5f860ec2e1afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:41 +0000
Subject: [PATCH 13/56] fix: the overload of IsPathValid returning the last
 valid state compiles

---
 planner/src/state_validator/state_validator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_validator/state_validator.h b/planner/src/state_validator/state_validator.h
index f25bcf4..6433001 100644
--- a/planner/src/state_validator/state_validator.h
+++ b/planner/src/state_validator/state_validator.h
@@ -30,7 +30,7 @@ namespace Planner {
 		bool IsPathValid(const Path<State>& path, State* last)
 		{
 			float ratio;
-			bool validated = IsPathValid(path, ratio);
+			bool validated = IsPathValid(path, &ratio);
 			if (last)
 				*last = path.Interpolate(ratio);
 			return validated;
-- 
2.43.0


From d6934c91339e55ec64e2f30c543180fb1d7951cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:41 +0000
Subject: [PATCH 14/56] fix: sampling several states returns them

The states were written past the end of an empty vector (or did not compile).
---
 planner/src/state_space/state_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_space/state_space.h b/planner/src/state_space/state_space.h
index cbd0a2e..b64b2d4 100644
--- a/planner/src/state_space/state_space.h
+++ b/planner/src/state_space/state_space.h
@@ -38,7 +38,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleUniform();
+				states.push_back(SampleUniform());
 			}
 			return states;
 		}
@@ -51,7 +51,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleGuassian(meanState, stdDev);
+				states.push_back(SampleGaussian(meanState, stdDev));
 			}
 			return states;
 		}
-- 
2.43.0


From 3bdabb1863031706cce51df38ae8be81ac8e7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 15/56] fix: apply the forward cost multiplier to every
 Reeds-Shepp path

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 79d532a..ddf9491 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -468,7 +468,7 @@ namespace Planner {
 			if (!m_motions[0].IsValid())
 				return std::numeric_limits<float>::infinity();
 
-			if (reverseCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
+			if (reverseCostMultiplier == 1.0f && forwardCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
 				return m_length * minTurningRadius;
 
 			float cost = 0;
-- 
2.43.0


From 7fe301fd969bbc1b3e49c3133e82cc0cd8f8832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 16/56] fix: the Reeds-Shepp shortest distance depends on the
 turning radius

The distance was normalized by the turning radius.
---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index ddf9491..31d6890 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -633,7 +633,7 @@ namespace Planner {
 			if (out)
 				*out = { t, u, v };
 
-			return smallestLength;
+			return smallestLength * minTurningRadius;
 		}
 
 		PathSegment Solver::GetShortestPath(const Pose2d& start, const Pose2d& goal, double minTurningRadius, PathWords* word)
-- 
2.43.0


From abbe851b1670af2cb74c7f987ff2898dfed7085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:36 +0000
Subject: [PATCH 17/56] fix: the default pose is the origin

Its position was not initialized, e.g. for obstacles whose pose is not set.
---
 planner/src/geometry/2dplane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/2dplane.h b/planner/src/geometry/2dplane.h
index cd8023f..287ecdb 100644
--- a/planner/src/geometry/2dplane.h
+++ b/planner/src/geometry/2dplane.h
@@ -21,7 +21,7 @@ namespace Planner {
 		Pose2(T x, T y, T orientation) :
 			position({ x, y }), theta(orientation) { theta = WrapTheta(); }
 
-		Point2<T> position = Point2<T>();
+		Point2<T> position = Point2<T>::Zero();
 		T theta = 0.0;
 
 		inline T& x() { return position.x(); }
-- 
2.43.0


From 2016e1b72c9e2ad9ca4dc4505ee42b9f75264947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:34 +0000
Subject: [PATCH 18/56] fix: truncating a Reeds-Shepp path removes the motions
 after the ratio

The truncated motion was erased instead of the following ones, and the length
of the path segment was left unchanged.
---
 planner/src/paths/path_reeds_shepp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index 1cc32f8..a7d8fc5 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -81,7 +81,7 @@ namespace Planner {
 				if (length >= ratio * totalLength) {
 					m_pathSegment.m_motions[i].length *= motionRatio;
 					for (int ii = i + 1; ii < ReedsShepp::PathSegment::numMotion; ii++) {
-						m_pathSegment.m_motions[i] = ReedsShepp::Motion();
+						m_pathSegment.m_motions[ii] = ReedsShepp::Motion();
 					}
 					break;
 				}
@@ -91,6 +91,7 @@ namespace Planner {
 
 		// Update the path length
 		m_length *= ratio;
+		m_pathSegment.m_length *= ratio;
 	}
 
 	std::set<double> PathReedsShepp::GetCuspPointRatios() const
-- 
2.43.0


From 068cbc3769cdcf5acd659c463f37e1a38f9da3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:34 +0000
Subject: [PATCH 19/56] fix: direction at the ends of a Reeds-Shepp path

Motions of length zero were taken into account, and rounding could leave the
end of the path without direction.
---
 planner/src/paths/path_reeds_shepp.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index a7d8fc5..67a11b8 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -157,14 +157,18 @@ namespace Planner {
 			return Direction::NoMotion;
 
 		double length = 0;
+		Direction direction = Direction::NoMotion;
 		for (const auto& motion : m_pathSegment.m_motions) {
 			if (!motion.IsValid())
 				break;
+			if (motion.length == 0)
+				continue;
+			direction = motion.direction;
 			length += motion.length * m_minTurningRadius;
 			if (ratio * m_length <= length)
-				return motion.direction;
+				break;
 		}
-		return Direction::NoMotion;
+		return direction;
 	}
 
 	double PathReedsShepp::ComputeCost(double directionSwitchingCost, double reverseCostMultiplier, double forwardCostMultiplier) const
-- 
2.43.0


From e2f7fba01b20209cfcea1bfaf98a7b7e3f9a4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:34 +0000
Subject: [PATCH 20/56] fix: ends of a composite path

The initial state was never set, the end of a truncated piece was not updated
and rounding could interpolate a piece outside of its range.
---
 planner/src/paths/path_composite.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 82673ad..56a1e2d 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -34,6 +34,8 @@ namespace Planner {
 		void PushBack(const Ref<BasePath>& path)
 		{
 			double pathLength = path->GetLength();
+			if (m_paths.empty())
+				this->m_init = path->GetInitialState();
 			m_paths.push_back({ PathInfo(this->m_length, this->m_length + pathLength), path });
 			this->m_final = path->GetFinalState();
 			this->m_length += pathLength;
@@ -65,6 +67,7 @@ namespace Planner {
 			this->m_final = it->second->GetFinalState();
 			this->m_length = it->first.initLength + it->second->GetLength();
 			m_paths.erase(std::next(it), m_paths.end());
+			m_paths.back().first.finalLength = this->m_length;
 		}
 
 	protected:
@@ -81,7 +84,7 @@ namespace Planner {
 			double pathLength = it->second->GetLength();
 			if (pathLength == 0.0)
 				return { it, 0.0 };
-			double pathRatio = (length - it->first.initLength) / pathLength;
+			double pathRatio = std::clamp((length - it->first.initLength) / pathLength, 0.0, 1.0);
 			return { it, pathRatio };
 		}
 
-- 
2.43.0


From 9887d2af156778544820bd4ef2dff498021884dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:34 +0000
Subject: [PATCH 21/56] fix: direction and cusp points of a composite path

The direction at the end of the path was read past the last piece, and the
cusp points of the pieces were not scaled to the whole path.
---
 planner/src/paths/path_composite.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 59d3545..61d1f0e 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -5,22 +5,23 @@ namespace Planner {
 	{
 		std::set<double> ratios;
 
-		if (m_paths.empty())
-			return ratios;
-
 		double length = 0.0;
-		Direction prevDirection = m_paths[0].second->GetDirection(0.0);
+		Direction prevDirection = Direction::NoMotion;
 		for (auto& path : m_paths) {
+			const double pathLength = path.second->GetLength();
+			if (pathLength == 0.0)
+				continue;
+
 			// Check if the path starts with same direction as the previous ends
-			if (path.second->GetDirection(0.0) != prevDirection)
+			if (length > 0.0 && path.second->GetDirection(0.0) != prevDirection)
 				ratios.insert(length / this->m_length);
 
 			// Check for cusp point in the path
-			auto cusps = path.second->GetCuspPointRatios();
-			ratios.insert(cusps.begin(), cusps.end());
+			for (double cusp : path.second->GetCuspPointRatios())
+				ratios.insert((length + cusp * pathLength) / this->m_length);
 
 			prevDirection = path.second->GetDirection(1.0);
-			length += path.second->GetLength();
+			length += pathLength;
 		}
 
 		return ratios;
@@ -28,7 +29,16 @@ namespace Planner {
 
 	Direction PathSE2CompositeNonHolonomic::GetDirection(double ratio) const
 	{
+		if (m_paths.empty())
+			return Direction::NoMotion;
+
 		auto [it, pathRatio] = FindSegment(ratio);
+		if (it == m_paths.end()) {
+			// Find the last path with a motion
+			it--;
+			while (it != m_paths.begin() && it->second->GetLength() == 0.0)
+				it--;
+		}
 		return it->second->GetDirection(pathRatio);
 	}
 }
-- 
2.43.0


From 3a8e6293e9a9516cb4b3a0d3de6ee4168ce0b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:36 +0000
Subject: [PATCH 22/56] fix: a node keeps its own children when it adopts those
 of the node it replaces

---
 planner/src/utils/node.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/utils/node.h b/planner/src/utils/node.h
index 5d77e09..6239954 100644
--- a/planner/src/utils/node.h
+++ b/planner/src/utils/node.h
@@ -178,8 +178,9 @@ namespace Planner {
 					if (adoptGrandchildren) {
 						for (auto& child : bratScope->m_children) {
 							child->m_parent = changeling.get();
+							changeling->m_children.push_back(std::move(child));
 						}
-						changeling->m_children = std::move(bratScope->m_children);
+						bratScope->m_children.clear();
 					}
 					changeling->m_parent = this;
 					*it = std::move(changeling);
-- 
2.43.0


From 1d8fc97924fc356335cc627a94c789d7e8020dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:06 +0000
Subject: [PATCH 23/56] fix: an empty tree has no nearest node

---
 planner/src/utils/tree.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/planner/src/utils/tree.h b/planner/src/utils/tree.h
index a751fce..d3cee7d 100644
--- a/planner/src/utils/tree.h
+++ b/planner/src/utils/tree.h
@@ -73,7 +73,7 @@ namespace Planner {
 		std::vector<Node*> GetNearestNodes(const State& state, const unsigned int nn = 1)
 		{
 			std::vector<Node*> nodes;
-			if (nn == 0)
+			if (nn == 0 || m_exploredNodeMap.empty())
 				return nodes;
 
 			flann::Matrix<DataType> query;
@@ -98,9 +98,12 @@ namespace Planner {
 		/// @details This method searches a k-d tree of the points to determine
 		/// the nearest neighbor.
 		/// @param state The state whose closest neighbor must be find.
-		/// @return The nearest node to @state.
+		/// @return The nearest node to @state, nullptr if the tree is empty.
 		Node* GetNearestNode(const State& state)
 		{
+			if (m_exploredNodeMap.empty())
+				return nullptr;
+
 			flann::Matrix<DataType> query;
 			query = flann::Matrix<DataType>((DataType*)&state, 1, sizeof(state) / sizeof(DataType));
 
-- 
2.43.0


From 73eae3ce6c776a0d84cd2f727d4269fd2e1a1746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:30 +0000
Subject: [PATCH 24/56] fix: creating the root of a tree forgets the nodes of
 the previous one

---
 planner/src/utils/tree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/utils/tree.h b/planner/src/utils/tree.h
index d3cee7d..8f4398f 100644
--- a/planner/src/utils/tree.h
+++ b/planner/src/utils/tree.h
@@ -55,9 +55,11 @@ namespace Planner {
 			return (node->IsDescendantOf(m_rootNode.get()) || (node == m_rootNode.get()));
 		}
 
-		/// @brief Create the root node of the tree.
+		/// @brief Create the root node of the tree. The nodes of the previous
+		/// tree (if any) are deleted.
 		Node* CreateRootNode(const State& start)
 		{
+			Clear();
 			m_rootNode = makeScope<Node>(start);
 			m_exploredNodeMap.insert({ start, m_rootNode.get() });
 			m_kdTree.buildIndex(flann::Matrix<DataType>((DataType*)&((*m_rootNode)->state), 1, m_dimensions));
-- 
2.43.0


From d13c20bc5ca4fafd091b630c8dc0ba7153444d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:01 +0000
Subject: [PATCH 25/56] fix: uniform samples never exceed the bounds of the
 state space

---
 planner/src/state_space/state_space_r2.cpp  | 2 ++
 planner/src/state_space/state_space_se2.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/planner/src/state_space/state_space_r2.cpp b/planner/src/state_space/state_space_r2.cpp
index ce85ede..b1e3a1a 100644
--- a/planner/src/state_space/state_space_r2.cpp
+++ b/planner/src/state_space/state_space_r2.cpp
@@ -31,6 +31,8 @@ namespace Planner {
 		state.x() = Random<double>::SampleUniform(lb.x(), ub.x());
 		state.y() = Random<double>::SampleUniform(lb.y(), ub.y());
 		// clang-format off
+		// The bounds may be exceeded because of rounding errors
+		EnforceBounds(state);
 		return state;
 	}
 
diff --git a/planner/src/state_space/state_space_se2.cpp b/planner/src/state_space/state_space_se2.cpp
index 5c57d0c..1f4aa5e 100644
--- a/planner/src/state_space/state_space_se2.cpp
+++ b/planner/src/state_space/state_space_se2.cpp
@@ -34,6 +34,8 @@ namespace Planner {
 		state.y()   = Random<double>::SampleUniform(lb.y(),   ub.y());
 		state.theta = Random<double>::SampleUniform(lb.theta, ub.theta);
 		// clang-format off
+		// The bounds may be exceeded because of rounding errors
+		EnforceBounds(state);
 		return state;
 	}
 
-- 
2.43.0


From 13f76962d9c25289064068c84b0680a226b711e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:25 +0000
Subject: [PATCH 26/56] fix: RRT keeps the path of a node whose state is
 reached again

---
 planner/src/algo/rrt.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/rrt.h b/planner/src/algo/rrt.h
index 52206a7..c886431 100644
--- a/planner/src/algo/rrt.h
+++ b/planner/src/algo/rrt.h
@@ -81,8 +81,11 @@ namespace Planner {
 				const Vertex& newState = pathNearToNew->GetFinalState();
 
 				// Add the node to the tree
+				const auto previousSize = m_tree.Size();
 				TreeNode* newNode = m_tree.Extend(newState, nearestNode);
-				(*newNode)->info.path = std::move(pathNearToNew);
+				// The node of a state already in the tree keeps its parent
+				if (m_tree.Size() > previousSize)
+					(*newNode)->info.path = pathNearToNew;
 
 				// Check solution
 				if (IsSolution(newState)) {
-- 
2.43.0


From fdd5c8c4a042ea4be2a04fceb4b6a56cecce5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:25 +0000
Subject: [PATCH 27/56] fix: RRT* keeps the cost and path of a node whose state
 is reached again

---
 planner/src/algo/rrt_star.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 8b21024..7dd4fa0 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -97,9 +97,13 @@ namespace Planner {
 				}
 
 				// Add the node to the tree
+				const auto previousSize = m_tree.Size();
 				auto newNode = m_tree.Extend(newState, bestParentNode);
-				(*newNode)->info.costFromGoal = bestCost;
-				(*newNode)->info.path = std::move(bestPath);
+				// The node of a state already in the tree keeps its parent
+				if (m_tree.Size() > previousSize) {
+					(*newNode)->info.costFromGoal = bestCost;
+					(*newNode)->info.path = std::move(bestPath);
+				}
 
 				// Check solution
 				if (IsSolution(newState)) {
-- 
2.43.0


From 5e7aada1170eff1a5b1ebf63ab290d2bdbd5f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:44 +0000
Subject: [PATCH 28/56] fix: no position is reported for a missing obstacle or
 Voronoi edge

---
 planner/src/state_validator/gvd.cpp | 10 ++++++++--
 planner/src/state_validator/gvd.h   |  8 +++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index a00a5ed..8af4b9f 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -329,7 +329,10 @@ namespace Planner {
 		auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
 		if (!m_occupancyMap->IsInsideMap(cell))
 			return false;
-		obstacle = m_occupancyMap->GridCellToWorldPosition(GetNearestObstacleCell(cell));
+		const auto& obstacleCell = GetNearestObstacleCell(cell);
+		if (!obstacleCell.IsValid())
+			return false;
+		obstacle = m_occupancyMap->GridCellToWorldPosition(obstacleCell);
 		return true;
 	}
 
@@ -338,7 +341,10 @@ namespace Planner {
 		auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
 		if (!m_occupancyMap->IsInsideMap(cell))
 			return false;
-		voronoi = m_occupancyMap->GridCellToWorldPosition(GetNearestVoronoiEdgeCell(cell));
+		const auto& edgeCell = GetNearestVoronoiEdgeCell(cell);
+		if (!edgeCell.IsValid())
+			return false;
+		voronoi = m_occupancyMap->GridCellToWorldPosition(edgeCell);
 		return true;
 	}
 
diff --git a/planner/src/state_validator/gvd.h b/planner/src/state_validator/gvd.h
index 64cec7a..6d62b12 100644
--- a/planner/src/state_validator/gvd.h
+++ b/planner/src/state_validator/gvd.h
@@ -150,12 +150,14 @@ namespace Planner {
 		/// @brief Return the position of the nearest obstacle
 		/// @param[in] position The world position.
 		/// @param[out] obstacle The position of the nearest obstacle.
-		/// @return True if position is in the map, false otherwise.
+		/// @return True if position is in the map and the map has an obstacle,
+		/// false otherwise.
 		[[nodiscard]] bool GetNearestObstaclePosition(const Point2d& position, Point2d& obstacle) const;
 		/// @brief Return the position of the nearest Voronoi edge
 		/// @param[in] position The world position.
-		/// @param[out] voronoi The position of the nearest obstacle.
-		/// @return True if position is in the map, false otherwise.
+		/// @param[out] voronoi The position of the nearest Voronoi edge.
+		/// @return True if position is in the map and the map has a Voronoi
+		/// edge, false otherwise.
 		[[nodiscard]] bool GetNearestVoronoiEdgePosition(const Point2d& position, Point2d& voronoi) const;
 		/// @brief Return the distance to the nearest obstacle
 		/// @param[in] position The world position.
-- 
2.43.0


From 1f52e692e65b5fd78d5f3e66726d65bb985bc54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:46 +0000
Subject: [PATCH 29/56] fix: the Voronoi edges always match the obstacles of
 the last update

Edges were kept where the nearest obstacle of a neighbouring cell changed or
where all obstacles were removed, and none was found when the diagram was
created after the map had been updated.
---
 planner/src/state_validator/gvd.cpp | 48 ++++++++++++++++++++++-------
 planner/src/state_validator/gvd.h   |  1 +
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 8af4b9f..389cf94 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -62,9 +62,6 @@ namespace Planner {
 				}
 				m_toRaise[s.row][s.col] = false;
 			} else if (IsOccupied(m_obstacle[s.row][s.col])) {
-				m_voro[s.row][s.col] = false;
-				if (m_voronoiMap)
-					m_voronoiMap->UnsetEdge(s);
 				m_toProcess[s.row][s.col] = false;
 				for (auto& n : s.GetNeighbors(rows, columns)) {
 					if (!m_toRaise[n.row][n.col]) {
@@ -74,13 +71,46 @@ namespace Planner {
 							m_obstacle[n.row][n.col] = m_obstacle[s.row][s.col];
 							m_open.push({ n, d });
 							m_toProcess[n.row][n.col] = true;
-						} else if (m_voronoiMap) {
-							CheckVoro(s, n);
 						}
 					}
 				}
 			}
 		}
+
+		if (m_voronoiMap)
+			UpdateVoronoiEdges();
+	}
+
+	void GVD::ObstacleDistanceMap::UpdateVoronoiEdges()
+	{
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++)
+				m_voro[r][c] = false;
+		}
+
+		// The cells on both sides of a Voronoi edge depend on one another
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++) {
+				const GridCellPosition s(r, c);
+				if (!m_obstacle[r][c].IsValid())
+					continue;
+				for (auto& n : s.GetNeighbors(rows, columns)) {
+					if (m_obstacle[n.row][n.col].IsValid())
+						CheckVoro(s, n);
+				}
+			}
+		}
+
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++) {
+				const GridCellPosition s(r, c);
+				const bool isEdge = m_voronoiMap->GetNearestVoronoiEdgeCell(s) == s;
+				if (m_voro[r][c] && !isEdge)
+					m_voronoiMap->SetEdge(s);
+				else if (!m_voro[r][c] && isEdge)
+					m_voronoiMap->UnsetEdge(s);
+			}
+		}
 	}
 
 	void GVD::ObstacleDistanceMap::SetObstacle(const GridCellPosition& s)
@@ -130,14 +160,10 @@ namespace Planner {
 				auto nStability = nObstS - m_distance[n.row][n.col];
 				if (sStability < 0 || nStability < 0)
 					return;
-				if (sStability <= nStability) {
+				if (sStability <= nStability)
 					m_voro[s.row][s.col] = true;
-					m_voronoiMap->SetEdge(s);
-				}
-				if (nStability <= sStability) {
+				if (nStability <= sStability)
 					m_voro[n.row][n.col] = true;
-					m_voronoiMap->SetEdge(n);
-				}
 			}
 		}
 	}
diff --git a/planner/src/state_validator/gvd.h b/planner/src/state_validator/gvd.h
index 6d62b12..093c364 100644
--- a/planner/src/state_validator/gvd.h
+++ b/planner/src/state_validator/gvd.h
@@ -43,6 +43,7 @@ namespace Planner {
 		private:
 			bool CheckVoroConditions(const GridCellPosition& s, const GridCellPosition& n, const GridCellPosition& obstS, const GridCellPosition& obstN);
 			void CheckVoro(const GridCellPosition& s, const GridCellPosition& n);
+			void UpdateVoronoiEdges();
 			void RebuildVoronoi();
 			bool PatternMatch(const GridCellPosition& s);
 			bool IsOccupied(const GridCellPosition& s);
-- 
2.43.0


From ffb5dae462d238257eb7385469c6a7ceabd5d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:06 +0000
Subject: [PATCH 30/56] fix: the straight-line part of the obstacle heuristic
 uses the cost multipliers

---
 planner/src/algo/heuristics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 76cbf29..8f5de59 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -154,7 +154,8 @@ namespace Planner {
 
 	double ObstaclesHeuristic::GetHeuristicValue(const Pose2d& state)
 	{
-		auto euclidean = (m_goal.position - state.position).norm();
+		// The cost of the straight line must not exceed the cost of the cheapest motion
+		auto euclidean = costMultiplier / m_map->resolution * (m_goal.position - state.position).norm();
 		auto cell = m_map->WorldPositionToGridCell(state.position);
 		if (!cell.IsValid())
 			return euclidean;
-- 
2.43.0


From 83c1abbf9e997492f5a5135a36c93ea53d2242a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:34 +0000
Subject: [PATCH 31/56] fix: the obstacle heuristic keeps the shortest path to
 a cell found twice

---
 planner/src/algo/heuristics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 8f5de59..a7daca1 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -142,7 +142,7 @@ namespace Planner {
 				} else if (inFrontier) {
 					// Check if the node in frontier has a higher cost than the
 					// current path, and if so replace it by child
-					if (inFrontier->value > m_cost[n.row][n.col]) {
+					if (inFrontier->value > pathCost) {
 						frontier.Remove({ n, 0.0f });
 						frontier.Push({ n, pathCost });
 						m_cost[n.row][n.col] = pathCost;
-- 
2.43.0


From 9a752d5618a39e49a726822d359cd3f5951987b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:25 +0000
Subject: [PATCH 32/56] fix: lookup of negative headings in the table of the
 non-holonomic heuristic

---
 planner/src/algo/heuristics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index a7daca1..2d04a93 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -81,8 +81,9 @@ namespace Planner {
 
 		int i = (int)round((delta.x() + offsetX) / spatialResolution);
 		int j = (int)round((delta.y() + offsetY) / spatialResolution);
-		int k = (int)round(delta.theta / angularResolution);
-		if (k == numAngular)
+		// The table contains headings from 0 to 2 pi
+		int k = (int)round((delta.theta < 0 ? delta.theta + 2 * M_PI : delta.theta) / angularResolution);
+		if (k >= numAngular)
 			k = 0;
 
 		if (i < 0 || i >= numSpatialX || j < 0 || j >= numSpatialY) {
-- 
2.43.0


From 0f6afd0af0c03311d3d6c812c5312b89c40bc8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:25 +0000
Subject: [PATCH 33/56] fix: lookup of the non-holonomic heuristic in the frame
 of the goal

---
 planner/src/algo/heuristics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 2d04a93..295c063 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -77,7 +77,8 @@ namespace Planner {
 
 	double NonHolonomicHeuristic::GetHeuristicValue(const Pose2d& state)
 	{
-		auto delta = m_goal - state;
+		// The table contains the cost from a pose in the frame of the goal
+		auto delta = state - m_goal;
 
 		int i = (int)round((delta.x() + offsetX) / spatialResolution);
 		int j = (int)round((delta.y() + offsetY) / spatialResolution);
-- 
2.43.0


From 47dcbe272bf249f3c330b3143b16246347f0401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:24 +0000
Subject: [PATCH 34/56] fix: no obstacle nor Voronoi term without obstacle or
 Voronoi edge

---
 planner/src/algo/smoother.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 877b74a..b62f8ea 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -107,9 +107,10 @@ namespace Planner {
 				// Original path term
 				gradients[i] += m_param.pathWeight * (path[i].position - curr);
 
-				if (m_map->IsInsideMap(curr)) {
+				Point2d closestObs;
+				if (m_gvd->GetNearestObstaclePosition(curr, closestObs)) {
 					// Collision term
-					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)));
+					Point2d dirToClosestObs = curr - closestObs;
 					float obstDist = dirToClosestObs.norm();
 					if (obstDist < unsafeRadius)
 						gradients[i] += m_param.collisionWeight * (obstDist - unsafeRadius) * dirToClosestObs / obstDist;
@@ -117,8 +118,9 @@ namespace Planner {
 					// Voronoi term
 					const auto& alpha = m_gvd->alpha;
 					const auto& dMax = m_gvd->dMax;
-					if (obstDist < dMax && m_param.voronoiWeight > 0.0f) {
-						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr)));
+					Point2d closestVoroEdge;
+					if (obstDist < dMax && m_param.voronoiWeight > 0.0f && m_gvd->GetNearestVoronoiEdgePosition(curr, closestVoroEdge)) {
+						Point2d dirToClosestVoroEdge = curr - closestVoroEdge;
 						float voroDist = dirToClosestVoroEdge.norm();
 
 						if (voroDist > 0.0f) {
-- 
2.43.0


From 40c5255e65fd2af8095dd61deabd3bf637d201fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:50 +0000
Subject: [PATCH 35/56] fix: the path term of the smoother draws towards the
 original path

---
 planner/src/algo/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index b62f8ea..e919f27 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -105,7 +105,7 @@ namespace Planner {
 				const Point2d& curr = m_currentPath[i].position;
 
 				// Original path term
-				gradients[i] += m_param.pathWeight * (path[i].position - curr);
+				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
 				Point2d closestObs;
 				if (m_gvd->GetNearestObstaclePosition(curr, closestObs)) {
-- 
2.43.0


From ebd41c02f1ea362208372dac0fbfe07dbf2a4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:57 +0000
Subject: [PATCH 36/56] fix: the cell of a position far outside of the map is
 invalid

---
 planner/src/state_validator/gvd.cpp         | 10 +++++-----
 planner/src/state_validator/occupancy_map.h | 15 +++++++--------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 389cf94..46deee9 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -352,7 +352,7 @@ namespace Planner {
 
 	bool GVD::GetNearestObstaclePosition(const Point2d& position, Point2d& obstacle) const
 	{
-		auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
+		auto cell = m_occupancyMap->WorldPositionToGridCell(position);
 		if (!m_occupancyMap->IsInsideMap(cell))
 			return false;
 		const auto& obstacleCell = GetNearestObstacleCell(cell);
@@ -364,7 +364,7 @@ namespace Planner {
 
 	bool GVD::GetNearestVoronoiEdgePosition(const Point2d& position, Point2d& voronoi) const
 	{
-		auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
+		auto cell = m_occupancyMap->WorldPositionToGridCell(position);
 		if (!m_occupancyMap->IsInsideMap(cell))
 			return false;
 		const auto& edgeCell = GetNearestVoronoiEdgeCell(cell);
@@ -376,7 +376,7 @@ namespace Planner {
 
 	bool GVD::GetDistanceToNearestObstacle(const Point2d& position, float& distance) const
 	{
-		auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
+		auto cell = m_occupancyMap->WorldPositionToGridCell(position);
 		if (!m_occupancyMap->IsInsideMap(cell))
 			return false;
 		distance = GetDistanceToNearestObstacle(cell);
@@ -385,7 +385,7 @@ namespace Planner {
 
 	bool GVD::GetDistanceToNearestVoronoiEdge(const Point2d& position, float& distance) const
 	{
-		auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
+		auto cell = m_occupancyMap->WorldPositionToGridCell(position);
 		if (!m_occupancyMap->IsInsideMap(cell))
 			return false;
 		distance = GetDistanceToNearestVoronoiEdge(cell);
@@ -396,7 +396,7 @@ namespace Planner {
 	{
 		PP_PROFILE_FUNCTION();
 
-		auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
+		auto cell = m_occupancyMap->WorldPositionToGridCell(position);
 		if (!m_occupancyMap->IsInsideMap(cell))
 			return false;
 		cost = GetPathCost(cell);
diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index c4a9af2..667820f 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -105,15 +105,14 @@ namespace Planner {
 
 		inline GridCellPosition GridPositionToGridCell(double x, double y, bool bounded) const
 		{
-			int row = static_cast<int>(floor(x / resolution));
-			int col = static_cast<int>(floor(y / resolution));
-
-			if (!bounded)
-				return GridCellPosition(row, col);
-			else if (IsInsideMap(GridCellPosition(row, col)))
-				return GridCellPosition(row, col);
-			else
+			double row = floor(x / resolution);
+			double col = floor(y / resolution);
+
+			// Check the bounds before the conversion to int, which the row and
+			// column of a position far outside of the map may not fit in
+			if (bounded && !(row >= 0 && row < m_rows && col >= 0 && col < m_columns))
 				return GridCellPosition(-1, -1);
+			return GridCellPosition(static_cast<int>(row), static_cast<int>(col));
 		}
 
 	public:
-- 
2.43.0


From 82c7884ad196a80e138892903f95574a354da0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 37/56] fix: the gradient of the smoother is finite on an
 obstacle and between identical points

---
 planner/src/algo/smoother.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index e919f27..b827e24 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -112,7 +112,7 @@ namespace Planner {
 					// Collision term
 					Point2d dirToClosestObs = curr - closestObs;
 					float obstDist = dirToClosestObs.norm();
-					if (obstDist < unsafeRadius)
+					if (obstDist < unsafeRadius && obstDist > 0.0f)
 						gradients[i] += m_param.collisionWeight * (obstDist - unsafeRadius) * dirToClosestObs / obstDist;
 
 					// Voronoi term
@@ -123,7 +123,7 @@ namespace Planner {
 						Point2d dirToClosestVoroEdge = curr - closestVoroEdge;
 						float voroDist = dirToClosestVoroEdge.norm();
 
-						if (voroDist > 0.0f) {
+						if (voroDist > 0.0f && obstDist > 0.0f) {
 							float alphaPlusObstDist = alpha + obstDist;
 							float obstDistMinusDMax = obstDist - dMax;
 							float obstDistPlusVoroDist = obstDist + voroDist;
@@ -163,6 +163,8 @@ namespace Planner {
 	{
 		Point2d deltaXi = xi - xim1;
 		Point2d deltaXip1 = xip1 - xi;
+		if (deltaXi.norm() == 0.0 || deltaXip1.norm() == 0.0)
+			return; // The curvature is not defined between identical points
 		float deltaPhi = acos(std::clamp<float>((deltaXi.normalized().dot(deltaXip1.normalized())), -1.0f, 1.0f));
 
 		// The curvature is approximated by deltaPhi / norm_deltaXi
-- 
2.43.0


From 28eec70c27e7e63ad999c14784fab7b23e57fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:12 +0000
Subject: [PATCH 38/56] fix: the path of the hybrid A* is sampled up to the
 goal and at every cusp

---
 planner/src/algo/hybrid_a_star.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 603734f..5d38367 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -274,18 +274,17 @@ namespace Planner {
 			cuspRatios.insert(0.0);
 			cuspRatios.insert(1.0);
 			ratios.reserve(pathLength / pathInterpolation + cuspRatios.size());
-			auto cuspRatioIt = cuspRatios.begin();
-			for (double length = 0.0; length <= pathLength; length += pathInterpolation) {
-				// Sample cusp point
-				double cuspLength = *cuspRatioIt * pathLength;
-				if (length >= cuspLength - pathInterpolation / 2 && length < cuspLength + pathInterpolation / 2) {
-					cuspIndices.insert(ratios.size());
-					ratios.push_back(*cuspRatioIt);
-					cuspRatioIt++;
-				} else {
-					// Sample at regular interval
+			double length = 0.0;
+			for (double cuspRatio : cuspRatios) {
+				double cuspLength = cuspRatio * pathLength;
+				// Sample at regular interval until the next cusp point
+				for (; length < cuspLength - pathInterpolation / 2; length += pathInterpolation)
 					ratios.push_back(length / pathLength);
-				}
+				// Sample cusp point
+				cuspIndices.insert(ratios.size());
+				ratios.push_back(cuspRatio);
+				while (length < cuspLength + pathInterpolation / 2)
+					length += pathInterpolation;
 			}
 
 			// Sample points
-- 
2.43.0


From 79acafe3e384b3afce3cac30a39fd703d13df829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:06 +0000
Subject: [PATCH 39/56] fix: headings on both sides of pi are identical for the
 hybrid A*

---
 planner/src/algo/hybrid_a_star.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 3aac712..659eb5e 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -207,7 +207,8 @@ namespace Planner {
 		private:
 			inline bool IdenticalPoses(const Pose2d& lhs, const Pose2d& rhs, double tol = 1e-3)
 			{
-				return (lhs.position - rhs.position).norm() < tol && abs(lhs.theta - rhs.theta) < tol * M_PI / 180.0;
+				const double deltaTheta = Pose2d(0.0, 0.0, lhs.theta - rhs.theta).theta;
+				return (lhs.position - rhs.position).norm() < tol && std::abs(deltaTheta) < tol * M_PI / 180.0;
 			}
 		};
 
-- 
2.43.0


From 329c953097c1ce7ce1b4fb9f3d1e82d88d78babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:10 +0000
Subject: [PATCH 40/56] fix: the goal of the hybrid A* is reachable when its
 cell contains another pose

---
 planner/src/algo/hybrid_a_star.cpp | 1 +
 planner/src/algo/hybrid_a_star.h   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 5d38367..eca89dd 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -165,6 +165,7 @@ namespace Planner {
 		double pathAndSwitchingCosts = path->ComputeCost(m_param.directionSwitchingCost,
 			m_param.reverseCostMultiplier, m_param.forwardCostMultiplier);
 		child = CreateStateFromPath(path);
+		child.isGoal = true;
 		action.path = std::move(path);
 
 		// Compute transition cost
diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 659eb5e..1322756 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -63,6 +63,10 @@ namespace Planner {
 			Pose2i discretePose;
 			/// @brief Pose
 			Pose2d continuousPose;
+			/// @brief Whether the pose is exactly the goal. The goal is never
+			/// considered equal to the other poses of its cell, which would
+			/// otherwise prevent the search from reaching it.
+			bool isGoal = false;
 
 			/// @brief Hasher for the discretized configuration space.
 			/// @details Two states are considered equal if they correspond to the
@@ -81,7 +85,7 @@ namespace Planner {
 			struct Equal {
 				bool operator()(const State& lhs, const State& rhs) const
 				{
-					return lhs.discretePose == rhs.discretePose;
+					return lhs.discretePose == rhs.discretePose && lhs.isGoal == rhs.isGoal;
 				}
 			};
 		};
-- 
2.43.0


From 4b0785d08382116331d448fa575bc3881b811cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:55 +0000
Subject: [PATCH 41/56] fix: the hybrid A* pays for every change of direction

---
 planner/src/algo/hybrid_a_star.cpp | 12 ++++++++++--
 planner/src/algo/hybrid_a_star.h   |  4 ++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index eca89dd..6614d21 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -110,6 +110,14 @@ namespace Planner {
 		return m_param.voronoiCostMultiplier * voronoiCost;
 	}
 
+	double HybridAStar::StatePropagator::GetSwitchingCost(const State& state, const PathNonHolonomicSE2Base& path) const
+	{
+		const Direction direction = path.GetDirection(0.0);
+		if (state.direction == Direction::NoMotion || direction == Direction::NoMotion || state.direction == direction)
+			return 0.0;
+		return m_param.directionSwitchingCost;
+	}
+
 	bool HybridAStar::StatePropagator::GetConstantSteerChild(const State& state, double delta, Direction direction, State& child, Action& action, double& cost) const
 	{
 		PP_PROFILE_FUNCTION();
@@ -141,7 +149,7 @@ namespace Planner {
 		default:
 			pathCost = 0.0;
 		}
-		double switchingCost = action.path->GetDirection(1.0) == action.path->GetDirection(1.0) ? 0.0 : m_param.directionSwitchingCost;
+		double switchingCost = GetSwitchingCost(state, *action.path);
 		double voronoiCost = GetVoronoiCost(*action.path);
 		cost = pathCost + switchingCost + voronoiCost;
 
@@ -170,7 +178,7 @@ namespace Planner {
 
 		// Compute transition cost
 		double voronoiCost = GetVoronoiCost(*action.path);
-		cost = pathAndSwitchingCosts + voronoiCost;
+		cost = pathAndSwitchingCosts + GetSwitchingCost(state, *action.path) + voronoiCost;
 
 		return true;
 	}
diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 1322756..043ea88 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -136,6 +136,10 @@ namespace Planner {
 		private:
 			double GetVoronoiCost(const PathNonHolonomicSE2Base& path) const;
 
+			/// @brief Cost to change the direction of motion between @state and
+			/// @path.
+			double GetSwitchingCost(const State& state, const PathNonHolonomicSE2Base& path) const;
+
 			/// @brief Update state assuming constant steer angle and bicycle
 			/// kinematic model.
 			/// @param[in] state The previous state.
-- 
2.43.0


From 4359024d428277d4d2b2cad1e24fd0a1fa7f579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:07 +0000
Subject: [PATCH 42/56] fix: the hybrid A* never steers beyond the minimum
 turning radius

---
 planner/src/algo/hybrid_a_star.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 6614d21..7d05dbf 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -21,8 +21,9 @@ namespace Planner {
 		m_deltas.reserve(m_param.numGeneratedMotion);
 		const double deltaMax = m_model->GetSteeringAngleFromTurningRadius(m_param.minTurningRadius);
 		m_deltas.push_back(0.0);
-		for (unsigned int i = 0; i < m_param.numGeneratedMotion / 2; i++) {
-			double delta = (i + 1) / 2.0 * deltaMax;
+		const unsigned int numDeltas = m_param.numGeneratedMotion / 2;
+		for (unsigned int i = 0; i < numDeltas; i++) {
+			double delta = deltaMax * (i + 1) / numDeltas;
 			m_deltas.push_back(delta);
 			m_deltas.push_back(-delta);
 		}
-- 
2.43.0


From c53c39cd3182fed76905751a0fc112d3d0ae916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:42 +0000
Subject: [PATCH 43/56] fix: no path is returned when the hybrid A* does not
 find any

---
 planner/src/algo/hybrid_a_star.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 7d05dbf..af6e415 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -258,6 +258,7 @@ namespace Planner {
 		}
 
 		// Update members
+		m_path.clear();
 		m_obstacleHeuristic->Update(this->m_goal);
 		m_gvd->Update();
 
-- 
2.43.0


From 934a1406451cc24a2a45e6459331dfb0d9edddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:06 +0000
Subject: [PATCH 44/56] fix: the hybrid A* succeeds when the initial state is
 the goal

---
 planner/src/algo/hybrid_a_star.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index af6e415..1a21129 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -278,6 +278,11 @@ namespace Planner {
 			// Get composite path
 			auto path = m_graphSearch.GetCompositePath();
 			const double pathLength = path->GetLength();
+			if (pathLength == 0.0) {
+				// The initial state is the goal
+				m_path = { this->m_init };
+				return Status::Success;
+			}
 
 			// Generate ratio at which to sample the path and find indices of cusp points
 			std::vector<double> ratios;
-- 
2.43.0


From c091108b19303e29596b3444ffc1178a25783233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:53 +0000
Subject: [PATCH 45/56] fix: consecutive occurrences of the text removed from
 the name of a scope

---
 planner/src/debug/profiler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/debug/profiler.h b/planner/src/debug/profiler.h
index d9d56a4..67f50b6 100644
--- a/planner/src/debug/profiler.h
+++ b/planner/src/debug/profiler.h
@@ -114,8 +114,10 @@ namespace Planner {
 				size_t matchIndex = 0;
 				while (matchIndex < K - 1 && srcIndex + matchIndex < N - 1 && expr[srcIndex + matchIndex] == remove[matchIndex])
 					matchIndex++;
-				if (matchIndex == K - 1)
+				if (K > 1 && matchIndex == K - 1) {
 					srcIndex += matchIndex;
+					continue;
+				}
 				result.Data[dstIndex++] = expr[srcIndex] == '"' ? '\'' : expr[srcIndex];
 				srcIndex++;
 			}
-- 
2.43.0


From a3358d0159cbec81929b1e3cfc3164ca9ca8c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:53 +0000
Subject: [PATCH 46/56] fix: data race in the double-checked locking of the
 thread safe singleton

---
 planner/src/utils/singleton.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/planner/src/utils/singleton.h b/planner/src/utils/singleton.h
index 2b8b6ae..9ffb3c8 100644
--- a/planner/src/utils/singleton.h
+++ b/planner/src/utils/singleton.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 
@@ -97,7 +98,8 @@ namespace Planner {
 		static T& Get()
 		{
 			// Prevents the lock-step required each time the instance is requested
-			if (!m_instance_ptr) {
+			T* instance = m_instance.load(std::memory_order_acquire);
+			if (!instance) {
 				// Lock is required here though, to prevent multiple threads
 				// initialising multiple instances of the class when it turns out it
 				// has not been initialised yet
@@ -106,9 +108,11 @@ namespace Planner {
 				// instance in the time it took to acquire a lock.
 				if (!m_instance_ptr) {
 					m_instance_ptr = std::unique_ptr<T>(new T());
+					m_instance.store(m_instance_ptr.get(), std::memory_order_release);
 				}
+				instance = m_instance_ptr.get();
 			}
-			return *m_instance_ptr;
+			return *instance;
 		}
 
 		/// @brief Provide global access to release/delete the instance.
@@ -116,6 +120,7 @@ namespace Planner {
 		{
 			std::lock_guard<std::mutex> lock(m_constructed);
 			if (m_instance_ptr) {
+				m_instance.store(nullptr, std::memory_order_release);
 				m_instance_ptr.reset();
 			}
 		}
@@ -125,6 +130,8 @@ namespace Planner {
 		~SingletonThreadSafe() = default;
 
 		static std::unique_ptr<T> m_instance_ptr;
+		// Published address of the instance, read without the lock
+		static std::atomic<T*> m_instance;
 		static std::mutex m_constructed;
 
 	private:
@@ -135,5 +142,7 @@ namespace Planner {
 	template <class T>
 	std::mutex SingletonThreadSafe<T>::m_constructed;
 	template <class T>
+	std::atomic<T*> SingletonThreadSafe<T>::m_instance = nullptr;
+	template <class T>
 	std::unique_ptr<T> SingletonThreadSafe<T>::m_instance_ptr = nullptr;
 }
-- 
2.43.0


From 46a86113cd01d81a04ba86972652a9a06d7498ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:20 +0000
Subject: [PATCH 47/56] fix: addition and difference of points from Python

---
 interfaces/python/src/pyplanning.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index dc43dcb..11c5908 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -209,8 +209,8 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<double, double>())
 		.def<double& (Point2d::*)()>("x", &Point2d::x)
 		.def<double& (Point2d::*)()>("y", &Point2d::y)
-		.def(self + self)
-		.def(self - self)
+		.def("__add__", [](const Point2d& lhs, const Point2d& rhs) -> Point2d { return lhs + rhs; }, is_operator())
+		.def("__sub__", [](const Point2d& lhs, const Point2d& rhs) -> Point2d { return lhs - rhs; }, is_operator())
 		.def(self == self)
 		.def(self != self);
 
-- 
2.43.0


From c6a958983bcac7475c3b9218019a69ec9333a9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:20 +0000
Subject: [PATCH 48/56] fix: name of is_occupied in the Python module

---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 11c5908..297303c 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -348,7 +348,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def("update", &OccupancyMap::Update)
 		.def("set_position", &OccupancyMap::SetPosition)
 		.def("get_position", &OccupancyMap::GetPosition)
-		.def("is_occupied)", &OccupancyMap::IsOccupied)
+		.def("is_occupied", &OccupancyMap::IsOccupied)
 		.def<int (OccupancyMap::*)(const GridCellPosition&)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<int (OccupancyMap::*)(int, int)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<Ref<GVD::ObstacleDistanceMap>& (OccupancyMap::*)()>("get_obstacle_map", &OccupancyMap::GetObstacleDistanceMap)
-- 
2.43.0


From 348b8ee0bb9ac3657ed8995b32384d6d1d2a6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:20 +0000
Subject: [PATCH 49/56] fix: method called when the validator of a path is
 implemented in Python

---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 297303c..84a3e4f 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -402,7 +402,7 @@ PYBIND11_MODULE(pyplanning, m)
 	struct StateValidatorSE2BaseWrapper : StateValidatorSE2Base {
 		using StateValidatorSE2Base::StateValidatorSE2Base;
 		virtual bool IsStateValid(const Pose2d& a) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a); }
-		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a, b); }
+		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsPathValid, a, b); }
 	};
 
 	class_<StateValidatorSE2Base, Ref<StateValidatorSE2Base>, StateValidatorSE2BaseWrapper>(m, "StateValidatorSE2Base")
-- 
2.43.0


From d1b05940089173da1f6da24b592f26d2736930e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:20 +0000
Subject: [PATCH 50/56] fix: action of the state propagators implemented in
 Python

---
 interfaces/python/src/pyplanning.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 84a3e4f..dba9568 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -147,6 +147,9 @@ PYBIND11_MODULE(pyplanning, m)
 		virtual ReturnType GetNeighborStates(const GridCellPosition& cell) override { PYBIND11_OVERRIDE_PURE(ReturnType, AStarStatePropagatorN2, GetNeighborStates, cell); }
 	};
 
+	class_<NullAction>(m, "NullAction")
+		.def(init<>());
+
 	class_<AStarStatePropagatorN2, Ref<AStarStatePropagatorN2>, AStarStatePropagatorN2Wrapper>(m, "AStarStatePropagatorN2")
 		.def(init<>());
 
-- 
2.43.0


From fca332b83ce6143e12e7ebed6917a251a007616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:20 +0000
Subject: [PATCH 51/56] fix: type of the obstacle distance map in the Python
 module

---
 interfaces/python/src/pyplanning.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index dba9568..02ce2e3 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -364,6 +364,10 @@ PYBIND11_MODULE(pyplanning, m)
 		.def<bool (OccupancyMap::*)(const Point2d&) const>("is_inside_map", &OccupancyMap::IsInsideMap)
 		.def<bool (OccupancyMap::*)(const GridCellPosition&) const>("is_inside_map", &OccupancyMap::IsInsideMap);
 
+	class_<GVD::ObstacleDistanceMap, Ref<GVD::ObstacleDistanceMap>>(m, "ObstacleDistanceMap")
+		.def<float (GVD::ObstacleDistanceMap::*)(int, int) const>("get_distance_to_nearest_obstacle", &GVD::ObstacleDistanceMap::GetDistanceToNearestObstacle)
+		.def<float (GVD::ObstacleDistanceMap::*)(const GridCellPosition&) const>("get_distance_to_nearest_obstacle", &GVD::ObstacleDistanceMap::GetDistanceToNearestObstacle);
+
 	class_<ObstacleListOccupancyMap, Ref<ObstacleListOccupancyMap>, OccupancyMap>(m, "ObstacleListOccupancyMap")
 		.def(init<float>())
 		.def("add_obstacle", &ObstacleListOccupancyMap::AddObstacle)
-- 
2.43.0


From 95623cbc1609b2c5d2263b75bb3c83aacea18bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:20 +0000
Subject: [PATCH 52/56] fix: keep alive the Python objects used by planners,
 validators and diagrams

---
 interfaces/python/src/pyplanning.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 02ce2e3..a2580ab 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -154,7 +154,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<>());
 
 	class_<AStarStatePropagatorFcnN2, Ref<AStarStatePropagatorFcnN2>, AStarStatePropagatorN2>(m, "AStarStatePropagatorFcnN2")
-		.def(init<const Ref<OccupancyMap>&, const std::function<double(const GridCellPosition&, const GridCellPosition&)>&>());
+		.def(init<const Ref<OccupancyMap>&, const std::function<double(const GridCellPosition&, const GridCellPosition&)>&>(), keep_alive<1, 2>());
 
 	class_<PathPlannerN2Base, PathPlannerN2BaseWrapper>(m, "PathPlannerN2Base")
 		.def(init<>())
@@ -171,7 +171,7 @@ PYBIND11_MODULE(pyplanning, m)
 
 	class_<PyAStarN2, PathPlannerN2Base>(m, "AStarN2")
 		.def(init<>())
-		.def("initialize", &AStarN2::Initialize)
+		.def("initialize", &AStarN2::Initialize, keep_alive<1, 2>(), keep_alive<1, 3>())
 		.def("get_explored_states", &PyAStarN2::GetExploredStates)
 		.def("get_optimal_cost", &AStarN2::GetOptimalCost);
 
@@ -194,8 +194,16 @@ PYBIND11_MODULE(pyplanning, m)
 
 	class_<PyBidirectionalAStarN2, PathPlannerN2Base>(m, "BidirectionalAStarN2")
 		.def(init<>())
-		.def_static("get_average_heuristic_pair", &BidirectionalAStarN2::GetAverageHeuristicPair)
-		.def("initialize", &BidirectionalAStarN2::Initialize)
+		.def_static("get_average_heuristic_pair", [](object fHeuristic, object rHeuristic) {
+			tuple pair = cast(BidirectionalAStarN2::GetAverageHeuristicPair(fHeuristic.cast<Ref<AStarHeuristicN2>>(), rHeuristic.cast<Ref<AStarHeuristicN2>>()));
+			// The heuristics may be implemented in Python
+			for (auto heuristic : pair) {
+				detail::keep_alive_impl(heuristic, fHeuristic);
+				detail::keep_alive_impl(heuristic, rHeuristic);
+			}
+			return pair;
+		})
+		.def("initialize", &BidirectionalAStarN2::Initialize, keep_alive<1, 2>(), keep_alive<1, 3>(), keep_alive<1, 4>(), keep_alive<1, 5>())
 		.def("get_explored_states", &PyBidirectionalAStarN2::GetExploredStates)
 		.def("get_optimal_cost", &BidirectionalAStarN2::GetOptimalCost);
 
@@ -422,13 +430,13 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<const Ref<StateSpaceSE2>&>());
 
 	class_<StateValidatorOccupancyMap, Ref<StateValidatorOccupancyMap>, StateValidatorSE2Base>(m, "StateValidatorOccupancyMap")
-		.def(init<const Ref<StateSpaceSE2>&, const Ref<OccupancyMap>&>())
+		.def(init<const Ref<StateSpaceSE2>&, const Ref<OccupancyMap>&>(), keep_alive<1, 3>())
 		.def("get_occupancy_map", &StateValidatorOccupancyMap::GetOccupancyMap)
 		.def_readwrite("min_path_interpolation_distance", &StateValidatorOccupancyMap::minPathInterpolationDistance)
 		.def_readwrite("min_safe_radius", &StateValidatorOccupancyMap::minSafeRadius);
 
 	class_<GVD>(m, "GVD")
-		.def(init<const Ref<OccupancyMap>&>())
+		.def(init<const Ref<OccupancyMap>&>(), keep_alive<1, 2>())
 		.def("update", &GVD::Update)
 		.def<float (GVD::*)(int, int) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
 		.def<float (GVD::*)(const GridCellPosition&) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
-- 
2.43.0


From 7bcdd7881b59200af4bf4da7415f251ae78ccca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:47 +0000
Subject: [PATCH 53/56] fix: keep alive the Python map searched by the hybrid
 A*

---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index a2580ab..8b72fc8 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -110,7 +110,7 @@ PYBIND11_MODULE(pyplanning, m)
 	class_<HybridAStar, PathPlannerSE2Base>(m, "HybridAStar")
 		.def(init<>())
 		.def(init<const HybridAStar::SearchParameters&>())
-		.def("initialize", &HybridAStar::Initialize)
+		.def("initialize", &HybridAStar::Initialize, keep_alive<1, 2>())
 		.def_readwrite("path_interpolation", &HybridAStar::pathInterpolation)
 		.def("get_stats", &HybridAStar::GetStats)
 		.def("get_graph_search_explored_path_set", &HybridAStar::GetGraphSearchExploredPathSet)
-- 
2.43.0


From 6e15a558798ecdb0f6336015b411e4c8a5f955e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:26 +0000
Subject: [PATCH 54/56] fix: stopping criterion of the bidirectional A* with
 heuristics that may be negative

---
 planner/src/algo/bidirectional_a_star.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 2f81be3..8b5181b 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -176,8 +176,8 @@ namespace Planner {
 					if (m_fSearch.m_frontier.Empty() || m_rSearch.m_frontier.Empty())
 						return Status::Success;
 
-					double fTopCost = (*m_fSearch.m_frontier.Top())->pathCost;
-					double rTopCost = (*m_rSearch.m_frontier.Top())->pathCost;
+					double fTopCost = (*m_fSearch.m_frontier.Top())->totalCost;
+					double rTopCost = (*m_rSearch.m_frontier.Top())->totalCost;
 
 					// Check the stopping criterion
 					if (fTopCost + rTopCost >= bestCost + costOffset)
-- 
2.43.0


From 5fb1630205c0c44cb2938b623ccb80f2a88f98f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 55/56] fix: no cusp at a Reeds-Shepp motion of no length

---
 planner/src/paths/path_reeds_shepp.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index 67a11b8..66e7162 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -101,19 +101,24 @@ namespace Planner {
 		if (m_length == 0.0)
 			return ratios;
 
-		double length = m_pathSegment.m_motions[0].length * m_minTurningRadius;
-		for (int i = 1; i < m_pathSegment.GetNumMotions(); i++) {
-			const auto& currMotion = m_pathSegment.m_motions[i];
-			const auto& prevMotion = m_pathSegment.m_motions[i - 1];
+		double length = 0.0;
+		Direction prevDirection = Direction::NoMotion;
+		for (const auto& motion : m_pathSegment.m_motions) {
+			if (!motion.IsValid())
+				break;
+			// A motion with no length does not change the direction of motion
+			if (motion.length == 0)
+				continue;
 			double ratio = length / m_length;
 			// Check ratio is smaller than 1.0 in case the path has been truncated
 			if (ratio > 1.0)
 				break;
 			// Check if the direction has changed
-			if (currMotion.direction != prevMotion.direction) {
+			if (prevDirection != Direction::NoMotion && motion.direction != prevDirection) {
 				ratios.insert(ratio);
 			}
-			length += currMotion.length * m_minTurningRadius;
+			prevDirection = motion.direction;
+			length += motion.length * m_minTurningRadius;
 		}
 
 		return ratios;
-- 
2.43.0


From 9ed7a355ada918be8dabd42fe09298304d56e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:22 +0000
Subject: [PATCH 56/56] fix: a hybrid A* that is not initialized no longer
 returns an earlier path

---
 planner/src/algo/hybrid_a_star.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 1a21129..51d3b29 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -252,13 +252,14 @@ namespace Planner {
 
 		// TODO create stats saving status of each step (graph search + optimization, number of iteration...)
 
+		m_path.clear();
+
 		if (!isInitialized) {
 			PP_ERROR("The algorithm has not been initialized successfully.");
 			return Status::Failure;
 		}
 
 		// Update members
-		m_path.clear();
 		m_obstacleHeuristic->Update(this->m_goal);
 		m_gvd->Update();
 
-- 
2.43.0

