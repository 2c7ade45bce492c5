From 3bf70025f6fe3837ee3368cd499a72c97e42dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:20 +0000
Subject: [PATCH 001/101] fix: restore the complete curvilinear grid when
 undoing delete exterior

The four strips were restored one by one; after each strip the nodes not
belonging to a valid face were invalidated again, losing restored nodes.
---
 .../CurvilinearGrid/CurvilinearGridDeleteExterior.cpp    | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
index 9577589..c41d058 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
@@ -29,7 +29,6 @@
 #include "MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp"
 #include "MeshKernel/CurvilinearGrid/CurvilinearGridLine.hpp"
 #include "MeshKernel/CurvilinearGrid/UndoActions/CurvilinearGridBlockUndoAction.hpp"
-#include "MeshKernel/UndoActions/CompoundUndoAction.hpp"
 
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridLine;
@@ -48,12 +47,8 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
-
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), lowerLimitJ}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, lowerLimitJ}, {lowerLimitI, upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {upperLimitI, lowerLimitJ}, {m_grid.NumN(), upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, upperLimitJ + 1}, {m_grid.NumN(), m_grid.NumM()}));
+    // Save the complete grid, such that restoring it does not temporarily leave partially valid faces
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     // Split into 4 regions, setting the nodes in each region to invalid
     //
-- 
2.43.0


From 5a09130b8a0c417f03f731713997ff32724dbc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:20 +0000
Subject: [PATCH 002/101] fix: register the state id of the undo action of
 mesh2d_snap_to_landboundary

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 6435847..72b7743 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -500,7 +500,7 @@ namespace meshkernelapi
             landBoundary.FindNearestMeshBoundary(meshkernel::LandBoundaries::ProjectToLandBoundaryOption::InnerAndOuterMeshBoundaryToLandBoundary);
 
             // Execute algorithm
-            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries());
+            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries(), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 8ce489e73fb9b2de4a7da83753d5d36304445a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:29 +0000
Subject: [PATCH 003/101] fix: restore the projection of the state when undoing
 mesh2d_convert_projection

---
 libs/MeshKernelApi/src/MKStateUndoAction.cpp |  1 +
 libs/MeshKernelApi/src/MeshKernel.cpp        | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MKStateUndoAction.cpp b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
index c0ce513..3732a1e 100644
--- a/libs/MeshKernelApi/src/MKStateUndoAction.cpp
+++ b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
@@ -54,6 +54,7 @@ void meshkernelapi::MKStateUndoAction::SwapContents()
     std::swap(m_mkState.m_network1d, m_mkStateReference.m_network1d);
     std::swap(m_mkState.m_contacts, m_mkStateReference.m_contacts);
     std::swap(m_mkState.m_curvilinearGrid, m_mkStateReference.m_curvilinearGrid);
+    std::swap(m_mkState.m_projection, m_mkStateReference.m_projection);
 }
 
 void meshkernelapi::MKStateUndoAction::DoCommit()
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 72b7743..7d0801d 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1093,14 +1093,20 @@ namespace meshkernelapi
                 if (sourceProjection == meshkernel::Projection::cartesian)
                 {
                     meshkernel::ConvertCartesianToSpherical conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    auto undoAction = meshkernel::CompoundUndoAction::Create();
+                    undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
+                    meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                 }
                 else if (sourceProjection == meshkernel::Projection::spherical)
                 {
                     meshkernel::ConvertSphericalToCartesian conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    auto undoAction = meshkernel::CompoundUndoAction::Create();
+                    undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
+                    meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                 }
                 else
                 {
-- 
2.43.0


From f8d19421ff289400da787937a446190caa5b11d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:18 +0000
Subject: [PATCH 004/101] fix: keep the projection and offsets when copying or
 moving a curvilinear grid

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 5ed31d5..d7269c0 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -39,23 +39,27 @@
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridNodeIndices;
 
-CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(grid.m_projection),
                                                                 m_gridNodes(grid.m_gridNodes),
                                                                 m_gridFacesMask(grid.m_gridFacesMask),
                                                                 m_gridNodesTypes(grid.m_gridNodesTypes),
-                                                                m_gridIndices(grid.m_gridIndices)
+                                                                m_gridIndices(grid.m_gridIndices),
+                                                                m_startOffset(grid.m_startOffset),
+                                                                m_endOffset(grid.m_endOffset)
 {
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
 }
 
-CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(grid.m_projection),
                                                                     m_gridNodes(std::move(grid.m_gridNodes)),
                                                                     m_gridFacesMask(std::move(grid.m_gridFacesMask)),
                                                                     m_gridNodesTypes(std::move(grid.m_gridNodesTypes)),
                                                                     m_gridIndices(std::move(grid.m_gridIndices)),
-                                                                    m_RTrees(std::move(grid.m_RTrees)) {}
+                                                                    m_RTrees(std::move(grid.m_RTrees)),
+                                                                    m_startOffset(grid.m_startOffset),
+                                                                    m_endOffset(grid.m_endOffset) {}
 
 CurvilinearGrid::CurvilinearGrid(Projection projection) : m_projection(projection)
 {
-- 
2.43.0


From bab12fb6330d7860bda81396f2cacb75a437fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:18 +0000
Subject: [PATCH 005/101] fix: make network1d_set and
 curvilinear_compute_circular_grid undoable

Both assigned the new object through the pointer shared with the undo
action, such that undoing had no effect.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 7d0801d..4d0456e 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -661,8 +661,8 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Do not change the pointer, just the object it is pointing to
-            *meshKernelState[meshKernelId].m_network1d = meshkernel::Network1D(localPolylines, meshKernelState[meshKernelId].m_projection);
+            // Change the pointer, the object it was pointing to is kept by the undo action
+            meshKernelState[meshKernelId].m_network1d = std::make_shared<meshkernel::Network1D>(localPolylines, meshKernelState[meshKernelId].m_projection);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -4292,8 +4292,9 @@ namespace meshkernelapi
             }
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-            *meshKernelState[meshKernelId].m_curvilinearGrid = meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
-                                                                                                                        meshKernelState[meshKernelId].m_projection);
+            // Change the pointer, the object it was pointing to is kept by the undo action
+            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_shared<meshkernel::CurvilinearGrid>(meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
+                                                                                                                                                                     meshKernelState[meshKernelId].m_projection));
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From b21bfbacc9e0ae4a09c7eb4e11ab23a308d4ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:44 +0000
Subject: [PATCH 006/101] fix: refresh the node mapping and trees of a
 curvilinear grid when its size changes

Adding a grid line at the boundary left the mapping of the flattened nodes
stale, later operations indexed it out of range. Undo and redo left the
face tree stale.
---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp       | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index d7269c0..55a8731 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -794,6 +794,15 @@ std::tuple<bool, meshkernel::UndoActionPtr> CurvilinearGrid::AddGridLineAtBounda
         }
     }
 
+    if (gridSizeChanged)
+    {
+        // The mapping of the flattened nodes and the trees need to follow the new grid size
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+        m_gridIndices = ComputeNodeIndices();
+    }
+
     return {gridSizeChanged, std::move(undoAction)};
 }
 
@@ -1150,6 +1159,7 @@ void CurvilinearGrid::RestoreAction(const AddGridLineUndoAction& undoAction)
     // The node and edge trees need to be rebuilt
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
 
     // Since the size of the grid has changed the node-vector needs to be reset
@@ -1162,6 +1172,7 @@ void CurvilinearGrid::CommitAction(const AddGridLineUndoAction& undoAction)
     m_endOffset -= undoAction.EndOffset();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
@@ -1171,6 +1182,7 @@ void CurvilinearGrid::RestoreAction(CurvilinearGridBlockUndoAction& undoAction)
     undoAction.Swap(*this);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     ComputeGridNodeTypes();
 }
 
@@ -1179,6 +1191,7 @@ void CurvilinearGrid::CommitAction(CurvilinearGridBlockUndoAction& undoAction)
     undoAction.Swap(*this);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     ComputeGridNodeTypes();
 }
 
@@ -1187,6 +1200,7 @@ void CurvilinearGrid::RestoreAction(CurvilinearGridRefinementUndoAction& undoAct
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
@@ -1196,6 +1210,7 @@ void CurvilinearGrid::CommitAction(CurvilinearGridRefinementUndoAction& undoActi
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
-- 
2.43.0


From 556bd12b43cec412d202e4195a81790c5deb8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:44 +0000
Subject: [PATCH 007/101] fix: save the mirrored nodes in the undo action when
 mirroring a left boundary

---
 .../src/CurvilinearGrid/CurvilinearGridLineMirror.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index b7d8ce8..70aba04 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -91,8 +91,8 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
         upperRight = {m_lines[0].m_endCoordinate + 1, m_grid.NumM() - 0};
         break;
     case Left:
-        lowerLeft = {0, m_lines[0].m_startCoordinate};
-        upperRight = {m_lines[0].m_endCoordinate + 1, m_lines[0].m_startCoordinate + 1};
+        lowerLeft = {m_lines[0].m_startCoordinate, 0};
+        upperRight = {m_lines[0].m_endCoordinate + 1, 1};
         break;
     default:
         throw std::invalid_argument("CurvilinearGridLineMirror:: Invalid grid line type");
-- 
2.43.0


From 7de938f3d961cb567cf59896bc84d1c954592c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 008/101] fix: remember the bounding box of the location trees
 per location

A query on one location with a new bounding box made the trees of the other
locations, still built with the previous box, look up to date.
---
 .../MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp |  2 +-
 libs/MeshKernel/include/MeshKernel/Mesh.hpp        |  2 +-
 .../src/CurvilinearGrid/CurvilinearGrid.cpp        | 14 +++++++-------
 libs/MeshKernel/src/Mesh.cpp                       | 12 ++++++------
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
index 94e9f69..e1a20f4 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
@@ -510,7 +510,7 @@ namespace meshkernel
         bool m_edgesRTreeRequiresUpdate = true;                            ///< m_edgesRTree requires an update
         bool m_facesRTreeRequiresUpdate = true;                            ///< m_facesRTree requires an update
         std::unordered_map<Location, std::unique_ptr<RTreeBase>> m_RTrees; ///< The RTrees to use
-        BoundingBox m_boundingBoxCache;                                    ///< Caches the last bounding box used for selecting the locations
+        std::unordered_map<Location, BoundingBox> m_boundingBoxCache;      ///< Caches, for each tree, the last bounding box used for selecting the locations
 
         std::vector<Edge> m_edges; ///< Member variable storing the edges
 
diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index bfb1da2..3f3eaf1 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -504,7 +504,7 @@ namespace meshkernel
         bool m_edgesRTreeRequiresUpdate = true;                            ///< m_edgesRTree requires an update
         bool m_facesRTreeRequiresUpdate = true;                            ///< m_facesRTree requires an update
         std::unordered_map<Location, std::unique_ptr<RTreeBase>> m_RTrees; ///< The RTrees to use
-        BoundingBox m_boundingBoxCache;                                    ///< Caches the last bounding box used for selecting the locations
+        std::unordered_map<Location, BoundingBox> m_boundingBoxCache;      ///< Caches, for each tree, the last bounding box used for selecting the locations
 
         /// @brief Set nodes and edges that are not connected to be invalid.
         void SetUnConnectedNodesAndEdgesToInvalid(CompoundUndoAction* undoAction);
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 55a8731..9e9537f 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -99,7 +99,7 @@ CurvilinearGrid& CurvilinearGrid::operator=(CurvilinearGrid&& copy) noexcept
         m_nodesRTreeRequiresUpdate = std::exchange(copy.m_nodesRTreeRequiresUpdate, false);
         m_edgesRTreeRequiresUpdate = std::exchange(copy.m_edgesRTreeRequiresUpdate, false);
         m_facesRTreeRequiresUpdate = std::exchange(copy.m_facesRTreeRequiresUpdate, false);
-        m_boundingBoxCache = std::exchange(copy.m_boundingBoxCache, BoundingBox());
+        m_boundingBoxCache = std::exchange(copy.m_boundingBoxCache, {});
         m_startOffset = std::exchange(copy.m_startOffset, CurvilinearGridNodeIndices(0, 0));
         m_endOffset = std::exchange(copy.m_endOffset, CurvilinearGridNodeIndices(0, 0));
     }
@@ -257,31 +257,31 @@ void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBo
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache[Location::Faces] != boundingBox)
         {
             const auto faceCenters = ComputeFaceCenters();
             m_RTrees.at(Location::Faces)->BuildTree(faceCenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Faces] = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache[Location::Nodes] != boundingBox)
         {
             const auto nodes = ComputeNodes();
             m_RTrees.at(Location::Nodes)->BuildTree(nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Nodes] = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache[Location::Edges] != boundingBox)
         {
             m_edges = ComputeEdges();
             const auto edgeCenters = ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(edgeCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Edges] = boundingBox;
         }
         break;
     case Location::Unknown:
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 9eb78f7..876ed97 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1154,29 +1154,29 @@ void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache[Location::Faces] != boundingBox)
         {
             Administrate();
             m_RTrees.at(Location::Faces)->BuildTree(m_facesCircumcenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Faces] = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache[Location::Nodes] != boundingBox)
         {
             m_RTrees.at(Location::Nodes)->BuildTree(m_nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Nodes] = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache[Location::Edges] != boundingBox)
         {
             ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(m_edgesCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
+            m_boundingBoxCache[Location::Edges] = boundingBox;
         }
         break;
     case Location::Unknown:
-- 
2.43.0


From 422c03ad9b23f7b8b0bb117dee575cbe15230923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:01 +0000
Subject: [PATCH 009/101] fix: rebuild the location trees of a mesh after undo,
 redo, moves and conversions

Restoring or re-applying a translation, conversion or full-mesh action did
not flag the trees, and the face tree was never flagged after an edit, such
that location queries used stale coordinates.
---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp |  8 ++++
 libs/MeshKernel/src/Mesh.cpp                | 47 ++++++++++++---------
 libs/MeshKernel/src/Mesh2D.cpp              |  6 +--
 3 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index 3f3eaf1..9b8a507 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -463,6 +463,14 @@ namespace meshkernel
         /// @param[in] value The value of the flag
         void SetFacesRTreeRequiresUpdate(bool value) { m_facesRTreeRequiresUpdate = value; }
 
+        /// @brief Flag that all trees require an update, to be called when nodes or edges have changed
+        void SetAllRTreesRequireUpdate()
+        {
+            m_nodesRTreeRequiresUpdate = true;
+            m_edgesRTreeRequiresUpdate = true;
+            m_facesRTreeRequiresUpdate = true;
+        }
+
         // nodes
         std::vector<std::vector<UInt>> m_nodesEdges; ///< For each node, the indices of connected edges (nod%lin)
         std::vector<UInt> m_nodesNumEdges;           ///< For each node, the number of connected edges (nmk)
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 876ed97..19a504b 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -172,6 +172,11 @@ void Mesh::InvalidateUnConnectedNodes(const std::vector<bool>& connectedNodes, U
         {
             if (undoAction == nullptr)
             {
+                if (m_nodes[n].IsValid())
+                {
+                    SetAllRTreesRequireUpdate();
+                }
+
                 m_nodes[n].SetInvalid();
             }
             else
@@ -400,8 +405,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     // Set the node to be invalid
     undoAction->Add(ResetNode(firstNodeIndex, {constants::missing::doubleValue, constants::missing::doubleValue}));
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
     return undoAction;
 }
 
@@ -515,6 +519,7 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
     }
 
     m_nodes[nodeId] = newValue;
+    SetAllRTreesRequireUpdate();
 }
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
@@ -750,8 +755,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
         m_nodes[movedNodeIndex[i]] += nodeDisplacement[i];
     }
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
     return undoAction;
 }
 
@@ -1003,8 +1007,7 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
         m_edges[e].second = rhs.m_edges[index].second + numNodes;
     }
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 
     Administrate();
 
@@ -1191,53 +1194,55 @@ void Mesh::CommitAction(const AddNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
     m_nodesNumEdges[undoAction.NodeId()] = 0;
-    m_nodesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const ResetNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.UpdatedNode();
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.UpdatedEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = {constants::missing::doubleValue, constants::missing::doubleValue};
-    m_nodesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
+    SetAllRTreesRequireUpdate();
     Administrate();
 }
 
@@ -1245,52 +1250,54 @@ void Mesh::RestoreAction(const AddNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = Point(constants::missing::doubleValue, constants::missing::doubleValue);
     m_nodesNumEdges[undoAction.NodeId()] = 0;
-    m_nodesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const ResetNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.InitialNode();
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.InitialEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
-    m_nodesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
+    SetAllRTreesRequireUpdate();
     Administrate();
 }
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index da66358..6acb540 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -139,8 +139,7 @@ Mesh2D::Mesh2D(const std::vector<Point>& inputNodes, const Polygons& polygons, P
         validEdgesCount++;
     }
 
-    SetNodesRTreeRequiresUpdate(true);
-    SetEdgesRTreeRequiresUpdate(true);
+    SetAllRTreesRequireUpdate();
 
     m_edges = edges;
     m_nodes = inputNodes;
@@ -1796,8 +1795,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::DeleteMesh(const Polygons& polyg
         }
     }
 
-    SetNodesRTreeRequiresUpdate(true);
-    SetEdgesRTreeRequiresUpdate(true);
+    SetAllRTreesRequireUpdate();
 
     Administrate(deleteMeshAction.get());
     return deleteMeshAction;
-- 
2.43.0


From bc5d798b82a674496cc4874883bc93c099c32b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:01 +0000
Subject: [PATCH 010/101] fix: skip deleted edges when computing the minimum
 edge length

---
 libs/MeshKernel/src/Mesh.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 19a504b..e6a9b47 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -581,6 +581,12 @@ double Mesh::ComputeMinEdgeLength(const Polygons& polygon) const
     for (UInt e = 0; e < numEdges; e++)
     {
         const auto& [firstNode, secondNode] = m_edges[e];
+
+        if (firstNode == constants::missing::uintValue || secondNode == constants::missing::uintValue)
+        {
+            continue;
+        }
+
         if (isNodeInPolygon[firstNode] || isNodeInPolygon[secondNode])
         {
             result = std::min(result, m_edgeLengths[e]);
-- 
2.43.0


From 05346aab4d0a2a1cd3c138f0493c9678b03d99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:01 +0000
Subject: [PATCH 011/101] fix: keep deleted edges deleted when adding a mesh to
 another mesh

---
 libs/MeshKernel/src/Mesh.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index e6a9b47..0166ed3 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1009,6 +1009,14 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
     for (auto e = numEdges; e < numEdges + rhsNumEdges; ++e)
     {
         const auto index = e - numEdges;
+
+        if (rhs.m_edges[index].first == constants::missing::uintValue || rhs.m_edges[index].second == constants::missing::uintValue)
+        {
+            // A deleted edge remains a deleted edge
+            m_edges[e] = {constants::missing::uintValue, constants::missing::uintValue};
+            continue;
+        }
+
         m_edges[e].first = rhs.m_edges[index].first + numNodes;
         m_edges[e].second = rhs.m_edges[index].second + numNodes;
     }
-- 
2.43.0


From 0d784d4e46a8721fe5eb21562f1789dca35d28e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:01 +0000
Subject: [PATCH 012/101] fix: report an error for out of range node and edge
 indices instead of reading out of bounds

---
 libs/MeshKernel/src/Mesh.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 0166ed3..a6d1f17 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -524,7 +524,7 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
 {
-    if (edge == constants::missing::uintValue) [[unlikely]]
+    if (edge >= GetNumEdges()) [[unlikely]]
     {
         throw std::invalid_argument("Mesh::DeleteEdge: The index of the edge to be deleted does not exist.");
     }
@@ -631,6 +631,11 @@ meshkernel::UInt Mesh::FindEdge(UInt firstNodeIndex, UInt secondNodeIndex) const
         throw ConstraintError("Mesh::FindEdge: Invalid node index: first {}, second {}", firstNodeIndex, secondNodeIndex);
     }
 
+    if (firstNodeIndex >= GetNumNodes() || secondNodeIndex >= GetNumNodes())
+    {
+        throw ConstraintError("Mesh::FindEdge: Node index out of range: first {}, second {}, number of nodes {}", firstNodeIndex, secondNodeIndex, GetNumNodes());
+    }
+
     for (UInt n = 0; n < m_nodesNumEdges[firstNodeIndex]; n++)
     {
         const auto edgeIndex = m_nodesEdges[firstNodeIndex][n];
-- 
2.43.0


From 754402988ae79b3d279ce23b7783525a7f4220c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:54 +0000
Subject: [PATCH 013/101] fix: redirect the nodes of the connected elements in
 Casulli de-refinement

The element being removed was modified instead of the connected element,
writing out of bounds for elements with more nodes. A mesh without faces is
left as it is instead of indexing the first face.
---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 83f8b65..33f4810 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -289,6 +289,12 @@ void meshkernel::CasulliDeRefinement::AddElementToList(const Mesh& mesh, const s
 std::vector<meshkernel::CasulliDeRefinement::ElementType> meshkernel::CasulliDeRefinement::InitialiseElementType(const Mesh2D& mesh,
                                                                                                                  const std::vector<int>& nodeTypes)
 {
+    if (mesh.GetNumFaces() == 0)
+    {
+        // There are no elements to be de-refined
+        return {};
+    }
+
     UInt seedElement = FindElementSeedIndex(mesh, nodeTypes);
     UInt iterationCount = 0;
 
@@ -736,7 +742,7 @@ void meshkernel::CasulliDeRefinement::RedirectNodesOfConnectedElements(Mesh2D& m
             {
                 if (faceNodeId == mesh.m_facesNodes[elementId][k])
                 {
-                    mesh.m_facesNodes[elementId][j] = nodeId;
+                    mesh.m_facesNodes[connectedElementId][j] = nodeId;
                 }
             }
         }
-- 
2.43.0


From 6810d1c6993d396b2bad884e5880c05f2422240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:54 +0000
Subject: [PATCH 014/101] fix: administrate the mesh before selecting the faces
 to delete

After deletion of nodes or edges the face administration is stale and refers
to deleted edges, deleting mesh in a polygon then accessed invalid nodes.
---
 libs/MeshKernel/src/Mesh2D.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 6acb540..8754e9b 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1690,6 +1690,9 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::DeleteMesh(const Polygons& polyg
 
     std::unique_ptr<meshkernel::CompoundUndoAction> deleteMeshAction = CompoundUndoAction::Create();
 
+    // The faces have to reflect any preceding deletion of nodes and edges
+    Administrate(deleteMeshAction.get());
+
     // Find crossed faces
     Mesh2DIntersections mesh2DIntersections(*this);
     mesh2DIntersections.Compute(polygon);
-- 
2.43.0


From 577d6663116a83ba8ee1f7abde3487d8a05fc167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:00 +0000
Subject: [PATCH 015/101] fix: report an error when the smoother cannot find a
 face instead of reading out of bounds

---
 libs/MeshKernel/src/Smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Smoother.cpp b/libs/MeshKernel/src/Smoother.cpp
index 8b0b220..95fc9d1 100644
--- a/libs/MeshKernel/src/Smoother.cpp
+++ b/libs/MeshKernel/src/Smoother.cpp
@@ -322,7 +322,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         const auto leftFace = m_mesh.m_edgesFaces[edgeIndex][0];
         faceLeftIndex = FindIndex(m_topologySharedFaces[currentTopology], leftFace);
 
-        if (m_topologySharedFaces[currentTopology][faceLeftIndex] != leftFace)
+        if (faceLeftIndex == constants::missing::uintValue || m_topologySharedFaces[currentTopology][faceLeftIndex] != leftFace)
         {
             throw std::invalid_argument(std::string("Smoother::ComputeOperatorsNode: Face could not be found,") +
                                         std::string("this happens when the face is outside of the polygon or maximumNumberOfEdgesPerFace is too low"));
-- 
2.43.0


From 7ebd107bd9dc97b3fc3bd5014e0ee392b6ddb609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:16 +0000
Subject: [PATCH 016/101] fix: do not search forever for intersections with an
 edge without faces

---
 libs/MeshKernel/src/Mesh2DIntersections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DIntersections.cpp b/libs/MeshKernel/src/Mesh2DIntersections.cpp
index 952acd3..32f9f58 100644
--- a/libs/MeshKernel/src/Mesh2DIntersections.cpp
+++ b/libs/MeshKernel/src/Mesh2DIntersections.cpp
@@ -309,6 +309,9 @@ void Mesh2DIntersections::Compute(const std::vector<Point>& polyLine)
                                    crossingEdges);
             }
         }
+
+        // An edge without faces is not visited by the search above and must not be selected as seed again
+        vistedEdges[crossedEdgeIndex] = true;
     }
 
     // Sort the edges for each face
-- 
2.43.0


From 70a71d25d615a94c783e90a02bc184b99453bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:41 +0000
Subject: [PATCH 017/101] fix: report an error when an interactive algorithm is
 used before its initialization

The line shift and mesh orthogonalization steps dereferenced a null pointer.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 4d0456e..03b9740 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1317,6 +1317,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The orthogonalization of the selected mesh has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->PrepareOuterIteration();
         }
         catch (...)
@@ -1341,6 +1346,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The orthogonalization of the selected mesh has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->Solve();
         }
         catch (...)
@@ -1399,6 +1409,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The orthogonalization of the selected mesh has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->FinalizeOuterIteration();
         }
         catch (...)
@@ -4583,6 +4598,11 @@ namespace meshkernelapi
             meshkernel::Point const firstNode{xFirstGridLineNode, yFirstGridLineNode};
             meshkernel::Point const secondNode{xSecondGridLineNode, ySecondGridLineNode};
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The line shift of the selected curvilinear grid has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_curvilinearGridLineShift->SetLine(firstNode, secondNode);
         }
         catch (...)
@@ -4645,6 +4665,11 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeftPoint{xLowerLeftCorner, yLowerLeftCorner};
             meshkernel::Point const upperRightPoint{xUpperRightCorner, yUpperRightCorner};
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The line shift of the selected curvilinear grid has not been initialized.");
+            }
+
             meshKernelState[meshKernelId].m_curvilinearGridLineShift->SetBlock(lowerLeftPoint, upperRightPoint);
         }
         catch (...)
@@ -4669,6 +4694,11 @@ namespace meshkernelapi
             }
             meshkernel::Point const fromPoint{xFromCoordinate, yFromCoordinate};
             meshkernel::Point const toPoint{xToCoordinate, yToCoordinate};
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("The line shift of the selected curvilinear grid has not been initialized.");
+            }
+
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_curvilinearGridLineShift->MoveNode(fromPoint, toPoint), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From 530654cc21a597e41bc8020e1fe9abbdc40bea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:41 +0000
Subject: [PATCH 018/101] fix: get_projection reports an error for an unknown
 state id instead of creating a state

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 03b9740..ca0828f 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -5341,7 +5341,19 @@ namespace meshkernelapi
     MKERNEL_API int mkernel_get_projection(int meshKernelId, int& projection)
     {
         lastExitCode = meshkernel::ExitCode::Success;
-        projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        try
+        {
+            if (!meshKernelState.contains(meshKernelId))
+            {
+                throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
+            }
+
+            projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        }
+        catch (...)
+        {
+            lastExitCode = HandleException();
+        }
         return lastExitCode;
     }
 
-- 
2.43.0


From 51ea9c522f5a65739cc947ce009c4fda31d52e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:59 +0000
Subject: [PATCH 019/101] fix: get_closest_node returns the error of the node
 search instead of using an uninitialized index

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index ca0828f..b1d50f2 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2877,6 +2877,11 @@ namespace meshkernelapi
                                                                                            yUpperRightBoundingBox,
                                                                                            nodeIndex));
 
+            if (lastExitCode != meshkernel::ExitCode::Success)
+            {
+                return lastExitCode;
+            }
+
             // Set the node coordinate
             const auto foundNode = meshKernelState[meshKernelId].m_mesh2d->Node(nodeIndex);
             xCoordinateOut = foundNode.x;
-- 
2.43.0


From 0ef245feda36a053037ac90c77f1a39653c9a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:48 +0000
Subject: [PATCH 020/101] fix: keep the existing contacts when computing new
 contacts fails

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index b1d50f2..9d11666 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3570,8 +3570,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            meshKernelState[meshKernelId].m_contacts = contacts;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3601,8 +3602,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            meshKernelState[meshKernelId].m_contacts = contacts;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3638,9 +3640,10 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
-                                                                                  meshKernelPolygons);
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
+                                                  meshKernelPolygons);
+            meshKernelState[meshKernelId].m_contacts = contacts;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3673,8 +3676,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            meshKernelState[meshKernelId].m_contacts = contacts;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3772,8 +3776,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            meshKernelState[meshKernelId].m_contacts = contacts;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From f25987f20c467c5d8660e693adccd115d750f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:01 +0000
Subject: [PATCH 021/101] fix: administrate the mesh at the start of the
 Casulli algorithms

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 2 ++
 libs/MeshKernel/src/CasulliRefinement.cpp   | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 33f4810..f28ede3 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -43,6 +43,8 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute(Mesh2D& mesh, const Polygons& polygon)
 {
     std::unique_ptr<FullUnstructuredGridUndo> refinementAction = FullUnstructuredGridUndo::Create(mesh);
+    // The mesh may have been changed since its last administration
+    mesh.Administrate();
     const std::vector<Point> meshNodes(mesh.Nodes());
     const std::vector<Edge> meshEdges(mesh.Edges());
 
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index ccace28..43b8956 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -40,9 +40,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
 
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(Mesh2D& mesh, const Polygons& polygon)
 {
+    std::unique_ptr<CompoundUndoAction> refinementAction = CompoundUndoAction::Create();
+    // The mesh may have been changed since its last administration
+    mesh.Administrate(refinementAction.get());
+
     std::vector<EdgeNodes> newNodes(mesh.GetNumEdges(), {constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue});
     std::vector<NodeMask> nodeMask(InitialiseNodeMask(mesh, polygon));
-    std::unique_ptr<CompoundUndoAction> refinementAction = CompoundUndoAction::Create();
 
     const UInt numNodes = mesh.GetNumNodes();
     const UInt numEdges = mesh.GetNumEdges();
-- 
2.43.0


From f4b3b5eec9b3f90f6f260216a90a0885d197bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:01 +0000
Subject: [PATCH 022/101] fix: administrate the 2d mesh before computing
 contacts

---
 libs/MeshKernel/src/Contacts.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 52a0f47..e3859ff 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -35,6 +35,9 @@ void Contacts::ComputeSingleContacts(const std::vector<bool>& oneDNodeMask,
 
     m_mesh1d.AdministrateNodesEdges();
 
+    // the 2d mesh may have been changed since its last administration
+    m_mesh2d.Administrate();
+
     Validate();
 
     const auto node1dFaceIndices = m_mesh2d.PointFaceIndices(m_mesh1d.Nodes());
@@ -156,6 +159,9 @@ void Contacts::ComputeMultipleContacts(const std::vector<bool>& oneDNodeMask)
     // perform mesh1d administration
     m_mesh1d.AdministrateNodesEdges();
 
+    // the 2d mesh may have been changed since its last administration
+    m_mesh2d.Administrate();
+
     Validate();
 
     // compute the indices of the faces including the 1d nodes
@@ -263,6 +269,9 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
 
     // perform mesh1d administration
     m_mesh1d.AdministrateNodesEdges();
+
+    // the 2d mesh may have been changed since its last administration
+    m_mesh2d.Administrate();
     Validate();
 
     // for each mesh2d face, store polygon index
@@ -329,6 +338,9 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
     // perform mesh1d administration (m_nodesRTree will also be build if necessary)
     m_mesh1d.AdministrateNodesEdges();
 
+    // the 2d mesh may have been changed since its last administration
+    m_mesh2d.Administrate();
+
     Validate();
 
     m_mesh1d.BuildTree(Location::Nodes);
@@ -378,6 +390,9 @@ void Contacts::ComputeBoundaryContacts(const std::vector<bool>& oneDNodeMask,
     // perform mesh1d administration
     m_mesh1d.AdministrateNodesEdges();
 
+    // the 2d mesh may have been changed since its last administration
+    m_mesh2d.Administrate();
+
     Validate();
 
     // build mesh2d face circumcenters r-tree
-- 
2.43.0


From 58920c8fb18ad8603c8e09804b5bbdef17c9075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:49 +0000
Subject: [PATCH 023/101] fix: administrate the mesh before selecting the
 elements Casulli de-refinement deletes

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 9d11666..4ea14bd 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3037,6 +3037,7 @@ namespace meshkernelapi
 
             meshkernel::Polygons polygons; // empty polygonal region, i.e. the entire mesh
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             std::vector<meshkernel::Point> elementCentres(meshkernel::CasulliDeRefinement::ElementsToDelete(*meshKernelState[meshKernelId].m_mesh2d, polygons));
 
             elements.num_coordinates = static_cast<int>(elementCentres.size());
@@ -3075,6 +3076,7 @@ namespace meshkernelapi
             const meshkernel::Polygons polygons(polygonPoints,
                                                 meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             std::vector<meshkernel::Point> elementCentres(meshkernel::CasulliDeRefinement::ElementsToDelete(*meshKernelState[meshKernelId].m_mesh2d, polygons));
 
             elements.num_coordinates = static_cast<int>(elementCentres.size());
-- 
2.43.0


From e52f495cefb2185b95f008b2949c72dbb3bfcbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:39 +0000
Subject: [PATCH 024/101] fix: keep the original grid for undo in directional
 smoothing

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 4ea14bd..81a6c8a 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4544,8 +4544,9 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeft{xLowerLeftCornerSmoothingArea, yLowerLeftCornerSmoothingArea};
             meshkernel::Point const upperRight{xUpperRightCornerSmootingArea, yUpperRightCornerSmootingArea};
 
-            // Execute
-            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(*meshKernelState[meshKernelId].m_curvilinearGrid, smoothingIterations);
+            // Execute on a copy, the undo action keeps the original grid
+            meshkernel::CurvilinearGrid grid(*meshKernelState[meshKernelId].m_curvilinearGrid);
+            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(grid, smoothingIterations);
 
             curvilinearGridSmoothing.SetLine(firstNode, secondNode);
             curvilinearGridSmoothing.SetBlock(lowerLeft, upperRight);
-- 
2.43.0


From caba0eb77e302a663f022dd57abc4db5f3869757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:39 +0000
Subject: [PATCH 025/101] fix: undo and redo of curvilinear deletions restore
 all removed nodes

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp    | 7 +++----
 .../src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp    | 3 +++
 .../src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp  | 3 +++
 .../src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp  | 6 +++++-
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 9e9537f..320350b 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1058,13 +1058,12 @@ meshkernel::UndoActionPtr CurvilinearGrid::DeleteNode(Point const& point)
     auto const nodeToDeleteIndex = FindLocationIndex(point, Location::Nodes);
     const auto nodeToDelete = m_gridIndices[nodeToDeleteIndex];
 
-    std::unique_ptr<ResetCurvilinearNodeAction> undoAction;
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction;
 
     if (nodeToDelete.IsValid())
     {
-        undoAction = ResetCurvilinearNodeAction::Create(*this, nodeToDelete, GetNode(nodeToDelete),
-                                                        {constants::missing::doubleValue, constants::missing::doubleValue},
-                                                        true /* recomputeNodeTypes */);
+        // Save the complete grid, other nodes are removed too if they are no longer part of a face
+        undoAction = CurvilinearGridBlockUndoAction::Create(*this, {0, 0}, {NumN(), NumM()});
 
         // Invalidate gridnodes
         GetNode(nodeToDelete.m_n, nodeToDelete.m_m) = {constants::missing::doubleValue, constants::missing::doubleValue};
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp
index a504de0..bae3c41 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp
@@ -82,5 +82,8 @@ meshkernel::UndoActionPtr CurvilinearGridDeRefinement::Compute()
     // substitute original grid with the derefined one
     m_grid.SetGridNodes(lin_alg::STLVectorOfVectorsToMatrix(deRefinedGrid));
 
+    // Remove the nodes that are no longer part of a face
+    m_grid.ComputeGridNodeTypes();
+
     return undoAction;
 }
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
index c41d058..08070b5 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
@@ -88,5 +88,8 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
         }
     }
 
+    // Remove the nodes that are no longer part of a face
+    m_grid.ComputeGridNodeTypes();
+
     return undoAction;
 }
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
index e02cd67..5a2f7cd 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
@@ -47,7 +47,8 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteInterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, m_lowerLeft, m_upperRight);
+    // Save the complete grid, nodes outside the block are removed too if they are no longer part of a face
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     for (UInt n = lowerLimitI + 1; n < upperLimitI; ++n)
     {
@@ -57,5 +58,8 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteInterior::Compute()
         }
     }
 
+    // Remove the nodes that are no longer part of a face
+    m_grid.ComputeGridNodeTypes();
+
     return undoAction;
 }
-- 
2.43.0


From 4639551f36f91cb48cf75040c78b8b64491277d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:51 +0000
Subject: [PATCH 026/101] fix: undoing the deletion of an edge restores its
 nodes

---
 .../UndoActions/DeleteEdgeAction.hpp          | 12 ++++++++++++
 libs/MeshKernel/src/Mesh.cpp                  | 14 ++++++++++++++
 .../src/UndoActions/DeleteEdgeAction.cpp      | 19 ++++++++++++++++++-
 3 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/include/MeshKernel/UndoActions/DeleteEdgeAction.hpp b/libs/MeshKernel/include/MeshKernel/UndoActions/DeleteEdgeAction.hpp
index 80090b1..4ed69c8 100644
--- a/libs/MeshKernel/include/MeshKernel/UndoActions/DeleteEdgeAction.hpp
+++ b/libs/MeshKernel/include/MeshKernel/UndoActions/DeleteEdgeAction.hpp
@@ -55,12 +55,24 @@ namespace meshkernel
         /// @brief Get the edge
         const Edge& GetEdge() const;
 
+        /// @brief Get the position, at the time of the deletion, of the first node of the edge
+        const Point& StartNode() const;
+
+        /// @brief Get the position, at the time of the deletion, of the second node of the edge
+        const Point& EndNode() const;
+
     private:
         /// @brief The edge identifier
         UInt m_edgeId;
 
         /// @brief The deleted edge
         Edge m_edge;
+
+        /// @brief The position of the first node of the deleted edge
+        Point m_startNode;
+
+        /// @brief The position of the second node of the deleted edge
+        Point m_endNode;
     };
 
 } // namespace meshkernel
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index a6d1f17..73bb441 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1292,7 +1292,21 @@ void Mesh::RestoreAction(const ResetEdgeAction& undoAction)
 
 void Mesh::RestoreAction(const DeleteEdgeAction& undoAction)
 {
+    const auto& [startNode, endNode] = undoAction.GetEdge();
+
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
+
+    // The nodes may have been invalidated since the deletion, because they were not connected anymore
+    if (startNode < GetNumNodes() && !m_nodes[startNode].IsValid())
+    {
+        m_nodes[startNode] = undoAction.StartNode();
+    }
+
+    if (endNode < GetNumNodes() && !m_nodes[endNode].IsValid())
+    {
+        m_nodes[endNode] = undoAction.EndNode();
+    }
+
     SetAllRTreesRequireUpdate();
 }
 
diff --git a/libs/MeshKernel/src/UndoActions/DeleteEdgeAction.cpp b/libs/MeshKernel/src/UndoActions/DeleteEdgeAction.cpp
index a02eaf0..387f29a 100644
--- a/libs/MeshKernel/src/UndoActions/DeleteEdgeAction.cpp
+++ b/libs/MeshKernel/src/UndoActions/DeleteEdgeAction.cpp
@@ -7,7 +7,14 @@ std::unique_ptr<meshkernel::DeleteEdgeAction> meshkernel::DeleteEdgeAction::Crea
     return std::make_unique<DeleteEdgeAction>(mesh, id, start, end);
 }
 
-meshkernel::DeleteEdgeAction::DeleteEdgeAction(Mesh& mesh, const UInt id, const UInt start, const UInt end) : BaseMeshUndoAction<DeleteEdgeAction, Mesh>(mesh), m_edgeId(id), m_edge(start, end) {}
+meshkernel::DeleteEdgeAction::DeleteEdgeAction(Mesh& mesh, const UInt id, const UInt start, const UInt end) : BaseMeshUndoAction<DeleteEdgeAction, Mesh>(mesh), m_edgeId(id), m_edge(start, end)
+{
+    if (start < mesh.GetNumNodes() && end < mesh.GetNumNodes())
+    {
+        m_startNode = mesh.Node(start);
+        m_endNode = mesh.Node(end);
+    }
+}
 
 meshkernel::UInt meshkernel::DeleteEdgeAction::EdgeId() const
 {
@@ -18,3 +25,13 @@ const meshkernel::Edge& meshkernel::DeleteEdgeAction::GetEdge() const
 {
     return m_edge;
 }
+
+const meshkernel::Point& meshkernel::DeleteEdgeAction::StartNode() const
+{
+    return m_startNode;
+}
+
+const meshkernel::Point& meshkernel::DeleteEdgeAction::EndNode() const
+{
+    return m_endNode;
+}
-- 
2.43.0


From 13ad36bc2db2c8737b029dafb84954a7649846c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:56 +0000
Subject: [PATCH 027/101] fix: delete and merge nodes consider edges inserted
 after the last administration

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 81a6c8a..61ddd42 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2112,6 +2112,8 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
+            // The nodes may have been connected after the last administration of the mesh
+            meshKernelState[meshKernelId].m_mesh2d->AdministrateNodesEdges();
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->MergeTwoNodes(firstNode, secondNode), meshKernelId);
         }
         catch (...)
@@ -2320,7 +2322,21 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteNode(nodeIndex), meshKernelId);
+            auto& mesh = *meshKernelState[meshKernelId].m_mesh2d;
+            const auto node = static_cast<meshkernel::UInt>(nodeIndex);
+            auto undoAction = meshkernel::CompoundUndoAction::Create();
+
+            // Also delete the edges that were connected to the node after the last administration of the mesh
+            for (meshkernel::UInt e = 0; e < mesh.GetNumEdges() && node < mesh.GetNumNodes(); ++e)
+            {
+                if (mesh.GetEdge(e).first == node || mesh.GetEdge(e).second == node)
+                {
+                    undoAction->Add(mesh.DeleteEdge(e));
+                }
+            }
+
+            undoAction->Add(mesh.DeleteNode(node));
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 6366674341a8ad02bdd7a03c05b84433740f305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:00 +0000
Subject: [PATCH 028/101] fix: Casulli de-refinement fails cleanly when
 elements have no common link

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index f28ede3..e7c7299 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -619,6 +619,12 @@ bool meshkernel::CasulliDeRefinement::UpdateDirectlyConnectedTriangleElements(Me
 
         if (otherEdgeId != constants::missing::uintValue)
         {
+            if (j == mesh.m_facesEdges[leftElementId].size())
+            {
+                // There is no common link between the elements
+                return false;
+            }
+
             mesh.m_facesEdges[leftElementId][j] = otherEdgeId;
 
             if (!CleanUpEdge(mesh, edgeId))
-- 
2.43.0


From c1ec12d3dc0db6f59e908f3571c25b0fd67feee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:18 +0000
Subject: [PATCH 029/101] fix: connecting meshes raises an error for too many
 irregular elements along an edge

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 0ff2797..07e36e4 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -149,6 +149,11 @@ void meshkernel::ConnectMeshes::GatherHangingNodeIds(const Mesh2D& mesh,
                 continue;
             }
 
+            if (edgeInfo.edgeCount >= edgeInfo.hangingNodes.size())
+            {
+                throw AlgorithmError("The number of irregular elements along an edge exceeds the maximum: {}", edgeInfo.hangingNodes.size());
+            }
+
             edgeInfo.hangingNodes[edgeInfo.edgeCount] = j;
             ++edgeInfo.edgeCount;
 
-- 
2.43.0


From dacdf8c3c56fe7b4108dca559c0d6db279e3364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:18 +0000
Subject: [PATCH 030/101] fix: curvilinear deletions remove isolated nodes
 through the api only

---
 .../CurvilinearGrid/CurvilinearGridDeleteExterior.cpp  |  3 ---
 .../CurvilinearGrid/CurvilinearGridDeleteInterior.cpp  |  3 ---
 libs/MeshKernelApi/src/MeshKernel.cpp                  | 10 ++++++++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
index 08070b5..c41d058 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
@@ -88,8 +88,5 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
         }
     }
 
-    // Remove the nodes that are no longer part of a face
-    m_grid.ComputeGridNodeTypes();
-
     return undoAction;
 }
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
index 5a2f7cd..9ff71de 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
@@ -58,8 +58,5 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteInterior::Compute()
         }
     }
 
-    // Remove the nodes that are no longer part of a face
-    m_grid.ComputeGridNodeTypes();
-
     return undoAction;
 }
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 61ddd42..a975868 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4883,7 +4883,10 @@ namespace meshkernelapi
             curvilinearDeleteExterior.SetBlock({xFirstPointCoordinate, yFirstPointCoordinate},
                                                {xSecondPointCoordinate, ySecondPointCoordinate});
 
-            meshKernelUndoStack.Add(curvilinearDeleteExterior.Compute(), meshKernelId);
+            auto undoAction = curvilinearDeleteExterior.Compute();
+            // Remove the nodes that are no longer part of a face
+            meshKernelState[meshKernelId].m_curvilinearGrid->ComputeGridNodeTypes();
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
@@ -4920,7 +4923,10 @@ namespace meshkernelapi
             curvilinearDeleteInterior.SetBlock({xFirstPointCoordinate, yFirstPointCoordinate},
                                                {xSecondPointCoordinate, ySecondPointCoordinate});
 
-            meshKernelUndoStack.Add(curvilinearDeleteInterior.Compute(), meshKernelId);
+            auto undoAction = curvilinearDeleteInterior.Compute();
+            // Remove the nodes that are no longer part of a face
+            meshKernelState[meshKernelId].m_curvilinearGrid->ComputeGridNodeTypes();
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From dcfe5f0bfa039698cf3a2c839c075615a2e6d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:18 +0000
Subject: [PATCH 031/101] fix: skip edges without new nodes when connecting the
 faces in Casulli refinement

---
 libs/MeshKernel/src/CasulliRefinement.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index 43b8956..da8edb3 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -351,6 +351,11 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectFa
         const UInt node3 = oldIndex[nextIndex];
         const UInt node4 = oldIndex[nextNextIndex];
 
+        if (node1 == constants::missing::uintValue)
+        {
+            continue;
+        }
+
         // only one new node: new diagonal edge connects new node with one old node
         if (nodeMask[node1] < NodeMask::Unassigned && nodeMask[node2] == NodeMask::Unassigned && nodeMask[node3] == NodeMask::Unassigned && nodeMask[node4] == NodeMask::Unassigned)
         {
-- 
2.43.0


From 74ad758b620964b58defab8d810c70d57b5e5419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:02 +0000
Subject: [PATCH 032/101] fix: averaging interpolation handles deleted edges
 and edges without faces

---
 libs/MeshKernel/src/AveragingInterpolation.cpp | 5 +++++
 libs/MeshKernel/src/Mesh2D.cpp                 | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/libs/MeshKernel/src/AveragingInterpolation.cpp b/libs/MeshKernel/src/AveragingInterpolation.cpp
index 570ed54..1eb7f38 100644
--- a/libs/MeshKernel/src/AveragingInterpolation.cpp
+++ b/libs/MeshKernel/src/AveragingInterpolation.cpp
@@ -93,6 +93,11 @@ void AveragingInterpolation::Compute()
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
 
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             const auto& firstValue = m_nodeResults[first];
             const auto& secondValue = m_nodeResults[second];
 
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 8754e9b..4b61fdc 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1394,6 +1394,12 @@ void Mesh2D::MakeDualFace(UInt node, double enlargementFactor, std::vector<Point
     dualFace.reserve(m_maximumNumberOfEdgesPerNode);
     dualFace.clear();
 
+    // a deleted or isolated node has no dual face
+    if (numEdges == 0)
+    {
+        return;
+    }
+
     for (UInt e = 0; e < numEdges; ++e)
     {
         const auto edgeIndex = m_nodesEdges[node][e];
@@ -1464,6 +1470,7 @@ std::vector<meshkernel::UInt> Mesh2D::SortedFacesAroundNode(UInt node) const
         // no faces for this edge
         if (m_edgesNumFaces[firstEdge] == 0)
         {
+            result.emplace_back(constants::missing::uintValue);
             continue;
         }
 
-- 
2.43.0


From b77f3311a201c29602b72f439462a4254f401b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:02 +0000
Subject: [PATCH 033/101] fix: bilinear interpolation skips deleted edges

---
 .../MeshKernel/BilinearInterpolationOnGriddedSamples.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
index 73480e9..b7f4c7d 100644
--- a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
+++ b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
@@ -161,6 +161,12 @@ namespace meshkernel
         for (UInt e = 0; e < numEdges; ++e)
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
+
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             m_edgeResults[e] = 0.5 * (m_nodeResults[first] + m_nodeResults[second]);
         }
 
-- 
2.43.0


From c7a3dc56c7595524154ab9f705f0f5ffccffe392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:03 +0000
Subject: [PATCH 034/101] fix: report an error when triangulating less than
 three points instead of ending the process

---
 libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
index 16a7809..bf202c1 100644
--- a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
+++ b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
@@ -88,6 +88,10 @@ namespace meshkernel
             {
                 throw ConstraintError("The sample is empty.");
             }
+            if (inputNodes.size() < constants::geometric::numNodesInTriangle)
+            {
+                throw ConstraintError("At least three points are required to compute a triangulation.");
+            }
             std::vector<double> xLocalPolygon(inputNodes.size());
             std::vector<double> yLocalPolygon(inputNodes.size());
             for (UInt i = 0; i < inputNodes.size(); ++i)
-- 
2.43.0


From a9a3bcaf36d2e3a45ce78a6b9ba2eaaffa37c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:03 +0000
Subject: [PATCH 035/101] fix: reject non-positive refinement factors in
 curvilinear_refine

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index a975868..3d81d37 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3824,6 +3824,11 @@ namespace meshkernelapi
             meshkernel::Point const firstPoint{xLowerLeftCorner, yLowerLeftCorner};
             meshkernel::Point const secondPoint{xUpperRightCorner, yUpperRightCorner};
 
+            if (refinement <= 0)
+            {
+                throw meshkernel::MeshKernelError("Invalid refinement factor: {}", refinement);
+            }
+
             // Execute
             meshkernel::CurvilinearGridRefinement curvilinearGridRefinement(*meshKernelState[meshKernelId].m_curvilinearGrid, refinement);
             curvilinearGridRefinement.SetBlock(firstPoint, secondPoint);
-- 
2.43.0


From 454419e81a6ec871b63ac28ce2af17b912a84a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:03 +0000
Subject: [PATCH 036/101] fix: reject non-positive chainage offsets

---
 libs/MeshKernel/src/Network1D.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index d700494..8f400bc 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -101,6 +101,10 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
 
 void Network1D::ComputeOffsettedChainages(double offset)
 {
+    if (offset <= 0.0)
+    {
+        throw MeshKernelError("The offset of the chainages must be positive: {}", offset);
+    }
 
     for (UInt p = 0; p < m_polyLines.size(); ++p)
     {
-- 
2.43.0


From a637bb2bbb83de3c3779fa8cd58e86dc8d860113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:52 +0000
Subject: [PATCH 037/101] fix: restore the mesh when Casulli refinement fails
 and skip edges without faces

---
 libs/MeshKernel/src/CasulliRefinement.cpp | 35 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index da8edb3..818e004 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -31,6 +31,7 @@
 #include "MeshKernel/Exceptions.hpp"
 #include "MeshKernel/UndoActions/AddNodeAction.hpp"
 #include "MeshKernel/UndoActions/CompoundUndoAction.hpp"
+#include "MeshKernel/UndoActions/FullUnstructuredGridUndo.hpp"
 
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(Mesh2D& mesh)
 {
@@ -41,19 +42,31 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(Mesh2D& mesh, const Polygons& polygon)
 {
     std::unique_ptr<CompoundUndoAction> refinementAction = CompoundUndoAction::Create();
-    // The mesh may have been changed since its last administration
-    mesh.Administrate(refinementAction.get());
+    // Restores the mesh when the refinement fails
+    std::unique_ptr<FullUnstructuredGridUndo> originalMesh = FullUnstructuredGridUndo::Create(mesh);
 
-    std::vector<EdgeNodes> newNodes(mesh.GetNumEdges(), {constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue});
-    std::vector<NodeMask> nodeMask(InitialiseNodeMask(mesh, polygon));
+    try
+    {
+        // The mesh may have been changed since its last administration
+        mesh.Administrate(refinementAction.get());
 
-    const UInt numNodes = mesh.GetNumNodes();
-    const UInt numEdges = mesh.GetNumEdges();
-    const UInt numFaces = mesh.GetNumFaces();
+        std::vector<EdgeNodes> newNodes(mesh.GetNumEdges(), {constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue});
+        std::vector<NodeMask> nodeMask(InitialiseNodeMask(mesh, polygon));
+
+        const UInt numNodes = mesh.GetNumNodes();
+        const UInt numEdges = mesh.GetNumEdges();
+        const UInt numFaces = mesh.GetNumFaces();
+
+        refinementAction->Add(ComputeNewNodes(mesh, newNodes, nodeMask));
+        refinementAction->Add(ConnectNewNodes(mesh, newNodes, numNodes, numEdges, numFaces, nodeMask));
+        refinementAction->Add(Administrate(mesh, numNodes, nodeMask));
+    }
+    catch (...)
+    {
+        originalMesh->Restore();
+        throw;
+    }
 
-    refinementAction->Add(ComputeNewNodes(mesh, newNodes, nodeMask));
-    refinementAction->Add(ConnectNewNodes(mesh, newNodes, numNodes, numEdges, numFaces, nodeMask));
-    refinementAction->Add(Administrate(mesh, numNodes, nodeMask));
     return refinementAction;
 }
 
@@ -404,7 +417,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectEd
             newEdges[edgeCount] = edgeId;
             ++edgeCount;
         }
-        else
+        else if (mesh.m_edgesNumFaces[edgeId] > 1)
         {
             if (mesh.GetEdge(edgeId).first == currentNode)
             {
-- 
2.43.0


From f47897be6691d2fbe1f5b27dcf38906088e3e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:27 +0000
Subject: [PATCH 038/101] fix: a failed orthogonalization leaves the mesh and
 the undo history unchanged

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 3d81d37..893b4ed 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1245,8 +1245,20 @@ namespace meshkernelapi
                                                                        std::move(landBoundary),
                                                                        static_cast<meshkernel::LandBoundaries::ProjectToLandBoundaryOption>(projectToLandBoundaryOption),
                                                                        orthogonalizationParameters);
-            meshKernelUndoStack.Add(ortogonalization.Initialize(), meshKernelId);
-            ortogonalization.Compute();
+            std::unique_ptr<meshkernel::UndoAction> undoAction = ortogonalization.Initialize();
+
+            try
+            {
+                ortogonalization.Compute();
+            }
+            catch (...)
+            {
+                // Undo any node movements made before the failure
+                undoAction->Restore();
+                throw;
+            }
+
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From a0e583f03ff55746092dae68d2b648deb9f717a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:56 +0000
Subject: [PATCH 039/101] fix: administrate the mesh before computing its
 properties

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 893b4ed..17c5c30 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1510,6 +1510,8 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            mesh2d->Administrate();
+
             const auto propertyValueEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             switch (propertyValueEnum)
             {
@@ -1562,6 +1564,8 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            mesh2d->Administrate();
+
             const auto propertyValueEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             dimension = -1;
             switch (propertyValueEnum)
@@ -2537,6 +2541,7 @@ namespace meshkernelapi
             {
                 throw meshkernel::ConstraintError("The 2d mesh contains no nodes.");
             }
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto filterEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             const auto filterMask = meshKernelState[meshKernelId].m_mesh2d->FilterBasedOnMetric(meshkernel::Location::Faces,
                                                                                                 filterEnum,
@@ -2582,6 +2587,7 @@ namespace meshkernelapi
                 throw meshkernel::ConstraintError("The 2d mesh contains no nodes.");
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto filterEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             const auto filterMask = meshKernelState[meshKernelId].m_mesh2d->FilterBasedOnMetric(meshkernel::Location::Faces,
                                                                                                 filterEnum,
-- 
2.43.0


From 479b653b5d7e9fcc1d2ea7e10783a9caada58a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:56 +0000
Subject: [PATCH 040/101] fix: moving a node keeps deleted nodes deleted and
 accepts its own position

---
 libs/MeshKernel/src/Mesh.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 73bb441..beb6a9b 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -733,11 +733,18 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
     }
 
     const Point nodeToMove = m_nodes[nodeindex];
+
+    if (!nodeToMove.IsValid())
+    {
+        throw ConstraintError("The node {} has been deleted and cannot be moved", nodeindex);
+    }
+
     const auto dx = GetDx(nodeToMove, newPoint, m_projection);
     const auto dy = GetDy(nodeToMove, newPoint, m_projection);
 
     const double distanceNodeToMoveFromNewPointSquared = dx * dx + dy * dy;
-    const double distanceNodeToMoveFromNewPointSquaredInv = 1.0 / distanceNodeToMoveFromNewPointSquared;
+    // Moving a node to its own position does not displace any node
+    const double distanceNodeToMoveFromNewPointSquaredInv = distanceNodeToMoveFromNewPointSquared > 0.0 ? 1.0 / distanceNodeToMoveFromNewPointSquared : 0.0;
 
     std::vector<UInt> movedNodeIndex;
     std::vector<Vector> nodeDisplacement;
@@ -746,6 +753,11 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
 
     for (UInt n = 0; n < GetNumNodes(); ++n)
     {
+        if (!m_nodes[n].IsValid())
+        {
+            continue;
+        }
+
         const auto nodeDx = GetDx(m_nodes[n], nodeToMove, m_projection);
         const auto nodeDy = GetDy(m_nodes[n], nodeToMove, m_projection);
         const double distanceCurrentNodeFromNewPointSquared = nodeDx * nodeDx + nodeDy * nodeDy;
-- 
2.43.0


From f8f969b42c41360ae1df5607439edabd38071191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:12 +0000
Subject: [PATCH 041/101] fix: curvature and smoothness of an empty curvilinear
 grid report an error instead of not returning

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 17c5c30..602dc66 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4115,6 +4115,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The curvilinear grid id, {}, does not exist.", meshKernelId);
             }
 
+            if (!meshKernelState[meshKernelId].m_curvilinearGrid->IsValid())
+            {
+                throw meshkernel::MeshKernelError("Not valid curvilinear grid.");
+            }
+
             meshkernel::CurvilinearDirection directionEnum = meshkernel::GetCurvilinearDirectionValue(direction);
             const meshkernel::CurvilinearGrid& grid = *meshKernelState[meshKernelId].m_curvilinearGrid;
             lin_alg::Matrix<double> curvatureMatrix;
@@ -4149,6 +4154,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The curvilinear grid id, {}, does not exist.", meshKernelId);
             }
 
+            if (!meshKernelState[meshKernelId].m_curvilinearGrid->IsValid())
+            {
+                throw meshkernel::MeshKernelError("Not valid curvilinear grid.");
+            }
+
             meshkernel::CurvilinearDirection directionEnum = meshkernel::GetCurvilinearDirectionValue(direction);
             const meshkernel::CurvilinearGrid& grid = *meshKernelState[meshKernelId].m_curvilinearGrid;
             lin_alg::Matrix<double> smoothnessMatrix;
-- 
2.43.0


From a544710eef2fbb5abf01b52348cf3dba81e90c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:30 +0000
Subject: [PATCH 042/101] fix: inserting an edge from coordinates ignores
 deleted edges

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 602dc66..bb56f32 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2255,10 +2255,19 @@ namespace meshkernelapi
             meshkernel::Point const secondNodeCoordinates{secondNodeX, secondNodeY};
 
             const auto newEdgeLength = ComputeDistance(firstNodeCoordinates, secondNodeCoordinates, meshKernelState[meshKernelId].m_projection);
-            const auto& edgeLengths = meshKernelState[meshKernelId].m_mesh2d->m_edgeLengths;
             constexpr auto lengthFraction = 0.01;
 
-            const auto minMeshEdgeLength = edgeLengths.empty() ? newEdgeLength : *std::ranges::min_element(edgeLengths);
+            // The shortest length of the existing edges, deleted edges have no length
+            meshKernelState[meshKernelId].m_mesh2d->ComputeEdgesLengths();
+            auto minMeshEdgeLength = newEdgeLength;
+            for (meshkernel::UInt e = 0; e < meshKernelState[meshKernelId].m_mesh2d->GetNumEdges(); ++e)
+            {
+                if (meshKernelState[meshKernelId].m_mesh2d->IsValidEdge(e))
+                {
+                    minMeshEdgeLength = std::min(minMeshEdgeLength, meshKernelState[meshKernelId].m_mesh2d->m_edgeLengths[e]);
+                }
+            }
+
             const auto searchRadius = std::min(newEdgeLength * lengthFraction, minMeshEdgeLength * lengthFraction);
 
             if (searchRadius <= 0.0)
-- 
2.43.0


From 98772ccad55bb5d965a80f454854fd7b00841fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:17 +0000
Subject: [PATCH 043/101] fix: inserting an edge from coordinates twice does
 not duplicate the edge

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index bb56f32..c3754c3 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2298,6 +2298,13 @@ namespace meshkernelapi
 
             meshKernelState[meshKernelId].m_mesh2d->BuildTree(meshkernel::Location::Edges);
 
+            // The administration may not contain the last inserted edges, so search all the edges
+            if (meshKernelState[meshKernelId].m_mesh2d->FindEdgeWithLinearSearch(firstNodeId, secondNodeId) != meshkernel::constants::missing::uintValue)
+            {
+                edgeIndex = static_cast<int>(meshkernel::constants::missing::uintValue);
+                return lastExitCode;
+            }
+
             auto [edgeId, action] = meshKernelState[meshKernelId].m_mesh2d->ConnectNodes(firstNodeId, secondNodeId);
             if (edgeId != meshkernel::constants::missing::uintValue)
             {
-- 
2.43.0


From 16850a17fe9c13fb86e4f202630b3e3595dd3f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:17 +0000
Subject: [PATCH 044/101] fix: search radii of geographic coordinates are in
 metres

---
 .../include/MeshKernel/Utilities/RTree.hpp    | 48 +++++++++++++++----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp b/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp
index e4a2975..beb415c 100644
--- a/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp
@@ -41,7 +41,9 @@
 #include "MeshKernel/BoundingBox.hpp"
 #include "MeshKernel/Utilities/RTreeBase.hpp"
 
+#include <cmath>
 #include <concepts>
+#include <type_traits>
 
 // r-tree
 // https://gist.github.com/logc/10272165
@@ -196,6 +198,39 @@ namespace meshkernel
             m_rtree2D = RTree2D(m_points);
         }
 
+        /// @brief The box containing all points within the search radius of a point, the radius is in metres for geographic coordinates
+        static Box2D SearchBox(Point const& node, double searchRadius)
+        {
+            if constexpr (std::is_same_v<projection, bg::cs::cartesian>)
+            {
+                return {Point2D(node.x - searchRadius, node.y - searchRadius),
+                        Point2D(node.x + searchRadius, node.y + searchRadius)};
+            }
+            else
+            {
+                // The 1% extension covers the difference between the sphere and the ellipsoid
+                const double latitudeExtent = 1.01 * searchRadius / constants::geometric::earth_radius * constants::conversion::radToDeg;
+                const double maximumLatitude = std::abs(node.y) + latitudeExtent;
+                const double longitudeExtent = maximumLatitude < 89.0 ? std::min(180.0, latitudeExtent / std::cos(maximumLatitude * constants::conversion::degToRad)) : 180.0;
+                return {Point2D(node.x - longitudeExtent, std::max(-90.0, node.y - latitudeExtent)),
+                        Point2D(node.x + longitudeExtent, std::min(90.0, node.y + latitudeExtent))};
+            }
+        }
+
+        /// @brief The squared distance between two points, in squared metres for geographic coordinates
+        static double SquaredDistance(Point2D const& first, Point2D const& second)
+        {
+            if constexpr (std::is_same_v<projection, bg::cs::cartesian>)
+            {
+                return bg::comparable_distance(first, second);
+            }
+            else
+            {
+                const double distance = bg::distance(first, second);
+                return distance * distance;
+            }
+        }
+
         RTree2D m_rtree2D;                              ///< The 2D RTree
         std::vector<std::pair<Point2D, UInt>> m_points; ///< The points
         std::vector<Value2D> m_queryCache;              ///< The query cache
@@ -211,17 +246,14 @@ namespace meshkernel
             throw AlgorithmError("RTree is empty, search cannot be performed");
         }
 
-        const auto searchRadius = std::sqrt(searchRadiusSquared);
-
-        Box2D const box(Point2D(node.x - searchRadius, node.y - searchRadius),
-                        Point2D(node.x + searchRadius, node.y + searchRadius));
+        Box2D const box = SearchBox(node, std::sqrt(searchRadiusSquared));
         Point2D nodeSought = Point2D(node.x, node.y);
 
         m_queryCache.reserve(m_queryVectorCapacity);
         m_queryCache.clear();
         m_rtree2D.query(bgi::within(box) &&
                             bgi::satisfies([&nodeSought, &searchRadiusSquared](Value2D const& v)
-                                           { return bg::comparable_distance(v.first, nodeSought) <= searchRadiusSquared; }),
+                                           { return SquaredDistance(v.first, nodeSought) <= searchRadiusSquared; }),
                         std::back_inserter(m_queryCache));
 
         m_queryIndices.reserve(m_queryCache.size());
@@ -245,12 +277,10 @@ namespace meshkernel
         m_queryCache.reserve(m_queryVectorCapacity);
         m_queryCache.clear();
         const Point2D nodeSought = Point2D(node.x, node.y);
-        const auto searchRadius = std::sqrt(searchRadiusSquared);
-        Box2D const box(Point2D(node.x - searchRadius, node.y - searchRadius),
-                        Point2D(node.x + searchRadius, node.y + searchRadius));
+        Box2D const box = SearchBox(node, std::sqrt(searchRadiusSquared));
         m_rtree2D.query(bgi::within(box) &&
                             bgi::satisfies([&nodeSought, &searchRadiusSquared](Value2D const& v)
-                                           { return bg::comparable_distance(v.first, nodeSought) <= searchRadiusSquared; }) &&
+                                           { return SquaredDistance(v.first, nodeSought) <= searchRadiusSquared; }) &&
                             bgi::nearest(nodeSought, 1),
                         std::back_inserter(m_queryCache));
 
-- 
2.43.0


From 686e1d441009ac80473283702e6040da3cb000ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:09 +0000
Subject: [PATCH 045/101] fix: casulli refinement deletes the replaced boundary
 edges between kept nodes

---
 .../include/MeshKernel/CasulliRefinement.hpp  |  7 +++++
 libs/MeshKernel/src/CasulliRefinement.cpp     | 26 +++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
index 8214699..4633606 100644
--- a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
@@ -193,6 +193,13 @@ namespace meshkernel
                                  std::vector<UInt>& connectedNodes,
                                  std::vector<std::vector<UInt>>& faceNodeMapping);
 
+        /// @brief Delete the original boundary edges which have been replaced by new edges.
+        ///
+        /// @param [in, out] mesh The mesh
+        /// @param [in] numEdges The original number of edges in the mesh
+        /// @param [in] nodeMask Node mask information
+        [[nodiscard]] static std::unique_ptr<meshkernel::UndoAction> DeleteReplacedBoundaryEdges(Mesh2D& mesh, const UInt numEdges, const std::vector<NodeMask>& nodeMask);
+
         /// @brief Delete any unused nodes and perform a mesh administration.
         ///
         /// @param [in, out] mesh The mesh
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index 818e004..ca268e2 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -59,6 +59,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
 
         refinementAction->Add(ComputeNewNodes(mesh, newNodes, nodeMask));
         refinementAction->Add(ConnectNewNodes(mesh, newNodes, numNodes, numEdges, numFaces, nodeMask));
+        refinementAction->Add(DeleteReplacedBoundaryEdges(mesh, numEdges, nodeMask));
         refinementAction->Add(Administrate(mesh, numNodes, nodeMask));
     }
     catch (...)
@@ -219,6 +220,31 @@ std::vector<meshkernel::CasulliRefinement::NodeMask> meshkernel::CasulliRefineme
     return nodeMask;
 }
 
+std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::DeleteReplacedBoundaryEdges(Mesh2D& mesh, const UInt numEdges, const std::vector<NodeMask>& nodeMask)
+{
+    std::unique_ptr<CompoundUndoAction> deleteEdgesAction = CompoundUndoAction::Create();
+
+    for (UInt i = 0; i < numEdges; ++i)
+    {
+        if (mesh.m_edgesNumFaces[i] != 1)
+        {
+            continue;
+        }
+
+        const NodeMask mask1 = nodeMask[mesh.GetEdge(i).first];
+        const NodeMask mask2 = nodeMask[mesh.GetEdge(i).second];
+
+        // Edges connected to the other nodes are deleted with these nodes
+        if ((mask1 == NodeMask::CornerNode && (mask2 == NodeMask::CornerNode || mask2 == NodeMask::Unassigned)) ||
+            (mask1 == NodeMask::Unassigned && mask2 == NodeMask::CornerNode))
+        {
+            deleteEdgesAction->Add(mesh.DeleteEdge(i));
+        }
+    }
+
+    return deleteEdgesAction;
+}
+
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Administrate(Mesh2D& mesh, const UInt numNodes, const std::vector<NodeMask>& nodeMask)
 {
 
-- 
2.43.0


From 9a6ea4d1b36e4ce90f04b6d6b4faab00d20a4825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:09 +0000
Subject: [PATCH 046/101] fix: orthogonalization reads outside of its arrays
 (spherical accurate, nodes without faces)

---
 .../OrthogonalizationAndSmoothing.hpp         |  8 +++--
 .../src/OrthogonalizationAndSmoothing.cpp     | 34 ++++++++++++-------
 libs/MeshKernel/src/Smoother.cpp              |  6 ++--
 3 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp b/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
index f6deee4..c91e60d 100644
--- a/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
+++ b/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
@@ -130,6 +130,12 @@ namespace meshkernel
                                     double& dy0,
                                     std::array<double, 2>& weightsSum);
 
+        /// @brief Compute the coordinates of a node in the frame rotated to a reference node, used in sphericalAccurate projection (xloc,yloc)
+        /// @param[in] referenceNode The index of the reference node
+        /// @param[in] node The index of the node
+        /// @returns The local coordinates in degrees
+        [[nodiscard]] Point ComputeLocalCoordinates(UInt referenceNode, UInt node) const;
+
         /// @brief Update the nodal coordinates based on the increments
         /// @param[in] nodeIndex
         void UpdateNodeCoordinates(UInt nodeIndex);
@@ -148,8 +154,6 @@ namespace meshkernel
         LandBoundaries::ProjectToLandBoundaryOption m_projectToLandBoundaryOption; ///< The project to land boundary option
         OrthogonalizationParameters m_orthogonalizationParameters;                 ///< The orthogonalization parameters
 
-        std::vector<UInt> m_localCoordinatesIndices; ///< Used in sphericalAccurate projection (iloc)
-        std::vector<Point> m_localCoordinates;       ///< Used in sphericalAccurate projection (xloc,yloc)
         std::vector<Point> m_orthogonalCoordinates;  ///< A copy of the mesh node, orthogonalized
         std::vector<Point> m_originalNodes;          ///< The original mesh
 
diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index 0067c38..49f1b36 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -101,15 +101,6 @@ std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initializ
         {
             PrepareOuterIteration();
         }
-
-        m_localCoordinatesIndices.resize(m_mesh.GetNumNodes() + 1);
-        m_localCoordinatesIndices[0] = 1;
-        for (UInt n = 0; n < m_mesh.GetNumNodes(); ++n)
-        {
-            m_localCoordinatesIndices[n + 1] = m_localCoordinatesIndices[n] + std::max(m_mesh.m_nodesNumEdges[n] + 1, m_smoother->GetNumConnectedNodes(n));
-        }
-
-        m_localCoordinates.resize(m_localCoordinatesIndices.back() - 1, {constants::missing::doubleValue, constants::missing::doubleValue});
     }
 
     return undoAction;
@@ -208,7 +199,7 @@ void OrthogonalizationAndSmoothing::ComputeLinearSystemTerms()
             double wwy = 0.0;
 
             // Smoother
-            if (atpf1Loc > 0.0 && m_mesh.m_nodesTypes[n] == 1)
+            if (atpf1Loc > 0.0 && m_mesh.m_nodesTypes[n] == 1 && nn < static_cast<int>(m_smoother->GetNumConnectedNodes(n)))
             {
                 wwx = atpf1Loc * m_smoother->GetWeight(n, nn);
                 wwy = atpf1Loc * m_smoother->GetWeight(n, nn);
@@ -407,6 +398,24 @@ void OrthogonalizationAndSmoothing::UpdateNodeCoordinates(UInt nodeIndex)
     }
 }
 
+meshkernel::Point OrthogonalizationAndSmoothing::ComputeLocalCoordinates(UInt referenceNode, UInt node) const
+{
+    std::array<double, 3> exxp{0.0, 0.0, 0.0};
+    std::array<double, 3> eyyp{0.0, 0.0, 0.0};
+    std::array<double, 3> ezzp{0.0, 0.0, 0.0};
+    ComputeThreeBaseComponents(m_mesh.Node(referenceNode), exxp, eyyp, ezzp);
+
+    const Cartesian3DPoint global{SphericalToCartesian3D(m_mesh.Node(node))};
+
+    // project to the frame rotated to the reference node
+    Cartesian3DPoint local;
+    local.x = exxp[0] * global.x + exxp[1] * global.y + exxp[2] * global.z;
+    local.y = eyyp[0] * global.x + eyyp[1] * global.y + eyyp[2] * global.z;
+    local.z = ezzp[0] * global.x + ezzp[1] * global.y + ezzp[2] * global.z;
+
+    return Cartesian3DToSpherical(local, 0.0);
+}
+
 void OrthogonalizationAndSmoothing::ComputeLocalIncrements(UInt nodeIndex, double& dx0, double& dy0, std::array<double, 2>& weightsSum)
 {
     const auto numConnectedNodes = m_compressedStartNodeIndex[nodeIndex] - m_compressedEndNodeIndex[nodeIndex];
@@ -444,8 +453,9 @@ void OrthogonalizationAndSmoothing::ComputeLocalIncrements(UInt nodeIndex, doubl
             const double wwxTransformed = wwx * constants::geometric::earth_radius * constants::conversion::degToRad;
             const double wwyTransformed = wwy * constants::geometric::earth_radius * constants::conversion::degToRad;
 
-            dx0 = dx0 + wwxTransformed * m_localCoordinates[m_localCoordinatesIndices[nodeIndex] + currentNode - 1].x;
-            dy0 = dy0 + wwyTransformed * m_localCoordinates[m_localCoordinatesIndices[nodeIndex] + currentNode - 1].y;
+            const auto localCoordinates = ComputeLocalCoordinates(nodeIndex, currentNode);
+            dx0 = dx0 + wwxTransformed * localCoordinates.x;
+            dy0 = dy0 + wwyTransformed * localCoordinates.y;
             weightsSum[0] += wwxTransformed;
             weightsSum[1] += wwyTransformed;
         }
diff --git a/libs/MeshKernel/src/Smoother.cpp b/libs/MeshKernel/src/Smoother.cpp
index 95fc9d1..5becb65 100644
--- a/libs/MeshKernel/src/Smoother.cpp
+++ b/libs/MeshKernel/src/Smoother.cpp
@@ -476,7 +476,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
     }
 
     double volxi = 0.0;
-    for (UInt i = 0; i < m_mesh.m_nodesNumEdges[currentNode]; i++)
+    for (UInt i = 0; i < m_Divxi[currentTopology].size(); i++)
     {
         volxi += 0.5 * (m_Divxi[currentTopology][i] * m_xisCache[i] + m_Diveta[currentTopology][i] * m_etasCache[i]);
     }
@@ -485,7 +485,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         volxi = 1.0;
     }
 
-    for (UInt i = 0; i < m_mesh.m_nodesNumEdges[currentNode]; i++)
+    for (UInt i = 0; i < m_Divxi[currentTopology].size(); i++)
     {
         m_Divxi[currentTopology][i] = m_Divxi[currentTopology][i] / volxi;
         m_Diveta[currentTopology][i] = m_Diveta[currentTopology][i] / volxi;
@@ -524,7 +524,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
 
     // compute the weights in the Laplacian smoother
     std::fill(m_ww2[currentTopology].begin(), m_ww2[currentTopology].end(), 0.0);
-    for (UInt n = 0; n < m_mesh.m_nodesNumEdges[currentNode]; n++)
+    for (UInt n = 0; n < m_Divxi[currentTopology].size(); n++)
     {
         for (UInt i = 0; i < m_topologyConnectedNodes[currentTopology].size(); i++)
         {
-- 
2.43.0


From 011e7af04ef9cb443dd11b821336fcf8a8b80c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 047/101] fix: split row uses the administration of the current
 mesh

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index c3754c3..04aa206 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -526,6 +526,9 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh not exist.");
             }
 
+            // The mesh may have been changed since its last administration
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             meshkernel::UInt edgeId = meshKernelState[meshKernelId].m_mesh2d->FindEdge(static_cast<meshkernel::UInt>(firstNode),
                                                                                        static_cast<meshkernel::UInt>(secondNode));
 
-- 
2.43.0


From c0723b28e0f0e2255f75241f9445dbec092fbbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:13 +0000
Subject: [PATCH 048/101] fix: delete hanging edges of an edited mesh
 administrates first

---
 libs/MeshKernel/src/Mesh2D.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 4b61fdc..5740bc3 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1879,6 +1879,9 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::DeleteHangingEdges()
 {
     std::unique_ptr<meshkernel::CompoundUndoAction> deleteAction = CompoundUndoAction::Create();
 
+    // The connectivity may be out of date if the mesh was edited before
+    AdministrateNodesEdges(deleteAction.get());
+
     for (const auto& hangingEdge : GetHangingEdges())
     {
         deleteAction->Add(DeleteEdge(hangingEdge));
-- 
2.43.0


From 8eacff46ba9b66068ea56249c7185eac94d797f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:13 +0000
Subject: [PATCH 049/101] fix: merging with a deleted node is an error and
 deletes nothing

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 04aa206..f3bdcfb 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2133,6 +2133,13 @@ namespace meshkernelapi
 
             // The nodes may have been connected after the last administration of the mesh
             meshKernelState[meshKernelId].m_mesh2d->AdministrateNodesEdges();
+            for (const auto node : {firstNode, secondNode})
+            {
+                if (node >= 0 && node < static_cast<int>(meshKernelState[meshKernelId].m_mesh2d->GetNumNodes()) && !meshKernelState[meshKernelId].m_mesh2d->Node(node).IsValid())
+                {
+                    throw meshkernel::ConstraintError("The node {} has been deleted and cannot be merged", node);
+                }
+            }
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->MergeTwoNodes(firstNode, secondNode), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From 2aeca821f68babfe9eacca21e59fc77ee2f86b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:05 +0000
Subject: [PATCH 050/101] fix: moving a node in spherical coordinates moves it
 to the given coordinates

---
 libs/MeshKernel/src/Mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index beb6a9b..4031439 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -766,7 +766,8 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
         {
             const auto factor = 0.5 * (1.0 + std::cos(std::sqrt(distanceCurrentNodeFromNewPointSquared * distanceNodeToMoveFromNewPointSquaredInv) * M_PI));
 
-            nodeDisplacement.emplace_back(dx * factor, dy * factor);
+            // distances are in metres, the displacement is in the coordinates of the nodes
+            nodeDisplacement.emplace_back((newPoint.x - nodeToMove.x) * factor, (newPoint.y - nodeToMove.y) * factor);
             movedNodeIndex.emplace_back(n);
         }
     }
-- 
2.43.0


From f35074d4334a3470cd6ceb0a6c746f4b4b30822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:07 +0000
Subject: [PATCH 051/101] fix: face centres in accurate spherical coordinates
 are in degrees

---
 libs/MeshKernel/src/Polygon.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index a8814be..cd96736 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -717,8 +717,7 @@ std::tuple<double, meshkernel::Point, meshkernel::TraversalDirection> meshkernel
     area = std::abs(area) < minArea ? minArea : area;
     centreOfMass *= 1.0 / (3.0 * area);
 
-    // TODO SHould this also apply to spheciral accurate?
-    if (projection == Projection::spherical)
+    if (projection == Projection::spherical || projection == Projection::sphericalAccurate)
     {
         centreOfMass.y /= (constants::geometric::earth_radius * constants::conversion::degToRad);
         centreOfMass.x /= (constants::geometric::earth_radius * constants::conversion::degToRad * std::cos((centreOfMass.y + reference.y) * constants::conversion::degToRad));
@@ -828,8 +827,7 @@ std::tuple<double, meshkernel::Point, meshkernel::TraversalDirection> meshkernel
     area = std::abs(area) < minArea ? minArea : area;
     centreOfMass *= 1.0 / (3.0 * area);
 
-    // TODO SHould this also apply to spheciral accurate?
-    if (projection == Projection::spherical)
+    if (projection == Projection::spherical || projection == Projection::sphericalAccurate)
     {
         centreOfMass.y /= (constants::geometric::earth_radius * constants::conversion::degToRad);
         centreOfMass.x /= (constants::geometric::earth_radius * constants::conversion::degToRad * std::cos((centreOfMass.y + reference.y) * constants::conversion::degToRad));
-- 
2.43.0


From 627d11e93edd8f2913ad359a5f9eab7f6b1cc6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:00 +0000
Subject: [PATCH 052/101] fix: polygon_get_included_points considers every
 selecting polygon, not only the first

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index f3bdcfb..78b40a0 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2971,7 +2971,7 @@ namespace meshkernelapi
 
             for (size_t i = 0; i < points.size(); ++i)
             {
-                selectionResults.values[i] = localPolygon.IsPointInPolygon(points[i], 0) ? 1.0 : 0.0;
+                selectionResults.values[i] = localPolygon.IsPointInAnyPolygon(points[i]) ? 1.0 : 0.0;
             }
         }
         catch (...)
-- 
2.43.0


From c24c51cc60ce8b46394323ed084f4c6a45056a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:18 +0000
Subject: [PATCH 053/101] fix: a point in a hole of one polygon can be inside
 another polygon

---
 libs/MeshKernel/src/Polygons.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/libs/MeshKernel/src/Polygons.cpp b/libs/MeshKernel/src/Polygons.cpp
index 2d3aa21..0ecf69c 100644
--- a/libs/MeshKernel/src/Polygons.cpp
+++ b/libs/MeshKernel/src/Polygons.cpp
@@ -315,16 +315,11 @@ std::tuple<bool, meshkernel::UInt> Polygons::IsPointInPolygons(const Point& poin
     {
         const PolygonalEnclosure& enclosure = m_enclosures[i];
 
+        // A point in a hole of this polygon can still be inside another polygon
         if (enclosure.ContainsRegion(point) == PolygonalEnclosure::Region::Exterior)
         {
             return {true, i};
         }
-
-        if (enclosure.ContainsRegion(point) == PolygonalEnclosure::Region::Interior)
-        {
-            // Point can be found in an hole in the polygon
-            break;
-        }
     }
 
     return {false, constants::missing::uintValue};
@@ -347,11 +342,8 @@ bool Polygons::IsPointInAnyPolygon(const Point& point) const
             // Point was found in
             return true;
         }
-        else if (containingRegion == PolygonalEnclosure::Region::Interior)
-        {
-            // Point can be found in an hole in the polygon
-            break;
-        }
+
+        // A point in a hole of this polygon can still be inside another polygon
     }
 
     return false;
-- 
2.43.0


From d8d5513ff60e8aa3f5febd5a0a8a2e782b8de2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:22 +0000
Subject: [PATCH 054/101] fix: deleting by polygon does not delete edges
 without faces away from the polygon

---
 libs/MeshKernel/src/Mesh2D.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 5740bc3..715a7c2 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1766,11 +1766,27 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::DeleteMesh(const Polygons& polyg
         { return isFaceCompletlyIncludedInPolygon[f] || faceIntersections[f].faceIndex != constants::missing::uintValue; };
     }
 
+    // An edge without faces is selected by its nodes
+    const auto isIsolatedEdgeSelected = [&](UInt e)
+    {
+        const bool isFirstInside = isNodeInsidePolygon[m_edges[e].first];
+        const bool isSecondInside = isNodeInsidePolygon[m_edges[e].second];
+        const bool isSelected = deletionOption == InsideNotIntersected ? isFirstInside && isSecondInside : isFirstInside || isSecondInside;
+        return isSelected != invertDeletion;
+    };
+
     // Mark edges for deletion
     for (UInt e = 0; e < GetNumEdges(); ++e)
     {
         const auto numEdgeFaces = GetNumEdgesFaces(e);
 
+        if (numEdgeFaces == 0 && IsValidEdge(e) && !isIsolatedEdgeSelected(e))
+        {
+            deleteNode[m_edges[e].first] = false;
+            deleteNode[m_edges[e].second] = false;
+            continue;
+        }
+
         if (numEdgeFaces == 1 && excludedFace(m_edgesFaces[e][0]))
         {
             deleteNode[m_edges[e].first] = false;
-- 
2.43.0


From b04364d18641862c48d877d2d40d47da77f20a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:41 +0000
Subject: [PATCH 055/101] fix: merging two nodes with many edges does not write
 out of bounds

---
 libs/MeshKernel/src/Mesh.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 4031439..2c666c3 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -358,8 +358,8 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     }
 
     // add all valid edges starting at secondNode
-    std::vector<UInt> secondNodeEdges(m_maximumNumberOfEdgesPerNode, constants::missing::uintValue);
-    UInt numSecondNodeEdges = 0;
+    std::vector<UInt> secondNodeEdges;
+    secondNodeEdges.reserve(m_maximumNumberOfEdgesPerNode);
 
     for (UInt n = 0; n < m_nodesNumEdges[secondNodeIndex]; n++)
     {
@@ -367,8 +367,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
 
         if (m_edges[edgeIndex].first != constants::missing::uintValue)
         {
-            secondNodeEdges[numSecondNodeEdges] = edgeIndex;
-            numSecondNodeEdges++;
+            secondNodeEdges.push_back(edgeIndex);
         }
     }
 
@@ -379,7 +378,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
 
         if (m_edges[edgeIndex].first != constants::missing::uintValue)
         {
-            secondNodeEdges[numSecondNodeEdges] = edgeIndex;
+            secondNodeEdges.push_back(edgeIndex);
 
             if (m_edges[edgeIndex].first == firstNodeIndex)
             {
@@ -389,14 +388,12 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
             {
                 undoAction->Add(ResetEdge(edgeIndex, {m_edges[edgeIndex].first, secondNodeIndex}));
             }
-
-            numSecondNodeEdges++;
         }
     }
 
     // re-assign edges to second node
-    m_nodesEdges[secondNodeIndex] = std::vector<UInt>(secondNodeEdges.begin(), secondNodeEdges.begin() + numSecondNodeEdges);
-    m_nodesNumEdges[secondNodeIndex] = numSecondNodeEdges;
+    m_nodesNumEdges[secondNodeIndex] = static_cast<UInt>(secondNodeEdges.size());
+    m_nodesEdges[secondNodeIndex] = std::move(secondNodeEdges);
 
     // remove edges to first node
     m_nodesEdges[firstNodeIndex] = std::vector<UInt>(0);
-- 
2.43.0


From ff28887101b6f42521bdefb7f5a3283ee85b45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:00 +0000
Subject: [PATCH 056/101] fix: inserting a face keeps existing nodes, and
 mirroring an inner boundary line adds its nodes next to that line

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 33 ++++++----
 .../CurvilinearGridLineMirror.cpp             | 64 ++++++++-----------
 2 files changed, 46 insertions(+), 51 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 320350b..b94d8f2 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -866,6 +866,15 @@ meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices co
 
     m_edgesRTreeRequiresUpdate = true;
 
+    // Nodes that are already part of the grid keep their position
+    const auto addNode = [&](const CurvilinearGridNodeIndices& nodeIndex, const Point& coordinates)
+    {
+        if (!GetNode(nodeIndex.m_n, nodeIndex.m_m).IsValid())
+        {
+            undoAddEdge->Add(MoveNode(nodeIndex, coordinates));
+        }
+    };
+
     if (gridLineType == BoundaryGridLineType::Bottom)
     {
         auto const firstNewNodeCoordinates = GetNode(firstNode.m_n, firstNode.m_m) * 2.0 - GetNode(firstNode.m_n + 1, firstNode.m_m);
@@ -875,13 +884,13 @@ meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices co
         if (isGridLineAdded)
         {
             undoAddEdge->Add(std::move(addGridLineUndo));
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(0, firstNode.m_m), firstNewNodeCoordinates));
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(0, secondNode.m_m), secondNewNodeCoordinates));
+            addNode(CurvilinearGridNodeIndices(0, firstNode.m_m), firstNewNodeCoordinates);
+            addNode(CurvilinearGridNodeIndices(0, secondNode.m_m), secondNewNodeCoordinates);
         }
         else
         {
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(firstNode.m_n - 1, firstNode.m_m), firstNewNodeCoordinates));
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(secondNode.m_n - 1, secondNode.m_m), secondNewNodeCoordinates));
+            addNode(CurvilinearGridNodeIndices(firstNode.m_n - 1, firstNode.m_m), firstNewNodeCoordinates);
+            addNode(CurvilinearGridNodeIndices(secondNode.m_n - 1, secondNode.m_m), secondNewNodeCoordinates);
         }
     }
 
@@ -896,8 +905,8 @@ meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices co
             undoAddEdge->Add(std::move(addGridLineUndo));
         }
 
-        undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(firstNode.m_n + 1, firstNode.m_m), firstNewNodeCoordinates));
-        undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(secondNode.m_n + 1, secondNode.m_m), secondNewNodeCoordinates));
+        addNode(CurvilinearGridNodeIndices(firstNode.m_n + 1, firstNode.m_m), firstNewNodeCoordinates);
+        addNode(CurvilinearGridNodeIndices(secondNode.m_n + 1, secondNode.m_m), secondNewNodeCoordinates);
     }
 
     if (gridLineType == BoundaryGridLineType::Left)
@@ -910,13 +919,13 @@ meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices co
         {
             undoAddEdge->Add(std::move(addGridLineUndo));
             // Assign the new coordinates
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(firstNode.m_n, 0), firstNewNodeCoordinates));
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(secondNode.m_n, 0), secondNewNodeCoordinates));
+            addNode(CurvilinearGridNodeIndices(firstNode.m_n, 0), firstNewNodeCoordinates);
+            addNode(CurvilinearGridNodeIndices(secondNode.m_n, 0), secondNewNodeCoordinates);
         }
         else
         {
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(firstNode.m_n, firstNode.m_m - 1), firstNewNodeCoordinates));
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(secondNode.m_n, secondNode.m_m - 1), secondNewNodeCoordinates));
+            addNode(CurvilinearGridNodeIndices(firstNode.m_n, firstNode.m_m - 1), firstNewNodeCoordinates);
+            addNode(CurvilinearGridNodeIndices(secondNode.m_n, secondNode.m_m - 1), secondNewNodeCoordinates);
         }
     }
 
@@ -931,8 +940,8 @@ meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices co
             undoAddEdge->Add(std::move(addGridLineUndo));
         }
 
-        undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(firstNode.m_n, firstNode.m_m + 1), firstNewNodeCoordinates));
-        undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(secondNode.m_n, secondNode.m_m + 1), secondNewNodeCoordinates));
+        addNode(CurvilinearGridNodeIndices(firstNode.m_n, firstNode.m_m + 1), firstNewNodeCoordinates);
+        addNode(CurvilinearGridNodeIndices(secondNode.m_n, secondNode.m_m + 1), secondNewNodeCoordinates);
     }
 
     if (gridLineType == BoundaryGridLineType::Bottom ||
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index 70aba04..3f07115 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -71,58 +71,44 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
     double const a = 1.0 + m_mirroringFactor;
     double const b = -m_mirroringFactor;
 
-    CurvilinearGridNodeIndices lowerLeft;
-    CurvilinearGridNodeIndices upperRight;
-
     using enum CurvilinearGrid::BoundaryGridLineType;
 
-    switch (gridLineType)
+    if (gridLineType != Bottom && gridLineType != Top && gridLineType != Left && gridLineType != Right)
     {
-    case Bottom:
-        lowerLeft = {0, m_lines[0].m_startCoordinate};
-        upperRight = {1, m_lines[0].m_endCoordinate + 1};
-        break;
-    case Top:
-        lowerLeft = {m_grid.NumN() - 1, m_lines[0].m_startCoordinate};
-        upperRight = {m_grid.NumN() - 0, m_lines[0].m_endCoordinate + 1};
-        break;
-    case Right:
-        lowerLeft = {m_lines[0].m_startCoordinate, m_grid.NumM() - 1};
-        upperRight = {m_lines[0].m_endCoordinate + 1, m_grid.NumM() - 0};
-        break;
-    case Left:
-        lowerLeft = {m_lines[0].m_startCoordinate, 0};
-        upperRight = {m_lines[0].m_endCoordinate + 1, 1};
-        break;
-    default:
         throw std::invalid_argument("CurvilinearGridLineMirror:: Invalid grid line type");
     }
 
+    // The position of the boundary line shifts if a line has been added in front of it
+    const bool isBeforeBoundary = gridLineType == Bottom || gridLineType == Left;
+    const UInt boundaryLine = m_lines[0].m_constantCoordinate + (isBeforeBoundary && addedLine ? 1 : 0);
+    const UInt mirroredLine = isBeforeBoundary ? boundaryLine - 1 : boundaryLine + 1;
+    const UInt innerLine = isBeforeBoundary ? boundaryLine + 1 : boundaryLine - 1;
+
+    CurvilinearGridNodeIndices lowerLeft;
+    CurvilinearGridNodeIndices upperRight;
+
+    if (gridLineType == Bottom || gridLineType == Top)
+    {
+        lowerLeft = {mirroredLine, m_lines[0].m_startCoordinate};
+        upperRight = {mirroredLine + 1, m_lines[0].m_endCoordinate + 1};
+    }
+    else
+    {
+        lowerLeft = {m_lines[0].m_startCoordinate, mirroredLine};
+        upperRight = {m_lines[0].m_endCoordinate + 1, mirroredLine + 1};
+    }
+
     undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, lowerLeft, upperRight));
 
     for (auto i = m_lines[0].m_startCoordinate; i <= m_lines[0].m_endCoordinate; ++i)
     {
-        if (gridLineType == Bottom)
-        {
-            m_grid.GetNode(0, i) = m_grid.GetNode(1, i) * a +
-                                   m_grid.GetNode(2, i) * b;
-        }
-        if (gridLineType == Top)
-        {
-            auto const last_row = (UInt)m_grid.NumN() - 1;
-            m_grid.GetNode(last_row, i) = m_grid.GetNode(last_row - 1, i) * a +
-                                          m_grid.GetNode(last_row - 2, i) * b;
-        }
-        if (gridLineType == Right)
+        if (gridLineType == Bottom || gridLineType == Top)
         {
-            auto const last_col = (UInt)m_grid.NumM() - 1;
-            m_grid.GetNode(i, last_col) = m_grid.GetNode(i, last_col - 1) * a +
-                                          m_grid.GetNode(i, last_col - 2) * b;
+            m_grid.GetNode(mirroredLine, i) = m_grid.GetNode(boundaryLine, i) * a + m_grid.GetNode(innerLine, i) * b;
         }
-        if (gridLineType == Left)
+        else
         {
-            m_grid.GetNode(i, 0) = m_grid.GetNode(i, 1) * a +
-                                   m_grid.GetNode(i, 2) * b;
+            m_grid.GetNode(i, mirroredLine) = m_grid.GetNode(i, boundaryLine) * a + m_grid.GetNode(i, innerLine) * b;
         }
     }
 
-- 
2.43.0


From b42c42a6f702af4e0b89180b589f2766d2d53669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:47 +0000
Subject: [PATCH 057/101] fix: orthogonalizing a block of a curvilinear grid
 does not use coefficients outside the block

---
 .../CurvilinearGridOrthogonalization.cpp       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 0bd5669..8e6df47 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -132,7 +132,12 @@ void CurvilinearGridOrthogonalization::ProjectHorizontalBoundaryGridNodes()
                 for (auto nn = startN + 1; nn < n; ++nn)
                 {
 
-                    if (m < m_lowerLeft.m_m || m > m_upperRight.m_m || nn < m_lowerLeft.m_n || nn > m_upperRight.m_n)
+                    // The coefficients are available inside the block only
+                    if (m < m_lowerLeft.m_m || m > m_upperRight.m_m || nn <= m_lowerLeft.m_n || nn >= m_upperRight.m_n)
+                    {
+                        continue;
+                    }
+                    if ((nextVertical == 1 && m == m_upperRight.m_m) || (nextVertical == -1 && m == m_lowerLeft.m_m))
                     {
                         continue;
                     }
@@ -213,7 +218,12 @@ void CurvilinearGridOrthogonalization::ProjectVerticalBoundariesGridNodes()
                 for (auto mm = startM + 1; mm < m; ++mm)
                 {
 
-                    if (mm < m_lowerLeft.m_m || mm > m_upperRight.m_m || n < m_lowerLeft.m_n || n > m_upperRight.m_n)
+                    // The coefficients are available inside the block only
+                    if (mm <= m_lowerLeft.m_m || mm >= m_upperRight.m_m || n < m_lowerLeft.m_n || n > m_upperRight.m_n)
+                    {
+                        continue;
+                    }
+                    if ((nextHorizontal == 1 && n == m_upperRight.m_n) || (nextHorizontal == -1 && n == m_lowerLeft.m_n))
                     {
                         continue;
                     }
@@ -268,8 +278,8 @@ void CurvilinearGridOrthogonalization::Solve()
     const double factor = 0.9 * 0.9;
 
     // Only the internal nodes of the orthogonalization box
-    const auto minMInternal = std::max(static_cast<UInt>(1), m_lowerLeft.m_m);
-    const auto minNInternal = std::max(static_cast<UInt>(1), m_lowerLeft.m_n);
+    const auto minMInternal = m_lowerLeft.m_m + 1;
+    const auto minNInternal = m_lowerLeft.m_n + 1;
 
     const auto maxMInternal = std::min(m_upperRight.m_m, m_grid.NumM() - 1);
     const auto maxNInternal = std::min(m_upperRight.m_n, m_grid.NumN() - 1);
-- 
2.43.0


From 89a93dac40155c7b0613d72815433fd96d3f3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:33 +0000
Subject: [PATCH 058/101] fix: triangulation interpolation finds the triangle
 when the search line passes through a sample

---
 libs/MeshKernel/src/TriangulationInterpolation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/MeshKernel/src/TriangulationInterpolation.cpp b/libs/MeshKernel/src/TriangulationInterpolation.cpp
index fb4abc3..2dd3d34 100644
--- a/libs/MeshKernel/src/TriangulationInterpolation.cpp
+++ b/libs/MeshKernel/src/TriangulationInterpolation.cpp
@@ -159,6 +159,13 @@ void TriangulationInterpolation::Compute()
             }
         }
 
+        // the search along a line can end prematurely, when the line passes through a sample: search all triangles
+        for (UInt t = 0; t < triangles.size() && !isInTriangle; ++t)
+        {
+            isInTriangle = IsPointInPolygonNodes(m_locations[n], triangles[t], m_projection, trianglesCircumcenters[t]);
+            triangle = t;
+        }
+
         if (isInTriangle && triangle != constants::missing::uintValue && static_cast<int>(triangle) < triangulationWrapper.GetNumFaces())
         {
             // Perform linear interpolation
-- 
2.43.0


From 6c60c555ee176e8dba5a7d051b19d7881a5ae029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:33 +0000
Subject: [PATCH 059/101] fix: averaging interpolation skips deleted nodes
 instead of failing

---
 libs/MeshKernel/src/AveragingInterpolation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/MeshKernel/src/AveragingInterpolation.cpp b/libs/MeshKernel/src/AveragingInterpolation.cpp
index 1eb7f38..461aec6 100644
--- a/libs/MeshKernel/src/AveragingInterpolation.cpp
+++ b/libs/MeshKernel/src/AveragingInterpolation.cpp
@@ -78,6 +78,13 @@ void AveragingInterpolation::Compute()
         for (UInt n = 0; n < m_mesh.GetNumNodes(); ++n)
         {
             m_mesh.MakeDualFace(n, m_relativeSearchRadius, dualFacePolygon);
+
+            // deleted or isolated nodes keep the missing value
+            if (dualFacePolygon.empty())
+            {
+                continue;
+            }
+
             const auto result = ComputeOnPolygon(dualFacePolygon, m_mesh.Node(n));
             m_nodeResults[n] = result;
         }
-- 
2.43.0


From c66018432004526a85ffc9c883f8049cfa618469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:33 +0000
Subject: [PATCH 060/101] fix: inverse distance weighting compares the minimum
 number of samples with the number of samples

---
 .../AveragingStrategies/InverseWeightedAveragingStrategy.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp b/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
index 6582106..1e3f5c3 100644
--- a/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
+++ b/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
@@ -47,7 +47,7 @@ namespace meshkernel::averaging
             result += weight * samples[i].value;
         }
 
-        return wall >= static_cast<double>(m_minNumSamples) ? result / wall : constants::missing::doubleValue;
+        return wall > 0.0 && samples.size() >= m_minNumSamples ? result / wall : constants::missing::doubleValue;
     }
 
 } // namespace meshkernel::averaging
-- 
2.43.0


From ab1d9a6d203984677705e4ab0c8aff2377b4475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:06 +0000
Subject: [PATCH 061/101] fix: single contacts sharing a node or a face are not
 taken for crossing contacts

---
 libs/MeshKernel/src/Contacts.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index e3859ff..3cc5bb5 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -98,6 +98,11 @@ bool Contacts::IsContactIntersectingMesh1d(UInt node,
 {
     for (UInt e = 0; e < m_mesh1d.GetNumEdges(); ++e)
     {
+        // an edge starting at the node only touches the contact
+        if (m_mesh1d.GetEdge(e).first == node || m_mesh1d.GetEdge(e).second == node)
+        {
+            continue;
+        }
 
         const auto [areSegmentCrossing,
                     intersectionPoint,
@@ -124,6 +129,12 @@ bool Contacts::IsContactIntersectingContact(UInt node, UInt face) const
 {
     for (UInt i = 0; i < m_mesh1dIndices.size(); ++i)
     {
+        // contacts sharing a node or a face only touch each other
+        if (m_mesh1dIndices[i] == node || m_mesh2dIndices[i] == face)
+        {
+            continue;
+        }
+
         const auto [areSegmentCrossing,
                     intersectionPoint,
                     crossProduct,
-- 
2.43.0


From a7bebe1cb2796380452fdaed6ad347733ca4ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:06 +0000
Subject: [PATCH 062/101] fix: contacts with polygons find the closest 1d node
 that is not masked out

---
 libs/MeshKernel/src/Contacts.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 3cc5bb5..da5b279 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -9,6 +9,25 @@
 
 using meshkernel::Contacts;
 
+namespace
+{
+    /// @brief Build a tree of the 1d nodes that are not masked out
+    std::unique_ptr<meshkernel::RTreeBase> BuildMaskedNodesTree(const meshkernel::Mesh1D& mesh1d, const std::vector<bool>& oneDNodeMask)
+    {
+        std::vector<meshkernel::Point> nodes(mesh1d.Nodes());
+        for (meshkernel::UInt n = 0; n < nodes.size(); ++n)
+        {
+            if (!oneDNodeMask[n])
+            {
+                nodes[n].SetInvalid();
+            }
+        }
+        auto tree = meshkernel::RTreeFactory::Create(mesh1d.m_projection);
+        tree->BuildTree(nodes);
+        return tree;
+    }
+} // namespace
+
 Contacts::Contacts(Mesh1D& mesh1d, Mesh2D& mesh2d)
     : m_mesh1d(mesh1d),
       m_mesh2d(mesh2d)
@@ -299,7 +318,7 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     std::vector<double> minimalDistance(polygons.GetNumPolygons(), constants::missing::doubleValue);
     std::vector<UInt> closest1dNodeIndices(polygons.GetNumPolygons(), constants::missing::uintValue);
     std::vector<UInt> closest2dNodeIndices(polygons.GetNumPolygons(), constants::missing::uintValue);
-    m_mesh1d.BuildTree(Location::Nodes);
+    const auto rtree = BuildMaskedNodesTree(m_mesh1d, oneDNodeMask);
 
     for (UInt faceIndex = 0; faceIndex < m_mesh2d.GetNumFaces(); ++faceIndex)
     {
@@ -310,8 +329,15 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
         }
         const auto polygonIndex = facePolygonIndex[faceIndex];
         const auto faceMassCenter = m_mesh2d.m_facesMassCenters[faceIndex];
-        const auto close1DNodeIndex = m_mesh1d.FindLocationIndex(faceMassCenter, Location::Nodes, oneDNodeMask);
+        rtree->SearchNearestPoint(faceMassCenter);
+
+        // if nothing found continue
+        if (rtree->GetQueryResultSize() == 0)
+        {
+            continue;
+        }
 
+        const auto close1DNodeIndex = rtree->GetQueryResult(0);
         const auto close1DNode = m_mesh1d.Node(close1DNodeIndex);
         const auto squaredDistance = ComputeSquaredDistance(faceMassCenter, close1DNode, m_mesh2d.m_projection);
         // if it is the first found node of this polygon or
-- 
2.43.0


From cb638c4e7d1f8ec50fadc33327323b74936aef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:06 +0000
Subject: [PATCH 063/101] fix: contacts with polygons skip polygons without
 faces

---
 libs/MeshKernel/src/Contacts.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index da5b279..f36f469 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -354,6 +354,12 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     // connect 1D nodes to closest 2d node in a polygon
     for (UInt polygonIndex = 0; polygonIndex < polygons.GetNumPolygons(); ++polygonIndex)
     {
+        // no face or no 1d node for this polygon
+        if (closest1dNodeIndices[polygonIndex] == constants::missing::uintValue)
+        {
+            continue;
+        }
+
         m_mesh1dIndices.emplace_back(closest1dNodeIndices[polygonIndex]);
         m_mesh2dIndices.emplace_back(closest2dNodeIndices[polygonIndex]);
     }
-- 
2.43.0


From 75e1952170edec834def9770e620be6439e2254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:06 +0000
Subject: [PATCH 064/101] fix: contacts with points take the 1d node mask into
 account

---
 libs/MeshKernel/src/Contacts.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index f36f469..74ae9f6 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -386,8 +386,7 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
 
     Validate();
 
-    m_mesh1d.BuildTree(Location::Nodes);
-    auto& rtree = m_mesh1d.GetRTree(Location::Nodes);
+    const auto rtree = BuildMaskedNodesTree(m_mesh1d, oneDNodeMask);
 
     // find the face indices containing the 1d points
     const auto pointsFaceIndices = m_mesh2d.PointFaceIndices(points);
@@ -402,16 +401,16 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
         }
 
         // get the closest 1d node
-        rtree.SearchNearestPoint(points[i]);
+        rtree->SearchNearestPoint(points[i]);
 
         // if nothing found continue
-        if (rtree.GetQueryResultSize() == 0)
+        if (rtree->GetQueryResultSize() == 0)
         {
             continue;
         }
 
         // form the 1d-2d contact
-        m_mesh1dIndices.emplace_back(rtree.GetQueryResult(0));
+        m_mesh1dIndices.emplace_back(rtree->GetQueryResult(0));
         m_mesh2dIndices.emplace_back(pointsFaceIndices[i]);
     }
 
-- 
2.43.0


From d1badade466b267d41615864a54e2aae27f86bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:53 +0000
Subject: [PATCH 065/101] fix: discretizing a polyline skips all the segments
 before a chainage

---
 libs/MeshKernel/src/Operations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index df7ddba..6a11d97 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -1625,7 +1625,7 @@ namespace meshkernel
         std::sort(chainages.begin(), chainages.end());
         for (auto const& chainage : chainages)
         {
-            if (chainage > polylineNodalCoordinate[curentNodalIndex + 1])
+            while (curentNodalIndex + 2 < polylineNodalCoordinate.size() && chainage > polylineNodalCoordinate[curentNodalIndex + 1])
             {
                 curentNodalIndex++;
             }
-- 
2.43.0


From e93fb704bfda1ef1626d7e8751cf1f6a7aa27952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:53 +0000
Subject: [PATCH 066/101] fix: a 1d mesh of a network has the edges of every
 polyline

---
 libs/MeshKernel/src/Mesh1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh1D.cpp b/libs/MeshKernel/src/Mesh1D.cpp
index 4630073..3b658a6 100644
--- a/libs/MeshKernel/src/Mesh1D.cpp
+++ b/libs/MeshKernel/src/Mesh1D.cpp
@@ -62,7 +62,7 @@ Mesh1D::Mesh1D(Network1D& network1d, double minFaceSize)
             edges.emplace_back(i, i + 1);
         }
         // Poly lines are separated. If the end of one polyline coincides with the start of another, the two nodes will be merged later on.
-        numNodes = numNodes + static_cast<UInt>(nodes.size());
+        numNodes = static_cast<UInt>(nodes.size());
     }
 
     // Sets the edges, nodes and projections
-- 
2.43.0


From 8d54acc47f0659dbb5ef98908de900305bce6121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:53 +0000
Subject: [PATCH 067/101] fix: fixed chainages keep the start and the end of
 the polylines

---
 libs/MeshKernel/src/Network1D.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index 8f400bc..ec4ba9e 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -69,13 +69,22 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
             continue;
         }
 
-        double const startChainage = m_chainages[p][0];
-        double const endChainage = m_chainages[p][1];
+        // The chainages may be sorted
+        auto const [minChainage, maxChainage] = std::minmax_element(m_chainages[p].begin(), m_chainages[p].end());
+        double const startChainage = *minChainage;
+        double const endChainage = *maxChainage;
 
         double previousChainage = startChainage;
-        bool previousChainageIsAFixedPoint = IsEqual(previousChainage, fixedChainagesByPolyline[p].front()) ? true : false;
+        // The start and end chainages must be kept, only a chainage added below can be centered
+        bool previousChainageIsAFixedPoint = false;
         for (auto const& fixedChainage : fixedChainagesByPolyline[p])
         {
+            // too far from the polyline
+            if (fixedChainage + fixedChainagesOffset <= startChainage || fixedChainage - fixedChainagesOffset >= endChainage)
+            {
+                continue;
+            }
+
             if (const auto chainageBeforeFixedPoint = fixedChainage - fixedChainagesOffset; chainageBeforeFixedPoint - previousChainage >= minFaceSize && chainageBeforeFixedPoint > startChainage)
             {
                 m_chainages[p].emplace_back(chainageBeforeFixedPoint);
-- 
2.43.0


From 66e7f7018edd1b20a34cb8516729c17e692cbd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:27 +0000
Subject: [PATCH 068/101] fix: searching works after the projection of a mesh
 has been converted

---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp |  1 +
 libs/MeshKernel/src/Mesh.cpp                | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index 9b8a507..f2a19bc 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -512,6 +512,7 @@ namespace meshkernel
         bool m_edgesRTreeRequiresUpdate = true;                            ///< m_edgesRTree requires an update
         bool m_facesRTreeRequiresUpdate = true;                            ///< m_facesRTree requires an update
         std::unordered_map<Location, std::unique_ptr<RTreeBase>> m_RTrees; ///< The RTrees to use
+        Projection m_RTreesProjection = Projection::cartesian;             ///< The projection the RTrees were created for
         std::unordered_map<Location, BoundingBox> m_boundingBoxCache;      ///< Caches, for each tree, the last bounding box used for selecting the locations
 
         /// @brief Set nodes and edges that are not connected to be invalid.
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 2c666c3..07578c8 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -50,6 +50,7 @@ Mesh::Mesh(Projection projection) : m_projection(projection)
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+    m_RTreesProjection = m_projection;
 }
 
 Mesh::Mesh(const std::vector<Edge>& edges,
@@ -62,6 +63,7 @@ Mesh::Mesh(const std::vector<Edge>& edges,
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+    m_RTreesProjection = m_projection;
     DeleteInvalidNodesAndEdges();
 }
 
@@ -1183,6 +1185,19 @@ bool Mesh::IsValidEdge(const UInt edgeId) const
 
 void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    // the trees depend on the projection, which may have been converted
+    if (m_RTreesProjection != m_projection)
+    {
+        for (auto& [treeLocation, tree] : m_RTrees)
+        {
+            tree = RTreeFactory::Create(m_projection);
+        }
+        m_RTreesProjection = m_projection;
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+    }
+
     switch (location)
     {
     case Location::Faces:
-- 
2.43.0


From 4de89dafdbbfcab69f129976112a78338c0f193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:27 +0000
Subject: [PATCH 069/101] fix: converting to the spherical accurate projection
 reports that it is not implemented

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 78b40a0..deb270b 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1093,7 +1093,7 @@ namespace meshkernelapi
 
             if (sourceProjection != targetProjection)
             {
-                if (sourceProjection == meshkernel::Projection::cartesian)
+                if (sourceProjection == meshkernel::Projection::cartesian && targetProjection == meshkernel::Projection::spherical)
                 {
                     meshkernel::ConvertCartesianToSpherical conversion(zoneString);
                     auto undoAction = meshkernel::CompoundUndoAction::Create();
@@ -1102,7 +1102,7 @@ namespace meshkernelapi
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
                     meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                 }
-                else if (sourceProjection == meshkernel::Projection::spherical)
+                else if (sourceProjection == meshkernel::Projection::spherical && targetProjection == meshkernel::Projection::cartesian)
                 {
                     meshkernel::ConvertSphericalToCartesian conversion(zoneString);
                     auto undoAction = meshkernel::CompoundUndoAction::Create();
-- 
2.43.0


From 3f4c8e668780305d9bca49a06c16187582ef363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:37 +0000
Subject: [PATCH 070/101] fix: offsetting several polygons or polygons with
 holes keeps them apart

---
 libs/MeshKernel/src/Polygons.cpp | 52 ++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/libs/MeshKernel/src/Polygons.cpp b/libs/MeshKernel/src/Polygons.cpp
index 0ecf69c..4b44950 100644
--- a/libs/MeshKernel/src/Polygons.cpp
+++ b/libs/MeshKernel/src/Polygons.cpp
@@ -190,37 +190,45 @@ std::vector<meshkernel::Point> Polygons::LinearRefinePolygon(UInt polygonIndex,
 
 meshkernel::Polygons Polygons::OffsetCopy(double distance, bool innerAndOuter) const
 {
-    UInt totalNumberOfPoints = GetNumNodes();
-    // TODO Should the invalid points between enclosures be added too.
-    // TODO use the correct separators between enclosures and inner polygons.
-    std::vector<Point> newPolygonPoints(totalNumberOfPoints + (innerAndOuter ? totalNumberOfPoints + 1 : 0), Point());
+    const Point outerSeparator{constants::missing::doubleValue, constants::missing::doubleValue};
+    const Point innerSeparator{constants::missing::innerOuterSeparator, constants::missing::innerOuterSeparator};
 
-    UInt innerCount = 0;
-    UInt outerCount = totalNumberOfPoints;
+    std::vector<Point> newPolygonPoints;
 
-    for (const PolygonalEnclosure& enclosure : m_enclosures)
+    const auto appendEnclosure = [&](const PolygonalEnclosure& enclosure)
     {
-        std::vector<Point> outerOffsetPoints(enclosure.Outer().ComputeOffset(distance, innerAndOuter));
-
-        for (size_t i = 0; i < outerOffsetPoints.size(); ++i)
+        if (!newPolygonPoints.empty())
         {
-            newPolygonPoints[innerCount] = outerOffsetPoints[i];
-            ++innerCount;
+            newPolygonPoints.push_back(outerSeparator);
         }
 
-        for (size_t i = 0; i < enclosure.NumberOfInner(); ++i)
+        const auto& outerNodes = enclosure.Outer().Nodes();
+        newPolygonPoints.insert(newPolygonPoints.end(), outerNodes.begin(), outerNodes.end());
+
+        for (UInt i = 0; i < enclosure.NumberOfInner(); ++i)
         {
-            std::vector<Point> innerOffsetPoints(enclosure.Inner(i).ComputeOffset(distance, innerAndOuter));
-            // Probably add inner separator here (if not the last)
-
-            for (size_t j = 0; j < outerOffsetPoints.size(); ++j)
-            {
-                newPolygonPoints[outerCount] = outerOffsetPoints[j];
-                ++outerCount;
-            }
+            newPolygonPoints.push_back(innerSeparator);
+            const auto& innerNodes = enclosure.Inner(i).Nodes();
+            newPolygonPoints.insert(newPolygonPoints.end(), innerNodes.begin(), innerNodes.end());
         }
+    };
+
+    // first the outward offsets of all the enclosures, then the inward offsets
+    std::vector<std::unique_ptr<PolygonalEnclosure>> inwardEnclosures;
 
-        // Probably add outer separator here (if not the last)
+    for (const PolygonalEnclosure& enclosure : m_enclosures)
+    {
+        auto [outward, inward] = enclosure.OffsetCopy(distance, innerAndOuter);
+        appendEnclosure(*outward);
+        inwardEnclosures.push_back(std::move(inward));
+    }
+
+    if (innerAndOuter)
+    {
+        for (const auto& inward : inwardEnclosures)
+        {
+            appendEnclosure(*inward);
+        }
     }
 
     // set the new polygon
-- 
2.43.0


From 9af5df5026ba864a6e0f33a2458b124069527fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:37 +0000
Subject: [PATCH 071/101] fix: snapping a part of a polygon to a land boundary
 keeps the polygon closed

---
 libs/MeshKernel/src/Polygon.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index cd96736..2b9a8f3 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -237,6 +237,16 @@ void meshkernel::Polygon::SnapToLandBoundary(const size_t startIndex, const size
         if (m_nodes[currentIndex].IsValid())
         {
             m_nodes[currentIndex] = landBoundary.FindNearestPoint(m_nodes[currentIndex], m_projection);
+
+            // the first and the last node coincide, the polygon must remain closed
+            if (currentIndex == 0)
+            {
+                m_nodes.back() = m_nodes.front();
+            }
+            else if (currentIndex == numNodes - 1)
+            {
+                m_nodes.front() = m_nodes.back();
+            }
         }
 
         // Break the loop if we have reached the lastIndex
-- 
2.43.0


From dcbcf7796d8580fa8fd0b84d3f3fecb1cf3576ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:37 +0000
Subject: [PATCH 072/101] fix: snapping one of several polygons to a land
 boundary returns all the polygons

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index deb270b..15000e7 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3350,14 +3350,14 @@ namespace meshkernelapi
             meshkernel::Polygons polygons(polygonPoints, meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
             polygons.SnapToLandBoundary(landBoundary, startIndex, endIndex);
-            const auto [enclosureIndex, polygonStartNode, polygonEndNode] = polygons.PolygonIndex(startIndex, endIndex);
 
             //--------------------------------
             // Now copy back the polygon values
 
-            const std::vector<meshkernel::Point>& snappedPolygonPoints = polygons.Enclosure(enclosureIndex).Outer().Nodes();
+            const std::vector<meshkernel::Point> snappedPolygonPoints = polygons.GatherAllEnclosureNodes();
+            const int numSnappedPoints = std::min(polygon.num_coordinates, static_cast<int>(snappedPolygonPoints.size()));
 
-            for (int i = 0; i < polygon.num_coordinates; ++i)
+            for (int i = 0; i < numSnappedPoints; ++i)
             {
                 polygon.coordinates_x[i] = snappedPolygonPoints[i].x;
                 polygon.coordinates_y[i] = snappedPolygonPoints[i].y;
-- 
2.43.0


From b088c4956432d9d2adedb377e1baf06e11b61246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:05 +0000
Subject: [PATCH 073/101] fix: linear refinement of a polygon between its last
 and first node changes nothing

---
 libs/MeshKernel/src/Polygon.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index 2b9a8f3..591fbec 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -491,6 +491,12 @@ std::vector<meshkernel::Point> meshkernel::Polygon::LinearRefine(const UInt star
         numPolygonNodes = static_cast<UInt>(m_nodes.size()) - static_cast<UInt>(startIndex) + static_cast<UInt>(endIndex);
     }
 
+    // The last and the first node are the same, there is nothing between them
+    if (numPolygonNodes < 2)
+    {
+        return m_nodes;
+    }
+
     std::vector<Point> polygonNodes(numPolygonNodes);
     std::vector<double> averageLengths(numPolygonNodes, 0.0);
     std::vector<double> actualAverageLengths(numPolygonNodes, 0.0);
-- 
2.43.0


From 5c3036fecb0ceddf53b8494fad814d5b0ddbb193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:56 +0000
Subject: [PATCH 074/101] fix: removing disconnected regions of an edited mesh
 administrates first

---
 libs/MeshKernel/src/RemoveDisconnectedRegions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/RemoveDisconnectedRegions.cpp b/libs/MeshKernel/src/RemoveDisconnectedRegions.cpp
index bce50a1..2aea955 100644
--- a/libs/MeshKernel/src/RemoveDisconnectedRegions.cpp
+++ b/libs/MeshKernel/src/RemoveDisconnectedRegions.cpp
@@ -148,6 +148,9 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::RemoveDisconnectedRegions::C
 
     std::unique_ptr<meshkernel::CompoundUndoAction> removalAction = CompoundUndoAction::Create();
 
+    // The mesh may have been changed since its last administration
+    mesh.Administrate(removalAction.get());
+
     // Generate region identifier for all elements in the mesh and a mapping between the region id the the number of elements.
     LabelAllDomainRegions(mesh, elementRegionId, regionCount);
 
-- 
2.43.0


From a0af32b3fd9a595f6f48df87d9dfc784d7191d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:34 +0000
Subject: [PATCH 075/101] fix: flipping an edge does not create triangles
 without area

---
 libs/MeshKernel/src/FlipEdges.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/FlipEdges.cpp b/libs/MeshKernel/src/FlipEdges.cpp
index 7657b38..34af2ea 100644
--- a/libs/MeshKernel/src/FlipEdges.cpp
+++ b/libs/MeshKernel/src/FlipEdges.cpp
@@ -126,7 +126,9 @@ std::unique_ptr<meshkernel::UndoAction> FlipEdges::Compute() const
                                                            false,
                                                            m_mesh.m_projection);
 
-            if (!areEdgesCrossing)
+            // The diagonals should cross inside the edge, otherwise one of the new triangles has no area
+            constexpr double tolerance = 1.0e-6;
+            if (!areEdgesCrossing || firstRatio < tolerance || firstRatio > 1.0 - tolerance)
             {
                 continue;
             }
-- 
2.43.0


From 25ee00d76aa9c2daed25c0fb341cfe1889ee9626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 076/101] fix: orthogonality and smoothness of an edited mesh
 are those of the current mesh

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 15000e7..7216bb6 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1477,6 +1477,7 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto result = meshKernelState[meshKernelId].m_mesh2d->GetOrthogonality();
 
             if (static_cast<size_t>(geometryList.num_coordinates) != result.size())
@@ -1607,8 +1608,14 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto result = meshKernelState[meshKernelId].m_mesh2d->GetSmoothness();
 
+            if (static_cast<size_t>(geometryList.num_coordinates) != result.size())
+            {
+                throw meshkernel::MeshKernelError("The value array has not the same size of the result array storing the smoothness values at the edges");
+            }
+
             for (auto i = 0; i < geometryList.num_coordinates; ++i)
             {
                 geometryList.values[i] = result[i];
-- 
2.43.0


From 84b8191276351937ccce24f7fcf06aba520331cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:49 +0000
Subject: [PATCH 077/101] fix: bounding box of a curvilinear grid contains its
 missing nodes

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 53 +++++--------------
 1 file changed, 14 insertions(+), 39 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index b94d8f2..edf4683 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1113,50 +1113,25 @@ meshkernel::BoundingBox CurvilinearGrid::GetBoundingBox() const
 
     Point lowerLeft(std::numeric_limits<double>::max(), std::numeric_limits<double>::max());
     Point upperRight(-std::numeric_limits<double>::max(), -std::numeric_limits<double>::max());
-    UInt last = static_cast<UInt>(NumM() - 1);
 
-    // Only need to loop over boundary nodes
-
-    // First loop over lower boundary (i,0)
-    for (UInt i = 0; i < NumM(); ++i)
-    {
-        lowerLeft.x = std::min(lowerLeft.x, GetNode(0, i).x);
-        lowerLeft.y = std::min(lowerLeft.y, GetNode(0, i).y);
-        upperRight.x = std::max(upperRight.x, GetNode(0, i).x);
-        upperRight.y = std::max(upperRight.y, GetNode(0, i).y);
-    }
-
-    // First loop over right boundary (last,i)
-    for (UInt i = 0; i < NumN(); ++i)
-    {
-        lowerLeft.x = std::min(lowerLeft.x, GetNode(i, last).x);
-        lowerLeft.y = std::min(lowerLeft.y, GetNode(i, last).y);
-        upperRight.x = std::max(upperRight.x, GetNode(i, last).x);
-        upperRight.y = std::max(upperRight.y, GetNode(i, last).y);
-    }
-
-    // This assumes that each column has the same number of points
-    last = NumN() - 1;
-
-    // First loop over upper boundary (i,last)
-    for (UInt i = 0; i < NumM(); ++i)
+    // Nodes can be invalid anywhere, so that the outermost valid nodes are not necessarily in the first or last row or column
+    for (UInt n = 0; n < NumN(); ++n)
     {
-        lowerLeft.x = std::min(lowerLeft.x, GetNode(last, i).x);
-        lowerLeft.y = std::min(lowerLeft.y, GetNode(last, i).y);
-        upperRight.x = std::max(upperRight.x, GetNode(last, i).x);
-        upperRight.y = std::max(upperRight.y, GetNode(last, i).y);
-    }
+        for (UInt m = 0; m < NumM(); ++m)
+        {
+            const Point& node = GetNode(n, m);
 
-    // First loop over left boundary (0,i)
-    for (UInt i = 0; i < NumN(); ++i)
-    {
-        lowerLeft.x = std::min(lowerLeft.x, GetNode(i, 0).x);
-        lowerLeft.y = std::min(lowerLeft.y, GetNode(i, 0).y);
-        upperRight.x = std::max(upperRight.x, GetNode(i, 0).x);
-        upperRight.y = std::max(upperRight.y, GetNode(i, 0).y);
+            if (node.IsValid())
+            {
+                lowerLeft.x = std::min(lowerLeft.x, node.x);
+                lowerLeft.y = std::min(lowerLeft.y, node.y);
+                upperRight.x = std::max(upperRight.x, node.x);
+                upperRight.y = std::max(upperRight.y, node.y);
+            }
+        }
     }
 
-    return {lowerLeft, upperRight};
+    return BoundingBox(lowerLeft, upperRight);
 }
 
 void CurvilinearGrid::RestoreAction(const AddGridLineUndoAction& undoAction)
-- 
2.43.0


From cbb3121d8436495e1d7eae843f5c0da90efafea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:49 +0000
Subject: [PATCH 078/101] fix: transfinite grid from splines depends on the
 direction of the splines

---
 .../CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp
index 3185b08..e3108dd 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp
@@ -361,7 +361,7 @@ void CurvilinearGridFromSplinesTransfinite::ComputeInteractions()
                     if (crossProductIntersection * m_splineType[i] < 0.0)
                     {
                         // switch j
-                        std::ranges::reverse(m_splines->m_splineNodes[j]);
+                        m_splines->Reverse(j);
                         secondSplineRatio = static_cast<double>(numNodesJSpline) - 1.0 - secondSplineRatio;
                     }
                 }
@@ -371,7 +371,7 @@ void CurvilinearGridFromSplinesTransfinite::ComputeInteractions()
                     if (crossProductIntersection * m_splineType[j] > 0.0)
                     {
                         // switch i
-                        std::ranges::reverse(m_splines->m_splineNodes[i]);
+                        m_splines->Reverse(i);
                         firstSplineRatio = static_cast<double>(numNodesISpline) - 1.0 - firstSplineRatio;
                     }
                 }
-- 
2.43.0


From 31b8e080bf39bb3a3b1c31a6fb02b94d43e0bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:49 +0000
Subject: [PATCH 079/101] fix: snapping a range of spline points reads beyond
 the points and mixes them up

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 7216bb6..c110f32 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3274,7 +3274,7 @@ namespace meshkernelapi
             meshkernel::LandBoundary landBoundary(landBoundaryPoints);
             meshkernel::Splines splineValues(meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            splineValues.AddSpline(splinePoints, startSplineIndex, static_cast<meshkernel::UInt>(splinePoints.size()));
+            splineValues.AddSpline(splinePoints, startSplineIndex, static_cast<meshkernel::UInt>(endSplineIndex - startSplineIndex + 1));
 
             //--------------------------------
             // Snap specified splines to the land boundary
@@ -3288,7 +3288,7 @@ namespace meshkernelapi
             // Now copy back to spline (geometry-list)
             for (int i = startSplineIndex; i <= endSplineIndex; ++i)
             {
-                const meshkernel::Point& splinePoint = splineValues.m_splineNodes[0][i];
+                const meshkernel::Point& splinePoint = splineValues.m_splineNodes[0][i - startSplineIndex];
                 splines.coordinates_x[splinePointIndex] = splinePoint.x;
                 splines.coordinates_y[splinePointIndex] = splinePoint.y;
                 ++splinePointIndex;
-- 
2.43.0


From b9b87d74973f714522226222a397a9b2222fbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:49 +0000
Subject: [PATCH 080/101] fix: fourth corner of a polygon traversed backwards
 is out of range

---
 .../CurvilinearGridFromPolygon.cpp                | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 4262773..795e348 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -127,18 +127,9 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
     }
 
     // get the fourth node
-    auto fourthNode = thirdNode + direction * (numMNodes - 1);
-
-    // This can never be true now
-    if (fourthNode < start)
-    {
-        fourthNode += numPolygonNodes;
-    }
-
-    if (fourthNode >= numPolygonNodes)
-    {
-        fourthNode -= numPolygonNodes;
-    }
+    const UInt numSideIntervals = numMNodes - 1;
+    const UInt fourthNode = direction == 1 ? (thirdNode + numSideIntervals) % numPolygonNodes
+                                           : (thirdNode + numPolygonNodes - numSideIntervals) % numPolygonNodes;
 
     UInt numRequiredPoints;
     if (useFourthSide)
-- 
2.43.0


From 86040b665a2ccd570d405f406d2cee52f439373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:49 +0000
Subject: [PATCH 081/101] fix: centre of a triangle with unequal sides lies
 outside of it

---
 .../src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 795e348..c24a4c0 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -300,8 +300,8 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
 
     // compute triangle middle point
     const auto xia = static_cast<double>(n1) / static_cast<double>(numPointsFirstSide);
-    const auto xib = static_cast<double>(n2) / static_cast<double>(numPointsSecondSide);
-    const auto xic = static_cast<double>(n3) / static_cast<double>(numPointsThirdSide);
+    const auto xib = static_cast<double>(n3) / static_cast<double>(numPointsSecondSide);
+    const auto xic = static_cast<double>(n2) / static_cast<double>(numPointsThirdSide);
 
     auto const& polygonNodes = m_polygon.Nodes();
 
-- 
2.43.0


From d99dbbccdebabb9c5ed379e343ad262d61a495d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:37 +0000
Subject: [PATCH 082/101] fix: stale search trees after removing the invalid
 nodes and edges

---
 libs/MeshKernel/src/Mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 07578c8..e34a431 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -242,6 +242,9 @@ void Mesh::DeleteInvalidNodesAndEdges()
         secondNode = constants::missing::uintValue;
     }
 
+    // The indices of the nodes and edges change
+    SetAllRTreesRequireUpdate();
+
     // Remove invalid nodes, without reducing capacity
     const auto endNodeVector = std::remove_if(m_nodes.begin(), m_nodes.end(), [](const Point& n)
                                               { return !n.IsValid(); });
-- 
2.43.0


From 00380e167f48b5c7e6d3f5f357edb3ef005c8a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:27 +0000
Subject: [PATCH 083/101] fix: gridded samples gave a value to places just left
 of and below the samples

---
 .../BilinearInterpolationOnGriddedSamples.hpp          | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
index b7f4c7d..c9446b9 100644
--- a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
+++ b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
@@ -185,17 +185,17 @@ namespace meshkernel
         double fractionalColumnIndex = GetFractionalNumberOfColumns(point);
         double fractionalRowIndex = GetFractionalNumberOfRows(point);
 
+        if (fractionalColumnIndex < 0.0 || fractionalRowIndex < 0.0)
+        {
+            return constants::missing::doubleValue;
+        }
+
         double columnIndexTmp;
         fractionalColumnIndex = std::modf(fractionalColumnIndex, &columnIndexTmp);
 
         double rowIndexTmp;
         fractionalRowIndex = std::modf(fractionalRowIndex, &rowIndexTmp);
 
-        if (columnIndexTmp < 0 || rowIndexTmp < 0)
-        {
-            return constants::missing::doubleValue;
-        }
-
         UInt const columnIndex = static_cast<UInt>(columnIndexTmp);
         UInt const rowIndex = static_cast<UInt>(rowIndexTmp);
 
-- 
2.43.0


From 5c978d6ea3928acbfe6ba0f568ca5d9ca06b7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:27 +0000
Subject: [PATCH 084/101] fix: ridge refinement read the coordinates of gridded
 samples out of bounds

---
 libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp b/libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp
index e42acc1..eaf3e68 100644
--- a/libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp
+++ b/libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp
@@ -254,8 +254,8 @@ namespace meshkernelapi
             for (int i = griddedSamples.num_y - 1; i >= 0; --i)
             {
                 const auto griddedIndex = griddedSamples.num_x * i + j;
-                result[index].x = origin.x + griddedSamples.x_coordinates[griddedIndex];
-                result[index].y = origin.y + griddedSamples.y_coordinates[griddedIndex];
+                result[index].x = griddedSamples.x_coordinates[j];
+                result[index].y = griddedSamples.y_coordinates[i];
                 result[index].value = static_cast<double>(valuePtr[griddedIndex]);
                 index++;
             }
-- 
2.43.0


From c115d1bfb3fe8acca1c5da833de6419dbf90d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:27 +0000
Subject: [PATCH 085/101] fix: ridge refinement mixed smoothed and unsmoothed
 samples

---
 libs/MeshKernel/src/SamplesHessianCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernel/src/SamplesHessianCalculator.cpp b/libs/MeshKernel/src/SamplesHessianCalculator.cpp
index b3cde55..c6c9de8 100644
--- a/libs/MeshKernel/src/SamplesHessianCalculator.cpp
+++ b/libs/MeshKernel/src/SamplesHessianCalculator.cpp
@@ -119,11 +119,11 @@ void meshkernel::SamplesHessianCalculator::ComputeGradient(const std::vector<Sam
     dareaL = 0.0;
     dareaR = 0.0;
 
-    Point x0 = {samplePoints[ip0].x, samplePoints[ip0].y};
-    double z0 = samplePoints[ip0].value;
-
     const MatrixColMajor& zss = hessian.getMatrix(0);
 
+    Point x0 = {samplePoints[ip0].x, samplePoints[ip0].y};
+    double z0 = zss(ip0);
+
     Point x1 = {samplePoints[ip1].x, samplePoints[ip1].y};
     double z1 = zss(ip1);
 
-- 
2.43.0


From 07e5f959275409bbcf0685ba6beaf663d98a3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 086/101] fix: circumcentre of faces crossing the 0/360
 meridian lies at the face

---
 libs/MeshKernel/src/Mesh2D.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 715a7c2..447594c 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -838,6 +838,12 @@ meshkernel::Point Mesh2D::ComputeFaceCircumenter(std::vector<Point>& polygon,
 
     const auto numNodes = static_cast<UInt>(polygon.size()) - 1;
 
+    if (m_projection != Projection::cartesian)
+    {
+        // The face may cross the meridian where the longitudes jump by 360 degrees
+        TranslateSphericalCoordinates(polygon);
+    }
+
     Point centerOfMass{0.0, 0.0};
     for (UInt n = 0; n < numNodes; n++)
     {
-- 
2.43.0


From f0f1601258b13944da350d97361679ef695975fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 087/101] fix: Casulli refinement keeps nodes with more cells
 than a face can have sides

---
 libs/MeshKernel/src/CasulliRefinement.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index ca268e2..6cb581f 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -189,7 +189,11 @@ void meshkernel::CasulliRefinement::InitialiseFaceNodes(const Mesh2D& mesh, std:
             nodeMask[i] = NodeMask::CornerNode;
         }
 
-        if (elementCount > Mesh::m_maximumNumberOfEdgesPerNode && nodeMask[i] > NodeMask::Unassigned && nodeMask[i] < NodeMask::BoundaryNode)
+        // The element that takes the place of the node has a node for each element connected to the node,
+        // and two nodes more on the boundary of the domain.
+        const UInt newElementSize = nodeMask[i] == NodeMask::BoundaryNode ? elementCount + 2 : elementCount;
+
+        if (newElementSize > Mesh::m_maximumNumberOfEdgesPerFace && nodeMask[i] > NodeMask::Unassigned && nodeMask[i] <= NodeMask::BoundaryNode)
         {
             nodeMask[i] = NodeMask::CornerNode;
         }
-- 
2.43.0


From d50b6be5894a4e6942be0e22e62a505d51ad1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 088/101] fix: Casulli refinement connects kept nodes to the
 new nodes only once

---
 .../include/MeshKernel/CasulliRefinement.hpp  |  3 -
 libs/MeshKernel/src/CasulliRefinement.cpp     | 56 ++++++-------------
 2 files changed, 16 insertions(+), 43 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
index 4633606..7267849 100644
--- a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
@@ -68,9 +68,6 @@ namespace meshkernel
         /// @brief Initial size of the edge array
         static constexpr UInt InitialEdgeArraySize = 100;
 
-        /// @brief The maximum number of nodes that a newly created element can have.
-        static constexpr UInt MaximumNumberOfNodesInNewlyCreatedElements = 4;
-
         /// @brief Simple bounded array of 4 UInt values
         /// @typedef EdgeNodes
         using EdgeNodes = std::array<UInt, 4>;
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index 6cb581f..dfc6b64 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -433,6 +433,18 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectEd
     std::fill(newEdges.begin(), newEdges.end(), constants::missing::uintValue);
     edgeCount = 0;
 
+    // Successive edges share the new node of the face in between
+    std::vector<UInt> connectedNodes;
+    auto connectNode = [&](const UInt newNode)
+    {
+        if (std::find(connectedNodes.begin(), connectedNodes.end(), newNode) == connectedNodes.end())
+        {
+            connectedNodes.push_back(newNode);
+            auto [newEdgeId, connectionAction] = mesh.ConnectNodes(currentNode, newNode);
+            connectEdgesAction->Add(std::move(connectionAction));
+        }
+    };
+
     for (UInt j = 0; j < mesh.m_nodesNumEdges[currentNode]; ++j)
     {
         UInt edgeId = mesh.m_nodesEdges[currentNode][j];
@@ -451,19 +463,13 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectEd
         {
             if (mesh.GetEdge(edgeId).first == currentNode)
             {
-                auto [edgeId1, connectionAction1] = mesh.ConnectNodes(currentNode, newNodes[edgeId][0]);
-                connectEdgesAction->Add(std::move(connectionAction1));
-
-                auto [edgeId2, connectionAction2] = mesh.ConnectNodes(currentNode, newNodes[edgeId][2]);
-                connectEdgesAction->Add(std::move(connectionAction2));
+                connectNode(newNodes[edgeId][0]);
+                connectNode(newNodes[edgeId][2]);
             }
             else
             {
-                auto [edgeId1, connectionAction1] = mesh.ConnectNodes(currentNode, newNodes[edgeId][1]);
-                connectEdgesAction->Add(std::move(connectionAction1));
-
-                auto [edgeId2, connectionAction2] = mesh.ConnectNodes(currentNode, newNodes[edgeId][3]);
-                connectEdgesAction->Add(std::move(connectionAction2));
+                connectNode(newNodes[edgeId][1]);
+                connectNode(newNodes[edgeId][3]);
             }
         }
     }
@@ -584,36 +590,6 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectNe
 
     connectNodesAction->Add(CreateMissingBoundaryEdges(mesh, numNodes, newNodes, nodeMask));
 
-    for (UInt i = 0; i < numNodes; ++i)
-    {
-        if (nodeMask[i] != NodeMask::CornerNode || mesh.m_nodesNumEdges[i] <= MaximumNumberOfNodesInNewlyCreatedElements)
-        {
-            continue;
-        }
-
-        for (UInt j = 0; j < mesh.m_nodesNumEdges[i]; ++j)
-        {
-            const UInt edgeId = mesh.m_nodesEdges[i][j];
-
-            if (mesh.GetEdge(edgeId).first == i)
-            {
-                auto [edgeId1, connectionAction1] = mesh.ConnectNodes(i, newNodes[edgeId][0]);
-                connectNodesAction->Add(std::move(connectionAction1));
-
-                auto [edgeId2, connectionAction2] = mesh.ConnectNodes(i, newNodes[edgeId][2]);
-                connectNodesAction->Add(std::move(connectionAction2));
-            }
-            else
-            {
-                auto [edgeId1, connectionAction1] = mesh.ConnectNodes(i, newNodes[edgeId][1]);
-                connectNodesAction->Add(std::move(connectionAction1));
-
-                auto [edgeId2, connectionAction2] = mesh.ConnectNodes(i, newNodes[edgeId][3]);
-                connectNodesAction->Add(std::move(connectionAction2));
-            }
-        }
-    }
-
     return connectNodesAction;
 }
 
-- 
2.43.0


From 7fea8b58bf5b5ee495a70a29fcad16cfa08fcf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 089/101] fix: Casulli refinement removes all the edges
 replaced by new edges

---
 libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp | 4 ++--
 libs/MeshKernel/src/CasulliRefinement.cpp                | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
index 7267849..710b89e 100644
--- a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
@@ -190,12 +190,12 @@ namespace meshkernel
                                  std::vector<UInt>& connectedNodes,
                                  std::vector<std::vector<UInt>>& faceNodeMapping);
 
-        /// @brief Delete the original boundary edges which have been replaced by new edges.
+        /// @brief Delete the original edges which have been replaced by new edges.
         ///
         /// @param [in, out] mesh The mesh
         /// @param [in] numEdges The original number of edges in the mesh
         /// @param [in] nodeMask Node mask information
-        [[nodiscard]] static std::unique_ptr<meshkernel::UndoAction> DeleteReplacedBoundaryEdges(Mesh2D& mesh, const UInt numEdges, const std::vector<NodeMask>& nodeMask);
+        [[nodiscard]] static std::unique_ptr<meshkernel::UndoAction> DeleteReplacedEdges(Mesh2D& mesh, const UInt numEdges, const std::vector<NodeMask>& nodeMask);
 
         /// @brief Delete any unused nodes and perform a mesh administration.
         ///
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index dfc6b64..2c77f9d 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -59,7 +59,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
 
         refinementAction->Add(ComputeNewNodes(mesh, newNodes, nodeMask));
         refinementAction->Add(ConnectNewNodes(mesh, newNodes, numNodes, numEdges, numFaces, nodeMask));
-        refinementAction->Add(DeleteReplacedBoundaryEdges(mesh, numEdges, nodeMask));
+        refinementAction->Add(DeleteReplacedEdges(mesh, numEdges, nodeMask));
         refinementAction->Add(Administrate(mesh, numNodes, nodeMask));
     }
     catch (...)
@@ -224,13 +224,13 @@ std::vector<meshkernel::CasulliRefinement::NodeMask> meshkernel::CasulliRefineme
     return nodeMask;
 }
 
-std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::DeleteReplacedBoundaryEdges(Mesh2D& mesh, const UInt numEdges, const std::vector<NodeMask>& nodeMask)
+std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::DeleteReplacedEdges(Mesh2D& mesh, const UInt numEdges, const std::vector<NodeMask>& nodeMask)
 {
     std::unique_ptr<CompoundUndoAction> deleteEdgesAction = CompoundUndoAction::Create();
 
     for (UInt i = 0; i < numEdges; ++i)
     {
-        if (mesh.m_edgesNumFaces[i] != 1)
+        if (mesh.m_edgesNumFaces[i] == 0)
         {
             continue;
         }
-- 
2.43.0


From b0464bd32dfc3f1eb93b7b51f71305998586b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 090/101] fix: global mesh contains its last column for every
 number of columns

---
 libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp b/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
index 80889ef..b5d0f4b 100644
--- a/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
+++ b/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
@@ -163,7 +163,8 @@ std::unique_ptr<Mesh2D> Mesh2DGenerateGlobal::Compute(const UInt numLongitudeNod
                 numberOfPoints = 5;
             }
 
-            if (points[2].x <= 180.0)
+            // Rounding may bring the last column of faces just beyond the date line
+            if (points[2].x <= 180.0 + 1.0e-6)
             {
                 pentagonFace = false;
                 AddFace(*mesh2d, points, GridExpansionDirection::Northwards, numberOfPoints);
-- 
2.43.0


From 7dffb510a5b0949cf20575020e2ce5c2924a8b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 091/101] fix: distances between close locations are exact in
 geographic searches

---
 libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp b/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp
index beb415c..96dcdd1 100644
--- a/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp
@@ -226,7 +226,8 @@ namespace meshkernel
             }
             else
             {
-                const double distance = bg::distance(first, second);
+                // The default strategy for geographic coordinates is off by decimetres for points that nearly coincide
+                const double distance = bg::distance(first, second, bg::strategy::distance::haversine<double>(constants::geometric::earth_radius));
                 return distance * distance;
             }
         }
-- 
2.43.0


From 39fede9e14512efb4d34502f5e3c6ef7a4a457f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 092/101] fix: connecting meshes with four hanging nodes
 considers the direction of the opposite edge

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 07e36e4..6a11d06 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -585,8 +585,21 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::FreeFourHangi
     }
 
     const UInt firstNextOppositeEdge = mesh.FindOppositeEdge(firstNextFace, edgeId);
-    const UInt firstNextOppositeStartNode = mesh.GetEdge(firstNextOppositeEdge).first;
-    const UInt firstNextOppositeEndNode = mesh.GetEdge(firstNextOppositeEdge).second;
+    UInt firstNextOppositeStartNode = mesh.GetEdge(firstNextOppositeEdge).first;
+    UInt firstNextOppositeEndNode = mesh.GetEdge(firstNextOppositeEdge).second;
+
+    // The opposite edge may have been defined in the reverse direction
+    const auto segmentsCrossing = AreSegmentsCrossing(mesh.Node(startNode),
+                                                      mesh.Node(firstNextOppositeStartNode),
+                                                      mesh.Node(endNode),
+                                                      mesh.Node(firstNextOppositeEndNode),
+                                                      false,
+                                                      mesh.m_projection);
+
+    if (std::get<0>(segmentsCrossing))
+    {
+        std::swap(firstNextOppositeStartNode, firstNextOppositeEndNode);
+    }
 
     //--------------------------------
     // Create 2 new nodes (labelled 4 and 5 in ASCII diagram)
-- 
2.43.0


From f17d0a04204afabe2884be4c5a42c2bdea095682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 093/101] fix: merge indicator of connecting meshes is sized by
 the number of nodes

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 6a11d06..97450b3 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -244,7 +244,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
     nodesToMerge.reserve(m_maximumNumberOfIrregularElementsAlongEdge * numberOfEdges);
 
     std::vector<UInt> hangingNodesOnEdge(numberOfEdges);
-    std::vector<MergeIndicator> mergeIndicator(numberOfEdges, MergeIndicator::Initial);
+    std::vector<MergeIndicator> mergeIndicator(mesh.GetNumNodes(), MergeIndicator::Initial);
 
     std::unique_ptr<meshkernel::CompoundUndoAction> conectMeshesAction = CompoundUndoAction::Create();
 
-- 
2.43.0


From b4d5bddf97e8b3fa0e43779beee75b7396ae07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 094/101] fix: the maximum number of faces in the uniform part
 is used when growing a grid from splines

---
 .../MeshKernel/CurvilinearGrid/CurvilinearGridFromSplines.hpp   | 1 -
 .../src/CurvilinearGrid/CurvilinearGridFromSplines.cpp          | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGridFromSplines.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGridFromSplines.hpp
index 6b181d0..3bf27c0 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGridFromSplines.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGridFromSplines.hpp
@@ -279,7 +279,6 @@ namespace meshkernel
         SplinesToCurvilinearParameters m_splinesToCurvilinearParameters; ///< Splines to curvilinear parameters
 
         const UInt m_maxNumCenterSplineHeights = 10; ///< Nsubmax, naz number of different heights a cross spline can have (is determined by how many crossing spline the user can input)
-        const UInt m_maxNUniformPart = 5;            ///< Maximum number of layers in the uniform part
         double m_onTopOfEachOtherSquaredTolerance;   ///< On top of each other squared tolerance
         UInt m_numOriginalSplines = 0;               ///< The original number of splines
 
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
index 96b1228..32febc6 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
@@ -1355,7 +1355,7 @@ namespace meshkernel
                                                      m_gridHeights.row(0).begin() + endGridLineIndex);
 
             auto numNUniformPart = static_cast<UInt>(std::floor(maxHeight / firstHeight + 0.99999));
-            numNUniformPart = std::min(numNUniformPart, m_maxNUniformPart);
+            numNUniformPart = std::min(numNUniformPart, static_cast<UInt>(m_splinesToCurvilinearParameters.maximum_num_faces_in_uniform_part));
 
             for (auto i = startGridLineIndex; i < endGridLineIndex; ++i)
             {
-- 
2.43.0


From b624dbb2a43d1e9c5414eb14c81343ef02d08d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 095/101] fix: layers that fill the height without growing keep
 the growth factor one when growing a grid from splines

---
 .../src/CurvilinearGrid/CurvilinearGridFromSplines.cpp      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
index 32febc6..195f4f3 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
@@ -1277,6 +1277,12 @@ namespace meshkernel
         auto heightDifferenceIncremented = ComputeTotalExponentialHeight(aspectRatioGrowFactorIncremented, m_edgeVelocities[splineIndex], m_numPerpendicularFacesOnSubintervalAndEdge(1, splineIndex)) - m_gridHeights(1, splineIndex);
 
         const double tolerance = 1e-8;
+        if (std::abs(heightDifference) <= tolerance)
+        {
+            // The layers fill the height without growing
+            return aspectRatioGrowFactor;
+        }
+
         const UInt numIterations = 1000;
         const double relaxationFactor = 0.5;
         double oldAspectRatio;
-- 
2.43.0


From 172624873ba971d57cd00749f231d32a7ef0ee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 096/101] fix: heights beside the last cross spline use that
 spline when growing a grid from splines

---
 .../src/CurvilinearGrid/CurvilinearGridFromSplines.cpp      | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
index 195f4f3..702f758 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
@@ -1567,16 +1567,12 @@ namespace meshkernel
             auto rightIndex = std::min(UInt(1), numValid - 1);
             double rightCoordinate = crossingSplinesDimensionalCoordinates[localValidSplineIndices[rightIndex]];
             // Find two nearest cross splines
-            while (rightCoordinate < edgesCenterPoints[i] && rightIndex < numValid)
+            while (rightCoordinate < edgesCenterPoints[i] && rightIndex < numValid - 1)
             {
                 leftIndex = rightIndex;
                 leftCoordinate = rightCoordinate;
                 rightIndex++;
                 rightCoordinate = crossingSplinesDimensionalCoordinates[localValidSplineIndices[rightIndex]];
-                if (rightIndex == numValid - 1)
-                {
-                    break;
-                }
             }
 
             double factor = 0.0;
-- 
2.43.0


From c09e688c28c8ef48d3f3b2a910da8fa093ab8e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 097/101] fix: refuse to grow a layer that does not exist when
 growing a grid from splines

---
 .../src/CurvilinearGrid/CurvilinearGridFromSplines.cpp       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
index 702f758..f032df7 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
@@ -396,6 +396,11 @@ namespace meshkernel
 
     void CurvilinearGridFromSplines::Iterate(UInt layer)
     {
+        if (layer == 0 || layer > static_cast<UInt>(m_curvilinearParameters.n_refinement))
+        {
+            throw ConstraintError("The layer to grow is out of range: {} not in [1, {}]", layer, m_curvilinearParameters.n_refinement);
+        }
+
         GrowLayer(layer);
 
         for (UInt j = 0; j < m_subLayerGridPoints.size(); ++j)
-- 
2.43.0


From cdd972e59d9aa7c1bd7662d43551eb123b5d66ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:58 +0000
Subject: [PATCH 098/101] fix: compute the circumcentre of triangles in
 accurate spherical coordinates

---
 libs/MeshKernel/src/Operations.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index 6a11d97..5241476 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -1131,7 +1131,31 @@ namespace meshkernel
         }
         if (projection == Projection::sphericalAccurate)
         {
-            // TODO: compute in case of spherical accurate (comp_circumcenter3D)
+            const Cartesian3DPoint first{SphericalToCartesian3D(firstNode)};
+            const Cartesian3DPoint second{SphericalToCartesian3D(secondNode)};
+            const Cartesian3DPoint third{SphericalToCartesian3D(thirdNode)};
+
+            const Cartesian3DPoint firstSide{second.x - first.x, second.y - first.y, second.z - first.z};
+            const Cartesian3DPoint secondSide{third.x - first.x, third.y - first.y, third.z - first.z};
+            const Cartesian3DPoint normal = VectorProduct(firstSide, secondSide);
+            const double normalLengthSquared = InnerProduct(normal, normal);
+
+            Cartesian3DPoint center{(first.x + second.x + third.x) * constants::numeric::oneThird,
+                                    (first.y + second.y + third.y) * constants::numeric::oneThird,
+                                    (first.z + second.z + third.z) * constants::numeric::oneThird};
+            if (normalLengthSquared > 0.0)
+            {
+                const double firstFactor = 0.5 * InnerProduct(secondSide, secondSide) / normalLengthSquared;
+                const double secondFactor = 0.5 * InnerProduct(firstSide, firstSide) / normalLengthSquared;
+                const Cartesian3DPoint firstDirection = VectorProduct(normal, firstSide);
+                const Cartesian3DPoint secondDirection = VectorProduct(secondSide, normal);
+
+                center.x = first.x + firstFactor * firstDirection.x + secondFactor * secondDirection.x;
+                center.y = first.y + firstFactor * firstDirection.y + secondFactor * secondDirection.y;
+                center.z = first.z + firstFactor * firstDirection.z + secondFactor * secondDirection.z;
+            }
+
+            circumcenter = Cartesian3DToSpherical(center, std::max({firstNode.x, secondNode.x, thirdNode.x}));
         }
         return circumcenter;
     }
-- 
2.43.0


From a776ef16c59101434eb919c3bf51533d1b48fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:58 +0000
Subject: [PATCH 099/101] fix: closest point on a line in accurate spherical
 coordinates was the difference vector

---
 libs/MeshKernel/src/Operations.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index 5241476..2d4376e 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -978,13 +978,11 @@ namespace meshkernel
                 cartesianNormal3DPoint.y = firstNodeCartesian.y + correctedRatio * y21;
                 cartesianNormal3DPoint.z = firstNodeCartesian.z + correctedRatio * z21;
 
-                cartesianNormal3DPoint.x = cartesianNormal3DPoint.x - xx3;
-                cartesianNormal3DPoint.y = cartesianNormal3DPoint.y - yy3;
-                cartesianNormal3DPoint.z = cartesianNormal3DPoint.z - zz3;
+                const double dx = cartesianNormal3DPoint.x - xx3;
+                const double dy = cartesianNormal3DPoint.y - yy3;
+                const double dz = cartesianNormal3DPoint.z - zz3;
 
-                distance = std::sqrt(cartesianNormal3DPoint.x * cartesianNormal3DPoint.x +
-                                     cartesianNormal3DPoint.y * cartesianNormal3DPoint.y +
-                                     cartesianNormal3DPoint.z * cartesianNormal3DPoint.z);
+                distance = std::sqrt(dx * dx + dy * dy + dz * dz);
 
                 const double referenceLongitude = std::max({firstNode.x, secondNode.x, point.x});
                 normalPoint = Cartesian3DToSpherical(cartesianNormal3DPoint, referenceLongitude);
-- 
2.43.0


From 5021d21a8eae6f6a949659014ed207bc9e80d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:58 +0000
Subject: [PATCH 100/101] fix: inward normal in accurate spherical coordinates
 was not moved off the first point

---
 libs/MeshKernel/src/Operations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index 2d4376e..f61464f 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -753,7 +753,7 @@ namespace meshkernel
             const Cartesian3DPoint firstPointCartesian{SphericalToCartesian3D(firstPoint)};
 
             Cartesian3DPoint rotatedPoint;
-            const double alpha = 0.0;
+            const double alpha = 1.0;
             rotatedPoint.x = firstPointCartesian.x + alpha * vxx;
             rotatedPoint.y = firstPointCartesian.y + alpha * vyy;
             rotatedPoint.z = firstPointCartesian.z + alpha * vzz;
-- 
2.43.0


From 09eae93045b38d22a1b29c5e2d2ae7d6a1f1db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:58 +0000
Subject: [PATCH 101/101] fix: point in polygon in accurate spherical
 coordinates: enlarge around the own centre, skip parallel segments

---
 libs/MeshKernel/src/Operations.cpp | 31 +++++++++++++++++++++---------
 libs/MeshKernel/src/Polygon.cpp    | 25 ++++++++++++++----------
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index f61464f..e90d401 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -265,7 +265,20 @@ namespace meshkernel
 
             // enlarge around polygon
             const double enlargementFactor = 1.000001;
-            const Cartesian3DPoint polygonCenterCartesian3D{SphericalToCartesian3D(polygonCenter)};
+            Cartesian3DPoint polygonCenterCartesian3D{0.0, 0.0, 0.0};
+            if (polygonCenter.IsValid())
+            {
+                polygonCenterCartesian3D = SphericalToCartesian3D(polygonCenter);
+            }
+            else
+            {
+                for (const auto& cartesian3DPoint : cartesian3DPoints)
+                {
+                    polygonCenterCartesian3D.x += cartesian3DPoint.x / static_cast<double>(currentPolygonSize);
+                    polygonCenterCartesian3D.y += cartesian3DPoint.y / static_cast<double>(currentPolygonSize);
+                    polygonCenterCartesian3D.z += cartesian3DPoint.z / static_cast<double>(currentPolygonSize);
+                }
+            }
             for (UInt i = 0; i < currentPolygonSize; ++i)
             {
                 cartesian3DPoints[i].x = polygonCenterCartesian3D.x + enlargementFactor * (cartesian3DPoints[i].x - polygonCenterCartesian3D.x);
@@ -289,17 +302,17 @@ namespace meshkernel
                 const auto xpXe = VectorProduct(pointCartesian3D, ee);
 
                 const auto D = InnerProduct(xiXxip1, ee);
-                double zeta = 0.0;
-                double xi = 0.0;
-                double eta = 0.0;
-                if (std::abs(D) > 0.0)
-                {
 
-                    xi = -InnerProduct(xpXe, cartesian3DPoints[nextNode]) / D;
-                    eta = InnerProduct(xpXe, cartesian3DPoints[i]) / D;
-                    zeta = -InnerProduct(xiXxip1, pointCartesian3D) / D;
+                if (std::abs(D) == 0.0)
+                {
+                    // The test direction is parallel to the segment
+                    continue;
                 }
 
+                const double xi = -InnerProduct(xpXe, cartesian3DPoints[nextNode]) / D;
+                const double eta = InnerProduct(xpXe, cartesian3DPoints[i]) / D;
+                const double zeta = -InnerProduct(xiXxip1, pointCartesian3D) / D;
+
                 if (IsEqual(zeta, 0.0))
                 {
                     return true;
diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index 591fbec..46d86f7 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -133,9 +133,14 @@ bool meshkernel::Polygon::ContainsSphericalAccurate(const Point& point) const
     // enlarge around polygon
     const double enlargementFactor = 1.000001;
 
-    // TODO set to centre?
-    Point polygonCenter;
-    const Cartesian3DPoint polygonCenterCartesian3D{SphericalToCartesian3D(polygonCenter)};
+    Cartesian3DPoint polygonCenterCartesian3D{0.0, 0.0, 0.0};
+    for (const auto& cartesian3DPoint : cartesian3DPoints)
+    {
+        polygonCenterCartesian3D.x += cartesian3DPoint.x / static_cast<double>(cartesian3DPoints.size());
+        polygonCenterCartesian3D.y += cartesian3DPoint.y / static_cast<double>(cartesian3DPoints.size());
+        polygonCenterCartesian3D.z += cartesian3DPoint.z / static_cast<double>(cartesian3DPoints.size());
+    }
+
     for (UInt i = 0; i < m_nodes.size(); ++i)
     {
         cartesian3DPoints[i].x = polygonCenterCartesian3D.x + enlargementFactor * (cartesian3DPoints[i].x - polygonCenterCartesian3D.x);
@@ -159,17 +164,17 @@ bool meshkernel::Polygon::ContainsSphericalAccurate(const Point& point) const
         const auto xpXe = VectorProduct(pointCartesian3D, ee);
 
         const double D = InnerProduct(xiXxip1, ee);
-        double zeta = 0.0;
-        double xi = 0.0;
-        double eta = 0.0;
 
-        if (std::abs(D) > 0.0)
+        if (std::abs(D) == 0.0)
         {
-            xi = -InnerProduct(xpXe, cartesian3DPoints[nextNode]) / D;
-            eta = InnerProduct(xpXe, cartesian3DPoints[i]) / D;
-            zeta = -InnerProduct(xiXxip1, pointCartesian3D) / D;
+            // The test direction is parallel to the segment
+            continue;
         }
 
+        const double xi = -InnerProduct(xpXe, cartesian3DPoints[nextNode]) / D;
+        const double eta = InnerProduct(xpXe, cartesian3DPoints[i]) / D;
+        const double zeta = -InnerProduct(xiXxip1, pointCartesian3D) / D;
+
         if (IsEqual(zeta, 0.0))
         {
             return true;
-- 
2.43.0

