From f9220a485572228fed0fa53be6e3580c6f797a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 01/15] fix: do not treat the wrapped-around cell of the next
 row as a GGQ neighbour

The grid indexer continues with the next row at the end of a row. The GGQ block
expansion took that cell as a neighbour, so blocks could grow across the grid
boundary and lose their box shape: integration points were then lost.
---
 queso/quadrature/multiple_elements.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/queso/quadrature/multiple_elements.hpp b/queso/quadrature/multiple_elements.hpp
index aa38a2f..ec3ff8d 100644
--- a/queso/quadrature/multiple_elements.hpp
+++ b/queso/quadrature/multiple_elements.hpp
@@ -306,7 +306,9 @@ private:
     /// @return ElementType*
 	/// TODO: Remove this function.
     static ElementType* pNextElement(BackgroundGridType& rElements, IndexType CurrentId, Direction Dir ) {
-        return rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir).p_element;
+        // At the end of a row, the grid indexer jumps to the first element of the next row, which is not a neighbor.
+        const auto next_element_result = rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir);
+        return next_element_result.is_end ? nullptr : next_element_result.p_element;
     }
 
     /// @brief Helper function to compute the neighbor coefficient using a linear function.
-- 
2.43.0


From c92b23c054ea29fc5488c86ad9cff8782eefe377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 02/15] fix: let one thread only write the number of threads in
 FloodFill

---
 queso/embedding/flood_fill.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 8f72f86..dd5cb21 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -69,6 +69,7 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     IndexType num_threads = 1;
     #pragma omp parallel
     {
+        #pragma omp single
         num_threads = static_cast<IndexType>(omp_get_num_threads());
     }
 
-- 
2.43.0


From a22747ad6e36b2cb960d825cb3864b08bf31f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 03/15] fix: do not terminate the process when the last
 buffered bytes cannot be written

~BinaryBufferWriter() called Flush(), which throws. A destructor is noexcept, so a
failed write ended the process instead of reaching the check of the writer.
---
 queso/io/binary_buffer_writer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/queso/io/binary_buffer_writer.hpp b/queso/io/binary_buffer_writer.hpp
index f160a0e..c773e30 100644
--- a/queso/io/binary_buffer_writer.hpp
+++ b/queso/io/binary_buffer_writer.hpp
@@ -55,8 +55,11 @@ public:
     }
 
     /// Destructor
+    /// @details Writes the remaining data, but does not throw. If this fails, the state of the filestream is set accordingly.
     ~BinaryBufferWriter() {
-        Flush();
+        if (mBufferPos > 0) {
+            mOut.write(mBuffer.data(), static_cast<long int>(mBufferPos));
+        }
     }
 
     /// Delete copy and move operators.
-- 
2.43.0


From 4f0ba25b5419908896b3b9535e39ffc59bc4b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 04/15] fix: report errors that occur when an output file is
 closed

---
 queso/io/io_utilities.cpp | 4 ++--
 queso/io/io_utilities.tpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index c33ba8c..0e6945c 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -60,7 +60,7 @@ void IO::WriteMeshToSTL(const TriangleMeshView& rTriangleMesh,
         file << "endsolid QuESoExport\n";
     }
 
-    file.flush();
+    file.close();
     QuESo_ERROR_IF(!file.good()) << "Failed to write conditions to file: " << rFilename << ".\n";
 }
 
@@ -148,7 +148,7 @@ void IO::WriteMeshToVTK(const TriangleMeshView& rTriangleMesh,
         }
     }
 
-    file.flush();
+    file.close();
     QuESo_ERROR_IF(!file.good()) << "Failed to write mesh to file: " << rFilename << '.' << std::endl;
 }
 
diff --git a/queso/io/io_utilities.tpp b/queso/io/io_utilities.tpp
index 2fa1ca1..fdba5c5 100644
--- a/queso/io/io_utilities.tpp
+++ b/queso/io/io_utilities.tpp
@@ -30,7 +30,7 @@ void IO::WriteDictionaryToJSON(const TDictType& rDictionary, const std::string&
 
     file << rDictionary;
 
-    file.flush();
+    file.close();
     QuESo_ERROR_IF(!file.good()) << "Failed to write Dictionary to file: " << rFilename << '.' << std::endl;
 }
 
@@ -86,7 +86,7 @@ void IO::WriteConditionToSTL(const Condition<TElementType>& rCondition,
         file << "endsolid QuESoExport\n";
     }
 
-    file.flush();
+    file.close();
     QuESo_ERROR_IF(!file.good()) << "Failed to write conditions to file: " << rFilename << '.' << std::endl;
 }
 
@@ -172,7 +172,7 @@ void IO::WriteElementsToVTK(
         }
     }
 
-    file.flush();
+    file.close();
     QuESo_ERROR_IF(!file.good()) << "Failed to write elements to file: " << rFilename << '.' << std::endl;
 }
 
@@ -274,7 +274,7 @@ void IO::WritePointsToVTK(
         }
     }
 
-    file.flush();
+    file.close();
     QuESo_ERROR_IF(!file.good()) << "Failed to write points to file: " << rFilename << '.' << std::endl;
 }
 
-- 
2.43.0


From c00bf0a376a737d12eda88a0c10b20394f7c067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 05/15] fix: read text STL files whose solid name contains
 'facet'

---
 queso/io/io_utilities.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 0e6945c..2e6effe 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -222,6 +222,9 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
 
     std::string line;
 
+    // Skip first line: "solid name". Note that the name may contain any word.
+    std::getline(file, line);
+
     // Skip lines until we hit the first "facet"
     while (std::getline(file, line)) {
         if (line.find("facet") != std::string::npos) {
-- 
2.43.0


From abaceb4b3cba5c3b069c416327ece3c11790096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 06/15] fix: report text STL files that end before 'endsolid'

A truncated file, or a read error at the border of two facets, gave a mesh with
fewer triangles and no error.
---
 queso/io/io_utilities.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 2e6effe..7889984 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -231,8 +231,10 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
             break; // We've found the start of the actual STL data
         }
     }
+    bool end_found = false;
     do {
         if (line.find("endsolid") != std::string::npos) {
+            end_found = true;
             break;
         }
         if (line.find("facet") != std::string::npos) {
@@ -285,6 +287,7 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
             }
         }
     } while (std::getline(file, line));
+    QuESo_ERROR_IF(!end_found) << "Unexpected EOF: 'endsolid' is missing in file: " << rFilename << '.' << std::endl;
 
     rTriangleMesh.Check();
 }
-- 
2.43.0


From 20c1179b5c7f95394ec87643b2a8a7fb15d14e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 07/15] fix: measure elapsed times with a steady clock

high_resolution_clock is the system clock in libstdc++: setting the clock during a
run gave negative or wrong elapsed times.
---
 queso/includes/timer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/queso/includes/timer.hpp b/queso/includes/timer.hpp
index 845810b..786bfea 100644
--- a/queso/includes/timer.hpp
+++ b/queso/includes/timer.hpp
@@ -35,7 +35,7 @@ public:
 
     /// Constructor
     Timer(){
-        mTimeBegin = std::chrono::high_resolution_clock::now();
+        mTimeBegin = std::chrono::steady_clock::now();
     }
 
     ///@}
@@ -44,12 +44,12 @@ public:
 
     ///@brief Reset clock to current time.
     void Reset() {
-        mTimeBegin = std::chrono::high_resolution_clock::now();
+        mTimeBegin = std::chrono::steady_clock::now();
     }
 
     ///@brief Returns duration since instantiation or last reset.
     double Measure(){
-        const auto time_now = std::chrono::high_resolution_clock::now();
+        const auto time_now = std::chrono::steady_clock::now();
         std::chrono::duration<double> duration = time_now - mTimeBegin;
         return duration.count();
     }
@@ -58,7 +58,7 @@ public:
 private:
     ///@name Private Member Variables
     ///@{
-    std::chrono::time_point<std::chrono::high_resolution_clock> mTimeBegin;
+    std::chrono::time_point<std::chrono::steady_clock> mTimeBegin;
     ///@}
 
 }; // End class Timer
-- 
2.43.0


From 151e9be760519fd2944fd6767b6e2e20ff8d95e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 08/15] fix: check that the vertices of a text STL file can be
 read

Coordinates that could not be extracted, e.g., as there was no memory for the line,
were taken as zero or left uninitialized.
---
 queso/io/io_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 7889984..878a66b 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -255,6 +255,7 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 iss >> word; // "vertex"
                 float xf, yf, zf;
                 iss >> xf >> yf >> zf;
+                QuESo_ERROR_IF(!iss) << "Expected 'vertex x y z' but got: " << line << '.' << std::endl;
                 PointType vertex = PointType{static_cast<double>(xf),
                                              static_cast<double>(yf),
                                              static_cast<double>(zf)};
-- 
2.43.0


From fca5637569430a6a70626445e07b3f3d546af8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 09/15] fix: allow several threads to check the same settings

---
 queso/containers/data_set.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/queso/containers/data_set.hpp b/queso/containers/data_set.hpp
index 3e40f73..8ddb488 100644
--- a/queso/containers/data_set.hpp
+++ b/queso/containers/data_set.hpp
@@ -15,6 +15,7 @@
 #define DATA_SET_INCLUDE_HPP
 
 //// STL includes
+#include <atomic>
 #include <functional>
 #include <optional>
 #include <vector>
@@ -185,7 +186,7 @@ public:
 
         QuESo_ASSERT( mpKeySetInfo->IsSameKeySet(rQueryKey.KeySetInfoTypeIndex() ),
             "Given Key: '" + std::string(rQueryKey.Name()) + "' is of wrong type.\n" );
-        QuESo_ASSERT( mCheckedRequired,
+        QuESo_ASSERT( std::atomic_ref<bool>(mCheckedRequired).load(std::memory_order_relaxed),
             "CheckRequired() must be called before accessing required value to Key: '" + std::string(rQueryKey.Name()) + "'.\n" );
 
         return std::get<TValueType>(mData[rQueryKey.Index()]);
@@ -241,7 +242,8 @@ public:
                     << "Value to Key: '" << p_key->Name() << "' is not set.\n";
             }
         }
-        mCheckedRequired = true;
+        // May be called from several threads at once.
+        std::atomic_ref<bool>(mCheckedRequired).store(true, std::memory_order_relaxed);
     }
 
     /// @brief Returns the KeySetInfo associated with this DataSet.
-- 
2.43.0


From 2c5ee38db9eb505261e5fa0986dc2ee0c1ddc6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 10/15] fix: create the boundary mesh of a full cell under a
 lock

The mesh is created by the first const access, several threads may do this for the
same element.
---
 queso/containers/cell_domain.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queso/containers/cell_domain.hpp b/queso/containers/cell_domain.hpp
index 5b34791..d5000f2 100644
--- a/queso/containers/cell_domain.hpp
+++ b/queso/containers/cell_domain.hpp
@@ -15,6 +15,7 @@
 
 //// STL includes
 #include <algorithm>
+#include <mutex>
 #include <optional>
 
 //// Project includes
@@ -143,6 +144,9 @@ private:
     /// @return const TriangleMesh&
     [[nodiscard]] const TriangleMesh& GetOrCreateBoundaryMesh(const ElementBounds& rBounds) const
     {
+        // Several threads may read the same element at once.
+        static std::mutex mutex{};
+        const std::scoped_lock lock(mutex);
         if (!mBoundaryMesh) {
             const auto& r_bounds = rBounds.global;
             mBoundaryMesh.emplace(MeshUtilities::MakeMeshBox(r_bounds.lower, r_bounds.upper));
-- 
2.43.0


From f1678ecc95d954481248f150c1c615988cf6c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 11/15] fix: keep the BRepOperator and the mesh read from file
 as long as the model

The trimmed elements keep a reference to the operator that was created on the
stack of ComputeVolume() and that refers to the mesh. Their geometrical queries
used both after they were destroyed.
---
 queso/embedded_model.cpp |  6 ++++--
 queso/embedded_model.h   | 11 ++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 5e279f3..99bb718 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -44,8 +44,9 @@ void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
     Timer timer_total{};
     const IndexType global_number_of_elements = mGridIndexer.NumberOfElements();
 
-    // Construct BRepOperator.
-    BRepOperator brep_operator(rTriangleMesh);
+    // Construct BRepOperator. The trimmed elements keep a pointer to it.
+    auto p_brep_operator = MakeUnique<BRepOperator>(rTriangleMesh);
+    const auto& brep_operator = *p_brep_operator;
 
     // Classify all elements.
     Timer timer_check_intersect{};
@@ -101,6 +102,7 @@ void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
     }// End omp parallel for.
 
     mBackgroundGrid.LockElements();
+    mpBrepOperator = std::move(p_brep_operator);
 
     // Assmble Generalized Gaussian quadrature rules (if enabled).
     double et_ggq_rules = 0.0;
diff --git a/queso/embedded_model.h b/queso/embedded_model.h
index e91de2f..9bdf524 100644
--- a/queso/embedded_model.h
+++ b/queso/embedded_model.h
@@ -17,6 +17,7 @@
 /// Project includes
 #include "queso/containers/background_grid.hpp"
 #include "queso/containers/boundary_integration_point.hpp"
+#include "queso/embedding/brep_operator.h"
 #include "queso/io/io_utilities.h"
 #include "queso/includes/dictionary_factory.hpp"
 #include "queso/utilities/check_dictionary_utilities.hpp"
@@ -100,10 +101,11 @@ public:
         QuESo_INFO_IF(echo_level > 0) << "QuESo: Create Volume -------------------------------------- START" << std::endl;
 
         const auto& r_filename = r_general_settings.GetRequiredValue<std::string>(GeneralSettings::input_filename);
-        TriangleMesh triangle_mesh{};
-        IO::ReadMeshFromSTL(triangle_mesh, r_filename.c_str());
+        auto p_triangle_mesh = MakeUnique<TriangleMesh>();
+        IO::ReadMeshFromSTL(*p_triangle_mesh, r_filename.c_str());
 
-        ComputeVolume(triangle_mesh.View());
+        ComputeVolume(p_triangle_mesh->View());
+        mpTriangleMesh = std::move(p_triangle_mesh); // Queries of the trimmed elements may refer to the mesh.
         PrintVolumeElapsedTimeInfo();
 
         QuESo_INFO_IF(echo_level > 0) << "QuESo: Create Volume ---------------------------------------- End\n";
@@ -131,6 +133,7 @@ public:
     ///@brief Creates integration points for an embedded volume that is enclosed/defined by rTriangleMesh.
     ///       This interface enables to pass a TriangleMeshView and, hence, facilitates other applications to
     ///       use QuESo on C++ level, which do not want QuESo to read rTriangleMesh from an input file.
+    ///@note  The mesh must outlive the created elements, as their geometrical queries may refer to it.
     ///@param rTriangleMesh
     ///@see CreateAllFromSettings <- Creates volume and condition directly from input files specified in mSettings.
     ///@todo Add try{} catch{} plus error handler
@@ -239,6 +242,8 @@ private:
     ///@{
     Unique<const MainDictionaryType> mpSettings;
     GridIndexer mGridIndexer;
+    Unique<TriangleMesh> mpTriangleMesh{};   // Only set if the volume is read from an input file.
+    Unique<BRepOperator> mpBrepOperator{};   // The trimmed elements in mBackgroundGrid refer to this operator.
     BackgroundGridType mBackgroundGrid;
     Unique<MainDictionaryType> mpModelInfo;
     ///@}
-- 
2.43.0


From 16c61063195528e927c2bafa1a62a662a2190cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 12/15] fix: do not decide point queries of trimmed domains by
 rays to very thin triangles

Such triangles occur if the mesh has vertices close to, but not on, the planes of
the cells. Their distance is inaccurate, so that they may seem to lie in front of
the triangles that hide them, and points far outside were reported as inside.
---
 queso/embedding/trimmed_domain.cpp | 57 +++++++++++++++++-------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/queso/embedding/trimmed_domain.cpp b/queso/embedding/trimmed_domain.cpp
index 221494a..084dd30 100644
--- a/queso/embedding/trimmed_domain.cpp
+++ b/queso/embedding/trimmed_domain.cpp
@@ -38,37 +38,44 @@ bool TrimmedDomain::IsInsideTrimmedDomain(const PointType& rPoint, bool& rSucces
         return true;
     }
     rSuccess = true;
-    bool success_local = false;
-    bool is_inside = false;
-    IndexType current_id = 0;
-    while( !success_local ){
-        // Return false if all triangles are tested, but non valid (all are parallel or on_boundary)
-        if( current_id >= num_triangles ){
-            rSuccess = false;
-            return false;
-        }
+    // Intersections with very thin triangles suffer from round-off. Hence, such triangles are only used as target,
+    // if all other triangles are not valid (parallel or on_boundary).
+    for( const bool use_thin_triangles : {false, true} ){
+        for( IndexType current_id = 0; current_id < num_triangles; ++current_id ){
+            const auto triangle = mClippedMesh.Triangle<WithoutNormals>(current_id);
+            const double area = TriangleUtilities::Area(triangle);
+            const Vector3d edge_1 = triangle.P2 - triangle.P1;
+            const Vector3d edge_2 = triangle.P3 - triangle.P1;
+            const bool is_thin = area < 1e-6 * std::max( Math::Dot(edge_1, edge_1), Math::Dot(edge_2, edge_2) );
+            if( is_thin != use_thin_triangles ){
+                continue;
+            }
 
-        // Get direction
-        const auto triangle = mClippedMesh.Triangle<WithoutNormals>(current_id);
-        const auto center_triangle = TriangleUtilities::Center(triangle);
-        Vector3d direction = center_triangle - rPoint;
+            // Get direction
+            const auto center_triangle = TriangleUtilities::Center(triangle);
+            Vector3d direction = center_triangle - rPoint;
 
-        // Normalize
-        double norm_direction = Math::Norm( direction );
-        direction /= norm_direction;
+            // Normalize
+            double norm_direction = Math::Norm( direction );
+            direction /= norm_direction;
 
-        // Construct ray
-        Ray_AABB_primitive ray(rPoint, direction);
+            // Construct ray
+            Ray_AABB_primitive ray(rPoint, direction);
 
-        // Get vertices of current triangle
-        // Make sure target triangle is not parallel and has a significant area.
-        const double area = TriangleUtilities::Area(triangle);
-        if( !ray.is_parallel(triangle.P1, triangle.P2, triangle.P3, 100.0*mSnapTolerance) && area >  100*ZEROTOL) {
-            std::tie(is_inside, success_local) = mGeometryQuery.IsInside(ray);
+            // Get vertices of current triangle
+            // Make sure target triangle is not parallel and has a significant area.
+            if( !ray.is_parallel(triangle.P1, triangle.P2, triangle.P3, 100.0*mSnapTolerance) && area >  100*ZEROTOL) {
+                const auto [is_inside, success_local] = mGeometryQuery.IsInside(ray);
+                if( success_local ){
+                    return is_inside;
+                }
+            }
         }
-        current_id++;
     }
-    return is_inside;
+
+    // All triangles are tested, but non valid (all are parallel or on_boundary).
+    rSuccess = false;
+    return false;
 }
 
 BoundingBoxType TrimmedDomain::GetBoundingBoxOfTrimmedDomain() const {
-- 
2.43.0


From 087785fc6dab50c9d19cddbf1ffebb9a9979194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 13/15] fix: point elimination no longer erases beyond the end
 when there are fewer points than functions

---
 queso/quadrature/trimmed_element.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/queso/quadrature/trimmed_element.hpp b/queso/quadrature/trimmed_element.hpp
index 3a4ff4c..1ce6ed0 100644
--- a/queso/quadrature/trimmed_element.hpp
+++ b/queso/quadrature/trimmed_element.hpp
@@ -424,10 +424,12 @@ protected:
                     }
                 );
                 // Only keep #number_of_functions integration points.
-                rIntegrationPoint.erase(
-                    rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
-                    rIntegrationPoint.end()
-                );
+                if (rIntegrationPoint.size() > number_of_functions) {
+                    rIntegrationPoint.erase(
+                        rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
+                        rIntegrationPoint.end()
+                    );
+                }
 
                 // Additionally remove all points that are zero.
                 rIntegrationPoint.erase(
-- 
2.43.0


From 956107fc42634fe9d5734e0f58d3a4201fbfaaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 14/15] fix: rays parallel to a triangle no longer read
 distances that were not computed

---
 queso/embedding/geometry_query.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/queso/embedding/geometry_query.cpp b/queso/embedding/geometry_query.cpp
index bddc9a0..10de02b 100644
--- a/queso/embedding/geometry_query.cpp
+++ b/queso/embedding/geometry_query.cpp
@@ -120,6 +120,10 @@ namespace queso {
             if( TriangleUtilities::Area(tri) > 100.0*ZEROTOL
                     && rRay.intersect(tri.P1, tri.P2, tri.P3, t, u, v, back_facing, parallel) ) {
                 intersection_count++;
+                if( parallel ){ // Triangle is parallel to ray. Note that t, u, and v are not computed in this case.
+                    final_result = std::make_pair(false, false);
+                    return TriangleMeshView::VisitToken::stop_loop;
+                }
                 const double sum_u_v = u+v;
                 if( t < ZEROTOL ){ // Origin lies on boundary
                     final_result = std::make_pair(false, true);
@@ -130,10 +134,6 @@ namespace queso {
                     final_result = std::make_pair(false, false);
                     return TriangleMeshView::VisitToken::stop_loop;
                 }
-                if( parallel ){ // Triangle is parallel to ray.
-                    final_result = std::make_pair(false, false);
-                    return TriangleMeshView::VisitToken::stop_loop;
-                }
             }
             return TriangleMeshView::VisitToken::continue_loop;
         });
-- 
2.43.0


From 8f03820a21376af8f771064f352f20c5f0a07b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:34 +0000
Subject: [PATCH 15/15] fix: classify groups of elements without trimmed
 neighbours by a point test

---
 queso/embedding/flood_fill.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index dd5cb21..fd2717c 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -109,6 +109,12 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     // Mark states
     for( auto& r_group : rGroupsOutput ){
         int inside_count = std::get<2>(r_group);
+        if( inside_count == 0 ){
+            // The group is not adjacent to any trimmed element (e.g. grid is fully contained in the geometry).
+            const auto box = mGridIndexer.GetBoundingBoxXYZFromIndex(*std::get<1>(r_group).begin());
+            const PointType center_box = (0.5 * (box.lower + box.upper));
+            inside_count = mpBrepOperator->IsInside(center_box) ? 1 : -1;
+        }
         auto state = (inside_count > 0) ? IntersectionState::inside : IntersectionState::outside;
         for( auto group_it = std::get<1>(r_group).begin(); group_it !=  std::get<1>(r_group).end(); ++group_it){
             states[*group_it] = state;
-- 
2.43.0

