From 773b755b1e47b8defe191b2a81c21cb5c9999fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:57 +0000
Subject: [PATCH 01/28] fix: create the leaf solver's index sets on
 MPI_COMM_SELF

The leaf solve runs a different number of times on each rank; creating its
index sets on MPI_COMM_WORLD makes it collective and deadlocks whenever the
leaves are not spread evenly.
---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index 676bd2c..e37d885 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -197,8 +197,8 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         IS row_perm, col_perm;
         Vector<int> idx_row = vectorRange(0, N-1);
         Vector<int> idx_col = vectorRange(0, N-1);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
         MatFactorInfo mat_factor_info;
         MatFactorInfoInitialize(&mat_factor_info);
 
-- 
2.43.0


From 469d65de7e402293dfd1d1057c19d95d34e8289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:57 +0000
Subject: [PATCH 02/28] fix: destroy the leaf solver's index sets

Every leaf solve leaked two index sets.
---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index e37d885..bc47dce 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -214,6 +214,8 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         Vector<double> x_vector(xv);
 
         // Clean up
+        ISDestroy(&row_perm);
+        ISDestroy(&col_perm);
         MatDestroy(&A);
         VecDestroy(&x);
         VecDestroy(&f);
-- 
2.43.0


From 83ef2a4888a968e749bd06161647a26d113a3721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:57 +0000
Subject: [PATCH 03/28] fix: do not name the null communicator

Ranks outside the requested range get MPI_COMM_NULL, which is not a legal
argument of MPI_Comm_set_name.
---
 src/MPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 6998e60..223a6c5 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -29,7 +29,7 @@ void communicatorSubsetRange(Communicator super_comm, int r_first, int r_last, i
     MPI_Comm_get_name(super_comm, super_comm_name_buffer, &super_comm_name_size);
     std::string super_comm_name(super_comm_name_buffer, super_comm_name_size);
     std::string sub_comm_name = super_comm_name + "_sub_range={" + std::to_string(r_first) + ":" + std::to_string(r_last) + "}";
-    MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    if (*sub_comm != MPI_COMM_NULL) MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
 
     // Free groups
     MPI_Group_free(&super_group);
-- 
2.43.0


From b534b77d690c1bdf69ede3e976b71c4b62416872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:57 +0000
Subject: [PATCH 04/28] fix: reset the coarsening count when a patch is merged
 again

A second build stage on an adaptive mesh found the counts of the first one
and threw or used operators of the wrong size.
---
 src/HPSAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index c5456a7..51b2d50 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -1006,6 +1006,9 @@ private:
         PatchGridType merged_grid(MPI_COMM_SELF, alpha.size() + beta.size(), alpha.grid().xLower(), beta.grid().xUpper(), alpha.size() + gamma.size(), alpha.grid().yLower(), gamma.grid().yUpper());
         tau.grid() = merged_grid;
 
+        // The merged operators are at full resolution, whatever an earlier build coarsened
+        tau.n_coarsens = 0;
+
     }
 
     // ====================================================================================================
-- 
2.43.0


From 9ab761cd6e529500952d6664cc1611752f43eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:54 +0000
Subject: [PATCH 05/28] fix: free the copies of remote children after a family
 callback

---
 src/Quadtree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 9b46b6c..91f59ad 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -12,6 +12,7 @@
 #include <vector>
 #include <functional>
 #include <set>
+#include <memory>
 
 #include "EllipticForestApp.hpp"
 #include "MPI.hpp"
@@ -461,6 +462,7 @@ public:
 		else {
 			// Quadrant is a branch; call branch callback
 			std::vector<Node<T>*> children{4};
+			std::vector<std::unique_ptr<Node<T>>> received_children; // Owns copies of remote children during callback
 			if (node->pfirst == node->plast) {
 				// Node is owned by single rank
 				for (int i = 0; i < 4; i++) {
@@ -484,7 +486,8 @@ public:
 						// Allocate memory on my rank to store incoming node data
 						if (child == nullptr) {
 							// child = quadtree.node_factory->createChildNode(node, i, node->pfirst, node->plast);
-							child = new Node<T>(node->getComm());
+							received_children.emplace_back(new Node<T>(node->getComm()));
+							child = received_children.back().get();
 						}
 
 						// Broadcast node
-- 
2.43.0


From 6c628de3614383f19857d19e16d065cdcd114235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:54 +0000
Subject: [PATCH 06/28] fix: ignore the particular solution's Neumann data when
 the right-hand side is homogeneous

---
 src/HPSAlgorithm.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 51b2d50..fee5b4b 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -404,7 +404,11 @@ public:
             Vector<NumericalType> r = concatenate(rVectors);
             Vector<NumericalType> a = concatenate(aVectors);
             Vector<NumericalType> b = concatenate(bVectors);
-            Vector<NumericalType>& h = rootPatch.vectorH();
+            Vector<NumericalType> h = rootPatch.vectorH();
+            if (std::get<bool>(app.options["homogeneous-rhs"])) {
+                // The upwards stage does not set h (or it was set for another problem); there is no particular solution
+                h = Vector<NumericalType>(4*M, 0);
+            }
             Matrix<NumericalType>& T = rootPatch.matrixT();
             Vector<NumericalType>& g = rootPatch.vectorG();
 
-- 
2.43.0


From caa1eadd03752e97d0908461c48cb13bbba90bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:05 +0000
Subject: [PATCH 07/28] fix: never leave an incomplete leaf operator in the
 operator cache

---
 src/DataCache.hpp    | 10 ++++++++++
 src/HPSAlgorithm.hpp |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/DataCache.hpp b/src/DataCache.hpp
index faf7695..3f3f45f 100644
--- a/src/DataCache.hpp
+++ b/src/DataCache.hpp
@@ -39,6 +39,16 @@ public:
         return map_[key];
     }
 
+    /**
+     * @brief Stores data under a key; the cache is unchanged if the data cannot be stored
+     * 
+     * @param key Name of data
+     * @param data Data to store
+     */
+    void insert(std::string key, const T& data) {
+        map_.insert_or_assign(key, data);
+    }
+
     /**
      * @brief Check if the DataCache contains the key
      * 
diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index fee5b4b..408b349 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -133,7 +133,7 @@ public:
                 // patch.isLeaf = true;
                 if (std::get<bool>(app.options["cache-operators"])) {
                     if (!matrixCache.contains("T_leaf")) {
-                        matrixCache["T_leaf"] = patch_solver.buildD2N(patch.grid());
+                        matrixCache.insert("T_leaf", patch_solver.buildD2N(patch.grid()));
                     }
                     patch.matrixT() = matrixCache["T_leaf"];
                 }
-- 
2.43.0


From 0d36f1e228d28ef27c845dea660e3e6c3fc4c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:46 +0000
Subject: [PATCH 08/28] fix: make any traversal of a quadtree find that
 quadtree

---
 src/Quadtree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 91f59ad..d801884 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -258,6 +258,7 @@ public:
 	 */
 	void traversePreOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -279,6 +280,7 @@ public:
 	 */
 	void traversePostOrder(std::function<int(Node<T>*)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -300,6 +302,7 @@ public:
 	 */
 	void traversePostOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -322,6 +325,7 @@ public:
 	 */
 	void merge(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
@@ -345,6 +349,7 @@ public:
 	 */
 	void split(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
-- 
2.43.0


From af5538b50b6d1951567a4fa971b76dab404dfa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:01 +0000
Subject: [PATCH 09/28] fix: rebuild the mesh arrays from scratch when a mesh
 is refined again

---
 src/Mesh.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 7ab02b8..54d6e68 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -185,6 +185,13 @@ public:
      */
     void setMeshFromQuadtree() {
 
+        npoints = 0;
+        ncells = 0;
+        points = Vector<double>();
+        connectivity = Vector<int>();
+        offsets = Vector<int>();
+        types = Vector<int>();
+
         points.name() = "points";
         points.setNumberOfComponents("3");
         connectivity.name() = "connectivity";
-- 
2.43.0


From 1a8adf7e18e29b95f26500147b25d4bcd767d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:26 +0000
Subject: [PATCH 10/28] fix: pass the displacements before the type in
 allgatherv

---
 src/MPI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 28d374b..ec3f417 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -295,7 +295,7 @@ int allgather(T& send_data, T& recv_data, int recv_count, Communicator comm) {
  */
 template<class T>
 int allgatherv(T& send_data, T& recv_data, std::vector<int> recv_counts, std::vector<int> displacements, Communicator comm) {
-    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), TypeTraits<T>::getType(recv_data), displacements.data(), comm);
+    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), displacements.data(), TypeTraits<T>::getType(recv_data), comm);
 }
 
 /**
-- 
2.43.0


From bf138a14c92c3e1966150cf00c0e2234ccfc18f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:12 +0000
Subject: [PATCH 11/28] fix: do not read past the receiver's string in a
 broadcast

---
 src/MPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 223a6c5..ec4568f 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -68,7 +68,7 @@ int broadcast<std::string>(std::string& str, int root, MPI_Comm comm) {
     int rank; MPI_Comm_rank(comm, &rank);
     int size = str.length();
     broadcast(size, root, comm);
-    if (rank != root) str = std::string(TypeTraits<std::string>::getAddress(str), size);
+    if (rank != root) str.resize(size);
     return MPI_Bcast(TypeTraits<std::string>::getAddress(str), TypeTraits<std::string>::getSize(str), TypeTraits<std::string>::getType(str), root, comm);
 }
 
-- 
2.43.0


From 043d701ce1211dfe1e196e197661910c999ef205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:46 +0000
Subject: [PATCH 12/28] fix: keep the entries of an identity matrix made with a
 type

---
 src/SpecialMatrices.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SpecialMatrices.hpp b/src/SpecialMatrices.hpp
index 27e01a3..e141367 100644
--- a/src/SpecialMatrices.hpp
+++ b/src/SpecialMatrices.hpp
@@ -59,7 +59,7 @@ public:
 
         //
         MatCreateConstantDiagonal(comm, PETSC_DECIDE, PETSC_DECIDE, N, N, 1.0, &this->mat);
-        MatSetType(this->mat, matrix_type);
+        MatConvert(this->mat, matrix_type, MAT_INPLACE_MATRIX, &this->mat);
         MatGetLocalSize(this->mat, &this->local_rows, &this->local_cols);
         MatGetSize(this->mat, &this->global_rows, &this->global_cols);
         this->is_created = true;
-- 
2.43.0


From c566bbb178f30a53c6a50a159a10060acf2d636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:46 +0000
Subject: [PATCH 13/28] fix: let each copy of a parallel matrix hold its own
 reference

---
 src/Matrix.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 6906d8a..ded552a 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1245,11 +1245,16 @@ public:
         global_rows(other.global_rows),
         global_cols(other.global_cols),
         is_created(other.is_created),
-        mat(other.mat)
-            {}
+        mat(other.mat) {
+
+        // Both objects hold the Petsc matrix
+        if (is_created) PetscObjectReference((PetscObject) mat);
+
+    }
 
     ParallelMatrix& operator=(ParallelMatrix&& other) {
         if (this != &other) {
+            if (is_created) MatDestroy(&mat);
             MPIObject::operator=(std::move(other));
             local_rows = other.local_rows;
             local_cols = other.local_cols;
-- 
2.43.0


From f85456f9164d72359a447a7ceddf690b7023e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:46 +0000
Subject: [PATCH 14/28] fix: let each copy of a parallel vector hold its own
 reference

---
 src/Vector.hpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4e72305..c954bb2 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -1021,7 +1021,7 @@ protected:
 
 public:
     
-    Petsc::Vec vec;
+    Petsc::Vec vec = NULL;
 
     ParallelVector() :
         MPIObject(MPI_COMM_WORLD)
@@ -1102,6 +1102,31 @@ public:
 
     // }
 
+    ParallelVector(const ParallelVector& other) :
+        MPIObject(other.getComm()),
+        local_size(other.local_size),
+        global_size(other.global_size),
+        is_created(other.is_created),
+        vec(other.vec) {
+
+        // Both objects hold the Petsc vector
+        if (is_created) PetscObjectReference((PetscObject) vec);
+
+    }
+
+    ParallelVector& operator=(const ParallelVector& other) {
+        if (this != &other) {
+            if (other.is_created) PetscObjectReference((PetscObject) other.vec);
+            if (is_created) VecDestroy(&vec);
+            MPIObject::operator=(other);
+            local_size = other.local_size;
+            global_size = other.global_size;
+            is_created = other.is_created;
+            vec = other.vec;
+        }
+        return *this;
+    }
+
     ~ParallelVector() {
         if (is_created) {
             VecDestroy(&vec);
-- 
2.43.0


From 98b5cd4621ac42a482dc3ec91c57643078b0ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:52 +0000
Subject: [PATCH 15/28] fix: a parallel matrix knows its sizes once they are
 decided

---
 src/Matrix.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index ded552a..545625d 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1135,6 +1135,7 @@ public:
         create();
         setSizes(local_rows, local_cols, global_rows, global_cols);
         setFromOptions();
+        getSizes();
     
     }
 
@@ -1149,6 +1150,7 @@ public:
         create();
         setSizes(local_rows, local_cols, global_rows, global_cols);
         setType(matrix_type);
+        getSizes();
     
     }
 
@@ -1163,6 +1165,7 @@ public:
         create();
         setSizes(local_rows, local_cols, global_rows, global_cols);
         setFromOptions();
+        getSizes();
 
         // Fill parallel matrix
         setValues(vectorRange(0, global_rows-1), vectorRange(0, global_cols-1), serial_matrix, INSERT_VALUES);
@@ -1180,6 +1183,7 @@ public:
         create();
         setSizes(local_rows, local_cols, global_rows, global_cols);
         setType(matrix_type);
+        getSizes();
 
         // Fill parallel matrix
         setValues(vectorRange(0, global_rows-1), vectorRange(0, global_cols-1), serial_matrix, INSERT_VALUES);
@@ -1310,6 +1314,12 @@ public:
         return MatSetSizes(mat, local_rows, local_cols, global_rows, global_cols);
     }
 
+    Petsc::ErrorCode getSizes() {
+        MatSetUp(mat);
+        MatGetLocalSize(mat, &local_rows, &local_cols);
+        return MatGetSize(mat, &global_rows, &global_cols);
+    }
+
     Petsc::ErrorCode setType(Petsc::MatType matrix_type) {
         return MatSetType(mat, matrix_type);
     }
-- 
2.43.0


From b81cdc58c9d29676df28d08e3add0b79b9b5e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:44 +0000
Subject: [PATCH 16/28] fix: report an XML file that could not be opened or
 written

---
 src/XMLTree.cpp | 6 ++++++
 src/XMLTree.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/XMLTree.cpp b/src/XMLTree.cpp
index 3582d1a..2f18de2 100644
--- a/src/XMLTree.cpp
+++ b/src/XMLTree.cpp
@@ -33,9 +33,15 @@ XMLTree::XMLTree(XMLNode& root) :
 void XMLTree::write(std::string filename) {
     std::ofstream file;
     file.open(filename);
+    if (!file.is_open()) {
+        throw std::runtime_error("[EllipticForest::XMLTree::write] Could not open file: " + filename);
+    }
     file << "<?xml version=\"1.0\"?>" << std::endl;
     write_(file, *root_, "");
     file.close();
+    if (!file) {
+        throw std::runtime_error("[EllipticForest::XMLTree::write] Could not write file: " + filename);
+    }
 }
 
 void XMLTree::write_(std::ofstream& file, XMLNode& node, std::string prefix) {
diff --git a/src/XMLTree.hpp b/src/XMLTree.hpp
index 00b6f70..1a2aec1 100644
--- a/src/XMLTree.hpp
+++ b/src/XMLTree.hpp
@@ -3,6 +3,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
-- 
2.43.0


From 93c4d2bb959c7ec6552f5cf8da0fa69222f3fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:44 +0000
Subject: [PATCH 17/28] fix: report a quadtree file that could not be written

---
 src/Mesh.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 54d6e68..c845e20 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -427,7 +427,9 @@ public:
         p4est_vtk_context_t* vtk_context = p4est_vtk_context_new(quadtree.p4est, quadtreeFilename.c_str());
         p4est_vtk_context_set_scale(vtk_context, 1.0);
         vtk_context = p4est_vtk_write_header(vtk_context);
-        p4est_vtk_write_footer(vtk_context);
+        if (vtk_context == NULL || p4est_vtk_write_footer(vtk_context)) {
+            throw std::runtime_error("[EllipticForest::Mesh::toVTK] Could not write files for: " + quadtreeFilename);
+        }
     }
 
 private:
-- 
2.43.0


From 6a3c653cc4f657e88ec11c50982222051bc99c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:44 +0000
Subject: [PATCH 18/28] fix: write VTK files under the given name, whatever its
 length and characters

---
 src/VTK.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index dfc2561..1746961 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -238,11 +238,9 @@ void PUnstructuredGridVTK::addCellData(DataArrayNodeBase& cell_data) {
 void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
     // All ranks write individual file
-    char str_buffer[256];
-    std::string filename = filenameBase + "_%04i.vtu";
-    snprintf(str_buffer, 256, filename.c_str(), this->getRank());
-    filename = std::string(str_buffer);
-    vtu.toVTK(filename);
+    char str_buffer[32];
+    snprintf(str_buffer, 32, "_%04i.vtu", this->getRank());
+    vtu.toVTK(filenameBase + std::string(str_buffer));
 
     // Head rank writes metadata file
     if (this->getRank() == MPI::HEAD_RANK) {
@@ -274,11 +272,9 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
-            filename = filenameBase + "_%04i.vtu";
-            snprintf(str_buffer, 256, filename.c_str(), i);
-            filename = std::string(str_buffer);
+            snprintf(str_buffer, 32, "_%04i.vtu", i);
             XMLNode node_piece("Piece");
-            node_piece.addAttribute("Source", filename);
+            node_piece.addAttribute("Source", filenameBase + std::string(str_buffer));
             node_piece_vector.push_back(node_piece);
         }
 
-- 
2.43.0


From 20ab537790a02c8b9f795c90b649cc71af675769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:44 +0000
Subject: [PATCH 19/28] fix: write parallel VTK files with their own type and
 pieces relative to them

---
 src/VTK.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 1746961..b5278cc 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -210,7 +210,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
 PUnstructuredGridVTK::PUnstructuredGridVTK() :
     MPIObject{MPI_COMM_WORLD},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
@@ -218,7 +218,7 @@ PUnstructuredGridVTK::PUnstructuredGridVTK() :
 PUnstructuredGridVTK::PUnstructuredGridVTK(MPI_Comm comm) :
     MPIObject{comm},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
@@ -270,11 +270,13 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
             node_p_cell_data.addAttribute("Scalars", names);
         }
 
+        // Piece files are named relative to the metadata file
+        std::string pieceBase = filenameBase.substr(filenameBase.find_last_of('/') + 1);
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
             snprintf(str_buffer, 32, "_%04i.vtu", i);
             XMLNode node_piece("Piece");
-            node_piece.addAttribute("Source", filenameBase + std::string(str_buffer));
+            node_piece.addAttribute("Source", pieceBase + std::string(str_buffer));
             node_piece_vector.push_back(node_piece);
         }
 
-- 
2.43.0


From f0f7718a48753be94c52d7f4d95a1a487e9bd1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:44 +0000
Subject: [PATCH 20/28] fix: escape attribute values in XML files

---
 src/XMLTree.cpp | 16 +++++++++++++++-
 src/XMLTree.hpp |  8 ++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/XMLTree.cpp b/src/XMLTree.cpp
index 2f18de2..066c9c6 100644
--- a/src/XMLTree.cpp
+++ b/src/XMLTree.cpp
@@ -44,13 +44,27 @@ void XMLTree::write(std::string filename) {
     }
 }
 
+std::string XMLTree::escape_(const std::string& value) {
+    std::string escaped = "";
+    for (auto c : value) {
+        switch (c) {
+            case '&': escaped += "&amp;"; break;
+            case '<': escaped += "&lt;"; break;
+            case '>': escaped += "&gt;"; break;
+            case '"': escaped += "&quot;"; break;
+            default: escaped += c;
+        }
+    }
+    return escaped;
+}
+
 void XMLTree::write_(std::ofstream& file, XMLNode& node, std::string prefix) {
 
     // Write header
     std::string header = prefix;
     header += "<" + node.name + " ";
     for (auto& attributePair : node.attributes) {
-        header += attributePair.first + "=\"" + attributePair.second + "\" ";
+        header += attributePair.first + "=\"" + escape_(attributePair.second) + "\" ";
     }
     header.pop_back(); // Remove last space
     header += ">";
diff --git a/src/XMLTree.hpp b/src/XMLTree.hpp
index 1a2aec1..9cec9d0 100644
--- a/src/XMLTree.hpp
+++ b/src/XMLTree.hpp
@@ -134,6 +134,14 @@ private:
      */
     void write_(std::ofstream& file, XMLNode& node, std::string prefix);
 
+    /**
+     * @brief Escapes the characters of an attribute value that have a meaning in XML
+     * 
+     * @param value Attribute value
+     * @return std::string 
+     */
+    std::string escape_(const std::string& value);
+
 };
 
 
-- 
2.43.0


From b9a1c560818a8be5142665b919afc294c1eb47f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:44 +0000
Subject: [PATCH 21/28] fix: let a VTK writer write more than once

---
 src/VTK.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index b5278cc..dea2941 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -101,6 +101,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
         XMLNode node_coordinates("Coordinates");
         
+        root_.children.clear();
         root_.addChild(node_rectilinear_grid);
         node_rectilinear_grid.addChild(node_piece);
         if (!cell_data_vector_.empty()) node_piece.addChild(node_cell_data);
@@ -184,6 +185,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
             node_point_data.addAttribute("Scalars", names);
         }
 
+        root_.children.clear();
         root_.addChild(node_unstructured_grid);
             node_unstructured_grid.addChild(node_piece);
                 node_piece.addChild(node_points);
@@ -281,6 +283,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         }
 
         // Build structure
+        root_.children.clear();
         root_.addChild(node_p_unstructured_grid);
             node_p_unstructured_grid.addChild(node_p_points);
                 node_p_points.addChild(mesh.getPoints().toPVTK());
-- 
2.43.0


From a74569d6774c9921b24eb58061b79667864d801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:22 +0000
Subject: [PATCH 22/28] fix: give option values the type they are written with

Text became an empty string, as did negative integers and numbers with
an exponent but no decimal; text with a full stop in it, or no value at
all, threw.
---
 src/Options.cpp | 43 +++++++++++++++++++++++++++++++++++++------
 src/Options.hpp |  4 ++--
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index c15d3cb..6f3b663 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -100,18 +100,49 @@ Options::OptionTypes Options::checkValue(std::string value) {
     else if (isInt(value)) {
         return (int) std::stoi(value);
     }
-    return {};
+    return value;
+}
+
+/**
+ * @brief Checks that the whole string is a decimal number, and which parts it has
+ */
+static bool scanNumber(const std::string& str, bool& has_point, bool& has_exponent) {
+    size_t i = 0;
+    auto digits = [&]() {
+        size_t start = i;
+        while (i < str.length() && std::isdigit((unsigned char) str[i])) i++;
+        return i - start;
+    };
+    auto sign = [&]() {
+        if (i < str.length() && (str[i] == '+' || str[i] == '-')) i++;
+    };
+
+    has_point = has_exponent = false;
+    sign();
+    size_t n_digits = digits();
+    if (i < str.length() && str[i] == '.') {
+        has_point = true;
+        i++;
+        n_digits += digits();
+    }
+    if (n_digits == 0) return false;
+    if (i < str.length() && (str[i] == 'e' || str[i] == 'E')) {
+        has_exponent = true;
+        i++;
+        sign();
+        if (digits() == 0) return false;
+    }
+    return i == str.length();
 }
 
 bool Options::isDouble(std::string& str) {
-    return str.find('.') != std::string::npos;
+    bool has_point, has_exponent;
+    return scanNumber(str, has_point, has_exponent) && (has_point || has_exponent);
 }
 
 bool Options::isInt(std::string& str) {
-    for (auto c : str) {
-        if (!std::isdigit(c)) return false;
-    }
-    return true;
+    bool has_point, has_exponent;
+    return scanNumber(str, has_point, has_exponent) && !has_point && !has_exponent;
 }
 
 } // NAMESPACE : EllipticForest
\ No newline at end of file
diff --git a/src/Options.hpp b/src/Options.hpp
index 2b821af..187d36b 100644
--- a/src/Options.hpp
+++ b/src/Options.hpp
@@ -88,7 +88,7 @@ public:
     OptionTypes checkValue(std::string value);
 
     /**
-     * @brief Checks if the string is a floating point number (i.e., contains a decimal)
+     * @brief Checks if the string is a floating point number (i.e., contains a decimal or an exponent)
      * 
      * @param str Number as string
      * @return true 
@@ -97,7 +97,7 @@ public:
     bool isDouble(std::string& str);
 
     /**
-     * @brief Checks if the string is an integer (i.e., does not have a decimal)
+     * @brief Checks if the string is an integer (i.e., does not have a decimal or an exponent)
      * 
      * @param str Number as string
      * @return true 
-- 
2.43.0


From ed30042797144a24c2af237c1780a2abfa4d9072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:22 +0000
Subject: [PATCH 23/28] fix: report an options file that cannot be opened or
 read

---
 src/Options.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Options.cpp b/src/Options.cpp
index 6f3b663..20b72a8 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -42,6 +42,9 @@ std::ostream& operator<<(std::ostream& os, const Options& options) {
 
 void Options::readINIFile(std::string filename, std::string section) {
     std::ifstream infile(filename);
+    if (!infile.is_open()) {
+        throw std::runtime_error("[EllipticForest] Could not open options file `" + filename + "`");
+    }
 
     std::string line;
     bool read_section = false;
@@ -80,6 +83,10 @@ void Options::readINIFile(std::string filename, std::string section) {
         }
     }
 
+    if (infile.bad()) {
+        throw std::runtime_error("[EllipticForest] Could not read options file `" + filename + "`");
+    }
+
     infile.close();
 }
 
-- 
2.43.0


From d51cd40eba3467593ae1324e2dc7efa73c17c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:22 +0000
Subject: [PATCH 24/28] fix: keep the spaces inside an option's value and
 accept CRLF line ends

The section header of a file with CRLF line ends was not recognised, so
that no option of the file was read.
---
 src/Options.cpp | 7 ++++---
 src/Options.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 20b72a8..b982091 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -50,8 +50,8 @@ void Options::readINIFile(std::string filename, std::string section) {
     bool read_section = false;
     while (std::getline(infile, line)) {
         // Remove any leading and trailing whitespaces
-        line.erase(0, line.find_first_not_of(" \t"));
-        line.erase(line.find_last_not_of(" \t") + 1);
+        line.erase(0, line.find_first_not_of(" \t\r"));
+        line.erase(line.find_last_not_of(" \t\r") + 1);
 
         // Ignore blank lines and comments
         if (line.length() == 0 || line[0] == ';') {
@@ -91,7 +91,8 @@ void Options::readINIFile(std::string filename, std::string section) {
 }
 
 void Options::stripWhitespace(std::string& str) {
-    str.erase(std::remove_if(str.begin(), str.end(), ::isspace), str.end());
+    str.erase(0, str.find_first_not_of(" \t\r"));
+    str.erase(str.find_last_not_of(" \t\r") + 1);
 }
 
 Options::OptionTypes Options::checkValue(std::string value) {
diff --git a/src/Options.hpp b/src/Options.hpp
index 187d36b..4220250 100644
--- a/src/Options.hpp
+++ b/src/Options.hpp
@@ -128,7 +128,7 @@ private:
     void readINIFile(std::string filename, std::string section);
 
     /**
-     * @brief Removes whitespace from string
+     * @brief Removes leading and trailing whitespace from string
      * 
      * @param str String with whitespace
      */
-- 
2.43.0


From f29b0c0764dd5c85ff66bbedeec96d736b44ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:17 +0000
Subject: [PATCH 25/28] fix: set the application instance under its mutex

A thread creating the default instance at the same moment could replace
the application object the program had constructed.
---
 src/EllipticForestApp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/EllipticForestApp.cpp b/src/EllipticForestApp.cpp
index 98e405b..78e47e6 100644
--- a/src/EllipticForestApp.cpp
+++ b/src/EllipticForestApp.cpp
@@ -29,6 +29,7 @@ EllipticForestApp::EllipticForestApp(int* argc, char*** argv) :
     if (myRank == 0) {
         std::cout << "[EllipticForest] Welcome to EllipticForest!" << std::endl;
     }
+    std::lock_guard<std::mutex> lock(mutex_);
     this->actualClassPointer_ = this;
 }
 
-- 
2.43.0


From 0259120b750cc500ef2dced9ee33c1f4d0b83100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:51 +0000
Subject: [PATCH 26/28] fix: write VTK files on ranks without cells

The range of an empty array was taken from its end iterator.
---
 src/Vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index c954bb2..9c2371d 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -727,6 +727,7 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMin() {
+        if (data_.empty()) return std::to_string(NumericalType(0));
         NumericalType min = *std::min_element(data_.begin(), data_.end());
         return std::to_string(min);
     }
@@ -737,6 +738,7 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMax() {
+        if (data_.empty()) return std::to_string(NumericalType(0));
         NumericalType max = *std::max_element(data_.begin(), data_.end());
         return std::to_string(max);
     }
-- 
2.43.0


From e5d28c88fc43e993fbdfa1107854d83d8c1cab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:38 +0000
Subject: [PATCH 27/28] fix: build the cached leaf operator anew in each build
 stage

---
 src/HPSAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index 408b349..61f344b 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -125,6 +125,9 @@ public:
         app.addTimer("build-stage");
         app.timers["build-stage"].start();
 
+        // Leaves share operators within this build; those of an earlier build may be of another problem
+        matrixCache = DataCache<Matrix<NumericalType>>{};
+
         mesh.quadtree.merge(
             [&](Node<PatchType>* leaf_node){
                 // app.log("Leaf callback: path = " + leaf_node->path);
-- 
2.43.0


From 20d2ffef613dc15eeedba34d14f2d86518828ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:30:11 +0000
Subject: [PATCH 28/28] fix: end MPI once when PETSc has started it

---
 src/EllipticForestApp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/EllipticForestApp.cpp b/src/EllipticForestApp.cpp
index 78e47e6..15ad122 100644
--- a/src/EllipticForestApp.cpp
+++ b/src/EllipticForestApp.cpp
@@ -55,8 +55,9 @@ EllipticForestApp::~EllipticForestApp() {
     if (!isMPIFinalized) {
 #if USE_PETSC
         PetscFinalize();
+        MPI_Finalized(&isMPIFinalized); // PETSc ends MPI if it has started it
 #endif
-        MPI_Finalize();
+        if (!isMPIFinalized) MPI_Finalize();
     }
 }
 
-- 
2.43.0

