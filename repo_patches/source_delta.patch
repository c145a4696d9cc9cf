From 024a5a386b55f30bba1d69863c2d1b88661d8ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 01/29] fix: reject an index equal to the size in Vector
 accessors

---
 src/Vector.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4e72305..5a7f2fe 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -144,7 +144,7 @@ public:
      * @return NumericalType Value of entry
      */
     NumericalType getEntry(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getEntry] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -164,7 +164,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator[](std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -184,7 +184,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     const NumericalType& operator[](std::size_t index) const {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator[]] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -204,7 +204,7 @@ public:
      * @return NumericalType& Reference to value in vector
      */
     NumericalType& operator()(std::size_t index) {
-        if (index > size_ || index < 0) {
+        if (index >= size_ || index < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `index` is out of range:\n";
             errorMessage += "\tindex = " + std::to_string(index) + "\n";
             errorMessage += "\tsize = " + std::to_string(size_) + "\n";
@@ -259,7 +259,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> getRange(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || a < 0 || b < 0) {
             std::string errorMessage = "[EllipticForest::Vector::getRange] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -285,7 +285,7 @@ public:
      * @return Vector<NumericalType> Vector of size `(b - a) + 1` with entries
      */
     Vector<NumericalType> operator()(std::size_t a, std::size_t b) {
-        if (a > size_ || b > size_ || a < 0 || b < 0) {
+        if (a >= size_ || b >= size_ || a < 0 || b < 0) {
             std::string errorMessage = "[EllipticForest::Vector::operator()] `a` or `b` is outside of range of vector:\n";
             errorMessage += "\ta = " + std::to_string(a) + "\n";
             errorMessage += "\tb = " + std::to_string(b) + "\n";
@@ -377,7 +377,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
@@ -409,7 +409,7 @@ public:
 
         Vector<NumericalType> res(I.size());
         for (auto i = 0; i < I.size(); i++) {
-            if (I[i] > size_ || I[i] < 0) {
+            if (I[i] >= size_ || I[i] < 0) {
                 std::string errorMessage = "[EllipticForest::Vector::operator()] Index in `I` is out of range:\n";
                 errorMessage += "\ti = " + std::to_string(i) + "\n";
                 errorMessage += "\tI[i] = " + std::to_string(I[i]) + "\n";
-- 
2.43.0


From f2322291876796d0e0f2adfd4a0196dc555b88e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 02/29] fix: Vector::getRange returns the entries of the range,
 not their indices

---
 src/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 5a7f2fe..4c3c9e3 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -270,7 +270,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
@@ -296,7 +296,7 @@ public:
 
         Vector<NumericalType> v((b - a) + 1);
         for (auto i = 0; i < v.size(); i++) {
-            v(i) = a + i;
+            v(i) = data_[a + i];
         }
         return v;
     }
-- 
2.43.0


From eea7bc59827cf82442377e93df9a2bee723d3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 03/29] fix: reject row and column indices equal to the
 dimensions in Matrix accessors

---
 src/Matrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 6906d8a..bb89c42 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -369,7 +369,7 @@ public:
      * @param vec Vector to set
      */
     void setRow(std::size_t row_index, Vector<NumericalType>& vec) {
-        if (row_index > nrows_) {
+        if (row_index >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::setRow] `row_index` exceeds matrix size:\n";
             error_msg += "\trowIndex = " + std::to_string(row_index) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
@@ -397,7 +397,7 @@ public:
      * @param vec Vector to set
      */
     void setColumn(std::size_t col_index, Vector<NumericalType>& vec) {
-        if (col_index > ncols_) {
+        if (col_index >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::setColumn] `col_index` exceeds matrix size:\n";
             error_msg += "\tcolIndex = " + std::to_string(col_index) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
@@ -709,14 +709,14 @@ private:
      * @return std::size_t 
      */
     std::size_t flattenIndex_(std::size_t i, std::size_t j) {
-        if (i < 0 || i > nrows_) {
+        if (i < 0 || i >= nrows_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `i` is outside of range:\n";
             error_msg += "\ti = " + std::to_string(i) + "\n";
             error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
             std::cerr << error_msg << std::endl;
             throw std::out_of_range(error_msg);
         }
-        if (j < 0 || j > ncols_) {
+        if (j < 0 || j >= ncols_) {
             std::string error_msg = "[EllipticForest::Matrix::flattenIndex] Index `j` is outside of range:\n";
             error_msg += "\tj = " + std::to_string(j) + "\n";
             error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
-- 
2.43.0


From 5640dcd793a65cc4e9361fdb3d0fa2577a655d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 04/29] fix: Matrix::getFromIndexSet throws on an index outside
 the matrix

---
 src/Matrix.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index bb89c42..98b8202 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -332,17 +332,21 @@ public:
         Matrix<NumericalType> res(I.size(), J.size());
         for (auto i = 0; i < I.size(); i++) {
             for (auto j = 0; j < J.size(); j++) {
-                if (I[i] > nrows_ || I[i] < 0) {
+                if (I[i] >= nrows_ || I[i] < 0) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `I` is out of range:\n";
                     error_msg += "\ti = " + std::to_string(i) + "\n";
                     error_msg += "\tI[i] = " + std::to_string(I[i]) + "\n";
                     error_msg += "\tnrows = " + std::to_string(nrows_) + "\n";
+                    std::cerr << error_msg << std::endl;
+                    throw std::out_of_range(error_msg);
                 }
-                if (J[j] > ncols_ || J[j] < 0) {
+                if (J[j] >= ncols_ || J[j] < 0) {
                     std::string error_msg = "[EllipticForest::Matrix::getFromIndexSet] Index in `J` is out of range:\n";
                     error_msg += "\tj = " + std::to_string(j) + "\n";
                     error_msg += "\tJ[j] = " + std::to_string(J[j]) + "\n";
                     error_msg += "\tncols = " + std::to_string(ncols_) + "\n";
+                    std::cerr << error_msg << std::endl;
+                    throw std::out_of_range(error_msg);
                 }
                 res(i,j) = operator()(I[i], J[j]);
             }
-- 
2.43.0


From 7d145b5470d8a8dab68b42bcc3db0cc3f34d45c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 05/29] fix: Matrix::operator*= multiplies

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 98b8202..28b9622 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -697,7 +697,7 @@ public:
     Matrix<NumericalType>& operator*=(NumericalType rhs) {
         for (auto i = 0; i < nrows_; i++) {
             for (auto j = 0; j < ncols_; j++) {
-                operator()(i, j) += rhs;
+                operator()(i, j) *= rhs;
             }
         }
         return *this;
-- 
2.43.0


From 0acf61de47fe951acbd05b0638e07392bacd78a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 06/29] fix: Matrix::getCol copies every row of the column

---
 src/Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 28b9622..848328b 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -300,7 +300,7 @@ public:
     Vector<NumericalType> getCol(std::size_t col_index) {
         Vector<NumericalType> res(nrows_);
         Matrix<NumericalType> colMatrix = operator()(0, nrows_ - 1, col_index, col_index);
-        for (auto i = 0; i < ncols_; i++) {
+        for (auto i = 0; i < nrows_; i++) {
             res[i] = colMatrix(i, 0);
         }
         return res;
-- 
2.43.0


From 3e52314eca9e11de2449b472dce2b4300f6ba8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:13 +0000
Subject: [PATCH 07/29] fix: count the coarsenings of a merge from its freshly
 built operators, so a rebuild on an adaptive mesh works

---
 src/HPSAlgorithm.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HPSAlgorithm.hpp b/src/HPSAlgorithm.hpp
index c5456a7..47431a1 100644
--- a/src/HPSAlgorithm.hpp
+++ b/src/HPSAlgorithm.hpp
@@ -706,8 +706,11 @@ private:
      */
     void coarsen_(PatchType& tau, PatchType& alpha, PatchType& beta, PatchType& gamma, PatchType& omega) {
 
-        // Check for adaptivity
+        // The children's operators are freshly built, so nothing has been coarsened yet
         std::vector<PatchType*> patch_pointers = {&alpha, &beta, &gamma, &omega};
+        for (auto* patch : patch_pointers) patch->n_coarsens = 0;
+
+        // Check for adaptivity
         Vector<int> tags = tagPatchesForCoarsening_(tau, alpha, beta, gamma, omega);
 
         // Iterate over patches
-- 
2.43.0


From 81c68a985ff736f58c329ae834194e2f551696c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:59 +0000
Subject: [PATCH 08/29] fix: the application object finalizes only the
 libraries it initialized

---
 src/EllipticForestApp.cpp | 26 +++++++++++++++++++-------
 src/EllipticForestApp.hpp | 12 ++++++++++++
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/EllipticForestApp.cpp b/src/EllipticForestApp.cpp
index 98e405b..19779a4 100644
--- a/src/EllipticForestApp.cpp
+++ b/src/EllipticForestApp.cpp
@@ -14,9 +14,17 @@ EllipticForestApp::EllipticForestApp(int* argc, char*** argv) :
 
     int isMPIIntialized;
     MPI_Initialized(&isMPIIntialized);
-    if (!isMPIIntialized) MPI_Init(argc_, argv_);
+    if (!isMPIIntialized) {
+        MPI_Init(argc_, argv_);
+        ownsMPI_ = true;
+    }
 #if USE_PETSC
-    PetscInitialize(argc_, argv_, NULL, NULL);
+    PetscBool isPetscInitialized;
+    PetscInitialized(&isPetscInitialized);
+    if (!isPetscInitialized) {
+        PetscInitialize(argc_, argv_, NULL, NULL);
+        ownsPetsc_ = true;
+    }
     PetscGetArgs(argc_, argv_);
 #endif
 
@@ -36,9 +44,10 @@ EllipticForestApp::~EllipticForestApp() {
     timers["app-lifetime"].stop();
 
     int myRank = 0;
-    int isMPIFinalized;
+    int isMPIInitialized, isMPIFinalized;
+    MPI_Initialized(&isMPIInitialized);
     MPI_Finalized(&isMPIFinalized);
-    if (!isMPIFinalized) {
+    if (isMPIInitialized && !isMPIFinalized) {
         MPI_Comm_rank(MPI_COMM_WORLD, &myRank);
     }
     
@@ -51,11 +60,14 @@ EllipticForestApp::~EllipticForestApp() {
         std::cout << "[EllipticForest] Done!" << std::endl;
     }
 
-    if (!isMPIFinalized) {
+    // Finalize only what this object initialized
+    if (isMPIInitialized && !isMPIFinalized) {
 #if USE_PETSC
-        PetscFinalize();
+        PetscBool isPetscInitialized;
+        PetscInitialized(&isPetscInitialized);
+        if (ownsPetsc_ && isPetscInitialized) PetscFinalize();
 #endif
-        MPI_Finalize();
+        if (ownsMPI_) MPI_Finalize();
     }
 }
 
diff --git a/src/EllipticForestApp.hpp b/src/EllipticForestApp.hpp
index 45a4dd5..488a6e2 100644
--- a/src/EllipticForestApp.hpp
+++ b/src/EllipticForestApp.hpp
@@ -134,6 +134,18 @@ private:
      */
     char*** argv_;
 
+    /**
+     * @brief True if this object initialized MPI (and has to finalize it)
+     * 
+     */
+    bool ownsMPI_ = false;
+
+    /**
+     * @brief True if this object initialized PETSc (and has to finalize it)
+     * 
+     */
+    bool ownsPetsc_ = false;
+
 };
 
 
-- 
2.43.0


From 06d7eea1f331b382c4461dd6fe1ec08e9c4d5b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:10 +0000
Subject: [PATCH 09/29] fix: a destroyed application object is not handed out
 as the instance

---
 src/EllipticForestApp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/EllipticForestApp.cpp b/src/EllipticForestApp.cpp
index 19779a4..1de7303 100644
--- a/src/EllipticForestApp.cpp
+++ b/src/EllipticForestApp.cpp
@@ -69,6 +69,9 @@ EllipticForestApp::~EllipticForestApp() {
 #endif
         if (ownsMPI_) MPI_Finalize();
     }
+
+    // Do not hand out a destroyed instance
+    if (this->actualClassPointer_ == this) this->actualClassPointer_ = nullptr;
 }
 
 void EllipticForestApp::addTimer(std::string name) {
-- 
2.43.0


From 6e3ee2ee5470d51c2bba596c6f8591900c27f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:49:15 +0000
Subject: [PATCH 10/29] fix: broadcast of a string sizes the receiver's string
 instead of reading past its end

---
 src/MPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 6998e60..4016af3 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -68,7 +68,7 @@ int broadcast<std::string>(std::string& str, int root, MPI_Comm comm) {
     int rank; MPI_Comm_rank(comm, &rank);
     int size = str.length();
     broadcast(size, root, comm);
-    if (rank != root) str = std::string(TypeTraits<std::string>::getAddress(str), size);
+    if (rank != root) str.resize(size);
     return MPI_Bcast(TypeTraits<std::string>::getAddress(str), TypeTraits<std::string>::getSize(str), TypeTraits<std::string>::getType(str), root, comm);
 }
 
-- 
2.43.0


From fd3e60792071ac254aeb5a4c0cc99fe95b482c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:49:15 +0000
Subject: [PATCH 11/29] fix: allgatherv passes displacements and datatype in
 the library's order

---
 src/MPI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MPI.hpp b/src/MPI.hpp
index 28d374b..ec3f417 100644
--- a/src/MPI.hpp
+++ b/src/MPI.hpp
@@ -295,7 +295,7 @@ int allgather(T& send_data, T& recv_data, int recv_count, Communicator comm) {
  */
 template<class T>
 int allgatherv(T& send_data, T& recv_data, std::vector<int> recv_counts, std::vector<int> displacements, Communicator comm) {
-    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), TypeTraits<T>::getType(recv_data), displacements.data(), comm);
+    return MPI_Allgatherv(TypeTraits<T>::getAddress(send_data), TypeTraits<T>::getSize(send_data), TypeTraits<T>::getType(send_data), TypeTraits<T>::getAddress(recv_data), recv_counts.data(), displacements.data(), TypeTraits<T>::getType(recv_data), comm);
 }
 
 /**
-- 
2.43.0


From bf119cfb02da42c33c40c400e871164162704a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:01:28 +0000
Subject: [PATCH 12/29] fix: leaf solver on patches with different cell counts
 per direction

The west and east sides have ny entries and the south and north sides nx; the solver used nx for all four and read past the boundary data when ny < nx, and mapD2N used nx for the interior cells as well.
---
 .../FiniteVolume/FiniteVolumeSolver.cpp       | 87 ++++++++++---------
 1 file changed, 46 insertions(+), 41 deletions(-)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index 676bd2c..f606415 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -26,11 +26,12 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
 
     if (solver_type == FiniteVolumeSolverType::FivePointStencil) {
         // Unpack Dirichlet data
-        int nside = grid.nx();
-        Vector<double> g_west = dirichlet_data.getSegment(0*nside, nside);
-        Vector<double> g_east = dirichlet_data.getSegment(1*nside, nside);
-        Vector<double> g_south = dirichlet_data.getSegment(2*nside, nside);
-        Vector<double> g_north = dirichlet_data.getSegment(3*nside, nside);
+        int nside_x = grid.nx();
+        int nside_y = grid.ny();
+        Vector<double> g_west = dirichlet_data.getSegment(0, nside_y);
+        Vector<double> g_east = dirichlet_data.getSegment(nside_y, nside_y);
+        Vector<double> g_south = dirichlet_data.getSegment(2*nside_y, nside_x);
+        Vector<double> g_north = dirichlet_data.getSegment(2*nside_y + nside_x, nside_x);
 
         // Unpack grid data
         int nx = grid.nx();
@@ -224,17 +225,18 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
     else if (solver_type == FiniteVolumeSolverType::FISHPACK90) {
         
         // Unpack Dirichlet Data
-        int nside = grid.nx();
-        Vector<double> g_west = dirichlet_data.getSegment(0*nside, nside);
-        Vector<double> g_east = dirichlet_data.getSegment(1*nside, nside);
-        Vector<double> g_south = dirichlet_data.getSegment(2*nside, nside);
-        Vector<double> g_north = dirichlet_data.getSegment(3*nside, nside);
+        int nside_x = grid.nx();
+        int nside_y = grid.ny();
+        Vector<double> g_west = dirichlet_data.getSegment(0, nside_y);
+        Vector<double> g_east = dirichlet_data.getSegment(nside_y, nside_y);
+        Vector<double> g_south = dirichlet_data.getSegment(2*nside_y, nside_x);
+        Vector<double> g_north = dirichlet_data.getSegment(2*nside_y + nside_x, nside_x);
 
         // Transpose RHS data for FORTRAN call
-        Vector<double> fT(nside * nside);
+        Vector<double> fT(nside_x * nside_y);
         for (int i = 0; i < grid.nx(); i++) {
             for (int j = 0; j < grid.ny(); j++) {
-                fT[i + j*nside] = rhs_data[j + i*nside];
+                fT[i + j*nside_x] = rhs_data[j + i*nside_y];
             }
         }
 
@@ -279,7 +281,7 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         for (int i = 0; i < grid.nx(); i++) {
             for (int j = 0; j < grid.ny(); j++) {
                 // solution[j + i*nside] = F[i + j*nside];
-                solution[j + i*nside] = F[i + j*nside];
+                solution[j + i*nside_y] = F[i + j*nside_x];
             }
         }
 
@@ -296,34 +298,35 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
 Vector<double> FiniteVolumeSolver::mapD2N(FiniteVolumeGrid& grid, Vector<double>& dirichlet_data, Vector<double>& rhs_data) {
 
     // Unpack grid data
-	int nside = grid.nx();
+	int nside_x = grid.nx();
+	int nside_y = grid.ny();
 
 	// Unpack Dirichlet data
-	Vector<double> g_west = dirichlet_data.getSegment(0*nside, nside);
-	Vector<double> g_east = dirichlet_data.getSegment(1*nside, nside);
-	Vector<double> g_south = dirichlet_data.getSegment(2*nside, nside);
-	Vector<double> g_north = dirichlet_data.getSegment(3*nside, nside);
+	Vector<double> g_west = dirichlet_data.getSegment(0, nside_y);
+	Vector<double> g_east = dirichlet_data.getSegment(nside_y, nside_y);
+	Vector<double> g_south = dirichlet_data.getSegment(2*nside_y, nside_x);
+	Vector<double> g_north = dirichlet_data.getSegment(2*nside_y + nside_x, nside_x);
 
 	// Compute solution on interior nodes
 	Vector<double> u = solve(grid, dirichlet_data, rhs_data);
 
 	// Get interior edge cell data and compute Neumann data
 	//    Interior cell data
-	Vector<double> u_west(nside);
-	Vector<double> u_east(nside);
-	Vector<double> u_south(nside);
-	Vector<double> u_north(nside);
+	Vector<double> u_west(nside_y);
+	Vector<double> u_east(nside_y);
+	Vector<double> u_south(nside_x);
+	Vector<double> u_north(nside_x);
 	
 	//    Fill interior cell data
-	for (int j = 0; j < nside; j++) {
+	for (int j = 0; j < nside_y; j++) {
         int idxW = j;
-        int idxE = (nside-1)*nside + j;
+        int idxE = (nside_x-1)*nside_y + j;
 		u_west[j] = u[idxW];
 		u_east[j] = u[idxE];
 	}
-	for (int i = 0; i < nside; i++) {
-        int idxS = i*nside;
-        int idxN = (i+1)*nside - 1;
+	for (int i = 0; i < nside_x; i++) {
+        int idxS = i*nside_y;
+        int idxN = (i+1)*nside_y - 1;
 		u_south[i] = u[idxS];
 		u_north[i] = u[idxN];
 	}
@@ -331,23 +334,25 @@ Vector<double> FiniteVolumeSolver::mapD2N(FiniteVolumeGrid& grid, Vector<double>
 	//    Neumann data
 	double dtn_x = 2.0 / grid.dx();
 	double dtn_y = 2.0 / grid.dy();
-	Vector<double> h_west(nside);
-	Vector<double> h_east(nside);
-	Vector<double> h_south(nside);
-	Vector<double> h_north(nside);
-	for (int i = 0; i < nside; i++) {
-		h_west[i]  = (dtn_x)  * (u_west[i] - g_west[i]);
-		h_east[i]  = (-dtn_x) * (u_east[i] - g_east[i]);
+	Vector<double> h_west(nside_y);
+	Vector<double> h_east(nside_y);
+	Vector<double> h_south(nside_x);
+	Vector<double> h_north(nside_x);
+	for (int j = 0; j < nside_y; j++) {
+		h_west[j]  = (dtn_x)  * (u_west[j] - g_west[j]);
+		h_east[j]  = (-dtn_x) * (u_east[j] - g_east[j]);
+	}
+	for (int i = 0; i < nside_x; i++) {
 		h_south[i] = (dtn_y)  * (u_south[i] - g_south[i]);
 		h_north[i] = (-dtn_y) * (u_north[i] - g_north[i]);
 	}
 
 	//    Column stack and return
-	Vector<double> neumann_data(4*nside);
-	neumann_data.setSegment(0*nside, h_west);
-	neumann_data.setSegment(1*nside, h_east);
-	neumann_data.setSegment(2*nside, h_south);
-	neumann_data.setSegment(3*nside, h_north);
+	Vector<double> neumann_data(2*nside_y + 2*nside_x);
+	neumann_data.setSegment(0, h_west);
+	neumann_data.setSegment(nside_y, h_east);
+	neumann_data.setSegment(2*nside_y, h_south);
+	neumann_data.setSegment(2*nside_y + nside_x, h_north);
 	return neumann_data;
 
 }
@@ -355,10 +360,10 @@ Vector<double> FiniteVolumeSolver::mapD2N(FiniteVolumeGrid& grid, Vector<double>
 Matrix<double> FiniteVolumeSolver::buildD2N(FiniteVolumeGrid& grid) {
 
     std::size_t N = grid.nx();
-	std::size_t M = 4*N;
+	std::size_t M = 2*grid.nx() + 2*grid.ny();
 	Matrix<double> T(M, M);
 	Vector<double> e_hat_j(M, 0.0);
-	Vector<double> f_zero(N*N, 0.0);
+	Vector<double> f_zero(grid.nx()*grid.ny(), 0.0);
 	Vector<double> col_j(M);
 
 #if DTN_OPTIMIZE
-- 
2.43.0


From 403a245b808013450cba8027a808415e4e670aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:02:07 +0000
Subject: [PATCH 13/29] fix: release the PETSc index sets of a leaf solve and
 keep them on the rank

The permutations were created on MPI_COMM_WORLD although the solve is local to a rank, and neither they nor the array borrowed from the solution were given back.
---
 src/Patches/FiniteVolume/FiniteVolumeSolver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
index f606415..ef5a655 100644
--- a/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
+++ b/src/Patches/FiniteVolume/FiniteVolumeSolver.cpp
@@ -198,8 +198,8 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         IS row_perm, col_perm;
         Vector<int> idx_row = vectorRange(0, N-1);
         Vector<int> idx_col = vectorRange(0, N-1);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
-        ISCreateGeneral(MPI_COMM_WORLD, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_row.data().data(), PETSC_COPY_VALUES, &row_perm);
+        ISCreateGeneral(MPI_COMM_SELF, N, idx_col.data().data(), PETSC_COPY_VALUES, &col_perm);
         MatFactorInfo mat_factor_info;
         MatFactorInfoInitialize(&mat_factor_info);
 
@@ -213,8 +213,11 @@ Vector<double> FiniteVolumeSolver::solve(FiniteVolumeGrid& grid, Vector<double>&
         std::vector<double> xv;
         xv.assign(x_data, x_data + N);
         Vector<double> x_vector(xv);
+        VecRestoreArray(x, &x_data);
 
         // Clean up
+        ISDestroy(&row_perm);
+        ISDestroy(&col_perm);
         MatDestroy(&A);
         VecDestroy(&x);
         VecDestroy(&f);
-- 
2.43.0


From 87e1d41d80f48f2ccfda11e00150d0ab21719af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:28:03 +0000
Subject: [PATCH 14/29] fix: keep text values, signs and exponents when typing
 options

---
 src/Options.cpp | 16 ++++++++++------
 src/Options.hpp |  3 ++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index c15d3cb..e8a21d6 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -100,18 +100,22 @@ Options::OptionTypes Options::checkValue(std::string value) {
     else if (isInt(value)) {
         return (int) std::stoi(value);
     }
-    return {};
+    return value;
 }
 
 bool Options::isDouble(std::string& str) {
-    return str.find('.') != std::string::npos;
+    if (str.find_first_of("0123456789") == std::string::npos) return false;
+    if (str.find_first_not_of("0123456789+-.eE") != std::string::npos) return false;
+    if (str.find_first_of(".eE") == std::string::npos) return false;
+    char* end = nullptr;
+    std::strtod(str.c_str(), &end);
+    return *end == '\0';
 }
 
 bool Options::isInt(std::string& str) {
-    for (auto c : str) {
-        if (!std::isdigit(c)) return false;
-    }
-    return true;
+    size_t first = (!str.empty() && (str[0] == '+' || str[0] == '-')) ? 1 : 0;
+    if (first == str.length()) return false;
+    return str.find_first_not_of("0123456789", first) == std::string::npos;
 }
 
 } // NAMESPACE : EllipticForest
\ No newline at end of file
diff --git a/src/Options.hpp b/src/Options.hpp
index 2b821af..24c98aa 100644
--- a/src/Options.hpp
+++ b/src/Options.hpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <map>
 #include <fstream>
+#include <cstdlib>
 
 namespace EllipticForest {
 
@@ -88,7 +89,7 @@ public:
     OptionTypes checkValue(std::string value);
 
     /**
-     * @brief Checks if the string is a floating point number (i.e., contains a decimal)
+     * @brief Checks if the string is a floating point number (i.e., has a decimal point or an exponent)
      * 
      * @param str Number as string
      * @return true 
-- 
2.43.0


From 84d6ffb36a7375c0e3148534ff319f968beea3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:28:03 +0000
Subject: [PATCH 15/29] fix: type the values of short command-line options

---
 src/InputParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputParser.cpp b/src/InputParser.cpp
index 3bad9cb..2850df4 100644
--- a/src/InputParser.cpp
+++ b/src/InputParser.cpp
@@ -27,7 +27,7 @@ void InputParser::parse(Options& options) {
                 if (option.find('=') != std::string::npos) {
                     std::string value = option.substr(option.find('=') + 1);
                     option = option.substr(0, option.find('='));
-                    options[option] = value;
+                    options[option] = options.checkValue(value);
                 }
                 else {
                     options[option] = "";
-- 
2.43.0


From 923775f8c63ecdb6b7435c5dd02266411b3b4c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:28:16 +0000
Subject: [PATCH 16/29] fix: INI lines keep inner blanks and may end in CR LF

---
 src/Options.cpp | 6 +++---
 src/Options.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index e8a21d6..c41549f 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -47,8 +47,7 @@ void Options::readINIFile(std::string filename, std::string section) {
     bool read_section = false;
     while (std::getline(infile, line)) {
         // Remove any leading and trailing whitespaces
-        line.erase(0, line.find_first_not_of(" \t"));
-        line.erase(line.find_last_not_of(" \t") + 1);
+        stripWhitespace(line);
 
         // Ignore blank lines and comments
         if (line.length() == 0 || line[0] == ';') {
@@ -84,7 +83,8 @@ void Options::readINIFile(std::string filename, std::string section) {
 }
 
 void Options::stripWhitespace(std::string& str) {
-    str.erase(std::remove_if(str.begin(), str.end(), ::isspace), str.end());
+    str.erase(0, str.find_first_not_of(" \t\r"));
+    str.erase(str.find_last_not_of(" \t\r") + 1);
 }
 
 Options::OptionTypes Options::checkValue(std::string value) {
diff --git a/src/Options.hpp b/src/Options.hpp
index 24c98aa..70945b1 100644
--- a/src/Options.hpp
+++ b/src/Options.hpp
@@ -129,7 +129,7 @@ private:
     void readINIFile(std::string filename, std::string section);
 
     /**
-     * @brief Removes whitespace from string
+     * @brief Removes leading and trailing whitespace from string
      * 
      * @param str String with whitespace
      */
-- 
2.43.0


From bb97a0fe3029e8ee51522c5ec6193fb601bb58df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:53:17 +0000
Subject: [PATCH 17/29] fix: ParallelVector and ParallelMatrix give back every
 Petsc object exactly once

Copies shared the handle and both destroyed it; move assignment and a second
create() dropped the object already held.
---
 src/Matrix.hpp | 16 ++++++++++++++--
 src/Vector.hpp | 38 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index 848328b..ea7febf 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1249,11 +1249,20 @@ public:
         global_rows(other.global_rows),
         global_cols(other.global_cols),
         is_created(other.is_created),
-        mat(other.mat)
-            {}
+        mat(other.mat) {
+
+        // Copies share the Petsc matrix; every copy holds its own reference to it
+        if (is_created) {
+            PetscObjectReference((PetscObject) mat);
+        }
+
+    }
 
     ParallelMatrix& operator=(ParallelMatrix&& other) {
         if (this != &other) {
+            if (is_created) {
+                MatDestroy(&mat);
+            }
             MPIObject::operator=(std::move(other));
             local_rows = other.local_rows;
             local_cols = other.local_cols;
@@ -1301,6 +1310,9 @@ public:
     }
 
     Petsc::ErrorCode create() {
+        if (is_created) {
+            MatDestroy(&mat);
+        }
         is_created = true;
         return MatCreate(this->getComm(), &mat);
     }
diff --git a/src/Vector.hpp b/src/Vector.hpp
index 4c3c9e3..5822346 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -1021,7 +1021,7 @@ protected:
 
 public:
     
-    Petsc::Vec vec;
+    Petsc::Vec vec = NULL;
 
     ParallelVector() :
         MPIObject(MPI_COMM_WORLD)
@@ -1102,6 +1102,39 @@ public:
 
     // }
 
+    // Copies share the Petsc vector; every copy holds its own reference to it
+    ParallelVector(const ParallelVector& other) :
+        MPIObject(other.getComm()),
+        local_size(other.local_size),
+        global_size(other.global_size),
+        raw_data(other.raw_data),
+        is_created(other.is_created),
+        vec(other.vec) {
+
+        if (is_created) {
+            PetscObjectReference((PetscObject) vec);
+        }
+
+    }
+
+    ParallelVector& operator=(const ParallelVector& other) {
+        if (this != &other) {
+            if (other.is_created) {
+                PetscObjectReference((PetscObject) other.vec);
+            }
+            if (is_created) {
+                VecDestroy(&vec);
+            }
+            MPIObject::operator=(other);
+            local_size = other.local_size;
+            global_size = other.global_size;
+            raw_data = other.raw_data;
+            is_created = other.is_created;
+            vec = other.vec;
+        }
+        return *this;
+    }
+
     ~ParallelVector() {
         if (is_created) {
             VecDestroy(&vec);
@@ -1113,6 +1146,9 @@ public:
     }
     
     Petsc::ErrorCode create() {
+        if (is_created) {
+            VecDestroy(&vec);
+        }
         is_created = true;
         return VecCreate(this->getComm(), &vec);
     }
-- 
2.43.0


From b3daf28955def2cc62596899611b1db934890686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:53:17 +0000
Subject: [PATCH 18/29] fix: moving a ParallelMatrix to another communicator
 releases its temporaries and owns the result

---
 src/Matrix.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index ea7febf..edd30b0 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1229,6 +1229,10 @@ public:
             MatCreateSubMatrices(sub_matrix.mat, 1, irow, icol, MAT_REUSE_MATRIX, &submat);
             MatCreateMPIMatConcatenateSeqMat(new_comm, submat[0], PETSC_DECIDE, MAT_REUSE_MATRIX, &mat);
         }
+        is_created = true;
+        MatDestroySubMatrices(1, &submat);
+        ISDestroy(&irow[0]);
+        ISDestroy(&icol[0]);
 
     }
 
-- 
2.43.0


From 4a7e6e65f76c1c3a446e4ac18fdc11c5b62f519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:53:17 +0000
Subject: [PATCH 19/29] fix: communicatorSubsetRange names the communicator
 only on the ranks that belong to it

---
 src/MPI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MPI.cpp b/src/MPI.cpp
index 4016af3..2977e4d 100644
--- a/src/MPI.cpp
+++ b/src/MPI.cpp
@@ -29,7 +29,9 @@ void communicatorSubsetRange(Communicator super_comm, int r_first, int r_last, i
     MPI_Comm_get_name(super_comm, super_comm_name_buffer, &super_comm_name_size);
     std::string super_comm_name(super_comm_name_buffer, super_comm_name_size);
     std::string sub_comm_name = super_comm_name + "_sub_range={" + std::to_string(r_first) + ":" + std::to_string(r_last) + "}";
-    MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    if (*sub_comm != MPI_COMM_NULL) {
+        MPI_Comm_set_name(*sub_comm, sub_comm_name.c_str());
+    }
 
     // Free groups
     MPI_Group_free(&super_group);
-- 
2.43.0


From 33a94a0dd8ab81a25722e8c586f4376ab9cf1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:53:17 +0000
Subject: [PATCH 20/29] fix: a copy of a Node does not free the communicator of
 the original

---
 src/QuadNode.hpp | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/QuadNode.hpp b/src/QuadNode.hpp
index 8f56967..e9b08b9 100644
--- a/src/QuadNode.hpp
+++ b/src/QuadNode.hpp
@@ -52,7 +52,7 @@ public:
 	 * @brief Communicator that includes only the ranks this node lives of (pfrist - plast)
 	 * 
 	 */
-	MPI::Communicator node_comm;
+	MPI::Communicator node_comm = MPI_COMM_NULL;
 
 	/**
 	 * @brief Flag for if the node communicator has been set
@@ -100,8 +100,48 @@ public:
 
 	}
 
+	/**
+	 * @brief Copy constructor; the copy refers to the node communicator, `other` remains the one that frees it
+	 * 
+	 * @param other Node to copy
+	 */
+	Node(const Node& other) :
+		MPIObject(other.getComm()),
+		data(other.data),
+		path(other.path),
+		level(other.level),
+		pfirst(other.pfirst),
+		plast(other.plast),
+		leaf(other.leaf),
+		node_comm(other.node_comm)
+			{}
+
+	/**
+	 * @brief Copy assignment; as with copies, `other` remains the one that frees its node communicator
+	 * 
+	 * @param other Node to copy
+	 * @return Node& 
+	 */
+	Node& operator=(const Node& other) {
+		if (this != &other) {
+			if (node_comm_set && node_comm != MPI_COMM_NULL) {
+				MPI_Comm_free(&node_comm);
+			}
+			MPIObject::operator=(other);
+			data = other.data;
+			path = other.path;
+			level = other.level;
+			pfirst = other.pfirst;
+			plast = other.plast;
+			leaf = other.leaf;
+			node_comm = other.node_comm;
+			node_comm_set = false;
+		}
+		return *this;
+	}
+
 	~Node() {
-		if (node_comm_set) {
+		if (node_comm_set && node_comm != MPI_COMM_NULL) {
 			MPI_Comm_free(&node_comm);
 		}
 	}
-- 
2.43.0


From a33b5203e1ed9d379ab7e8afba7a7d825ecccd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:54:06 +0000
Subject: [PATCH 21/29] fix: copy assignment of a ParallelMatrix shares the
 Petsc matrix like its copy constructor

Nodes and patches hold parallel matrices; without it a Node of patches could not be assigned.
---
 src/Matrix.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/Matrix.hpp b/src/Matrix.hpp
index edd30b0..e314889 100644
--- a/src/Matrix.hpp
+++ b/src/Matrix.hpp
@@ -1262,6 +1262,25 @@ public:
 
     }
 
+    ParallelMatrix& operator=(const ParallelMatrix& other) {
+        if (this != &other) {
+            if (other.is_created) {
+                PetscObjectReference((PetscObject) other.mat);
+            }
+            if (is_created) {
+                MatDestroy(&mat);
+            }
+            MPIObject::operator=(other);
+            local_rows = other.local_rows;
+            local_cols = other.local_cols;
+            global_rows = other.global_rows;
+            global_cols = other.global_cols;
+            mat = other.mat;
+            is_created = other.is_created;
+        }
+        return *this;
+    }
+
     ParallelMatrix& operator=(ParallelMatrix&& other) {
         if (this != &other) {
             if (is_created) {
-- 
2.43.0


From dedf038fb677fed21ee077f4701b818e9def8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:22:54 +0000
Subject: [PATCH 22/29] fix: every quadtree traversal hands its own tree to
 p4est's callbacks

---
 src/Quadtree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index 9b46b6c..ec6cd4b 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -257,6 +257,7 @@ public:
 	 */
 	void traversePreOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -278,6 +279,7 @@ public:
 	 */
 	void traversePostOrder(std::function<int(Node<T>*)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -299,6 +301,7 @@ public:
 	 */
 	void traversePostOrder(std::function<void(T&)> visit) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_data_fn = visit;
 		int skip_levels = 0;
 		p4est_search_reorder(
@@ -321,6 +324,7 @@ public:
 	 */
 	void merge(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
@@ -344,6 +348,7 @@ public:
 	 */
 	void split(std::function<int(Node<T>*)> visit_leaf, std::function<int(Node<T>*, std::vector<Node<T>*>)> visit_family) {
 
+		p4est->user_pointer = (void*) this;
 		visit_node_fn = visit_leaf;
 		visit_family_fn = visit_family;
 		int skip_levels = 0;
-- 
2.43.0


From 37e7f323c32b06f94d43604cadcfc7dbda3838f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:31:08 +0000
Subject: [PATCH 23/29] fix: ranks without quadrants are not part of a quadtree
 node's communicator

---
 src/Quadtree.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Quadtree.hpp b/src/Quadtree.hpp
index ec6cd4b..f508761 100644
--- a/src/Quadtree.hpp
+++ b/src/Quadtree.hpp
@@ -147,6 +147,13 @@ public:
 				MPI::Communicator node_comm;
 				MPI::communicatorSubsetRange(MPI_COMM_WORLD, pfirst, plast, 0, &node_comm);
 
+				// Ranks without any quadrants are never visited in a traversal; leave them out
+				if (pfirst < plast && node_comm != MPI_COMM_NULL) {
+					MPI::Communicator range_comm = node_comm;
+					MPI_Comm_split(range_comm, p4est->local_num_quadrants > 0 ? 0 : MPI_UNDEFINED, rank, &node_comm);
+					MPI_Comm_free(&range_comm);
+				}
+
 				// Check if quadrant is owned by this rank
 				bool owned = pfirst <= rank && rank <= plast;
 
-- 
2.43.0


From 9de7b6363200b3cb279ce951dd470503493395a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:16:04 +0000
Subject: [PATCH 24/29] fix: a mesh has one offset and one type per cell and
 can be built again

---
 src/Mesh.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 7ab02b8..547f932 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -185,6 +185,14 @@ public:
      */
     void setMeshFromQuadtree() {
 
+        // Start over: the mesh may have been built before
+        points = Vector<double>{};
+        connectivity = Vector<int>{};
+        offsets = Vector<int>{};
+        types = Vector<int>{};
+        npoints = 0;
+        ncells = 0;
+
         points.name() = "points";
         points.setNumberOfComponents("3");
         connectivity.name() = "connectivity";
@@ -240,14 +248,12 @@ public:
                             index + 2,
                             index + 3
                         };
+                        // One offset (the end of the cell's connectivity) and one type per cell
                         Vector<int> cellOffsets = {
-                            (index + 1) * 4,
-                            (index + 2) * 4,
-                            (index + 3) * 4,
-                            (index + 4) * 4
+                            index + 4
                         };
                         Vector<int> cellTypes = {
-                            9, 9, 9, 9
+                            9
                         };
                         
                         index += 4;
-- 
2.43.0


From 8990c4a799dcbf5828dad4d2112ee07e9681ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:01 +0000
Subject: [PATCH 25/29] fix: VTK grids can be built and written again

---
 src/VTK.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index dfc2561..7c805f0 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -41,6 +41,7 @@ RectilinearGridVTK::RectilinearGridVTK() : mesh_complete_(false), coords_data_ve
 
 void RectilinearGridVTK::buildMesh(RectilinearGridNodeBase& mesh, DataArrayNodeBase* x_coords, DataArrayNodeBase* y_coords, DataArrayNodeBase* z_coords) {
     mesh_ = &mesh;
+    coords_data_vector_.clear();
     
     if (x_coords != nullptr) {
         coords_data_vector_.push_back(x_coords);
@@ -101,7 +102,8 @@ void RectilinearGridVTK::toVTK(std::string filename) {
 
         XMLNode node_coordinates("Coordinates");
         
-        root_.addChild(node_rectilinear_grid);
+        XMLNode root = root_;
+        root.addChild(node_rectilinear_grid);
         node_rectilinear_grid.addChild(node_piece);
         if (!cell_data_vector_.empty()) node_piece.addChild(node_cell_data);
         if (!point_data_vector_.empty()) node_piece.addChild(node_point_data);
@@ -110,7 +112,7 @@ void RectilinearGridVTK::toVTK(std::string filename) {
         for (auto point_data : point_data_vector_) node_point_data.addChild(point_data->toVTK());
         for (auto coordData : coords_data_vector_) node_coordinates.addChild(coordData->toVTK());
 
-        XMLTree tree(root_);
+        XMLTree tree(root);
         tree.write(filename);
 
     }
@@ -184,7 +186,8 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
             node_point_data.addAttribute("Scalars", names);
         }
 
-        root_.addChild(node_unstructured_grid);
+        XMLNode root = root_;
+        root.addChild(node_unstructured_grid);
             node_unstructured_grid.addChild(node_piece);
                 node_piece.addChild(node_points);
                     node_points.addChild(mesh_->getPoints().toVTK());
@@ -197,7 +200,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
                 if (!point_data_vector_.empty()) node_piece.addChild(node_point_data);
                     for (auto& point_data : point_data_vector_) node_point_data.addChild(point_data->toVTK());
 
-        XMLTree tree(root_);
+        XMLTree tree(root);
         tree.write(filename);
         
     }
@@ -283,7 +286,8 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
         }
 
         // Build structure
-        root_.addChild(node_p_unstructured_grid);
+        XMLNode root = root_;
+        root.addChild(node_p_unstructured_grid);
             node_p_unstructured_grid.addChild(node_p_points);
                 node_p_points.addChild(mesh.getPoints().toPVTK());
             node_p_unstructured_grid.addChild(node_p_pointData);
@@ -293,7 +297,7 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
             for (auto& node_piece : node_piece_vector) node_p_unstructured_grid.addChild(node_piece);
         
         // Write to file
-        XMLTree tree(root_);
+        XMLTree tree(root);
         tree.write(filenameBase + ".pvtu");
 
     }
-- 
2.43.0


From a1068fbbc306267a444122de10c444c7154037bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:01 +0000
Subject: [PATCH 26/29] fix: parallel VTK index files are of type
 PUnstructuredGrid

---
 src/VTK.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index 7c805f0..c3652f7 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -213,7 +213,7 @@ void UnstructuredGridVTK::toVTK(std::string filename) {
 PUnstructuredGridVTK::PUnstructuredGridVTK() :
     MPIObject{MPI_COMM_WORLD},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
@@ -221,7 +221,7 @@ PUnstructuredGridVTK::PUnstructuredGridVTK() :
 PUnstructuredGridVTK::PUnstructuredGridVTK(MPI_Comm comm) :
     MPIObject{comm},
     root_("VTKFile") {
-    root_.addAttribute("type", "UnstructuredGrid");
+    root_.addAttribute("type", "PUnstructuredGrid");
     root_.addAttribute("version", "0.1");
     root_.addAttribute("byte_order", "LittleEndian");
 }
-- 
2.43.0


From ef730ea8d287346520d2896f845179636653ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:01 +0000
Subject: [PATCH 27/29] fix: pieces of a parallel VTK file are named after the
 base name, relative to the index file

---
 src/VTK.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/VTK.cpp b/src/VTK.cpp
index c3652f7..d13df77 100644
--- a/src/VTK.cpp
+++ b/src/VTK.cpp
@@ -241,10 +241,9 @@ void PUnstructuredGridVTK::addCellData(DataArrayNodeBase& cell_data) {
 void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
     // All ranks write individual file
-    char str_buffer[256];
-    std::string filename = filenameBase + "_%04i.vtu";
-    snprintf(str_buffer, 256, filename.c_str(), this->getRank());
-    filename = std::string(str_buffer);
+    char str_buffer[32];
+    snprintf(str_buffer, 32, "_%04i.vtu", this->getRank());
+    std::string filename = filenameBase + std::string(str_buffer);
     vtu.toVTK(filename);
 
     // Head rank writes metadata file
@@ -277,9 +276,9 @@ void PUnstructuredGridVTK::toVTK(std::string filenameBase) {
 
         std::vector<XMLNode> node_piece_vector;
         for (int i = 0; i < this->getSize(); i++) {
-            filename = filenameBase + "_%04i.vtu";
-            snprintf(str_buffer, 256, filename.c_str(), i);
-            filename = std::string(str_buffer);
+            snprintf(str_buffer, 32, "_%04i.vtu", i);
+            // Sources are relative to the location of the metadata file
+            filename = filenameBase.substr(filenameBase.find_last_of('/') + 1) + std::string(str_buffer);
             XMLNode node_piece("Piece");
             node_piece.addAttribute("Source", filename);
             node_piece_vector.push_back(node_piece);
-- 
2.43.0


From 412c7abaf3dc7dac7e65535e5e5caabd21339ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:01 +0000
Subject: [PATCH 28/29] fix: data arrays are written with enough digits to be
 read back; empty arrays have a range

---
 src/Vector.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/Vector.hpp b/src/Vector.hpp
index 5822346..8996f36 100644
--- a/src/Vector.hpp
+++ b/src/Vector.hpp
@@ -6,6 +6,8 @@
 #include <vector>
 #include <algorithm>
 #include <initializer_list>
+#include <limits>
+#include <sstream>
 #include <string>
 
 #include <petsc.h>
@@ -727,8 +729,9 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMin() {
+        if (data_.empty()) return "0";
         NumericalType min = *std::min_element(data_.begin(), data_.end());
-        return std::to_string(min);
+        return toText(min);
     }
 
     /**
@@ -737,8 +740,9 @@ public:
      * @return std::string 
      */
     virtual std::string getRangeMax() {
+        if (data_.empty()) return "0";
         NumericalType max = *std::max_element(data_.begin(), data_.end());
-        return std::to_string(max);
+        return toText(max);
     }
 
     /**
@@ -748,10 +752,25 @@ public:
      */
     virtual std::string getData() {
         std::string str = "";
-        for (auto p : data_) { str += std::to_string(p) + " "; }
+        for (auto p : data_) { str += toText(p) + " "; }
         return str;
     }
 
+private:
+
+    /**
+     * @brief Text of a value, with enough digits to read the same value back
+     * 
+     * @param value Value
+     * @return std::string 
+     */
+    static std::string toText(const NumericalType& value) {
+        std::ostringstream stream;
+        stream.precision(std::numeric_limits<NumericalType>::max_digits10);
+        stream << value;
+        return stream.str();
+    }
+
 };
 
 /**
-- 
2.43.0


From d3300f1704a1fd050b3886d43cce1c28f90517b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:01 +0000
Subject: [PATCH 29/29] fix: a mesh is written on its own communicator

---
 src/Mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mesh.hpp b/src/Mesh.hpp
index 547f932..78fd482 100644
--- a/src/Mesh.hpp
+++ b/src/Mesh.hpp
@@ -409,7 +409,7 @@ public:
             snprintf(buffer, 32, "%04i", number);
             meshFilename += "-" + std::string(buffer);
         }
-        PUnstructuredGridVTK pvtu{};
+        PUnstructuredGridVTK pvtu{this->getComm()};
         pvtu.buildMesh(*this);
         for (auto& meshFunction : mesh_functions) {
             pvtu.addCellData(*meshFunction);
-- 
2.43.0

