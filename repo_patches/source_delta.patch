From 9904c5672f3a2b580affc045d352413c0c094f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 01/40] fix: set_rows keeps the existing rows when a matrix is
 enlarged

The copy loop compared the requested number of rows instead of the row
being copied, so enlarging a matrix zeroed all its contents.
---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index b206b70..5c5d877 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -480,7 +480,7 @@ void Matrix::set_rows(int r) {
     for (int i = 1; i <= r; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (r <= rows) {
+          if (i <= rows) {
             temp[index(i, j, k)] = elem[index(i, j, k)];
           } else {
             temp[index(i, j, k)] = 0;
-- 
2.43.0


From 97e9f83c240c0c93c63ba0080e3344a5ffb96271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 02/40] fix: set_cols and set_shel keep the matrix contents

The new buffer was indexed with the strides of the old shape, which wrote
outside of it when shrinking and scrambled the elements, and enlarging
zeroed every element instead of only the new ones.
---
 src/libcatnip/matrix.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 5c5d877..c5541da 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -537,10 +537,10 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (c <= cols) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (j <= cols) {
+            temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = 0;
           }
         }
       }
@@ -556,7 +556,7 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = elem[index(i, j, k)];
         }
       }
     }
@@ -577,10 +577,10 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          if (s <= shel) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (k <= shel) {
+            temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = 0;
           }
         }
       }
@@ -596,7 +596,7 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = elem[index(i, j, k)];
         }
       }
     }
-- 
2.43.0


From 11e4379fabc0102d5f98ef5f110fbf3aed034804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 03/40] fix: copies and assignments of a matrix are complete
 and independent

Matrix had no copy constructor, so copies shared the element buffer and a
later resize of one left the other dangling; the assignment operator
dropped every shelf but the first.
---
 src/libcatnip/matrix.cpp | 41 +++++++++++++++++++++++++++-------------
 src/libcatnip/matrix.hpp |  3 +++
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index c5541da..2061ea2 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -279,7 +279,6 @@ Matrix::Matrix(vector<vector<double>> vv_data) {
   cols = vv_data.at(0).size();
   shel = 1;
   elem = new double[rows * cols];
-  elem = new double[rows * cols];
 
   int r = 1;
   for (auto v : vv_data) {
@@ -416,7 +415,7 @@ int Matrix::resize(int r, int c) {
     }
   }
 
-  delete elem;
+  delete[] elem;
   rows = r;
   cols = c;
   shel = 1;
@@ -425,14 +424,30 @@ int Matrix::resize(int r, int c) {
   return 0;
 }
 
+Matrix::Matrix(const Matrix &m) {
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = new double[rows * cols * shel];
+  for (int i = 0; i < rows * cols * shel; ++i) {
+    elem[i] = m.elem[i];
+  }
+}
+
+Matrix::~Matrix() { delete[] elem; }
+
 Matrix &Matrix::operator=(const Matrix &m) {
-  this->resize(m.get_rows(), m.get_cols());
+  if (this == &m) return *this;
 
-  for (int i = 1; i <= m.get_rows(); ++i) {
-    for (int j = 1; j <= m.get_cols(); ++j) {
-      this->set_elem(m.get_elem(i, j), i, j);
-    }
+  double *temp = new double[m.rows * m.cols * m.shel];
+  for (int i = 0; i < m.rows * m.cols * m.shel; ++i) {
+    temp[i] = m.elem[i];
   }
+  delete[] elem;
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = temp;
   return *this;
 }
 
@@ -488,7 +503,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   } else if (r < rows) {
@@ -503,7 +518,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   }
@@ -545,7 +560,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   } else if (c < cols) {
@@ -560,7 +575,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   }
@@ -585,7 +600,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   } else if (s < shel) {
@@ -600,7 +615,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   }
diff --git a/src/libcatnip/matrix.hpp b/src/libcatnip/matrix.hpp
index cce1c3e..12725e5 100644
--- a/src/libcatnip/matrix.hpp
+++ b/src/libcatnip/matrix.hpp
@@ -23,6 +23,9 @@ class Matrix {
   Matrix(const int r, const int c);
   Matrix(const int r, const int c, const int s);
 
+  Matrix(const Matrix &m);
+  ~Matrix();
+
   Matrix &operator=(const Matrix &m);
   // manipulators
   void set_rows(int r);
-- 
2.43.0


From 08e50e4c9adcfb29b68814660955ca0e87f89f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 04/40] fix: set_col expects one value per row

It compared the length of the column with the number of columns, so
set_col, swap_col and move_col failed on every matrix that is not square.
---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 2061ea2..c320d72 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -472,7 +472,7 @@ void Matrix::set_row(vector<double> row, int r) {
 
 void Matrix::set_col(vector<double> col, int c) {
 
-  if (get_cols() != static_cast<int>(col.size())) {
+  if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
   for (int i = 1; i <= get_rows(); ++i) {
-- 
2.43.0


From 01719d9acacda3dd538344709929d159a5daba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 05/40] fix: getCol returns a column with one element per row

The result was sized by the number of columns, so it had spurious zeros
or ended the program when the matrix has more rows than columns.
---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index c320d72..041213a 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -949,7 +949,7 @@ Matrix Matrix::getCol(int C) const {
     printf(" because mat has only %d cols\n.", this->get_cols());
     exit(1);
   }
-  Matrix mat2(this->get_cols(), 1, this->get_shel());
+  Matrix mat2(this->get_rows(), 1, this->get_shel());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int k = 1; k <= this->get_shel(); k++) {
-- 
2.43.0


From 78bf693c7dfd574c066407b9ddb1f4efe6e11bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 06/40] fix: a coordinate rounded to negative zero matches zero

double_tos printed -0 for small negative values, so an atom at -0.00001
was not matched with the same atom at 0.00001.
---
 src/libcatnip/matrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 041213a..4c22b2f 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -171,7 +171,8 @@ Matrix Matrix_concatenate_cols(const Matrix &mat1, const Matrix &mat2) {
 string double_tos(double f, int nd) {
   ostringstream ostr;
   int tens = stod("1" + string(nd, '0'));
-  ostr << round(f * tens) / tens;
+  // Adding zero turns a negative zero into zero
+  ostr << round(f * tens) / tens + 0.0;
   return ostr.str();
 }
 
-- 
2.43.0


From abcd990917ff08c315fc9a26005537d4f16b9be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 07/40] fix: compare all requested decimals of large
 coordinates

double_tos kept six digits in total, so coordinates of 100 or more were
compared with fewer decimals than requested and distinct atoms matched.
---
 src/libcatnip/matrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 4c22b2f..77e4400 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -170,6 +170,9 @@ Matrix Matrix_concatenate_cols(const Matrix &mat1, const Matrix &mat2) {
 
 string double_tos(double f, int nd) {
   ostringstream ostr;
+  // The default of six digits is not enough for all the decimals of a large
+  // value
+  ostr.precision(17);
   int tens = stod("1" + string(nd, '0'));
   // Adding zero turns a negative zero into zero
   ostr << round(f * tens) / tens + 0.0;
-- 
2.43.0


From fd4e3ff7b8224460e86f88ba7b1a39bfc29b7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 08/40] fix: refuse to reorder atoms that are not matched one
 to one

An atom without counterpart (-1) was swapped with memory outside of the
list of blocks, and two atoms with the same counterpart made
refreshSwapOrder loop forever.
---
 src/libcatnip/qc_functions.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 963c6fd..c8ec732 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -413,11 +413,35 @@ Matrix *createNewMatrix(list<Matrix *> &p_atom_mat_coef, int rows, int cols,
   return mergeListOfMatrices(p_atom_mat_coef, rows, cols, ColRow);
 }
 
+// Every atom that is to be reordered must have been found, and no two of them
+// can be the same atom.
+void checkMatches(const vector<int> &matchA, const vector<int> &matchB,
+                  const vector<int> &basisFunc) {
+  vector<bool> taken(basisFunc.size(), false);
+  vector<int> matches(matchA);
+  matches.insert(matches.end(), matchB.begin(), matchB.end());
+  for (int match : matches) {
+    if (match < 1 || match > static_cast<int>(basisFunc.size())) {
+      throw invalid_argument(
+          "Unable to line up the atoms, at least one atom "
+          "does not have a counterpart with the same coordinates");
+    }
+    if (taken.at(match - 1)) {
+      throw invalid_argument(
+          "Unable to line up the atoms, at least two atoms "
+          "have the same counterpart");
+    }
+    taken.at(match - 1) = true;
+  }
+}
+
 // unscramble the coefficients
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
                         const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncP, Matrix *dimerCoef) {
 
+  checkMatches(matchDimerA, matchDimerB, basisFuncP);
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -454,6 +478,8 @@ Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncB, Matrix *Coef) {
 
+  checkMatches(matchDimerB, vector<int>(), basisFuncB);
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -487,6 +513,8 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &matchDimerB,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatches(matchDimerA, matchDimerB, basisFuncP);
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
@@ -539,6 +567,8 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
 Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatches(matchDimerA, vector<int>(), basisFuncP);
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
-- 
2.43.0


From a1f85ba38d81a63ead1d3f56ea1fe84511e2d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 09/40] fix: read Beta orbitals that directly follow the Alpha
 ones

The header of the first Beta orbital ended the Alpha section and was then
discarded, so the Beta coefficients were never read.
---
 src/libcatnip/io/file_readers/punreader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 0b5a92c..90a4f6f 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -84,6 +84,7 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
+      pos_ = fid_.tellg();
       getline(fid_, line);
     }
     first_row_set = true;
@@ -92,6 +93,8 @@ void PunReader::ReadCoef(const string &orb_type) {
 
     allCoefsRead = !(foundSubStrInStr(line, orb_type));
   }
+  // Reset the fid because the Beta orbitals may come right after the Alpha ones
+  if (!fid_.fail()) fid_.seekg(pos_);
 
   Matrix *Coefs = new Matrix(v_vec);
   coefs[orb_type] = Coefs;
-- 
2.43.0


From 5b38ff64ea2bc5c3bbe7c82453d3c1ca3fc473e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 10/40] fix: a coefficient file that ends within an orbital is
 an error

At the end of the file the loop waiting for the next orbital never ended.
---
 src/libcatnip/io/file_readers/punreader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 90a4f6f..d30e3b0 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -79,6 +79,13 @@ void PunReader::ReadCoef(const string &orb_type) {
     while (!foundSubStrInStr(line, pattern)) {
 
       if (first_row_set && current_count >= count) break;
+      if (fid_.fail()) {
+        // The number of functions is only known once the first orbital has
+        // been read, at the end of the file it is complete only if it has one
+        if (!first_row_set && current_count == 1) break;
+        throw runtime_error("The file " + fileName_ +
+                            " ended within the coefficients of an orbital");
+      }
       auto coef = readGausCoefLine(line);
       for (auto val : coef) {
         row.push_back(val);
-- 
2.43.0


From 104b34fad5456d56b5c627a34c556b941b876a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 11/40] fix: read the overlap matrix of five or fewer basis
 functions

The line following the only group of columns does not start with a number,
converting it failed. The line after the table is no longer consumed either,
it may start another section.
---
 src/libcatnip/io/file_readers/logreader.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index d5326f9..284292a 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -191,11 +191,13 @@ void LogReader::OverlapSectionReader(void *ptr) {
   // First group of coordinates will be stored in vector<vector<double>>
   vector<vector<double>> first_coefs;
   while (!endFirstSection) {
+    LR_ptr->pos_ = LR_ptr->fid_.tellg();
     getline(LR_ptr->fid_, line);
     istringstream iss(line);
     iss >> countC;
-    int countCint = stoi(countC);
-    if (countCint != (countCoef + 1)) {
+    // With 5 or fewer basis functions the line following the first group does
+    // not start with a number
+    if (countC.compare(to_string(countCoef + 1)) != 0) {
       endFirstSection = true;
     } else {
       ++countCoef;
@@ -233,6 +235,9 @@ void LogReader::OverlapSectionReader(void *ptr) {
     ++sectionReads;
   }
 
+  // There is only one group, the line that followed it is not part of the table
+  if (sectionReads == 1) LR_ptr->fid_.seekg(LR_ptr->pos_);
+
   int section = 2;
   int currentSectionStart = 5;
   while (section <= sectionReads) {
@@ -263,7 +268,8 @@ void LogReader::OverlapSectionReader(void *ptr) {
     }
     ++section;
     currentSectionStart += 5;
-    getline(LR_ptr->fid_, line);
+    // Skip the column numbers of the next group
+    if (section <= sectionReads) getline(LR_ptr->fid_, line);
   }
   LR_ptr->S_ = mat_S;
   LOG("Success reading Overlap coefficients from .log file", 2);
-- 
2.43.0


From efb64eb1d90cfd84abde8a86b2f316a4c0a6fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 12/40] fix: a log file that ends within a table is an error

The coordinate and population sections looped forever at the end of the
file, the overlap section returned the partial matrix.
---
 src/libcatnip/io/file_readers/logreader.cpp | 44 +++++++++++++++------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 284292a..645271a 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -64,6 +64,26 @@ vector<string> splitStEnergies(const string & line){
   return items2;
 }
 
+/**
+ * \brief Get the next line of a table, the file cannot end before the table does
+ **/
+void getTableLine(istream & fid, string & line){
+  if(!getline(fid, line)){
+    throw runtime_error("The log file ended within a table");
+  }
+}
+
+/**
+ * \brief Get the next row of a table without end marker, a row that is not ended
+ * by a new line may have been cut off
+ **/
+void getTableRow(istream & fid, string & line){
+  getTableLine(fid, line);
+  if(fid.eof()){
+    throw runtime_error("The log file ended within a table");
+  }
+}
+
 LogReader::LogReader(const string &fileName) : FileReader(fileName) {
   validFileName_();
   registerSections_();
@@ -109,8 +129,8 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
   bool sectionEnd = false;
   while (sectionEnd == false) {
     istringstream iss(line);
@@ -130,7 +150,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-    getline(LR_ptr->fid_, line);
+    getTableLine(LR_ptr->fid_, line);
     string elemType2 = "";
     elemType2.append(string(1, line.at(9)));
     elemType2.append(string(1, line.at(10)));
@@ -150,7 +170,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-      getline(LR_ptr->fid_, line);
+      getTableLine(LR_ptr->fid_, line);
 
       istringstream iss3(line);
       iss3 >> elemType2;
@@ -185,14 +205,14 @@ void LogReader::OverlapSectionReader(void *ptr) {
   bool endFirstSection = false;
   // Skip first line simply has column numbers
   string line;
-  getline(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
   string countC;
 
   // First group of coordinates will be stored in vector<vector<double>>
   vector<vector<double>> first_coefs;
   while (!endFirstSection) {
     LR_ptr->pos_ = LR_ptr->fid_.tellg();
-    getline(LR_ptr->fid_, line);
+    getTableRow(LR_ptr->fid_, line);
     istringstream iss(line);
     iss >> countC;
     // With 5 or fewer basis functions the line following the first group does
@@ -244,7 +264,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
 
     int sectionCoef = currentSectionStart;
     while (sectionCoef < countCoef) {
-      getline(LR_ptr->fid_, line);
+      getTableRow(LR_ptr->fid_, line);
       istringstream iss(line);
       string dummy;
       iss >> dummy;
@@ -269,7 +289,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
     ++section;
     currentSectionStart += 5;
     // Skip the column numbers of the next group
-    if (section <= sectionReads) getline(LR_ptr->fid_, line);
+    if (section <= sectionReads) getTableLine(LR_ptr->fid_, line);
   }
   LR_ptr->S_ = mat_S;
   LOG("Success reading Overlap coefficients from .log file", 2);
@@ -339,9 +359,9 @@ void LogReader::CoordSectionReader(void *ptr) {
       "----------------------------------";
   string line;
   // Skip the 2nd and third line
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
 
   // While the line does not match the end of the table read in the coordinates
   while (!foundSubStrInStr(line, end_pattern)) {
@@ -349,7 +369,7 @@ void LogReader::CoordSectionReader(void *ptr) {
     X.push_back(stod(vec_str.at(3)));
     Y.push_back(stod(vec_str.at(4)));
     Z.push_back(stod(vec_str.at(5)));
-    getline(LR_ptr->fid_, line);
+    getTableLine(LR_ptr->fid_, line);
   }
   LR_ptr->xyz.push_back(X);
   LR_ptr->xyz.push_back(Y);
-- 
2.43.0


From fd0118d01f42e3144427513f30c39374a96adf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 13/40] fix: a log file without overlap section is an error

getOverlapMatrix returned an uninitialised pointer.
---
 src/libcatnip/io/file_readers/logreader.cpp | 8 ++++++++
 src/libcatnip/io/file_readers/logreader.hpp | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 645271a..4b1dc2d 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -114,6 +114,14 @@ void LogReader::validFileName_() {
   }
 }
 
+Matrix *LogReader::getOverlapMatrix() const {
+  if (S_ == nullptr) {
+    throw runtime_error("The overlap matrix was not found in file " +
+                        fileName_);
+  }
+  return S_;
+}
+
 vector<int> LogReader::getBasisFuncCount() {
   vector<int> basisFuncCount;
   for (auto values : orb_) {
diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 46cde5d..0499d67 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -18,7 +18,7 @@ class LogReader : public FileReader {
  public:
   explicit LogReader(const std::string &str);
   orb_cont getOrbitalInfo() const { return orb_; }
-  Matrix *getOverlapMatrix() const { return S_; }
+  Matrix *getOverlapMatrix() const;
   std::vector<double> getOE(const std::string &orb_type) const {
     return OREnergies.at(orb_type);
   }
@@ -48,7 +48,7 @@ class LogReader : public FileReader {
   std::map<std::string, int> homoLevel;
   orb_cont orb_;
   // Overlap matrix
-  Matrix *S_;
+  Matrix *S_ = nullptr;
   std::map<std::string, std::vector<double>> OREnergies;
 
   std::vector<std::vector<double>> xyz;
-- 
2.43.0


From f4e9a856d51ff9ca5250dac903e819ddc5d0ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 14/40] fix: read the Beta energies of a system without beta
 electrons

Such a table has no occupied orbitals and was ignored.
---
 src/libcatnip/io/file_readers/logreader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 4b1dc2d..1fea8b7 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -94,7 +94,9 @@ void LogReader::registerSections_() {
       set<string>{"     Gross orbital populations:"};
   sectionHeaders_["Overlap"] = set<string>{" *** Overlap ***"};
   sectionHeaders_["OEAlpha"] = set<string>{" Alpha  occ. eigenvalues --"};
-  sectionHeaders_["OEBeta"] = set<string>{"  Beta  occ. eigenvalues --"};
+  // Without beta electrons the table starts with the virtual orbitals
+  sectionHeaders_["OEBeta"] = set<string>{"  Beta  occ. eigenvalues --",
+                                          "  Beta virt. eigenvalues --"};
   sectionHeaders_["Coord"] = set<string>{"Center     Atomic      Atomic",
                                          "Center     Atomic     Atomic"};
 
-- 
2.43.0


From d314735ba932e47a95b9eb4409b0a001f9b06e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 15/40] fix: orbital types containing a blank are read as a
 whole

The 0 of a type such as "4D 0" was stored as its first population.
---
 src/libcatnip/io/file_readers/logreader.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 1fea8b7..56d05fe 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -84,6 +84,14 @@ void getTableRow(istream & fid, string & line){
   }
 }
 
+/**
+ * \brief Tell the populations from the rest of an orbital type with a blank, such
+ * as the 0 of "4D 0", populations always have a decimal point
+ **/
+bool isPopulation(const string & item){
+  return item.empty() || foundSubStrInStr(item, ".");
+}
+
 LogReader::LogReader(const string &fileName) : FileReader(fileName) {
   validFileName_();
   registerSections_();
@@ -156,7 +164,11 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     while (!iss.eof()) {
       string Tot_Alpha_Beta_Spin;
       iss >> Tot_Alpha_Beta_Spin;
-      orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
+      if (isPopulation(Tot_Alpha_Beta_Spin)) {
+        orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
+      } else {
+        orbType += " " + Tot_Alpha_Beta_Spin;
+      }
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
@@ -175,7 +187,11 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
       while (!iss2.eof()) {
         string Tot_Alpha_Beta_Spin;
         iss2 >> Tot_Alpha_Beta_Spin;
-        orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
+        if (isPopulation(Tot_Alpha_Beta_Spin)) {
+          orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
+        } else {
+          orbType += " " + Tot_Alpha_Beta_Spin;
+        }
       }
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
-- 
2.43.0


From f6ed493e6b0b22d596efba26c42301dda9b9eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 16/40] fix: the extension of a file starts at its last dot

Files such as mol.v1.log were refused.
---
 src/libcatnip/io/file_readers/filereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 1fd77ea..73a1747 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -64,7 +64,7 @@ void FileReader::checkSections_() {
 string FileReader::fileExt_() const {
   string path = lastStringInPath(fileName_);
   path = trimmed(path);
-  auto index = path.find(".");
+  auto index = path.rfind(".");
   if (index == string::npos) throw invalid_argument("File has no extension");
   return path.substr(index);
 }
-- 
2.43.0


From 8ab6b0b876e9862ba9b556c7b855734427772d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 17/40] fix: accept coefficient files with the documented
 extensions .7 and .orb

The command line accepts them, but they were refused when they were used.
---
 src/libcatnip/io/file_readers/punreader.cpp |  6 ++++--
 src/libcatnip/parameters.cpp                | 18 +++++++++---------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index d30e3b0..75d056e 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -39,8 +39,10 @@ Matrix *PunReader::getCoefsMatrix(const string &orb_type) {
 
 void PunReader::validFileName_() {
   string ext = fileExt_();
-  if (ext.compare(".pun") != 0) {
-    throw invalid_argument("A pun file must have the .pun extension");
+  if (ext.compare(".pun") != 0 && ext.compare(".7") != 0 &&
+      ext.compare(".orb") != 0) {
+    throw invalid_argument(
+        "A pun file must have the .pun, .7 or .orb extension");
   }
 }
 
diff --git a/src/libcatnip/parameters.cpp b/src/libcatnip/parameters.cpp
index c43617b..eb116e1 100644
--- a/src/libcatnip/parameters.cpp
+++ b/src/libcatnip/parameters.cpp
@@ -7,6 +7,12 @@
 using namespace catnip;
 using namespace std;
 
+static void checkPunExt(const string& pun) {
+  string ext = grabStrAfterLastOccuranceInclusive(lastStringInPath(pun), ".");
+  if (ext.compare(".pun") && ext.compare(".7") && ext.compare(".orb"))
+    throw invalid_argument("pun file has wrong extension");
+}
+
 void Parameters::setLog1(const string& log1) {
   string ext = lastN(log1, 4);
   if (ext.compare(".log"))
@@ -26,20 +32,14 @@ void Parameters::setLogP(const string& logP) {
   logP_ = logP;
 }
 void Parameters::setPun1(const string& pun1) {
-  string ext = lastN(pun1, 4);
-  if (ext.compare(".pun"))
-    throw invalid_argument("pun file has wrong extension");
+  checkPunExt(pun1);
   pun1_ = pun1;
 }
 void Parameters::setPun2(const string& pun2) {
-  string ext = lastN(pun2, 4);
-  if (ext.compare(".pun"))
-    throw invalid_argument("pun file has wrong extension");
+  checkPunExt(pun2);
   pun2_ = pun2;
 }
 void Parameters::setPunP(const string& punP) {
-  string ext = lastN(punP, 4);
-  if (ext.compare(".pun"))
-    throw invalid_argument("pun file has wrong extension");
+  checkPunExt(punP);
   punP_ = punP;
 }
-- 
2.43.0


From 102043a5d12baec647b2c03ccf4194a176eee500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 18/40] fix: find the sister of a file with blanks in its name

The list of sister paths was split at the blanks within them.
---
 src/libcatnip/io/io.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/io.cpp b/src/libcatnip/io/io.cpp
index 28756bc..d4a588b 100644
--- a/src/libcatnip/io/io.cpp
+++ b/src/libcatnip/io/io.cpp
@@ -358,14 +358,19 @@ unique_ptr<Parameters> prepareParameters(unique_ptr<ArgumentParser>& ArgParse) {
     prop = "PROPERTY_SISTER_FILE";
     opt = "SISTER_FILE_EXISTS";
     auto line = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
-    opt = "SISTER_FILE_PATH_NAME";
+    opt = "ALLOWED_SISTER_FILE_EXT";
     auto line2 = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
     auto sisters_exist = splitSt(line);
-    vector<string> sister_file_paths = splitSt(line2);
+    vector<string> sister_file_exts = splitSt(line2);
     int countFiles = 0;
     for (auto sister_exists : sisters_exist) {
       if (sister_exists.compare("true") == 0) {
-        flag_sister_arg[flag_sister] = sister_file_paths.at(countFiles);
+        // The path cannot be taken from the list of sister paths because it
+        // may itself contain blanks
+        string file = ArgParse->getStr(flag);
+        string core = grabStrBeforeLastOccurance(lastStringInPath(file), ".");
+        flag_sister_arg[flag_sister] =
+            getPath(file) + core + sister_file_exts.at(countFiles);
       }
       ++countFiles;
     }
-- 
2.43.0


From 2e60cc3f2d1d048327bebe2f81228eff29f2b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 19/40] fix: FILE_DOES_EXIST tells whether the last given file
 exists

It stayed set when an existing file was followed by one that does not exist,
and it was not defined at all by the constructor taking a value.
---
 src/libcatnip/io/arguments/properties/propertyfileexist.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
index df1bbbc..a66d584 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
@@ -14,6 +14,7 @@ PropertyFileExist::PropertyFileExist(void) {
 
 PropertyFileExist::PropertyFileExist(int fileMustExist) {
   setPropOption_("FILE_MUST_EXIST", fileMustExist);
+  setPropOption_("FILE_DOES_EXIST", 0);
 }
 
 vector<string> PropertyFileExist::getOpts_(void) const {
@@ -34,9 +35,7 @@ bool PropertyFileExist::propValid(const string& fileNamePath) {
     }
     setPropOption_("FILE_DOES_EXIST", 1);
   } else {
-    if (fileExist(fileNamePath)) {
-      setPropOption_("FILE_DOES_EXIST", 1);
-    }
+    setPropOption_("FILE_DOES_EXIST", fileExist(fileNamePath) ? 1 : 0);
   }
   return true;
 }
-- 
2.43.0


From 5c2bb9831f57bebd82a36eeb676f609f89bbb9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 20/40] fix: a single string choice can be set

setPropOption set the choice and then threw as if the option was unknown.
---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index a8f1116..416b2ed 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -38,6 +38,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
   } else if (option.compare("STRING_CHOICES") == 0) {
     set<string> set_var{var};
     setPropOption_(option, set_var);
+    return;
   }
   throw invalid_argument("Unrecognized option value combo " + option + " " +
                          var);
-- 
2.43.0


From 9a41f16b66d44bb54410f467104155b094ac939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 21/40] fix: addFlagArg checks double arguments for duplicates

It looked at the file arguments instead.
---
 src/libcatnip/io/argumentparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 0615d2a..658fc8c 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -183,7 +183,7 @@ void ArgumentParser::addFlagArg(string flag, string argname) {
           flag);
     }
   } else if (argname.compare("ARGUMENT_DOUBLE") == 0) {
-    if (file_arg_.count(flag) == 0) {
+    if (double_arg_.count(flag) == 0) {
       ArgumentDouble* ArDouble = new ArgumentDouble;
       double_arg_[flag] = ArDouble;
     } else {
-- 
2.43.0


From 00322bdfc2bceef67378d702c4e39663f72736a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 22/40] fix: the value given to a switch is consumed

It was parsed again as a flag and rejected, so -cp ON was an error. A switch
given without a value now also replaces an earlier or default string value.
---
 src/libcatnip/io/argumentparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 658fc8c..c943866 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -454,6 +454,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
           throw runtime_error(err);
         } else {
           unrecognized = false;
+          string_values_[flag] = "ON";
           int_values_[flag] = 1;
         }
       } else {
@@ -466,9 +467,11 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           int_values_[flag] = 0;
         }
+        ++index;
       }
     } else {
       unrecognized = false;
+      string_values_[flag] = "ON";
       int_values_[flag] = 1;
     }
   }
-- 
2.43.0


From 82b8d0f9aae59bc2a4334f8cfcb4d49f7c86c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 23/40] fix: reject values that only start with a number

-orb_num_1 -1x or 1.7 was read as -1 or 1.
---
 src/libcatnip/io/argumentparser.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index c943866..fd0965f 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -13,6 +13,15 @@
 using namespace catnip;
 using namespace std;
 
+// stoi and stod ignore everything that follows the number
+static void checkWholeNumber(const string& flag, const string& argument,
+                             size_t length) {
+  if (length != argument.size()) {
+    throw invalid_argument("The value " + argument + " of " + flag +
+                           " is not a number");
+  }
+}
+
 ArgumentParser::ArgumentParser(set<vector<string>> flags) {
 
   vector<string> flag_help;
@@ -483,9 +492,12 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         throw runtime_error(err);
       }
       string argument = arguments.at(index + 1);
-      int_arg_[flag]->argValid(stoi(argument));
+      size_t length;
+      int value = stoi(argument, &length);
+      checkWholeNumber(flag, argument, length);
+      int_arg_[flag]->argValid(value);
       unrecognized = false;
-      int_values_[flag] = stoi(argument);
+      int_values_[flag] = value;
       ++index;
     }
   }
@@ -497,9 +509,12 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         throw runtime_error(err);
       }
       string argument = arguments.at(index + 1);
-      double_arg_[flag]->argValid(stod(argument));
+      size_t length;
+      double value = stod(argument, &length);
+      checkWholeNumber(flag, argument, length);
+      double_arg_[flag]->argValid(value);
       unrecognized = false;
-      double_values_[flag] = stod(argument);
+      double_values_[flag] = value;
       ++index;
     }
   }
-- 
2.43.0


From ed9957cf7b422ca30d12bbcce1dfc2c2531a1c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 24/40] fix: accept the documented version flag -v

Only -version, which the usage does not mention, was recognized.
---
 src/libcatnip/io/argumentparser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index fd0965f..7b90340 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -669,6 +669,10 @@ void ArgumentParser::parse(const char* argv[], int argc) {
   string citation_flag_short = "-cite";
   string version_flag = "--version";
   string version_flag_short = "-version";
+  string version_flag_declared = version_flag_short;
+  if (flags_.count(version_flag)) {
+    version_flag_declared = flags_[version_flag].first;
+  }
 
   size_t allowed_args_before_exit = 2;
   for (size_t index = 1; index < arguments.size(); ++index) {
@@ -681,7 +685,8 @@ void ArgumentParser::parse(const char* argv[], int argc) {
       }
       ++allowed_args_before_exit;
     } else if (version_flag.compare(arguments.at(index)) == 0 ||
-               version_flag_short.compare(arguments.at(index)) == 0) {
+               version_flag_short.compare(arguments.at(index)) == 0 ||
+               version_flag_declared.compare(arguments.at(index)) == 0) {
       exit(0);
     } else if (citation_flag.compare(arguments.at(index)) == 0 ||
                citation_flag_short.compare(arguments.at(index)) == 0) {
-- 
2.43.0


From 63e4a4207fa52fd78e9cbeb1a98d5f98c7709e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 25/40] fix: find the last occurrence of the whole text

find_last_of looks for the last occurrence of any of its characters.
---
 src/libcatnip/string_support.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index 1c082e2..34dbc96 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -132,13 +132,13 @@ string grabStrAfterFirstOccurance(string s, string occ) {
 }
 
 string grabStrAfterLastOccurance(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return "";
-  return s.substr(pos + 1);
+  return s.substr(pos + occ.length());
 }
 
 string grabStrAfterLastOccuranceInclusive(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return "";
   return s.substr(pos);
 }
@@ -150,15 +150,15 @@ string grabStrBeforeFirstOccurance(string s, string occ) {
 }
 
 string grabStrBeforeLastOccurance(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return s;
   return s.substr(0, pos);
 }
 
 string grabStrBeforeLastOccuranceInclusive(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return s;
-  return s.substr(0, pos + 1);
+  return s.substr(0, pos + occ.length());
 }
 
 bool foundSubStrInStr(string s, string sub_s) {
-- 
2.43.0


From 26c027c1400ed9eb31f4e7da8e9f7242b68fcacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 26/40] fix: refuse basis function counts that do not make up
 the matrix

Columns and rows beyond the counted basis functions were silently replaced
by zeros when the atoms were reordered.
---
 src/libcatnip/qc_functions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index c8ec732..5f5a32c 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -142,7 +142,11 @@ list<Matrix *> splitMatrixIntoList(const vector<int> &subMatrixDimension,
 
   list<Matrix *> list_matrix;
   int num_sub_matrices = subMatrixDimension.size();
+  int total = 0;
+  for (int dimension : subMatrixDimension) total += dimension;
   if (ColRowSplit.compare("Columns") == 0) {
+    if (total != mat->get_cols())
+      throw invalid_argument("The sub matrices do not make up the matrix");
     int col = 0;
     for (auto i = 1; i <= num_sub_matrices; ++i) {
       Matrix *mat_new =
@@ -156,6 +160,8 @@ list<Matrix *> splitMatrixIntoList(const vector<int> &subMatrixDimension,
       list_matrix.push_back(mat_new);
     }
   } else if (ColRowSplit.compare("Rows") == 0) {
+    if (total != mat->get_rows())
+      throw invalid_argument("The sub matrices do not make up the matrix");
     int row = 0;
     for (auto i = 1; i <= num_sub_matrices; ++i) {
       Matrix *mat_new =
-- 
2.43.0


From 94e9e5eb016b5e6de4655aca893abda3e2c53f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 27/40] fix: rows and columns outside of a matrix are refused

get_row, get_col, set_row and set_col, and with them the swaps and moves,
read and wrote memory outside of the elements.
---
 src/libcatnip/matrix.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 77e4400..cdf42f8 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -465,12 +465,12 @@ void Matrix::set_row(vector<double> row, int r) {
     throw invalid_argument("vector is not the same size as matrix");
   }
 
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
+
   for (int j = 1; j <= get_cols(); j++) {
-    if (r <= rows) {
-      elem[index(r, j, 1)] = row.at(j - 1);
-    } else {
-      elem[index(r, j, 1)] = 0;
-    }
+    elem[index(r, j, 1)] = row.at(j - 1);
   }
 }
 
@@ -479,12 +479,11 @@ void Matrix::set_col(vector<double> col, int c) {
   if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
   for (int i = 1; i <= get_rows(); ++i) {
-    if (c <= cols) {
-      elem[index(i, c, 1)] = col.at(i - 1);
-    } else {
-      elem[index(i, c, 1)] = 0;
-    }
+    elem[index(i, c, 1)] = col.at(i - 1);
   }
 }
 
@@ -529,6 +528,9 @@ void Matrix::set_rows(int r) {
 }
 
 vector<double> Matrix::get_col(int c) const{
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
   vector<double> col_data;
   for (int i = 1; i <= rows; i++) {
     col_data.push_back(elem[index(i, c, 1)]);
@@ -537,6 +539,9 @@ vector<double> Matrix::get_col(int c) const{
 }
 
 vector<double> Matrix::get_row(int r) const {
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
   vector<double> row_data;
   for (int i = 1; i <= cols; i++) {
     row_data.push_back(elem[index(r, i, 1)]);
-- 
2.43.0


From 4e1deb607522c559cc420096848004676b9c485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 28/40] fix: do not take the cut off first line of an orbital
 for a complete one

---
 src/libcatnip/io/file_readers/punreader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 75d056e..8553740 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -76,6 +76,8 @@ void PunReader::ReadCoef(const string &orb_type) {
   while (!allCoefsRead) {
     string line;
     getline(fid_, line);
+    // The last line of the file may have been cut off if nothing ends it
+    bool line_ended = !fid_.eof();
     vector<double> row;
     size_t current_count = 0;
     while (!foundSubStrInStr(line, pattern)) {
@@ -84,7 +86,7 @@ void PunReader::ReadCoef(const string &orb_type) {
       if (fid_.fail()) {
         // The number of functions is only known once the first orbital has
         // been read, at the end of the file it is complete only if it has one
-        if (!first_row_set && current_count == 1) break;
+        if (!first_row_set && current_count == 1 && line_ended) break;
         throw runtime_error("The file " + fileName_ +
                             " ended within the coefficients of an orbital");
       }
@@ -94,7 +96,7 @@ void PunReader::ReadCoef(const string &orb_type) {
         ++current_count;
       }
       pos_ = fid_.tellg();
-      getline(fid_, line);
+      if (getline(fid_, line)) line_ended = !fid_.eof();
     }
     first_row_set = true;
     count = row.size();
-- 
2.43.0


From 8d9222830202ac19a56bfec9f4f621bf19e48c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 29/40] fix: terminate on a log file that ends behind the start
 of an energy line

---
 src/libcatnip/io/file_readers/logreader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 56d05fe..3500102 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -335,9 +335,9 @@ void LogReader::ReadOrbEnergies(const string &orb_type) {
     bool virtFound;
 
     occFound =
-        foundSubStrInStr(line, " " + orb_type + "  occ. eigenvalues -- ");
+        foundSubStrInStr(line, " " + orb_type + "  occ. eigenvalues --");
     virtFound =
-        foundSubStrInStr(line, " " + orb_type + " virt. eigenvalues -- ");
+        foundSubStrInStr(line, " " + orb_type + " virt. eigenvalues --");
 
     if (occFound || virtFound) {
 
-- 
2.43.0


From fa433f6b1fb6e99cc2d3f7123fb5bb856106464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 30/40] fix: settings made through an argument are checked like
 those made on the rule

setPropOption was not virtual, so malformed file extensions, values other
than true and false of STRING_CHOICE_ENFORCED and settings that are
determined internally were taken when set through an argument or the
parser. File extensions were only checked by the constructors.
---
 src/libcatnip/io/arguments/properties/propertyfileext.cpp  | 7 +++++--
 src/libcatnip/io/arguments/properties/propertyfileext.hpp  | 2 +-
 src/libcatnip/io/arguments/properties/propertyobject.hpp   | 2 +-
 .../io/arguments/properties/propertysisterfile.cpp         | 2 +-
 .../io/arguments/properties/propertysisterfile.hpp         | 2 +-
 .../io/arguments/properties/propertystringchoice.cpp       | 4 ++--
 .../io/arguments/properties/propertystringchoice.hpp       | 2 +-
 7 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.cpp b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
index 670a889..17d8bf7 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
@@ -66,14 +66,17 @@ void PropertyFileExt::checkExt(const string& ext) const {
 }
 
 void PropertyFileExt::setPropOption(std::string option,
-                                    std::set<std::string> vars) {
+                                    const std::set<std::string>& vars) {
+  for (const auto& ext : vars) {
+    checkExt(ext);
+  }
   PropertyObject::setPropOption(option, vars);
 }
 
 void PropertyFileExt::setPropOption(std::string option, std::string var) {
   set<string> vars;
   vars.insert(var);
-  PropertyObject::setPropOption(option, vars);
+  setPropOption(option, vars);
 }
 
 bool PropertyFileExt::propValid(const string& fileNamePath) {
diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.hpp b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
index 7cf4b41..2da8355 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
@@ -21,7 +21,7 @@ class PropertyFileExt
   PropertyFileExt(std::set<std::string> exts);
   bool propValid(const std::string &fileNamePath);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string>& vars);
 };
 
 }  // namespace catnip
diff --git a/src/libcatnip/io/arguments/properties/propertyobject.hpp b/src/libcatnip/io/arguments/properties/propertyobject.hpp
index 584c662..4759b54 100644
--- a/src/libcatnip/io/arguments/properties/propertyobject.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyobject.hpp
@@ -61,7 +61,7 @@ class PropertyObject {
   std::vector<std::string> getPropertyOptions(void) const { return getOpts_(); }
 
   // Setup the valid options associated with the parameter
-  void setPropOption(std::string option, const T & val) {
+  virtual void setPropOption(std::string option, const T & val) {
     if (!propOptionValid_(option)) {
       throw std::invalid_argument("Property option is unrecognized " + option);
     }
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
index c1df59f..2426d06 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
@@ -78,7 +78,7 @@ void PropertySisterFile::setPropOption(std::string option,
 }
 
 void PropertySisterFile::setPropOption(std::string option,
-                                       vector<string> vec_vars) {
+                                       const vector<string>& vec_vars) {
 
   if (option.compare("ALLOWED_SISTER_FILE_EXT") == 0) {
     vector<string> fileNames;
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
index b7fdaec..3b4c6e1 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
@@ -19,7 +19,7 @@ class PropertySisterFile
  public:
   PropertySisterFile(void);
   void setPropOption(std::string option, const std::string &var);
-  void setPropOption(std::string option, std::vector<std::string> var);
+  void setPropOption(std::string option, const std::vector<std::string> &var);
   bool propValid(const std::string &fileNamePath);
 };
 
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index 416b2ed..a845e00 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -45,13 +45,13 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
 }
 
 void PropertyStringChoice::setPropOption(std::string option,
-                                         set<string> set_vars) {
+                                         const set<string>& set_vars) {
 
   if (option.compare("STRING_CHOICES") == 0) {
     setPropOption_(option, set_vars);
     return;
   } else if (option.compare("STRING_CHOICE_ENFORCED") == 0) {
-    if (set_vars.size() > 1) {
+    if (set_vars.size() != 1) {
       string err = "";
       for (auto var : set_vars) {
         err.append(var);
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
index 580d816..6cf44a5 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
@@ -16,7 +16,7 @@ class PropertyStringChoice
  public:
   PropertyStringChoice(void);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string>& var);
   bool propValid(const std::string& string_choice);
 };
 
-- 
2.43.0


From e66b417e5b5a921688f015961134aa3a636e9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 31/40] fix: a decimal that is not a number is in no range

---
 src/libcatnip/io/arguments/properties/propertydouble.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/arguments/properties/propertydouble.cpp b/src/libcatnip/io/arguments/properties/propertydouble.cpp
index 28f2a3b..6e19746 100644
--- a/src/libcatnip/io/arguments/properties/propertydouble.cpp
+++ b/src/libcatnip/io/arguments/properties/propertydouble.cpp
@@ -17,6 +17,9 @@ vector<string> PropertyDouble::getOpts_(void) const {
 }
 
 void PropertyDouble::doubleValid(const double& val) {
+  if (val != val) {
+    throw invalid_argument("The value is not a number");
+  }
   if (val < getPropOption("MIN")) {
     string err = "The value is smaller than allowed " + to_string(val) +
                  " the "
-- 
2.43.0


From be68063191f64d8dd665007c84c043b079ecf1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 32/40] fix: the limits of a string's length can be set through
 an argument

They are of type size_t, for which there was no way to set them, and
setting them as an int was refused as unrecognized.
---
 src/libcatnip/io/arguments/argumentobject.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libcatnip/io/arguments/argumentobject.hpp b/src/libcatnip/io/arguments/argumentobject.hpp
index a54b549..eadfce3 100644
--- a/src/libcatnip/io/arguments/argumentobject.hpp
+++ b/src/libcatnip/io/arguments/argumentobject.hpp
@@ -387,6 +387,16 @@ class ArgumentObject {
         setval = true;
       }
     }
+    for (auto prop : size_t_propobjs_) {
+      if (property.compare(prop->getPropertyName()) == 0) {
+        if (val < 0) {
+          throw std::invalid_argument("The option " + option +
+                                      " cannot be negative");
+        }
+        prop->setPropOption(option, static_cast<size_t>(val));
+        setval = true;
+      }
+    }
     if (!setval) {
       std::string err = "Argument property: " + property + " with option: " +
                         ""
-- 
2.43.0


From 05be2335c0ebf36c570d61e75922a3a6f81b42fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 33/40] fix: read back the rules of decimal arguments

---
 src/libcatnip/io/argumentparser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 7b90340..4d6fd74 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -569,6 +569,13 @@ string ArgumentParser::getFlagArgOptValue(string flag, string argname,
       return argInt->getPropertyValues(property, option);
     }
   }
+  if (double_arg_.count(flag) != 0) {
+    auto argDouble = double_arg_[flag];
+    auto argName = argDouble->getArgumentName();
+    if (argName.compare(argname) == 0) {
+      return argDouble->getPropertyValues(property, option);
+    }
+  }
 
   throw invalid_argument("Unrecognized flag or argument " + flag + " " +
                          argname);
-- 
2.43.0


From 241abe0ffbae2a360461b54e9e928f0444beed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 34/40] fix: the placeholder for a missing abbreviation is no
 option

An argument NO_SHORT_FLAG_SPECIFIED was taken for the first option that
was declared without an abbreviated name.
---
 src/libcatnip/io/argumentparser.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 4d6fd74..1fefd23 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -13,6 +13,9 @@
 using namespace catnip;
 using namespace std;
 
+// Stands for the abbreviated name of a flag without one
+static const string no_short_flag = "NO_SHORT_FLAG_SPECIFIED";
+
 // stoi and stod ignore everything that follows the number
 static void checkWholeNumber(const string& flag, const string& argument,
                              size_t length) {
@@ -43,7 +46,7 @@ ArgumentParser::ArgumentParser(set<vector<string>> flags) {
     }
 
     string full_flag = "NO_FLAG_SPECIFIED";
-    string short_flag = "NO_SHORT_FLAG_SPECIFIED";
+    string short_flag = no_short_flag;
     string desc = "NO_DESCRIPTION_GIVEN";
 
     bool description = false;
@@ -412,7 +415,8 @@ void ArgumentParser::setFlagArgOpt(string flag, string argname, string property,
 bool ArgumentParser::nextParameterIsAFlag_(size_t index,
                                            vector<string> arguments) {
 
-  if ((index + 1) < arguments.size()) {
+  if ((index + 1) < arguments.size() &&
+      arguments.at(index + 1).compare(no_short_flag) != 0) {
     for (auto flag : flags_) {
       if (flag.first.compare(arguments.at(index + 1)) == 0) {
         return true;
@@ -427,7 +431,7 @@ bool ArgumentParser::nextParameterIsAFlag_(size_t index,
 void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
   string flag = arguments.at(index);
   // If the abbreviated flag is passed we need to resolve the full flag name
-  if (flags_.count(flag) == 0) {
+  if (flags_.count(flag) == 0 && flag.compare(no_short_flag) != 0) {
     for (auto item : flags_) {
       if (item.second.first.compare(flag) == 0) {
         flag = item.first;
@@ -677,7 +681,8 @@ void ArgumentParser::parse(const char* argv[], int argc) {
   string version_flag = "--version";
   string version_flag_short = "-version";
   string version_flag_declared = version_flag_short;
-  if (flags_.count(version_flag)) {
+  if (flags_.count(version_flag) &&
+      flags_[version_flag].first.compare(no_short_flag) != 0) {
     version_flag_declared = flags_[version_flag].first;
   }
 
-- 
2.43.0


From 9fd928b4d197ea056d8c6aaec1999d71347f7893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 35/40] fix: the usage text of options without an abbreviation
 ends

---
 src/libcatnip/io/argumentparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 1fefd23..23efca1 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -119,6 +119,9 @@ void ArgumentParser::showUsage(void) {
       cout << " ";
     }
     string short_flag = item.second.first;
+    if (short_flag.compare(no_short_flag) == 0) {
+      short_flag = "";
+    }
     diff = maxShortFlagSize - short_flag.size();
     cout << short_flag;
     for (size_t i = 0; i <= diff; ++i) {
-- 
2.43.0


From 5f4d125e3139a55b053a4c6c56530f8fc1639e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 36/40] fix: print every shelf of a matrix, not the first one
 again

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index cdf42f8..9fadb26 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -197,7 +197,7 @@ std::ostream &operator<<(std::ostream &out, Matrix &mat) {
     for (i = 1; i <= mat.get_rows(); i++) {
       out << "Row " << i << "\t";
       for (j = 1; j <= mat.get_cols(); j++) {
-        out << mat.get_elem(i, j) << "\t";
+        out << mat.get_elem(i, j, k) << "\t";
       }
       out << "\n";
     }
-- 
2.43.0


From 6a8531b43166edf5156ec5896e6752fd0b0cb83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 37/40] fix: a new set of parameters asks for no citation

---
 src/libcatnip/parameters.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/parameters.hpp b/src/libcatnip/parameters.hpp
index 1664717..9f7c7f3 100644
--- a/src/libcatnip/parameters.hpp
+++ b/src/libcatnip/parameters.hpp
@@ -47,6 +47,7 @@ class Parameters {
         orb_numP(0),
         orb_num1(0),
         orb_num2(0),
+        citation(false),
         counterPoise(false){};
 
   std::string getLog1() const { return log1_; }
-- 
2.43.0


From 8f831090bd39349f3631c062e35f9f5fce7fb36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 38/40] fix: a reader reads its file from the beginning each
 time

Reading a file again with the same reader continued from the position where
the first reading had ended when a table begins in the first line, and after
a reading that was refused it silently found nothing.
---
 src/libcatnip/io/file_readers/filereader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 73a1747..4012377 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -30,8 +30,11 @@ void FileReader::open() {
   if (!fileExist_()) {
     throw invalid_argument("File " + fileName_ + " does not exist.");
   }
+  // A reading that was given up has left it open
+  if (fid_.is_open()) close();
   fid_.open(fileName_);
   fileOpen_ = true;
+  pos_ = 0;
 }
 
 void FileReader::close() {
-- 
2.43.0


From 041ca6650df30b90e04ddea634ae3ff8303b6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 39/40] fix: a later table of populations replaces an earlier
 one

Its atoms were added to those of the earlier table, so that a log file of two
calculations told the basis functions of neither.
---
 src/libcatnip/io/file_readers/logreader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 3500102..652bd8e 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -143,6 +143,8 @@ vector<int> LogReader::getBasisFuncCount() {
 void LogReader::AOFunctionSectionReader(void *ptr) {
   LOG("Reading atomic basis functions from .log file", 1);
   LogReader *LR_ptr = static_cast<LogReader *>(ptr);
+  // There may be several of these tables, only the latest one is wanted
+  LR_ptr->orb_.clear();
 
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
-- 
2.43.0


From 637820b65d055bc92c3d5a3e47b856d706e4646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:57 +0000
Subject: [PATCH 40/40] fix: match atoms with ten or more decimals

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 9fadb26..2d481d0 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -173,7 +173,7 @@ string double_tos(double f, int nd) {
   // The default of six digits is not enough for all the decimals of a large
   // value
   ostr.precision(17);
-  int tens = stod("1" + string(nd, '0'));
+  double tens = stod("1" + string(nd, '0'));
   // Adding zero turns a negative zero into zero
   ostr << round(f * tens) / tens + 0.0;
   return ostr.str();
-- 
2.43.0

