From b1410faa101503fc355e7eb7a72afb282f0edece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 1/2] fix: initialise every field of default-constructed
 parameters and poles

ami_parms() left N_INT_, TYPE_, int_type_ and dispersion_ indeterminate (two of
the other constructors left dispersion_ so), and pole_struct left index_ so, as
did the result of update_Z_pole. Results then depended on what the memory held
before. The documented defaults (Sigma, hubbard, tight binding) now apply.
---
 src/ami_base.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ami_base.hpp b/src/ami_base.hpp
index e1e9100..28b668b 100644
--- a/src/ami_base.hpp
+++ b/src/ami_base.hpp
@@ -206,7 +206,7 @@ public:
   /// Parameters for AMI construction/evaluation.
   struct ami_parms {
     /// Number of integrations to perform.
-    int N_INT_;
+    int N_INT_ = 0;
     /// Hardcoded as (1) in this version - represents number of external
     /// variables.
     int N_EXT_ = 1;
@@ -248,9 +248,9 @@ public:
 
     ami_parms() {}
 
-    graph_type TYPE_;
-    int_type int_type_;
-    disp_type dispersion_;
+    graph_type TYPE_ = Sigma;
+    int_type int_type_ = hubbard;
+    disp_type dispersion_ = tb;
   };
 
   /// A Green's function structure.  This is a symbolic vector of `epsilon_t`
@@ -314,7 +314,7 @@ public:
     epsilon_t eps_;
     alpha_t alpha_;
     /// Index that specifies which frequency it is a pole with respect to.
-    int index_;
+    int index_ = 0;
     /// The multiplicity of the pole, starts at 1 and increments as needed.
     int multiplicity_ = 1;
     int der_ = 0;              /**< Counter for derivatives. */
-- 
2.43.0


From 5b146d6870500db033b678b19bf09bdb89a04af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 2/2] fix: restore std::cout's precision after verbose reports

---
 src/ami_base_evaluate.cpp       | 11 +++++++++++
 src/ami_base_terms_evaluate.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 290ae54..d1b311d 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -1,5 +1,15 @@
 #include "ami_base.hpp"
 
+namespace {
+// Restores the precision of a stream when the scope is left.
+struct precision_guard {
+  std::ostream &os;
+  std::streamsize precision;
+  explicit precision_guard(std::ostream &s) : os(s), precision(s.precision()) {}
+  ~precision_guard() { os.precision(precision); }
+};
+} // namespace
+
 // TODO: since there is some duplication of code in these two evaluate commands
 // they should be separated
 std::complex<double> AmiBase::evaluate(ami_parms &parms, R_t &R_array,
@@ -515,6 +525,7 @@ std::complex<double> AmiBase::fermi_pole(ami_parms &parms, pole_struct pole,
               << " in exponent " << std::exp(beta * (E)) << std::endl;
 			  
 	std::cout<<"Energy list is :(";
+		precision_guard guard(std::cout);
 		for(int ii=0; ii< external.energy_.size(); ii++){
 			std::cout<<std::setprecision(20)<<" "<<external.energy_[ii]<<" ,";
 		}
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index d31d3ba..f079421 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -1,5 +1,15 @@
 #include "ami_base.hpp"
 
+namespace {
+// Restores the precision of a stream when the scope is left.
+struct precision_guard {
+  std::ostream &os;
+  std::streamsize precision;
+  explicit precision_guard(std::ostream &s) : os(s), precision(s.precision()) {}
+  ~precision_guard() { os.precision(precision); }
+};
+} // namespace
+
 
 
 std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
@@ -194,6 +204,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
     if (verbose) {
 		print_term(ami_terms[i]);
+      precision_guard guard(std::cout);
       std::cout <<std::setprecision(32)<< "Term gave " << i << " " << term
                 << " and current total is : " << output << std::endl;
     }
-- 
2.43.0

