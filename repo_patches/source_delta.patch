From b532b7814872e5d697d5451bb08cc1570c3b67b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 01/13] fix: second-derivative kernel tensor: complete the
 diagonal and return type

---
 include/laplace_kernel.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/laplace_kernel.h b/include/laplace_kernel.h
index ac8e6c4..6c1ee80 100644
--- a/include/laplace_kernel.h
+++ b/include/laplace_kernel.h
@@ -72,8 +72,9 @@ namespace LaplaceKernel
                 if (i == j)
                   {
                     Hyper[j][j] = 2 * (R[j] * R[j]);
-                    for (unsigned int k = 0; k < dim && k != i; ++k)
-                      Hyper[j][j] -= (R[k] * R[k]);
+                    for (unsigned int k = 0; k < dim; ++k)
+                      if (k != i)
+                        Hyper[j][j] -= (R[k] * R[k]);
                   }
                 else
                   Hyper[i][j] = 3 * R[i] * R[j];
@@ -84,7 +85,7 @@ namespace LaplaceKernel
 
         default:
           Assert(false, ExcInternalError());
-          return Point<dim>();
+          return Tensor<2, dim>();
       }
   }
 
-- 
2.43.0


From e27e950abdf2120a5426d2d991988b6cff52e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 02/13] fix: copies of multipole/local expansions and
 translation tables are complete and independent

---
 include/local_expansion_coeff.h |  2 ++
 source/local_expansion.cc       | 30 ++++++++++++++++++++++--------
 source/local_expansion_coeff.cc | 28 ++++++++++++++++++++++++++--
 source/multipole_expansion.cc   | 28 ++++++++++++++++++++--------
 4 files changed, 70 insertions(+), 18 deletions(-)

diff --git a/include/local_expansion_coeff.h b/include/local_expansion_coeff.h
index 4d5499c..8530440 100644
--- a/include/local_expansion_coeff.h
+++ b/include/local_expansion_coeff.h
@@ -21,6 +21,8 @@ public:
   LocalExpansionCoeff();
   LocalExpansionCoeff(const unsigned int &p);
   LocalExpansionCoeff(const LocalExpansionCoeff &orig);
+  LocalExpansionCoeff &
+  operator=(const LocalExpansionCoeff &orig);
   double
   get(const unsigned int &n,
       const unsigned int &m,
diff --git a/source/local_expansion.cc b/source/local_expansion.cc
index 2f1e511..998c3cb 100644
--- a/source/local_expansion.cc
+++ b/source/local_expansion.cc
@@ -48,10 +48,15 @@ LocalExpansion::LocalExpansion(const LocalExpansion &other)
   this->lExp_to_lExp_Coeff = other.lExp_to_lExp_Coeff;
   this->mExp_to_lExp_Coeff = other.mExp_to_lExp_Coeff;
   this->center             = other.center;
-  this->_L_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_L_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  this->_L_n_m             = NULL;
+  if (other._L_n_m != NULL)
+    {
+      this->_L_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_L_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
 }
 
@@ -64,15 +69,24 @@ LocalExpansion::~LocalExpansion()
 LocalExpansion &
 LocalExpansion::operator=(const LocalExpansion &other)
 {
+  if (this == &other)
+    return *this;
   this->p                  = other.p;
   this->assLegFunction     = other.assLegFunction;
   this->lExp_to_lExp_Coeff = other.lExp_to_lExp_Coeff;
   this->mExp_to_lExp_Coeff = other.mExp_to_lExp_Coeff;
   this->center             = other.center;
-  this->_L_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_L_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  if (_L_n_m != NULL)
+    delete[] _L_n_m;
+  this->_L_n_m = NULL;
+  if (other._L_n_m != NULL)
+    {
+      this->_L_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_L_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
   return *this;
 }
diff --git a/source/local_expansion_coeff.cc b/source/local_expansion_coeff.cc
index c1eea65..7466e24 100644
--- a/source/local_expansion_coeff.cc
+++ b/source/local_expansion_coeff.cc
@@ -29,8 +29,32 @@ LocalExpansionCoeff::LocalExpansionCoeff(const unsigned int &p)
 LocalExpansionCoeff::LocalExpansionCoeff(const LocalExpansionCoeff &orig)
 {
   _p     = orig._p;
-  _coeff = new double[(_p + 1) * (_p + 1) * (_p + 1) * (_p + 2) / 2];
-  memcpy(_coeff, orig._coeff, this->getNumberOfElements());
+  _coeff = NULL;
+  if (orig._coeff != NULL)
+    {
+      _coeff = new double[this->getNumberOfElements()];
+      memcpy(_coeff,
+             orig._coeff,
+             sizeof(double) * this->getNumberOfElements());
+    }
+}
+
+LocalExpansionCoeff &
+LocalExpansionCoeff::operator=(const LocalExpansionCoeff &orig)
+{
+  if (this == &orig)
+    return *this;
+  delete[] _coeff;
+  _p     = orig._p;
+  _coeff = NULL;
+  if (orig._coeff != NULL)
+    {
+      _coeff = new double[this->getNumberOfElements()];
+      memcpy(_coeff,
+             orig._coeff,
+             sizeof(double) * this->getNumberOfElements());
+    }
+  return *this;
 }
 
 LocalExpansionCoeff::~LocalExpansionCoeff()
diff --git a/source/multipole_expansion.cc b/source/multipole_expansion.cc
index 8dbe221..a94cc47 100644
--- a/source/multipole_expansion.cc
+++ b/source/multipole_expansion.cc
@@ -39,10 +39,15 @@ MultipoleExpansion::MultipoleExpansion(const MultipoleExpansion &other)
   this->p              = other.p;
   this->assLegFunction = other.assLegFunction;
   this->center         = other.center;
-  this->_M_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_M_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  this->_M_n_m         = NULL;
+  if (other._M_n_m != NULL)
+    {
+      this->_M_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_M_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
 }
 
@@ -51,15 +56,22 @@ MultipoleExpansion::MultipoleExpansion(const MultipoleExpansion &other)
 MultipoleExpansion &
 MultipoleExpansion::operator=(const MultipoleExpansion &other)
 {
+  if (this == &other)
+    return *this;
   this->p              = other.p;
   this->assLegFunction = other.assLegFunction;
   this->center         = other.center;
   if (_M_n_m != NULL)
     delete[] _M_n_m;
-  this->_M_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_M_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  this->_M_n_m = NULL;
+  if (other._M_n_m != NULL)
+    {
+      this->_M_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_M_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
   return *this;
 }
-- 
2.43.0


From a7c84d6ad6479641e231b9438fef3de62290b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 03/13] fix: adding raw coefficients to a local expansion
 writes inside its coefficient array

---
 source/local_expansion.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/local_expansion.cc b/source/local_expansion.cc
index 998c3cb..2302236 100644
--- a/source/local_expansion.cc
+++ b/source/local_expansion.cc
@@ -106,9 +106,7 @@ LocalExpansion::Add(const std::vector<double> &real,
         {
           std::complex<double> a(real.at(count), imag.at(count));
           sum += norm(a);
-          this->AddToCoeff(n, n + m, a);
-          a = std::conj(a);
-          this->AddToCoeff(n, n - m, a);
+          this->AddToCoeff(n, m, a);
           count++;
         }
     }
-- 
2.43.0


From fd455cb7b31ba4b7cf172bfc48f69a6b153d05c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 04/13] fix: expansions of sources on the polar axis or in the
 centre of their block are finite

---
 source/local_expansion.cc     |  2 +-
 source/multipole_expansion.cc | 61 ++++++++++++++++++++++++-----------
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/source/local_expansion.cc b/source/local_expansion.cc
index 2302236..a52b764 100644
--- a/source/local_expansion.cc
+++ b/source/local_expansion.cc
@@ -272,7 +272,7 @@ LocalExpansion::Evaluate(const dealii::Point<3> &evalPoint)
       unsigned int     p           = this->p;
       dealii::Point<3> blockRelPos = evalPoint + (-1.0 * this->center);
       double           rho         = sqrt(blockRelPos.square());
-      double           cos_alpha_  = blockRelPos(2) / rho;
+      double           cos_alpha_  = (rho > 0. ? blockRelPos(2) / rho : 1.);
       double           beta        = atan2(blockRelPos(1), blockRelPos(0));
 
       double P_n_m;
diff --git a/source/multipole_expansion.cc b/source/multipole_expansion.cc
index a94cc47..bbf5a43 100644
--- a/source/multipole_expansion.cc
+++ b/source/multipole_expansion.cc
@@ -115,7 +115,7 @@ MultipoleExpansion::Add(const double strength, const dealii::Point<3> &point)
 
       dealii::Point<3> pointRelPos = point + (-1.0 * this->center);
       double           rho         = sqrt(pointRelPos.square());
-      double           cos_alpha_  = pointRelPos(2) / rho;
+      double           cos_alpha_  = (rho > 0. ? pointRelPos(2) / rho : 1.);
       double           beta        = atan2(pointRelPos(1), pointRelPos(0));
       double           P_n_m;
       for (int n = 0; n < int(this->p) + 1; n++)
@@ -150,19 +150,34 @@ MultipoleExpansion::AddNormDer(const double                strength,
       dealii::Tensor<1, 3> normVersor =
         normal / sqrt(normal[0] * normal[0] + normal[1] * normal[1] +
                       normal[2] * normal[2]); // normal.square());
-      double rho     = sqrt(pointRelPos.square());
-      double dRhodN  = (pointRelPos / rho) * normVersor;
-      double beta    = atan2(pointRelPos(1), pointRelPos(0));
-      double dBetadN = (dealii::Point<3>(-pointRelPos(1), pointRelPos(0), 0.) /
-                        (pow(pointRelPos(0), 2.) + pow(pointRelPos(1), 2.))) *
-                       normVersor;
-
-      double cos_alpha_ = pointRelPos(2) / rho;
-      double dAlphadN   = (dealii::Point<3>(cos_alpha_ * cos(beta),
-                                          cos_alpha_ * sin(beta),
-                                          -sqrt(1. - pow(cos_alpha_, 2.))) /
-                         rho) *
+      double rho        = sqrt(pointRelPos.square());
+      double cos_alpha_ = (rho > 0. ? pointRelPos(2) / rho : normVersor[2]);
+      double dRhodN     = 1.;
+      double beta       = atan2(normVersor[1], normVersor[0]);
+      double dBetadN    = 0.;
+      double dAlphadN   = 0.;
+      // on the polar axis of the block the azimuth is not defined, and the
+      // derivative is taken along the meridian containing the normal; in the
+      // center of the block it is taken along the ray parallel to the normal
+      const bool on_axis = (1. - pow(cos_alpha_, 2.) <= 0.);
+      if (rho > 0.)
+        {
+          dRhodN = (pointRelPos / rho) * normVersor;
+          if (!on_axis)
+            {
+              beta    = atan2(pointRelPos(1), pointRelPos(0));
+              dBetadN = (dealii::Point<3>(-pointRelPos(1), pointRelPos(0), 0.) /
+                         (pow(pointRelPos(0), 2.) + pow(pointRelPos(1), 2.))) *
                         normVersor;
+            }
+          dAlphadN =
+            (dealii::Point<3>(cos_alpha_ * cos(beta),
+                              cos_alpha_ * sin(beta),
+                              on_axis ? 0. :
+                                        -sqrt(1. - pow(cos_alpha_, 2.))) /
+             rho) *
+            normVersor;
+        }
 
 
       double P_n_m;
@@ -173,15 +188,23 @@ MultipoleExpansion::AddNormDer(const double                strength,
             {
               P_n_m =
                 this->assLegFunction->GetAssLegFunSph(n, abs(m), cos_alpha_);
-              dP_n_m_sin =
-                this->assLegFunction->GetAssLegFunSphDeriv(n,
-                                                           abs(m),
-                                                           cos_alpha_) *
-                sqrt(1 - pow(cos_alpha_, 2.));
+              if (on_axis)
+                // limit of the product below, nonzero for m = 1 only
+                dP_n_m_sin =
+                  (m == 1 ? pow(cos_alpha_, double(n)) *
+                              sqrt(double(n) * (double(n) + 1.)) / 2. :
+                            0.);
+              else
+                dP_n_m_sin =
+                  this->assLegFunction->GetAssLegFunSphDeriv(n,
+                                                             abs(m),
+                                                             cos_alpha_) *
+                  sqrt(1 - pow(cos_alpha_, 2.));
               std::complex<double> z =
                 exp(std::complex<double>(0., -double(m) * beta));
               z *= std::complex<double>(
-                double(n) * pow(rho, double(n) - 1.) * P_n_m * dRhodN -
+                (n > 0 ? double(n) * pow(rho, double(n) - 1.) : 0.) * P_n_m *
+                    dRhodN -
                   pow(rho, double(n)) * dP_n_m_sin * dAlphadN,
                 -double(m) * pow(rho, double(n)) * P_n_m * dBetadN);
               z *= strength;
-- 
2.43.0


From 1a082508fc8700b63933697b9c00f343730256f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 05/13] fix: the right-hand side of the fast method does not
 depend on the previous content of its result

---
 source/bem_problem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 5c38cc1..8ffbb90 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1683,7 +1683,7 @@ BEMProblem<dim>::compute_rhs(TrilinosWrappers::MPI::Vector       &dst,
                                        matrVectProdN,
                                        matrVectProdD);
       serv_phi.scale(alpha);
-      dst += matrVectProdN;
+      dst = matrVectProdN;
       dst += serv_phi;
       dst *= -1;
       dst += matrVectProdD;
-- 
2.43.0


From 217a1f5c05bdedf2746722142449402a87c1cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:42 +0000
Subject: [PATCH 06/13] fix: flat and sharp Dirichlet edges are told apart by
 the distance of their normals

---
 source/bem_problem.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 8ffbb90..d029e83 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1977,10 +1977,11 @@ BEMProblem<dim>::compute_constraints(
                                          // + ((*it) -
                                          // start_per_process[this_mpi_process])
                                          // * dim + idim;//(*it)*dim+idim
-                            normal_distance += localized_normals[index1] *
-                                               localized_normals[index2];
+                            normal_distance += pow(localized_normals[index1] -
+                                                     localized_normals[index2],
+                                                   2);
                           }
-                        normal_distance /= normal_distance;
+                        normal_distance = sqrt(normal_distance);
                         if (normal_distance < 1e-4)
                           {
                             c.add_line(*it);
-- 
2.43.0


From 946990401d29444f63fa55b1c74d89668fdafa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 07/13] fix: singular quadratures are rebuilt for another
 element or order

---
 source/bem_problem.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index d029e83..06acee0 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -426,7 +426,10 @@ BEMProblem<3>::get_singular_quadrature(const unsigned int index) const
 
 
 
-  static std::vector<Quadrature<2>> quadratures;
+  static std::map<std::pair<std::string, unsigned int>,
+                  std::vector<Quadrature<2>>>
+    cache;
+  auto &quadratures = cache[{fe->get_name(), singular_quadrature_order}];
   {
     if (quadratures.size() == 0)
       for (unsigned int i = 0; i < fe->dofs_per_cell; ++i)
@@ -445,7 +448,10 @@ BEMProblem<2>::get_singular_quadrature(const unsigned int index) const
 {
   Assert(index < fe->dofs_per_cell, ExcIndexRange(0, fe->dofs_per_cell, index));
 
-  static std::vector<Quadrature<1>> quadratures;
+  static std::map<std::pair<std::string, unsigned int>,
+                  std::vector<Quadrature<1>>>
+    cache;
+  auto &quadratures = cache[{fe->get_name(), singular_quadrature_order}];
   if (quadratures.size() == 0)
     for (unsigned int i = 0; i < fe->dofs_per_cell; ++i)
       {
-- 
2.43.0


From 772304070aa40df8deacfc2fa773f4ed30d8adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 08/13] fix: room in the octree for blocks that hold only nodes

The block table was sized by the quadrature points alone; with few points per
cell the blocks that contain nodes only were written past its end.
---
 source/bem_fma.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index a584ee9..c8516f8 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3887,9 +3887,11 @@ BEMFMA<dim>::generate_octree_blocking()
         delete blocks[ii];
     }
 
+  // the root, and per level at most one block for each quadrature point and node
   types::global_dof_index maxNumBlocks =
-    num_octree_levels * fma_dh->get_triangulation().n_active_cells() *
-    fe_v.n_quadrature_points;
+    1 + num_octree_levels * (fma_dh->get_triangulation().n_active_cells() *
+                               fe_v.n_quadrature_points +
+                             fma_dh->n_dofs());
   // unsigned int maxNumBlocks = 0;
   // for (unsigned int ii = 0; ii < num_octree_levels + 1;  ii++)
   //  {
-- 
2.43.0


From 017a77fed353e219052710382b6ef00abc11327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 09/13] fix: scale the z axis of a spheroid and keep the
 scaling at every set-up

The third loop body scaled the y component again and left z alone, and the
scaling was applied only when the mapping was created, so that after an
adaptive refinement the geometry was the unscaled sphere.
---
 source/bem_problem.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 06acee0..75215a7 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -194,10 +194,6 @@ BEMProblem<dim>::reinit()
       // Fills the euler vector with information from the Triangulation
       VectorTools::get_position_vector(gradient_dh, map_vector);
       vector_constraints.distribute(map_vector);
-    }
-  // mapping_degree = fe->get_degree();
-  if (!mapping)
-    {
       if (comp_dom.spheroid_bool && comp_dom.used_spherical_manifold)
         {
           for (types::global_dof_index ii = 0; ii < gradient_dh.n_dofs() / dim;
@@ -209,11 +205,16 @@ BEMProblem<dim>::reinit()
                                                          dim]] *=
                 comp_dom.spheroid_y_axis;
               if (dim == 3)
-                map_vector[vec_original_to_sub_wise[ii + gradient_dh.n_dofs() /
+                map_vector[vec_original_to_sub_wise[ii + 2 *
+                                                           gradient_dh.n_dofs() /
                                                            dim]] *=
                   comp_dom.spheroid_z_axis;
             }
         }
+    }
+  // mapping_degree = fe->get_degree();
+  if (!mapping)
+    {
       if (mapping_type == "FE")
         mapping = std::make_shared<MappingFEField<dim - 1, dim>>(gradient_dh,
                                                                  map_vector);
-- 
2.43.0


From 65f3835742d08c9e0ef3219fa1401e8bd8c4ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:19 +0000
Subject: [PATCH 10/13] fix: keep the potential as the datum of a node shared
 by a Dirichlet and a Neumann cell

Such a node is classified as a Dirichlet node whichever cell comes last, but
prepare_bem_vectors stored the normal derivative as its datum when the Neumann
cell came after the Dirichlet one.
---
 source/boundary_conditions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index 60ced12..c9a1ecb 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -279,7 +279,9 @@ BoundaryConditions<dim>::prepare_bem_vectors()
                 // ("<<node_normals[j]<<")  "<<" pos ("<<node_coors[j]<<")
                 // "<<node_coors[j](0)<<std::endl;
               }
-            else
+            // a node shared with a Dirichlet cell is a Dirichlet node, whichever
+            // cell comes last
+            else if (bem.dirichlet_nodes(local_dof_indices[j]) == 0)
               {
                 for (auto nbound : comp_dom.neumann_boundary_ids)
                   if (cell->material_id() == nbound)
-- 
2.43.0


From 19ba825a6d00b2553eb1e1d108565b3c546ec48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 11/13] fix: report the largest nodal error of the potential as
 such

The value printed as the L_inf error of phi at the nodes was the largest of the
cells' L2 errors.
---
 source/boundary_conditions.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index c9a1ecb..2a3ceae 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -413,8 +413,6 @@ BoundaryConditions<dim>::compute_errors()
                                           2 * (2 * bem.fe->degree + 1)),
                                         VectorTools::L2_norm);
 
-      phi_max_error = difference_per_cell.linfty_norm();
-
       //        }
       VectorTools::integrate_difference(*bem.mapping,
                                         bem.gradient_dh,
@@ -449,6 +447,7 @@ BoundaryConditions<dim>::compute_errors()
 
       phi_node_error *= -1.0;
       phi_node_error.add(1., localized_phi);
+      phi_max_error = phi_node_error.linfty_norm();
 
       Vector<double>              dphi_dn_node_error(bem.dh.n_dofs());
       std::vector<Vector<double>> dphi_dn_nodes_errs(bem.dh.n_dofs(),
-- 
2.43.0


From 43ae71799bf34cbcb8f8f94636c8719614be42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:25 +0000
Subject: [PATCH 12/13] fix: fill the band preconditioner by the kind of the
 unknown of each column

---
 source/bem_problem.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 75215a7..8e9a85f 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -2205,6 +2205,9 @@ BEMProblem<dim>::assemble_preconditioner()
   else
     band_system = 0;
 
+  // The unknown of a column is the potential on Neumann nodes and its normal
+  // derivative on Dirichlet nodes.
+  const Vector<double> localized_dirichlet_nodes(dirichlet_nodes);
 
   for (types::global_dof_index i = 0; i < dh.n_dofs(); ++i)
     {
@@ -2234,7 +2237,7 @@ BEMProblem<dim>::assemble_preconditioner()
             {
               if (constraints.is_constrained(i) == false)
                 {
-                  if (dirichlet_nodes(i) == 0)
+                  if (localized_dirichlet_nodes(j) == 0)
                     {
                       // Nodo di Dirichlet
                       band_system.add(i, j, neumann_matrix(i, j));
-- 
2.43.0


From 8452b059ae938955c8f3e5e4d58bdc91a20ed91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:25 +0000
Subject: [PATCH 13/13] fix: put constraints into the fast method's
 preconditioner with their sign in the operator

---
 source/bem_fma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index c8516f8..c209b4f 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3421,7 +3421,7 @@ BEMFMA<dim>::FMA_preconditioner(
                   {
                     final_preconditioner.set(i,
                                              (*entries)[j].first,
-                                             (*entries)[j].second);
+                                             -(*entries)[j].second);
                     // pcout<<i<<" "<<(*entries)[j].first<<"  *
                     // "<<(*entries)[j].second<<std::endl;
                   }
-- 
2.43.0

