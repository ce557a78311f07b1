From 1bd3092348bf86e603c56b1f2ea8615b9c8279ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:55 +0000
Subject: [PATCH 01/13] fix: take inv_tol from the constructor argument, not
 from the uninitialised member

---
 src/micro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index 898363e..cfb224c 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -34,7 +34,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	lz(dim == 2 ? 0.0 : _micro_params[2]),
 	width(_micro_params[3]),
 
-	inv_tol(micro_params[4]),
+	inv_tol(_micro_params[4]),
 	nx(size[0]),
 	ny(size[1]),
 	nz(_dim == 2 ? 1 : size[2]),
-- 
2.43.0


From 2712489b93e02eed11f517efc090627b4fdc5a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:55 +0000
Subject: [PATCH 02/13] fix: divide the 3D averages by the volume of the cell

---
 src/assembly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 8a1e43b..64f7d26 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -784,7 +784,7 @@ void micropp_t::calc_ave_stress(double stress_ave[6])
 	}
 
 	for (int v = 0; v < nvoi; v++)
-		stress_ave[v] /= (lx * ly);
+		stress_ave[v] /= (dim == 2) ? (lx * ly) : (lx * ly * lz);
 }
 
 void micropp_t::calc_ave_strain(double strain_ave[6])
@@ -840,7 +840,7 @@ void micropp_t::calc_ave_strain(double strain_ave[6])
 	}
 
 	for (int v = 0; v < nvoi; v++)
-		strain_ave[v] /= (lx * ly);
+		strain_ave[v] /= (dim == 2) ? (lx * ly) : (lx * ly * lz);
 }
 
 void micropp_t::calc_fields()
-- 
2.43.0


From 0d671f6827307834d3fda181e158e9c4d1c1b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:55 +0000
Subject: [PATCH 03/13] fix: count Newton iterations instead of advancing the
 pointer

---
 src/solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solve.cpp b/src/solve.cpp
index 70d61a6..fc6a450 100644
--- a/src/solve.cpp
+++ b/src/solve.cpp
@@ -60,7 +60,7 @@ void micropp_t::newton_raphson(bool * nl_flag, int *its, double *err)
 		for (int i = 0; i < nn * dim; i++)
 			u[i] = u[i] + du[i];
 
-		*its++;
+		(*its)++;
 
 	} while ((*its < NR_MAX_ITS) && (*err > NR_MAX_TOL));
 }
-- 
2.43.0


From e16258ce59a3e9c00ddbd07b622f6f96cfebce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:55 +0000
Subject: [PATCH 04/13] fix: release the work vectors of the Jacobi solver,
 define err with no iteration

---
 src/ell.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index ea883bd..a355c8f 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -77,7 +77,7 @@ int ell_solve_jacobi_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx,
 
 	int its = 0;
 	int max_its = solver->max_its;
-	double err;
+	double err = 0;
 	double min_tol = solver->min_tol;
 
 	while (its < max_its) {
@@ -110,6 +110,10 @@ int ell_solve_jacobi_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx,
 	}
 	solver->err = err;
 	solver->its = its;
+
+	free(k);
+	free(e_i);
+
 	return 0;
 }
 
-- 
2.43.0


From f114b60c1eacd6d9d94828b859fe8c9d9a74bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:56 +0000
Subject: [PATCH 05/13] fix: decouple the right nodes and slots in
 ell_set_bc_2D

---
 src/ell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index a355c8f..651c4ac 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -465,7 +465,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 		for (int i = 0; i < nx - 4; i++) {
 			for (int l = 6; l < 9; ++l)
 				for (int d2 = 0; d2 < nFields; d2++)
-					mvals[n * nFields * nnz + d1 * nnz + 6 * nFields + d2] = 0;
+					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
 			n += 1;
 		}
 	}
@@ -486,7 +486,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{ // x = lx - hx
 		const int tmp[] = { 2, 5, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = 4 * nx - 1;
+			int n = 3 * nx - 2;
 			for (int i = 0; i < ny - 4; i++) {
 				for (auto l : tmp)
 					for (int d2 = 0; d2 < nFields; d2++)
@@ -520,7 +520,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{// x = lx - hx , y = ly - hy
 		const int tmp[] = { 2, 5, 6, 7, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = (ny - 1) * nx - 1;
+			int n = (ny - 1) * nx - 2;
 			for (auto l : tmp)
 				for (int d2 = 0; d2 < nFields; d2++)
 					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
-- 
2.43.0


From 404a0de3212fc9ea94f7c3de7c3b114553908b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:56 +0000
Subject: [PATCH 06/13] fix: column of the upper neighbour at x = lx in
 ell_init_2D

---
 src/ell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index 651c4ac..b19ddc0 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -841,7 +841,7 @@ void ell_init_2D(ell_matrix *m, int nFields, int nx, int ny)
 					mcols[4 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
 					mcols[5 * nFields + nnz * d1 + d2] = 0;
 					mcols[6 * nFields + nnz * d1 + d2] = (i + nx - 1) * nFields + d2;
-					mcols[7 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
+					mcols[7 * nFields + nnz * d1 + d2] = (i + nx) * nFields + d2;
 					mcols[8 * nFields + nnz * d1 + d2] = 0;
 				}
 			}
-- 
2.43.0


From 3d7336253c5c9d0bc216c29cffaeff9cade57cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:56 +0000
Subject: [PATCH 07/13] fix: start from zero displacements and zero internal
 variables

---
 src/micro.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index cfb224c..0bca0f9 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -57,12 +57,12 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 
 	b = (double *) malloc(nn * dim * sizeof(double));
 	du = (double *) malloc(nn * dim * sizeof(double));
-	u = (double *) malloc(nn * dim * sizeof(double));
+	u = (double *) calloc(nn * dim, sizeof(double));
 	elem_stress = (double *) malloc(nelem * nvoi * sizeof(double));
 	elem_strain = (double *) malloc(nelem * nvoi * sizeof(double));
 	elem_type = (int *) malloc(nelem * sizeof(int));
-	vars_old = (double *) malloc(num_int_vars * sizeof(double));
-	vars_new = (double *) malloc(num_int_vars * sizeof(double));
+	vars_old = (double *) calloc(num_int_vars, sizeof(double));
+	vars_new = (double *) calloc(num_int_vars, sizeof(double));
 
 	assert( b && du && u && elem_stress && elem_strain &&
 	        elem_type && vars_old && vars_new );
-- 
2.43.0


From 771c3313f9c882401909b192c496065444ede1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:56 +0000
Subject: [PATCH 08/13] fix: refresh the trial internal variables also after an
 elastic step

---
 src/homogenize.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 1fcf6c6..27e882e 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -170,13 +170,13 @@ void micropp_t::homogenize()
 			newton_raphson(&nl_flag, &nr_its, &nr_err);
 			calc_ave_stress(gp.macro_stress);
 
-			if (nl_flag == true) {
-				if (gp.int_vars_n == NULL) {
-					gp.int_vars_k = (double *) malloc(num_int_vars * sizeof(double));
-					gp.int_vars_n = (double *) malloc(num_int_vars * sizeof(double));
-					for (int i = 0; i < num_int_vars; ++i)
-						gp.int_vars_n[i] = 0.0;
-				}
+			if (nl_flag == true && gp.int_vars_n == NULL) {
+				gp.int_vars_k = (double *) malloc(num_int_vars * sizeof(double));
+				gp.int_vars_n = (double *) malloc(num_int_vars * sizeof(double));
+				for (int i = 0; i < num_int_vars; ++i)
+					gp.int_vars_n[i] = 0.0;
+			}
+			if (gp.int_vars_n != NULL) {
 				for (int i = 0; i < num_int_vars; ++i)
 					gp.int_vars_k[i] = vars_new[i];
 			}
-- 
2.43.0


From ce253f04dbb2ecebcbbbad1ec5235b4e3268de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:56 +0000
Subject: [PATCH 09/13] fix: an element is non-linear when any of its gauss
 points yields

---
 src/assembly.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 64f7d26..0bb5c11 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -661,6 +661,8 @@ void micropp_t::get_elem_rhs2D(int ex, int ey, bool *non_linear, double (&be)[2
 		{-0.577350269189626, +0.577350269189626}
 	};
 
+	*non_linear = false;
+
 	for (int i = 0; i < 2 * 4; i++)
 		be[i] = 0.0;
 
@@ -684,9 +686,12 @@ void micropp_t::get_elem_rhs2D(int ex, int ey, bool *non_linear, double (&be)[2
 			bmat[2][i * dim + 1] = dsh[i][0];
 		}
 
+		bool non_linear_gp;
 		double strain_gp[3];
 		get_strain2D(ex, ey, gp, strain_gp);
-		get_stress2D(ex, ey, gp, strain_gp, non_linear, stress_gp);
+		get_stress2D(ex, ey, gp, strain_gp, &non_linear_gp, stress_gp);
+		if (non_linear_gp == true)
+			*non_linear = true;
 
 		double wg = 0.25 * dx * dy;
 		for (int i = 0; i < npe * dim; i++) {
@@ -702,6 +707,8 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 {
 	double bmat[6][3 * 8], cxb[6][3 * 8], stress_gp[6];
 
+	*non_linear = false;
+
 	for (int i = 0; i < 3 * 8; i++)
 		be[i] = 0.0;
 
@@ -709,9 +716,12 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 
 		calc_bmat_3D(gp, bmat);
 
+		bool non_linear_gp;
 		double strain_gp[6];
 		get_strain3D(ex, ey, ez, gp, strain_gp);
-		get_stress3D(ex, ey, ez, gp, strain_gp, non_linear, stress_gp);
+		get_stress3D(ex, ey, ez, gp, strain_gp, &non_linear_gp, stress_gp);
+		if (non_linear_gp == true)
+			*non_linear = true;
 
 		double wg = (1 / 8.0) * dx * dy * dz;
 		for (int i = 0; i < npe * dim; i++)
-- 
2.43.0


From e0f20ff4ff1731f36c0c9afa474c0bb260d079a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:56 +0000
Subject: [PATCH 10/13] fix: value-initialise new gauss points

---
 src/homogenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 27e882e..41f3a12 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -98,7 +98,7 @@ void micropp_t::set_macro_strain(const int gp_id, const double *macro_strain)
 		}
 	}
 	if (gp == gauss_list.end()) {
-		gp_t gp_n;
+		gp_t gp_n = gp_t();
 		gp_n.id = gp_id;
 		gp_n.int_vars_n = NULL;
 		gp_n.int_vars_k = NULL;
-- 
2.43.0


From 4ae04500881fa67effc42ef62c7c20874baebe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:56 +0000
Subject: [PATCH 11/13] fix: forbid copies of micropp_t, which owns raw buffers

---
 include/micro.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/micro.hpp b/include/micro.hpp
index 06970f1..fe06704 100644
--- a/include/micro.hpp
+++ b/include/micro.hpp
@@ -99,6 +99,9 @@ class micropp_t {
 		          const int *mat_types, const double *params);
 		~micropp_t();
 
+		micropp_t(const micropp_t &) = delete;
+		micropp_t &operator=(const micropp_t &) = delete;
+
 		void calc_ctan_lin();
 
 		bool is_linear(const double *macro_strain);
-- 
2.43.0


From 309ee1e4bbf42a0d84b583d89566df81202a3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:56 +0000
Subject: [PATCH 12/13] fix: release the previous instance when the wrapper
 constructs again

---
 src/wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 22ac880..35926d3 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -30,6 +30,7 @@ extern "C" {
 	void micropp_construct_(int *dim, int size[3], int *micro_type,
 	                        double *micro_params, int *mat_types, double *params)
 	{
+		delete micro;
 		micro = new micropp_t(*dim, size, *micro_type, micro_params, mat_types, params); 
 	}
 
-- 
2.43.0


From 5e1fef8b79f8fa98154893071da9aedb5bb08189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:56 +0000
Subject: [PATCH 13/13] fix: plastic shear strains are stored as tensor
 components, not engineering ones

---
 src/assembly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 0bb5c11..e164ba8 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1032,7 +1032,7 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 		sig_dev_trial[i] = 2 * material->mu * (eps_dev[i] - eps_p_dev_1[i]);
 
 	for (int i = 3; i < 6; ++i)
-		sig_dev_trial[i] = material->mu * (eps_dev[i] - eps_p_dev_1[i]);
+		sig_dev_trial[i] = material->mu * (eps_dev[i] - 2 * eps_p_dev_1[i]);
 
 	sig_dev_trial_norm = sqrt(sig_dev_trial[0] * sig_dev_trial[0] +
 	                          sig_dev_trial[1] * sig_dev_trial[1] +
-- 
2.43.0

