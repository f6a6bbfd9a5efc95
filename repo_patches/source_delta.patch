From cf46d4a8700d50dec6e41599305b0232d41b9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:32 +0000
Subject: [PATCH 01/23] fix: run_spectrum_1loop left the 1-loop terms bound to
 freed scratch memory

---
 src/spectrum_1loop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrum_1loop.c b/src/spectrum_1loop.c
index 9b5cfc9..9c79401 100644
--- a/src/spectrum_1loop.c
+++ b/src/spectrum_1loop.c
@@ -129,9 +129,11 @@ void run_spectrum_1loop(char* a_,char* b_,size_t num_threads)
 	size_t nk = pk_1loop.nk;
 	histo_t *k = pk_1loop.k;
 	size_t size = sizeof(histo_t);
+	Terms1Loop saved_terms_1loop = terms_1loop; //keep the terms set by the user
 	set_terms_spectrum_1loop(nk,k,(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size));
 	run_terms_spectrum_1loop(a_,b_,num_threads);
 	spectrum_1loop(pk_1loop.pk);
 	free_terms_spectrum_1loop();
+	terms_1loop = saved_terms_1loop;
 }
 
-- 
2.43.0


From 4caa953268456209cdf4230091dc8585e17f3797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:09 +0000
Subject: [PATCH 02/23] fix: run_terms_B kept the freed internal spectra for
 the next computation

---
 src/spectrum_B.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 5f46cba..6c2ff2d 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -110,6 +110,7 @@ void run_terms_B(size_t num_threads)
 	calc_running_sigmad2(terms_B.k,terms_B.sigmad2,terms_B.nk,uvcutoff);
 	
 	_Bool free_spectra = 0;
+	Pk user_pk_dt = pk_dt, user_pk_tt = pk_tt; //spectra set by the user, if any
 	if ((pk_dt.nk==0)||(pk_tt.nk==0)) {
 		free_spectra = 1; 
 		run_spectra_B_1loop(num_threads);
@@ -138,6 +139,10 @@ void run_terms_B(size_t num_threads)
 			free_B();
 		}
 	}
-	if (free_spectra) free_spectra_B();
+	if (free_spectra) {
+		free_spectra_B();
+		pk_dt = user_pk_dt;
+		pk_tt = user_pk_tt;
+	}
 	if (verbose == INFO) timer(1);
 }
-- 
2.43.0


From 69e4ec0c74c300d618f54c3bf86ece98e0e4a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:09 +0000
Subject: [PATCH 03/23] fix: set_spectra_B took P_delta_delta for P_delta_theta

---
 src/spectrum_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 6c2ff2d..c29e196 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -62,7 +62,7 @@ void set_spectra_B(char* a_,char* b_, size_t nk, histo_t *k, histo_t *pk)
 	pk_ab.pk = pk;
 	FLAG a = set_flag(a_);
 	FLAG b = set_flag(b_);
-	if (((a==DELTA)&&(b=THETA))||((a==THETA)&&(b==DELTA))) {
+	if (((a==DELTA)&&(b==THETA))||((a==THETA)&&(b==DELTA))) {
 		if (verbose == INFO) printf(" - setting P_delta_theta\n");
 		pk_dt = pk_ab;
 	}
-- 
2.43.0


From 69b91e834c663aa49dacc96f7a55352c7f656b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:09 +0000
Subject: [PATCH 04/23] fix: all threads wrote the shared input spectra of the
 B term

---
 src/calc_pkcorr_from_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calc_pkcorr_from_B.c b/src/calc_pkcorr_from_B.c
index 99f0a1c..957d2ec 100644
--- a/src/calc_pkcorr_from_B.c
+++ b/src/calc_pkcorr_from_B.c
@@ -13,7 +13,7 @@
 static Pk pk_dt,pk_tt;
 static GaussLegendreQ gauss_legendre_q;
 static GaussLegendreMu gauss_legendre_mu;
-#pragma omp threadprivate(gauss_legendre_q,gauss_legendre_mu)
+#pragma omp threadprivate(pk_dt,pk_tt,gauss_legendre_q,gauss_legendre_mu)
 static const Precision precision_q_default = {.n=600,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=600,.min=5e-4,.max=10.,.interpol=POLY};
 static const Precision precision_mu_default = {.n=10,.min=-1.,.max=1.,.interpol=POLY};
-- 
2.43.0


From ab79dcb55fcaa46f21b470ee1d03fa35553db567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:09 +0000
Subject: [PATCH 05/23] fix: print_k read outside an empty array of modes

---
 src/regpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regpt.c b/src/regpt.c
index 267c8f3..3ada97e 100644
--- a/src/regpt.c
+++ b/src/regpt.c
@@ -40,7 +40,7 @@ void print_k(histo_t *k,size_t nk)
 {
 	printf("*** k-output\n");
 	printf(" - #modes: %zu\n",nk);
-	printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
+	if (nk>0) printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
 }
 
 void print_flags(FLAG a,FLAG b)
-- 
2.43.0


From 53a4747cfaa1db168011a564e91fb5cb624435f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:09 +0000
Subject: [PATCH 06/23] fix: find_pk started the search of each mode where the
 previous one was found

---
 src/common.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index d44ed31..41097ee 100644
--- a/src/common.c
+++ b/src/common.c
@@ -193,7 +193,6 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 		else if (k[ik]<kstart) pk[ik] = extrapol_pk_lowk(pkin,k[ik]);
 		else {
 			size_t ind = get_dichotomy_index(k[ik],pkin.k,start,end+1);
-			start = ind;
 			if (interpol==POLY) {
 				size_t ikmin = MAX(0,((long) ind)-2);
 				size_t ikmax = MIN(end,ind+2);
-- 
2.43.0


From b02222bd2d123897b5b985dd594714514730a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:09 +0000
Subject: [PATCH 07/23] fix: linear find_pk read past the table at its last
 wavenumber

---
 src/common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common.c b/src/common.c
index 41097ee..639183d 100644
--- a/src/common.c
+++ b/src/common.c
@@ -198,6 +198,7 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 				size_t ikmax = MIN(end,ind+2);
 				pk[ik] = interpol_poly(k[ik],&(pkin.k[ikmin]),&(pkin.pk[ikmin]),ikmax-ikmin+1);
 			}
+			else if (ind==end) pk[ik] = pkin.pk[end];
 			else pk[ik] = interpol_lin(k[ik],pkin.k[ind],pkin.k[ind+1],pkin.pk[ind],pkin.pk[ind+1]);
 		}
 	}
-- 
2.43.0


From 6930f6e2e030afcc2fe3bf02e626582a7f75b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:09 +0000
Subject: [PATCH 08/23] fix: low-k extrapolation did not start from the first
 tabulated value

---
 src/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 639183d..e4f3f70 100644
--- a/src/common.c
+++ b/src/common.c
@@ -164,7 +164,7 @@ histo_t extrapol_pk_lowk(Pk pkin,histo_t k)
 		dlnp_dlnk += my_log(pkin.pk[ik+1]/pkin.pk[ik-1])/my_log(pkin.k[ik+1]/pkin.k[ik-1]);
 	}
 	histo_t n_eff = dlnp_dlnk/((histo_t) (end-start));
-	return pkin.pk[start]*my_pow((k/pkin.k[start]),n_eff);
+	return pkin.pk[0]*my_pow((k/pkin.k[0]),n_eff);
 }
 
 histo_t extrapol_pk_highk(Pk pkin,histo_t k)
-- 
2.43.0


From 100867d56b3c47097cc2dc37aca92d0d068e24ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:09 +0000
Subject: [PATCH 09/23] fix: calc_running_sigmad2 carried its partial integral
 over to smaller wavenumbers

---
 src/common.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index e4f3f70..f73886c 100644
--- a/src/common.c
+++ b/src/common.c
@@ -212,15 +212,16 @@ void find_pk_lin(histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 void calc_running_sigmad2(histo_t *k,histo_t *sigmad2,size_t nk,histo_t uvcutoff)
 {
 	//sigmav^2 = int_0^{k/2} dq P0(q)/(6*pi^2)
-	size_t ik,iklin = 0;
-	histo_t sigmad2_ = 0.;
+	size_t ik;
 	for (ik=0;ik<nk;ik++) {
+		size_t iklin;
+		histo_t sigmad2_ = 0.;
 		histo_t kmax = k[ik]*uvcutoff;
 		if (kmax < pk_lin.k[0]) {
 			sigmad2[ik] = 0.;
 			continue;
 		}
-		for (iklin=iklin;iklin<pk_lin.nk-1;iklin++) {
+		for (iklin=0;iklin<pk_lin.nk-1;iklin++) {
 			if (kmax < pk_lin.k[iklin+1]) {
 				histo_t pk_kmax = interpol_lin(kmax,pk_lin.k[iklin],pk_lin.k[iklin+1],pk_lin.pk[iklin],pk_lin.pk[iklin+1]);
 				sigmad2[ik] = (sigmad2_ + (pk_kmax + pk_lin.pk[iklin]) * (kmax - pk_lin.k[iklin]))/(12.*M_PI*M_PI);
-- 
2.43.0


From 191fbfbb1449e9b3f1936d11d5a2f6f4082d317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:09 +0000
Subject: [PATCH 10/23] fix: automatic range of gamma3 and A II, III replaced
 the setting and stuck to the first spectrum

---
 src/calc_pkcorr_from_A_2loop_II_III.c | 11 ++++++-----
 src/calc_pkcorr_from_gamma3.c         | 18 ++++++++++--------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/calc_pkcorr_from_A_2loop_II_III.c b/src/calc_pkcorr_from_A_2loop_II_III.c
index 1aa84b8..e0af4bb 100644
--- a/src/calc_pkcorr_from_A_2loop_II_III.c
+++ b/src/calc_pkcorr_from_A_2loop_II_III.c
@@ -30,12 +30,13 @@ void set_precision_A_2loop_II_III_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_A_2loop_II_III()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	histo_t qmin = precision_q.min,qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 	get_precision_bispectrum_1loop_pk_lin(&interpol_pk_lin);
 	get_running_uvcutoff_bispectrum_1loop(&uvcutoff);
 }
diff --git a/src/calc_pkcorr_from_gamma3.c b/src/calc_pkcorr_from_gamma3.c
index b568d63..3c824a8 100644
--- a/src/calc_pkcorr_from_gamma3.c
+++ b/src/calc_pkcorr_from_gamma3.c
@@ -6,7 +6,7 @@
 #include "common.h"
 #include "kernels.h"
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static FLAG a,b;
@@ -19,12 +19,14 @@ void set_precision_gamma3_tree_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_gamma3_tree()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 }
 
 void free_gamma3_tree() {}
@@ -63,7 +65,7 @@ static void kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
@@ -134,7 +136,7 @@ static int kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *n
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
-- 
2.43.0


From b56bf749234817cf4eb3e55bf0e03974ba31d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 11/23] fix: F3 compared wavevectors to an absolute length, so
 it vanished in large units

---
 src/kernels.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/kernels.c b/src/kernels.c
index f356f60..4ddb278 100644
--- a/src/kernels.c
+++ b/src/kernels.c
@@ -114,17 +114,18 @@ histo_t F3(FLAG a_, histo_t* p, histo_t* q, histo_t* r)
 	qr[0] = q[0] + r[0];
 	qr[1] = q[1] + r[1];
 	qr[2] = q[2] + r[2];
-	if (((my_abs(qr[0])<EPS)&&(my_abs(qr[1])<EPS)&&(my_abs(qr[2])<EPS))
-		||((my_abs(p[0]+qr[0])<EPS)&&(my_abs(p[1]+qr[1])<EPS)&&(my_abs(p[2]+qr[2])<EPS))) return 0.;
-
 	histo_t pp = p[0]*p[0] + p[1]*p[1] + p[2]*p[2];
+	histo_t qq = q[0]*q[0] + q[1]*q[1] + q[2]*q[2];
+	histo_t rr = r[0]*r[0] + r[1]*r[1] + r[2]*r[2];
+	histo_t eps = EPS*my_sqrt(pp+qq+rr); //relative to the wavevectors, whatever their unit
+	if (((my_abs(qr[0])<eps)&&(my_abs(qr[1])<eps)&&(my_abs(qr[2])<eps))
+		||((my_abs(p[0]+qr[0])<eps)&&(my_abs(p[1]+qr[1])<eps)&&(my_abs(p[2]+qr[2])<eps))) return 0.;
+
 	histo_t qrqr = qr[0]*qr[0] + qr[1]*qr[1] + qr[2]*qr[2];
 	histo_t pqr = p[0]*qr[0] + p[1]*qr[1] + p[2]*qr[2];
 	histo_t gam_112 = (1. + pqr / qrqr)/2.;
 	histo_t gam_222 = pqr*(pp+qrqr+2.*pqr)/(pp*qrqr)/2.;
 	histo_t gam_121 = (1. + pqr / pp)/2.;
-	histo_t qq = q[0]*q[0] + q[1]*q[1] + q[2]*q[2];
-	histo_t rr = r[0]*r[0] + r[1]*r[1] + r[2]*r[2];
 	histo_t mu = q[0]*r[0] + q[1]*r[1] + q[2]*r[2];
 	return 2*((sigmaab(3,a,1) * gam_112 + sigmaab(3,a,2) * gam_222) * F2_sym_fast(THETA,qq,rr,mu) + sigmaab(3,a,1) * gam_121 * F2_sym_fast(DELTA,qq,rr,mu));
 }
-- 
2.43.0


From 3456ef4b4ed1bfdd0c1371f14fdd56662b309011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 12/23] fix: sigma3sq is linear in the linear spectrum, rescale
 took it as quadratic

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 2bdfe17..4cab81f 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -406,7 +406,7 @@ class Spectrum2Loop(Spectrum1Loop):
 class Bias1Loop(PyRegPT):
 
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']
-    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 2}
+    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1}
 
     @scale_factor(1)
     def pk_lin(self):
-- 
2.43.0


From 55b0f2ed218f67dd272ae3c8ccd81bb5430bdfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:39 +0000
Subject: [PATCH 13/23] fix: debug output of the B spectra read P_theta_theta
 past its end when it is the shorter table

---
 src/spectrum_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index c29e196..e1e97ee 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -34,7 +34,7 @@ void write_spectra_B(char *fn)
 	size_t ik;
 	fr=fopen(fn,"w");
 	if (fr==NULL) error_open_file(fn);
-	for (ik=0;ik<pk_dt.nk;ik++) {
+	for (ik=0;ik<MIN(pk_dt.nk,pk_tt.nk);ik++) {
 		fprintf(fr,"%f %f %f\n",pk_dt.k[ik],pk_dt.pk[ik],pk_tt.pk[ik]);
 	}
 	fclose(fr);
-- 
2.43.0


From c817e8735f59f75bfeaa88e3cb68899227541e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 14/23] fix: group names and clear() did not reach every
 precision and cutoff setting

---
 pyregpt/pyregpt.py     | 12 +++++++-----
 src/spectrum_A_1loop.c |  2 +-
 src/spectrum_A_2loop.c |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 4cab81f..01680ca 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -266,20 +266,21 @@ class PyRegPT(Terms):
     def set_precision(self, calculation='all_q', n=0, min=1., max=-1., interpol='test'):
 
         if calculation == 'all':
-            for calculation in ['all_q', 'all_mu']:
+            for calculation in ['all_q', 'all_mu', 'all_pklin']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_q':
-            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_2loop_q', 'B_q']:
+            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_q', 'B_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_mu':
-            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
+            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'spectrum_1loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma2_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
+            return
         if calculation == 'spectrum_2loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_1loop_q', 'gamma3_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
@@ -293,11 +294,12 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_pklin':
-            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_pk_lin', 'bispectrum_1loop_pk_lin', 'spectrum_A_2loop_pklin', 'spectrum_B_2loop_pklin']:
+            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_1loop_pk_lin', 'bispectrum_1loop_pk_lin', 'A_1loop_pk_lin', 'A_2loop_pk_lin', 'B_pk_lin']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         func = getattr(self.regpt, 'set_precision_' + calculation)
         if 'pk_lin' in calculation:
+            if n <= 0 and max < min and interpol not in ['lin', 'poly']: interpol = 'poly'  # nothing is set: reset to default
             func.argtypes = (ctypes.c_char_p,)
             func(interpol.encode('utf-8'))
         elif calculation in ['gamma3_tree_q', 'A_2loop_II_III_q']:
@@ -313,7 +315,7 @@ class PyRegPT(Terms):
     def set_running_uvcutoff(self, calculation='all', uvcutoff=0.5):
 
         if calculation == 'all':
-            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop']:
+            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']:
                 self.set_running_uvcutoff(calculation, uvcutoff=uvcutoff)
             return
         func = getattr(self.regpt, 'set_running_uvcutoff_' + calculation)
diff --git a/src/spectrum_A_1loop.c b/src/spectrum_A_1loop.c
index 8320cd8..3311bb7 100644
--- a/src/spectrum_A_1loop.c
+++ b/src/spectrum_A_1loop.c
@@ -21,7 +21,7 @@ void set_precision_A_1loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_1loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_1loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
diff --git a/src/spectrum_A_2loop.c b/src/spectrum_A_2loop.c
index fb99862..ecc090e 100644
--- a/src/spectrum_A_2loop.c
+++ b/src/spectrum_A_2loop.c
@@ -19,7 +19,7 @@ void set_precision_A_2loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_2loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_2loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
-- 
2.43.0


From 0ac54ebd008f6fc32d871b4e98b26a4b377f54ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 15/23] fix: creating, copying or slicing an object reset the
 verbosity of the library

---
 pyregpt/pyregpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 01680ca..d8591aa 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -192,12 +192,13 @@ class PyRegPT(Terms):
 
     C_TYPE = ctypes.c_double
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
+    _verbose = 'info'  # the library, hence its verbosity, is shared by all objects
 
     def __init__(self, *args, **kwargs):
 
         super(PyRegPT, self).__init__(*args, **kwargs)
         self.regpt = ctypes.CDLL(self._path_lib, mode=ctypes.RTLD_LOCAL)
-        self.set_verbosity(self._verbose if hasattr(self, '_verbose') else 'info')
+        self.set_verbosity(self._verbose)
 
     def nodes_weights_gauss_legendre(self, xmin, xmax, nx):
 
@@ -247,7 +248,7 @@ class PyRegPT(Terms):
     def set_verbosity(self, mode='info'):
         self.regpt.set_verbosity.argtypes = (ctypes.c_char_p,)
         self.regpt.set_verbosity(mode.encode('utf-8'))
-        self._verbose = mode
+        PyRegPT._verbose = mode
 
     def set_spectrum_lin(self, spectrum_lin):
 
-- 
2.43.0


From a2abb8b174bf25f45d731c9d30e3c0b3bcc3a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 16/23] fix: pad_k overwrote columns when nothing was added at
 the end and failed on 2-D columns and other modes

---
 pyregpt/pyregpt.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index d8591aa..8124a39 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -97,16 +97,18 @@ class Terms(object):
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., **kwargs):
+        k = np.asarray(k)
         pad_start = np.sum(k < self.k[0])
         pad_end = np.sum(k > self.k[-1])
-        for key in self.FIELDS:
-            pad_width = ((0, 0)) * (self[key].ndim - 1) + ((pad_start, pad_end))
-            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, constant_values=constant_values)
-        self['k'][:pad_start] = k[:pad_start]
-        self['k'][-pad_end:] = k[-pad_end:]
+        if mode == 'constant': pad_kwargs = {'constant_values': constant_values}
+        else: pad_kwargs = {}
+        for key in self.fields:
+            pad_width = [(pad_start, pad_end)] + [(0, 0)] * (self[key].ndim - 1)
+            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, **pad_kwargs)
+        kwargs['k'] = k
         for key in kwargs:
             self[key][:pad_start] = kwargs[key][:pad_start]
-            self[key][-pad_end:] = kwargs[key][-pad_end:]
+            if pad_end: self[key][-pad_end:] = kwargs[key][-pad_end:]
 
     def nan_to_zero(self):
         for key in self.FIELDS: self[key][np.isnan(self[key])] = 0.
@@ -328,10 +330,10 @@ class PyRegPT(Terms):
         new.spectrum_lin = self.spectrum_lin.deepcopy()
         return new
 
-    def pad_k(self, k, mode='constant', constant_values=0., interpol='poly'):
-        super(PyRegPT, self).pad_k(k, mode=mode, constant_values=constant_values)
-        if 'pk_lin' in self.FIELDS: self['pk_lin'] = self.find_pk_lin(self.k, interpol=interpol)
-        if 'sigmad2' in self.FIELDS: self['sigmad2'] = self.calc_running_sigmad2(self.k)
+    def pad_k(self, k, mode='constant', constant_values=0., interpol='poly', **kwargs):
+        if 'pk_lin' in self.fields: kwargs.setdefault('pk_lin', self.find_pk_lin(k, interpol=interpol))
+        if 'sigmad2' in self.fields: kwargs.setdefault('sigmad2', self.calc_running_sigmad2(k))
+        super(PyRegPT, self).pad_k(k, mode=mode, constant_values=constant_values, **kwargs)
 
     def clear(self):
         #To reset all precision settings
-- 
2.43.0


From ff0cf88e780996738e4f52bae96b60612cf666d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 17/23] fix: deepcopy failed before the linear spectrum was set

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 8124a39..a260ed8 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -327,7 +327,7 @@ class PyRegPT(Terms):
 
     def deepcopy(self):
         new = super(PyRegPT, self).deepcopy()
-        new.spectrum_lin = self.spectrum_lin.deepcopy()
+        if hasattr(self, 'spectrum_lin'): new.spectrum_lin = self.spectrum_lin.deepcopy()
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., interpol='poly', **kwargs):
-- 
2.43.0


From 3ba8f8ba094e7c47e583f0de7963c4a0598c1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 18/23] fix: zeros used the library type of a class that has
 none, so SpectrumNoWiggle.set_terms failed

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index a260ed8..a6e5b71 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -120,8 +120,8 @@ class Terms(object):
         self['k'] = np.asarray(k, dtype=dtype).flatten()
         for key in self.FIELDS:
             if key == 'k': continue
-            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=self.C_TYPE).flatten()
-            else: self[key] = np.zeros((self.size,), dtype=self.C_TYPE)
+            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=dtype).flatten()
+            else: self[key] = np.zeros((self.size,), dtype=dtype)
 
     def reshape(self):
         for key in self.FIELDS:
-- 
2.43.0


From f6b1f268712d45c01f29751f32861ee5081a39b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 19/23] fix: pk_interp of the B terms ignored the values to be
 used outside the range

---
 pyregpt/pyregpt.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index a6e5b71..9fc59ec 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -577,15 +577,15 @@ class B1Loop(PyRegPT):
         beta2 = beta**2
         beta3 = beta2 * beta
         beta4 = beta2 * beta2
-        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=0., right=0.) \
-               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=0., right=0.) \
-               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=0., right=0.) \
-               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=0., right=0.) \
-               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=0., right=0.) \
-               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=0., right=0.) \
-               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=0., right=0.) \
-               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=0., right=0.) \
-               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=0., right=0.)
+        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=left, right=right) \
+               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=left, right=right) \
+               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=left, right=right) \
+               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=left, right=right) \
+               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=left, right=right) \
+               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=left, right=right) \
+               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=left, right=right) \
+               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=left, right=right) \
+               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=left, right=right)
 
 
 class B2Loop(B1Loop):
-- 
2.43.0


From a17782a0b40f5dfcb6ced01d61494010551bfe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:26 +0000
Subject: [PATCH 20/23] fix: strided linear spectra were passed to the library
 as if they were contiguous

---
 pyregpt/pyregpt.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 9fc59ec..a98a506 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -206,7 +206,7 @@ class PyRegPT(Terms):
 
         x = np.empty((nx), dtype=self.C_TYPE)
         w = np.empty((nx), dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(nx,))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(nx,), flags='C_CONTIGUOUS')
         self.regpt.nodes_weights_gauss_legendre.argtypes = (self.C_TYPE, self.C_TYPE, pointer, pointer, ctypes.c_size_t)
         self.regpt.nodes_weights_gauss_legendre(xmin, xmax, x, w, nx)
 
@@ -216,7 +216,7 @@ class PyRegPT(Terms):
 
         nx = len(tabx)
         assert nx == len(taby)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(nx,))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(nx,), flags='C_CONTIGUOUS')
         self.regpt.interpol_poly.argtypes = (self.C_TYPE, pointer, pointer, ctypes.c_size_t)
         self.regpt.interpol_poly.restype = self.C_TYPE
         return self.regpt.interpol_poly(x, tabx, taby, nx)
@@ -231,7 +231,7 @@ class PyRegPT(Terms):
 
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         pk = np.zeros_like(k)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),), flags='C_CONTIGUOUS')
         self.regpt.find_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t, ctypes.c_size_t)
         self.regpt.find_pk_lin(k, pk, len(k), 1 if interpol == 'poly' else 0)
 
@@ -241,7 +241,7 @@ class PyRegPT(Terms):
 
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         sigmad2 = np.zeros_like(k)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),), flags='C_CONTIGUOUS')
         self.regpt.calc_running_sigmad2.argtypes = (pointer, pointer, ctypes.c_size_t, self.C_TYPE)
         self.regpt.calc_running_sigmad2(k, sigmad2, len(k), uvcutoff)
 
@@ -255,9 +255,11 @@ class PyRegPT(Terms):
     def set_spectrum_lin(self, spectrum_lin):
 
         self.spectrum_lin = spectrum_lin
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
+        k, pk = (np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk'])
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,), flags='C_CONTIGUOUS')
         self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
-        self.regpt.set_pk_lin(self.spectrum_lin.k, self.spectrum_lin['pk'], self.spectrum_lin.size)
+        self.regpt.set_pk_lin(k, pk, self.spectrum_lin.size)
+        PyRegPT._arrays_lin = (k, pk)  # the library only holds pointers to these arrays
 
     def set_pk_lin(self, k, pk):
 
@@ -350,7 +352,7 @@ class Spectrum1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,), flags='C_CONTIGUOUS')
         self.regpt.set_terms_spectrum_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
         self.regpt.set_terms_spectrum_1loop(self.size, *self.tolist())
 
@@ -384,7 +386,7 @@ class Spectrum2Loop(Spectrum1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,), flags='C_CONTIGUOUS')
         self.regpt.set_terms_spectrum_2loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
         self.regpt.set_terms_spectrum_2loop(self.size, *self.tolist())
 
@@ -464,7 +466,7 @@ class Bias1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,), flags='C_CONTIGUOUS')
         self.regpt.set_terms_bias_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
         self.regpt.set_terms_bias_1loop(self.size, *self.tolist())
 
@@ -499,7 +501,7 @@ class A1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
+        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,), flags='C_CONTIGUOUS') for key in self.FIELDS]
         self.regpt.set_terms_A_1loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
         self.regpt.set_terms_A_1loop(self.size, *self.tolist())
 
@@ -527,7 +529,7 @@ class A2Loop(A1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
+        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,), flags='C_CONTIGUOUS') for key in self.FIELDS]
         self.regpt.set_terms_A_2loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
         self.regpt.set_terms_A_2loop(self.size, *self.tolist())
         self.reshape()
@@ -555,17 +557,18 @@ class B1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
+        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,), flags='C_CONTIGUOUS') for key in self.FIELDS]
         self.regpt.set_terms_B.argtypes = (ctypes.c_size_t,) + tuple(pointers)
         self.regpt.set_terms_B(self.size, *self.tolist())
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,), flags='C_CONTIGUOUS')
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
-        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
-        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
+        k, pk = (np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk'])
+        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk)
+        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk)
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
 
@@ -600,14 +603,15 @@ class B2Loop(B1Loop):
         self.spectrum_1loop_tt.set_terms(self.spectrum_lin.k)
         self.spectrum_1loop_tt.run_terms(a='theta', b='theta', nthreads=nthreads)
 
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,), flags='C_CONTIGUOUS')
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
 
+        k = self.spectrum_1loop_dt.k
         pk_dt = self.spectrum_1loop_dt.pk()  # why do I have to do that?
         pk_tt = self.spectrum_1loop_tt.pk()
 
-        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, pk_dt)
-        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, pk_tt)
+        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk_dt)
+        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk_tt)
 
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
-- 
2.43.0


From 916790d28f207eebb2692c2733628ef5fe32ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:21 +0000
Subject: [PATCH 21/23] fix: a computation filled the columns of the object set
 last, from the linear spectrum set last

---
 pyregpt/pyregpt.py | 52 +++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index a98a506..9b5412c 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -229,6 +229,7 @@ class PyRegPT(Terms):
 
     def find_pk_lin(self, k, interpol='poly'):
 
+        self.bind_spectrum_lin()
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         pk = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),), flags='C_CONTIGUOUS')
@@ -239,6 +240,7 @@ class PyRegPT(Terms):
 
     def calc_running_sigmad2(self, k, uvcutoff=0.5):
 
+        self.bind_spectrum_lin()
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         sigmad2 = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),), flags='C_CONTIGUOUS')
@@ -268,6 +270,20 @@ class PyRegPT(Terms):
         spectrum_lin['pk'] = np.asarray(pk, dtype=self.C_TYPE).flatten()
         self.set_spectrum_lin(spectrum_lin)
 
+    def bind_spectrum_lin(self):
+        # The library is shared by all objects: give it back the linear spectrum of this one
+        if hasattr(self, 'spectrum_lin'): self.set_spectrum_lin(self.spectrum_lin)
+
+    def bind_terms(self, calculation):
+        # The library is shared by all objects: make it fill the columns of this one
+        self.bind_spectrum_lin()
+        for key in self.FIELDS: self[key] = np.ascontiguousarray(self[key], dtype=self.C_TYPE)
+        self.reshape()
+        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,) + tuple(self.SHAPE.get(key, ())), flags='C_CONTIGUOUS') for key in self.FIELDS]
+        func = getattr(self.regpt, 'set_terms_' + calculation)
+        func.argtypes = (ctypes.c_size_t,) + tuple(pointers)
+        func(self.size, *self.tolist())
+
     def set_precision(self, calculation='all_q', n=0, min=1., max=-1., interpol='test'):
 
         if calculation == 'all':
@@ -352,12 +368,11 @@ class Spectrum1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,), flags='C_CONTIGUOUS')
-        self.regpt.set_terms_spectrum_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_1loop(self.size, *self.tolist())
+        self.bind_terms('spectrum_1loop')
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self.bind_terms('spectrum_1loop')
         self.regpt.run_terms_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_1loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -386,12 +401,11 @@ class Spectrum2Loop(Spectrum1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,), flags='C_CONTIGUOUS')
-        self.regpt.set_terms_spectrum_2loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_2loop(self.size, *self.tolist())
+        self.bind_terms('spectrum_2loop')
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self.bind_terms('spectrum_2loop')
         self.regpt.run_terms_spectrum_2loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_2loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -466,12 +480,11 @@ class Bias1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,), flags='C_CONTIGUOUS')
-        self.regpt.set_terms_bias_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_bias_1loop(self.size, *self.tolist())
+        self.bind_terms('bias_1loop')
 
     def run_terms(self, nthreads=8):
 
+        self.bind_terms('bias_1loop')
         self.regpt.run_terms_bias_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_bias_1loop(nthreads)
 
@@ -501,15 +514,13 @@ class A1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,), flags='C_CONTIGUOUS') for key in self.FIELDS]
-        self.regpt.set_terms_A_1loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_1loop(self.size, *self.tolist())
+        self.bind_terms('A_1loop')
 
     def run_terms(self, nthreads=8):
 
+        self.bind_terms('A_1loop')
         self.regpt.run_terms_A_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_1loop(nthreads)
-        self.reshape()
 
     def pk_interp(self, k, mu2, beta=1., Dgrowth=1., left=0., right=0.):
         pk = self.pk(Dgrowth).T
@@ -529,13 +540,11 @@ class A2Loop(A1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,), flags='C_CONTIGUOUS') for key in self.FIELDS]
-        self.regpt.set_terms_A_2loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_2loop(self.size, *self.tolist())
-        self.reshape()
+        self.bind_terms('A_2loop')
 
     def run_terms(self, nthreads=8):
 
+        self.bind_terms('A_2loop')
         self.regpt.run_terms_A_2loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_2loop(nthreads)
 
@@ -557,13 +566,11 @@ class B1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,), flags='C_CONTIGUOUS') for key in self.FIELDS]
-        self.regpt.set_terms_B.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_B(self.size, *self.tolist())
-        self.reshape()
+        self.bind_terms('B')
 
     def run_terms(self, nthreads=8):
 
+        self.bind_terms('B')
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,), flags='C_CONTIGUOUS')
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
         k, pk = (np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk'])
@@ -596,10 +603,12 @@ class B2Loop(B1Loop):
     def run_terms(self, nthreads=8):
 
         self.spectrum_1loop_dt = Spectrum1Loop()
+        self.spectrum_1loop_dt.set_spectrum_lin(self.spectrum_lin)
         self.spectrum_1loop_dt.set_terms(self.spectrum_lin.k)
         self.spectrum_1loop_dt.run_terms(a='delta', b='theta', nthreads=nthreads)
 
         self.spectrum_1loop_tt = Spectrum1Loop()
+        self.spectrum_1loop_tt.set_spectrum_lin(self.spectrum_lin)
         self.spectrum_1loop_tt.set_terms(self.spectrum_lin.k)
         self.spectrum_1loop_tt.run_terms(a='theta', b='theta', nthreads=nthreads)
 
@@ -613,5 +622,6 @@ class B2Loop(B1Loop):
         self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk_dt)
         self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk_tt)
 
+        self.bind_terms('B')
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
-- 
2.43.0


From f83f4e4dd69c8c2dd164a322df4fde908db5e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:53 +0000
Subject: [PATCH 22/23] fix: find_pk_lin passed the interpolation, a C enum, as
 a size_t

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 9b5412c..13e8dfd 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -233,7 +233,7 @@ class PyRegPT(Terms):
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         pk = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),), flags='C_CONTIGUOUS')
-        self.regpt.find_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t, ctypes.c_size_t)
+        self.regpt.find_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t, ctypes.c_int)
         self.regpt.find_pk_lin(k, pk, len(k), 1 if interpol == 'poly' else 0)
 
         return pk
-- 
2.43.0


From 8e2dc600eddfb2f1aa42bba64852e73b51a01513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 23/23] fix: sign of the cubic term of the series of beta for
 the velocity at two loops

---
 src/gamma1_2loop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gamma1_2loop.c b/src/gamma1_2loop.c
index 4694428..8cc511a 100644
--- a/src/gamma1_2loop.c
+++ b/src/gamma1_2loop.c
@@ -38,7 +38,7 @@ histo_t beta(FLAG a, histo_t q1, histo_t q2) {
 			histo_t diffy2 = diffy*diffy;
 			histo_t diffy3 = diffy2*diffy;
 			histo_t diffy4 = diffy3*diffy;
-			return 594232. / 33108075. + (91912.*diffy2)/33108075. - (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
+			return 594232. / 33108075. + (91912.*diffy2)/33108075. + (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
 		}
 		else if (y < 0.01) {
 			return 9886./429975. - 254356.*y*y/4729725.;
-- 
2.43.0

