From 80fa519bfc88993dd6c77a2474fea1409c24116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 01/69] fix: size Wigner-3j buffers by the larger of the map
 and mask lmax

With lmax_mask < lmax the buffers were too small and every mode-coupling
matrix failed (raising from inside an OpenMP region).
---
 src/nmt_master.c | 52 ++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index a8ca0dc..4f4592b 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -1,6 +1,10 @@
 #include "config.h"
 #include "utils.h"
 
+//Number of Wigner-3j symbols stored: l1 takes at most 2*min(l2,l3)+1 values,
+//with l2 and l3 up to the lmax of the maps (which may exceed that of the masks).
+#define NMT_W3J_SIZE(lmax,lmax_mask) (2*(NMT_MAX((lmax),(lmax_mask))+1))
+
 static void nmt_workspace_store_bins(nmt_workspace *w,
 				     nmt_binning_scheme *bin)
 {
@@ -229,11 +233,11 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
     int l3_list[2];
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(NMT_W3J_SIZE(c->lmax,c->lmax_mask)*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(NMT_W3J_SIZE(c->lmax,c->lmax_mask)*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(NMT_W3J_SIZE(c->lmax,c->lmax_mask)*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
 
@@ -253,11 +257,11 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
         lmax_here=ll2+ll3;
 
 	if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,NMT_W3J_SIZE(c->lmax,c->lmax_mask));
 	if(c->has_0s || c->has_ss)
-	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,NMT_W3J_SIZE(c->lmax,c->lmax_mask));
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,NMT_W3J_SIZE(c->lmax,c->lmax_mask));
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
@@ -511,18 +515,18 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     int ll2,ll3;
     double *wigner_ss1=NULL, *wigner_ss2=NULL, *wigner_ss1a=NULL, *wigner_ss2a=NULL;
     // s -s 0 terms
-    wigner_ss1=my_malloc(2*(lmax_mask+1)*sizeof(double));
+    wigner_ss1=my_malloc(NMT_W3J_SIZE(lmax,lmax_mask)*sizeof(double));
     if(reuse_ss1)
       wigner_ss2=wigner_ss1;
     else
-      wigner_ss2=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(NMT_W3J_SIZE(lmax,lmax_mask)*sizeof(double));
 
     // s s -2s terms
     if(mask_aniso_1)
-      wigner_ss1a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss1a=my_malloc(NMT_W3J_SIZE(lmax,lmax_mask)*sizeof(double));
     if(mask_aniso_2) {
       if((!reuse_ss1) || (mask_aniso_1 == 0))
-	wigner_ss2a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+	wigner_ss2a=my_malloc(NMT_W3J_SIZE(lmax,lmax_mask)*sizeof(double));
       else
 	wigner_ss2a=wigner_ss1a;
     }
@@ -540,20 +544,20 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 	lmax_here=ll2+ll3;
 
 	// s -s 0 terms
-	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(lmax_mask+1));
+	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,NMT_W3J_SIZE(lmax,lmax_mask));
 	if(reuse_ss1) {
 	  lmin_ss2=lmin_ss1;
 	  lmax_ss2=lmax_ss1;
 	}
 	else
-	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,NMT_W3J_SIZE(lmax,lmax_mask));
 
 	// s s -2s terms
 	if(mask_aniso_1)
-	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,NMT_W3J_SIZE(lmax,lmax_mask));
 	if(mask_aniso_2) {
 	  if((!reuse_ss1) || (mask_aniso_1 == 0))
-	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(lmax_mask+1));
+	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,NMT_W3J_SIZE(lmax,lmax_mask));
 	  else {
 	    lmin_ss2a=lmin_ss1a;
 	    lmax_ss2a=lmax_ss1a;
@@ -768,16 +772,16 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
     int ll2,ll3,icc;
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_12=NULL,*wigner_02=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(NMT_W3J_SIZE(c->lmax,c->lmax_mask)*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(NMT_W3J_SIZE(c->lmax,c->lmax_mask)*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(NMT_W3J_SIZE(c->lmax,c->lmax_mask)*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
     if(c->pure_any) {
-      wigner_12=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
-      wigner_02=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_12=my_malloc(NMT_W3J_SIZE(c->lmax,c->lmax_mask)*sizeof(double));
+      wigner_02=my_malloc(NMT_W3J_SIZE(c->lmax,c->lmax_mask)*sizeof(double));
     }
 
 #pragma omp for schedule(dynamic)
@@ -811,18 +815,18 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         }
 
         if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,NMT_W3J_SIZE(c->lmax,c->lmax_mask));
         if(c->has_0s || c->has_ss)
-          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,NMT_W3J_SIZE(c->lmax,c->lmax_mask));
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,NMT_W3J_SIZE(c->lmax,c->lmax_mask));
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
         }
 	if(c->pure_any) {
-	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(c->lmax_mask+1));
-	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,NMT_W3J_SIZE(c->lmax,c->lmax_mask));
+	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,NMT_W3J_SIZE(c->lmax,c->lmax_mask));
 	}
 
         for(l1=lmin_here;l1<=lmax_here;l1++) {
-- 
2.43.0


From 1058959fb04f5c0f601bdfb9c546132540aa448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 02/69] fix: enlarge the log-factorial table used by drc3jj_000

It is indexed up to l1+l2+l3+1 <= 4*lmax+1 but had 3*(lmax+1) elements.
---
 src/nmt_master.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 4f4592b..9cd9773 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -749,11 +749,13 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   }
 
   int lmax_max = NMT_MAX(c->lmax, c->lmax_mask);
-  c->lfac = my_malloc(3*(lmax_max+1)*sizeof(double));
+  // (up to l1+l2+l3+1, with l1 at most l2+l3)
+  int n_lfac = 4*lmax_max+2;
+  c->lfac = my_malloc(n_lfac*sizeof(double));
   // Precompute log-factorial
   c->lfac[0] = 0.0;
   c->lfac[1] = 0.0;
-  for(ii=2;ii<3*(lmax_max+1);ii++)
+  for(ii=2;ii<n_lfac;ii++)
     c->lfac[ii] = c->lfac[ii-1]+log((double)(ii));
 
   if(l_toeplitz>0)
-- 
2.43.0


From b4735e54e417a6060145938268cfa614e80162bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 03/69] fix: no odd-spin sign for the TT and E/B blocks of
 T-E-B matrices

For odd spins the (-1)^(spin1+spin2) sign was applied to all blocks, so
the TT and EE/EB/BE/BB blocks came out negative.
---
 src/nmt_master.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 9cd9773..67899c0 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -1122,17 +1122,18 @@ nmt_workspace *nmt_compute_coupling_matrix(int spin1,int spin2,
           w->coupling_matrix_unbinned[4*ll2+3][4*ll3+3]=fac*c->xi_pp[0][pb1+pb2][ll2][ll3]; //BB,BB
         }
         if(w->ncls==7) {
-          w->coupling_matrix_unbinned[7*ll2+0][7*ll3+0]=fac*c->xi_00[0][ll2][ll3]; //TT,TT
+          double fac_even=2*ll3+1.; //The sign only affects the T-E and T-B blocks
+          w->coupling_matrix_unbinned[7*ll2+0][7*ll3+0]=fac_even*c->xi_00[0][ll2][ll3]; //TT,TT
           w->coupling_matrix_unbinned[7*ll2+1][7*ll3+1]=fac*c->xi_0s[0][pe2][ll2][ll3]; //TE,TE
           w->coupling_matrix_unbinned[7*ll2+2][7*ll3+2]=fac*c->xi_0s[0][pb2][ll2][ll3]; //TB,TB
-          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+6]=fac*c->xi_mm[0][pe2+pe2][ll2][ll3]; //EE,BB
-          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+5]=-fac*c->xi_mm[0][pe2+pb2][ll2][ll3]; //EB,BE
-          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+4]=-fac*c->xi_mm[0][pb2+pe2][ll2][ll3]; //BE,EB
-          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+3]=fac*c->xi_mm[0][pb2+pb2][ll2][ll3]; //BB,EE
-          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+3]=fac*c->xi_pp[0][pe2+pe2][ll2][ll3]; //EE,EE
-          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+4]=fac*c->xi_pp[0][pe2+pb2][ll2][ll3]; //EB,EB
-          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+5]=fac*c->xi_pp[0][pb2+pe2][ll2][ll3]; //BE,BE
-          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+6]=fac*c->xi_pp[0][pb2+pb2][ll2][ll3]; //BB,BB
+          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+6]=fac_even*c->xi_mm[0][pe2+pe2][ll2][ll3]; //EE,BB
+          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+5]=-fac_even*c->xi_mm[0][pe2+pb2][ll2][ll3]; //EB,BE
+          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+4]=-fac_even*c->xi_mm[0][pb2+pe2][ll2][ll3]; //BE,EB
+          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+3]=fac_even*c->xi_mm[0][pb2+pb2][ll2][ll3]; //BB,EE
+          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+3]=fac_even*c->xi_pp[0][pe2+pe2][ll2][ll3]; //EE,EE
+          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+4]=fac_even*c->xi_pp[0][pe2+pb2][ll2][ll3]; //EB,EB
+          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+5]=fac_even*c->xi_pp[0][pb2+pe2][ll2][ll3]; //BE,BE
+          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+6]=fac_even*c->xi_pp[0][pb2+pb2][ll2][ll3]; //BB,BB
         }
       }
     } //end omp for
-- 
2.43.0


From 8c7c3985cb3a0fc6dbf3139cd8cdf6fe25edaf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 04/69] fix: purify fields whose lmax differs from lmax_mask

The spin-2 coefficients were computed up to lmax_mask, so adding the
spin-1 and spin-0 terms failed unless both were equal.
---
 pymaster/field.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 2028122..ab599cb 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -472,14 +472,14 @@ class NmtField(object):
         maps = maps_u*mask[None, :]
         # Compute alms
         alms = ut.map2alm(maps, 2, self.minfo,
-                          self.ainfo_mask, n_iter=n_iter)
+                          self.ainfo, n_iter=n_iter)
 
         # 2. Spin-1 mask bit
         # Compute spin-1 mask
-        ls = np.arange(self.ainfo_mask.lmax+1)
+        ls = np.arange(max(self.ainfo.lmax, self.ainfo_mask.lmax)+1)
         # The minus sign is because of the definition of E-modes
         fl = -np.sqrt((ls+1.0)*ls)
-        walm = hp.almxfl(alm_mask, fl,
+        walm = hp.almxfl(alm_mask, fl[:self.ainfo_mask.lmax+1],
                          mmax=self.ainfo_mask.mmax)
         walm = np.array([walm, walm*0])
         wmap = ut.alm2map(walm, 1, self.minfo, self.ainfo_mask)
@@ -504,7 +504,8 @@ class NmtField(object):
         # (E-mode definition for spin=0).
         fl[2:] = -np.sqrt((ls[2:]+2.0)*(ls[2:]-1.0))
         fl[:2] = 0
-        walm[0] = hp.almxfl(walm[0], fl, mmax=self.ainfo_mask.mmax)
+        walm[0] = hp.almxfl(walm[0], fl[:self.ainfo_mask.lmax+1],
+                            mmax=self.ainfo_mask.mmax)
         wmap = ut.alm2map(walm, 2, self.minfo, self.ainfo_mask)
         # Product with spin-2 mask
         maps = np.array([wmap[0]*maps_u[0]+wmap[1]*maps_u[1],
-- 
2.43.0


From e1bee9bb6efb0f5ee4465435fde65640a2c68c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 05/69] fix: coupling of a spin-1/3/... field with a purified
 spin-2 field

The purification terms were added to the Wigner symbol of the first
field, whatever its spin.
---
 src/nmt_master.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 67899c0..a329e3c 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -896,9 +896,12 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
                 wfac_ispure[0]=wss1;
                 wfac_ispure[0]*=wss2*pcl[l1];
                 if(c->pure_any) {
-                  wfac_ispure[1]=wss1+fac_12*w12+fac_02*w02;
+                  //The purified field is the spin-2 one, which may be the second
+                  double wpure=(c->s1==2) ? wss1 : wss2;
+                  double wother=(c->s1==2) ? wss2 : wss1;
+                  wfac_ispure[1]=wpure+fac_12*w12+fac_02*w02;
                   wfac_ispure[2]=wfac_ispure[1]*wfac_ispure[1]*pcl[l1];
-                  wfac_ispure[1]*=wss2*pcl[l1];
+                  wfac_ispure[1]*=wother*pcl[l1];
                 }
 
                 if(suml & 1) { //Odd sum
-- 
2.43.0


From 77629a004be9cca90aa2f1a8aa13ffc92301b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 06/69] fix: bound the error message written by report_error

A long file name in an error message overran the 256-byte buffer.
---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 57ecc14..5971ad5 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -18,7 +18,7 @@ void report_error(int level,char *fmt,...)
   char msg[256];
 
   va_start(args,fmt);
-  vsprintf(msg,fmt,args);
+  vsnprintf(msg,sizeof(msg),fmt,args);
   va_end(args);
   
   if(level) {
-- 
2.43.0


From 5cd1b08d47facd358ea956bd9fe69f75d5850e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 07/69] fix: report GSL errors as exceptions instead of
 aborting

Decoupling with a singular coupling matrix (e.g. an empty mask) or
passing unsorted multipoles to the flat-sky routines reached GSL's
default error handler, which kills the interpreter.
---
 src/utils.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils.c b/src/utils.c
index 5971ad5..58d097a 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -7,9 +7,16 @@ int nmt_exception_status;
 int nmt_error_policy=EXIT_ON_ERROR;
 char nmt_error_message[256]="No error\n";
 
+//Errors raised within GSL (e.g. singular matrices) follow the same policy
+static void nmt_gsl_error(const char *reason,const char *file,int line,int gsl_errno)
+{
+  report_error(NMT_ERROR_VALUE,"GSL error %d: %s\n",gsl_errno,reason);
+}
+
 void set_error_policy(int i)
 {
   nmt_error_policy=i;
+  gsl_set_error_handler(i==THROW_ON_ERROR ? &nmt_gsl_error : NULL);
 }
 
 void report_error(int level,char *fmt,...)
-- 
2.43.0


From f1f81af1af9d900050f2ce10d705dc7f2ea5cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 08/69] fix: get_ell_min/get_ell_max for bands listed out of
 order

---
 pymaster/bins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index c7e0b14..8dbaa4e 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -206,7 +206,7 @@ class NmtBin(object):
         Returns:
             (:obj:`int`): Minimum :math:`\\ell` value.
         """
-        return self.get_ell_list(b)[0]
+        return np.amin(self.get_ell_list(b))
 
     def get_ell_max(self, b):
         """ Returns the maximum ell value used by bandpower with
@@ -218,7 +218,7 @@ class NmtBin(object):
         Returns:
             (:obj:`int`): Maximum :math:`\\ell` value.
         """
-        return self.get_ell_list(b)[-1]
+        return np.amax(self.get_ell_list(b))
 
     def get_ell_list(self, b):
         """ Returns an array with the multipoles in the
-- 
2.43.0


From 716dcda2e341647402a42172cc405ab0ea84443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 09/69] fix: refuse negative band indices

get_ell_list(-1) and the other per-band queries read out of bounds.
---
 pymaster/namaster.i      | 6 +++---
 pymaster/namaster_wrap.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 710d208..4e4940c 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -75,14 +75,14 @@ void get_nell_list(nmt_binning_scheme *bins,int *iout,int niout)
 
 int get_nell(nmt_binning_scheme *bins,int ibin)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   
   return bins->nell_list[ibin];
 }
 
 void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==niout);
 
   memcpy(iout,bins->ell_list[ibin],bins->nell_list[ibin]*sizeof(int));
@@ -90,7 +90,7 @@ void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 
 void get_weight_list(nmt_binning_scheme *bins,int ibin,double *dout,int ndout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==ndout);
 
   memcpy(dout,bins->w_list[ibin],bins->nell_list[ibin]*sizeof(double));
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 8bfc6d7..9fe4080 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3042,14 +3042,14 @@ void get_nell_list(nmt_binning_scheme *bins,int *iout,int niout)
 
 int get_nell(nmt_binning_scheme *bins,int ibin)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   
   return bins->nell_list[ibin];
 }
 
 void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==niout);
 
   memcpy(iout,bins->ell_list[ibin],bins->nell_list[ibin]*sizeof(int));
@@ -3057,7 +3057,7 @@ void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 
 void get_weight_list(nmt_binning_scheme *bins,int ibin,double *dout,int ndout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==ndout);
 
   memcpy(dout,bins->w_list[ibin],bins->nell_list[ibin]*sizeof(double));
-- 
2.43.0


From c211c76b3572ea81e798b056b249a686a7d16ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 10/69] fix: refuse bandpowers with negative multipoles

They were stored and later used as (out-of-bounds) array indices.
---
 src/nmt_bins.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nmt_bins.c b/src/nmt_bins.c
index ea24dcd..8689ef6 100644
--- a/src/nmt_bins.c
+++ b/src/nmt_bins.c
@@ -60,6 +60,8 @@ nmt_binning_scheme *nmt_bins_create(int nell,int *bpws,int *ells,flouble *weight
 
   for(ii=0;ii<nell;ii++) {
     if(ells[ii]<=lmax) {
+      if((ells[ii]<0) && (bpws[ii]>=0))
+	report_error(NMT_ERROR_VALUE,"Bandpowers can't contain negative multipoles\n");
       if(bpws[ii]>nband_max)
 	nband_max=bpws[ii];
     }
-- 
2.43.0


From 7624261480b739d5ea0f0551e46b3a3a5d84706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 11/69] fix: fields whose templates vanish within the mask are
 not NaN

---
 pymaster/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index b8a717c..810b170 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -793,7 +793,8 @@ def moore_penrose_pinvh(mat, tol_pinv):
         return np.linalg.inv(mat)
 
     w, v = np.linalg.eigh(mat)
-    goodw = w >= tol_pinv*np.max(w)
+    # Null matrices (e.g. fully masked templates) have null inverses
+    goodw = (w >= tol_pinv*np.max(w)) & (w > 0)
     w_inv = np.zeros_like(w)
     w_inv[goodw] = 1./w[goodw]
     pinv = np.dot(v, np.dot(np.diag(w_inv), v.T))
-- 
2.43.0


From b13eb71946394f980485fa9e6a4afbf9a239c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 12/69] fix: pseudo-inverse of complex Hermitian matrices

moore_penrose_pinvh documents Hermitian input but transposed the
eigenvectors without conjugating them.
---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 810b170..7564857 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -797,7 +797,7 @@ def moore_penrose_pinvh(mat, tol_pinv):
     goodw = (w >= tol_pinv*np.max(w)) & (w > 0)
     w_inv = np.zeros_like(w)
     w_inv[goodw] = 1./w[goodw]
-    pinv = np.dot(v, np.dot(np.diag(w_inv), v.T))
+    pinv = np.dot(v, np.dot(np.diag(w_inv), v.conj().T))
     return pinv
 
 
-- 
2.43.0


From b16c78e0f56ebdf252f1b330fe54d9b3b2d97ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 13/69] fix: compute_full_master for lite, catalog and
 mixed-pixelization fields

The deprojection bias (zero without a guess spectrum) was computed
unconditionally, which fails for fields that don't store maps and for
pairs with compatible harmonic but not pixel resolution.
---
 pymaster/workspaces.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 447feed..36a7a6c 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -1050,14 +1050,14 @@ def compute_full_master(f1, f2, b=None, cl_noise=None, cl_guess=None,
         if cl_guess.shape != pcl_shape:
             raise ValueError(
                 f"Guess Cl should have shape {pcl_shape}")
-        clg = cl_guess
-    else:
-        clg = np.zeros(pcl_shape)
 
     # Data power spectrum
     pcld = compute_coupled_cell(f1, f2)
     # Deprojection bias
-    pclb = deprojection_bias(f1, f2, clg)
+    if cl_guess is not None:
+        pclb = deprojection_bias(f1, f2, cl_guess)
+    else:  # No bias without a guess
+        pclb = np.zeros(pcl_shape)
 
     if workspace is None:
         w = NmtWorkspace.from_fields(
-- 
2.43.0


From 2f7c403007c2298343a75b457166848116683614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 14/69] fix: swapped 0B/E0 mask spectra in anisotropic coupling
 matrices

The wrapper passes the mask power spectra in the order 00,0E,0B,E0,B0 but
nmt_compute_coupling_matrix_anisotropic took them as 00,0E,E0,0B,B0.
---
 src/namaster.h   | 2 +-
 src/nmt_master.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/namaster.h b/src/namaster.h
index a7c9ff6..4ae7877 100644
--- a/src/namaster.h
+++ b/src/namaster.h
@@ -745,8 +745,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
diff --git a/src/nmt_master.c b/src/nmt_master.c
index a329e3c..4604ad9 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -427,8 +427,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
-- 
2.43.0


From 266e28a655dda3dc4094e030bb55214141e98f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 15/69] fix: odd-spin sign of the anisotropic coupling matrix

The overall (-1)^(s1+s2) of the isotropic matrix was missing, so weight
matrices proportional to the identity disagreed in sign with a scalar mask
when exactly one spin is odd.
---
 src/nmt_master.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 4604ad9..dc9100f 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -482,10 +482,10 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     }
   }
 
-  int sign_00 = 1;
-  int sign_0P = (spin2 & 1) ? -1 : 1;
-  int sign_P0 = (spin1 & 1) ? -1 : 1;
-  int sign_PP = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_00 = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_0P = (spin1 & 1) ? -1 : 1;
+  int sign_P0 = (spin2 & 1) ? -1 : 1;
+  int sign_PP = 1;
   for(l2=0;l2<=lmax_mask;l2++) {
     flouble fac=(2*l2+1)/(4*M_PI);
     pcl_masks[i_00][l2] *= sign_00*fac;
-- 
2.43.0


From 770644eb3e128966039f6db906c6154e0b7d22fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 16/69] fix: coupled Gaussian covariance at every multipole

The covariance of the mode-coupled spectra was filled band by band: entries
at multipoles outside the bands were returned uninitialized, multipoles in
several bands were written by several threads, and the result carried the
bandpower prefactor f_ell, so that decoupling it did not give the covariance
of the bandpowers.
---
 src/nmt_covar.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 75a74ee..2e84ef9 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -113,12 +113,12 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   shared(wa,wb,clac,clad,clbc,clbd)			\
   shared(nmaps_a,nmaps_b,nmaps_c,nmaps_d,covar_out)
   {
-    int band_a;
+    int la;
 
 #pragma omp for
-    for(band_a=0;band_a<wa->bin->n_bands;band_a++) {
-      int band_b;
-      for(band_b=0;band_b<wb->bin->n_bands;band_b++) {
+    for(la=0;la<=cw->lmax;la++) {
+      int lb;
+      for(lb=0;lb<=cw->lmax;lb++) {
 	int ia;
 	for(ia=0;ia<nmaps_a;ia++) {
 	  int ib;
@@ -128,14 +128,8 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
 	    for(ic=0;ic<nmaps_c;ic++) {
 	      int id;
 	      for(id=0;id<nmaps_d;id++) {
-		int ila;
-		int icl_b=id+nmaps_d*ic;
-		for(ila=0;ila<wa->bin->nell_list[band_a];ila++) {
-		  int ilb;
-		  int la=wa->bin->ell_list[band_a][ila];
-		  for(ilb=0;ilb<wb->bin->nell_list[band_b];ilb++) {
 		    int iap;
-		    int lb=wb->bin->ell_list[band_b][ilb];
+		    int icl_b=id+nmaps_d*ic;
 		    double xis_1122[6]={cw->xi00_1122[la][lb],
                                         cw->xi02_1122[la][lb],
                                         cw->xi22p_1122[la][lb],
@@ -146,7 +140,6 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
                                         cw->xi22p_1221[la][lb],
 					cw->xi22m_1221[la][lb],
                                         -cw->xi22m_1221[la][lb],0};
-		    double prefac_ell=wa->bin->f_ell[band_a][ila]*wb->bin->f_ell[band_b][ilb];
                     double cov_element=0;
 		    for(iap=0;iap<nmaps_a;iap++) {
 		      int ibp;
@@ -166,14 +159,12 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
 			    int ind_1221=cov_get_coupling_pair_index(nmaps_a,nmaps_d,nmaps_b,nmaps_c,
 								     ia,iap,id,idp,ib,ibp,ic,icp);
 			    
-                            cov_element+=(xis_1122[ind_1122]*fac_1122+xis_1221[ind_1221]*fac_1221)*prefac_ell;
+                            cov_element+=(xis_1122[ind_1122]*fac_1122+xis_1221[ind_1221]*fac_1221);
 			  }
 			}
 		      }
 		    }
                     covar_out[((wa->ncls*la+icl_a)*(cw->lmax+1)+lb)*wb->ncls+icl_b]=cov_element;
-		  }
-		}
 	      }
 	    }
 	  }
-- 
2.43.0


From 6bb477de26fa78119d0d8aa60a94bb612818e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 17/69] fix: leak of the log-factorial table of covariance
 workspaces

---
 src/nmt_covar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 2e84ef9..5b957c0 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -63,6 +63,7 @@ nmt_covar_workspace *nmt_covar_workspace_init(flouble *cl_masks_11_22,
     free(c->xi_mm);
   }
   free(c->xi_00);
+  free(c->lfac);
   free(c);
   free(cl_masks[0]);
   free(cl_masks[1]);
-- 
2.43.0


From f5ecb39752de6dd88b0e40038566523902b4171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 18/69] fix: Toeplitz extrapolation overwrote elements of the
 exact band

Elements within dl_band of the diagonal (and column l_exact when the
diagonal vanishes) are computed exactly but were then replaced by the
extrapolation whenever dl_band >= lmax-l_toeplitz.
---
 src/nmt_master.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index dc9100f..d254505 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -943,7 +943,9 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   if(l_toeplitz > 0) {
     int l2, l3;
     for(l2=c->lmax+l_exact-l_toeplitz;l2<=c->lmax;l2++) {
-      for(l3=l_exact;l3<=l2+l_toeplitz-c->lmax;l3++){
+      for(l3=l_exact+1;l3<=l2+l_toeplitz-c->lmax;l3++){
+        if(l2<=lend_toeplitz(l3, l_toeplitz, l_exact, dl_band, c->lmax))
+          continue; //Exact elements
         flouble **mat;
         flouble m;
 	int is_den_zero;
-- 
2.43.0


From 4291a6e69318d8b65123d04bbe28908118715d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 19/69] fix: uncorrelated-noise deprojection bias of purified
 fields and flipped CAR maps

---
 pymaster/workspaces.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 36a7a6c..9993174 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -810,8 +810,10 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
     if n_iter is None:
         n_iter = ut.nmt_params.n_iter_default
 
-    # Flatten in case it's a 2D map
-    sig2 = map_var.flatten()
+    # 2D maps must be brought to the field's internal pixel ordering
+    sig2 = map_var
+    if np.ndim(sig2) > 1:
+        sig2 = f1.minfo.reform_map(sig2).flatten()
     if len(sig2) != f1.minfo.npix:
         raise ValueError("Variance map doesn't match map resolution")
 
@@ -828,9 +830,15 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
                        f1.nmaps, f1.nmaps,
                        f1.ainfo.lmax+1))
     for j, fj in enumerate(f1.temp):
-        # SHT(v^2 sig^2 f_j)
-        fj_v_s = ut.map2alm(fj*(f1.mask**2*sig2)[None, :], f1.spin,
-                            f1.minfo, f1.ainfo, n_iter=n_iter)
+        # SHT(v^2 sig^2 f_j), purified as the field itself if needed
+        fj_v_s = fj*(f1.mask*sig2)[None, :]
+        if f1.pure_e or f1.pure_b:
+            fj_v_s = f1._purify(f1.mask, f1.get_mask_alms(), fj_v_s,
+                                n_iter=n_iter, return_maps=False,
+                                task=[f1.pure_e, f1.pure_b])
+        else:
+            fj_v_s = ut.map2alm(fj_v_s*f1.mask[None, :], f1.spin,
+                                f1.minfo, f1.ainfo, n_iter=n_iter)
         for i, fi in enumerate(f1.alm_temp):
             cl = np.array([[hp.alm2cl(a1, a2, lmax=f1.ainfo.lmax)
                             for a1 in fi]
-- 
2.43.0


From f2930399afc53fe1ad95c36785b4a46002223747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 20/69] fix: number of maps of clustering and position-only
 catalog fields

---
 pymaster/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index ab599cb..68524a7 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -951,6 +951,7 @@ class NmtFieldCatalog(NmtField):
                 raise ValueError("If field is None, spin needs to be "
                                  "provided.")
             self.spin = spin
+            self.nmaps = 2 if spin else 1
             return
 
         # Ensure it's 2D
@@ -1019,6 +1020,7 @@ class NmtFieldCatalogClustering(NmtField):
         self.ainfo = ut.NmtAlmInfo(lmax)
         self._alpha = 0
         self.spin = 0
+        self.nmaps = 1
         self.is_catalog = True
 
         # The remaining attributes are only required for non-lite maps
-- 
2.43.0


From 3ecd3c9363725604f9cfa655eddc7802874bdd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 21/69] fix: accept beams that extend beyond lmax

---
 pymaster/workspaces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 9993174..043b287 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -295,6 +295,10 @@ class NmtWorkspace(object):
             raise ValueError(f"Unknown normalization type {normalization}. "
                              "Allowed options are 'MASTER' and 'FKP'.")
 
+        # Beams may extend beyond the maximum multipole
+        beam1 = fl1.beam[:fl1.ainfo.lmax+1]
+        beam2 = fl2.beam[:fl2.ainfo.lmax+1]
+
         wawb = 0
         if norm_type == 1:
             if fl1.is_catalog or fl2.is_catalog:
@@ -316,7 +320,7 @@ class NmtWorkspace(object):
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
                 pclm_00, pclm_0e, pclm_0b, pclm_e0, pclm_b0,
                 pclm_ee, pclm_eb, pclm_be, pclm_bb,
-                fl1.beam, fl2.beam, bins.bin,
+                beam1, beam2, bins.bin,
                 int(norm_type), wawb)
         else:
             self.wsp = lib.comp_coupling_matrix(
@@ -325,7 +329,7 @@ class NmtWorkspace(object):
                 int(fl1.pure_e), int(fl1.pure_b),
                 int(fl2.pure_e), int(fl2.pure_b),
                 int(norm_type), wawb,
-                fl1.beam, fl2.beam, pcl_mask.flatten()-Nw,
+                beam1, beam2, pcl_mask.flatten()-Nw,
                 bins.bin, int(is_teb), l_toeplitz, l_exact, dl_band)
         self.has_unbinned = True
 
-- 
2.43.0


From a622219b8072e3c16ad99ede0badce221a71b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 22/69] fix: failed reads and computations leave workspaces as
 they were

---
 pymaster/covariance.py | 38 ++++++++++++++++++--------------------
 pymaster/workspaces.py | 30 +++++++++++++++---------------
 2 files changed, 33 insertions(+), 35 deletions(-)

diff --git a/pymaster/covariance.py b/pymaster/covariance.py
index 49e9f9c..ce26e22 100644
--- a/pymaster/covariance.py
+++ b/pymaster/covariance.py
@@ -155,11 +155,10 @@ class NmtCovarianceWorkspace(object):
                 combinations of the mode-coupling coefficients will
                 be read and stored.
         """
+        wsp = lib.read_covar_workspace(fname, int(force_spin0_only))
         if self.wsp is not None:
             lib.covar_workspace_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_covar_workspace(fname,
-                                            int(force_spin0_only))
+        self.wsp = wsp
 
     def compute_coupling_coefficients(self, fla1, fla2,
                                       flb1=None, flb2=None, *,
@@ -220,10 +219,6 @@ class NmtCovarianceWorkspace(object):
         ut._toeplitz_sanity(l_toeplitz, l_exact, dl_band,
                             fla1.ainfo.lmax, fla1, flb1)
 
-        if self.wsp is not None:
-            lib.covar_workspace_free(self.wsp)
-            self.wsp = None
-
         def get_mask_prod_cl(f1_p1, f2_p1, f1_p2, f2_p2):
             mask_p1 = f1_p1.get_mask()*f2_p1.get_mask()
             alm_p1 = ut.map2alm(np.array([mask_p1]), 0,
@@ -237,12 +232,16 @@ class NmtCovarianceWorkspace(object):
 
         pcl_mask_11_22 = get_mask_prod_cl(fla1, flb1, fla2, flb2)
         pcl_mask_12_21 = get_mask_prod_cl(fla1, flb2, fla2, flb1)
-        self.wsp = lib.covar_workspace_init_py(pcl_mask_11_22,
-                                               pcl_mask_12_21,
-                                               int(fla1.ainfo.lmax),
-                                               int(fla1.ainfo_mask.lmax),
-                                               l_toeplitz, l_exact, dl_band,
-                                               int(spin0_only))
+        wsp = lib.covar_workspace_init_py(pcl_mask_11_22,
+                                          pcl_mask_12_21,
+                                          int(fla1.ainfo.lmax),
+                                          int(fla1.ainfo_mask.lmax),
+                                          l_toeplitz, l_exact, dl_band,
+                                          int(spin0_only))
+        # Only drop the previous coefficients once the new ones are available
+        if self.wsp is not None:
+            lib.covar_workspace_free(self.wsp)
+        self.wsp = wsp
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtCovarianceWorkspace`
@@ -281,10 +280,10 @@ class NmtCovarianceWorkspaceFlat(object):
         Args:
             fname (:obj:`str`): Input file name.
         """
+        wsp = lib.read_covar_workspace_flat(fname)
         if self.wsp is not None:
             lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_covar_workspace_flat(fname)
+        self.wsp = wsp
 
     def compute_coupling_coefficients(self, fla1, fla2, bin_a,
                                       flb1=None, flb2=None, bin_b=None):
@@ -330,13 +329,12 @@ class NmtCovarianceWorkspaceFlat(object):
            (fla1.fl.fs.ny != flb2.fl.fs.ny):
             raise ValueError("Everything should have the same resolution!")
 
+        wsp = lib.covar_workspace_flat_init_py(fla1.fl, fla2.fl, bin_a.bin,
+                                               flb1.fl, flb2.fl, bin_b.bin)
+        # Only drop the previous coefficients once the new ones are available
         if self.wsp is not None:
             lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.covar_workspace_flat_init_py(fla1.fl, fla2.fl,
-                                                    bin_a.bin,
-                                                    flb1.fl, flb2.fl,
-                                                    bin_b.bin)
+        self.wsp = wsp
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtCovarianceWorkspaceFlat` object
diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 043b287..5bffb40 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -157,10 +157,10 @@ class NmtWorkspace(object):
                 mode-coupling matrix will not be read. This can save
                 significant IO time.
         """
+        wsp = lib.read_workspace(fname, int(read_unbinned_MCM))
         if self.wsp is not None:
             lib.workspace_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_workspace(fname, int(read_unbinned_MCM))
+        self.wsp = wsp
         self.has_unbinned = read_unbinned_MCM
 
     def update_beams(self, beam1, beam2):
@@ -242,10 +242,6 @@ class NmtWorkspace(object):
             raise ValueError(f"Maximum multipoles in bins ({bins.lmax}) "
                              f"and fields ({fl1.ainfo.lmax}) "
                              "are not the same.")
-        if self.wsp is not None:
-            lib.workspace_free(self.wsp)
-            self.wsp = None
-
         anisotropic_mask_any = fl1.anisotropic_mask or fl2.anisotropic_mask
         if anisotropic_mask_any and (l_toeplitz >= 0):
             raise NotImplementedError("Toeplitz approximation not "
@@ -314,7 +310,7 @@ class NmtWorkspace(object):
                 wawb = fl1.minfo.si.dot_map(msk1, msk2)/(4*np.pi)
 
         if anisotropic_mask_any:
-            self.wsp = lib.comp_coupling_matrix_anisotropic(
+            wsp = lib.comp_coupling_matrix_anisotropic(
                 int(fl1.spin), int(fl2.spin),
                 int(fl1.anisotropic_mask), int(fl2.anisotropic_mask),
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
@@ -323,7 +319,7 @@ class NmtWorkspace(object):
                 beam1, beam2, bins.bin,
                 int(norm_type), wawb)
         else:
-            self.wsp = lib.comp_coupling_matrix(
+            wsp = lib.comp_coupling_matrix(
                 int(fl1.spin), int(fl2.spin),
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
                 int(fl1.pure_e), int(fl1.pure_b),
@@ -331,6 +327,10 @@ class NmtWorkspace(object):
                 int(norm_type), wawb,
                 beam1, beam2, pcl_mask.flatten()-Nw,
                 bins.bin, int(is_teb), l_toeplitz, l_exact, dl_band)
+        # Only drop the previous matrix once the new one is available
+        if self.wsp is not None:
+            lib.workspace_free(self.wsp)
+        self.wsp = wsp
         self.has_unbinned = True
 
     def write_to(self, fname):
@@ -521,10 +521,10 @@ class NmtWorkspaceFlat(object):
         Args:
             fname (:obj:`str`): Input file name.
         """
+        wsp = lib.read_workspace_flat(fname)
         if self.wsp is not None:
             lib.workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_workspace_flat(fname)
+        self.wsp = wsp
 
     def compute_coupling_matrix(self, fl1, fl2, bins, ell_cut_x=[1., -1.],
                                 ell_cut_y=[1., -1.], is_teb=False):
@@ -549,11 +549,7 @@ class NmtWorkspaceFlat(object):
                 case, ``fl1`` must be a spin-0 field and ``fl2`` must be
                 spin-s.
         """
-        if self.wsp is not None:
-            lib.workspace_flat_free(self.wsp)
-            self.wsp = None
-
-        self.wsp = lib.comp_coupling_matrix_flat(
+        wsp = lib.comp_coupling_matrix_flat(
             fl1.fl,
             fl2.fl,
             bins.bin,
@@ -563,6 +559,10 @@ class NmtWorkspaceFlat(object):
             ell_cut_y[1],
             int(is_teb),
         )
+        # Only drop the previous matrix once the new one is available
+        if self.wsp is not None:
+            lib.workspace_flat_free(self.wsp)
+        self.wsp = wsp
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtWorkspaceFlat` object
-- 
2.43.0


From 2fe3828f18a6ce97b6e9a144fdbd5d61015d9a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 23/69] fix: refuse beam and bin updates of workspaces read
 without their coupling matrix

---
 pymaster/workspaces.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 5bffb40..b58b70d 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -180,6 +180,10 @@ class NmtWorkspace(object):
         if ((not b1arr) or (not b2arr)):
             raise ValueError("The new beams must be provided as arrays")
 
+        if self.wsp is None:
+            raise ValueError("Can't update beams without first computing "
+                             "the mode-coupling matrix")
+        self.check_unbinned()
         lmax = self.wsp.lmax_fields
         if (len(beam1) <= lmax) or (len(beam2) <= lmax):
             raise ValueError("The new beams must go up to ell = %d" % lmax)
@@ -198,6 +202,7 @@ class NmtWorkspace(object):
                              "the mode-coupling matrix")
         if bins.bin is None:
             raise ValueError("Can't replace with uninitialized bins")
+        self.check_unbinned()
         lib.wsp_update_bins(self.wsp, bins.bin)
 
     def compute_coupling_matrix(self, fl1, fl2, bins, is_teb=False,
-- 
2.43.0


From cd2db3c8536cf16cf22d50c6c6fde4d912e6f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 24/69] fix: default lmax of CAR maps lost one multipole to
 rounding

---
 pymaster/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 7564857..6e200da 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -433,7 +433,8 @@ class NmtMapInfo(object):
             return 3*self.nside-1
         else:
             dxmin = min(self.d_theta, self.d_phi)
-            return int(np.pi/dxmin)
+            # The pixels divide the sphere exactly up to rounding errors
+            return int(np.pi/dxmin+0.01)
 
 
 class NmtAlmInfo(object):
-- 
2.43.0


From 46b8f3c20a5ebc50c73c9c02a2711acb02184a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 25/69] fix: the same CAR pixels described by different WCS
 were incompatible

---
 pymaster/utils.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 6e200da..45142ba 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -378,12 +378,22 @@ class NmtMapInfo(object):
         # If CAR
         if other.is_healpix:
             return False
-        for att in ['npix', 'nx', 'ny', 'theta_min',
-                    'theta_max', 'phi0', 'd_theta', 'd_phi']:
-            a_this = getattr(self, att, None)
-            a_other = getattr(other, att, None)
-            if a_this != a_other:
+        for att in ['npix', 'nx', 'ny']:
+            if getattr(self, att, None) != getattr(other, att, None):
                 return False
+        # Angles may differ by rounding errors (and by full turns in
+        # azimuth) depending on how the WCS describes the same pixels.
+        tol = 1E-6*min(self.d_theta, self.d_phi)
+        for att in ['theta_min', 'theta_max']:
+            if np.fabs(getattr(self, att)-getattr(other, att)) > tol:
+                return False
+        if np.fabs(self.d_theta-other.d_theta)*self.ny > tol:
+            return False
+        if np.fabs(self.d_phi-other.d_phi)*self.nx > tol:
+            return False
+        dphi0 = (self.phi0-other.phi0) / (2*np.pi)
+        if np.fabs(dphi0-np.round(dphi0))*2*np.pi > tol:
+            return False
         return True
 
     def reform_map(self, maps):
-- 
2.43.0


From aa8027d160a7e7b53cea11cdb6a7ccc246a390c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 26/69] fix: mask apodization with scales close to the pixel
 size or beyond 150 degrees crashed

---
 src/healpix_extra.c |  2 ++
 src/nmt_mask.c      | 37 ++++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/healpix_extra.c b/src/healpix_extra.c
index d220180..a85d6d0 100644
--- a/src/healpix_extra.c
+++ b/src/healpix_extra.c
@@ -417,6 +417,8 @@ void he_query_disc(int nside,double cth0,double phi,flouble radius,
     radius_eff=radius+1.071*M_PI/(4*((flouble)nside)); //TODO:check this
   else
     radius_eff=radius;
+  if(radius_eff>M_PI)
+    radius_eff=M_PI;
   cosang=cos(radius_eff);
 
   //Circle center
diff --git a/src/nmt_mask.c b/src/nmt_mask.c
index 2f89fc6..1e2e830 100644
--- a/src/nmt_mask.c
+++ b/src/nmt_mask.c
@@ -1,10 +1,23 @@
 #include "config.h"
 #include "utils.h"
 
+//Upper bound to the number of pixels returned by an inclusive he_query_disc
+//(and to the number of pixels in any ring)
+static int max_pix_in_disc(long nside,double radius)
+{
+  double rad_bound=NMT_MIN(M_PI,radius+4./nside);
+
+  return (int)(he_nside2npix(nside)*0.5*(1-cos(rad_bound))+4*nside+1);
+}
+
 static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,flouble aposize,char *apotype)
 {
   long npix=he_nside2npix(nside);
   double aporad=aposize*M_PI/180;
+  double radius=NMT_MIN(1.2*aporad,M_PI);
+  if(4*npix*(1-cos(radius)) < 2)
+    report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  int lenlist=max_pix_in_disc(nside,radius);
   double x2_thr=1-cos(aporad);
   double inv_x2_thr=1./x2_thr;
   flouble *vec=my_malloc(3*npix*sizeof(flouble));
@@ -37,25 +50,22 @@ static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,floubl
     } //end omp for
   }//end omp parallel
 
-  int lenlist0=(int)(4*npix*(1-cos(1.2*aporad)));
-  if(lenlist0 < 2)
-    report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
   
 #pragma omp parallel default(none)			\
   shared(vec,npix,x2_thr,inv_x2_thr,mask_in,mask_out)	\
-  shared(nside,cthv,phiv,aporad,apotyp,lenlist0)
+  shared(nside,cthv,phiv,radius,apotyp,lenlist)
   {
     long ip;
-    int *listpix=my_malloc(lenlist0*sizeof(int));
+    int *listpix=my_malloc(2*(size_t)lenlist*sizeof(int));
 
 #pragma omp for schedule(dynamic)
     for(ip=0;ip<npix;ip++) {
       if(mask_in[ip]>0) {
 	int j;
-	int lenlist_half=lenlist0/2;
+	int lenlist_half=lenlist;
 	flouble *v0=vec+3*ip;
 	flouble x2dist=1000;
-	he_query_disc(nside,cthv[ip],phiv[ip],1.2*aporad,listpix,&lenlist_half,1);
+	he_query_disc(nside,cthv[ip],phiv[ip],radius,listpix,&lenlist_half,1);
 	for(j=0;j<lenlist_half;j++) {
 	  int ip2=listpix[j];
 	  if(mask_in[ip2]<=0) {
@@ -93,28 +103,29 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
   double aporad=aposize*M_PI/180;
   memcpy(mask_out,mask_in,npix*sizeof(flouble));
 
-  int lenlist0=(int)(4*npix*(1-cos(2.5*aporad)));
-  if(lenlist0 < 2)
+  double radius=NMT_MIN(2.5*aporad,M_PI);
+  if(4*npix*(1-cos(radius)) < 2)
     report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  int lenlist=max_pix_in_disc(nside,radius);
 
 #pragma omp parallel default(none)                      \
-  shared(npix,mask_in,mask_out,nside,aporad,lenlist0)
+  shared(npix,mask_in,mask_out,nside,radius,lenlist)
   {
     long ip;
-    int *listpix=my_malloc(lenlist0*sizeof(int));
+    int *listpix=my_malloc(2*(size_t)lenlist*sizeof(int));
 
 #pragma omp for schedule(dynamic)
     for(ip=0;ip<npix;ip++) {
       if(mask_in[ip]<=0) {
 	int j;
 	flouble v[3],cthv,phiv;
-	int lenlist_half=lenlist0/2;
+	int lenlist_half=lenlist;
 	he_pix2vec_ring(nside,ip,v);
 	cthv=v[2];
 	phiv=atan2(v[1],v[0]);
 	if(phiv<0)
 	  phiv+=2*M_PI;
-	he_query_disc(nside,cthv,phiv,2.5*aporad,listpix,&lenlist_half,1);
+	he_query_disc(nside,cthv,phiv,radius,listpix,&lenlist_half,1);
 	for(j=0;j<lenlist_half;j++) {
 	  int ip2=listpix[j];
 #pragma omp atomic
-- 
2.43.0


From 2fcb2a003ba38c9bd95686f0e950daed86958026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 27/69] fix: mask apodization ignored masked pixels of rings
 almost inside the search radius

---
 src/healpix_extra.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/healpix_extra.c b/src/healpix_extra.c
index a85d6d0..d711738 100644
--- a/src/healpix_extra.c
+++ b/src/healpix_extra.c
@@ -325,6 +325,10 @@ void he_in_ring(int nside,int iz,flouble phi0,flouble dphi,
     kshift=1;
   }
 
+  //If the gap in the phi range is smaller than a pixel, both of its ends may
+  //lie in the same pixel.
+  if(conservative && ((M_PI-dphi)*nr<M_PI)) take_all=1;
+
   //Constructs the pixel list
   if(take_all) {
     *nir=ipix2-ipix1+1;
-- 
2.43.0


From d3d7fdcf48ef284aa2f5ecf1db449f846ef8bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 28/69] fix: flat-sky apodization used the pixel width as the
 pixel height

---
 src/nmt_mask_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index bb29c96..ffe4773 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -24,7 +24,7 @@ static void apodize_mask_CX(nmt_flatsky_info *fs,flouble *mask_in,flouble *mask_
     double x_thr=aporad;
     double inv_x_thr=1./x_thr;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*aporad/dx);
     int ny_patch=(int)(1.2*aporad/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
@@ -95,7 +95,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
     flouble **rarr;
     double x_thr=2.5*aporad;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*x_thr/dx);
     int ny_patch=(int)(1.2*x_thr/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
-- 
2.43.0


From 87262e4acc4d39a941955007c506ba2186a09342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 29/69] fix: flat-sky apodization with scales beyond the map
 exhausted the memory

---
 src/nmt_mask_flat.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index ffe4773..f8790c8 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -25,8 +25,8 @@ static void apodize_mask_CX(nmt_flatsky_info *fs,flouble *mask_in,flouble *mask_
     double inv_x_thr=1./x_thr;
     flouble dx=fs->lx/fs->nx;
     flouble dy=fs->ly/fs->ny;
-    int nx_patch=(int)(1.2*aporad/dx);
-    int ny_patch=(int)(1.2*aporad/dy);
+    int nx_patch=(int)(NMT_MIN(1.2*aporad/dx,fs->nx-1));
+    int ny_patch=(int)(NMT_MIN(1.2*aporad/dy,fs->ny-1));
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
     for(iy=0;iy<=2*ny_patch;iy++) {
       int ix;
@@ -96,8 +96,8 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
     double x_thr=2.5*aporad;
     flouble dx=fs->lx/fs->nx;
     flouble dy=fs->ly/fs->ny;
-    int nx_patch=(int)(1.2*x_thr/dx);
-    int ny_patch=(int)(1.2*x_thr/dy);
+    int nx_patch=(int)(NMT_MIN(1.2*x_thr/dx,fs->nx-1));
+    int ny_patch=(int)(NMT_MIN(1.2*x_thr/dy,fs->ny-1));
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
     for(iy=0;iy<=2*ny_patch;iy++) {
       int ix;
-- 
2.43.0


From ee6a1153b37a8af6e87c703c56c6ead8997b1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 30/69] fix: data race in flat-sky smooth apodization

---
 src/nmt_mask_flat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index f8790c8..06a44c5 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -125,6 +125,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
 	      if(ix+ixx-nx_patch>=fs->nx) break;
 	      if(rarr[iyy][ixx]<=x_thr) {
 		int index2=ix+ixx-nx_patch+fs->nx*(iy+iyy-ny_patch);
+#pragma omp atomic
 		mask_dum[index2]*=0;
 	      }
 	    }
-- 
2.43.0


From 07a31dba585c629282fd412a15ba28ca0cefad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 31/69] fix: smooth apodization with zero scale modified the
 mask

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 45142ba..2ecd07e 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -539,7 +539,7 @@ def mask_apodization(mask_in, aposize, apotype="C1"):
     m = lib.apomask(mask_in.astype("float64"), len(mask_in),
                     aposize, apotype)
 
-    if apotype != 'Smooth':
+    if (apotype != 'Smooth') or (aposize == 0):
         return m
 
     # Smooth
-- 
2.43.0


From 4b79b4df0bf80eeadeb283727ec871cd0e930e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 32/69] fix: synfast_spherical ignored the seed

---
 pymaster/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 2ecd07e..edd6dd3 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -661,7 +661,13 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     # 1. Generate alms
     # Note that, if `new=False` stops being allowed in healpy, we'll need
     # to change the Cl ordering.
-    alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    # healpy draws from numpy's global generator, whose state is restored.
+    rng_state = np.random.get_state()
+    try:
+        np.random.seed(seed)
+        alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    finally:
+        np.random.set_state(rng_state)
 
     # 2. Multiply by beam
     if beam is not None:
-- 
2.43.0


From ebe5b5eb28b083e930003ab5560f1aaef9d06cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 33/69] fix: flat-sky simulations with a seed depended on the
 number and order of threads

---
 src/flatsky_utils.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 4f8c387..ffe95f4 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -481,19 +481,18 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
   //Switch off error handler for Cholesky decomposition
   gsl_error_handler_t *geh=gsl_set_error_handler_off();
 
-  int numthr=0;
+  //Every row has its own random stream, so the result is independent of the
+  //number of threads and of the order in which they run.
+  int iseed;
+  unsigned long *seed_row=my_malloc(ny*sizeof(unsigned long));
+  gsl_rng *rng_seed=init_rng((unsigned int)seed);
+  for(iseed=0;iseed<ny;iseed++)
+    seed_row[iseed]=gsl_rng_get(rng_seed);
+  end_rng(rng_seed);
 
 #pragma omp parallel default(none)			\
-  shared(nx,ny,lx,ly,nmaps,cells,beam,seed,alms,numthr)
+  shared(nx,ny,lx,ly,nmaps,cells,beam,seed_row,alms)
   {
-    //This is to avoid using the omp.h library
-    int ithr;
-#pragma omp critical
-    {
-      ithr=numthr;
-      numthr++;
-    }
-
     int iy;
     double dkx=2*M_PI/lx,dky=2*M_PI/ly;
     double inv_dkvol=1./(dkx*dky);
@@ -505,8 +504,7 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector *eval =gsl_vector_alloc(nmaps);
     gsl_matrix *evec =gsl_matrix_alloc(nmaps,nmaps); 
     gsl_eigen_symmv_workspace *wsym=gsl_eigen_symmv_alloc(nmaps);
-    unsigned int seed_thr=(unsigned int)(seed+ithr);
-    gsl_rng *rng=init_rng(seed_thr);
+    gsl_rng *rng=init_rng(0);
     gsl_interp_accel *intacc_cells=gsl_interp_accel_alloc();
     gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
 
@@ -514,6 +512,7 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     for(iy=0;iy<ny;iy++) {
       int ix;
       flouble ky;
+      gsl_rng_set(rng,seed_row[iy]);
       if(2*iy<=ny)
 	ky=iy*dky;
       else
@@ -595,6 +594,8 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_interp_accel_free(intacc_beam);
   } //omp end parallel
 
+  free(seed_row);
+
   //Restore error handler
   gsl_set_error_handler(geh);
 
-- 
2.43.0


From d7b9fffb07bda8c26d837810b26463cf56ced936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 34/69] fix: Nyquist modes of flat simulations had half of the
 requested variance

---
 src/flatsky_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index ffe95f4..9ec64cf 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -562,11 +562,11 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	    flouble bm=nmt_k_function_eval(beam[imp1],kmod,intacc_beam);
 	    flouble a_re=bm*gsl_vector_get(rv2,imp1);
 	    flouble a_im=bm*gsl_vector_get(iv2,imp1);
-	    if(ix==0) {
+	    if((ix==0) || (2*ix==nx)) { //Columns that contain their own conjugates
 	      if(iy>ny/2)
 		continue;
 	      else {
-		if(iy==0)
+		if((iy==0) || (2*iy==ny))
 		  alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
 		else {
 		  int iyy=ny-iy;
-- 
2.43.0


From cdeb4b168fad406d5470ea6ac06655c16481f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 35/69] fix: flat bands with gaps between them took modes from
 the gaps

---
 src/nmt_bins_flat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nmt_bins_flat.c b/src/nmt_bins_flat.c
index f265108..1f8d2de 100644
--- a/src/nmt_bins_flat.c
+++ b/src/nmt_bins_flat.c
@@ -11,8 +11,10 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
     while(ilback>=0) {
       if(l<bin->ell_0_list[ilback])
 	ilback--;
-      else
+      else if(l<bin->ell_f_list[ilback])
 	return ilback;
+      else //In the gap between two bands
+	return -1;
     }
     return -1;
   }
@@ -21,8 +23,10 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
     while(ilback<bin->n_bands) {
       if(l>=bin->ell_f_list[ilback])
 	ilback++;
-      else
+      else if(l>=bin->ell_0_list[ilback])
 	return ilback;
+      else //In the gap between two bands
+	return -1;
     }
     return -1;
   }
-- 
2.43.0


From 620ffe9228a5fcfa3b2f65456f7fa4af2203837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 36/69] fix: refuse empty, unordered and overlapping flat
 bandpowers

---
 pymaster/bins.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index 8dbaa4e..deae456 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -319,10 +319,20 @@ class NmtBinFlat(object):
             each bandpower.
         lf (`array`): Array of floats corresponding to the upper bound of
             each bandpower. ``lf`` should have the same shape as ``l0``.
+            Bandpowers must be ordered and should not overlap.
     """
 
     def __init__(self, l0, lf):
         self.bin = None
+        l0 = np.atleast_1d(np.array(l0, dtype=np.float64))
+        lf = np.atleast_1d(np.array(lf, dtype=np.float64))
+        if (l0.ndim != 1) or (l0.shape != lf.shape) or (len(l0) < 1):
+            raise ValueError("l0 and lf should be 1D arrays with the same "
+                             "(non-zero) number of elements")
+        if not (np.all(lf > l0) and
+                np.all(l0[1:] >= lf[:-1]-1E-5*(lf-l0)[:-1])):
+            raise ValueError("Bandpowers should be ordered by increasing "
+                             "multipole, and they should not overlap")
         self.bin = lib.bins_flat_create_py(l0, lf)
 
     def __del__(self):
-- 
2.43.0


From 8d8aa24989f00ddec3ab7407862d2f366b06eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 37/69] fix: one-sided cuts in l_y removed the wrong flat-sky
 modes

---
 src/flatsky_utils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 9ec64cf..00a88cf 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -393,21 +393,23 @@ void fs_alm2cl(nmt_flatsky_info *fs,nmt_binning_scheme_flat *bin,
 	  if((ky>=lmn_y) && (ky<=lmx_y))
 	    continue;
 	  for(ix=0;ix<fs->nx;ix++) {
-	    int ix_here;
+	    int ix_here,iy_here;
 	    long index;
 	    flouble kmod,kx;
 	    if(2*ix<=fs->nx) {
 	      kx=ix*dkx;
 	      ix_here=ix;
+	      iy_here=iy;
 	    }
-	    else {
+	    else { //Only the conjugate mode is stored
 	      kx=-(fs->nx-ix)*dkx;
 	      ix_here=fs->nx-ix;
+	      iy_here=iy ? fs->ny-iy : 0;
 	    }
 	    if((kx>=lmn_x) && (kx<=lmx_x))
 	      continue;
 
-	    index=ix_here+((long)(fs->nx/2+1))*iy;
+	    index=ix_here+((long)(fs->nx/2+1))*iy_here;
 	    kmod=sqrt(kx*kx+ky*ky);
 	    ik=nmt_bins_flat_search_fast(bin,kmod,ik);
 	    if(ik>=0) {
-- 
2.43.0


From 3d9d99978dd3e9de6d89d2b7ab33df7eaa6679a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 38/69] fix: flat coupling matrices and covariances used
 mirrored mask modes for l_x<0

---
 src/nmt_covar_flat.c  | 8 +++++---
 src/nmt_master_flat.c | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 6fa3921..695b82b 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -98,17 +98,19 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,c,s;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Only the conjugate mode is stored
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=iy1 ? fs->ny-iy1 : 0;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	cl_mask_1122[index]=(creal(cm_a1b1[index_here])*creal(cm_a2b2[index_here])+
 			     cimag(cm_a1b1[index_here])*cimag(cm_a2b2[index_here]));
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 3520ff0..ecca745 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -180,17 +180,19 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,beam1,beam2;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Only the conjugate mode is stored
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=iy1 ? fs->ny-iy1 : 0;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	maskprod[index]=(creal(cmask1[index_here])*creal(cmask2[index_here])+
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
-- 
2.43.0


From e26f5258331ceca6f5ea62fc07335adba8b5a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 39/69] fix: flat-sky purification assumed square pixels

---
 src/nmt_field_flat.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index de5d736..91c96d8 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -116,8 +116,8 @@ static void walm_x_lpower(nmt_flatsky_info *fs,fcomplex **walm_in,fcomplex **wal
   shared(fs,walm_in,walm_out,power)
   {
     int iy;
-    flouble dkx=2*M_PI/fs->nx;
-    flouble dky=2*M_PI/fs->ny;
+    flouble dkx=2*M_PI/fs->lx;
+    flouble dky=2*M_PI/fs->ly;
 
 #pragma omp for   
     for(iy=0;iy<fs->ny;iy++) {
@@ -190,8 +190,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
@@ -228,8 +228,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
-- 
2.43.0


From f0029f83096a9a72b3dfc3c27519c0eb0afec6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 40/69] fix: refuse flat covariances of fields of different
 sizes or with different bandpowers

---
 src/nmt_covar_flat.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 695b82b..8c9db7b 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -35,9 +35,17 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
      (fla1->fs->nx!=flb1->fs->nx) || (fla1->fs->ny!=flb1->fs->ny) ||     
      (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for fields with different resolutions\n");
+  if((fla1->fs->lx!=fla2->fs->lx) || (fla1->fs->ly!=fla2->fs->ly) ||
+     (fla1->fs->lx!=flb1->fs->lx) || (fla1->fs->ly!=flb1->fs->ly) ||
+     (fla1->fs->lx!=flb2->fs->lx) || (fla1->fs->ly!=flb2->fs->ly))
+    report_error(NMT_ERROR_COVAR,"Can't compute covariance for fields with different sizes\n");
   nmt_flatsky_info *fs=fla1->fs;
   if(ba->n_bands!=bb->n_bands)
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for different binning schemes\n");
+  for(ii=0;ii<ba->n_bands;ii++) {
+    if((ba->ell_0_list[ii]!=bb->ell_0_list[ii]) || (ba->ell_f_list[ii]!=bb->ell_f_list[ii]))
+      report_error(NMT_ERROR_COVAR,"Can't compute covariance for different binning schemes\n");
+  }
 
   nmt_covar_workspace_flat *cw=my_malloc(sizeof(nmt_covar_workspace_flat));
 
-- 
2.43.0


From 74ec17fa43558ae76762bbfc2245e90e237e69c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 41/69] fix: compute_full_master_flat for lite fields and
 workspaces of other spins

---
 src/nmt_master_flat.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index ecca745..572e7ab 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -929,6 +929,8 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different pixels!\n");
     if(bin->n_bands!=w->bin->n_bands)
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
+    if(w->ncls!=fl1->nmaps*fl2->nmaps)
+      report_error(NMT_ERROR_INCONSISTENT,"Input workspace was computed for different spins!\n");
   }
 
   cl_bias=my_malloc(w->ncls*sizeof(flouble *));
@@ -938,8 +940,17 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
     cl_data[ii]=my_calloc(w->bin->n_bands,sizeof(flouble));
   }
   nmt_compute_coupled_cell_flat(fl1,fl2,bin,cl_data,lmn_x,lmx_x,lmn_y,lmx_y);
-  nmt_compute_deprojection_bias_flat(fl1,fl2,bin,lmn_x,lmx_x,lmn_y,lmx_y,
-				     nl_prop,l_prop,cl_prop,cl_bias);
+  //The deprojection bias is only needed (and possible) with a guess spectrum
+  int il,has_guess=0;
+  for(ii=0;ii<w->ncls;ii++) {
+    for(il=0;il<nl_prop;il++) {
+      if(cl_prop[ii][il]!=0)
+	has_guess=1;
+    }
+  }
+  if(has_guess)
+    nmt_compute_deprojection_bias_flat(fl1,fl2,bin,lmn_x,lmx_x,lmn_y,lmx_y,
+				       nl_prop,l_prop,cl_prop,cl_bias);
   nmt_decouple_cl_l_flat(w,cl_data,cl_noise,cl_bias,cl_out);
   for(ii=0;ii<w->ncls;ii++) {
     free(cl_bias[ii]);
-- 
2.43.0


From bf01d65f47de313d443438bcae8b21bab9484db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 42/69] fix: flat fields whose templates vanish within the mask
 are not NaN

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 58d097a..e0787de 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -369,7 +369,7 @@ void moore_penrose_pinv(gsl_matrix *M,double threshold)
   gsl_matrix_set_zero(M);
   for(ii=0;ii<M->size1;ii++) {
     double v=gsl_vector_get(eval,ii);
-    if(v<threshold*eval_max)
+    if((v<=0) || (v<threshold*eval_max))
       gsl_matrix_set(M,ii,ii,0);
     else
       gsl_matrix_set(M,ii,ii,1./v);
-- 
2.43.0


From 31bff61b60b4e2790606a2754e5632b0acb0bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 43/69] fix: out-of-bounds reads when two flat fields have
 beams sampled at different multipoles

---
 src/nmt_master_flat.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 572e7ab..86e5fb2 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -168,7 +168,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
     flouble dky=2*M_PI/fs->ly;
     int iy1,ix1;
     int *n_cells_thr=my_calloc(w->bin->n_bands,sizeof(int));
-    gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
+    gsl_interp_accel *intacc_beam1=gsl_interp_accel_alloc();
+    gsl_interp_accel *intacc_beam2=gsl_interp_accel_alloc();
 
 #pragma omp for
     for(iy1=0;iy1<fs->ny;iy1++) {
@@ -198,8 +199,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
 
 	kmod=sqrt(kx*kx+ky*ky);
-	beam1=nmt_k_function_eval(fl1->beam,kmod,intacc_beam);
-	beam2=nmt_k_function_eval(fl2->beam,kmod,intacc_beam);	
+	beam1=nmt_k_function_eval(fl1->beam,kmod,intacc_beam1);
+	beam2=nmt_k_function_eval(fl2->beam,kmod,intacc_beam2);	
 	kmodarr[index]=kmod;
 	beamprod[index]=beam1*beam2;
 	ik=nmt_bins_flat_search_fast(w->bin,kmod,ik);
@@ -267,7 +268,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	w->n_cells[iy1]+=n_cells_thr[iy1];
     } //end omp critical
     free(n_cells_thr);
-    gsl_interp_accel_free(intacc_beam);
+    gsl_interp_accel_free(intacc_beam1);
+    gsl_interp_accel_free(intacc_beam2);
   } //end omp parallel
   free(x_out_range);
   free(y_out_range);
-- 
2.43.0


From 01201666872f5477162f1c6046ac038b099f607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 44/69] fix: workspaces with FKP normalisation read from a file
 lost their normalisation on the next update

---
 src/nmt_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index bb53372..7bc4af9 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -388,6 +388,8 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
   check_fits(status,fname,1);
+  // With norm_type=1 the binned MCM is w2 times the identity
+  w->w2=gsl_matrix_get(w->coupling_matrix_binned,0,0);
   fits_close_file(fptr,&status);
 
   return w;
-- 
2.43.0


From cb0c942da781562fe1e3c93d549f984ade5b879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 45/69] fix: workspaces with overlapping bandpowers lost the
 shared multipoles when written to a file

---
 src/nmt_io.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 7bc4af9..4d5a33d 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -200,24 +200,23 @@ static void nmt_binning_scheme_tohdus(fitsfile *fptr,
 				      int *status)
 {
   int ii;
-  int nrows=b->ell_max+1;
+  // One row per multipole of each band (multipoles may be shared by bands)
+  int nrows=0,irow=0;
+  for(ii=0;ii<b->n_bands;ii++)
+    nrows+=b->nell_list[ii];
   int *bpws=my_malloc(nrows*sizeof(int));
   int *ells=my_malloc(nrows*sizeof(int));
   flouble *weights=my_calloc(nrows,sizeof(flouble));
   flouble *f_ell=my_calloc(nrows,sizeof(flouble));
-  for(ii=0;ii<nrows;ii++) {
-    bpws[ii]=-1;
-    ells[ii]=-1;
-  }
 
   for(ii=0;ii<b->n_bands;ii++) {
     int jj;
     for(jj=0;jj<b->nell_list[ii];jj++) {
-      int l=b->ell_list[ii][jj];
-      ells[l]=l;
-      bpws[l]=ii;
-      weights[l]=b->w_list[ii][jj];
-      f_ell[l]=b->f_ell[ii][jj];
+      bpws[irow]=ii;
+      ells[irow]=b->ell_list[ii][jj];
+      weights[irow]=b->w_list[ii][jj];
+      f_ell[irow]=b->f_ell[ii][jj];
+      irow++;
     }
   }
 
-- 
2.43.0


From 20529ad3c934651c61d704b72b9c7fd58dbba9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 46/69] fix: reloaded flat workspaces assigned Fourier modes to
 other rings and refused their own fields (sizes rounded to 15 digits in the
 file)

---
 src/nmt_io.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 4d5a33d..523fa8b 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -1,5 +1,6 @@
 #include "config.h"
 #include "utils.h"
+#include <float.h>
 #include <fitsio.h>
 
 static void nmt_workspace_info_tohdus(fitsfile *fptr,
@@ -394,6 +395,17 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   return w;
 }
 
+// Doubles are stored with all their digits (TDOUBLE keys would be rounded to 15)
+// and infinite limits as the largest number
+static void write_key_double(fitsfile *fptr,char *name,double value,int *status)
+{
+  if(value>DBL_MAX)
+    value=DBL_MAX;
+  if(value<-DBL_MAX)
+    value=-DBL_MAX;
+  fits_write_key_dbl(fptr,name,value,-17,NULL,status);
+}
+
 static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
 					   nmt_workspace_flat *w,
 					   int *status)
@@ -405,11 +417,11 @@ static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
   long fpixel[2]={1,1};
   fits_create_img(fptr,DOUBLE_IMG,2,naxes,status);
   fits_write_key(fptr,TSTRING,"EXTNAME","WSP_PRIMARY",NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LMAX",&(w->lmax),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_I",&(w->ellcut_x[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_F",&(w->ellcut_x[1]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_I",&(w->ellcut_y[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_F",&(w->ellcut_y[1]),NULL,status);
+  write_key_double(fptr,"LMAX",w->lmax,status);
+  write_key_double(fptr,"ELLCUT_X_I",w->ellcut_x[0],status);
+  write_key_double(fptr,"ELLCUT_X_F",w->ellcut_x[1],status);
+  write_key_double(fptr,"ELLCUT_Y_I",w->ellcut_y[0],status);
+  write_key_double(fptr,"ELLCUT_Y_F",w->ellcut_y[1],status);
   fits_write_key(fptr,TINT,"PURE_E1",&(w->pe1),NULL,status);
   fits_write_key(fptr,TINT,"PURE_E2",&(w->pe2),NULL,status);
   fits_write_key(fptr,TINT,"PURE_B1",&(w->pb1),NULL,status);
@@ -469,11 +481,11 @@ static void nmt_flatsky_info_tohdus(fitsfile *fptr,
   fits_write_key(fptr,TINT   ,"NX",&(fs->nx),NULL,status);
   fits_write_key(fptr,TINT   ,"NY",&(fs->ny),NULL,status);
   fits_write_key(fptr,TLONG  ,"NPIX",&(fs->npix),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LX",&(fs->lx),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LY",&(fs->ly),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"PIXSIZE",&(fs->pixsize),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"DELL",&(fs->dell),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"I_DELL",&(fs->i_dell),NULL,status);
+  write_key_double(fptr,"LX",fs->lx,status);
+  write_key_double(fptr,"LY",fs->ly,status);
+  write_key_double(fptr,"PIXSIZE",fs->pixsize,status);
+  write_key_double(fptr,"DELL",fs->dell,status);
+  write_key_double(fptr,"I_DELL",fs->i_dell,status);
 
   free(ttype[0]); free(ttype);
   free(tform[0]); free(tform);
-- 
2.43.0


From 0e9dafd0bd69e70cb2528d6194ffcbc9119a23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 47/69] fix: invalid workspace files were read with
 uninitialised sizes, older bandpower tables could not be read, failed reads
 and writes left the file open and lost data went unnoticed

---
 src/nmt_io.c          | 642 ++++++++++++++++++++++--------------------
 src/nmt_master_flat.c |  22 +-
 2 files changed, 354 insertions(+), 310 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 523fa8b..0af7848 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -3,6 +3,83 @@
 #include <float.h>
 #include <fitsio.h>
 
+// Error status for files with the right structure but inconsistent contents
+#define NMT_FITS_INCONSISTENT 1
+
+// Moves to an image and checks its dimensions
+static void move_to_image(fitsfile *fptr,char *name,int naxis,long n0,long n1,int *status)
+{
+  int ndim=0;
+  long naxes[2]={1,1};
+  fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
+  fits_get_img_dim(fptr,&ndim,status);
+  fits_get_img_size(fptr,2,naxes,status);
+  if((*status==0) && ((ndim!=naxis) || (naxes[0]!=n0) || (naxes[1]!=n1)))
+    *status=NMT_FITS_INCONSISTENT;
+}
+
+static void free_rows(flouble **m,long n)
+{
+  long ii;
+  if(m==NULL)
+    return;
+  for(ii=0;ii<n;ii++)
+    free(m[ii]);
+  free(m);
+}
+
+// Reads the rows of an image
+static flouble **read_rows(fitsfile *fptr,char *name,long nrows,long ncols,int *status)
+{
+  long ii;
+  long fpixel[2]={1,1};
+  move_to_image(fptr,name,2,ncols,nrows,status);
+  if(*status)
+    return NULL;
+  flouble **m=my_calloc(nrows,sizeof(flouble *));
+  for(ii=0;(ii<nrows) && (*status==0);ii++) {
+    fpixel[1]=ii+1;
+    m[ii]=my_malloc(ncols*sizeof(flouble));
+    fits_read_pix(fptr,TDOUBLE,fpixel,ncols,NULL,m[ii],NULL,status);
+  }
+  if(*status) {
+    free_rows(m,nrows);
+    return NULL;
+  }
+  return m;
+}
+
+// Reads a square matrix and the associated permutation
+static void read_lu(fitsfile *fptr,char *name,long n_el,
+		    gsl_matrix **mat,gsl_permutation **perm,int *status)
+{
+  long ii,jj;
+  long fpixel[2]={1,1};
+  flouble **rows=read_rows(fptr,name,n_el,n_el,status);
+  if(rows!=NULL) {
+    *mat=gsl_matrix_alloc(n_el,n_el);
+    for(ii=0;ii<n_el;ii++) {
+      for(jj=0;jj<n_el;jj++)
+	gsl_matrix_set(*mat,ii,jj,rows[ii][jj]);
+    }
+    free_rows(rows,n_el);
+  }
+
+  move_to_image(fptr,"MCM_PERM",1,n_el,1,status);
+  if(*status)
+    return;
+  int *iperm=my_malloc(n_el*sizeof(int));
+  fits_read_pix(fptr,TINT,fpixel,n_el,NULL,iperm,NULL,status);
+  *perm=gsl_permutation_calloc(n_el);
+  for(ii=0;(ii<n_el) && (*status==0);ii++) {
+    if((iperm[ii]<0) || (iperm[ii]>=n_el))
+      *status=NMT_FITS_INCONSISTENT;
+    else
+      (*perm)->data[ii]=iperm[ii];
+  }
+  free(iperm);
+}
+
 static void nmt_workspace_info_tohdus(fitsfile *fptr,
 				      nmt_workspace *w,
 				      int *status)
@@ -43,20 +120,16 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
     w->norm_type=0;
     *status=status_pre;
   }
-  long ii;
-  long n_el=w->ncls*(w->lmax+1);
-  long fpixel[2]={1,1};
-  if(w_unbinned) {
-    w->coupling_matrix_unbinned=my_malloc(n_el*sizeof(flouble *));
-    for(ii=0;ii<n_el;ii++) {
-      fpixel[1]=ii+1;
-      w->coupling_matrix_unbinned[ii]=my_malloc(n_el*sizeof(flouble));
-      fits_read_pix(fptr,TDOUBLE,fpixel,n_el,NULL,
-		    w->coupling_matrix_unbinned[ii],NULL,status);
-    }
+  if(*status)
+    return;
+  if((w->lmax<0) || (w->lmax_fields<w->lmax) || (w->lmax_mask<0) ||
+     (w->ncls<1) || (w->ncls>7)) {
+    *status=NMT_FITS_INCONSISTENT;
+    return;
   }
-  else
-    w->coupling_matrix_unbinned=NULL;
+  long n_el=w->ncls*(w->lmax+1);
+  if(w_unbinned)
+    w->coupling_matrix_unbinned=read_rows(fptr,"WSP_PRIMARY",n_el,n_el,status);
 }
 
 static void nmt_l_arr_tohdus(fitsfile *fptr,
@@ -97,53 +170,82 @@ static void nmt_l_arr_tohdus(fitsfile *fptr,
 static double *nmt_l_arr_fromhdus(fitsfile *fptr, int lmax_expect, char *arrname, int *status)
 {
   double *f;
-  double nulval;
+  double nulval=0;
   int anynul;
-  long nrows;
-  *status=0;
+  long nrows=0;
   fits_movnam_hdu(fptr,BINARY_TBL,arrname,0,status);
   fits_get_num_rows(fptr,&nrows,status);
-  if(nrows!=lmax_expect+1) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Expected %d elements, but got %ld\n",
-		 lmax_expect+1,nrows);
-  }
+  if((*status==0) && (nrows!=lmax_expect+1))
+    *status=NMT_FITS_INCONSISTENT;
+  if(*status)
+    return NULL;
   f=my_malloc(nrows*sizeof(double));
   fits_read_col(fptr,TDOUBLE,2,1,1,nrows,&nulval,f,&anynul,status);
   return f;
 }
 
+// Bandpowers from a list of multipoles, or NULL if they're inconsistent
+static nmt_binning_scheme *bins_from_list(long nell,int *bpws,int *ells,
+					  flouble *weights,flouble *f_ell,
+					  int n_bands,int ell_max,int *status)
+{
+  long ii;
+  nmt_binning_scheme *b=NULL;
+  if((*status==0) && ((n_bands<1) || (n_bands>nell) || (ell_max<0)))
+    *status=NMT_FITS_INCONSISTENT;
+  if(*status)
+    return NULL;
+
+  flouble *norm=my_calloc(n_bands,sizeof(flouble));
+  for(ii=0;ii<nell;ii++) {
+    if((bpws[ii]<0) || (ells[ii]>ell_max))
+      continue;
+    if((bpws[ii]>=n_bands) || (ells[ii]<0)) {
+      *status=NMT_FITS_INCONSISTENT;
+      break;
+    }
+    norm[bpws[ii]]+=weights[ii];
+  }
+  for(ii=0;ii<n_bands;ii++) {
+    if(!(norm[ii]>0))
+      *status=NMT_FITS_INCONSISTENT;
+  }
+  free(norm);
+
+  if(*status==0)
+    b=nmt_bins_create((int)nell,bpws,ells,weights,f_ell,ell_max);
+  return b;
+}
+
 static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
 						       int *status)
 {
   nmt_binning_scheme *b;
   int *bpws,*ells;
   flouble *weights,*f_ell;
-  int anynul,n_bands,ell_max;
-  long nrows;
-  double nulval;
+  int anynul,n_bands=0,ell_max=0;
+  int inulval=0;
+  long nrows=0;
+  double nulval=0;
   fits_movnam_hdu(fptr,BINARY_TBL,"BANDPOWERS",0,status);
   fits_read_key(fptr,TINT,"N_BANDS",&n_bands,NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&ell_max,NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   bpws=my_malloc(nrows*sizeof(int));
   ells=my_malloc(nrows*sizeof(int));
   weights=my_malloc(nrows*sizeof(flouble));
   f_ell=my_malloc(nrows*sizeof(flouble));
-  fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,
+  fits_read_col(fptr,TINT,1,1,1,nrows,&inulval,
 		bpws,&anynul,status);
-  fits_read_col(fptr,TINT,2,1,1,nrows,&nulval,
+  fits_read_col(fptr,TINT,2,1,1,nrows,&inulval,
 		ells,&anynul,status);
   fits_read_col(fptr,TDOUBLE,3,1,1,nrows,&nulval,
 		weights,&anynul,status);
   fits_read_col(fptr,TDOUBLE,4,1,1,nrows,&nulval,
 		f_ell,&anynul,status);
-  b=nmt_bins_create((int)nrows,bpws,ells,weights,f_ell,ell_max);
-  if(n_bands!=b->n_bands) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Number of bands doesn't match table contents %d %d\n",
-		 n_bands, b->n_bands);
-  }
+  b=bins_from_list(nrows,bpws,ells,weights,f_ell,n_bands,ell_max,status);
   free(bpws);
   free(ells);
   free(weights);
@@ -155,43 +257,62 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
 							   int *status)
 {
   int ii,anynul;
-  long nrows;
-  double nulval;
-  nmt_binning_scheme *b=my_malloc(sizeof(nmt_binning_scheme));
+  int n_bands=0,ell_max=0,inulval=0;
+  long nrows=0,nell=0,i0=0;
+  double nulval=0;
+  nmt_binning_scheme *b;
   fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
-  fits_read_key(fptr,TINT,"N_BANDS",&(b->n_bands),NULL,status);
-  fits_read_key(fptr,TINT,"ELL_MAX",&(b->ell_max),NULL,status);
+  fits_read_key(fptr,TINT,"N_BANDS",&n_bands,NULL,status);
+  fits_read_key(fptr,TINT,"ELL_MAX",&ell_max,NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
-  if(nrows!=b->n_bands) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Number of bands doesn't match table size\n");
+  if((*status==0) && ((n_bands<1) || (nrows!=n_bands)))
+    *status=NMT_FITS_INCONSISTENT;
+  if(*status)
+    return NULL;
+
+  int *nell_list=my_calloc(n_bands,sizeof(int));
+  fits_read_col(fptr,TINT,1,1,1,nrows,&inulval,nell_list,&anynul,status);
+  for(ii=0;(ii<n_bands) && (*status==0);ii++) {
+    if(nell_list[ii]<0)
+      *status=NMT_FITS_INCONSISTENT;
+    else
+      nell+=nell_list[ii];
+  }
+  if(*status) {
+    free(nell_list);
+    return NULL;
   }
-  b->nell_list=my_malloc(b->n_bands*sizeof(int));
-  b->ell_list=my_malloc(b->n_bands*sizeof(int *));
-  b->w_list=my_malloc(b->n_bands*sizeof(double *));
-  b->f_ell=my_malloc(b->n_bands*sizeof(double *));
-  fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,
-		b->nell_list,&anynul,status);
 
-  for(ii=0;ii<b->n_bands;ii++) {
+  int *bpws=my_malloc(nell*sizeof(int));
+  int *ells=my_malloc(nell*sizeof(int));
+  flouble *weights=my_malloc(nell*sizeof(flouble));
+  flouble *f_ell=my_malloc(nell*sizeof(flouble));
+  for(ii=0;(ii<n_bands) && (*status==0);ii++) {
+    long jj;
     char hduname[256];
     sprintf(hduname,"BINS_BAND_%d",ii+1);
     fits_movnam_hdu(fptr,BINARY_TBL,hduname,0,status);
     fits_get_num_rows(fptr,&nrows,status);
-    if(nrows!=b->nell_list[ii]) {
-      report_error(NMT_ERROR_INCONSISTENT,
-		   "Number of rows doesn't match number of ells\n");
-    }
-    b->ell_list[ii]=my_malloc(b->nell_list[ii]*sizeof(int));
-    b->w_list[ii]=my_malloc(b->nell_list[ii]*sizeof(double));
-    b->f_ell[ii]=my_malloc(b->nell_list[ii]*sizeof(double));
-    fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,
-		  b->ell_list[ii],&anynul,status);
+    if((*status==0) && (nrows!=nell_list[ii]))
+      *status=NMT_FITS_INCONSISTENT;
+    if(*status)
+      break;
+    for(jj=0;jj<nrows;jj++)
+      bpws[i0+jj]=ii;
+    fits_read_col(fptr,TINT,1,1,1,nrows,&inulval,
+		  &(ells[i0]),&anynul,status);
     fits_read_col(fptr,TDOUBLE,2,1,1,nrows,&nulval,
-		  b->w_list[ii],&anynul,status);
+		  &(weights[i0]),&anynul,status);
     fits_read_col(fptr,TDOUBLE,3,1,1,nrows,&nulval,
-		  b->f_ell[ii],&anynul,status);
+		  &(f_ell[i0]),&anynul,status);
+    i0+=nrows;
   }
+  b=bins_from_list(nell,bpws,ells,weights,f_ell,n_bands,ell_max,status);
+  free(nell_list);
+  free(bpws);
+  free(ells);
+  free(weights);
+  free(f_ell);
 
   return b;
 }
@@ -300,97 +421,80 @@ static void nmt_coupling_binned_fromhdus(fitsfile *fptr,
 					 nmt_workspace *w,
 					 int *status)
 {
-  long n_el=w->ncls*w->bin->n_bands;
-  long fpixel[2]={1,1};
-
-  //Read flattened coupling matrix
-  double *matrix_binned=my_malloc(n_el*n_el*sizeof(double));
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
-  fits_read_pix(fptr,TDOUBLE,fpixel,n_el*n_el,NULL,matrix_binned,NULL,status);
-
-  //Unflatten
-  w->coupling_matrix_binned=gsl_matrix_alloc(n_el,n_el);
-  long ii,jj;
-  for(ii=0;ii<n_el;ii++) {
-    int i0=ii*n_el;
-    for(jj=0;jj<n_el;jj++)
-      gsl_matrix_set(w->coupling_matrix_binned,ii,jj,matrix_binned[i0+jj]);
-  }
-  free(matrix_binned);
-
-  //Read permutation
-  int *perm=my_malloc(n_el*sizeof(int));
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_PERM",0,status);
-  fits_read_pix(fptr,TINT,fpixel,n_el,NULL,perm,NULL,status);
+  if(*status==0)
+    read_lu(fptr,"MCM_BINNED",w->ncls*w->bin->n_bands,
+	    &(w->coupling_matrix_binned),&(w->coupling_matrix_perm),status);
+}
 
-  w->coupling_matrix_perm=gsl_permutation_alloc(n_el);
-  for(ii=0;ii<n_el;ii++)
-    w->coupling_matrix_perm->data[ii]=perm[ii];
-  free(perm);
+// Closes a file after writing and reports any errors (including those
+// found when the last data are flushed)
+static void close_written(fitsfile *fptr,char *fname,int status)
+{
+  int status_close=0;
+  if(fptr!=NULL)
+    fits_close_file(fptr,&status_close);
+  if(status || status_close)
+    report_error(NMT_ERROR_WRITE,"Error writing file %s\n",fname);
 }
 
-static void check_fits(int status,char *fname,int is_read)
+static void close_read(fitsfile *fptr)
 {
-  if(status) {
-    if(is_read)
-      report_error(NMT_ERROR_READ,"Error reading file %s\n",fname);
-    else
-      report_error(NMT_ERROR_WRITE,"Error writing file %s\n",fname);
-  }
+  int status_close=0;
+  if(fptr!=NULL)
+    fits_close_file(fptr,&status_close);
 }
 
 void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   fits_create_file(&fptr,fname,&status);
-  check_fits(status,fname,0);
   // Workspace info HDU
   nmt_workspace_info_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
   // beam_prod HDU
   nmt_l_arr_tohdus(fptr,w->lmax_fields,w->beam_prod,"BEAMS",&status);
-  check_fits(status,fname,0);
   // pcl_masks HDU
   nmt_l_arr_tohdus(fptr,w->lmax_mask,w->pcl_masks,"PCL_MASKS",&status);
-  check_fits(status,fname,0);
   // bins HDUs
   nmt_binning_scheme_tohdus(fptr,w->bin,&status);
-  check_fits(status,fname,0);
   // binned MCM HDU
   nmt_coupling_binned_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
-  fits_close_file(fptr,&status);
+  close_written(fptr,fname,status);
 }
 
 nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
-  nmt_workspace *w=my_malloc(sizeof(nmt_workspace));
+  nmt_workspace *w=my_calloc(1,sizeof(nmt_workspace));
 
   fits_open_file(&fptr,fname,READONLY,&status);
-  check_fits(status,fname,1);
   // Workspace info HDU
   nmt_workspace_info_fromhdus(fptr,w,w_unbinned,&status);
-  check_fits(status,fname,1);
   // beam_prod HDU
   w->beam_prod=nmt_l_arr_fromhdus(fptr,w->lmax_fields,"BEAMS",&status);
-  check_fits(status,fname,1);
   // pcl_masks HDU
   w->pcl_masks=nmt_l_arr_fromhdus(fptr,w->lmax_mask,"PCL_MASKS",&status);
-  check_fits(status,fname,1);
   // bins HDUs
-  w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
-  if(status) // maybe used old format
-    w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
-  check_fits(status,fname,1);
+  if(status==0) {
+    w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
+    if(status==BAD_HDU_NUM) { // maybe used old format
+      status=0;
+      w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
+    }
+    if((status==0) && (w->bin->ell_max!=w->lmax))
+      status=NMT_FITS_INCONSISTENT;
+  }
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
-  check_fits(status,fname,1);
+  close_read(fptr);
+
+  if(status) {
+    nmt_workspace_free(w);
+    report_error(NMT_ERROR_READ,"Error reading file %s\n",fname);
+  }
   // With norm_type=1 the binned MCM is w2 times the identity
   w->w2=gsl_matrix_get(w->coupling_matrix_binned,0,0);
-  fits_close_file(fptr,&status);
 
   return w;
 }
@@ -450,18 +554,8 @@ static void nmt_workspace_flat_info_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"PURE_B2",&(w->pb2),NULL,status);
   fits_read_key(fptr,TINT,"IS_TEB",&(w->is_teb),NULL,status);
   fits_read_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
-  long ii;
-  long naxes[2],fpixel[2]={1,1};
-  fits_get_img_size(fptr,2,naxes,status);
-  w->coupling_matrix_unbinned=my_malloc(naxes[1]*sizeof(flouble *));
-  for(ii=0;ii<naxes[1];ii++) {
-    fpixel[1]=ii+1;
-    w->coupling_matrix_unbinned[ii]=my_malloc(naxes[0]*sizeof(flouble));
-    fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0],NULL,
-		  w->coupling_matrix_unbinned[ii],NULL,status);
-  }
-  if(*status == 412)
-    *status=0;
+  if((*status==0) && ((w->ncls<1) || (w->ncls>7)))
+    *status=NMT_FITS_INCONSISTENT;
 }
 
 static void nmt_flatsky_info_tohdus(fitsfile *fptr,
@@ -495,7 +589,10 @@ static void nmt_flatsky_info_tohdus(fitsfile *fptr,
 static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
 						   int *status)
 {
-  nmt_flatsky_info *fs=my_malloc(sizeof(nmt_flatsky_info));
+  long nrows=0;
+  double nulval=0;
+  int anynul;
+  nmt_flatsky_info *fs=my_calloc(1,sizeof(nmt_flatsky_info));
 
   fits_movnam_hdu(fptr,BINARY_TBL,"FS_INFO",0,status);
   fits_read_key(fptr,TINT   ,"NX",&(fs->nx),NULL,status);
@@ -506,18 +603,20 @@ static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TDOUBLE,"PIXSIZE",&(fs->pixsize),NULL,status);
   fits_read_key(fptr,TDOUBLE,"DELL",&(fs->dell),NULL,status);
   fits_read_key(fptr,TDOUBLE,"I_DELL",&(fs->i_dell),NULL,status);
-
-  long nrows;
-  double nulval;
-  int anynul;
   fits_get_num_rows(fptr,&nrows,status);
+  if((*status==0) && !((fs->nx>0) && (fs->ny>0) && (fs->lx>0) && (fs->ly>0) &&
+		       (fs->npix==fs->nx*((long)(fs->ny))) && (fs->i_dell>0) &&
+		       (fs->dell>0) && (nrows>0)))
+    *status=NMT_FITS_INCONSISTENT;
+  if(*status) {
+    free(fs);
+    return NULL;
+  }
+
   fs->n_ell=nrows;
   fs->ell_min=my_malloc(fs->n_ell*sizeof(flouble));
   fits_read_col(fptr,TDOUBLE,1,1,1,nrows,&nulval,fs->ell_min,&anynul,status);
 
-  if(*status == 412)
-    *status=0;
-
   return fs;
 }
 
@@ -542,18 +641,17 @@ static void nmt_n_cells_tohdus(fitsfile *fptr,
 }
 
 static int *nmt_n_cells_fromhdus(fitsfile *fptr,
-				 int *status)
+				 long *nrows,int *status)
 {
   int *n_cells;
-  long nrows;
-  int nulval,anynul;
+  int nulval=0,anynul;
+  *nrows=0;
   fits_movnam_hdu(fptr,BINARY_TBL,"N_CELLS",0,status);
-  fits_get_num_rows(fptr,&nrows,status);
-  n_cells=my_malloc(nrows*sizeof(int));
-  fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,n_cells,&anynul,status);
-
-  if(*status == 412)
-    *status=0;
+  fits_get_num_rows(fptr,nrows,status);
+  if(*status)
+    return NULL;
+  n_cells=my_malloc((*nrows)*sizeof(int));
+  fits_read_col(fptr,TINT,1,1,1,*nrows,&nulval,n_cells,&anynul,status);
 
   return n_cells;
 }
@@ -598,52 +696,21 @@ static void nmt_flat_coupling_binned_tohdus(fitsfile *fptr,
   free(perm);
 }
 
-static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
-					      nmt_workspace_flat *w,
-					      int *status)
+static void nmt_flat_coupling_fromhdus(fitsfile *fptr,
+				       nmt_workspace_flat *w,
+				       int *status)
 {
-  flouble *matrix;
-  long ii,n_el;
-  long naxes[2],fpixel[2]={1,1};
-
+  if(*status)
+    return;
+  long n_el1=w->ncls*w->bin->n_bands;
+  long n_el2=w->ncls*w->fs->n_ell;
+  //Unbinned
+  w->coupling_matrix_unbinned=read_rows(fptr,"WSP_PRIMARY",n_el1,n_el2,status);
   //Non-GSL
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
-  fits_get_img_size(fptr,2,naxes,status);
-  n_el=naxes[0];
-  matrix=my_malloc(n_el*n_el*sizeof(flouble));
-  fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
-  w->coupling_matrix_binned=my_malloc(n_el*sizeof(flouble *));
-  for(ii=0;ii<n_el;ii++) {
-    w->coupling_matrix_binned[ii]=my_malloc(n_el*sizeof(flouble));
-    memcpy(w->coupling_matrix_binned[ii],
-	   &(matrix[ii*n_el]),n_el*sizeof(flouble));
-  }
-
+  w->coupling_matrix_binned=read_rows(fptr,"MCM_BINNED",n_el1,n_el1,status);
   //GSL
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED_GSL",0,status);
-  fits_get_img_size(fptr,2,naxes,status);
-  if((naxes[0]!=n_el) || (naxes[1]!=n_el)) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Inconsistent size for GSL binned MCM\n");
-  }
-  fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
-  w->coupling_matrix_binned_gsl=gsl_matrix_alloc(n_el,n_el);
-  for(ii=0;ii<n_el;ii++) {
-    long jj,i0=ii*n_el;
-    for(jj=0;jj<n_el;jj++)
-      gsl_matrix_set(w->coupling_matrix_binned_gsl,ii,jj,matrix[i0+jj]);
-  }
-  free(matrix);
-
-  //Read permutation
-  int *perm=my_malloc(n_el*sizeof(int));
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_PERM",0,status);
-  fits_read_pix(fptr,TINT,fpixel,n_el,NULL,perm,NULL,status);
-
-  w->coupling_matrix_perm=gsl_permutation_alloc(n_el);
-  for(ii=0;ii<n_el;ii++)
-    w->coupling_matrix_perm->data[ii]=perm[ii];
-  free(perm);
+  read_lu(fptr,"MCM_BINNED_GSL",n_el1,
+	  &(w->coupling_matrix_binned_gsl),&(w->coupling_matrix_perm),status);
 }
 
 static void nmt_binning_scheme_flat_tohdus(fitsfile *fptr,
@@ -683,12 +750,16 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 								 int *status)
 {
   int anynul;
-  long nrows;
-  double nulval;
-  nmt_binning_scheme_flat *b=my_malloc(sizeof(nmt_binning_scheme_flat));
-
+  long nrows=0;
+  double nulval=0;
   fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if((*status==0) && (nrows<1))
+    *status=NMT_FITS_INCONSISTENT;
+  if(*status)
+    return NULL;
+
+  nmt_binning_scheme_flat *b=my_malloc(sizeof(nmt_binning_scheme_flat));
   b->n_bands=nrows;
   b->ell_0_list=my_malloc(b->n_bands*sizeof(flouble));
   b->ell_f_list=my_malloc(b->n_bands*sizeof(flouble));
@@ -702,52 +773,48 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 
 void nmt_workspace_flat_write_fits(nmt_workspace_flat *w,char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   fits_create_file(&fptr,fname,&status);
-  check_fits(status,fname,0);
   // Workspace info HDU
   nmt_workspace_flat_info_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
   // FS info HDU
   nmt_flatsky_info_tohdus(fptr,w->fs,&status);
-  check_fits(status,fname,0);
   // n_cells HDU
   nmt_n_cells_tohdus(fptr,w->bin->n_bands,w->n_cells,&status);
-  check_fits(status,fname,0);
   // binned MCM HDUs
   nmt_flat_coupling_binned_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
   // bins HDU
   nmt_binning_scheme_flat_tohdus(fptr,w->bin,&status);
-  check_fits(status,fname,0);
-  fits_close_file(fptr,&status);
+  close_written(fptr,fname,status);
 }
 
 nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
-  nmt_workspace_flat *w=my_malloc(sizeof(nmt_workspace_flat));
+  long n_cells=0;
+  nmt_workspace_flat *w=my_calloc(1,sizeof(nmt_workspace_flat));
 
   fits_open_file(&fptr,fname,READONLY,&status);
-  check_fits(status,fname,1);
   // Workspace info HDU
   nmt_workspace_flat_info_fromhdus(fptr,w,&status);
-  check_fits(status,fname,1);
   // FS info HDU
   w->fs=nmt_flatsky_info_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
   // n_cells HDU
-  w->n_cells=nmt_n_cells_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
-  // binned MCM HDUs
-  nmt_flat_coupling_binned_fromhdus(fptr,w,&status);
-  check_fits(status,fname,1);
+  w->n_cells=nmt_n_cells_fromhdus(fptr,&n_cells,&status);
   // bins HDU
   w->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
-  fits_close_file(fptr,&status);
+  if((status==0) && (w->bin->n_bands!=n_cells))
+    status=NMT_FITS_INCONSISTENT;
+  // MCM HDUs
+  nmt_flat_coupling_fromhdus(fptr,w,&status);
+  close_read(fptr);
+
+  if(status) {
+    nmt_workspace_flat_free(w);
+    report_error(NMT_ERROR_READ,"Error reading file %s\n",fname);
+  }
 
   return w;
 }
@@ -767,38 +834,11 @@ static void nmt_covar_coeffs_tohdus(fitsfile *fptr,
   }
 }
 
-static double **nmt_covar_coeffs_fromhdus(fitsfile *fptr,
-					  int n_expected,
-					  char *name,
-					  int *status)
-{
-  flouble *matrix;
-  long ii,n_el;
-  long naxes[2],fpixel[2]={1,1};
-
-  fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
-  fits_get_img_size(fptr,2,naxes,status);
-  n_el=naxes[0];
-  if(n_el!=n_expected)
-    report_error(NMT_ERROR_INCONSISTENT,"Mistmatching coefficient size\n");
-  matrix=my_malloc(n_el*n_el*sizeof(flouble));
-  fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
-
-  double **coeff=my_malloc(n_el*sizeof(flouble *));
-  for(ii=0;ii<n_el;ii++) {
-    coeff[ii]=my_malloc(n_el*sizeof(flouble));
-    memcpy(coeff[ii],&(matrix[ii*n_el]),n_el*sizeof(flouble));
-  }
-  free(matrix);
-  return coeff;
-}
-
 void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   fits_create_file(&fptr,fname,&status);
-  check_fits(status,fname,0);
 
   //Empty primary
   fits_create_img(fptr,BYTE_IMG,0,NULL,&status);
@@ -806,43 +846,36 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
   fits_write_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
   cw->lmax_mask=cw->lmax;
   fits_write_key(fptr,TINT,"SPIN0_ONLY",&(cw->spin0_only),NULL,&status);
-  check_fits(status,fname,0);
 
   nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi00_1122,"XI00_1122",&status);
-  check_fits(status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi00_1221,"XI00_1221",&status);
-  check_fits(status,fname,0);
   if(cw->spin0_only == 0) {
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi02_1122,"XI02_1122",&status);
-    check_fits(status,fname,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi02_1221,"XI02_1221",&status);
-    check_fits(status,fname,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22p_1122,"XI22P_1122",&status);
-    check_fits(status,fname,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22p_1221,"XI22P_1221",&status);
-    check_fits(status,fname,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22m_1122,"XI22M_1122",&status);
-    check_fits(status,fname,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22m_1221,"XI22M_1221",&status);
-    check_fits(status,fname,0);
   }
-  fits_close_file(fptr,&status);
+  close_written(fptr,fname,status);
 }
 
 nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
-  nmt_covar_workspace *cw=my_malloc(sizeof(nmt_covar_workspace));
+  long n_el;
+  nmt_covar_workspace *cw=my_calloc(1,sizeof(nmt_covar_workspace));
 
   fits_open_file(&fptr,fname,READONLY,&status);
-  check_fits(status,fname,1);
   fits_movnam_hdu(fptr,ANY_HDU,"CWSP_PRIMARY",0,&status);
   fits_read_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
-  check_fits(status,fname,1);
+  if((status==0) && (cw->lmax<0))
+    status=NMT_FITS_INCONSISTENT;
+  cw->lmax_mask=cw->lmax;
   if(force_spin0)
     cw->spin0_only=1;
-  else {
+  else if(status==0) {
     fits_read_key(fptr,TINT,"SPIN0_ONLY",&(cw->spin0_only),NULL,&status);
     if(status) {//Old format, always includes all spins
       cw->spin0_only=0;
@@ -851,10 +884,9 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   }
   //Empty primary
 
-  cw->xi00_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI00_1122",&status);
-  check_fits(status,fname,1);
-  cw->xi00_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI00_1221",&status);
-  check_fits(status,fname,1);
+  n_el=cw->lmax+1;
+  cw->xi00_1122=read_rows(fptr,"XI00_1122",n_el,n_el,&status);
+  cw->xi00_1221=read_rows(fptr,"XI00_1221",n_el,n_el,&status);
   if(cw->spin0_only) {
     cw->xi02_1122=cw->xi00_1122;
     cw->xi02_1221=cw->xi00_1221;
@@ -864,92 +896,98 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
     cw->xi22m_1221=cw->xi00_1221;
   }
   else {
-    cw->xi02_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI02_1122",&status);
-    check_fits(status,fname,1);
-    cw->xi02_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI02_1221",&status);
-    check_fits(status,fname,1);
-    cw->xi22p_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22P_1122",&status);
-    check_fits(status,fname,1);
-    cw->xi22p_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22P_1221",&status);
-    check_fits(status,fname,1);
-    cw->xi22m_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22M_1122",&status);
-    check_fits(status,fname,1);
-    cw->xi22m_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22M_1221",&status);
-    check_fits(status,fname,1);
-  }
-  fits_close_file(fptr,&status);
+    cw->xi02_1122=read_rows(fptr,"XI02_1122",n_el,n_el,&status);
+    cw->xi02_1221=read_rows(fptr,"XI02_1221",n_el,n_el,&status);
+    cw->xi22p_1122=read_rows(fptr,"XI22P_1122",n_el,n_el,&status);
+    cw->xi22p_1221=read_rows(fptr,"XI22P_1221",n_el,n_el,&status);
+    cw->xi22m_1122=read_rows(fptr,"XI22M_1122",n_el,n_el,&status);
+    cw->xi22m_1221=read_rows(fptr,"XI22M_1221",n_el,n_el,&status);
+  }
+  close_read(fptr);
+
+  if(status) {
+    free_rows(cw->xi00_1122,n_el);
+    free_rows(cw->xi00_1221,n_el);
+    if(cw->spin0_only==0) {
+      free_rows(cw->xi02_1122,n_el);
+      free_rows(cw->xi02_1221,n_el);
+      free_rows(cw->xi22p_1122,n_el);
+      free_rows(cw->xi22p_1221,n_el);
+      free_rows(cw->xi22m_1122,n_el);
+      free_rows(cw->xi22m_1221,n_el);
+    }
+    free(cw);
+    report_error(NMT_ERROR_READ,"Error reading file %s\n",fname);
+  }
 
   return cw;
 }
 
 void nmt_covar_workspace_flat_write_fits(nmt_covar_workspace_flat *cw,char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   fits_create_file(&fptr,fname,&status);
-  check_fits(status,fname,0);
 
   //Empty primary
   fits_create_img(fptr,BYTE_IMG,0,NULL,&status);
   fits_write_key(fptr,TSTRING,"EXTNAME","CWSP_PRIMARY",NULL,&status);
-  check_fits(status,fname,0);
 
   //Bins
   nmt_binning_scheme_flat_tohdus(fptr,cw->bin,&status);
-  check_fits(status,fname,0);
 
   //Coeffs
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi00_1122,"XI00_1122",&status);
-  check_fits(status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi00_1221,"XI00_1221",&status);
-  check_fits(status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi02_1122,"XI02_1122",&status);
-  check_fits(status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi02_1221,"XI02_1221",&status);
-  check_fits(status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22p_1122,"XI22P_1122",&status);
-  check_fits(status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22p_1221,"XI22P_1221",&status);
-  check_fits(status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1122,"XI22M_1122",&status);
-  check_fits(status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1221,"XI22M_1221",&status);
-  check_fits(status,fname,0);
-  fits_close_file(fptr,&status);
+  close_written(fptr,fname,status);
 }
 
 nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
-  nmt_covar_workspace_flat *cw=my_malloc(sizeof(nmt_covar_workspace_flat));
+  long n_el=0;
+  nmt_covar_workspace_flat *cw=my_calloc(1,sizeof(nmt_covar_workspace_flat));
 
   fits_open_file(&fptr,fname,READONLY,&status);
-  check_fits(status,fname,1);
   fits_movnam_hdu(fptr,IMAGE_HDU,"CWSP_PRIMARY",0,&status);
 
   //Bins
   cw->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  if(status==0)
+    n_el=cw->bin->n_bands;
 
   //Coeffs
-  cw->xi00_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI00_1122",&status);
-  check_fits(status,fname,1);
-  cw->xi00_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI00_1221",&status);
-  check_fits(status,fname,1);
-  cw->xi02_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI02_1122",&status);
-  check_fits(status,fname,1);
-  cw->xi02_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI02_1221",&status);
-  check_fits(status,fname,1);
-  cw->xi22p_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22P_1122",&status);
-  check_fits(status,fname,1);
-  cw->xi22p_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22P_1221",&status);
-  check_fits(status,fname,1);
-  cw->xi22m_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22M_1122",&status);
-  check_fits(status,fname,1);
-  cw->xi22m_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22M_1221",&status);
-  check_fits(status,fname,1);
-  fits_close_file(fptr,&status);
+  cw->xi00_1122=read_rows(fptr,"XI00_1122",n_el,n_el,&status);
+  cw->xi00_1221=read_rows(fptr,"XI00_1221",n_el,n_el,&status);
+  cw->xi02_1122=read_rows(fptr,"XI02_1122",n_el,n_el,&status);
+  cw->xi02_1221=read_rows(fptr,"XI02_1221",n_el,n_el,&status);
+  cw->xi22p_1122=read_rows(fptr,"XI22P_1122",n_el,n_el,&status);
+  cw->xi22p_1221=read_rows(fptr,"XI22P_1221",n_el,n_el,&status);
+  cw->xi22m_1122=read_rows(fptr,"XI22M_1122",n_el,n_el,&status);
+  cw->xi22m_1221=read_rows(fptr,"XI22M_1221",n_el,n_el,&status);
+  close_read(fptr);
+
+  if(status) {
+    free_rows(cw->xi00_1122,n_el);
+    free_rows(cw->xi00_1221,n_el);
+    free_rows(cw->xi02_1122,n_el);
+    free_rows(cw->xi02_1221,n_el);
+    free_rows(cw->xi22p_1122,n_el);
+    free_rows(cw->xi22p_1221,n_el);
+    free_rows(cw->xi22m_1122,n_el);
+    free_rows(cw->xi22m_1221,n_el);
+    if(cw->bin!=NULL)
+      nmt_bins_flat_free(cw->bin);
+    free(cw);
+    report_error(NMT_ERROR_READ,"Error reading file %s\n",fname);
+  }
 
   return cw;
 }
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 86e5fb2..160a792 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -19,15 +19,21 @@ void nmt_workspace_flat_free(nmt_workspace_flat *w)
   int ii;
   gsl_permutation_free(w->coupling_matrix_perm);
   gsl_matrix_free(w->coupling_matrix_binned_gsl);
-  for(ii=0;ii<w->ncls*w->bin->n_bands;ii++)
-    free(w->coupling_matrix_unbinned[ii]);
-  free(w->coupling_matrix_unbinned);
-  for(ii=0;ii<w->ncls*w->bin->n_bands;ii++)
-    free(w->coupling_matrix_binned[ii]);
-  free(w->coupling_matrix_binned);
+  if(w->coupling_matrix_unbinned!=NULL) {
+    for(ii=0;ii<w->ncls*w->bin->n_bands;ii++)
+      free(w->coupling_matrix_unbinned[ii]);
+    free(w->coupling_matrix_unbinned);
+  }
+  if(w->coupling_matrix_binned!=NULL) {
+    for(ii=0;ii<w->ncls*w->bin->n_bands;ii++)
+      free(w->coupling_matrix_binned[ii]);
+    free(w->coupling_matrix_binned);
+  }
   free(w->n_cells);
-  nmt_bins_flat_free(w->bin);
-  nmt_flatsky_info_free(w->fs);
+  if(w->bin!=NULL)
+    nmt_bins_flat_free(w->bin);
+  if(w->fs!=NULL)
+    nmt_flatsky_info_free(w->fs);
   free(w);
 }
 
-- 
2.43.0


From 97be3fdb54b496ec08528662714be9d0517bb53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 48/69] fix: map2alm and alm2map read beyond arrays that do not
 match the given resolution or band limit

---
 pymaster/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index edd6dd3..ecd84ff 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -901,6 +901,8 @@ def map2alm(map, spin, map_info, alm_info, *, n_iter):
             of the input map. A set of two arrays (E and B \
             modes) is returned if ``spin>0``.
     """
+    if np.shape(map)[-1] != map_info.npix:
+        raise ValueError("Input map doesn't match the map resolution")
     map = map_info.si.pad_map(map)
     m2a = _m2a_d[nmt_params.sht_calculator]
     a2m = _a2m_d[nmt_params.sht_calculator]
@@ -936,6 +938,9 @@ def alm2map(alm, spin, map_info, alm_info):
             (e.g. Q and U Stokes parameters) is returned \
             if ``spin>0``.
     """
+    if np.shape(alm)[-1] != alm_info.nelem:
+        raise ValueError("Input harmonic coefficients don't match "
+                         "the maximum multipole")
     a2m = _a2m_d[nmt_params.sht_calculator]
     map = a2m(alm, spin, map_info.si, alm_info)
     return map_info.si.unpad_map(map)
-- 
2.43.0


From 55c91204f6e8dc4925c4ba08717beb64f277b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 49/69] fix: synfast_flat crashed when asked for maps without
 pixels

---
 pymaster/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index ecd84ff..aee85bf 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -753,6 +753,9 @@ def synfast_flat(nx, ny, lx, ly, cls, spin_arr, beam=None, seed=-1):
     if seed < 0:
         seed = np.random.randint(50000000)
 
+    if (nx < 1) or (ny < 1):
+        raise ValueError("Must supply sensible dimensions for "
+                         "flat-sky maps")
     spin_arr = np.array(spin_arr).astype(np.int32)
     nfields = len(spin_arr)
 
-- 
2.43.0


From 60baeda735e0a9bbec90699525b89686f2c2e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 50/69] fix: flat-sky functions crashed or never returned for
 unknown apodization types and degenerate patch sizes

---
 pymaster/field.py |  1 +
 pymaster/utils.py | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 68524a7..c6b70c5 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -638,6 +638,7 @@ class NmtFieldFlat(object):
         shape_2D = np.shape(mask)
         self.ny = shape_2D[0]
         self.nx = shape_2D[1]
+        ut._check_flat_patch(self.nx, self.ny, lx, ly)
 
         if maps is None:
             mask_only = True
diff --git a/pymaster/utils.py b/pymaster/utils.py
index aee85bf..46474b6 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -557,6 +557,24 @@ def mask_apodization(mask_in, aposize, apotype="C1"):
     return m
 
 
+def _check_flat_patch(nx, ny, lx, ly):
+    """ Checks that the dimensions of a flat-sky patch make sense.
+
+    Args:
+        nx (:obj:`int`): Number of pixels in the x axis.
+        ny (:obj:`int`): Number of pixels in the y axis.
+        lx (:obj:`float`): Patch size in the x axis (radians).
+        ly (:obj:`float`): Patch size in the y axis (radians).
+    """
+    if not (0 < lx < np.inf and 0 < ly < np.inf):
+        raise RuntimeError("Must supply sensible dimensions for "
+                           "flat-sky patches")
+    # The number of Fourier-space rings must be a valid C integer
+    n_ell = np.hypot((nx//2)/lx, (ny//2)/ly)*max(lx, ly)
+    if not n_ell < np.iinfo(np.int32).max:
+        raise RuntimeError("Flat-sky patch is too elongated")
+
+
 def mask_apodization_flat(mask_in, lx, ly, aposize, apotype="C1"):
     """ Apodizes a flat-sky mask. See the docstrings of
     :meth:`mask_apodization` for a description of the different
@@ -573,10 +591,14 @@ def mask_apodization_flat(mask_in, lx, ly, aposize, apotype="C1"):
     Returns:
         (`array`): Apodized mask.
     """
+    if apotype not in ['C1', 'C2', 'Smooth']:
+        raise RuntimeError(f"Apodization type {apotype} unknown. "
+                           "Choose from ['C1', 'C2', 'Smooth']")
     if mask_in.ndim != 2:
         raise ValueError("Mask must be a 2D array")
     nx = len(mask_in[0])
     ny = len(mask_in)
+    _check_flat_patch(nx, ny, lx, ly)
     mask_apo_flat = lib.apomask_flat(
         nx, ny, lx, ly, mask_in.flatten().astype("float64"),
         nx * ny, aposize, apotype
@@ -756,6 +778,7 @@ def synfast_flat(nx, ny, lx, ly, cls, spin_arr, beam=None, seed=-1):
     if (nx < 1) or (ny < 1):
         raise ValueError("Must supply sensible dimensions for "
                          "flat-sky maps")
+    _check_flat_patch(nx, ny, lx, ly)
     spin_arr = np.array(spin_arr).astype(np.int32)
     nfields = len(spin_arr)
 
-- 
2.43.0


From 43bd66f45873c3a703fac6ae22d09555e12d33e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 51/69] fix: reading a workspace or covariance workspace from
 file name None crashed

---
 src/nmt_io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 0af7848..472e584 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -468,6 +468,8 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   int status=0;
   nmt_workspace *w=my_calloc(1,sizeof(nmt_workspace));
 
+  if(fname==NULL)
+    status=FILE_NOT_OPENED;
   fits_open_file(&fptr,fname,READONLY,&status);
   // Workspace info HDU
   nmt_workspace_info_fromhdus(fptr,w,w_unbinned,&status);
@@ -796,6 +798,8 @@ nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
   long n_cells=0;
   nmt_workspace_flat *w=my_calloc(1,sizeof(nmt_workspace_flat));
 
+  if(fname==NULL)
+    status=FILE_NOT_OPENED;
   fits_open_file(&fptr,fname,READONLY,&status);
   // Workspace info HDU
   nmt_workspace_flat_info_fromhdus(fptr,w,&status);
@@ -867,6 +871,8 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   long n_el;
   nmt_covar_workspace *cw=my_calloc(1,sizeof(nmt_covar_workspace));
 
+  if(fname==NULL)
+    status=FILE_NOT_OPENED;
   fits_open_file(&fptr,fname,READONLY,&status);
   fits_movnam_hdu(fptr,ANY_HDU,"CWSP_PRIMARY",0,&status);
   fits_read_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
@@ -955,6 +961,8 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
   long n_el=0;
   nmt_covar_workspace_flat *cw=my_calloc(1,sizeof(nmt_covar_workspace_flat));
 
+  if(fname==NULL)
+    status=FILE_NOT_OPENED;
   fits_open_file(&fptr,fname,READONLY,&status);
   fits_movnam_hdu(fptr,IMAGE_HDU,"CWSP_PRIMARY",0,&status);
 
-- 
2.43.0


From d59557e5f9ff5df0eb40218b237de525d62d0036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:45 +0000
Subject: [PATCH 52/69] fix: arrays in non-native byte order (e.g. from FITS
 files) or unaligned were passed to the C library without conversion

---
 pymaster/namaster_wrap.c | 3 ++-
 pymaster/numpy.i         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 9fe4080..cebb2f7 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -4009,7 +4009,8 @@ void get_ell_sampling_flat(nmt_field_flat *f, double *dout, int ndout)
     PyArrayObject* ary = NULL;
     PyObject*      py_obj;
     if (is_array(input) && (typecode == NPY_NOTYPE ||
-                            PyArray_EquivTypenums(array_type(input),typecode)))
+                            PyArray_EquivTypenums(array_type(input),typecode)) &&
+        array_is_native(input) && PyArray_ISALIGNED((PyArrayObject*)input))
     {
       ary = (PyArrayObject*) input;
       *is_new_object = 0;
diff --git a/pymaster/numpy.i b/pymaster/numpy.i
index 7429677..92dbf4b 100644
--- a/pymaster/numpy.i
+++ b/pymaster/numpy.i
@@ -234,7 +234,8 @@
     PyArrayObject* ary = NULL;
     PyObject*      py_obj;
     if (is_array(input) && (typecode == NPY_NOTYPE ||
-                            PyArray_EquivTypenums(array_type(input),typecode)))
+                            PyArray_EquivTypenums(array_type(input),typecode)) &&
+        array_is_native(input) && PyArray_ISALIGNED((PyArrayObject*)input))
     {
       ary = (PyArrayObject*) input;
       *is_new_object = 0;
-- 
2.43.0


From fbf5a8db08b4d04adfcb92d928da8bd848fc8d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 53/69] fix: fields kept a reference to the caller's beam array

---
 pymaster/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index c6b70c5..d19eaca 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -193,7 +193,7 @@ class NmtField(object):
             if len(beam) <= lmax:
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input map resolution" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
@@ -937,7 +937,7 @@ class NmtFieldCatalog(NmtField):
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input maximum "
                                  "multipole" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
-- 
2.43.0


From b787ed3541c1788334a94d1d422ac87eec7e9760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 54/69] fix: refused requests leaked their output arrays and
 incomplete bandpowers

---
 pymaster/namaster_wrap.c | 112 +++++++++++++++++++++++++++++++++++++++
 pymaster/numpy.i         |  36 +++++++++++++
 src/nmt_bins.c           |   4 +-
 3 files changed, 151 insertions(+), 1 deletion(-)

diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index cebb2f7..1452633 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -14023,9 +14023,13 @@ SWIGINTERN PyObject *_wrap_get_nell_list(PyObject *SWIGUNUSEDPARM(self), PyObjec
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array2);
+    array2 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array2);
+  }
   return NULL;
 }
 
@@ -14118,9 +14122,13 @@ SWIGINTERN PyObject *_wrap_get_ell_list(PyObject *SWIGUNUSEDPARM(self), PyObject
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array3);
+    array3 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array3);
+  }
   return NULL;
 }
 
@@ -14176,9 +14184,13 @@ SWIGINTERN PyObject *_wrap_get_weight_list(PyObject *SWIGUNUSEDPARM(self), PyObj
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array3);
+    array3 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array3);
+  }
   return NULL;
 }
 
@@ -14226,9 +14238,13 @@ SWIGINTERN PyObject *_wrap_get_ell_eff(PyObject *SWIGUNUSEDPARM(self), PyObject
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array2);
+    array2 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array2);
+  }
   return NULL;
 }
 
@@ -14276,9 +14292,13 @@ SWIGINTERN PyObject *_wrap_get_ell_eff_flat(PyObject *SWIGUNUSEDPARM(self), PyOb
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array2);
+    array2 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array2);
+  }
   return NULL;
 }
 
@@ -14531,9 +14551,13 @@ SWIGINTERN PyObject *_wrap_get_bandpower_windows(PyObject *SWIGUNUSEDPARM(self),
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array2);
+    array2 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array2);
+  }
   return NULL;
 }
 
@@ -14581,9 +14605,13 @@ SWIGINTERN PyObject *_wrap_get_mcm(PyObject *SWIGUNUSEDPARM(self), PyObject *arg
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array2);
+    array2 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array2);
+  }
   return NULL;
 }
 
@@ -14726,6 +14754,7 @@ SWIGINTERN PyObject *_wrap_bin_cl(PyObject *SWIGUNUSEDPARM(self), PyObject *args
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array5);
+    array5 = NULL;
   }
   {
     if (is_new_object2 && array2)
@@ -14735,6 +14764,9 @@ SWIGINTERN PyObject *_wrap_bin_cl(PyObject *SWIGUNUSEDPARM(self), PyObject *args
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array5);
+  }
   {
     if (is_new_object2 && array2)
     {
@@ -14822,6 +14854,7 @@ SWIGINTERN PyObject *_wrap_bin_cl_flat(PyObject *SWIGUNUSEDPARM(self), PyObject
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array7);
+    array7 = NULL;
   }
   {
     if (is_new_object2 && array2)
@@ -14837,6 +14870,9 @@ SWIGINTERN PyObject *_wrap_bin_cl_flat(PyObject *SWIGUNUSEDPARM(self), PyObject
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array7);
+  }
   {
     if (is_new_object2 && array2)
     {
@@ -14914,6 +14950,7 @@ SWIGINTERN PyObject *_wrap_unbin_cl(PyObject *SWIGUNUSEDPARM(self), PyObject *ar
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array5);
+    array5 = NULL;
   }
   {
     if (is_new_object2 && array2)
@@ -14923,6 +14960,9 @@ SWIGINTERN PyObject *_wrap_unbin_cl(PyObject *SWIGUNUSEDPARM(self), PyObject *ar
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array5);
+  }
   {
     if (is_new_object2 && array2)
     {
@@ -15010,6 +15050,7 @@ SWIGINTERN PyObject *_wrap_unbin_cl_flat(PyObject *SWIGUNUSEDPARM(self), PyObjec
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array7);
+    array7 = NULL;
   }
   {
     if (is_new_object2 && array2)
@@ -15025,6 +15066,9 @@ SWIGINTERN PyObject *_wrap_unbin_cl_flat(PyObject *SWIGUNUSEDPARM(self), PyObjec
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array7);
+  }
   {
     if (is_new_object2 && array2)
     {
@@ -15620,9 +15664,13 @@ SWIGINTERN PyObject *_wrap_get_mask_flat(PyObject *SWIGUNUSEDPARM(self), PyObjec
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array2);
+    array2 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array2);
+  }
   return NULL;
 }
 
@@ -15678,9 +15726,13 @@ SWIGINTERN PyObject *_wrap_get_map_flat(PyObject *SWIGUNUSEDPARM(self), PyObject
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array3);
+    array3 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array3);
+  }
   return NULL;
 }
 
@@ -15744,9 +15796,13 @@ SWIGINTERN PyObject *_wrap_get_temp_flat(PyObject *SWIGUNUSEDPARM(self), PyObjec
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array4);
+    array4 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array4);
+  }
   return NULL;
 }
 
@@ -15819,6 +15875,7 @@ SWIGINTERN PyObject *_wrap_apomask(PyObject *SWIGUNUSEDPARM(self), PyObject *arg
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array3);
+    array3 = NULL;
   }
   {
     if (is_new_object1 && array1)
@@ -15829,6 +15886,9 @@ SWIGINTERN PyObject *_wrap_apomask(PyObject *SWIGUNUSEDPARM(self), PyObject *arg
   if (alloc6 == SWIG_NEWOBJ) free((char*)buf6);
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array3);
+  }
   {
     if (is_new_object1 && array1)
     {
@@ -15940,6 +16000,7 @@ SWIGINTERN PyObject *_wrap_apomask_flat(PyObject *SWIGUNUSEDPARM(self), PyObject
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array7);
+    array7 = NULL;
   }
   {
     if (is_new_object5 && array5)
@@ -15950,6 +16011,9 @@ SWIGINTERN PyObject *_wrap_apomask_flat(PyObject *SWIGUNUSEDPARM(self), PyObject
   if (alloc10 == SWIG_NEWOBJ) free((char*)buf10);
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array7);
+  }
   {
     if (is_new_object5 && array5)
     {
@@ -16088,6 +16152,7 @@ SWIGINTERN PyObject *_wrap_synfast_new_flat(PyObject *SWIGUNUSEDPARM(self), PyOb
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array14);
+    array14 = NULL;
   }
   {
     if (is_new_object5 && array5)
@@ -16109,6 +16174,9 @@ SWIGINTERN PyObject *_wrap_synfast_new_flat(PyObject *SWIGUNUSEDPARM(self), PyOb
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array14);
+  }
   {
     if (is_new_object5 && array5)
     {
@@ -17118,6 +17186,7 @@ SWIGINTERN PyObject *_wrap_comp_deproj_bias_flat(PyObject *SWIGUNUSEDPARM(self),
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array13);
+    array13 = NULL;
   }
   {
     if (is_new_object8 && array8)
@@ -17133,6 +17202,9 @@ SWIGINTERN PyObject *_wrap_comp_deproj_bias_flat(PyObject *SWIGUNUSEDPARM(self),
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array13);
+  }
   {
     if (is_new_object8 && array8)
     {
@@ -17657,6 +17729,7 @@ SWIGINTERN PyObject *_wrap_comp_gaussian_covariance(PyObject *SWIGUNUSEDPARM(sel
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array20);
+    array20 = NULL;
   }
   {
     if (is_new_object8 && array8)
@@ -17684,6 +17757,9 @@ SWIGINTERN PyObject *_wrap_comp_gaussian_covariance(PyObject *SWIGUNUSEDPARM(sel
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array20);
+  }
   {
     if (is_new_object8 && array8)
     {
@@ -17875,6 +17951,7 @@ SWIGINTERN PyObject *_wrap_comp_gaussian_covariance_coupled(PyObject *SWIGUNUSED
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array20);
+    array20 = NULL;
   }
   {
     if (is_new_object8 && array8)
@@ -17902,6 +17979,9 @@ SWIGINTERN PyObject *_wrap_comp_gaussian_covariance_coupled(PyObject *SWIGUNUSED
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array20);
+  }
   {
     if (is_new_object8 && array8)
     {
@@ -18109,6 +18189,7 @@ SWIGINTERN PyObject *_wrap_comp_gaussian_covariance_flat(PyObject *SWIGUNUSEDPAR
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array22);
+    array22 = NULL;
   }
   {
     if (is_new_object8 && array8)
@@ -18142,6 +18223,9 @@ SWIGINTERN PyObject *_wrap_comp_gaussian_covariance_flat(PyObject *SWIGUNUSEDPAR
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array22);
+  }
   {
     if (is_new_object8 && array8)
     {
@@ -18267,9 +18351,13 @@ SWIGINTERN PyObject *_wrap_comp_pspec_coupled_flat(PyObject *SWIGUNUSEDPARM(self
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array4);
+    array4 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array4);
+  }
   return NULL;
 }
 
@@ -18371,6 +18459,7 @@ SWIGINTERN PyObject *_wrap_decouple_cell_py(PyObject *SWIGUNUSEDPARM(self), PyOb
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array11);
+    array11 = NULL;
   }
   {
     if (is_new_object2 && array2)
@@ -18392,6 +18481,9 @@ SWIGINTERN PyObject *_wrap_decouple_cell_py(PyObject *SWIGUNUSEDPARM(self), PyOb
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array11);
+  }
   {
     if (is_new_object2 && array2)
     {
@@ -18511,6 +18603,7 @@ SWIGINTERN PyObject *_wrap_decouple_cell_py_flat(PyObject *SWIGUNUSEDPARM(self),
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array11);
+    array11 = NULL;
   }
   {
     if (is_new_object2 && array2)
@@ -18532,6 +18625,9 @@ SWIGINTERN PyObject *_wrap_decouple_cell_py_flat(PyObject *SWIGUNUSEDPARM(self),
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array11);
+  }
   {
     if (is_new_object2 && array2)
     {
@@ -18615,6 +18711,7 @@ SWIGINTERN PyObject *_wrap_couple_cell_py(PyObject *SWIGUNUSEDPARM(self), PyObje
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array5);
+    array5 = NULL;
   }
   {
     if (is_new_object2 && array2)
@@ -18624,6 +18721,9 @@ SWIGINTERN PyObject *_wrap_couple_cell_py(PyObject *SWIGUNUSEDPARM(self), PyObje
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array5);
+  }
   {
     if (is_new_object2 && array2)
     {
@@ -18711,6 +18811,7 @@ SWIGINTERN PyObject *_wrap_couple_cell_py_flat(PyObject *SWIGUNUSEDPARM(self), P
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array7);
+    array7 = NULL;
   }
   {
     if (is_new_object2 && array2)
@@ -18726,6 +18827,9 @@ SWIGINTERN PyObject *_wrap_couple_cell_py_flat(PyObject *SWIGUNUSEDPARM(self), P
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array7);
+  }
   {
     if (is_new_object2 && array2)
     {
@@ -19013,6 +19117,7 @@ SWIGINTERN PyObject *_wrap_comp_pspec_flat(PyObject *SWIGUNUSEDPARM(self), PyObj
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array13);
+    array13 = NULL;
   }
   {
     if (is_new_object5 && array5)
@@ -19034,6 +19139,9 @@ SWIGINTERN PyObject *_wrap_comp_pspec_flat(PyObject *SWIGUNUSEDPARM(self), PyObj
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array13);
+  }
   {
     if (is_new_object5 && array5)
     {
@@ -19099,9 +19207,13 @@ SWIGINTERN PyObject *_wrap_get_ell_sampling_flat(PyObject *SWIGUNUSEDPARM(self),
   resultobj = SWIG_Py_Void();
   {
     resultobj = SWIG_Python_AppendOutput(resultobj,(PyObject*)array2);
+    array2 = NULL;
   }
   return resultobj;
 fail:
+  {
+    Py_XDECREF(array2);
+  }
   return NULL;
 }
 
diff --git a/pymaster/numpy.i b/pymaster/numpy.i
index 92dbf4b..92e7bca 100644
--- a/pymaster/numpy.i
+++ b/pymaster/numpy.i
@@ -1990,6 +1990,12 @@
   (DATA_TYPE ARGOUT_ARRAY1[ANY])
 {
   $result = SWIG_Python_AppendOutput($result,(PyObject*)array$argnum);
+  array$argnum = NULL;
+}
+%typemap(freearg)
+  (DATA_TYPE ARGOUT_ARRAY1[ANY])
+{
+  Py_XDECREF(array$argnum);
 }
 
 /* Typemap suite for (DATA_TYPE* ARGOUT_ARRAY1, DIM_TYPE DIM1)
@@ -2018,6 +2024,12 @@
   (DATA_TYPE* ARGOUT_ARRAY1, DIM_TYPE DIM1)
 {
   $result = SWIG_Python_AppendOutput($result,(PyObject*)array$argnum);
+  array$argnum = NULL;
+}
+%typemap(freearg)
+  (DATA_TYPE* ARGOUT_ARRAY1, DIM_TYPE DIM1)
+{
+  Py_XDECREF(array$argnum);
 }
 
 /* Typemap suite for (DIM_TYPE DIM1, DATA_TYPE* ARGOUT_ARRAY1)
@@ -2046,6 +2058,12 @@
   (DIM_TYPE DIM1, DATA_TYPE* ARGOUT_ARRAY1)
 {
   $result = SWIG_Python_AppendOutput($result,(PyObject*)array$argnum);
+  array$argnum = NULL;
+}
+%typemap(freearg)
+  (DIM_TYPE DIM1, DATA_TYPE* ARGOUT_ARRAY1)
+{
+  Py_XDECREF(array$argnum);
 }
 
 /* Typemap suite for (DATA_TYPE ARGOUT_ARRAY2[ANY][ANY])
@@ -2064,6 +2082,12 @@
   (DATA_TYPE ARGOUT_ARRAY2[ANY][ANY])
 {
   $result = SWIG_Python_AppendOutput($result,(PyObject*)array$argnum);
+  array$argnum = NULL;
+}
+%typemap(freearg)
+  (DATA_TYPE ARGOUT_ARRAY2[ANY][ANY])
+{
+  Py_XDECREF(array$argnum);
 }
 
 /* Typemap suite for (DATA_TYPE ARGOUT_ARRAY3[ANY][ANY][ANY])
@@ -2082,6 +2106,12 @@
   (DATA_TYPE ARGOUT_ARRAY3[ANY][ANY][ANY])
 {
   $result = SWIG_Python_AppendOutput($result,(PyObject*)array$argnum);
+  array$argnum = NULL;
+}
+%typemap(freearg)
+  (DATA_TYPE ARGOUT_ARRAY3[ANY][ANY][ANY])
+{
+  Py_XDECREF(array$argnum);
 }
 
 /* Typemap suite for (DATA_TYPE ARGOUT_ARRAY4[ANY][ANY][ANY][ANY])
@@ -2100,6 +2130,12 @@
   (DATA_TYPE ARGOUT_ARRAY4[ANY][ANY][ANY][ANY])
 {
   $result = SWIG_Python_AppendOutput($result,(PyObject*)array$argnum);
+  array$argnum = NULL;
+}
+%typemap(freearg)
+  (DATA_TYPE ARGOUT_ARRAY4[ANY][ANY][ANY][ANY])
+{
+  Py_XDECREF(array$argnum);
 }
 
 /*****************************/
diff --git a/src/nmt_bins.c b/src/nmt_bins.c
index 8689ef6..9ed41d6 100644
--- a/src/nmt_bins.c
+++ b/src/nmt_bins.c
@@ -120,8 +120,10 @@ nmt_binning_scheme *nmt_bins_create(int nell,int *bpws,int *ells,flouble *weight
     flouble norm=0;
     for(jj=0;jj<bins->nell_list[ii];jj++)
       norm+=bins->w_list[ii][jj];
-    if(norm<=0)
+    if(norm<=0) {
+      nmt_bins_free(bins);
       report_error(NMT_ERROR_BWEIGHT,"Weights in band %d are wrong\n",ii);
+    }
     for(jj=0;jj<bins->nell_list[ii];jj++)
       bins->w_list[ii][jj]/=norm;
   }
-- 
2.43.0


From de024db31e98e70e5bde2803fe642729fe3768b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 55/69] fix: covariance workspaces and refused requests leaked
 memory

---
 pymaster/namaster.i      | 194 +++++++++++++++++------------
 pymaster/namaster_wrap.c | 263 +++++++++++++++++++++++++++------------
 src/nmt_covar.c          |  12 ++
 src/nmt_covar_flat.c     |   2 +
 src/nmt_master.c         |   4 +
 src/nmt_master_flat.c    |  41 ++++--
 src/utils.c              |  16 +++
 src/utils.h              |  16 +++
 8 files changed, 373 insertions(+), 175 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 4e4940c..6b08a13 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -53,6 +53,37 @@ void asserting(int expression)
   if(!expression)
     report_error(NMT_ERROR_INCONSISTENT,"Passing inconsistent arguments from python\n");
 }
+
+// Temporary memory of the functions below, which is released if they end in an error
+typedef struct scratch_block {
+  struct scratch_block *next,*prev;
+} scratch_block;
+
+static scratch_block scratch_list={&scratch_list,&scratch_list};
+
+static void *scratch_malloc(size_t size)
+{
+  scratch_block *b=my_malloc(sizeof(scratch_block)+size);
+  b->next=scratch_list.next;
+  b->prev=&scratch_list;
+  b->next->prev=b;
+  scratch_list.next=b;
+  return b+1;
+}
+
+static void scratch_free(void *p)
+{
+  scratch_block *b=(scratch_block *)p-1;
+  b->prev->next=b->next;
+  b->next->prev=b->prev;
+  free(b);
+}
+
+static void scratch_free_all(void)
+{
+  while(scratch_list.next!=&scratch_list)
+    scratch_free(scratch_list.next+1);
+}
 %}
 
 %exception {
@@ -60,6 +91,7 @@ void asserting(int expression)
     $action
       }
   finally {
+    scratch_free_all();
     SWIG_exception(SWIG_RuntimeError,nmt_error_message);
   }
  }
@@ -162,15 +194,15 @@ void bin_cl(nmt_binning_scheme *bins,
   int i;
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=scratch_malloc(ncl1*sizeof(double *));
+  cls_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*bins->n_bands]);
   }
   nmt_bin_cls(bins,cls_in,cls_out,ncl1);
-  free(cls_in);
-  free(cls_out);
+  scratch_free(cls_in);
+  scratch_free(cls_out);
 }
 
 void bin_cl_flat(nmt_binning_scheme_flat *bins,
@@ -182,15 +214,15 @@ void bin_cl_flat(nmt_binning_scheme_flat *bins,
   asserting(nell3==nell1);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=scratch_malloc(ncl1*sizeof(double *));
+  cls_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*bins->n_bands]);
   }
   nmt_bin_cls_flat(bins,nell3,weights,cls_in,cls_out,ncl1);
-  free(cls_in);
-  free(cls_out);
+  scratch_free(cls_in);
+  scratch_free(cls_out);
 }
 
 void unbin_cl(nmt_binning_scheme *bins,
@@ -201,16 +233,16 @@ void unbin_cl(nmt_binning_scheme *bins,
   int nellout=ndout/ncl1;
   asserting(nell1==bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=scratch_malloc(ncl1*sizeof(double *));
+  cls_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*nellout]);
     memset(cls_out[i],0,nellout*sizeof(double));
   }
   nmt_unbin_cls(bins,cls_in,cls_out,ncl1);
-  free(cls_in);
-  free(cls_out);
+  scratch_free(cls_in);
+  scratch_free(cls_out);
 }
 
 void unbin_cl_flat(nmt_binning_scheme_flat *bins,
@@ -222,16 +254,16 @@ void unbin_cl_flat(nmt_binning_scheme_flat *bins,
   asserting(ndout==nell3*ncl1);
   asserting(nell1==bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=scratch_malloc(ncl1*sizeof(double *));
+  cls_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*nell3]);
     memset(cls_out[i],0,nell3*sizeof(double));
   }
   nmt_unbin_cls_flat(bins,cls_in,nell3,weights,cls_out,ncl1);
-  free(cls_in);
-  free(cls_out);
+  scratch_free(cls_in);
+  scratch_free(cls_out);
 }
 
 nmt_field_flat *field_alloc_empty_flat(int nx,int ny,double lx,double ly,int spin,
@@ -284,15 +316,15 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
     asserting(npix_2==npix_3);
     asserting(nmap_2==nmap_3);
     ntemp=ntmp_3;
-    temp=malloc(ntmp_3*sizeof(double **));
+    temp=scratch_malloc(ntmp_3*sizeof(double **));
     for(ii=0;ii<ntmp_3;ii++) {
-      temp[ii]=malloc(nmap_3*sizeof(double *));
+      temp[ii]=scratch_malloc(nmap_3*sizeof(double *));
       for(jj=0;jj<nmap_3;jj++)
 	temp[ii][jj]=tmp+npix_3*(jj+ii*nmap_3);
     }
   }
   
-  maps=malloc(nmap_2*sizeof(double *));
+  maps=scratch_malloc(nmap_2*sizeof(double *));
   for(ii=0;ii<nmap_2;ii++)
     maps[ii]=mps+npix_2*ii;
 
@@ -311,10 +343,10 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
 
   if(tmp!=NULL) {
     for(ii=0;ii<ntmp_3;ii++)
-      free(temp[ii]);
-    free(temp);
+      scratch_free(temp[ii]);
+    scratch_free(temp);
   }
-  free(maps);
+  scratch_free(maps);
 
   return fl;
 }
@@ -405,15 +437,15 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
   
-  cls=malloc(ncl1*sizeof(double *));
+  cls=scratch_malloc(ncl1*sizeof(double *));
   for(icl=0;icl<ncl1;icl++)
     cls[icl]=cls1+nell1*icl;
 
-  beams=malloc(nfields*sizeof(double *));
+  beams=scratch_malloc(nfields*sizeof(double *));
   for(icl=0;icl<nfields;icl++)
     beams[icl]=cls2+nell2*icl;
 
-  larr=malloc(nell1*sizeof(double));
+  larr=scratch_malloc(nell1*sizeof(double));
   for(ii=0;ii<nell1;ii++)
     larr[ii]=ii;
 
@@ -426,9 +458,9 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
     dftw_free(maps[icl]);
   }
   free(maps);
-  free(beams);
-  free(cls);
-  free(larr);
+  scratch_free(beams);
+  scratch_free(cls);
+  scratch_free(larr);
 }
 
 nmt_workspace *comp_coupling_matrix_anisotropic(int spin1,int spin2,
@@ -528,13 +560,13 @@ void comp_uncorr_noise_deproj_bias(nmt_field *fl1,
   int n_ell1=fl1->lmax+1;
   asserting(npix_1==fl1->npix);
   asserting(ndout==n_ell1*n_cl1);
-  cl_bias=malloc(n_cl1*sizeof(double *));
+  cl_bias=scratch_malloc(n_cl1*sizeof(double *));
   for(i=0;i<n_cl1;i++)
     cl_bias[i]=&(dout[n_ell1*i]);
 
   nmt_compute_uncorr_noise_deprojection_bias(fl1,mask,cl_bias,n_iter);
 
-  free(cl_bias);
+  scratch_free(cl_bias);
 }
 */
 
@@ -550,8 +582,8 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(ncl1==fl1->nmaps*fl2->nmaps);
   asserting(nell1==nell3);
   asserting(ndout==bin->n_bands*ncl1);
-  cl_bias=malloc(ncl1*sizeof(double *));
-  cl_guess=malloc(ncl1*sizeof(double *));
+  cl_bias=scratch_malloc(ncl1*sizeof(double *));
+  cl_guess=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_guess[i]=&(cls1[nell1*i]);
     cl_bias[i]=&(dout[bin->n_bands*i]);
@@ -559,8 +591,8 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
 
   nmt_compute_deprojection_bias_flat(fl1,fl2,bin,lmn_x,lmx_x,lmn_y,lmx_y,nell3,weights,cl_guess,cl_bias);
 
-  free(cl_bias);
-  free(cl_guess);
+  scratch_free(cl_bias);
+  scratch_free(cl_guess);
 }
 
 void write_covar_workspace(nmt_covar_workspace *cw,char *fname)
@@ -616,21 +648,21 @@ void comp_gaussian_covariance(nmt_covar_workspace *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=scratch_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=scratch_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=scratch_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=scratch_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
 				  c11p,c12p,c21p,c22p,dout);
-  free(c11p); free(c12p); free(c21p); free(c22p);
+  scratch_free(c11p); scratch_free(c12p); scratch_free(c21p); scratch_free(c22p);
 }
 
 void comp_gaussian_covariance_coupled(nmt_covar_workspace *cw,
@@ -646,21 +678,21 @@ void comp_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=scratch_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=scratch_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=scratch_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=scratch_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance_coupled(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
                                           c11p,c12p,c21p,c22p,dout);
-  free(c11p); free(c12p); free(c21p); free(c22p);
+  scratch_free(c11p); scratch_free(c12p); scratch_free(c21p); scratch_free(c22p);
 }
 
 void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
@@ -678,21 +710,21 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=scratch_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=scratch_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=scratch_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=scratch_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance_flat(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
 				       nell3,weights,c11p,c12p,c21p,c22p,dout);
-  free(c11p); free(c12p); free(c21p); free(c22p);
+  scratch_free(c11p); scratch_free(c12p); scratch_free(c21p); scratch_free(c22p);
 }
 
 void comp_pspec_coupled_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
@@ -707,13 +739,13 @@ void comp_pspec_coupled_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(fl1->fs->lx==fl2->fs->lx);
   asserting(fl1->fs->ly==fl2->fs->ly);
   asserting(ndout==fl1->nmaps*fl2->nmaps*bin->n_bands);
-  cl_out=malloc(fl1->nmaps*fl2->nmaps*sizeof(double *));
+  cl_out=scratch_malloc(fl1->nmaps*fl2->nmaps*sizeof(double *));
   for(i=0;i<fl1->nmaps*fl2->nmaps;i++)
     cl_out[i]=&(dout[i*bin->n_bands]);
 
   nmt_compute_coupled_cell_flat(fl1,fl2,bin,cl_out,lmn_x,lmx_x,lmn_y,lmx_y);
 
-  free(cl_out);
+  scratch_free(cl_out);
 }
 
 void decouple_cell_py(nmt_workspace *w,
@@ -731,10 +763,10 @@ void decouple_cell_py(nmt_workspace *w,
   asserting(nell2==nell3);
   asserting(nell1>=(w->lmax+1));
   asserting(ndout==w->bin->n_bands*ncl1);
-  cl_in=   malloc(ncl1*sizeof(double *));
-  cl_noise=malloc(ncl2*sizeof(double *));
-  cl_bias= malloc(ncl3*sizeof(double *));
-  cl_out=  malloc(ncl1*sizeof(double *));
+  cl_in=   scratch_malloc(ncl1*sizeof(double *));
+  cl_noise=scratch_malloc(ncl2*sizeof(double *));
+  cl_bias= scratch_malloc(ncl3*sizeof(double *));
+  cl_out=  scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]   =&(cls1[i*nell1]);
     cl_noise[i]=&(cls2[i*nell2]);
@@ -744,10 +776,10 @@ void decouple_cell_py(nmt_workspace *w,
 
   nmt_decouple_cl_l(w,cl_in,cl_noise,cl_bias,cl_out);
 
-  free(cl_in);
-  free(cl_noise);
-  free(cl_bias);
-  free(cl_out);
+  scratch_free(cl_in);
+  scratch_free(cl_noise);
+  scratch_free(cl_bias);
+  scratch_free(cl_out);
 }
 
 void decouple_cell_py_flat(nmt_workspace_flat *w,
@@ -765,10 +797,10 @@ void decouple_cell_py_flat(nmt_workspace_flat *w,
   asserting(nell2==nell3);
   asserting(nell1==w->bin->n_bands);
   asserting(ndout==w->bin->n_bands*ncl1);
-  cl_in=   malloc(ncl1*sizeof(double *));
-  cl_noise=malloc(ncl2*sizeof(double *));
-  cl_bias= malloc(ncl3*sizeof(double *));
-  cl_out=  malloc(ncl1*sizeof(double *));
+  cl_in=   scratch_malloc(ncl1*sizeof(double *));
+  cl_noise=scratch_malloc(ncl2*sizeof(double *));
+  cl_bias= scratch_malloc(ncl3*sizeof(double *));
+  cl_out=  scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]   =&(cls1[i*nell1]);
     cl_noise[i]=&(cls2[i*nell2]);
@@ -778,10 +810,10 @@ void decouple_cell_py_flat(nmt_workspace_flat *w,
 
   nmt_decouple_cl_l_flat(w,cl_in,cl_noise,cl_bias,cl_out);
 
-  free(cl_in);
-  free(cl_noise);
-  free(cl_bias);
-  free(cl_out);
+  scratch_free(cl_in);
+  scratch_free(cl_noise);
+  scratch_free(cl_bias);
+  scratch_free(cl_out);
 }
 
 void couple_cell_py(nmt_workspace *w,
@@ -793,15 +825,15 @@ void couple_cell_py(nmt_workspace *w,
   asserting(ncl1==w->ncls);
   asserting(nell1>=(w->lmax+1));
   asserting(ncl1*nell1==ndout);
-  cl_in=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_in=scratch_malloc(ncl1*sizeof(double *));
+  cl_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]=&(cls1[i*nell1]);
     cl_out[i]=&(dout[i*nell1]);
   }
   nmt_couple_cl_l(w,cl_in,cl_out);
-  free(cl_in);
-  free(cl_out);
+  scratch_free(cl_in);
+  scratch_free(cl_out);
 }
 
 void couple_cell_py_flat(nmt_workspace_flat *w,
@@ -814,15 +846,15 @@ void couple_cell_py_flat(nmt_workspace_flat *w,
   asserting(nell3==nell1);
   asserting(ncl1==w->ncls);
   asserting(ncl1*w->bin->n_bands==ndout);
-  cl_in=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_in=scratch_malloc(ncl1*sizeof(double *));
+  cl_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]=&(cls1[i*nell1]);
     cl_out[i]=&(dout[i*w->bin->n_bands]);
   }
   nmt_couple_cl_l_flat_fast(w,nell3,weights,cl_in,cl_out);
-  free(cl_in);
-  free(cl_out);
+  scratch_free(cl_in);
+  scratch_free(cl_out);
 }
 
 void wsp_update_beams(nmt_workspace *w,  // Workspace
@@ -853,9 +885,9 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(ndout==bin->n_bands*ncl1);
   asserting(nell3==nell2);
   asserting(ncl1==ncl2);
-  cl_noise=malloc(ncl1*sizeof(double *));
-  cl_guess=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_noise=scratch_malloc(ncl1*sizeof(double *));
+  cl_guess=scratch_malloc(ncl1*sizeof(double *));
+  cl_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_noise[i]=&(cls1[nell1*i]);
     cl_guess[i]=&(cls2[nell3*i]);
@@ -865,9 +897,9 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   w=nmt_compute_power_spectra_flat(fl1,fl2,bin,lmn_x,lmx_x,lmn_y,lmx_y,
 				   w0,cl_noise,nell3,weights,cl_guess,cl_out);
 
-  free(cl_out);
-  free(cl_guess);
-  free(cl_noise);
+  scratch_free(cl_out);
+  scratch_free(cl_guess);
+  scratch_free(cl_noise);
   if(w0==NULL)
     nmt_workspace_flat_free(w);
 }
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 1452633..bed72f0 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3032,6 +3032,37 @@ void asserting(int expression)
     report_error(NMT_ERROR_INCONSISTENT,"Passing inconsistent arguments from python\n");
 }
 
+// Temporary memory of the functions below, which is released if they end in an error
+typedef struct scratch_block {
+  struct scratch_block *next,*prev;
+} scratch_block;
+
+static scratch_block scratch_list={&scratch_list,&scratch_list};
+
+static void *scratch_malloc(size_t size)
+{
+  scratch_block *b=my_malloc(sizeof(scratch_block)+size);
+  b->next=scratch_list.next;
+  b->prev=&scratch_list;
+  b->next->prev=b;
+  scratch_list.next=b;
+  return b+1;
+}
+
+static void scratch_free(void *p)
+{
+  scratch_block *b=(scratch_block *)p-1;
+  b->prev->next=b->next;
+  b->next->prev=b->prev;
+  free(b);
+}
+
+static void scratch_free_all(void)
+{
+  while(scratch_list.next!=&scratch_list)
+    scratch_free(scratch_list.next+1);
+}
+
 
 void get_nell_list(nmt_binning_scheme *bins,int *iout,int niout)
 {
@@ -3129,15 +3160,15 @@ void bin_cl(nmt_binning_scheme *bins,
   int i;
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=scratch_malloc(ncl1*sizeof(double *));
+  cls_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*bins->n_bands]);
   }
   nmt_bin_cls(bins,cls_in,cls_out,ncl1);
-  free(cls_in);
-  free(cls_out);
+  scratch_free(cls_in);
+  scratch_free(cls_out);
 }
 
 void bin_cl_flat(nmt_binning_scheme_flat *bins,
@@ -3149,15 +3180,15 @@ void bin_cl_flat(nmt_binning_scheme_flat *bins,
   asserting(nell3==nell1);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=scratch_malloc(ncl1*sizeof(double *));
+  cls_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*bins->n_bands]);
   }
   nmt_bin_cls_flat(bins,nell3,weights,cls_in,cls_out,ncl1);
-  free(cls_in);
-  free(cls_out);
+  scratch_free(cls_in);
+  scratch_free(cls_out);
 }
 
 void unbin_cl(nmt_binning_scheme *bins,
@@ -3168,16 +3199,16 @@ void unbin_cl(nmt_binning_scheme *bins,
   int nellout=ndout/ncl1;
   asserting(nell1==bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=scratch_malloc(ncl1*sizeof(double *));
+  cls_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*nellout]);
     memset(cls_out[i],0,nellout*sizeof(double));
   }
   nmt_unbin_cls(bins,cls_in,cls_out,ncl1);
-  free(cls_in);
-  free(cls_out);
+  scratch_free(cls_in);
+  scratch_free(cls_out);
 }
 
 void unbin_cl_flat(nmt_binning_scheme_flat *bins,
@@ -3189,16 +3220,16 @@ void unbin_cl_flat(nmt_binning_scheme_flat *bins,
   asserting(ndout==nell3*ncl1);
   asserting(nell1==bins->n_bands);
   double **cls_in,**cls_out;
-  cls_in=malloc(ncl1*sizeof(double *));
-  cls_out=malloc(ncl1*sizeof(double *));
+  cls_in=scratch_malloc(ncl1*sizeof(double *));
+  cls_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cls_in[i]=&(cls1[i*nell1]);
     cls_out[i]=&(dout[i*nell3]);
     memset(cls_out[i],0,nell3*sizeof(double));
   }
   nmt_unbin_cls_flat(bins,cls_in,nell3,weights,cls_out,ncl1);
-  free(cls_in);
-  free(cls_out);
+  scratch_free(cls_in);
+  scratch_free(cls_out);
 }
 
 nmt_field_flat *field_alloc_empty_flat(int nx,int ny,double lx,double ly,int spin,
@@ -3251,15 +3282,15 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
     asserting(npix_2==npix_3);
     asserting(nmap_2==nmap_3);
     ntemp=ntmp_3;
-    temp=malloc(ntmp_3*sizeof(double **));
+    temp=scratch_malloc(ntmp_3*sizeof(double **));
     for(ii=0;ii<ntmp_3;ii++) {
-      temp[ii]=malloc(nmap_3*sizeof(double *));
+      temp[ii]=scratch_malloc(nmap_3*sizeof(double *));
       for(jj=0;jj<nmap_3;jj++)
 	temp[ii][jj]=tmp+npix_3*(jj+ii*nmap_3);
     }
   }
   
-  maps=malloc(nmap_2*sizeof(double *));
+  maps=scratch_malloc(nmap_2*sizeof(double *));
   for(ii=0;ii<nmap_2;ii++)
     maps[ii]=mps+npix_2*ii;
 
@@ -3278,10 +3309,10 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
 
   if(tmp!=NULL) {
     for(ii=0;ii<ntmp_3;ii++)
-      free(temp[ii]);
-    free(temp);
+      scratch_free(temp[ii]);
+    scratch_free(temp);
   }
-  free(maps);
+  scratch_free(maps);
 
   return fl;
 }
@@ -3372,15 +3403,15 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
   
-  cls=malloc(ncl1*sizeof(double *));
+  cls=scratch_malloc(ncl1*sizeof(double *));
   for(icl=0;icl<ncl1;icl++)
     cls[icl]=cls1+nell1*icl;
 
-  beams=malloc(nfields*sizeof(double *));
+  beams=scratch_malloc(nfields*sizeof(double *));
   for(icl=0;icl<nfields;icl++)
     beams[icl]=cls2+nell2*icl;
 
-  larr=malloc(nell1*sizeof(double));
+  larr=scratch_malloc(nell1*sizeof(double));
   for(ii=0;ii<nell1;ii++)
     larr[ii]=ii;
 
@@ -3393,9 +3424,9 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
     dftw_free(maps[icl]);
   }
   free(maps);
-  free(beams);
-  free(cls);
-  free(larr);
+  scratch_free(beams);
+  scratch_free(cls);
+  scratch_free(larr);
 }
 
 nmt_workspace *comp_coupling_matrix_anisotropic(int spin1,int spin2,
@@ -3495,13 +3526,13 @@ void comp_uncorr_noise_deproj_bias(nmt_field *fl1,
   int n_ell1=fl1->lmax+1;
   asserting(npix_1==fl1->npix);
   asserting(ndout==n_ell1*n_cl1);
-  cl_bias=malloc(n_cl1*sizeof(double *));
+  cl_bias=scratch_malloc(n_cl1*sizeof(double *));
   for(i=0;i<n_cl1;i++)
     cl_bias[i]=&(dout[n_ell1*i]);
 
   nmt_compute_uncorr_noise_deprojection_bias(fl1,mask,cl_bias,n_iter);
 
-  free(cl_bias);
+  scratch_free(cl_bias);
 }
 */
 
@@ -3517,8 +3548,8 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(ncl1==fl1->nmaps*fl2->nmaps);
   asserting(nell1==nell3);
   asserting(ndout==bin->n_bands*ncl1);
-  cl_bias=malloc(ncl1*sizeof(double *));
-  cl_guess=malloc(ncl1*sizeof(double *));
+  cl_bias=scratch_malloc(ncl1*sizeof(double *));
+  cl_guess=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_guess[i]=&(cls1[nell1*i]);
     cl_bias[i]=&(dout[bin->n_bands*i]);
@@ -3526,8 +3557,8 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
 
   nmt_compute_deprojection_bias_flat(fl1,fl2,bin,lmn_x,lmx_x,lmn_y,lmx_y,nell3,weights,cl_guess,cl_bias);
 
-  free(cl_bias);
-  free(cl_guess);
+  scratch_free(cl_bias);
+  scratch_free(cl_guess);
 }
 
 void write_covar_workspace(nmt_covar_workspace *cw,char *fname)
@@ -3583,21 +3614,21 @@ void comp_gaussian_covariance(nmt_covar_workspace *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=scratch_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=scratch_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=scratch_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=scratch_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
 				  c11p,c12p,c21p,c22p,dout);
-  free(c11p); free(c12p); free(c21p); free(c22p);
+  scratch_free(c11p); scratch_free(c12p); scratch_free(c21p); scratch_free(c22p);
 }
 
 void comp_gaussian_covariance_coupled(nmt_covar_workspace *cw,
@@ -3613,21 +3644,21 @@ void comp_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=scratch_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=scratch_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=scratch_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=scratch_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance_coupled(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
                                           c11p,c12p,c21p,c22p,dout);
-  free(c11p); free(c12p); free(c21p); free(c22p);
+  scratch_free(c11p); scratch_free(c12p); scratch_free(c21p); scratch_free(c22p);
 }
 
 void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
@@ -3645,21 +3676,21 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
   asserting(nell11==nell21);
   asserting(nell11==nell22);
   int i;
-  double **c11p=malloc(ncl11*sizeof(double *));
+  double **c11p=scratch_malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
     c11p[i]=&(c11[i*nell11]);
-  double **c12p=malloc(ncl12*sizeof(double *));
+  double **c12p=scratch_malloc(ncl12*sizeof(double *));
   for(i=0;i<ncl12;i++)
     c12p[i]=&(c12[i*nell12]);
-  double **c21p=malloc(ncl21*sizeof(double *));
+  double **c21p=scratch_malloc(ncl21*sizeof(double *));
   for(i=0;i<ncl21;i++)
     c21p[i]=&(c21[i*nell21]);
-  double **c22p=malloc(ncl22*sizeof(double *));
+  double **c22p=scratch_malloc(ncl22*sizeof(double *));
   for(i=0;i<ncl22;i++)
     c22p[i]=&(c22[i*nell22]);
   nmt_compute_gaussian_covariance_flat(cw,spin_a1,spin_a2,spin_b1,spin_b2,wa,wb,
 				       nell3,weights,c11p,c12p,c21p,c22p,dout);
-  free(c11p); free(c12p); free(c21p); free(c22p);
+  scratch_free(c11p); scratch_free(c12p); scratch_free(c21p); scratch_free(c22p);
 }
 
 void comp_pspec_coupled_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
@@ -3674,13 +3705,13 @@ void comp_pspec_coupled_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(fl1->fs->lx==fl2->fs->lx);
   asserting(fl1->fs->ly==fl2->fs->ly);
   asserting(ndout==fl1->nmaps*fl2->nmaps*bin->n_bands);
-  cl_out=malloc(fl1->nmaps*fl2->nmaps*sizeof(double *));
+  cl_out=scratch_malloc(fl1->nmaps*fl2->nmaps*sizeof(double *));
   for(i=0;i<fl1->nmaps*fl2->nmaps;i++)
     cl_out[i]=&(dout[i*bin->n_bands]);
 
   nmt_compute_coupled_cell_flat(fl1,fl2,bin,cl_out,lmn_x,lmx_x,lmn_y,lmx_y);
 
-  free(cl_out);
+  scratch_free(cl_out);
 }
 
 void decouple_cell_py(nmt_workspace *w,
@@ -3698,10 +3729,10 @@ void decouple_cell_py(nmt_workspace *w,
   asserting(nell2==nell3);
   asserting(nell1>=(w->lmax+1));
   asserting(ndout==w->bin->n_bands*ncl1);
-  cl_in=   malloc(ncl1*sizeof(double *));
-  cl_noise=malloc(ncl2*sizeof(double *));
-  cl_bias= malloc(ncl3*sizeof(double *));
-  cl_out=  malloc(ncl1*sizeof(double *));
+  cl_in=   scratch_malloc(ncl1*sizeof(double *));
+  cl_noise=scratch_malloc(ncl2*sizeof(double *));
+  cl_bias= scratch_malloc(ncl3*sizeof(double *));
+  cl_out=  scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]   =&(cls1[i*nell1]);
     cl_noise[i]=&(cls2[i*nell2]);
@@ -3711,10 +3742,10 @@ void decouple_cell_py(nmt_workspace *w,
 
   nmt_decouple_cl_l(w,cl_in,cl_noise,cl_bias,cl_out);
 
-  free(cl_in);
-  free(cl_noise);
-  free(cl_bias);
-  free(cl_out);
+  scratch_free(cl_in);
+  scratch_free(cl_noise);
+  scratch_free(cl_bias);
+  scratch_free(cl_out);
 }
 
 void decouple_cell_py_flat(nmt_workspace_flat *w,
@@ -3732,10 +3763,10 @@ void decouple_cell_py_flat(nmt_workspace_flat *w,
   asserting(nell2==nell3);
   asserting(nell1==w->bin->n_bands);
   asserting(ndout==w->bin->n_bands*ncl1);
-  cl_in=   malloc(ncl1*sizeof(double *));
-  cl_noise=malloc(ncl2*sizeof(double *));
-  cl_bias= malloc(ncl3*sizeof(double *));
-  cl_out=  malloc(ncl1*sizeof(double *));
+  cl_in=   scratch_malloc(ncl1*sizeof(double *));
+  cl_noise=scratch_malloc(ncl2*sizeof(double *));
+  cl_bias= scratch_malloc(ncl3*sizeof(double *));
+  cl_out=  scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]   =&(cls1[i*nell1]);
     cl_noise[i]=&(cls2[i*nell2]);
@@ -3745,10 +3776,10 @@ void decouple_cell_py_flat(nmt_workspace_flat *w,
 
   nmt_decouple_cl_l_flat(w,cl_in,cl_noise,cl_bias,cl_out);
 
-  free(cl_in);
-  free(cl_noise);
-  free(cl_bias);
-  free(cl_out);
+  scratch_free(cl_in);
+  scratch_free(cl_noise);
+  scratch_free(cl_bias);
+  scratch_free(cl_out);
 }
 
 void couple_cell_py(nmt_workspace *w,
@@ -3760,15 +3791,15 @@ void couple_cell_py(nmt_workspace *w,
   asserting(ncl1==w->ncls);
   asserting(nell1>=(w->lmax+1));
   asserting(ncl1*nell1==ndout);
-  cl_in=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_in=scratch_malloc(ncl1*sizeof(double *));
+  cl_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]=&(cls1[i*nell1]);
     cl_out[i]=&(dout[i*nell1]);
   }
   nmt_couple_cl_l(w,cl_in,cl_out);
-  free(cl_in);
-  free(cl_out);
+  scratch_free(cl_in);
+  scratch_free(cl_out);
 }
 
 void couple_cell_py_flat(nmt_workspace_flat *w,
@@ -3781,15 +3812,15 @@ void couple_cell_py_flat(nmt_workspace_flat *w,
   asserting(nell3==nell1);
   asserting(ncl1==w->ncls);
   asserting(ncl1*w->bin->n_bands==ndout);
-  cl_in=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_in=scratch_malloc(ncl1*sizeof(double *));
+  cl_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_in[i]=&(cls1[i*nell1]);
     cl_out[i]=&(dout[i*w->bin->n_bands]);
   }
   nmt_couple_cl_l_flat_fast(w,nell3,weights,cl_in,cl_out);
-  free(cl_in);
-  free(cl_out);
+  scratch_free(cl_in);
+  scratch_free(cl_out);
 }
 
 void wsp_update_beams(nmt_workspace *w,  // Workspace
@@ -3820,9 +3851,9 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(ndout==bin->n_bands*ncl1);
   asserting(nell3==nell2);
   asserting(ncl1==ncl2);
-  cl_noise=malloc(ncl1*sizeof(double *));
-  cl_guess=malloc(ncl1*sizeof(double *));
-  cl_out=malloc(ncl1*sizeof(double *));
+  cl_noise=scratch_malloc(ncl1*sizeof(double *));
+  cl_guess=scratch_malloc(ncl1*sizeof(double *));
+  cl_out=scratch_malloc(ncl1*sizeof(double *));
   for(i=0;i<ncl1;i++) {
     cl_noise[i]=&(cls1[nell1*i]);
     cl_guess[i]=&(cls2[nell3*i]);
@@ -3832,9 +3863,9 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   w=nmt_compute_power_spectra_flat(fl1,fl2,bin,lmn_x,lmx_x,lmn_y,lmx_y,
 				   w0,cl_noise,nell3,weights,cl_guess,cl_out);
 
-  free(cl_out);
-  free(cl_guess);
-  free(cl_noise);
+  scratch_free(cl_out);
+  scratch_free(cl_guess);
+  scratch_free(cl_noise);
   if(w0==NULL)
     nmt_workspace_flat_free(w);
 }
@@ -4487,6 +4518,7 @@ SWIGINTERN PyObject *_wrap_new_binning_scheme_flat(PyObject *SWIGUNUSEDPARM(self
       result = (nmt_binning_scheme_flat *)calloc(1, sizeof(nmt_binning_scheme_flat));
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -4516,6 +4548,7 @@ SWIGINTERN PyObject *_wrap_delete_binning_scheme_flat(PyObject *SWIGUNUSEDPARM(s
       free((char *) arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -5138,6 +5171,7 @@ SWIGINTERN PyObject *_wrap_new_binning_scheme(PyObject *SWIGUNUSEDPARM(self), Py
       result = (nmt_binning_scheme *)calloc(1, sizeof(nmt_binning_scheme));
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -5167,6 +5201,7 @@ SWIGINTERN PyObject *_wrap_delete_binning_scheme(PyObject *SWIGUNUSEDPARM(self),
       free((char *) arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -5751,6 +5786,7 @@ SWIGINTERN PyObject *_wrap_new_k_function(PyObject *SWIGUNUSEDPARM(self), PyObje
       result = (nmt_k_function *)calloc(1, sizeof(nmt_k_function));
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -5780,6 +5816,7 @@ SWIGINTERN PyObject *_wrap_delete_k_function(PyObject *SWIGUNUSEDPARM(self), PyO
       free((char *) arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -6453,6 +6490,7 @@ SWIGINTERN PyObject *_wrap_new_flatsky_info(PyObject *SWIGUNUSEDPARM(self), PyOb
       result = (nmt_flatsky_info *)calloc(1, sizeof(nmt_flatsky_info));
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -6482,6 +6520,7 @@ SWIGINTERN PyObject *_wrap_delete_flatsky_info(PyObject *SWIGUNUSEDPARM(self), P
       free((char *) arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -7465,6 +7504,7 @@ SWIGINTERN PyObject *_wrap_new_field_flat(PyObject *SWIGUNUSEDPARM(self), PyObje
       result = (nmt_field_flat *)calloc(1, sizeof(nmt_field_flat));
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -7494,6 +7534,7 @@ SWIGINTERN PyObject *_wrap_delete_field_flat(PyObject *SWIGUNUSEDPARM(self), PyO
       free((char *) arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -8866,6 +8907,7 @@ SWIGINTERN PyObject *_wrap_new_workspace_flat(PyObject *SWIGUNUSEDPARM(self), Py
       result = (nmt_workspace_flat *)calloc(1, sizeof(nmt_workspace_flat));
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -8895,6 +8937,7 @@ SWIGINTERN PyObject *_wrap_delete_workspace_flat(PyObject *SWIGUNUSEDPARM(self),
       free((char *) arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -10157,6 +10200,7 @@ SWIGINTERN PyObject *_wrap_new_workspace(PyObject *SWIGUNUSEDPARM(self), PyObjec
       result = (nmt_workspace *)calloc(1, sizeof(nmt_workspace));
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -10186,6 +10230,7 @@ SWIGINTERN PyObject *_wrap_delete_workspace(PyObject *SWIGUNUSEDPARM(self), PyOb
       free((char *) arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -11257,6 +11302,7 @@ SWIGINTERN PyObject *_wrap_new_master_calculator(PyObject *SWIGUNUSEDPARM(self),
       result = (nmt_master_calculator *)calloc(1, sizeof(nmt_master_calculator));
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -11286,6 +11332,7 @@ SWIGINTERN PyObject *_wrap_delete_master_calculator(PyObject *SWIGUNUSEDPARM(sel
       free((char *) arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -12525,6 +12572,7 @@ SWIGINTERN PyObject *_wrap_new_covar_workspace_flat(PyObject *SWIGUNUSEDPARM(sel
       result = (nmt_covar_workspace_flat *)calloc(1, sizeof(nmt_covar_workspace_flat));
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -12554,6 +12602,7 @@ SWIGINTERN PyObject *_wrap_delete_covar_workspace_flat(PyObject *SWIGUNUSEDPARM(
       free((char *) arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -13366,6 +13415,7 @@ SWIGINTERN PyObject *_wrap_new_covar_workspace(PyObject *SWIGUNUSEDPARM(self), P
       result = (nmt_covar_workspace *)calloc(1, sizeof(nmt_covar_workspace));
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -13395,6 +13445,7 @@ SWIGINTERN PyObject *_wrap_delete_covar_workspace(PyObject *SWIGUNUSEDPARM(self)
       free((char *) arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14017,6 +14068,7 @@ SWIGINTERN PyObject *_wrap_get_nell_list(PyObject *SWIGUNUSEDPARM(self), PyObjec
       get_nell_list(arg1,arg2,arg3);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14061,6 +14113,7 @@ SWIGINTERN PyObject *_wrap_get_nell(PyObject *SWIGUNUSEDPARM(self), PyObject *ar
       result = (int)get_nell(arg1,arg2);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14116,6 +14169,7 @@ SWIGINTERN PyObject *_wrap_get_ell_list(PyObject *SWIGUNUSEDPARM(self), PyObject
       get_ell_list(arg1,arg2,arg3,arg4);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14178,6 +14232,7 @@ SWIGINTERN PyObject *_wrap_get_weight_list(PyObject *SWIGUNUSEDPARM(self), PyObj
       get_weight_list(arg1,arg2,arg3,arg4);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14232,6 +14287,7 @@ SWIGINTERN PyObject *_wrap_get_ell_eff(PyObject *SWIGUNUSEDPARM(self), PyObject
       get_ell_eff(arg1,arg2,arg3);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14286,6 +14342,7 @@ SWIGINTERN PyObject *_wrap_get_ell_eff_flat(PyObject *SWIGUNUSEDPARM(self), PyOb
       get_ell_eff_flat(arg1,arg2,arg3);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14386,6 +14443,7 @@ SWIGINTERN PyObject *_wrap_bins_create_py(PyObject *SWIGUNUSEDPARM(self), PyObje
       result = (nmt_binning_scheme *)bins_create_py(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14486,6 +14544,7 @@ SWIGINTERN PyObject *_wrap_update_mcm(PyObject *SWIGUNUSEDPARM(self), PyObject *
       update_mcm(arg1,arg2,arg3,arg4);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14545,6 +14604,7 @@ SWIGINTERN PyObject *_wrap_get_bandpower_windows(PyObject *SWIGUNUSEDPARM(self),
       get_bandpower_windows(arg1,arg2,arg3);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14599,6 +14659,7 @@ SWIGINTERN PyObject *_wrap_get_mcm(PyObject *SWIGUNUSEDPARM(self), PyObject *arg
       get_mcm(arg1,arg2,arg3);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14659,6 +14720,7 @@ SWIGINTERN PyObject *_wrap_bins_flat_create_py(PyObject *SWIGUNUSEDPARM(self), P
       result = (nmt_binning_scheme_flat *)bins_flat_create_py(arg1,arg2,arg3,arg4);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14748,6 +14810,7 @@ SWIGINTERN PyObject *_wrap_bin_cl(PyObject *SWIGUNUSEDPARM(self), PyObject *args
       bin_cl(arg1,arg2,arg3,arg4,arg5,arg6);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14848,6 +14911,7 @@ SWIGINTERN PyObject *_wrap_bin_cl_flat(PyObject *SWIGUNUSEDPARM(self), PyObject
       bin_cl_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -14944,6 +15008,7 @@ SWIGINTERN PyObject *_wrap_unbin_cl(PyObject *SWIGUNUSEDPARM(self), PyObject *ar
       unbin_cl(arg1,arg2,arg3,arg4,arg5,arg6);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -15044,6 +15109,7 @@ SWIGINTERN PyObject *_wrap_unbin_cl_flat(PyObject *SWIGUNUSEDPARM(self), PyObjec
       unbin_cl_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -15186,6 +15252,7 @@ SWIGINTERN PyObject *_wrap_field_alloc_empty_flat(PyObject *SWIGUNUSEDPARM(self)
       result = (nmt_field_flat *)field_alloc_empty_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -15382,6 +15449,7 @@ SWIGINTERN PyObject *_wrap_field_alloc_new_flat(PyObject *SWIGUNUSEDPARM(self),
       result = (nmt_field_flat *)field_alloc_new_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12,arg13,arg14,arg15,arg16,arg17,arg18,arg19,arg20,arg21,arg22);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -15575,6 +15643,7 @@ SWIGINTERN PyObject *_wrap_field_alloc_new_notemp_flat(PyObject *SWIGUNUSEDPARM(
       result = (nmt_field_flat *)field_alloc_new_notemp_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12,arg13,arg14,arg15,arg16,arg17);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -15658,6 +15727,7 @@ SWIGINTERN PyObject *_wrap_get_mask_flat(PyObject *SWIGUNUSEDPARM(self), PyObjec
       get_mask_flat(arg1,arg2,arg3);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -15720,6 +15790,7 @@ SWIGINTERN PyObject *_wrap_get_map_flat(PyObject *SWIGUNUSEDPARM(self), PyObject
       get_map_flat(arg1,arg2,arg3,arg4);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -15790,6 +15861,7 @@ SWIGINTERN PyObject *_wrap_get_temp_flat(PyObject *SWIGUNUSEDPARM(self), PyObjec
       get_temp_flat(arg1,arg2,arg3,arg4,arg5);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -15869,6 +15941,7 @@ SWIGINTERN PyObject *_wrap_apomask(PyObject *SWIGUNUSEDPARM(self), PyObject *arg
       apomask(arg1,arg2,arg3,arg4,arg5,arg6);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -15994,6 +16067,7 @@ SWIGINTERN PyObject *_wrap_apomask_flat(PyObject *SWIGUNUSEDPARM(self), PyObject
       apomask_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -16146,6 +16220,7 @@ SWIGINTERN PyObject *_wrap_synfast_new_flat(PyObject *SWIGUNUSEDPARM(self), PyOb
       synfast_new_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12,arg13,arg14,arg15);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -16458,6 +16533,7 @@ SWIGINTERN PyObject *_wrap_comp_coupling_matrix_anisotropic(PyObject *SWIGUNUSED
       result = (nmt_workspace *)comp_coupling_matrix_anisotropic(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12,arg13,arg14,arg15,arg16,arg17,arg18,arg19,arg20,arg21,arg22,arg23,arg24,arg25,arg26,arg27,arg28,arg29,arg30,arg31);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -16779,6 +16855,7 @@ SWIGINTERN PyObject *_wrap_comp_coupling_matrix(PyObject *SWIGUNUSEDPARM(self),
       result = (nmt_workspace *)comp_coupling_matrix(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12,arg13,arg14,arg15,arg16,arg17,arg18,arg19,arg20,arg21);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -16900,6 +16977,7 @@ SWIGINTERN PyObject *_wrap_comp_coupling_matrix_flat(PyObject *SWIGUNUSEDPARM(se
       result = (nmt_workspace_flat *)comp_coupling_matrix_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -16938,6 +17016,7 @@ SWIGINTERN PyObject *_wrap_read_workspace(PyObject *SWIGUNUSEDPARM(self), PyObje
       result = (nmt_workspace *)read_workspace(arg1,arg2);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -16977,6 +17056,7 @@ SWIGINTERN PyObject *_wrap_write_workspace(PyObject *SWIGUNUSEDPARM(self), PyObj
       write_workspace(arg1,arg2);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17010,6 +17090,7 @@ SWIGINTERN PyObject *_wrap_read_workspace_flat(PyObject *SWIGUNUSEDPARM(self), P
       result = (nmt_workspace_flat *)read_workspace_flat(arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17049,6 +17130,7 @@ SWIGINTERN PyObject *_wrap_write_workspace_flat(PyObject *SWIGUNUSEDPARM(self),
       write_workspace_flat(arg1,arg2);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17180,6 +17262,7 @@ SWIGINTERN PyObject *_wrap_comp_deproj_bias_flat(PyObject *SWIGUNUSEDPARM(self),
       comp_deproj_bias_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12,arg13,arg14);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17248,6 +17331,7 @@ SWIGINTERN PyObject *_wrap_write_covar_workspace(PyObject *SWIGUNUSEDPARM(self),
       write_covar_workspace(arg1,arg2);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17288,6 +17372,7 @@ SWIGINTERN PyObject *_wrap_read_covar_workspace(PyObject *SWIGUNUSEDPARM(self),
       result = (nmt_covar_workspace *)read_covar_workspace(arg1,arg2);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17391,6 +17476,7 @@ SWIGINTERN PyObject *_wrap_covar_workspace_init_py(PyObject *SWIGUNUSEDPARM(self
       result = (nmt_covar_workspace *)covar_workspace_init_py(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17452,6 +17538,7 @@ SWIGINTERN PyObject *_wrap_write_covar_workspace_flat(PyObject *SWIGUNUSEDPARM(s
       write_covar_workspace_flat(arg1,arg2);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17485,6 +17572,7 @@ SWIGINTERN PyObject *_wrap_read_covar_workspace_flat(PyObject *SWIGUNUSEDPARM(se
       result = (nmt_covar_workspace_flat *)read_covar_workspace_flat(arg1);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17556,6 +17644,7 @@ SWIGINTERN PyObject *_wrap_covar_workspace_flat_init_py(PyObject *SWIGUNUSEDPARM
       result = (nmt_covar_workspace_flat *)covar_workspace_flat_init_py(arg1,arg2,arg3,arg4,arg5,arg6);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17723,6 +17812,7 @@ SWIGINTERN PyObject *_wrap_comp_gaussian_covariance(PyObject *SWIGUNUSEDPARM(sel
       comp_gaussian_covariance(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12,arg13,arg14,arg15,arg16,arg17,arg18,arg19,arg20,arg21);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -17945,6 +18035,7 @@ SWIGINTERN PyObject *_wrap_comp_gaussian_covariance_coupled(PyObject *SWIGUNUSED
       comp_gaussian_covariance_coupled(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12,arg13,arg14,arg15,arg16,arg17,arg18,arg19,arg20,arg21);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -18183,6 +18274,7 @@ SWIGINTERN PyObject *_wrap_comp_gaussian_covariance_flat(PyObject *SWIGUNUSEDPAR
       comp_gaussian_covariance_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12,arg13,arg14,arg15,arg16,arg17,arg18,arg19,arg20,arg21,arg22,arg23);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -18345,6 +18437,7 @@ SWIGINTERN PyObject *_wrap_comp_pspec_coupled_flat(PyObject *SWIGUNUSEDPARM(self
       comp_pspec_coupled_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -18453,6 +18546,7 @@ SWIGINTERN PyObject *_wrap_decouple_cell_py(PyObject *SWIGUNUSEDPARM(self), PyOb
       decouple_cell_py(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -18597,6 +18691,7 @@ SWIGINTERN PyObject *_wrap_decouple_cell_py_flat(PyObject *SWIGUNUSEDPARM(self),
       decouple_cell_py_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -18705,6 +18800,7 @@ SWIGINTERN PyObject *_wrap_couple_cell_py(PyObject *SWIGUNUSEDPARM(self), PyObje
       couple_cell_py(arg1,arg2,arg3,arg4,arg5,arg6);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -18805,6 +18901,7 @@ SWIGINTERN PyObject *_wrap_couple_cell_py_flat(PyObject *SWIGUNUSEDPARM(self), P
       couple_cell_py_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -18896,6 +18993,7 @@ SWIGINTERN PyObject *_wrap_wsp_update_beams(PyObject *SWIGUNUSEDPARM(self), PyOb
       wsp_update_beams(arg1,arg2,arg3,arg4,arg5);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -18956,6 +19054,7 @@ SWIGINTERN PyObject *_wrap_wsp_update_bins(PyObject *SWIGUNUSEDPARM(self), PyObj
       wsp_update_bins(arg1,arg2);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -19111,6 +19210,7 @@ SWIGINTERN PyObject *_wrap_comp_pspec_flat(PyObject *SWIGUNUSEDPARM(self), PyObj
       comp_pspec_flat(arg1,arg2,arg3,arg4,arg5,arg6,arg7,arg8,arg9,arg10,arg11,arg12,arg13,arg14,arg15,arg16,arg17,arg18);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
@@ -19201,6 +19301,7 @@ SWIGINTERN PyObject *_wrap_get_ell_sampling_flat(PyObject *SWIGUNUSEDPARM(self),
       get_ell_sampling_flat(arg1,arg2,arg3);
     }
     finally {
+      scratch_free_all();
       SWIG_exception(SWIG_RuntimeError,nmt_error_message);
     }
   }
diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 5b957c0..e1c851b 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -86,6 +86,16 @@ void nmt_covar_workspace_free(nmt_covar_workspace *cw)
       free(cw->xi22m_1221[ii]);
     }
   }
+  free(cw->xi00_1122);
+  free(cw->xi00_1221);
+  if(cw->spin0_only==0) {
+    free(cw->xi02_1122);
+    free(cw->xi02_1221);
+    free(cw->xi22p_1122);
+    free(cw->xi22p_1221);
+    free(cw->xi22m_1122);
+    free(cw->xi22m_1221);
+  }
   free(cw);
 }
 
@@ -194,6 +204,8 @@ void  nmt_compute_gaussian_covariance(nmt_covar_workspace *cw,
   int nmaps_d=spin_d ? 2 : 1;
   if((wa->ncls!=nmaps_a*nmaps_b) || (wb->ncls!=nmaps_c*nmaps_d))
     report_error(NMT_ERROR_COVAR,"Input spins don't match input workspaces\n");
+  check_lu(wa->coupling_matrix_binned);
+  check_lu(wb->coupling_matrix_binned);
 
   gsl_matrix *covar_binned=gsl_matrix_alloc(wa->ncls*wa->bin->n_bands,wb->ncls*wb->bin->n_bands);
 
diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 8c9db7b..e7252b5 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -338,6 +338,8 @@ void nmt_compute_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
   int nmaps_d=spin_d ? 2 : 1;
   if((wa->ncls!=nmaps_a*nmaps_b) || (wb->ncls!=nmaps_c*nmaps_d))
     report_error(NMT_ERROR_COVAR,"Input spins don't match input workspaces\n");
+  check_lu(wa->coupling_matrix_binned_gsl);
+  check_lu(wb->coupling_matrix_binned_gsl);
 
   //Compute binned spectra
   int i_cl;
diff --git a/src/nmt_master.c b/src/nmt_master.c
index d254505..c1a50d4 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -1172,6 +1172,8 @@ void nmt_couple_cl_l(nmt_workspace *w,flouble **cl_in,flouble **cl_out)
 
 void nmt_compute_bandpower_windows(nmt_workspace *w,double *bpw_win_out)
 {
+  check_lu(w->coupling_matrix_binned);
+
   // Bin mode-coupling matrix
   gsl_matrix *mat_coupled_bin=gsl_matrix_calloc(w->ncls*w->bin->n_bands,
 						w->ncls*(w->lmax+1));
@@ -1238,6 +1240,8 @@ void nmt_compute_bandpower_windows(nmt_workspace *w,double *bpw_win_out)
 void nmt_decouple_cl_l(nmt_workspace *w,flouble **cl_in,flouble **cl_noise_in,
 		       flouble **cl_bias,flouble **cl_out)
 {
+  check_lu(w->coupling_matrix_binned);
+
   int icl,ib2,l2;
   gsl_vector *dl_map_bad_b=gsl_vector_alloc(w->ncls*w->bin->n_bands);
   gsl_vector *dl_map_good_b=gsl_vector_alloc(w->ncls*w->bin->n_bands);
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 160a792..5f2f07b 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -556,6 +556,8 @@ void nmt_compute_deprojection_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
 {
   if(fl1->lite || fl2->lite)
     report_error(NMT_ERROR_LITE,"No deprojection bias for lightweight fields!\n");
+  if(check_flatsky_infos(fl1->fs,fl2->fs))
+    report_error(NMT_ERROR_CONSISTENT_RESO,"Can only correlate fields defined on the same pixels!\n");
 
   //Placeholder
   int ii;
@@ -570,9 +572,6 @@ void nmt_compute_deprojection_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
       cl_bias[ii][ip]=0;
   }
 
-  if(check_flatsky_infos(fl1->fs,fl2->fs))
-    report_error(NMT_ERROR_CONSISTENT_RESO,"Can only correlate fields defined on the same pixels!\n");
-
   //TODO: some terms (e.g. C^ab*SHT[w*g^j]) could be precomputed
   //TODO: if fl1=fl2 F2=F3
   //Allocate dummy maps and alms
@@ -883,6 +882,8 @@ void nmt_couple_cl_l_flat_quick(nmt_workspace_flat *w,int nl,flouble *larr,floub
 void nmt_decouple_cl_l_flat(nmt_workspace_flat *w,flouble **cl_in,flouble **cl_noise_in,
 			    flouble **cl_bias,flouble **cl_out)
 {
+  check_lu(w->coupling_matrix_binned_gsl);
+
   int icl,ib2;
   gsl_vector *dl_map_bad_b=gsl_vector_alloc(w->ncls*w->bin->n_bands);
   gsl_vector *dl_map_good_b=gsl_vector_alloc(w->ncls*w->bin->n_bands);
@@ -925,12 +926,33 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
 						   int nl_prop,flouble *l_prop,flouble **cl_prop,
 						   flouble **cl_out)
 {
-  int ii;
+  int ii,il,has_guess=0;
   flouble **cl_bias,**cl_data;
   nmt_workspace_flat *w;
 
-  if(w0==NULL)
+  //The deprojection bias is only needed (and possible) with a guess spectrum
+  for(ii=0;ii<fl1->nmaps*fl2->nmaps;ii++) {
+    for(il=0;il<nl_prop;il++) {
+      if(cl_prop[ii][il]!=0)
+	has_guess=1;
+    }
+  }
+
+  //Refuse what the steps below would refuse, before allocating any memory
+  if(fl1->mask_only || fl2->mask_only)
+    report_error(NMT_ERROR_LITE,"Can't correlate mapless fields!\n");
+  if(has_guess && (fl1->lite || fl2->lite))
+    report_error(NMT_ERROR_LITE,"No deprojection bias for lightweight fields!\n");
+  if(check_flatsky_infos(fl1->fs,fl2->fs))
+    report_error(NMT_ERROR_CONSISTENT_RESO,"Can only correlate fields defined on the same pixels!\n");
+
+  if(w0==NULL) {
     w=nmt_compute_coupling_matrix_flat(fl1,fl2,bin,lmn_x,lmx_x,lmn_y,lmx_y,0);
+    if(lu_is_singular(w->coupling_matrix_binned_gsl)) {
+      nmt_workspace_flat_free(w);
+      report_error(NMT_ERROR_VALUE,"GSL error %d: matrix is singular\n",GSL_EDOM);
+    }
+  }
   else {
     w=w0;
     if((check_flatsky_infos(fl1->fs,w->fs)) || (check_flatsky_infos(fl2->fs,w->fs)))
@@ -939,6 +961,7 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
     if(w->ncls!=fl1->nmaps*fl2->nmaps)
       report_error(NMT_ERROR_INCONSISTENT,"Input workspace was computed for different spins!\n");
+    check_lu(w->coupling_matrix_binned_gsl);
   }
 
   cl_bias=my_malloc(w->ncls*sizeof(flouble *));
@@ -948,14 +971,6 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
     cl_data[ii]=my_calloc(w->bin->n_bands,sizeof(flouble));
   }
   nmt_compute_coupled_cell_flat(fl1,fl2,bin,cl_data,lmn_x,lmx_x,lmn_y,lmx_y);
-  //The deprojection bias is only needed (and possible) with a guess spectrum
-  int il,has_guess=0;
-  for(ii=0;ii<w->ncls;ii++) {
-    for(il=0;il<nl_prop;il++) {
-      if(cl_prop[ii][il]!=0)
-	has_guess=1;
-    }
-  }
   if(has_guess)
     nmt_compute_deprojection_bias_flat(fl1,fl2,bin,lmn_x,lmx_x,lmn_y,lmx_y,
 				       nl_prop,l_prop,cl_prop,cl_bias);
diff --git a/src/utils.c b/src/utils.c
index e0787de..3a9d112 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -42,6 +42,22 @@ void report_error(int level,char *fmt,...)
     fprintf(stderr," Warning: %s",msg);
 }
 
+int lu_is_singular(gsl_matrix *lu)
+{
+  size_t ii;
+  for(ii=0;ii<lu->size1;ii++) {
+    if(gsl_matrix_get(lu,ii,ii)==0)
+      return 1;
+  }
+  return 0;
+}
+
+void check_lu(gsl_matrix *lu)
+{
+  if(lu_is_singular(lu))
+    report_error(NMT_ERROR_VALUE,"GSL error %d: matrix is singular\n",GSL_EDOM);
+}
+
 void *my_malloc(size_t size)
 {
   void *outptr=malloc(size);
diff --git a/src/utils.h b/src/utils.h
index b324ac6..c4dd575 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -71,6 +71,22 @@ void end_rng(gsl_rng *rng);
 #ifndef NO_DOXY
 void set_error_policy(int i);
 void report_error(int level,char *fmt,...);
+
+/**
+ * @brief Checks if the matrix behind an LU decomposition is singular
+ *
+ * @param lu LU decomposition
+ * @return 1 if the matrix is singular, 0 otherwise
+ */
+int lu_is_singular(gsl_matrix *lu);
+
+/**
+ * @brief Reports an error if the matrix behind an LU decomposition is singular
+ *
+ * Called before any memory is allocated for operations with the inverse.
+ * @param lu LU decomposition
+ */
+void check_lu(gsl_matrix *lu);
 #endif //NO_DOXY
 
 void *my_malloc(size_t size);
-- 
2.43.0


From 58b8af5901691d28696655dfe83b2dfab3775466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 56/69] fix: set_tol_pinv_default accepted NaN

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 46474b6..2efaa5d 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -113,7 +113,7 @@ def set_tol_pinv_default(tol_pinv):
     Args:
         tol_pinv (:obj:`float`): Relative eigenvalue threshold.
     """
-    if (tol_pinv > 1) or (tol_pinv < 0):
+    if not (0 <= tol_pinv <= 1):
         raise ValueError('tol_pinv must be between 0 and 1.')
     nmt_params.tol_pinv_default = tol_pinv
 
-- 
2.43.0


From 3ccb17c40fdb73785982e1ac71ede63599db5942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 57/69] fix: flat fields with templates but no maps failed with
 an UnboundLocalError

---
 pymaster/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index d19eaca..241848b 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -683,6 +683,8 @@ class NmtFieldFlat(object):
 
         # Flatten templates
         if isinstance(templates, (list, tuple, np.ndarray)):
+            if mask_only:
+                raise ValueError("Fields with no maps can't have templates")
             tmps = []
             for t in templates:
                 tmp = []
-- 
2.43.0


From 9ab69b80758777fd704c04fb30b04ddacac818b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:01 +0000
Subject: [PATCH 58/69] fix: apodising a flat mask with no pixels along one
 axis crashed the interpreter

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 2efaa5d..33b775d 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -566,7 +566,7 @@ def _check_flat_patch(nx, ny, lx, ly):
         lx (:obj:`float`): Patch size in the x axis (radians).
         ly (:obj:`float`): Patch size in the y axis (radians).
     """
-    if not (0 < lx < np.inf and 0 < ly < np.inf):
+    if not (0 < lx < np.inf and 0 < ly < np.inf and nx > 0 and ny > 0):
         raise RuntimeError("Must supply sensible dimensions for "
                            "flat-sky patches")
     # The number of Fourier-space rings must be a valid C integer
-- 
2.43.0


From f780f03abb332659de4dbe3ffa7b78ebc2c14e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 59/69] fix: flat-sky power spectra and beams with no
 multipoles were read out of bounds

---
 pymaster/namaster.i      | 8 ++++++++
 pymaster/namaster_wrap.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 6b08a13..c6d3def 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -212,6 +212,7 @@ void bin_cl_flat(nmt_binning_scheme_flat *bins,
 {
   int i;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
   cls_in=scratch_malloc(ncl1*sizeof(double *));
@@ -274,6 +275,7 @@ nmt_field_flat *field_alloc_empty_flat(int nx,int ny,double lx,double ly,int spi
   nmt_field_flat *fl;
   asserting(npix_1==nx*ny);
   asserting(ncl1==2);
+  asserting(nell1>0);
   asserting(lx>0);
   asserting(ly>0);
 
@@ -309,6 +311,7 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
   asserting((nmap_2==1) || (nmap_2==2));
   asserting(npix_1==nx*ny);
   asserting(ncl1==2);
+  asserting(nell1>0);
   asserting(lx>0);
   asserting(ly>0);
 
@@ -436,6 +439,7 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl2==nfields);
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
+  asserting(nell1>0);
   
   cls=scratch_malloc(ncl1*sizeof(double *));
   for(icl=0;icl<ncl1;icl++)
@@ -581,6 +585,7 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   double **cl_bias,**cl_guess;
   asserting(ncl1==fl1->nmaps*fl2->nmaps);
   asserting(nell1==nell3);
+  asserting(nell3>0);
   asserting(ndout==bin->n_bands*ncl1);
   cl_bias=scratch_malloc(ncl1*sizeof(double *));
   cl_guess=scratch_malloc(ncl1*sizeof(double *));
@@ -706,6 +711,7 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 				   double *dout,int ndout)
 {
   asserting(nell11==nell3);
+  asserting(nell3>0);
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
@@ -844,6 +850,7 @@ void couple_cell_py_flat(nmt_workspace_flat *w,
   int i;
   double **cl_in,**cl_out;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ncl1==w->ncls);
   asserting(ncl1*w->bin->n_bands==ndout);
   cl_in=scratch_malloc(ncl1*sizeof(double *));
@@ -884,6 +891,7 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(nell1==bin->n_bands);
   asserting(ndout==bin->n_bands*ncl1);
   asserting(nell3==nell2);
+  asserting(nell3>0);
   asserting(ncl1==ncl2);
   cl_noise=scratch_malloc(ncl1*sizeof(double *));
   cl_guess=scratch_malloc(ncl1*sizeof(double *));
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index bed72f0..7464bd9 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3178,6 +3178,7 @@ void bin_cl_flat(nmt_binning_scheme_flat *bins,
 {
   int i;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
   cls_in=scratch_malloc(ncl1*sizeof(double *));
@@ -3240,6 +3241,7 @@ nmt_field_flat *field_alloc_empty_flat(int nx,int ny,double lx,double ly,int spi
   nmt_field_flat *fl;
   asserting(npix_1==nx*ny);
   asserting(ncl1==2);
+  asserting(nell1>0);
   asserting(lx>0);
   asserting(ly>0);
 
@@ -3275,6 +3277,7 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
   asserting((nmap_2==1) || (nmap_2==2));
   asserting(npix_1==nx*ny);
   asserting(ncl1==2);
+  asserting(nell1>0);
   asserting(lx>0);
   asserting(ly>0);
 
@@ -3402,6 +3405,7 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl2==nfields);
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
+  asserting(nell1>0);
   
   cls=scratch_malloc(ncl1*sizeof(double *));
   for(icl=0;icl<ncl1;icl++)
@@ -3547,6 +3551,7 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   double **cl_bias,**cl_guess;
   asserting(ncl1==fl1->nmaps*fl2->nmaps);
   asserting(nell1==nell3);
+  asserting(nell3>0);
   asserting(ndout==bin->n_bands*ncl1);
   cl_bias=scratch_malloc(ncl1*sizeof(double *));
   cl_guess=scratch_malloc(ncl1*sizeof(double *));
@@ -3672,6 +3677,7 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 				   double *dout,int ndout)
 {
   asserting(nell11==nell3);
+  asserting(nell3>0);
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
@@ -3810,6 +3816,7 @@ void couple_cell_py_flat(nmt_workspace_flat *w,
   int i;
   double **cl_in,**cl_out;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ncl1==w->ncls);
   asserting(ncl1*w->bin->n_bands==ndout);
   cl_in=scratch_malloc(ncl1*sizeof(double *));
@@ -3850,6 +3857,7 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(nell1==bin->n_bands);
   asserting(ndout==bin->n_bands*ncl1);
   asserting(nell3==nell2);
+  asserting(nell3>0);
   asserting(ncl1==ncl2);
   cl_noise=scratch_malloc(ncl1*sizeof(double *));
   cl_guess=scratch_malloc(ncl1*sizeof(double *));
-- 
2.43.0


From 2a3e4bab96267b9123d9d44b2b166a7bb5581e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 60/69] fix: refuse flat workspaces computed for other band
 edges

---
 src/nmt_covar_flat.c  | 7 ++++++-
 src/nmt_master_flat.c | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index e7252b5..55bfbdb 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -331,6 +331,12 @@ void nmt_compute_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 {
   if((wa->bin->n_bands!=cw->bin->n_bands) || (wb->bin->n_bands!=cw->bin->n_bands))
     report_error(NMT_ERROR_COVAR,"Coupling coefficients were computed for a different binning scheme\n");
+  int ii;
+  for(ii=0;ii<cw->bin->n_bands;ii++) {
+    if((wa->bin->ell_0_list[ii]!=cw->bin->ell_0_list[ii]) || (wa->bin->ell_f_list[ii]!=cw->bin->ell_f_list[ii]) ||
+       (wb->bin->ell_0_list[ii]!=cw->bin->ell_0_list[ii]) || (wb->bin->ell_f_list[ii]!=cw->bin->ell_f_list[ii]))
+      report_error(NMT_ERROR_COVAR,"Coupling coefficients were computed for a different binning scheme\n");
+  }
 
   int nmaps_a=spin_a ? 2 : 1;
   int nmaps_b=spin_b ? 2 : 1;
@@ -436,7 +442,6 @@ void nmt_compute_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
   gsl_blas_dgemm(CblasNoTrans,CblasNoTrans,1,inverse_a   ,mat_tmp  ,0,covar_out_g); //C' = M_a^-1 * C * M_b^-1^T
 
   //Flatten
-  int ii;
   long elem=0;
   for(ii=0;ii<wa->ncls*cw->bin->n_bands;ii++) {
     int jj;
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 5f2f07b..fa26cc2 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -959,6 +959,10 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different pixels!\n");
     if(bin->n_bands!=w->bin->n_bands)
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
+    for(ii=0;ii<bin->n_bands;ii++) {
+      if((bin->ell_0_list[ii]!=w->bin->ell_0_list[ii]) || (bin->ell_f_list[ii]!=w->bin->ell_f_list[ii]))
+	report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
+    }
     if(w->ncls!=fl1->nmaps*fl2->nmaps)
       report_error(NMT_ERROR_INCONSISTENT,"Input workspace was computed for different spins!\n");
     check_lu(w->coupling_matrix_binned_gsl);
-- 
2.43.0


From bee518496a962c585fdefd7f7f7f6632f93ddff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:30 +0000
Subject: [PATCH 61/69] fix: synfast_spherical only checked the length of the
 first beam

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 33b775d..59fdd99 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -695,7 +695,7 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     if beam is not None:
         if len(beam) != nfields:
             raise ValueError("Must provide one beam per field")
-        if len(beam[0]) < lmax + 1:
+        if any(len(b) < lmax + 1 for b in beam):
             raise ValueError(f"The beam should be provided to ell = {lmax}")
         beam_per = []
         for ifield, n in enumerate(nmap_arr):
-- 
2.43.0


From e0db30d68214afbcfc559bd11e07afa88fd819df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:59 +0000
Subject: [PATCH 62/69] fix: fields with negative or fractional spins were
 accepted and crashed

---
 pymaster/field.py |  5 +++++
 pymaster/utils.py | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 241848b..7c3f8fd 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -205,6 +205,7 @@ class NmtField(object):
         if maps is None:
             if spin is None:
                 raise ValueError("Please supply field spin")
+            ut._check_spin(spin)
             self.spin = spin
             if (self.spin == 0) and self.anisotropic_mask:
                 raise ValueError("Anisotropic masks can't be used "
@@ -229,6 +230,7 @@ class NmtField(object):
                     ((spin == 0) and len(maps) != 1)):
                 raise ValueError("Spin-zero fields are "
                                  "associated with a single map")
+        ut._check_spin(spin)
         self.spin = spin
         self.nmaps = 2 if spin else 1
 
@@ -666,6 +668,7 @@ class NmtFieldFlat(object):
                     raise ValueError("Spin-zero fields are "
                                      "associated with a single map")
 
+        ut._check_spin(spin)
         if (pure_e or pure_b) and spin != 2:
             raise ValueError("Purification only implemented for spin-2 fields")
 
@@ -953,6 +956,7 @@ class NmtFieldCatalog(NmtField):
             if spin is None:
                 raise ValueError("If field is None, spin needs to be "
                                  "provided.")
+            ut._check_spin(spin)
             self.spin = spin
             self.nmaps = 2 if spin else 1
             return
@@ -962,6 +966,7 @@ class NmtFieldCatalog(NmtField):
         # Set spin
         if spin is None:
             spin = 0 if len(self.field) == 1 else 2
+        ut._check_spin(spin)
         self.spin = spin
         self.nmaps = 2 if spin else 1
         nsrcs = len(weights)
diff --git a/pymaster/utils.py b/pymaster/utils.py
index 59fdd99..ba19d44 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -557,6 +557,16 @@ def mask_apodization(mask_in, aposize, apotype="C1"):
     return m
 
 
+def _check_spin(spin):
+    """ Checks that the spin of a field makes sense.
+
+    Args:
+        spin (:obj:`int`): Spin.
+    """
+    if not (0 <= spin < np.inf and int(spin) == spin):
+        raise ValueError("Spins must be non-negative integers.")
+
+
 def _check_flat_patch(nx, ny, lx, ly):
     """ Checks that the dimensions of a flat-sky patch make sense.
 
-- 
2.43.0


From 46e684a989dc31c36106fab90226cc297bef8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:43 +0000
Subject: [PATCH 63/69] fix: mask-only fields were not checked for valid
 purification requests

---
 pymaster/field.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 7c3f8fd..4955e17 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -210,6 +210,13 @@ class NmtField(object):
             if (self.spin == 0) and self.anisotropic_mask:
                 raise ValueError("Anisotropic masks can't be used "
                                  "with scalar fields.")
+            if self.pure_e or self.pure_b:
+                if self.spin != 2:
+                    raise ValueError("Purification only implemented for "
+                                     "spin-2 fields")
+                if self.anisotropic_mask:
+                    raise NotImplementedError("Purification not implemented "
+                                              "for anisotropic masks")
             self.nmaps = 2 if spin else 1
             return
 
-- 
2.43.0


From 402ac759dace73e3cd70f6a3fccf38a502437d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:04 +0000
Subject: [PATCH 64/69] fix: coupling matrices of anisotropic masks ignored
 is_teb and the partner's purification

---
 pymaster/workspaces.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index b58b70d..2826eec 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -251,6 +251,10 @@ class NmtWorkspace(object):
         if anisotropic_mask_any and (l_toeplitz >= 0):
             raise NotImplementedError("Toeplitz approximation not "
                                       "implemented for anisotropic masks.")
+        if anisotropic_mask_any and (is_teb or fl1.pure_e or fl1.pure_b
+                                     or fl2.pure_e or fl2.pure_b):
+            raise NotImplementedError("TEB mode and purification not "
+                                      "implemented for anisotropic masks.")
         ut._toeplitz_sanity(l_toeplitz, l_exact, dl_band,
                             bins.bin.ell_max, fl1, fl2)
 
-- 
2.43.0


From e7e57e7d24c901ac462b62932cca0216b3529995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:41 +0000
Subject: [PATCH 65/69] fix: deprojection_bias ignored the anisotropic weights
 of the second field

---
 pymaster/workspaces.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 2826eec..c671674 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -705,7 +705,11 @@ def deprojection_bias(f1, f2, cl_guess, n_iter=None):
                                n_iter=n_iter, return_maps=False,
                                task=[fld.pure_e, fld.pure_b])
         else:
-            return ut.map2alm(mp*fld.mask[None, :], fld.spin,
+            mp_w = mp*fld.mask[None, :]
+            if fld.anisotropic_mask:
+                mp_w += np.array([mp[0]*fld.mask_a[0]+mp[1]*fld.mask_a[1],
+                                  mp[0]*fld.mask_a[1]-mp[1]*fld.mask_a[0]])
+            return ut.map2alm(mp_w, fld.spin,
                               fld.minfo, fld.ainfo, n_iter=n_iter)
 
     pcl_shape = (f1.nmaps * f2.nmaps, f1.ainfo.lmax+1)
-- 
2.43.0


From 2eb53cd4c23910cb624b33b24026094c2f6c804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:35 +0000
Subject: [PATCH 66/69] fix: refuse band edges that do not define bands

---
 pymaster/bins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index deae456..0a4ca82 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -158,6 +158,11 @@ class NmtBin(object):
                 ``is_Dell`` is ignored. If provided, it must be sampled at
                 all :math:`\\ell` s covered by ``ell_ini`` and ``ell_end``.
         """
+        if len(ell_ini) != len(ell_end):
+            raise ValueError("Each bandpower needs a lower and an upper edge")
+        if any(le <= li for li, le in zip(ell_ini, ell_end)):
+            raise ValueError("The upper edge of each bandpower must be "
+                             "larger than its lower edge")
         ells, bpws, weights = [], [], []
         for ib, (li, le) in enumerate(zip(ell_ini, ell_end)):
             nlb = int(le - li)
-- 
2.43.0


From 3f3a0c80855b713cdbd1e02ac70e6fbf14e21e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:53 +0000
Subject: [PATCH 67/69] fix: refuse fractional spins in simulated maps

---
 pymaster/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index ba19d44..9ba243a 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -673,11 +673,11 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     if lmax is None:
         lmax = minfo.get_lmax()
 
+    for s in spin_arr:
+        _check_spin(s)
     spin_arr = np.array(spin_arr).astype(np.int32)
     nfields = len(spin_arr)
 
-    if np.any(spin_arr < 0):
-        raise ValueError("Spins must be positive")
     nmap_arr = np.array([1+int(s != 0) for s in spin_arr])
     map_first = np.concatenate([[0], np.cumsum(nmap_arr)[:-1]])
     nmaps = np.sum(nmap_arr)
@@ -789,11 +789,11 @@ def synfast_flat(nx, ny, lx, ly, cls, spin_arr, beam=None, seed=-1):
         raise ValueError("Must supply sensible dimensions for "
                          "flat-sky maps")
     _check_flat_patch(nx, ny, lx, ly)
+    for s in spin_arr:
+        _check_spin(s)
     spin_arr = np.array(spin_arr).astype(np.int32)
     nfields = len(spin_arr)
 
-    if np.any(spin_arr < 0):
-        raise ValueError("Spins must be positive")
     nmaps = int(1 * np.sum(spin_arr == 0) + 2 * np.sum(spin_arr != 0))
 
     ncls = (nmaps * (nmaps + 1)) // 2
-- 
2.43.0


From af029d47f356f2bce8a5695fe0059cca0af18481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:10 +0000
Subject: [PATCH 68/69] fix: tolerance of the anisotropic mask check has the
 units of its determinant

---
 pymaster/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 4955e17..f265cd1 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -159,7 +159,7 @@ class NmtField(object):
             # Check that the noise covariance that the masks derive from
             # is positive-definite
             mask_scale = np.mean(mask+mask_22)
-            if np.any(mask*mask_22-mask_12**2 < -1E-5*mask_scale):
+            if np.any(mask*mask_22-mask_12**2 < -1E-5*mask_scale**2):
                 raise ValueError("The anisotropic mask does not seem to be "
                                  "positive-definite.")
             mask0 = (0.5*(mask + mask_22)).astype(np.float64)
-- 
2.43.0


From 17070e3701de98fc3d37fdc69950b0a501d0c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:58 +0000
Subject: [PATCH 69/69] fix: refuse bandpower widths that are not positive
 integers

---
 pymaster/bins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index 0a4ca82..2039396 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -3,6 +3,8 @@ import numpy as np
 
 
 def _get_bpw_arrays_linear(lmax, nlb):
+    if nlb < 1 or int(nlb) != nlb:
+        raise ValueError("Bandpower widths must be positive integers")
     ells = np.arange(lmax+1, dtype=np.int32)
     bpws = ((ells-2) // nlb).astype(np.int32)
     bpws[:2] = -1
-- 
2.43.0

