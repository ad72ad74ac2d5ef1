From 3fbbaa7e54e1bbe466032a3ec1957c2c8db13875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 01/34] fix: soft values of very reliable channel symbols
 become NaN

exp() overflows when the scaled channel output exceeds ~709, i.e. at high
SNR, and (1 - inf) / (1 + inf) is NaN: noiseless words were decoded
incorrectly. (1 - e^y) / (1 + e^y) is -tanh(y / 2).
---
 formats/formats.h | 12 ++++--------
 rm1_ml/rm1_ml.c   | 12 ++++--------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/formats/formats.h b/formats/formats.h
index bb90a32..7d65f3f 100644
--- a/formats/formats.h
+++ b/formats/formats.h
@@ -85,8 +85,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
+      e[i] = -tanh(0.5 * (y[i])); \
       FORMAT_CLIP(e[i]); \
    } \
 }
@@ -96,8 +95,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
+      e[i] = -tanh(0.5 * (y[i])); \
    } \
 }
 #endif // if not FORMAT_USE_CLIPPING
@@ -111,8 +109,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
+      e[i] = -tanh(0.5 * (y[i])); \
       e[i] = ((e[i] > 0.0) ? 1.0 : -1.0) - e[i]; \
    } \
 }
@@ -145,8 +142,7 @@
    int i; \
    double d1; \
    for (i = 0; i < n; i++) { \
-      d1 = exp(y[i]); \
-      d1 = (1.0 - d1) / (1.0 + d1); \
+      d1 = -tanh(0.5 * (y[i])); \
       e[i] = quantize(d1); \
    } \
 }
diff --git a/rm1_ml/rm1_ml.c b/rm1_ml/rm1_ml.c
index 0b53c69..2cc8fd5 100644
--- a/rm1_ml/rm1_ml.c
+++ b/rm1_ml/rm1_ml.c
@@ -54,16 +54,14 @@ int rm1_dec_sh(
 #ifdef FORMAT_EPS
    // Convert y_in to the epsilon format.
    for (i = 0; i < c_n; i++) {
-      ylist[i] = exp(y_in[i]);
-      ylist[i] = (1.0 - ylist[i]) / (1.0 + ylist[i]);
+      ylist[i] = -tanh(0.5 * y_in[i]);
    }
 #endif // FORMAT_EPS
 
 #ifdef FORMAT_GAMMA
    // Convert y_in to the gamma format.
    for (i = 0; i < c_n; i++) {
-      ylist[i] = exp(y_in[i]);
-      ylist[i] = (1.0 - ylist[i]) / (1.0 + ylist[i]);
+      ylist[i] = -tanh(0.5 * y_in[i]);
       ylist[i] = ((ylist[i] > 0.0) ? 1.0 : -1.0) - ylist[i];
    }
 #endif // FORMAT_GAMMA
@@ -159,16 +157,14 @@ int rm1_dec_lst(
 #ifdef FORMAT_EPS
    // Convert y_in to the epsilon format.
    for (i = 0; i < c_n; i++) {
-      ylist[i] = exp(y_in[i]);
-      ylist[i] = (1.0 - ylist[i]) / (1.0 + ylist[i]);
+      ylist[i] = -tanh(0.5 * y_in[i]);
    }
 #endif // FORMAT_EPS
 
 #ifdef FORMAT_GAMMA
    // Convert y_in to the gamma format.
    for (i = 0; i < c_n; i++) {
-      ylist[i] = exp(y_in[i]);
-      ylist[i] = (1.0 - ylist[i]) / (1.0 + ylist[i]);
+      ylist[i] = -tanh(0.5 * y_in[i]);
       ylist[i] = ((ylist[i] > 0.0) ? 1.0 : -1.0) - ylist[i];
    }
 #endif // FORMAT_GAMMA
-- 
2.43.0


From 99565416d94ba8c122f8ae82501434feaccb9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 02/34] fix: list pruning may drop a better path than the ones
 it keeps

qpartition() returned early when one item had to be dropped (or two were
left), dropping whichever happened to be last instead of the worst one.
---
 dtrm_glp/dtrm_glp_inner.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 2637f02..95fa704 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -188,13 +188,6 @@ void print_list(char rem[]) {
 static void qpartition(int *v, int len, int k) {
   int i, st, tmp;
 
-  if (k == len - 1) return;
-
-  if (len == 2) {
-    if (slist[v[0]] < slist[v[1]]) SWAP(0, 1)
-    return;
-  }
-
   for (st = i = 0; i < len - 1; i++) {
     if (slist[v[i]] < slist[v[len - 1]]) continue;
     SWAP(i, st);
-- 
2.43.0


From a4fda0f04cb4fda7e3eea0e1170d1c94c9908a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 03/34] fix: dtrm0/dtrm1 overflow the stack for long codes

The fixed size temporary codewords (1024 and 4096 symbols) are smaller than
(m, m) nodes with m > 10 and (1, m) nodes with m > 12. Use the free part of
the auxiliary buffer, which always has room for the node being decoded.
---
 dtrm/dtrm0.c | 2 +-
 dtrm/dtrm1.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 8f832d3..14b60bf 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -92,7 +92,7 @@ tri0_dec(
 
    // RM(m, m) case.
    if (r == m) {
-      int tmp[1024];
+      int *tmp = (int *)aux_buf; // aux_buf has room for n items here.
       (*x_dec_len) = n; // n information bits.
       for (i = 0; i < n; i++) {
          if (CHECK_EST0(y_in[i])) {
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 44577ea..c608eae 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -75,7 +75,7 @@ tri1_dec(
 )
 {
    int i, n2, cur_x_dec_len;
-   int tmp[4096];
+   int *tmp = (int *)aux_buf; // aux_buf has room for n items here.
    double *y1, *y2, *y_dec1, *y_dec2;
 
    // RM(m, m) case.
-- 
2.43.0


From 728c5237d2c9c9ec9ba6ac5a8518e6aa8e775da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 04/34] fix: crash on parameters files with missing values or
 group ends

A parameter name without a value or a group without an end at the end of the
file made the parsers dereference NULL; a group with more items than there is
room for was cut and its rest was taken for other parameters.
---
 Octave/loadsrf.c              |  7 ++++---
 common/spf_par.c              |  6 +++---
 common/spf_par.h              | 22 +++++++++++++---------
 dtrm_glp/dtrm_glp_main.c      |  8 +++++---
 polar_scl/ca_polar_scl_main.c |  9 ++++++---
 simulators/sim_bg.c           |  8 +++++---
 6 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 40a1736..3d0b56d 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -36,15 +36,16 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if ((tk) != NULL && (tk)[0] == GROUP_CHAR_BEGIN) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while ((tk) != NULL && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if ((tk) == NULL || (tk)[0] != GROUP_CHAR_END) { \
          err_msg(erstr); \
+         return; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
diff --git a/common/spf_par.c b/common/spf_par.c
index a05f989..3e21788 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -254,16 +254,16 @@ int tryread_group_int_param(
   if (strcmp(*inout_tk, param_key) == 0) {
     int i = 0;
     char *tk = strtok(NULL, tk_seps_prepared);
-    if (tk[0] == GROUP_CHAR_BEGIN) {
+    if (tk != NULL && tk[0] == GROUP_CHAR_BEGIN) {
       tk = strtok(NULL, tk_seps_prepared);
-      while ((tk[0] != GROUP_CHAR_END) && (i < max_n)) {
+      while (tk != NULL && (tk[0] != GROUP_CHAR_END) && (i < max_n)) {
         *x = atoi(tk);
         x = (int *)((unsigned char *)x + step_size);
         tk = strtok(NULL, tk_seps_prepared);
         i++;
       }
     }
-    else {
+    if (tk == NULL || tk[0] != GROUP_CHAR_END) {
       err_msg(erstr);
       return RC_ERROR;
     }
diff --git a/common/spf_par.h b/common/spf_par.h
index ce2e6a5..51b2242 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -44,6 +44,7 @@
 #define TRYGET_INT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) break; \
       (x) = atoi(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -53,6 +54,7 @@
 #define TRYGET_FLOAT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) break; \
       (x) = atof(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -62,6 +64,7 @@
 #define TRYGET_ONOFF_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) break; \
       (x) = (!strcmp(tk, switch_on_token)) ? 1 : 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -72,14 +75,14 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if ((tk) != NULL && (tk)[0] == GROUP_CHAR_BEGIN) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while ((tk) != NULL && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if ((tk) == NULL || (tk)[0] != GROUP_CHAR_END) { \
          err_msg(erstr); \
          return 1; \
       } \
@@ -93,16 +96,17 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if ((tk) != NULL && (tk)[0] == GROUP_CHAR_BEGIN) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while ((tk) != NULL && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i] = atoi(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
+            if ((tk) == NULL) break; \
             (y)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if ((tk) == NULL || (tk)[0] != GROUP_CHAR_END) { \
          err_msg(erstr); \
          return 1; \
       } \
@@ -114,12 +118,12 @@
 
 #define SPF_SKIP_UNKNOWN_PARAMETER(tk) { \
    (tk) = strtok(NULL, tk_seps_prepared); \
-   if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+   if ((tk) != NULL && (tk)[0] == GROUP_CHAR_BEGIN) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      while (((tk)[strlen(tk) - 1] != GROUP_CHAR_END) && ((tk) != NULL)) \
+      while (((tk) != NULL) && ((tk)[strlen(tk) - 1] != GROUP_CHAR_END)) \
          (tk) = strtok(NULL, tk_seps_prepared); \
    } \
-   (tk) = strtok(NULL, tk_seps_prepared); \
+   if ((tk) != NULL) (tk) = strtok(NULL, tk_seps_prepared); \
 }
 
 
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index ae9bf34..63c8c63 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -125,6 +125,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "RM_r", c_r);
       if (strcmp(token, "border_node_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) break;
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -138,6 +139,7 @@ cdc_init(
       }
       if (strcmp(token, "border_node_lsize") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) break;
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -148,11 +150,11 @@ cdc_init(
             goto ret_err;
          }
          token = strtok(NULL, tk_seps_prepared);
-         if (token[0] == GROUP_CHAR_BEGIN) {
+         if (token != NULL && token[0] == GROUP_CHAR_BEGIN) {
             token = strtok(NULL, tk_seps_prepared);
             i1 = 0;
             p_num = 0;
-            while (token[0] != GROUP_CHAR_END) {
+            while (token != NULL && token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
@@ -164,7 +166,7 @@ cdc_init(
                p_num++;
             }
          }
-         else {
+         if (token == NULL || token[0] != GROUP_CHAR_END) {
             err_msg("cdc_init(): parameters file: permutations.");
             goto ret_err;
          }
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index d507819..bf40734 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -174,6 +174,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "c_m", c_m);
       if (strcmp(token, "info_bits_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) break;
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -187,6 +188,7 @@ cdc_init(
       }
       if (strcmp(token, "ca_polar_crc") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) break;
          dd->crc_len = strlen(token);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
@@ -200,6 +202,7 @@ cdc_init(
       }
       if (strcmp(token, "list_size") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) break;
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -211,11 +214,11 @@ cdc_init(
             goto ret_err;
          }
          token = strtok(NULL, tk_seps_prepared);
-         if (token[0] == GROUP_CHAR_BEGIN) {
+         if (token != NULL && token[0] == GROUP_CHAR_BEGIN) {
             token = strtok(NULL, tk_seps_prepared);
             i1 = 0;
             p_num = 0;
-            while (token[0] != GROUP_CHAR_END) {
+            while (token != NULL && token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
@@ -227,7 +230,7 @@ cdc_init(
                p_num++;
             }
          }
-         else {
+         if (token == NULL || token[0] != GROUP_CHAR_END) {
             err_msg("cdc_init(): parameters file: permutations.");
             goto ret_err;
          }
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index e5d82a1..be02b67 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -219,6 +219,7 @@ int sim_init(
 
     if (strcmp(token, res_file_token) == 0) {
       token = strtok(NULL, tk_seps_prepared);
+      if (token == NULL) break;
       if (strlen(token) >= FN_LEN_MAX) {
         err_msg("sim_bg init error: output file name is too long.");
         return RC_ERROR;
@@ -231,16 +232,17 @@ int sim_init(
       if (strcmp(token, snr_val_trn_token) == 0) {
         int i = 0;
         token = strtok(NULL, tk_seps_prepared);
-        if (token[0] == GROUP_CHAR_BEGIN) {
+        if (token != NULL && token[0] == GROUP_CHAR_BEGIN) {
           token = strtok(NULL, tk_seps_prepared);
-          while ((token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
+          while (token != NULL && (token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
             sim->snr_db[i] = atof(token);
             token = strtok(NULL, tk_seps_prepared);
+            if (token == NULL) break;
             sim->trn_req[i++] = atoi(token);
             token = strtok(NULL, tk_seps_prepared);
           }
         }
-        else {
+        if (token == NULL || token[0] != GROUP_CHAR_END) {
           err_msg("sim_bg init error: cannot read SNR_val_trn.");
           return RC_ERROR;
         }
-- 
2.43.0


From b34a945769577a0cbe126e4abd8e4889bf1c551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 05/34] fix: large permutation sets and long codes overflow the
 stack in cdc_init()

Buffers for permutations (10000 numbers, while e.g. all 7! permutations for
m = 7 take 35280) and for information bits indexes (2048) were never checked
for overflow. Allocate them as large as they may be.
---
 dtrm_glp/dtrm_glp_main.c      | 18 +++++++++++++++++-
 polar_scl/ca_polar_scl_main.c | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 63c8c63..2d14c94 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -96,7 +96,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0, c_r = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int *p_info = NULL, *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -115,6 +115,13 @@ cdc_init(
    }
    str1[0] = 0;
 
+   // Allocate temporary buffer for permutations (there are less numbers than characters).
+   p_info = (int *)malloc(SP_STR_MAX * sizeof(int));
+   if (p_info == NULL) {
+      err_msg("cdc_init: Short of memory!");
+      goto ret_err;
+   }
+
    // ----- Parse parameters.
    strcpy(str1, param_str);
 
@@ -231,6 +238,11 @@ cdc_init(
    }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    i1 = 0;
    for (i = c_n - 1; i >= 0; i--) {
       // i2 <-- weight(i);
@@ -262,6 +274,8 @@ cdc_init(
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
+   free(p_info); p_info = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -284,6 +298,8 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (p_info != NULL) free(p_info);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index bf40734..97fedf2 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -146,7 +146,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int *p_info = NULL, *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -165,6 +165,13 @@ cdc_init(
    }
    str1[0] = 0;
 
+   // Allocate temporary buffer for permutations (there are less numbers than characters).
+   p_info = (int *)malloc(SP_STR_MAX * sizeof(int));
+   if (p_info == NULL) {
+      err_msg("cdc_init: Short of memory!");
+      goto ret_err;
+   }
+
    // ----- Parse parameters.
    strcpy(str1, param_str);
 
@@ -289,6 +296,11 @@ cdc_init(
    }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    i1 = 0;
    for (i = c_n - 1; i >= 0; i--) {
       // i2 <-- weight(i);
@@ -320,6 +332,8 @@ cdc_init(
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
+   free(p_info); p_info = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -342,6 +356,8 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (p_info != NULL) free(p_info);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
-- 
2.43.0


From 918495e0f6372f6e2a304cc70c4f26dc8b34c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 06/34] fix: reject codec parameters that do not define a code

Out of range RM_m, RM_r, c_m and list sizes, masks of a wrong length, CRC
longer than the information block, things that are not permutations and
permutations that do not map the code to itself used to end up in out of
bounds memory accesses or in silently wrong decoding. The buffer of the
variable list decoder is now sized for its largest list.
---
 dtrm/dtrm0.c                  |  7 ++++
 dtrm/dtrm1.c                  |  7 ++++
 dtrm_glp/dtrm_glp_main.c      | 68 +++++++++++++++++++++++++++++++++--
 polar_scl/ca_polar_scl_main.c | 61 ++++++++++++++++++++++++++-----
 4 files changed, 132 insertions(+), 11 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 14b60bf..ecd0230 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -37,6 +37,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max supported m.
+#define C_M_MAX             24
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -188,6 +191,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_m < 1) || (c_m > C_M_MAX) || (c_r < 1) || (c_r > c_m)) {
+      err_msg("cdc_init: RM_m or RM_r is out of range.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index c608eae..c5e9258 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -42,6 +42,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max supported m.
+#define C_M_MAX             24
+
 
 //-----------------------------------------------------------------------------
 // Internal typedefs.
@@ -195,6 +198,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_m < 1) || (c_m > C_M_MAX) || (c_r < 1) || (c_r > c_m)) {
+      err_msg("cdc_init: RM_m or RM_r is out of range.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 2d14c94..a10ccc7 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -37,6 +37,10 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max supported m and r.
+#define C_M_MAX             24
+#define C_R_MAX             15
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -81,6 +85,12 @@ int get_membuf_size(decoder_type *dd) {
    return mem_buf_size;
 }
 
+// Number of border nodes of RM(r, m).
+static int get_border_nodes_num(int m, int r) {
+   if ((r == 0) || (r == m)) return 1;
+   return get_border_nodes_num(m - 1, r - 1) + get_border_nodes_num(m - 1, r);
+}
+
 
 //-----------------------------------------------------------------------------
 // codec interface functions.
@@ -97,7 +107,7 @@ cdc_init(
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
    int *p_info = NULL, *inf_coeff = NULL;
-   int p_num = 0;
+   int p_num = 0, p_m = 0;
 
    // Allocate decoder instance.
    dd = (cdc_inst_type *)malloc(sizeof(cdc_inst_type));
@@ -133,6 +143,10 @@ cdc_init(
       if (strcmp(token, "border_node_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
          if (token == NULL) break;
+         if (strspn(token, "01") != strlen(token)) {
+            err_msg("cdc_init: border_node_mask is not a binary string.");
+            goto ret_err;
+         }
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -152,7 +166,7 @@ cdc_init(
          continue;
       }
       if (strcmp(token, "permutations") == 0) {
-         if (c_m == 0) {
+         if (c_m < 1) {
             err_msg("cdc_init(): parameters file: RM_m must be specified before permutations.");
             goto ret_err;
          }
@@ -161,8 +175,13 @@ cdc_init(
             token = strtok(NULL, tk_seps_prepared);
             i1 = 0;
             p_num = 0;
+            p_m = c_m;
             while (token != NULL && token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
+                  if (token[0] == GROUP_CHAR_END) {
+                     err_msg("cdc_init(): parameters file: permutations.");
+                     goto ret_err;
+                  }
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
                   if (token == NULL) {
@@ -198,11 +217,19 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_m < 1) || (c_m > C_M_MAX) || (c_r < 1) || (c_r > c_m) || (c_r > C_R_MAX)) {
+      err_msg("cdc_init: RM_m or RM_r is out of range.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No border nodes map.");
       goto ret_err;
    }
-   if (dd->dc.peak_lsiz == 0) {
+   if (dd->dc.node_table_len != get_border_nodes_num(c_m, c_r)) {
+      err_msg("cdc_init: border_node_mask does not match the number of border nodes.");
+      goto ret_err;
+   }
+   if (dd->dc.peak_lsiz < 1) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
@@ -210,12 +237,26 @@ cdc_init(
       err_msg("cdc_init: No distance_threshold.");
       goto ret_err;
    }
+   if (dd->use_var_list != 0) {
+      for (i = 0; i < dd->dist_t_n; i++) {
+         if (dd->lsiz[i] < 1) {
+            err_msg("cdc_init: Bad list size in distance_threshold.");
+            goto ret_err;
+         }
+         // Decoder memory should be enough for the largest list.
+         dd->dc.peak_lsiz = MAX(dd->dc.peak_lsiz, dd->lsiz[i]);
+      }
+   }
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
    dd->c_k = dd->dc.c_k = c_k = calc_srm_k(c_m, c_r, dd->dc.node_table);
+   if (c_k < 1) {
+      err_msg("cdc_init: No information bits.");
+      goto ret_err;
+   }
 
    // Generate permutations.
    if (p_num == 0) {
@@ -224,6 +265,27 @@ cdc_init(
       for (i = 0; i < c_m; i++) p_info[i] = i;
       p_num = 1;
    }
+   else if (p_m != c_m) {
+      err_msg("cdc_init: permutations do not match RM_m.");
+      goto ret_err;
+   }
+   for (pn = 0; pn < p_num; pn++) {
+      p1 = p_info + pn * c_m;
+      i1 = 0;
+      i2 = 1;
+      for (i = 0; i < c_m; i++) {
+         if ((p1[i] >= 0) && (p1[i] < c_m)) i1 |= 1 << p1[i];
+         if (p1[i] != i) i2 = 0;
+      }
+      if (i1 != c_n - 1) {
+         err_msg("cdc_init: Not a permutation of 0, 1, ..., m - 1 in permutations.");
+         goto ret_err;
+      }
+      if ((i2 == 0) && (c_k != calc_rm_k(c_m, c_r))) {
+         err_msg("cdc_init: Permutations may be used for pure RM codes only.");
+         goto ret_err;
+      }
+   }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 97fedf2..4493fc9 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -40,6 +40,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max supported m.
+#define C_M_MAX             24
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -147,7 +150,7 @@ cdc_init(
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
    int *p_info = NULL, *inf_coeff = NULL;
-   int p_num = 0;
+   int p_num = 0, p_m = 0;
 
    // Allocate decoder instance.
    dd = (cdc_inst_type *)malloc(sizeof(cdc_inst_type));
@@ -182,6 +185,10 @@ cdc_init(
       if (strcmp(token, "info_bits_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
          if (token == NULL) break;
+         if (strspn(token, "01") != strlen(token)) {
+            err_msg("cdc_init: info_bits_mask is not a binary string.");
+            goto ret_err;
+         }
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -196,6 +203,10 @@ cdc_init(
       if (strcmp(token, "ca_polar_crc") == 0) {
          token = strtok(NULL, tk_seps_prepared);
          if (token == NULL) break;
+         if (strspn(token, "01") != strlen(token)) {
+            err_msg("cdc_init: ca_polar_crc is not a binary string.");
+            goto ret_err;
+         }
          dd->crc_len = strlen(token);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
@@ -216,7 +227,7 @@ cdc_init(
       }
       if (strcmp(token, "permutations") == 0) {
          // TODO: Permutations that were used for RM codes are not usable with Polar, but let's leave it here for now.
-         if (c_m == 0) {
+         if (c_m < 1) {
             err_msg("cdc_init(): parameters file: c_m must be specified before permutations.");
             goto ret_err;
          }
@@ -225,8 +236,13 @@ cdc_init(
             token = strtok(NULL, tk_seps_prepared);
             i1 = 0;
             p_num = 0;
+            p_m = c_m;
             while (token != NULL && token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
+                  if (token[0] == GROUP_CHAR_END) {
+                     err_msg("cdc_init(): parameters file: permutations.");
+                     goto ret_err;
+                  }
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
                   if (token == NULL) {
@@ -257,11 +273,19 @@ cdc_init(
       err_msg("cdc_init: c_m is not specified.");
       goto ret_err;
    }
+   if ((c_m < 1) || (c_m > C_M_MAX)) {
+      err_msg("cdc_init: c_m is out of range.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No info_bits_mask.");
       goto ret_err;
    }
-   if (dd->dc.peak_lsiz == 0) {
+   if (dd->dc.node_table_len != (1 << c_m)) {
+      err_msg("cdc_init: info_bits_mask does not match the code length.");
+      goto ret_err;
+   }
+   if (dd->dc.peak_lsiz < 1) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
@@ -270,6 +294,10 @@ cdc_init(
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
    dd->c_k = dd->dc.c_k = c_k = get_k_from_node_table(c_n, dd->dc.node_table);
    dd->eff_k = c_k - dd->crc_len;
+   if ((dd->eff_k < 1) || (dd->eff_k < dd->crc_len)) {
+      err_msg("cdc_init: Too few information bits.");
+      goto ret_err;
+   }
    dd->dc.ret_list = (dd->crc_len > 0) ? 1 : 0;
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
@@ -282,6 +310,21 @@ cdc_init(
       for (i = 0; i < c_m; i++) p_info[i] = i;
       p_num = 1;
    }
+   else if (p_m != c_m) {
+      err_msg("cdc_init: permutations do not match c_m.");
+      goto ret_err;
+   }
+   for (pn = 0; pn < p_num; pn++) {
+      p1 = p_info + pn * c_m;
+      i1 = 0;
+      for (i = 0; i < c_m; i++) {
+         if ((p1[i] >= 0) && (p1[i] < c_m)) i1 |= 1 << p1[i];
+      }
+      if (i1 != c_n - 1) {
+         err_msg("cdc_init: Not a permutation of 0, 1, ..., m - 1 in permutations.");
+         goto ret_err;
+      }
+   }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
@@ -294,7 +337,7 @@ cdc_init(
       py = dd->dc.pyarr;
       p1 = p_info;
    }
-   // Calculate inf_coeff[]. It contains all integers with weight <= c_r
+   // Calculate inf_coeff[]. It contains indexes of all information bits
    // in reverse lexicographic order.
    inf_coeff = (int *)malloc(c_n * sizeof(int));
    if (inf_coeff == NULL) {
@@ -303,10 +346,7 @@ cdc_init(
    }
    i1 = 0;
    for (i = c_n - 1; i >= 0; i--) {
-      // i2 <-- weight(i);
-      i2 = i & 1;
-      for (j = 1; j < c_m; j++) i2 += (i >> j) & 1;
-      if (i2 <= c_m) inf_coeff[i1++] = i;
+      if (dd->dc.node_table[c_n - 1 - i] != 0) inf_coeff[i1++] = i;
    }
    // Generate permutation arrays.
    for (pn = 0; pn < p_num; pn++) {
@@ -325,6 +365,10 @@ cdc_init(
          i2 = inf_coeff[i];
          for (j = 0; j < c_m; j++) i1 |= ((i2 >> j) & 1) << p1[j];
          for (j = 0; j < c_k; j++) if (inf_coeff[j] == i1) break;
+         if (j == c_k) {
+            err_msg("cdc_init: The code is not invariant under the given permutations.");
+            goto ret_err;
+         }
          px[i] = j;
       }
       // for (i = 0; i < c_k; i++) msg_printf("%d ", px[i]); // DDD
@@ -360,6 +404,7 @@ ret_err:
    if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
+      if (dd->crc != NULL) free(dd->crc);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
       if (dd->dc.pyarr != NULL) free(dd->dc.pyarr);
       if (dd->dc.node_table != NULL) free(dd->dc.node_table);
-- 
2.43.0


From b63736f0a3b62c9c531c974f9b5f2e389a1fe4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 07/34] fix: dtrm_glp crashes for RM(1, m) and RM(m, m)

The root node was always split, so a root that is itself a border node
was decoded as if it were not.  Decode it as any other node.
---
 dtrm_glp/dtrm_glp_inner.c | 52 +++++++++++----------------------------
 dtrm_glp/dtrm_glp_main.c  |  4 +--
 2 files changed, 16 insertions(+), 40 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 95fa704..58c5be0 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -62,8 +62,8 @@
 #endif // DBG2
 #define YLIST_RESET(i) { yfrindp[i] = 0; }
 
-#define YLISTP(i, j) ylist[(i) * dd->c_m + (j)]
-#define YLISTPP(i, j) (ylist + (i) * dd->c_m + (j))
+#define YLISTP(i, j) ylist[(i) * (dd->c_m + 1) + (j)]
+#define YLISTPP(i, j) (ylist + (i) * (dd->c_m + 1) + (j))
 
 
 //-----------------------------------------------------------------------------
@@ -307,7 +307,7 @@ void rm1_branch(
     cur_ind1 = lorder[i];
     cur_ind0 = parent[cur_ind1];
     if (cur_ind0 >= 0) {
-      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), dd->c_m * sizeof(ylitem *));
+      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), (dd->c_m + 1) * sizeof(ylitem *));
     }
   }
   for (i = 0; i < cur_lsiz; i++) {
@@ -442,7 +442,7 @@ void rm11_branch(
     cur_ind1 = lorder[i];
     cur_ind0 = parent[cur_ind1];
     if (cur_ind0 >= 0) {
-      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), dd->c_m * sizeof(ylitem *));
+      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), (dd->c_m + 1) * sizeof(ylitem *));
     }
     vgetx(cur_ind1, xtmp, 2);
     code_mm(2, xtmp, xtmp2);
@@ -578,7 +578,7 @@ void rmm_branch(
     cur_ind1 = lorder[i];
     cur_ind0 = parent[cur_ind1];
     if (cur_ind0 >= 0) {
-      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), dd->c_m * sizeof(ylitem *));
+      memcpy(YLISTPP(cur_ind1, 0), YLISTPP(cur_ind0, 0), (dd->c_m + 1) * sizeof(ylitem *));
     }
     vgetx(cur_ind1, xtmp, n);
     code_mm(n, xtmp, xtmp2);
@@ -739,12 +739,9 @@ rm_dec(
   int peak_lsiz; // Peak list size.
   int flsiz; // Size of allocated list.
   ylitem *y_in;
-  int n2 = dd->c_n / 2; // Half of the current length (n).
-  int cur_ind0;
-  ylitem *vp, *up;
+  ylitem *yp;
   int *p1; // For permutations.
   slitem s1;
-  ylitem y1;
   uint8 *mem_buf_ptr;
   int mem_buf_size;
 
@@ -775,14 +772,14 @@ rm_dec(
 
   ylist = (ylitem **)mem_buf_ptr;
   //mem_buf_ptr += dd->c_m * MAX(dd->peak_lsiz, dd->p_num) * sizeof(ylitem *);
-  mem_buf_ptr += dd->c_m * flsiz * sizeof(ylitem *);
+  mem_buf_ptr += (dd->c_m + 1) * flsiz * sizeof(ylitem *);
 
   yitems = (ylitem **)mem_buf_ptr;
-  mem_buf_ptr += dd->c_m * sizeof(ylitem *);
+  mem_buf_ptr += (dd->c_m + 1) * sizeof(ylitem *);
 #ifdef DBG2
   printf("\nStart buffers: %ld\n", mem_buf_ptr - dd->mem_buf);
 #endif
-  for (i = 0; i < dd->c_m; i++) {
+  for (i = 0; i <= dd->c_m; i++) {
     yitems[i] = (ylitem *)mem_buf_ptr;
     mem_buf_ptr += (1 << i) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
 #ifdef DBG2
@@ -820,7 +817,6 @@ rm_dec(
 
   //---------- Root node.
 
-  // Calculate y_v = y_1 xor y_2.
   // Branch with permutations at (c_m, c_r).
   // List size is going to be dd->p_num.
   // All path metrics are 0 so far.
@@ -829,8 +825,8 @@ rm_dec(
     lorder[i] = i;
     lind2xl[i] = xlist;
     p1 = dd->pyarr + c_n * i;
-    vp = YLISTP(i, c_m - 1) = YLIST_POP(c_m - 1);
-    for (j = 0; j < n2; j++) vp[j] = XOR_EST(y_in[p1[j]], y_in[p1[j + n2]]);
+    yp = YLISTP(i, c_m) = YLIST_POP(c_m);
+    for (j = 0; j < c_n; j++) yp[j] = y_in[p1[j]];
     plist[i] = i;
   }
   cur_lsiz = frindp = dd->p_num;
@@ -839,31 +835,11 @@ rm_dec(
   xlist[0].p = NULL;
 
 #ifdef DBG2
-  printf("root 1: m=%d, r=%d, n=%3d.\n", c_m, c_r, c_n);
-  print_list("root a");
-#endif
-
-  // Decode v.
-  rm_dec_inner(dd, c_m - 1, c_r - 1);
-
-#ifdef DBG2
-  print_list("root b");
+  printf("root: m=%d, r=%d, n=%3d.\n", c_m, c_r, c_n);
+  print_list("root");
 #endif
 
-  // Calculate y_u = y_1 xor v + y_2.
-  for (i = 0; i < cur_lsiz; i++) {
-    cur_ind0 = lorder[i];
-    vp = YLISTP(cur_ind0, c_m - 1);
-    up = YLISTP(cur_ind0, c_m - 1) = YLIST_POP(c_m - 1);
-    p1 = dd->pyarr + c_n * plist[cur_ind0];
-    for (j = 0; j < n2; j++) {
-      y1 = EST_XOR_YLDEC(y_in[p1[j]], vp[j]); // y1 <-- y_1[j] xor v[j].
-      ADD_EST(y1, y_in[p1[j + n2]], up[j]); // y_u <-- y1 + y_2[j];
-    }
-  }
-
-  // Decode u.
-  rm_dec_inner(dd, c_m - 1, c_r);
+  rm_dec_inner(dd, c_m, c_r);
 
   // Find the best.
   i1 = 0;
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index a10ccc7..7c6d56c 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -74,8 +74,8 @@ int get_membuf_size(decoder_type *dd) {
    mem_buf_size += flsiz * sizeof(int); // lorder
    mem_buf_size += (dd->c_k * flsiz + 1) * sizeof(xlist_item); // xlist
    mem_buf_size += flsiz * sizeof(xlist_item *); // lind2xl
-   mem_buf_size += dd->c_m * flsiz * sizeof(ylitem *); // ylist
-   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
+   mem_buf_size += (dd->c_m + 1) * flsiz * sizeof(ylitem *); // ylist
+   mem_buf_size += (dd->c_m + 1) * sizeof(ylitem *) + (2 * dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
    mem_buf_size += flsiz * sizeof(slitem); // slist
    mem_buf_size += flsiz * sizeof(int); // plist.
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
-- 
2.43.0


From 27353e3628ef9d6a8a2d41befb291a2783cc03c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 08/34] fix: parameters file reader: includes, tight groups and
 size limits

An include in the last line without a line feed was ignored, a comment
closing an include file without a line feed glued its last token to the
next one, {1} was not read as a group of one item, large files overflowed
the token string and large include files were silently truncated.
---
 common/spf_par.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 3e21788..0ca7cf0 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -120,11 +120,13 @@ spf_read_preparse_ext(
       return RC_ERROR;
    }
    fclose(sp_file);
-   if (i1 >= SP_STR_MAX) {
+   if (i1 >= SP_STR_MAX - 1) {
       err_msg("spf_read_preparse(): file is too huge.");
       free(str1);
       return RC_ERROR;
    }
+   // The last token must be followed by a separator too.
+   str1[i1++] = LF_CHAR;
    str1[i1] = 0;
 
    // Allocate future sp_str.
@@ -145,9 +147,23 @@ spf_read_preparse_ext(
    token = strtok(str2, token_seps);
    while (token != NULL) {
 
+      // Up to 3 separators and the terminating 0 are added to a token.
+      if (sp_str_len + strlen(token) + 4 > SP_STR_MAX) {
+         err_msg("spf_read_preparse(): file is too huge.");
+         free(sp_str);
+         free(str1);
+         return RC_ERROR;
+      }
+
       // Includes.
       if (strcmp(token, include_token) == 0) {
          token = strtok(NULL, token_seps);
+         if (token == NULL) {
+            err_msg("spf_read_preparse(): include file name is not specified.");
+            free(sp_str);
+            free(str1);
+            return RC_ERROR;
+         }
          if ((sp_file = fopen(token, "rb")) == NULL) {
             err_msg("spf_read_preparse(): can't open include file.");
             free(sp_str);
@@ -162,7 +178,14 @@ spf_read_preparse_ext(
             return RC_ERROR;
          }
          fclose(sp_file);
-         str1[i1++] = ' ';
+         if (i1 >= SP_STR_MAX - 1) {
+            err_msg("spf_read_preparse(): file is too huge.");
+            free(sp_str);
+            free(str1);
+            return RC_ERROR;
+         }
+         // Close a comment in the last line if any.
+         str1[i1++] = LF_CHAR;
          str1[i1] = 0;
          i1 = strcpy_strip_comments(str1, i1, 1, str1);
          if (i1 + str2_len >= SP_STR_MAX) {
@@ -185,14 +208,11 @@ spf_read_preparse_ext(
          sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
          sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
          sp_str[sp_str_len] = 0;
-         if (strlen(token) > 1) {
-            strcat(sp_str, token + 1);
-            sp_str_len += strlen(token) - 1;
-            sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-            sp_str[sp_str_len] = 0;
+         token++;
+         if (token[0] == 0) {
+            token = strtok(NULL, token_seps);
+            continue;
          }
-         token = strtok(NULL, token_seps);
-         continue;
       }
 
       // Group ends.
-- 
2.43.0


From be445f237d21d64e8679341c1edaf1606c47fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 09/34] fix: int overflow in decoder memory size for long codes
 with large lists

---
 dtrm_glp/dtrm_glp_inner.c     |  4 ++--
 dtrm_glp/dtrm_glp_main.c      |  8 ++++----
 polar_scl/ca_polar_scl_main.c | 12 ++++++------
 polar_scl/polar_scl_inner.c   |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 58c5be0..8e38cf0 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -765,7 +765,7 @@ rm_dec(
   mem_buf_ptr += flsiz * sizeof(int);
 
   xlist = (xlist_item *)mem_buf_ptr;
-  mem_buf_ptr += (c_k * flsiz + 1) * sizeof(xlist_item);
+  mem_buf_ptr += ((size_t)c_k * flsiz + 1) * sizeof(xlist_item);
 
   lind2xl = (xlist_item **)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(xlist_item *);
@@ -781,7 +781,7 @@ rm_dec(
 #endif
   for (i = 0; i <= dd->c_m; i++) {
     yitems[i] = (ylitem *)mem_buf_ptr;
-    mem_buf_ptr += (1 << i) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
+    mem_buf_ptr += ((size_t)1 << i) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
 #ifdef DBG2
     printf("Buffer %d: yitems[i]=%p, %ld\n", i, yitems[i], mem_buf_ptr - dd->mem_buf);
 #endif
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 7c6d56c..3f9ecd2 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -65,9 +65,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
-   int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+size_t get_membuf_size(decoder_type *dd) {
+   size_t flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
+   size_t mem_buf_size = 0;
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -75,7 +75,7 @@ int get_membuf_size(decoder_type *dd) {
    mem_buf_size += (dd->c_k * flsiz + 1) * sizeof(xlist_item); // xlist
    mem_buf_size += flsiz * sizeof(xlist_item *); // lind2xl
    mem_buf_size += (dd->c_m + 1) * flsiz * sizeof(ylitem *); // ylist
-   mem_buf_size += (dd->c_m + 1) * sizeof(ylitem *) + (2 * dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
+   mem_buf_size += (dd->c_m + 1) * sizeof(ylitem *) + (size_t)(2 * dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
    mem_buf_size += flsiz * sizeof(slitem); // slist
    mem_buf_size += flsiz * sizeof(int); // plist.
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 4493fc9..fbd1a10 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -66,9 +66,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
-   int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+size_t get_membuf_size(decoder_type *dd) {
+   size_t flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
+   size_t mem_buf_size = 0;
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -76,7 +76,7 @@ int get_membuf_size(decoder_type *dd) {
    mem_buf_size += (dd->c_k * flsiz + 1) * sizeof(xlist_item); // xlist
    mem_buf_size += flsiz * sizeof(xlist_item *); // lind2xl
    mem_buf_size += dd->c_m * flsiz * sizeof(ylitem *); // ylist
-   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
+   mem_buf_size += dd->c_m * sizeof(ylitem *) + (size_t)(dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
    mem_buf_size += flsiz * sizeof(slitem); // slist
    mem_buf_size += flsiz * sizeof(int); // plist.
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
@@ -504,7 +504,7 @@ dec_bpsk(
    double *dec_input;
    int *x_candidates;
    uint8 *mem_buf, *mem_buf_ptr;
-   int mem_buf_size;
+   size_t mem_buf_size;
    int best_ind;
    int is_erasure = 0;
 
@@ -512,7 +512,7 @@ dec_bpsk(
 
    mem_buf_size = dd->c_n * sizeof(double); // dec_input
    if (dd->dc.ret_list) {
-      mem_buf_size += dd->dc.peak_lsiz * dd->c_k * sizeof(int); // x_candidates
+      mem_buf_size += (size_t)dd->dc.peak_lsiz * dd->c_k * sizeof(int); // x_candidates
    }
    mem_buf = (uint8 *)malloc(mem_buf_size);
    if (mem_buf == NULL) {
diff --git a/polar_scl/polar_scl_inner.c b/polar_scl/polar_scl_inner.c
index 328377b..a921850 100644
--- a/polar_scl/polar_scl_inner.c
+++ b/polar_scl/polar_scl_inner.c
@@ -404,7 +404,7 @@ polar_dec(
   mem_buf_ptr += flsiz * sizeof(int);
 
   xlist = (xlist_item *)mem_buf_ptr;
-  mem_buf_ptr += (c_k * flsiz + 1) * sizeof(xlist_item);
+  mem_buf_ptr += ((size_t)c_k * flsiz + 1) * sizeof(xlist_item);
 
   lind2xl = (xlist_item **)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(xlist_item *);
@@ -420,7 +420,7 @@ polar_dec(
 #endif
   for (i = 0; i < dd->c_m; i++) {
     yitems[i] = (ylitem *)mem_buf_ptr;
-    mem_buf_ptr += (1 << i) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
+    mem_buf_ptr += ((size_t)1 << i) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
 #ifdef DBG2
     printf("Buffer %d: yitems[i]=%p, %ld\n", i, yitems[i], mem_buf_ptr - dd->mem_buf);
 #endif
-- 
2.43.0


From bfa73582b8326a15dda1aea7ec875ad2bd304045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 10/34] fix: overflow for long res_file names; missing res_file
 is not reported

---
 simulators/sim_bg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index be02b67..c01d8ec 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -275,6 +275,10 @@ int sim_init(
   sim->code_k = cdc_get_k(sim->dc_inst);
 
   // Check if all necessary parameters are specified.
+  if (sim->rf_name[0] == 0) {
+    err_msg("sim_bg init error: no results file is specified.");
+    return RC_ERROR;
+  }
   if (sim->snr_num < 1) {
     err_msg("sim_bg init error: no SNR values are specified.");
     return RC_ERROR;
@@ -544,7 +548,7 @@ sim_save_res(
 ) {
   sim_bg_inst *sim;
   FILE *fp;
-  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
+  char bsyfn[FN_LEN_MAX + 4]; // Busy flag file name.
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
-- 
2.43.0


From c2ae628f03e4bd0c3a2cd7d2e8bb94e10a7a461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 11/34] fix: int overflow of trial and bit counts in reports

The limit of trials per SNR did not fit int, and trn * k overflowed for
long simulations, so a wrong bit error rate was shown and loaded.
---
 Octave/loadsrf.c    | 2 +-
 simulators/sim_bg.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 3d0b56d..6632002 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -131,7 +131,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   mxArr = mxCreateDoubleMatrix(1, snr_num, mxREAL);
   d = mxGetPr(mxArr);
   for (n = 0; n < snr_num; n++) {
-    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / (trn[n] * c_k) : 0.0;
+    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / ((double)trn[n] * c_k) : 0.0;
   }
   mxSetFieldByNumber(res, 0, 3, mxArr);
 
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index c01d8ec..a68fb1c 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -44,7 +44,7 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
-#define MAX_TRIALS_PER_SNR 1e10
+#define MAX_TRIALS_PER_SNR 2e9
 
 // Minimum number of observed block errors to estimate required number of trials.
 #define MIN_EN_FOR_TRN_ESTIMATION 20
@@ -520,7 +520,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn,
         sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn_ml : 0
       );
@@ -533,7 +533,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn
       );
       strcat(ds, str1);
-- 
2.43.0


From 0985bdc5ab3403788165e11ff2ebfbeee80f847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 12/34] fix: number of trials required by SNR_val_trn may be
 reduced

The number of trials estimated from min_errors_per_snr was limited from
below by min_trials_per_snr only.
---
 simulators/sim_bg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index a68fb1c..963d781 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -91,6 +91,7 @@ typedef struct {
   int min_trn;
   int min_en_bl;
   int trn_req[SNR_NUM_MAX];
+  int trn_min[SNR_NUM_MAX]; // Initial trn_req[].
   int do_ml; // If 1 evaluate ML LB.
   int do_ml_hd; // If 1 evaluate ML LB for hard dec. decoder.
   sim_point pt[SNR_NUM_MAX];
@@ -299,6 +300,7 @@ int sim_init(
     if (sim->trn_req[i] < 1) {
       sim->trn_req[i] = sim->min_trn;
     }
+    sim->trn_min[i] = sim->trn_req[i];
   }
   sim->csnrn = 0;
   sim->ret_int = sp->ret_int;
@@ -332,7 +334,7 @@ static void update_trn_req(
     double estimate;
     if (sim->pt[csnrn].en_bl > MIN_EN_FOR_TRN_ESTIMATION) {
       estimate = (double)sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;
-      sim->trn_req[csnrn] = (int)MAX(sim->min_trn, MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_min[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
       return;
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
-- 
2.43.0


From f14ce591d0facc302180e167dc53071ad7bfb4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 13/34] fix: SNR values and fixed_R out of range overflow
 messages or make noise NaN

---
 simulators/sim_bg.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 963d781..8b4d3a9 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -49,6 +49,9 @@
 // Minimum number of observed block errors to estimate required number of trials.
 #define MIN_EN_FOR_TRN_ESTIMATION 20
 
+// Max absolute value of SNR in dB.
+#define SNR_DB_MAX         300.0
+
 // Max length of file names.
 #define FN_LEN_MAX         1000
 
@@ -284,6 +287,16 @@ int sim_init(
     err_msg("sim_bg init error: no SNR values are specified.");
     return RC_ERROR;
   }
+  for (int i = 0; i < sim->snr_num; i++) {
+    if (!(fabs(sim->snr_db[i]) <= SNR_DB_MAX)) {
+      err_msg("sim_bg init error: SNR value is out of range.");
+      return RC_ERROR;
+    }
+  }
+  if (!(sim->fixedR >= 0.0)) {
+    err_msg("sim_bg init error: fixed_R is out of range.");
+    return RC_ERROR;
+  }
   if (sim->min_trn <= 0) {
     sim->min_trn = 1;
   }
-- 
2.43.0


From 98cf3ceee9f28f1e5992c95ed4d1c8d307d6f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 14/34] fix: busy results file is waited for 31 ms instead of
 31 sec

clock() does not count milliseconds on POSIX.
---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 8b4d3a9..916f339 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -133,7 +133,7 @@ static void set_rnd_seed(long s) {
 /* Pauses for a specified number of milliseconds. */
 static void sleep(clock_t wait) {
   clock_t goal;
-  goal = wait + clock();
+  goal = wait * (CLOCKS_PER_SEC / 1000) + clock();
   while (goal > clock());
 }
 
-- 
2.43.0


From c78c5199e8e15fb542015049a939af7ef435b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 15/34] fix: concurrent saves may lose results; failed saves
 leave the busy flag

The busy flag was checked and created in two steps, it was deleted before
the results file was closed, and it was not deleted on errors.
---
 simulators/sim_bg.c | 78 ++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 916f339..0e40251 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -27,6 +27,7 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <errno.h>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -556,14 +557,13 @@ sim_cur_res_str(
   }
 }
 
-// Save simulation results.
-int
-sim_save_res(
-  void *inst // Simulation instance.
+// Add new simulation results to the results file.
+static int
+update_res_file(
+  sim_bg_inst *sim,
+  char **old_res_str // Old res file string to be freed by the caller.
 ) {
-  sim_bg_inst *sim;
   FILE *fp;
-  char bsyfn[FN_LEN_MAX + 4]; // Busy flag file name.
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
@@ -577,31 +577,9 @@ sim_save_res(
   char err_reading_str[] = "sim_bg saving error: error reading old res file.";
   int i, j, n, snrs_to_save;
 
-  sim = (sim_bg_inst *)inst;
-
-  // Check if the file is busy.
-  strcpy(bsyfn, sim->rf_name);
-  strcat(bsyfn, ".bsy");
-  n = 0;
-  while ((fp = fopen(bsyfn, "r")) != NULL) {
-    fclose(fp);
-    if (n++ > 30) {
-      err_msg("sim_bg saving error: output file is busy too long.");
-      return RC_ERROR;
-    }
-    sleep(1000);
-  }
-
-  // Create the busy flag.
-  if ((fp = fopen(bsyfn, "w")) == NULL) {
-    err_msg("sim_bg saving error: cannot create busy flag file.");
-    return RC_ERROR;
-  }
-  fprintf(fp, "Busy");
-  fclose(fp);
-
   // Try to read and preparse old res file.
   if (spf_tryread_preparse(sim->rf_name, &str1) == 0) {
+    (*old_res_str) = str1;
 
     // Get old data.
     token = strtok(str1, tk_seps_prepared);
@@ -642,7 +620,6 @@ sim_save_res(
       if (rc == RC_ERROR) return RC_ERROR;
       SPF_SKIP_UNKNOWN_PARAMETER(token);
     }
-    free(str1);
 
     // Check validity of the data.
     if ((snr_num != trn_n) || (en_bit_n != trn_n) || (en_bl_n != trn_n) || (er_n_n != trn_n)
@@ -750,11 +727,48 @@ sim_save_res(
     );
   }
 
+  fclose(fp);
+  return RC_OK;
+}
+
+// Save simulation results.
+int
+sim_save_res(
+  void *inst // Simulation instance.
+) {
+  sim_bg_inst *sim;
+  FILE *fp;
+  char bsyfn[FN_LEN_MAX + 4]; // Busy flag file name.
+  char *old_res_str = NULL;
+  int n, rc;
+
+  sim = (sim_bg_inst *)inst;
+
+  // Create the busy flag. It fails if the file is busy.
+  strcpy(bsyfn, sim->rf_name);
+  strcat(bsyfn, ".bsy");
+  n = 0;
+  while ((fp = fopen(bsyfn, "wx")) == NULL) {
+    if (errno != EEXIST) {
+      err_msg("sim_bg saving error: cannot create busy flag file.");
+      return RC_ERROR;
+    }
+    if (n++ > 30) {
+      err_msg("sim_bg saving error: output file is busy too long.");
+      return RC_ERROR;
+    }
+    sleep(1000);
+  }
+  fprintf(fp, "Busy");
+  fclose(fp);
+
+  rc = update_res_file(sim, &old_res_str);
+  if (old_res_str != NULL) free(old_res_str);
+
   // Delete busy flag file.
   remove(bsyfn);
 
-  fclose(fp);
-  return RC_OK;
+  return rc ? RC_ERROR : RC_OK;
 }
 
 // Control simulation parameters "on the fly".
-- 
2.43.0


From 5682d8ff4a3b2a49a4eae87beda92e25e27ec5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 16/34] fix: merging of results: lost precision, duplicated
 points, overflow

SNR values were rounded to 6 digits and looked up in a sorted list only,
while the first save did not sort them, so the same SNR value could get
several points, points not simulated yet were saved as nan, and more than
50 points in the file overflowed the arrays.
---
 Octave/loadsrf.c    |  2 +-
 common/spf_par.h    |  1 +
 simulators/sim_bg.c | 80 ++++++++++++++++++++++++---------------------
 3 files changed, 45 insertions(+), 38 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 6632002..227ea94 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -30,7 +30,7 @@
 // Internal defines.
 
 // Max # of SNR values.
-#define SNR_NUM_MAX        50
+#define SNR_NUM_MAX        SRF_SNR_NUM_MAX
 
 #define MEX_TRYGET_GRDOUBLE_TOKEN(tk, tk_samp, x, n, nmax, erstr) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
diff --git a/common/spf_par.h b/common/spf_par.h
index 51b2242..47a8f21 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -32,6 +32,7 @@
 // Defines
 
 #define SP_STR_MAX         140000 // Max length of params file (with includes).
+#define SRF_SNR_NUM_MAX    500   // Max # of SNR values in a results file.
 #define LF_CHAR            10    // LF character.
 #define COMMENT_CHAR       '%'   // Comment starts from this character.
 #define GROUP_CHAR_BEGIN   '{'   // Group starts from this character.
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 0e40251..325041e 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -557,6 +557,14 @@ sim_cur_res_str(
   }
 }
 
+// Number of digits required to print and read back SNR value exactly.
+static int snr_digits(double snr) {
+  char str1[64];
+
+  sprintf(str1, "%.15g", snr);
+  return (atof(str1) == snr) ? 15 : 17;
+}
+
 // Add new simulation results to the results file.
 static int
 update_res_file(
@@ -566,8 +574,8 @@ update_res_file(
   FILE *fp;
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
-  double snr_db[SNR_NUM_MAX];
-  sim_point pt_file[SNR_NUM_MAX];
+  double snr_db[SRF_SNR_NUM_MAX];
+  sim_point pt_file[SRF_SNR_NUM_MAX];
   int trn_n = 0;
   int ml_trn_n = 0;
   int en_bit_n = 0;
@@ -587,34 +595,34 @@ update_res_file(
       int rc;
       // TRYGET_INT_TOKEN(token, code_n_token, code_n);
       // TRYGET_INT_TOKEN(token, code_k_token, code_k);
-      TRYGET_GRDOUBLE_TOKEN(token, SNR_token, snr_db, snr_num, SNR_NUM_MAX, err_reading_str);
+      TRYGET_GRDOUBLE_TOKEN(token, SNR_token, snr_db, snr_num, SRF_SNR_NUM_MAX, err_reading_str);
       rc = tryread_group_int_param(
-        &token, tr_num_token, &pt_file[0].trn, sizeof(sim_point), &trn_n, SNR_NUM_MAX, err_reading_str
+        &token, tr_num_token, &pt_file[0].trn, sizeof(sim_point), &trn_n, SRF_SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
       if (rc == RC_ERROR) return RC_ERROR;
       rc = tryread_group_int_param(
-        &token, en_bit_token, &pt_file[0].en_bit, sizeof(sim_point), &en_bit_n, SNR_NUM_MAX, err_reading_str
+        &token, en_bit_token, &pt_file[0].en_bit, sizeof(sim_point), &en_bit_n, SRF_SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
       if (rc == RC_ERROR) return RC_ERROR;
       rc = tryread_group_int_param(
-        &token, en_bl_token, &pt_file[0].en_bl, sizeof(sim_point), &en_bl_n, SNR_NUM_MAX, err_reading_str
+        &token, en_bl_token, &pt_file[0].en_bl, sizeof(sim_point), &en_bl_n, SRF_SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
       if (rc == RC_ERROR) return RC_ERROR;
       rc = tryread_group_int_param(
-        &token, er_n_token, &pt_file[0].er_n, sizeof(sim_point), &er_n_n, SNR_NUM_MAX, err_reading_str
+        &token, er_n_token, &pt_file[0].er_n, sizeof(sim_point), &er_n_n, SRF_SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
       if (rc == RC_ERROR) return RC_ERROR;
       rc = tryread_group_int_param(
-        &token, ml_tr_num_token, &pt_file[0].trn_ml, sizeof(sim_point), &ml_trn_n, SNR_NUM_MAX, err_reading_str
+        &token, ml_tr_num_token, &pt_file[0].trn_ml, sizeof(sim_point), &ml_trn_n, SRF_SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
       if (rc == RC_ERROR) return RC_ERROR;
       rc = tryread_group_int_param(
-        &token, enml_bl_token, &pt_file[0].enml_bl, sizeof(sim_point), &enml_bl_n, SNR_NUM_MAX, err_reading_str
+        &token, enml_bl_token, &pt_file[0].enml_bl, sizeof(sim_point), &enml_bl_n, SRF_SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
       if (rc == RC_ERROR) return RC_ERROR;
@@ -627,39 +635,37 @@ update_res_file(
       err_msg("sim_bg saving error: invalid old res file.");
       return RC_ERROR;
     }
+  }
 
-    // Update the data.
-    for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-      if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
+  // Update the data.
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
+    n = 0;
+    while ((n < snr_num) && (snr_db[n] != sim->snr_db[i])) n++;
+    if (n >= snr_num) {
+      if (snr_num >= SRF_SNR_NUM_MAX) {
+        err_msg("sim_bg saving error: too many SNR values in the res file.");
+        return RC_ERROR;
+      }
       n = 0;
-      while ((snr_db[n] < sim->snr_db[i]) && (n < snr_num)) n++;
-      if ((snr_db[n] > sim->snr_db[i]) || (n >= snr_num)) {
-        // Make room for the new at n if required.
-        for (j = snr_num; j > n; j--) {
-          snr_db[j] = snr_db[j - 1];
-          copy_sim_point(&pt_file[j], &pt_file[j - 1]);
-        }
-        snr_num++;
-        // Add new at n.
-        snr_db[n] = sim->snr_db[i];
-        init_sim_point(&pt_file[n]);
+      while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
+      // Make room for the new at n if required.
+      for (j = snr_num; j > n; j--) {
+        snr_db[j] = snr_db[j - 1];
+        copy_sim_point(&pt_file[j], &pt_file[j - 1]);
       }
-      // Update at n.
-      sim_point tmppt;
-      sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
-      add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
+      snr_num++;
+      // Add new at n.
+      snr_db[n] = sim->snr_db[i];
+      init_sim_point(&pt_file[n]);
     }
-    snrs_to_save = snr_num;
+    // Update at n.
+    sim_point tmppt;
+    sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
+    add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
   }
-  else {
+  snrs_to_save = snr_num;
 
-    // Assume there was no old res file.
-    snrs_to_save = (sim->csnrn < sim->snr_num) ? sim->csnrn + 1 : sim->snr_num;
-    for (n = 0; n < snrs_to_save; n++) {
-      snr_db[n] = sim->snr_db[n];
-      copy_sim_point(&pt_file[n], &sim->pt[n]);
-    }
-  }
   for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
     copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
   }
@@ -675,7 +681,7 @@ update_res_file(
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%g ", snr_db[n]);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%.*g ", snr_digits(snr_db[n]), snr_db[n]);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-- 
2.43.0


From 2a66662525e3377533f0aa623b82e4bde8d2aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 17/34] fix: results are lost if saving fails

The old results file was truncated before the new one was written, an
unreadable or broken file was taken as a missing one and overwritten,
write errors were not detected, and the new results were considered saved
before they were.
---
 simulators/sim_bg.c | 62 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 325041e..667c6d7 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -572,6 +572,8 @@ update_res_file(
   char **old_res_str // Old res file string to be freed by the caller.
 ) {
   FILE *fp;
+  char tmpfn[FN_LEN_MAX + 4]; // Temporary file name.
+  int use_tmp = 1;
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SRF_SNR_NUM_MAX];
@@ -585,8 +587,35 @@ update_res_file(
   char err_reading_str[] = "sim_bg saving error: error reading old res file.";
   int i, j, n, snrs_to_save;
 
-  // Try to read and preparse old res file.
-  if (spf_tryread_preparse(sim->rf_name, &str1) == 0) {
+  // Check if there is an old res file.
+  fp = fopen(sim->rf_name, "rb");
+  if (fp == NULL) {
+    if (errno != ENOENT) {
+      err_msg(err_reading_str);
+      return RC_ERROR;
+    }
+  }
+  else {
+    i = fgetc(fp);
+    n = ferror(fp);
+    fclose(fp);
+    if (n) {
+      err_msg(err_reading_str);
+      return RC_ERROR;
+    }
+    // There is nothing to lose in an empty file.
+    if (i == EOF) {
+      use_tmp = 0;
+      fp = NULL;
+    }
+  }
+
+  // Read and preparse old res file.
+  if (fp != NULL) {
+    if (spf_read_preparse(sim->rf_name, &str1) != RC_OK) {
+      err_msg(err_reading_str);
+      return RC_ERROR;
+    }
     (*old_res_str) = str1;
 
     // Get old data.
@@ -666,13 +695,11 @@ update_res_file(
   }
   snrs_to_save = snr_num;
 
-  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
-  }
+  // Save updated data. Don't touch the old res file until it is complete.
 
-  // Save updated data.
-
-  fp = fopen(sim->rf_name, "wt");
+  strcpy(tmpfn, sim->rf_name);
+  if (use_tmp) strcat(tmpfn, ".tmp");
+  fp = fopen(tmpfn, "wt");
   if (fp == NULL) {
     err_msg("sim_bg saving error: cannot open file to save results.");
     return RC_ERROR;
@@ -733,7 +760,24 @@ update_res_file(
     );
   }
 
-  fclose(fp);
+  n = ferror(fp);
+  if (fclose(fp)) n = 1;
+  if (use_tmp && !n) {
+#ifdef WIN32
+    remove(sim->rf_name);
+#endif // if WIN32
+    n = rename(tmpfn, sim->rf_name);
+  }
+  if (n) {
+    err_msg("sim_bg saving error: cannot write results.");
+    if (use_tmp) remove(tmpfn);
+    else if ((fp = fopen(tmpfn, "wt")) != NULL) fclose(fp);
+    return RC_ERROR;
+  }
+
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
+  }
   return RC_OK;
 }
 
-- 
2.43.0


From 96f14ca1b9aa31cc904db3bb97a6856786764772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 18/34] fix: exit status does not report failed runs and saves;
 -si/-ri without value crash

---
 simulators/main_txt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index 29387d7..e58dd82 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -69,8 +69,9 @@ int main(int argc, char **argv) {
 
    for (i = 2; i < argc; i++) {
       if (strcmp(argv[i], "-nr") == 0) sp.dont_randomize = 1;
+      if (i + 1 >= argc) continue;
       if (strcmp(argv[i], "-si") == 0) save_int = atoi(argv[++i]);
-      if (strcmp(argv[i], "-ri") == 0) sp.ret_int = atoi(argv[++i]);
+      else if (strcmp(argv[i], "-ri") == 0) sp.ret_int = atoi(argv[++i]);
    }
 
 #ifdef WIN32
@@ -127,9 +128,9 @@ int main(int argc, char **argv) {
    sim_cur_res_str(sim_inst, msg_str);
    show_msg(msg_str);
 
-   sim_save_res(sim_inst);
+   if (sim_save_res(sim_inst) != RC_OK) rc = RC_ERROR;
 
    sim_close(sim_inst);
 
-   return RC_OK;
+   return (rc == RC_OK) ? RC_OK : RC_ERROR;
 }
\ No newline at end of file
-- 
2.43.0


From 8ee43af8dee75431af201a5603642784d232c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 19/34] fix: repeated masks and CRC parameters leak memory

---
 dtrm_glp/dtrm_glp_main.c      | 1 +
 polar_scl/ca_polar_scl_main.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 3f9ecd2..0f47096 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -148,6 +148,7 @@ cdc_init(
             goto ret_err;
          }
          dd->dc.node_table_len = strlen(token);
+         free(dd->dc.node_table); // If the parameter is repeated.
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
             err_msg("cdc_init: Short of memory.");
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index fbd1a10..5a7ae60 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -190,6 +190,7 @@ cdc_init(
             goto ret_err;
          }
          dd->dc.node_table_len = strlen(token);
+         free(dd->dc.node_table); // If the parameter is repeated.
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
             err_msg("cdc_init: Short of memory.");
@@ -208,6 +209,7 @@ cdc_init(
             goto ret_err;
          }
          dd->crc_len = strlen(token);
+         free(dd->crc); // If the parameter is repeated.
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
             err_msg("cdc_init: Short of memory.");
-- 
2.43.0


From 66199143dc0bcffe3c961700282b59b080490c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 20/34] fix: memory leak if distance_threshold is not
 terminated

---
 common/spf_par.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/spf_par.h b/common/spf_par.h
index 47a8f21..c155535 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -93,6 +93,7 @@
    } \
 }
 
+// Jumps to ret_err on errors.
 #define TRYGET_GRINTDOUBLE_TOKEN(tk, tk_samp, x, y, n, nmax, erstr) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
@@ -109,7 +110,7 @@
       } \
       if ((tk) == NULL || (tk)[0] != GROUP_CHAR_END) { \
          err_msg(erstr); \
-         return 1; \
+         goto ret_err; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-- 
2.43.0


From b9b88be425b1cfec5f496022523d24fd29e3c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 21/34] hooks: poisoned gaps between parts of decoder memory
 (ECCLAB_VERIF)

---
 common/membuf_gaps.h          | 26 ++++++++++++++++++++++
 dtrm_glp/dtrm_glp_inner.c     | 42 +++++++++++++++++++++++++++++++++++
 dtrm_glp/dtrm_glp_inner.h     |  4 ++++
 dtrm_glp/dtrm_glp_main.c      |  8 +++++++
 polar_scl/ca_polar_scl_main.c |  8 +++++++
 polar_scl/polar_scl_inner.c   | 39 ++++++++++++++++++++++++++++++++
 polar_scl/polar_scl_inner.h   |  4 ++++
 7 files changed, 131 insertions(+)
 create mode 100644 common/membuf_gaps.h

diff --git a/common/membuf_gaps.h b/common/membuf_gaps.h
new file mode 100644
index 0000000..185a4c6
--- /dev/null
+++ b/common/membuf_gaps.h
@@ -0,0 +1,26 @@
+//=============================================================================
+// Poisoned gaps between the parts of a decoder memory buffer.
+// Used by verification builds (ECCLAB_VERIF) with AddressSanitizer only.
+//=============================================================================
+
+#ifndef MEMBUF_GAPS_H
+
+#define MEMBUF_GAPS_H
+
+#ifdef ECCLAB_VERIF
+
+#include <stddef.h>
+#include <sanitizer/asan_interface.h>
+
+#define MEMBUF_GAP 32
+
+#define MEMBUF_CLEAR_GAPS(buf, siz) ASAN_UNPOISON_MEMORY_REGION((buf), (siz))
+
+#define MEMBUF_PUT_GAP(ptr) { \
+   ASAN_POISON_MEMORY_REGION((ptr), MEMBUF_GAP); \
+   (ptr) += MEMBUF_GAP; \
+}
+
+#endif // ifdef ECCLAB_VERIF
+
+#endif // #ifndef MEMBUF_GAPS_H
diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 8e38cf0..723fcab 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -754,34 +754,61 @@ rm_dec(
   // ----- Memory allocation.
 
   mem_buf_ptr = dd->mem_buf;
+#ifdef ECCLAB_VERIF
+  MEMBUF_CLEAR_GAPS(dd->mem_buf, dd->mem_buf_size);
+#endif // ifdef ECCLAB_VERIF
 
   y_in = (ylitem *)mem_buf_ptr;
   mem_buf_ptr += c_n * sizeof(ylitem);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   frind = (int *)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(int);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   lorder = (int *)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(int);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   xlist = (xlist_item *)mem_buf_ptr;
   mem_buf_ptr += ((size_t)c_k * flsiz + 1) * sizeof(xlist_item);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   lind2xl = (xlist_item **)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(xlist_item *);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   ylist = (ylitem **)mem_buf_ptr;
   //mem_buf_ptr += dd->c_m * MAX(dd->peak_lsiz, dd->p_num) * sizeof(ylitem *);
   mem_buf_ptr += (dd->c_m + 1) * flsiz * sizeof(ylitem *);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   yitems = (ylitem **)mem_buf_ptr;
   mem_buf_ptr += (dd->c_m + 1) * sizeof(ylitem *);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 #ifdef DBG2
   printf("\nStart buffers: %ld\n", mem_buf_ptr - dd->mem_buf);
 #endif
   for (i = 0; i <= dd->c_m; i++) {
     yitems[i] = (ylitem *)mem_buf_ptr;
     mem_buf_ptr += ((size_t)1 << i) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
+#ifdef ECCLAB_VERIF
+    MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 #ifdef DBG2
     printf("Buffer %d: yitems[i]=%p, %ld\n", i, yitems[i], mem_buf_ptr - dd->mem_buf);
 #endif
@@ -789,18 +816,33 @@ rm_dec(
 
   slist = (slitem *)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(slitem);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   plist = (int *)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(int);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   parent = (int *)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(int);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   xtmp = (xlitem *)mem_buf_ptr;
   mem_buf_ptr += c_n * sizeof(xlitem);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   xtmp2 = (xlitem *)mem_buf_ptr;
   mem_buf_ptr += c_n * sizeof(xlitem);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
 #ifdef DBG2
   printf("\nAssigned buffer size: %ld\n", mem_buf_ptr - dd->mem_buf);
diff --git a/dtrm_glp/dtrm_glp_inner.h b/dtrm_glp/dtrm_glp_inner.h
index 86c5f57..66cafe7 100644
--- a/dtrm_glp/dtrm_glp_inner.h
+++ b/dtrm_glp/dtrm_glp_inner.h
@@ -30,6 +30,7 @@
 // Includes.
 
 #include "../common/typedefs.h"
+#include "../common/membuf_gaps.h"
 #include "../formats/formats.h"
 
 
@@ -54,6 +55,9 @@ typedef struct {
   int *pyarr; // perm. for ch. output vector (before decoding).
   int ret_s_sum; // If 1 - return SUM s_i for list.
   uint8 *mem_buf;
+#ifdef ECCLAB_VERIF
+  size_t mem_buf_size;
+#endif // ifdef ECCLAB_VERIF
 } decoder_type;
 
 
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 0f47096..477a337 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -82,6 +82,10 @@ size_t get_membuf_size(decoder_type *dd) {
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp2.
    mem_buf_size += flsiz * sizeof(int); // parent.
 
+#ifdef ECCLAB_VERIF
+   mem_buf_size += (size_t)(dd->c_m + 13) * MEMBUF_GAP;
+#endif // ifdef ECCLAB_VERIF
+
    return mem_buf_size;
 }
 
@@ -347,6 +351,10 @@ cdc_init(
    }
 #endif // FORMAT_Q
 
+#ifdef ECCLAB_VERIF
+   dd->dc.mem_buf_size = get_membuf_size(&(dd->dc));
+#endif // ifdef ECCLAB_VERIF
+
    // Allocate decoder memory buffer
    dd->dc.mem_buf = (uint8 *)malloc(get_membuf_size(&(dd->dc)));
    if (dd->dc.mem_buf == NULL) {
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 5a7ae60..c808f70 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -82,6 +82,10 @@ size_t get_membuf_size(decoder_type *dd) {
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
    mem_buf_size += flsiz * sizeof(int); // parent.
 
+#ifdef ECCLAB_VERIF
+   mem_buf_size += (size_t)(dd->c_m + 11) * MEMBUF_GAP;
+#endif // ifdef ECCLAB_VERIF
+
    return mem_buf_size;
 }
 
@@ -388,6 +392,10 @@ cdc_init(
    }
 #endif // FORMAT_Q
 
+#ifdef ECCLAB_VERIF
+   dd->dc.mem_buf_size = get_membuf_size(&(dd->dc));
+#endif // ifdef ECCLAB_VERIF
+
    // Allocate decoder memory buffer
    dd->dc.mem_buf = (uint8 *)malloc(get_membuf_size(&(dd->dc)));
    if (dd->dc.mem_buf == NULL) {
diff --git a/polar_scl/polar_scl_inner.c b/polar_scl/polar_scl_inner.c
index a921850..8eb68fd 100644
--- a/polar_scl/polar_scl_inner.c
+++ b/polar_scl/polar_scl_inner.c
@@ -393,34 +393,61 @@ polar_dec(
   // ----- Memory allocation.
 
   mem_buf_ptr = dd->mem_buf;
+#ifdef ECCLAB_VERIF
+  MEMBUF_CLEAR_GAPS(dd->mem_buf, dd->mem_buf_size);
+#endif // ifdef ECCLAB_VERIF
 
   y_in = (ylitem *)mem_buf_ptr;
   mem_buf_ptr += c_n * sizeof(ylitem);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   frind = (int *)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(int);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   lorder = (int *)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(int);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   xlist = (xlist_item *)mem_buf_ptr;
   mem_buf_ptr += ((size_t)c_k * flsiz + 1) * sizeof(xlist_item);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   lind2xl = (xlist_item **)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(xlist_item *);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   ylist = (ylitem **)mem_buf_ptr;
   //mem_buf_ptr += dd->c_m * MAX(dd->peak_lsiz, dd->p_num) * sizeof(ylitem *);
   mem_buf_ptr += dd->c_m * flsiz * sizeof(ylitem *);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   yitems = (ylitem **)mem_buf_ptr;
   mem_buf_ptr += dd->c_m * sizeof(ylitem *);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 #ifdef DBG2
   printf("\nStart buffers: %ld\n", mem_buf_ptr - dd->mem_buf);
 #endif
   for (i = 0; i < dd->c_m; i++) {
     yitems[i] = (ylitem *)mem_buf_ptr;
     mem_buf_ptr += ((size_t)1 << i) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
+#ifdef ECCLAB_VERIF
+    MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 #ifdef DBG2
     printf("Buffer %d: yitems[i]=%p, %ld\n", i, yitems[i], mem_buf_ptr - dd->mem_buf);
 #endif
@@ -428,15 +455,27 @@ polar_dec(
 
   slist = (slitem *)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(slitem);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   plist = (int *)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(int);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   parent = (int *)mem_buf_ptr;
   mem_buf_ptr += flsiz * sizeof(int);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
   xtmp = (xlitem *)mem_buf_ptr;
   mem_buf_ptr += c_n * sizeof(xlitem);
+#ifdef ECCLAB_VERIF
+  MEMBUF_PUT_GAP(mem_buf_ptr);
+#endif // ifdef ECCLAB_VERIF
 
 #ifdef DBG2
   printf("\nAssigned buffer size: %ld\n", mem_buf_ptr - dd->mem_buf);
diff --git a/polar_scl/polar_scl_inner.h b/polar_scl/polar_scl_inner.h
index c1dee67..0ccdb10 100644
--- a/polar_scl/polar_scl_inner.h
+++ b/polar_scl/polar_scl_inner.h
@@ -30,6 +30,7 @@
 // Includes.
 
 #include "../common/typedefs.h"
+#include "../common/membuf_gaps.h"
 #include "../formats/formats.h"
 
 
@@ -53,6 +54,9 @@ typedef struct {
   int *pyarr; // perm. for ch. output vector (before decoding).
   int ret_list; // If 1 - return the list of all candidate inf. sequences (not just the best).
   uint8 *mem_buf;
+#ifdef ECCLAB_VERIF
+  size_t mem_buf_size;
+#endif // ifdef ECCLAB_VERIF
 } decoder_type;
 
 
-- 
2.43.0


From 29320ff4631e2f34e8d73ccca0fbb2feca2410e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 22/34] fix: less trials than required if min_errors_per_snr is
 reached early

When more than a half of the required trials were done without enough
errors the requirement was replaced by 1.5 of the trials done, which may
be less than the requirement.
---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 667c6d7..fe7b685 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -353,7 +353,7 @@ static void update_trn_req(
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
       estimate = sim->pt[csnrn].trn * 1.5;
-      sim->trn_req[csnrn] = (int)MIN(estimate + 0.5, MAX_TRIALS_PER_SNR);
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_min[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
     }
   }
 }
-- 
2.43.0


From 79a164819b543e2a36f9fa543175d8f166ac6fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 23/34] fix: int overflow for huge lists and permutation sets

---
 dtrm_glp/dtrm_glp_inner.c     |  4 ++--
 dtrm_glp/dtrm_glp_main.c      | 13 +++++++++----
 polar_scl/ca_polar_scl_main.c | 11 ++++++++---
 polar_scl/polar_scl_inner.c   |  8 ++++----
 4 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 723fcab..f35061d 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -866,7 +866,7 @@ rm_dec(
     slist[i] = 0.0;
     lorder[i] = i;
     lind2xl[i] = xlist;
-    p1 = dd->pyarr + c_n * i;
+    p1 = dd->pyarr + (size_t)c_n * i;
     yp = YLISTP(i, c_m) = YLIST_POP(c_m);
     for (j = 0; j < c_n; j++) yp[j] = y_in[p1[j]];
     plist[i] = i;
@@ -897,7 +897,7 @@ rm_dec(
 #endif
 
   vgetx(lorder[i1], xtmp, c_k);
-  p1 = dd->pxarr + dd->c_k * plist[lorder[i1]];
+  p1 = dd->pxarr + (size_t)dd->c_k * plist[lorder[i1]];
   for (j = 0; j < c_k; j++) x_dec[p1[j]] = xtmp[j];
 
   if (s_dec != NULL) {
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 477a337..5196174 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -39,6 +39,7 @@
 
 // Max supported m and r.
 #define C_M_MAX             24
+#define LSIZ_MAX            1000000
 #define C_R_MAX             15
 
 //-----------------------------------------------------------------------------
@@ -238,13 +239,17 @@ cdc_init(
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
+   if (dd->dc.peak_lsiz > LSIZ_MAX) {
+      err_msg("cdc_init: List size is too large.");
+      goto ret_err;
+   }
    if ((dd->use_var_list != 0) && (dd->dist_t_n == 0)) {
       err_msg("cdc_init: No distance_threshold.");
       goto ret_err;
    }
    if (dd->use_var_list != 0) {
       for (i = 0; i < dd->dist_t_n; i++) {
-         if (dd->lsiz[i] < 1) {
+         if ((dd->lsiz[i] < 1) || (dd->lsiz[i] > LSIZ_MAX)) {
             err_msg("cdc_init: Bad list size in distance_threshold.");
             goto ret_err;
          }
@@ -293,9 +298,9 @@ cdc_init(
    }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
-      dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
-      dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
-      if ((dd->dc.pxarr == NULL) || (dd->dc.pxarr == NULL)) {
+      dd->dc.pxarr = (int *)malloc((size_t)p_num * c_k * sizeof(int));
+      dd->dc.pyarr = (int *)malloc((size_t)p_num * c_n * sizeof(int));
+      if ((dd->dc.pxarr == NULL) || (dd->dc.pyarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
       }
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index c808f70..ce570b3 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -42,6 +42,7 @@
 
 // Max supported m.
 #define C_M_MAX             24
+#define LSIZ_MAX            1000000
 
 //-----------------------------------------------------------------------------
 // Internal typedefs.
@@ -295,6 +296,10 @@ cdc_init(
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
+   if (dd->dc.peak_lsiz > LSIZ_MAX) {
+      err_msg("cdc_init: List size is too large.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
@@ -333,8 +338,8 @@ cdc_init(
    }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
-      dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
-      dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
+      dd->dc.pxarr = (int *)malloc((size_t)p_num * c_k * sizeof(int));
+      dd->dc.pyarr = (int *)malloc((size_t)p_num * c_n * sizeof(int));
       if ((dd->dc.pxarr == NULL) || (dd->dc.pyarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
@@ -536,7 +541,7 @@ dec_bpsk(
 
    if (dd->dc.ret_list) {
       x_candidates = (int *)mem_buf_ptr;
-      mem_buf_ptr += dd->dc.peak_lsiz * dd->c_k * sizeof(int);
+      mem_buf_ptr += (size_t)dd->dc.peak_lsiz * dd->c_k * sizeof(int);
    }
 
    // dec_input <-- 2 * c_out / sg^2.
diff --git a/polar_scl/polar_scl_inner.c b/polar_scl/polar_scl_inner.c
index 8eb68fd..ca16827 100644
--- a/polar_scl/polar_scl_inner.c
+++ b/polar_scl/polar_scl_inner.c
@@ -500,7 +500,7 @@ polar_dec(
     slist[i] = 0.0;
     lorder[i] = i;
     lind2xl[i] = xlist;
-    p1 = dd->pyarr + c_n * i;
+    p1 = dd->pyarr + (size_t)c_n * i;
     vp = YLISTP(i, c_m - 1) = YLIST_POP(c_m - 1);
     // TODO: Permutations are not usable with general Polar, but let's leave it as it is for now.
     for (j = 0; j < n2; j++) vp[j] = XOR_EST(y_in[p1[j]], y_in[p1[j + n2]]);
@@ -529,7 +529,7 @@ polar_dec(
     vp = YLISTP(cur_ind0, c_m - 1);
     up = YLISTP(cur_ind0, c_m - 1) = YLIST_POP(c_m - 1);
     // TODO: Permutations.
-    p1 = dd->pyarr + c_n * plist[cur_ind0];
+    p1 = dd->pyarr + (size_t)c_n * plist[cur_ind0];
     for (j = 0; j < n2; j++) {
       y1 = EST_XOR_YLDEC(y_in[p1[j]], vp[j]); // y1 <-- y_1[j] xor v[j].
       ADD_EST(y1, y_in[p1[j + n2]], up[j]); // y_u <-- y1 + y_2[j];
@@ -553,7 +553,7 @@ polar_dec(
     for (i = 0; i < cur_lsiz; i++) {
       vgetx(lorder[i], xtmp, c_k);
       // TODO: Permutations.
-      p1 = dd->pxarr + dd->c_k * plist[lorder[i]];
+      p1 = dd->pxarr + (size_t)dd->c_k * plist[lorder[i]];
       xp = x_dec + i * c_k;
       for (j = 0; j < c_k; j++) xp[p1[j]] = xtmp[j];
     }
@@ -575,7 +575,7 @@ polar_dec(
 
     vgetx(lorder[i1], xtmp, c_k);
     // TODO: Permutations.
-    p1 = dd->pxarr + dd->c_k * plist[lorder[i1]];
+    p1 = dd->pxarr + (size_t)dd->c_k * plist[lorder[i1]];
     for (j = 0; j < c_k; j++) x_dec[p1[j]] = xtmp[j];
 
     if (s_dec != NULL) {
-- 
2.43.0


From e76586a54da004d71556854206a57007436ffd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 24/34] fix: a request for more trials overflows for huge
 requirements

---
 simulators/sim_bg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index fe7b685..2aa9a3b 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -834,7 +834,8 @@ void sim_control(
 
   switch (ctrl_code) {
     case SIM_CTRL_CUR_MORE :
-      sim->trn_req[csnrn] += sim->trn_req[csnrn] / 2;
+      if (sim->trn_req[csnrn] < MAX_TRIALS_PER_SNR / 1.5) sim->trn_req[csnrn] += sim->trn_req[csnrn] / 2;
+      else sim->trn_req[csnrn] = (int)MAX(sim->trn_req[csnrn], MAX_TRIALS_PER_SNR);
       break;
     case SIM_CTRL_CUR_LESS :
       sim->trn_req[csnrn] -= sim->trn_req[csnrn] / 3;
-- 
2.43.0


From bde0055c79b3386f7d943630f50f26c300e53d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 25/34] fix: rm1_dec_sh and rm1_dec_lst clip very reliable
 symbols

---
 rm1_ml/rm1_ml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rm1_ml/rm1_ml.c b/rm1_ml/rm1_ml.c
index 2cc8fd5..4361184 100644
--- a/rm1_ml/rm1_ml.c
+++ b/rm1_ml/rm1_ml.c
@@ -55,6 +55,9 @@ int rm1_dec_sh(
    // Convert y_in to the epsilon format.
    for (i = 0; i < c_n; i++) {
       ylist[i] = -tanh(0.5 * y_in[i]);
+#ifdef FORMAT_USE_CLIPPING
+      FORMAT_CLIP(ylist[i]);
+#endif // FORMAT_USE_CLIPPING
    }
 #endif // FORMAT_EPS
 
@@ -158,6 +161,9 @@ int rm1_dec_lst(
    // Convert y_in to the epsilon format.
    for (i = 0; i < c_n; i++) {
       ylist[i] = -tanh(0.5 * y_in[i]);
+#ifdef FORMAT_USE_CLIPPING
+      FORMAT_CLIP(ylist[i]);
+#endif // FORMAT_USE_CLIPPING
    }
 #endif // FORMAT_EPS
 
-- 
2.43.0


From 1cf907b358c87ad0b1b56ba70ee14bb75327c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 26/34] fix: rm1_dec_lst limits the list before filling it

---
 rm1_ml/rm1_ml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rm1_ml/rm1_ml.c b/rm1_ml/rm1_ml.c
index 4361184..8c37e94 100644
--- a/rm1_ml/rm1_ml.c
+++ b/rm1_ml/rm1_ml.c
@@ -220,6 +220,8 @@ int rm1_dec_lst(
       n /= 2;
    }
 
+   if (lsiz > c_n) lsiz = c_n;
+   if (lsiz > 4096) lsiz = 4096;
    // Last end node (0, 0).
    for (j = 0; j < lsiz; j++) {
       sa[j] = -1e300;
@@ -240,8 +242,6 @@ int rm1_dec_lst(
    }
 
    // "Unpack" ja[] to get information bits.
-   if (lsiz > c_n) lsiz = c_n;
-   if (lsiz > 4096) lsiz = 4096;
    for (j = 0; j < lsiz; j++) {
       for (i = (j + 1) * (c_m + 1) - 1; i >= j * (c_m + 1); i--) {
          x_dec[i] = ja[j] & 1;
-- 
2.43.0


From 3dead65f3d036549c6f1c6ba25ef088ae6e6cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 27/34] fix: log likelihood ratio formats overflow for very
 reliable symbols

---
 formats/format_rho1.h | 14 +++++++++++---
 formats/format_rho5.h |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/formats/format_rho1.h b/formats/format_rho1.h
index 00d1223..6bb55a9 100644
--- a/formats/format_rho1.h
+++ b/formats/format_rho1.h
@@ -26,13 +26,18 @@
 
 #define FORMAT_RHO
 
+//-----------------------------------------------------------------------------
+// Includes.
+
+#include "../common/std_defs.h"
+
 #define STRONGEST_EST0 (1e300)
 
 #define YLDEC0 1.0
 #define YLDEC1 (-1.0)
 
-#define RHO1LOGP0(e) (-log(1.0 + exp(-(e))))
-#define RHO1LOGP1(e) (-log(1.0 + exp(e)))
+#define RHO1LOGP0(e) (((e) > 0.0) ? -log(1.0 + exp(-(e))) : (e) - log(1.0 + exp(e)))
+#define RHO1LOGP1(e) RHO1LOGP0(-(e))
 
 // True if estimate votes for 0.
 #define CHECK_EST0(y) ((y) > 0.0)
@@ -65,7 +70,10 @@
 // Convert estimate to log likelihood ratio.
 #define EST2LLR(e) (e)
 
-#define XOR_EST(y1, y2) log((1.0 + exp((y1) + (y2))) / (exp(y1) + exp(y2)))
+// log((1.0 + exp((y1) + (y2))) / (exp(y1) + exp(y2))) without overflow.
+#define XOR_EST(y1, y2) ( \
+   (((y1) > 0.0) == ((y2) > 0.0) ? 1.0 : -1.0) * MIN(ABSF(y1), ABSF(y2)) + \
+   log((1.0 + exp(-ABSF((y1) + (y2)))) / (1.0 + exp(-ABSF((y1) - (y2))))))
 //#define XOR_EST_ZZ(y1, y2) log((1.0 + exp((y1) + (y2))) / (exp(y1) + exp(y2)))
 //#define XOR_EST_PP(y1, y2) ((y1) + (y2))
 //#define XOR_EST_MM(y1, y2) ((y1) + (y2))
diff --git a/formats/format_rho5.h b/formats/format_rho5.h
index a95f835..2a79b93 100644
--- a/formats/format_rho5.h
+++ b/formats/format_rho5.h
@@ -38,8 +38,8 @@
 #define YLDEC0 1.0
 #define YLDEC1 (-1.0)
 
-#define RHO2LOGP0(e) (-log(1.0 + exp(-(e))))
-#define RHO2LOGP1(e) (-log(1.0 + exp(e)))
+#define RHO2LOGP0(e) (((e) > 0.0) ? -log(1.0 + exp(-(e))) : (e) - log(1.0 + exp(e)))
+#define RHO2LOGP1(e) RHO2LOGP0(-(e))
 
 // True if estimate votes for 0.
 #define CHECK_EST0(y) ((y) > 0.0)
-- 
2.43.0


From 36e92856231c54a6490ce743c439095971a287a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 28/34] fix: long program names overflow the message buffer

---
 common/ui_txt.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/common/ui_txt.c b/common/ui_txt.c
index 1ba6472..f260b4a 100644
--- a/common/ui_txt.c
+++ b/common/ui_txt.c
@@ -42,14 +42,11 @@ void msg_printf(
     ...
 )
 {
-   char str_buf[MSG_MAX_STR_LEN];
    va_list args;
 
    va_start(args, msgf);
-   vsprintf(str_buf, msgf, args);
+   vprintf(msgf, args);
    va_end(args);
-
-   printf("%s", str_buf);
 }
 
 void msg_flush(void) {
-- 
2.43.0


From 0b3cefac0394eac01ea8aa6dd1bdcd8755308597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 29/34] fix: dtrm1 reports success when the RM(1,m) decoder is
 short of memory

---
 dtrm/dtrm1.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index c5e9258..4620078 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -126,10 +126,10 @@ tri1_dec(
    // Decode u1.
    // [x_dec1, y_dec1] = dtrm01_she(r - 1, m - 1, y1 .* y2);
    for (i = 0; i < n2; i++) aux_buf[i] = y1[i] * y2[i];
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r - 1, m - 1, n2,
       y_dec1, x_dec, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) = cur_x_dec_len;
 
    // Decode u2.
@@ -137,10 +137,10 @@ tri1_dec(
    for (i = 0; i < n2; i++) y1[i] *= y_dec1[i];
    VADD_EST(y1, y2, aux_buf, n2);
    // ADD_EST_EPS(y1, y2, aux_buf, n2);
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r, m - 1, n2,
       y_dec2, x_dec + cur_x_dec_len, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) += cur_x_dec_len;
 
    // y_dec = [y_dec1 .* y_dec2, y_dec2];
@@ -314,7 +314,11 @@ dec_bpsk(
    for (i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] * dd->sg22;
    VY_TO_FORMAT(dec_input, dec_input, dd->c_n);
 
-   tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf);
+   if (tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf)) {
+      err_msg("dec_bpsk: Short of memory.");
+      free(mem_buf);
+      return -1;
+   }
 
    free(mem_buf);
 
-- 
2.43.0


From 68f8a7d88002ff6422c6151641b2287bac0bea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 30/34] fix: CRC aided encoder returns the code dimension,
 whether it succeeds or not

---
 polar_scl/ca_polar_scl_main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index ce570b3..295218b 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -488,6 +488,7 @@ enc_bpsk(
 {
    cdc_inst_type *dd;
    int *x_crc;
+   int rc;
 
    dd = (cdc_inst_type *)cdc;
 
@@ -499,9 +500,9 @@ enc_bpsk(
       }
       calc_crc(x, dd->eff_k, dd->crc, dd->crc_len, x_crc + dd->crc_len);
       memcpy(x_crc, x, dd->eff_k * sizeof(int));
-      smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
+      rc = smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
       free(x_crc);
-      return dd->eff_k;
+      return rc;
    }
    else {
       return smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x, y);
-- 
2.43.0


From b6086038c45ecda239eb3f73fe4cc6f51646d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 31/34] fix: first candidate is taken as valid when the CRC
 check is short of memory

---
 polar_scl/ca_polar_scl_main.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 295218b..f38d40d 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -106,7 +106,8 @@ int get_best_in_list(
   int x_len,
   int lsiz,
   int *crc,
-  int crc_len
+  int crc_len,
+  int *tmp // Buffer for x_len items.
 ) {
   if (crc_len <= 0) {
     return 0;
@@ -114,17 +115,11 @@ int get_best_in_list(
   else {
     int sum_len = x_len + crc_len;
     int i;
-    int *tmp = (int *)malloc(x_len * sizeof(int));
-    if (tmp == NULL) {
-      return 0;
-    }
     for (i = 0; i < lsiz; i++) {
       if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp)) {
-        free(tmp);
         return i;
       }
     }
-    free(tmp);
     return -1; // no candidates with valid CRC found
   }
 }
@@ -518,7 +513,7 @@ dec_bpsk(
 {
    cdc_inst_type *dd;
    double *dec_input;
-   int *x_candidates;
+   int *x_candidates, *crc_buf;
    uint8 *mem_buf, *mem_buf_ptr;
    size_t mem_buf_size;
    int best_ind;
@@ -529,6 +524,7 @@ dec_bpsk(
    mem_buf_size = dd->c_n * sizeof(double); // dec_input
    if (dd->dc.ret_list) {
       mem_buf_size += (size_t)dd->dc.peak_lsiz * dd->c_k * sizeof(int); // x_candidates
+      mem_buf_size += dd->eff_k * sizeof(int); // crc_buf
    }
    mem_buf = (uint8 *)malloc(mem_buf_size);
    if (mem_buf == NULL) {
@@ -543,6 +539,7 @@ dec_bpsk(
    if (dd->dc.ret_list) {
       x_candidates = (int *)mem_buf_ptr;
       mem_buf_ptr += (size_t)dd->dc.peak_lsiz * dd->c_k * sizeof(int);
+      crc_buf = (int *)mem_buf_ptr;
    }
 
    // dec_input <-- 2 * c_out / sg^2.
@@ -550,7 +547,7 @@ dec_bpsk(
 
    if (dd->dc.ret_list) {
       polar_dec(&(dd->dc), dec_input, x_candidates, NULL);
-      best_ind = get_best_in_list(x_candidates, dd->eff_k, dd->dc.peak_lsiz, dd->crc, dd->crc_len);
+      best_ind = get_best_in_list(x_candidates, dd->eff_k, dd->dc.peak_lsiz, dd->crc, dd->crc_len, crc_buf);
 #ifdef DBG
       printf("best_ind: %d\n", best_ind);
 #endif
-- 
2.43.0


From b4b95ae7b4d99ba12c990da8a7229cf9a40b4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 32/34] fix: variable list decoder compares with garbage when
 encoding fails

---
 dtrm_glp/dtrm_glp_main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 5196174..6721a39 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -500,7 +500,10 @@ dec_bpsk(
          for (j = 0; j < dd->dc.node_table_len; j++)
             dd->dc.node_table[j] = (dd->dc.node_table[j] == 0) ? 0 : dd->lsiz[i];
          rm_dec(&(dd->dc), dec_input, x_dec, NULL);
-         enc_bpsk(cdc, x_dec, y_dec);
+         if (enc_bpsk(cdc, x_dec, y_dec)) {
+            free(mem_buf);
+            return -1;
+         }
          d1 = 0.0;
          // d1 <-- dist(dec_input, y_dec).
          for (j = 0; j < dd->c_n; j++)
-- 
2.43.0


From 9afd69fdef7a1ac7f001beb8ec8bc162ab3433b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 33/34] fix: failed encodings and decodings are counted as
 trials

---
 simulators/sim_bg.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 2aa9a3b..4d6e865 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -375,6 +375,7 @@ int sim_run(
   double *c_in; // Channel input.
   double *c_out; // Channel output.
   time_t start_time;
+  sim_point pt; // Current point before the trial.
   int en = 0;
   int i;
 
@@ -394,7 +395,7 @@ int sim_run(
   c_out = (double *)malloc(c_n * sizeof(double));
   if ((x == NULL) || (x_dec == NULL) || (c_in == NULL) || (c_out == NULL)) {
     err_msg("sim_bg run error: short of memory.");
-    return RC_ERROR;
+    goto ret_err;
   }
 
   // Main simulation loop.
@@ -414,12 +415,16 @@ int sim_run(
 
     while (sim->pt[csnrn].trn < sim->trn_req[csnrn]) {
 
+      pt = sim->pt[csnrn];
       sim->pt[csnrn].trn++;
 
       // Generate random or zero code word.
       if (sim->use_rndcw) {
         for (i = 0; i < c_k; i++) x[i] = (RND > 0.5) ? 1 : 0;
-        enc_bpsk(sim->dc_inst, x, c_in);
+        if (enc_bpsk(sim->dc_inst, x, c_in) != RC_OK) {
+          err_msg("sim_bg run error: error while encoding.");
+          goto ret_err_trn;
+        }
       }
       else {
         for (i = 0; i < c_k; i++) x[i] = 0;
@@ -435,7 +440,7 @@ int sim_run(
       int rc = dec_bpsk(sim->dc_inst, c_out, x_dec);
       if (rc == RC_ERROR) {
         err_msg("sim_bg run error: error while decoding.");
-        return RC_ERROR;
+        goto ret_err_trn;
       }
 
       // Count the number of incorrect information bits.
@@ -461,7 +466,10 @@ int sim_run(
         // d1 <-- dist(c_in, c_out).
         for (i = 0; i < c_n; i++) d1 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         // d2 <-- dist[encode(x_dec), c_out].
-        enc_bpsk(sim->dc_inst, x_dec, c_in);
+        if (enc_bpsk(sim->dc_inst, x_dec, c_in) != RC_OK) {
+          err_msg("sim_bg run error: error while encoding.");
+          goto ret_err_trn;
+        }
         for (i = 0; i < c_n; i++) d2 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         if (d1 > d2) sim->pt[csnrn].enml_bl++;
       }
@@ -487,6 +495,17 @@ int sim_run(
   free(x);
 
   return RC_OK;
+
+ret_err_trn:
+  // The trial has not been completed.
+  sim->pt[csnrn] = pt;
+ret_err:
+  free(c_out);
+  free(c_in);
+  free(x_dec);
+  free(x);
+
+  return RC_ERROR;
 }
 
 // Return short simulation status string.
-- 
2.43.0


From 6767e39a6fe43a6fc52ef17df70906ed5a886130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:26 +0000
Subject: [PATCH 34/34] fix: release the file and memory before reporting a
 reading error (err_msg does not return in Octave/Matlab)

---
 common/spf_par.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 0ca7cf0..a27abab 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -108,21 +108,21 @@ spf_read_preparse_ext(
    }
    str1 = (char *)malloc(SP_STR_MAX * 3);
    if (str1 == NULL) {
-      err_msg("spf_read_preparse(): short of memory.");
       fclose(sp_file);
+      err_msg("spf_read_preparse(): short of memory.");
       return RC_ERROR;
    }
    str2 = str1 + SP_STR_MAX;
    if ((i1 = fread(str1, 1, SP_STR_MAX, sp_file)) == 0) {
-      err_msg("spf_read_preparse(): can't read file.");
       free(str1);
       fclose(sp_file);
+      err_msg("spf_read_preparse(): can't read file.");
       return RC_ERROR;
    }
    fclose(sp_file);
    if (i1 >= SP_STR_MAX - 1) {
-      err_msg("spf_read_preparse(): file is too huge.");
       free(str1);
+      err_msg("spf_read_preparse(): file is too huge.");
       return RC_ERROR;
    }
    // The last token must be followed by a separator too.
@@ -132,8 +132,8 @@ spf_read_preparse_ext(
    // Allocate future sp_str.
    sp_str = (char *)malloc(SP_STR_MAX);
    if (sp_str == NULL) {
-      err_msg("spf_read_preparse(): short of memory!");
       free(str1);
+      err_msg("spf_read_preparse(): short of memory!");
       return RC_ERROR;
    }
    sp_str_len = 0;
@@ -149,9 +149,9 @@ spf_read_preparse_ext(
 
       // Up to 3 separators and the terminating 0 are added to a token.
       if (sp_str_len + strlen(token) + 4 > SP_STR_MAX) {
-         err_msg("spf_read_preparse(): file is too huge.");
          free(sp_str);
          free(str1);
+         err_msg("spf_read_preparse(): file is too huge.");
          return RC_ERROR;
       }
 
@@ -159,29 +159,29 @@ spf_read_preparse_ext(
       if (strcmp(token, include_token) == 0) {
          token = strtok(NULL, token_seps);
          if (token == NULL) {
-            err_msg("spf_read_preparse(): include file name is not specified.");
             free(sp_str);
             free(str1);
+            err_msg("spf_read_preparse(): include file name is not specified.");
             return RC_ERROR;
          }
          if ((sp_file = fopen(token, "rb")) == NULL) {
-            err_msg("spf_read_preparse(): can't open include file.");
             free(sp_str);
             free(str1);
+            err_msg("spf_read_preparse(): can't open include file.");
             return RC_ERROR;
          }
          if ((i1 = fread(str1, 1, SP_STR_MAX - 1, sp_file)) == 0) {
-            err_msg("spf_read_preparse(): can't read include file.");
             fclose(sp_file);
             free(sp_str);
             free(str1);
+            err_msg("spf_read_preparse(): can't read include file.");
             return RC_ERROR;
          }
          fclose(sp_file);
          if (i1 >= SP_STR_MAX - 1) {
-            err_msg("spf_read_preparse(): file is too huge.");
             free(sp_str);
             free(str1);
+            err_msg("spf_read_preparse(): file is too huge.");
             return RC_ERROR;
          }
          // Close a comment in the last line if any.
@@ -189,9 +189,9 @@ spf_read_preparse_ext(
          str1[i1] = 0;
          i1 = strcpy_strip_comments(str1, i1, 1, str1);
          if (i1 + str2_len >= SP_STR_MAX) {
-            err_msg("spf_read_preparse(): file is too huge.");
             free(sp_str);
             free(str1);
+            err_msg("spf_read_preparse(): file is too huge.");
             return RC_ERROR;
          }
          // Insert the file instead of the include command.
-- 
2.43.0

