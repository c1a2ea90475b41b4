From 1e550e90cd23836fa1e436df4192c43a69098c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 01/61] fix: store the thermal band of every observation in the
 sparse-pixel fallback

The thermal value was written at n_sn (always 0 in this branch), so all but
the first thermal value that the model is fitted to were uninitialised memory.
---
 src/cxx/cold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 8ff799a..c81b15f 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5183,10 +5183,10 @@ int inefficientobs_procedure
                         clry[k][n_clr] = (float)buf_s2[i];
                     else if(k == 6){
                         if (b_c2 == TRUE){
-                            clry[k][n_sn] = 0;
+                            clry[k][n_clr] = 0;
                         }
                         else{
-                            clry[k][n_sn] = (float)(buf_t[i] * 10 - 27320);
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
                         }
                    }
                 }
-- 
2.43.0


From b5a35cb5a204173f9eaea5b8f75d87e328642ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 02/61] fix: keep the green band in date order in the
 sparse-pixel fallback

Its median was computed by sorting the band in place, so the haze filter and
the model fit used green values attached to the wrong dates.
---
 src/cxx/cold.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index c81b15f..d592018 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5206,8 +5206,11 @@ int inefficientobs_procedure
 
         n_clr = 0;
         float band2_median; // probably not good practice to declare here....
-        quick_sort_float(clry[1], 0, end - 1);
-        matlab_2d_float_median(clry, 1, end, &band2_median);
+        // the median needs sorted values: sort a copy, clry must stay aligned with clrx
+        for (i = 0; i < end; i++)
+            temp_v_dif[1][i] = clry[1][i];
+        quick_sort_float(temp_v_dif[1], 0, end - 1);
+        matlab_2d_float_median(temp_v_dif, 1, end, &band2_median);
 
         n_clr = 0;
         for (i = 0; i < end; i++)
-- 
2.43.0


From 862fa07d59dafd6a2ab871af1b29b404af922d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 03/61] fix: fit each band of a snow pixel against the dates of
 its own values

Saturated values were dropped band by band while the date array shared by all
bands was compacted too, so later bands were fitted against wrong dates.
---
 src/cxx/cold.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index d592018..fbc34b5 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -4868,6 +4868,7 @@ int inefficientobs_procedure
     int i_start;
     int i_span;
     int *clrx;                       /* clear pixel curve in X direction (date)    */
+    int *clrx_b;                     /* dates of the unsaturated values of a band  */
     float **clry;                    /* clear pixel curve in Y direction (spectralbands)    */
     float **fit_cft;                 /* Fitted coefficients 2-D array.        */
     float *rmse;                     /* Root Mean Squared Error array.        */
@@ -5002,6 +5003,12 @@ int inefficientobs_procedure
 
         i_start = 1; /* the first observation for TSFit */
 
+        clrx_b = malloc(end * sizeof(int));
+        if (clrx_b == NULL)
+        {
+            RETURN_ERROR("ERROR allocating clrx_b memory", FUNC_NAME, FAILURE);
+        }
+
         /**********************************************************/
         /*                                                        */
         /* Treat saturated and unsaturated pixels differently.    */
@@ -5018,7 +5025,7 @@ int inefficientobs_procedure
                 {
                     if (clry[k][i] > 0.0 && clry[k][i] < 10000.0)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_b[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
@@ -5031,7 +5038,7 @@ int inefficientobs_procedure
                 }
                 else
                 {
-                    status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                    status = auto_ts_fit_float(clrx_b, clry, k, k, 0, i_span-1, MIN_NUM_C,
                              fit_cft, &rmse[k], temp_v_dif);
 
                     if (status != SUCCESS)
@@ -5047,13 +5054,13 @@ int inefficientobs_procedure
                     //printf("clry: %f\n", (float)clry[k][i]);
                     if (clry[k][i] > -9320 && clry[k][i] < 7070)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_b[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
                  }
 
-                status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                status = auto_ts_fit_float(clrx_b, clry, k, k, 0, i_span-1, MIN_NUM_C,
                          fit_cft, &rmse[k], temp_v_dif);
 
                 if (status != SUCCESS)
@@ -5062,7 +5069,7 @@ int inefficientobs_procedure
 
               }
         }
-
+        free(clrx_b);
 
         /**********************************************************/
         /*                                                        */
-- 
2.43.0


From 45e3141a99bad9296cab57043a65b6c9fd3a966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 04/61] fix: do not fit the thermal band of a snow pixel
 without usable thermal values

With none in range the fit ran on zero observations and reported uninitialised
coefficients; the optical bands already have this guard.
---
 src/cxx/cold.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index fbc34b5..c35b2df 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5060,12 +5060,19 @@ int inefficientobs_procedure
                     }
                  }
 
-                status = auto_ts_fit_float(clrx_b, clry, k, k, 0, i_span-1, MIN_NUM_C,
-                         fit_cft, &rmse[k], temp_v_dif);
+                if (i_span < MIN_NUM_C * N_TIMES){
+                    for(i = 0; i < MAX_NUM_C; i++) // no usable thermal values
+                        fit_cft[k][i] = 0;
+                }
+                else
+                {
+                    status = auto_ts_fit_float(clrx_b, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                             fit_cft, &rmse[k], temp_v_dif);
 
-                if (status != SUCCESS)
-                    RETURN_ERROR ("Calling auto_ts_fit_float\n",
-                           FUNC_NAME, EXIT_FAILURE);
+                    if (status != SUCCESS)
+                        RETURN_ERROR ("Calling auto_ts_fit_float\n",
+                               FUNC_NAME, EXIT_FAILURE);
+                }
 
               }
         }
-- 
2.43.0


From 8126388678142928cc32a24a180392f992340334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 05/61] fix: count the observations of early and reconstructed
 segments correctly

num_obs is the number of observations used for the model; the segment before
the first stable window and every reconstructed segment reported one more.
---
 src/cxx/cold.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index c35b2df..44d01e0 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -1305,7 +1305,7 @@ int stand_procedure_fixeddays
                     rec_cg[*num_fc].category = 10 + MIN_NUM_C;
                     rec_cg[*num_fc].change_prob = 100;
                     rec_cg[*num_fc].t_start = clrx[0];
-                    rec_cg[*num_fc].num_obs = i_start - i_dense + 1;  //SY 09182018
+                    rec_cg[*num_fc].num_obs = i_start - i_dense;  //SY 09182018
 
 //                    if ((i_start - 1 + adj_conse) < end)
 //                        rec_cg[*num_fc].t_confirmed = clrx[i_start + adj_conse - 1];
@@ -3704,7 +3704,7 @@ int stand_procedure
                     rec_cg[*num_fc].category = 10 + MIN_NUM_C;
                     rec_cg[*num_fc].change_prob = 100;
                     rec_cg[*num_fc].t_start = clrx[i_dense-1];
-                    rec_cg[*num_fc].num_obs = i_start - i_dense + 1;  //SY 09182018
+                    rec_cg[*num_fc].num_obs = i_start - i_dense;  //SY 09182018
 
 //                    if ((i_start - 1 + adj_conse) < end)
 //                        rec_cg[*num_fc].t_confirmed = clrx[i_start + adj_conse - 1];
@@ -5790,7 +5790,7 @@ int obcold_reconstruction_procedure
             rec_cg[*num_fc].t_end = clrx[i_break - 1];
 
             // rec_cg[*num_fc].t_confirmed = 0;
-            rec_cg[*num_fc].num_obs = i_break - i_last_break + 1;
+            rec_cg[*num_fc].num_obs = i_break - i_last_break;
             rec_cg[*num_fc].category = 0 + update_num_c;
 
             /* note that each time we calculate change magnitude for the last curve, not current curve*/
-- 
2.43.0


From 8cb076f9a8143ebf3c1f62bf36a61d6454ea0be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 06/61] fix: clamp the cosine in MeanAngl_float

Consecutive residual vectors that are parallel could round to a cosine above 1,
acosf then gave NaN and a change confirmed by every threshold was not reported.
---
 src/cxx/misc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 97c4a0b..afa0800 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -3030,7 +3030,13 @@ float MeanAngl_float
                 norm1 += v_diff[j][i] * v_diff[j][i];
                 norm2 += v_diff[j][i+1] * v_diff[j][i+1];
             }
-            tmp = acosf(product / (sqrtf(norm1) * sqrtf(norm2)));
+            tmp = product / (sqrtf(norm1) * sqrtf(norm2));
+            // rounding may push the cosine of parallel vectors just outside [-1, 1]
+            if (tmp > 1)
+                tmp = 1;
+            else if (tmp < -1)
+                tmp = -1;
+            tmp = acosf(tmp);
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
-- 
2.43.0


From ab16b130adc099e3a172876c94792b3ef572866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 07/61] fix: set the snow share before the sparse-pixel
 fallback of obcold

---
 src/cxx/cold.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 44d01e0..5c92805 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5518,6 +5518,8 @@ int obcold_reconstruction_procedure
         RETURN_ERROR("Error for preprocessing.", FUNC_NAME, ERROR);
     }
 
+    sn_pct = (float) sn_sum/ (float) (sn_sum + clear_sum + 0.01);
+
     for (i = 0; i < valid_num_scenes; i++)
     {
         if ((fmask_buf[i] < 2) && (id_range[i] == 1))
-- 
2.43.0


From c33235120f8e14b6af56cdd3bbae971f6d184cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 08/61] fix: give find_index_clrx a defined result for an empty
 series

---
 src/cxx/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/utilities.c b/src/cxx/utilities.c
index c416b4c..b0e1b02 100644
--- a/src/cxx/utilities.c
+++ b/src/cxx/utilities.c
@@ -1115,7 +1115,7 @@ int find_index_clrx
     int i;
     bool find_success = FALSE;
     int min_abs_diff = 9999999;
-    int minabsdiff_i_record ;
+    int minabsdiff_i_record = 0;
     for(i = 0; i < end; i++){
         if (clrx[i] == input_ordinal_date){
            find_success = TRUE;
-- 
2.43.0


From f1684beac9297c0cc7e45b1ca47ef86075ba340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 09/61] fix: set the variogram of every band for series of at
 most one observation

---
 src/cxx/misc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index afa0800..9e26e00 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -109,18 +109,20 @@ int adjust_median_variogram
        for(i = 0; i < dim1_len; i++)
        {
            output_array[i] = 0;
+       }
        *date_vario = 0;
+       *max_neighdate_diff = 0;
        return (SUCCESS);
-       }
     }
     if (dim2_len == 1)
     {
         for (i = 0; i < dim1_len; i++)
         {
             output_array[i] = array[i][dim2_start];
-            *date_vario = clrx[dim2_start];
-            return (SUCCESS);
         }
+        *date_vario = clrx[dim2_start];
+        *max_neighdate_diff = 0;
+        return (SUCCESS);
     }
 
     var = (float*)malloc((dim2_len-1) * sizeof(float));
-- 
2.43.0


From 2185634c8bd57fa43ee7a6a59827062e21196a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 10/61] fix: size the record buffer of COLD for the series
 instead of reallocating numpy memory

---
 src/cxx/cold.c                      | 106 ----------------------------
 src/python/pycold/_colds_cython.pyx |   6 +-
 2 files changed, 4 insertions(+), 108 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 5c92805..6843565 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -1354,21 +1354,6 @@ int stand_procedure_fixeddays
                     /**********************************************/
 
                     *num_fc = *num_fc + 1;
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
-                    }
                 }
             } /* end of initializing model */
 
@@ -2032,21 +2017,6 @@ int stand_procedure_fixeddays
 
                     *num_fc = *num_fc + 1;
 
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
-                    }
 
                     /**********************************************/
                     /*                                            */
@@ -2462,21 +2432,6 @@ int stand_procedure_fixeddays
              }
 
             //*num_fc = *num_fc + 1;
-            if (*num_fc >= NUM_FC)
-            {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
-            }
         }else{
            *num_fc = *num_fc - 1;
         }
@@ -3754,21 +3709,6 @@ int stand_procedure
                     /**********************************************/
 
                     *num_fc = *num_fc + 1;
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
-                    }
                 }
             } /* end of initializing model */
 
@@ -4353,21 +4293,6 @@ int stand_procedure
 
                     *num_fc = *num_fc + 1;
 
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
-                    }
 
                     /**********************************************/
                     /*                                            */
@@ -4704,21 +4629,6 @@ int stand_procedure
              }
 
             //*num_fc = *num_fc + 1;
-            if (*num_fc >= NUM_FC)
-            {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
-            }
         }else{
            *num_fc = *num_fc - 1;
         }
@@ -5148,22 +5058,6 @@ int inefficientobs_procedure
         }
 
 
-        if (*num_fc >= NUM_FC)
-        {
-
-            /******************************************************/
-            /*                                                    */
-            /* Reallocate memory for rec_cg.                      */
-            /*                                                    */
-            /******************************************************/
-
-            rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-            if (rec_cg == NULL)
-            {
-                RETURN_ERROR("ERROR allocating rec_cg memory",
-                             FUNC_NAME, FAILURE);
-            }
-        }
     }  // if sn_pct > T_SN
 
     else
diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 1add35a..d1594f3 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -172,7 +172,9 @@ cpdef _cold_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates, np.ndarray[np
     # allocate memory for rec_cg
     cdef int num_fc = 0
     cdef Output_t t
-    rec_cg = np.zeros(NUM_FC, dtype=reccg_dt)
+    # a break is followed by a new initialization of at least twelve observations, which may leave
+    # one early segment besides the regular one
+    rec_cg = np.zeros(max(NUM_FC, valid_num_scenes // 6 + 2), dtype=reccg_dt)
 
     cdef long [:] dates_view = dates
     cdef long [:] ts_b_view = ts_b
@@ -258,7 +260,7 @@ cpdef _obcold_reconstruct(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
     # allocate memory for rec_cg
     cdef int num_fc = 0
     cdef Output_t t
-    rec_cg = np.zeros(NUM_FC, dtype=reccg_dt)
+    rec_cg = np.zeros(max(NUM_FC, break_date_len + 1), dtype=reccg_dt)
 
     cdef long [:] dates_view = dates
     cdef long [:] ts_b_view = ts_b
-- 
2.43.0


From 7709b4e4d2e245bb1d0ac68e522429984438407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 11/61] fix: do not take the unused observation slots of the
 nrt model for observations in sccd_update

---
 src/cxx/s_ccd.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 82fd1f0..c33c8d2 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -167,6 +167,9 @@ int sccd(
         //  if monitor mode, will append output_nrtmodel default conse-1 obs
         for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
         {
+            // only the first 'conse' slots are in use, the others are padded with zeros
+            if ((k > 0) && (nrt_model->obs_date_since1982[k] == 0))
+                break;
             for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
             {
                 clry[i_b][k] = nrt_model->obs[i_b][k];
@@ -174,6 +177,10 @@ int sccd(
             clrx[k] = nrt_model->obs_date_since1982[k] + ORDINAL_LANDSAT4_LAUNCH;
             n_clr++;
         }
+        if (n_clr < conse)
+        {
+            RETURN_ERROR("The inputted conse is longer than the observations kept in the nrt model", FUNC_NAME, ERROR);
+        }
     }
 
     n_clr_record = n_clr;
-- 
2.43.0


From d59823c536881d3527793a0fdb96ff4684b6815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 12/61] fix: skip observations of S-CCD that are not newer than
 those already taken

---
 src/cxx/s_ccd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index c33c8d2..f175992 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -203,7 +203,7 @@ int sccd(
             if ((fmask_buf[i] < 2) && (id_range[i] == 1))
             {
                 // remain the first element for replicated date
-                if ((n_clr > 0) && (valid_date_array[i] == clrx[n_clr - 1]))
+                if ((n_clr > 0) && (valid_date_array[i] <= clrx[n_clr - 1]))
                     continue;
                 else
                 {
@@ -263,7 +263,7 @@ int sccd(
             if ((fmask_buf[i] == CFMASK_SNOW) || (fmask_buf[i] < 2))
             {
                 // remain the first element for replicated date
-                if ((n_clr > 0) && (valid_date_array[i] == clrx[n_clr - 1]))
+                if ((n_clr > 0) && (valid_date_array[i] <= clrx[n_clr - 1]))
                     continue;
                 else
                 {
-- 
2.43.0


From 7a038767ee21a36c47b4b4e7186a872ac25a69c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 13/61] fix: keep the newest observation when the S-CCD queue
 is full

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index f175992..b7b63e2 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -2513,7 +2513,7 @@ int step3_processing_end(
         *num_obs_queue = *n_clr - prev_i_break;
         if (*num_obs_queue > MAX_OBS_QUEUE)
         {
-            istart_queue = *n_clr - 1 - MAX_OBS_QUEUE;
+            istart_queue = *n_clr - MAX_OBS_QUEUE;
             *num_obs_queue = MAX_OBS_QUEUE;
         }
         else
-- 
2.43.0


From 01bbb58d1dcd0e766ef299dd75f3b535201a9e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 14/61] fix: do not read before the first observation for the
 magnitude of an early S-CCD segment

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index b7b63e2..08e427d 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1351,7 +1351,7 @@ int step1_cold_initialize(
             }
         }
 
-        ini_conse = conse;
+        ini_conse = min(conse, *i_start - *i_dense);
 
         v_dif_magg = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD,
                                                  ini_conse, sizeof(float));
-- 
2.43.0


From ac8720792b6a354c0e4ce946a2b45fdc6e854fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 15/61] fix: do not overwrite the min_rmse of the pack passed
 to sccd_update

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index d1594f3..3c03c5c 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -486,7 +486,7 @@ cpdef _sccd_update(sccd_pack,
     else:
         nrt_model_new = np.empty(1, dtype=nrtmodel_dt)
 
-    min_rmse = sccd_pack.min_rmse
+    min_rmse = sccd_pack.min_rmse.copy()
 
     # memory view
     cdef Output_sccd [:] rec_cg_view = rec_cg_new
-- 
2.43.0


From 5298afb355fdc7ab4d71e0ccccee4bf619840f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 16/61] fix: do not read past the last observation when
 recording a pinpoint

---
 src/cxx/s_ccd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 08e427d..7965191 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1886,9 +1886,9 @@ int step2_KF_ChangeDetection(
                     {
                         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         {
-                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (short int)clry[i_b][cur_i + k];
+                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (cur_i + k < *n_clr) ? (short int)clry[i_b][cur_i + k] : 0;
                         }
-                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH);
+                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = (cur_i + k < *n_clr) ? (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH) : 0;
                     }
                     for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                     {
-- 
2.43.0


From f5b0e735b60556ba3adb864ffbf7b67fd60386ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 17/61] fix: keep the yearly pinpoint index of S-CCD inside its
 array for dates before 1982

---
 src/cxx/s_ccd.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 7965191..7870f6f 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1835,7 +1835,7 @@ int step2_KF_ChangeDetection(
     {
         if (i_conse >= PINPOINT_CONSE)
         { // meaning that over 3 anomaly pixel
-            current_CM_n = (clrx[cur_i] - ORDINAL_DATE_1982_1_1) / AVE_DAYS_IN_A_YEAR;
+            current_CM_n = max((clrx[cur_i] - ORDINAL_DATE_1982_1_1) / AVE_DAYS_IN_A_YEAR, 0);
             if (CM_outputs[current_CM_n] == 0)
             { // meaning that hasn't been assigned with pinpoint
                 current_pinpoint = *num_fc_pinpoint;
@@ -2605,8 +2605,7 @@ int sccd_standard(
     short int cm_angle_scale100 = 0;
     short int norm_cm_scale100 = NA_VALUE; /* I/O: maximum change magnitudes at every norm_cm_INTERVAL days */
     short int norm_cm_date = NA_VALUE;     /* I/O: dates for maximum change magnitudes at every norm_cm_INTERVAL days */
-    int n_cm = (clrx[n_clr - 1] - ORDINAL_DATE_1982_1_1) / AVE_DAYS_IN_A_YEAR + 1;
-    ;
+    int n_cm = max((clrx[n_clr - 1] - ORDINAL_DATE_1982_1_1) / AVE_DAYS_IN_A_YEAR, 0) + 1;
     float *CM_outputs;
     bool change_detected = FALSE; // change_detected is only used to mark change to be detected for online mode
 
-- 
2.43.0


From d1be6982aff167ec6f607f8df6d67887717b613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 18/61] fix: reject a conse beyond the slots of the nrt model
 in sccd_update

---
 src/cxx/s_ccd.c                     | 2 +-
 src/python/pycold/_colds_cython.pyx | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 7870f6f..fcf8b9d 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -3031,7 +3031,7 @@ int sccd_standard(
             }
             else if (*nrt_mode % 10 == NRT_MONITOR2QUEUE)
             {
-                if (clrx[n_clr - conse] - nrt_model->obs_date_since1982[0] - ORDINAL_LANDSAT4_LAUNCH < STATUS_DELEY_DAYS)
+                if (clrx[max(n_clr - conse, 0)] - nrt_model->obs_date_since1982[0] - ORDINAL_LANDSAT4_LAUNCH < STATUS_DELEY_DAYS)
                 {
                     prev_i_break = 0;
                 }
diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 3c03c5c..eb3026f 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -458,6 +458,9 @@ cpdef _sccd_update(sccd_pack,
             nrt_queue: obs queue if queue mode, empty if monitor mode
     """
 
+    if conse > DEFAULT_CONSE:
+        raise RuntimeError("The inputted conse is longer than the maximum conse for S-CCD: {}".format(DEFAULT_CONSE))
+
     cdef int valid_num_scenes = qas.shape[0]
     # allocate memory for rec_cg
     # cdef int num_fc = 0
-- 
2.43.0


From 4dc53d6f3d8daa811b937c0d9deb892425e27ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 19/61] fix: size the record buffers of S-CCD for the series

---
 src/python/pycold/_colds_cython.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index eb3026f..2a43d04 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -338,10 +338,12 @@ cpdef _sccd_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
     cdef int num_fc = 0
     cdef int num_nrt_queue = 0
     cdef int num_fc_pinpoint = 0
-    rec_cg = np.zeros(NUM_FC_SCCD, dtype=sccd_dt)
+    # every segment but the first starts with an initialization of at least twelve observations
+    rec_cg = np.zeros(max(NUM_FC_SCCD, valid_num_scenes // 6 + 2), dtype=sccd_dt)
     nrt_queue = np.zeros(NUM_NRT_QUEUE, dtype=nrtqueue_dt)
     nrt_model = np.zeros(1, dtype=nrtmodel_dt)
-    rec_cg_pinpoint = np.zeros(NUM_FC_SCCD, dtype=pinpoint_dt)
+    # at most one pinpoint per year
+    rec_cg_pinpoint = np.zeros(max(NUM_FC_SCCD, (dates[-1] - dates[0]) // 365 + 2), dtype=pinpoint_dt)
     cdef int nrt_mode = 0
 
     if dates[-1] - dates[0] < 365.25:
@@ -476,7 +478,7 @@ cpdef _sccd_update(sccd_pack,
     cdef Output_sccd_pinpoint* rec_cg_pinpoint = <Output_sccd_pinpoint*> PyMem_Malloc(sizeof(t4))
 
     # grab inputs from the input
-    rec_cg_new = np.empty(NUM_FC_SCCD, dtype=sccd_dt)
+    rec_cg_new = np.empty(max(NUM_FC_SCCD, num_fc + (num_nrt_queue + valid_num_scenes) // 6 + 2), dtype=sccd_dt)
     if num_fc > 0:
         rec_cg_new[0:num_fc] = sccd_pack.rec_cg[0:num_fc]
 
-- 
2.43.0


From 8f6a858946955a7e54855fb6854fc87e626ef6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 20/61] fix: return the pinpoint tuple of S-CCD for pixels
 without observations too

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 2a43d04..2d2e9d5 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -411,7 +411,7 @@ cpdef _sccd_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
                                    SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             elif nrt_mode == 0:  # void mode
                 return [SccdOutput(pos, np.array([]), min_rmse, nrt_mode, np.array([]),
-                                   np.array([])), output_rec_cg_pinpoint]
+                                   np.array([])), SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             else:
                 raise RuntimeError("No correct nrt_mode (mode={}) returned for pos = {} ".format(nrt_mode, pos))
 
-- 
2.43.0


From 47f2f930742fbf40adf2434a014166686276bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 21/61] fix: reject change-magnitude outputs that do not cover
 the dates instead of writing out of bounds

---
 src/python/pycold/_colds_cython.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 2d2e9d5..2870322 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -195,6 +195,10 @@ cpdef _cold_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates, np.ndarray[np
            starting_date = dates[0]
         if n_cm == 0:
            n_cm = math.ceil((dates[valid_num_scenes-1] - starting_date + 1) / cm_output_interval) + 1
+        if cm_output_interval < 0 or starting_date > dates[0] or \
+                (dates[valid_num_scenes-1] - starting_date) // cm_output_interval >= n_cm:
+            raise ValueError("The change magnitude outputs (starting_date={}, n_cm={}, cm_output_interval={}) do not cover "
+                             "the input dates for pos = {}".format(starting_date, n_cm, cm_output_interval, pos))
         cm_outputs = np.full(n_cm, -9999, dtype=np.short)
         cm_outputs_date = np.full(n_cm, -9999, dtype=np.short)
     # set the length to 1 to save memory, as they won't be assigned values
-- 
2.43.0


From 06cfe91f0a8e96919d4cb594d849da0e9a17cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:45 +0000
Subject: [PATCH 22/61] fix: free the working buffers when an input is rejected

---
 src/cxx/cold.c  | 34 ++++++++++++++++++----------------
 src/cxx/s_ccd.c |  6 ++++++
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 6843565..3d1e7c5 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -124,14 +124,14 @@ int cold
         return (SUCCESS);
     }
 
-    id_range = (int*)calloc(valid_num_scenes, sizeof(int));
-
     // check if valid_date_array is sorted
     for (i = 0; i < valid_num_scenes - 1; i++)
         if (valid_date_array[i] > valid_date_array[i+1]){
             RETURN_ERROR("The inputted data does not follow an ascending order!", FUNC_NAME, ERROR);
         }
 
+    id_range = (int*)calloc(valid_num_scenes, sizeof(int));
+
     status = preprocessing(buf_b, buf_g, buf_r, buf_n, buf_s1, buf_s2, buf_t,
                            fmask_buf, &valid_num_scenes, id_range, &clear_sum,
                            &water_sum, &shadow_sum, &sn_sum, &cloud_sum, b_c2);
@@ -139,6 +139,7 @@ int cold
 
     if (status != SUCCESS)
     {
+        free(id_range);
         RETURN_ERROR("Error for preprocessing.", FUNC_NAME, ERROR);
     }
 
@@ -5352,8 +5353,23 @@ int obcold_reconstruction_procedure
     if(valid_num_scenes == 0){
         return (SUCCESS);
     }
+    // check if validate_date_array follow a ascending order
+    for (i = 0; i < valid_num_scenes - 1; i++)
+        if (valid_date_array[i] > valid_date_array[i+1]){
+            RETURN_ERROR("The inputted data does not follow an ascending order!", FUNC_NAME, ERROR);
+        }
+
     id_range = (int*)calloc(valid_num_scenes, sizeof(int));
 
+    status = preprocessing(buf_b, buf_g, buf_r, buf_n, buf_s1, buf_s2, buf_t,
+                           fmask_buf, &valid_num_scenes, id_range, &clear_sum,
+                           &water_sum, &shadow_sum, &sn_sum, &cloud_sum, b_c2);
+    if (status != SUCCESS)
+    {
+        free(id_range);
+        RETURN_ERROR("Error for preprocessing.", FUNC_NAME, ERROR);
+    }
+
     for (k = 0; k < TOTAL_IMAGE_BANDS; k++)
     {
             min_rmse[k] = 0.0;
@@ -5386,12 +5402,6 @@ int obcold_reconstruction_procedure
 
     n_clr = 0;
 
-    // check if validate_date_array follow a ascending order
-    for (i = 0; i < valid_num_scenes - 1; i++)
-        if (valid_date_array[i] > valid_date_array[i+1]){
-            RETURN_ERROR("The inputted data does not follow an ascending order!", FUNC_NAME, ERROR);
-        }
-
 
     clrx = (int* )malloc(valid_num_scenes * sizeof(int));
     clry = (float **) allocate_2d_array (TOTAL_IMAGE_BANDS, valid_num_scenes,
@@ -5404,14 +5414,6 @@ int obcold_reconstruction_procedure
 
 
 
-    status = preprocessing(buf_b, buf_g, buf_r, buf_n, buf_s1, buf_s2, buf_t,
-                           fmask_buf, &valid_num_scenes, id_range, &clear_sum,
-                           &water_sum, &shadow_sum, &sn_sum, &cloud_sum, b_c2);
-    if (status != SUCCESS)
-    {
-        RETURN_ERROR("Error for preprocessing.", FUNC_NAME, ERROR);
-    }
-
     sn_pct = (float) sn_sum/ (float) (sn_sum + clear_sum + 0.01);
 
     for (i = 0; i < valid_num_scenes; i++)
diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index fcf8b9d..3eebca8 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -126,6 +126,9 @@ int sccd(
 
     if (status != SUCCESS)
     {
+        free(clrx);
+        free_2d_array((void **)clry);
+        free(id_range);
         RETURN_ERROR("Error for preprocessing.", FUNC_NAME, ERROR);
     }
 
@@ -179,6 +182,9 @@ int sccd(
         }
         if (n_clr < conse)
         {
+            free(clrx);
+            free_2d_array((void **)clry);
+            free(id_range);
             RETURN_ERROR("The inputted conse is longer than the observations kept in the nrt model", FUNC_NAME, ERROR);
         }
     }
-- 
2.43.0


From be8ab1b96c23b7de39596831102b3b154f894135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 23/61] fix: identify no change, instead of failing, for packs
 that have no model yet

---
 src/python/pycold/colds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 14bdd61..f87cc81 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -507,6 +507,7 @@ def sccd_identify(
         sccd_pack.nrt_mode == defaults["SCCD"]["NRT_MONITOR_SNOW"]
         or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_QUEUE_SNOW"]
         or int(sccd_pack.nrt_mode / 10) == 1
+        or len(sccd_pack.nrt_model) == 0
     ):
         return sccd_pack, 0
 
-- 
2.43.0


From d3286762cffa2a3f681412900a274243f25f1dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 24/61] fix: locate the pending observations of a model that
 keeps other than six of them

---
 src/python/pycold/colds.py | 3 ++-
 src/python/pycold/utils.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index f87cc81..3040ce4 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -534,7 +534,8 @@ def sccd_identify(
             return (
                 sccd_pack,
                 sccd_pack.nrt_model[0]["obs_date_since1982"][
-                    defaults["SCCD"]["DEFAULT_CONSE"] - sccd_pack.nrt_model[0]["conse_last"]
+                    np.count_nonzero(sccd_pack.nrt_model[0]["obs_date_since1982"])
+                    - sccd_pack.nrt_model[0]["conse_last"]
                 ]
                 + defaults["COMMON"]["JULIAN_LANDSAT4_LAUNCH"],
             )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 2be7943..0c95c64 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -543,7 +543,9 @@ def calculate_sccd_cm(sccd_pack):
     -------
 
     """
-    start_index = defaults["SCCD"]["NRT_BAND"] - sccd_pack.nrt_model[0]["conse_last"]
+    # the number of observations kept depends on the conse used for detection
+    n_obs = np.count_nonzero(sccd_pack.nrt_model[0]["obs_date_since1982"])
+    start_index = n_obs - sccd_pack.nrt_model[0]["conse_last"]
     pred_ref = np.asarray(
         [
             [
@@ -558,7 +560,7 @@ def calculate_sccd_cm(sccd_pack):
         ]
     )
     cm = (
-        sccd_pack.nrt_model[0]["obs"][:, start_index : defaults["SCCD"]["DEFAULT_CONSE"]] - pred_ref
+        sccd_pack.nrt_model[0]["obs"][:, start_index:n_obs] - pred_ref
     )
     return np.median(cm, axis=1)
 
-- 
2.43.0


From 43b0e6b43237aa506a73fa8fb8e087289c4578aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 25/61] fix: clear the covariance of the previous segment
 before initialising the next S-CCD model

---
 src/cxx/s_ccd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 3eebca8..b3ddfc3 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -466,6 +466,8 @@ int step1_ssm_initialize(
     // ini_p = caculate_ini_p(instance->m, state_a, instance->Z);
     ini_p = INI_P;
 
+    /* cov_p still holds the covariance of the previous segment */
+    gsl_matrix_set_zero(cov_p);
     for (k = 0; k < instance->m; k++)
     {
         if (k == 1)
-- 
2.43.0


From ff572557f11b6c0c674231bdb530e611afcf7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 26/61] fix: stop the sum of squared residuals of S-CCD at its
 maximum instead of wrapping around

---
 src/cxx/s_ccd.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index b3ddfc3..38e5b08 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1,4 +1,5 @@
-﻿#include <gsl/gsl_blas.h>
+﻿#include <limits.h>
+#include <gsl/gsl_blas.h>
 #include <gsl/gsl_vector.h>
 #include <gsl/gsl_matrix.h>
 #include "math.h"
@@ -359,6 +360,13 @@ double F(int v1, int v2, double pr)
     return f;
 }
 
+/* adds a squared residual to a sum, which stops at its maximum instead of wrapping around */
+static unsigned int add_square(unsigned int sum, double vt)
+{
+    double total = sum + vt * vt;
+    return total < UINT_MAX ? (unsigned int)total : UINT_MAX;
+}
+
 int step1_ssm_initialize(
     ssmodel_constants *instance, /* I/O: the outputted initial SSM model, we will assign H     */
     int *clrx,                   /* I: clear pixel curve in X direction (date)             */
@@ -495,7 +503,7 @@ int step1_ssm_initialize(
     {
         KF_ts_filter_regular(instance, clrx_extend, clry_extend, cov_p, fit_cft, i, i_b, &vt, FALSE);
         if (i > stable_nobs - 1)
-            *sum_square_vt = *sum_square_vt + (unsigned int)(vt * vt);
+            *sum_square_vt = add_square(*sum_square_vt, vt);
     }
 
     //    for(i = 0; i < stable_nobs + EXTEND_OBS; i++){
@@ -2067,7 +2075,7 @@ int step2_KF_ChangeDetection(
         {
             KF_ts_filter_regular(&instance[i_b], clrx, clry[i_b], cov_p[i_b],
                                  fit_cft, cur_i, i_b, &vt, steady);
-            sum_square_vt[i_b] = sum_square_vt[i_b] + vt * vt;
+            sum_square_vt[i_b] = add_square(sum_square_vt[i_b], vt);
         }
         *num_obs_processed = *num_obs_processed + 1;
 
@@ -3323,7 +3331,7 @@ int sccd_snow(
             for (i = 0; i < n_clr - DEFAULT_CONSE_SCCD; i++)
             {
                 KF_ts_filter_regular(&instance[i_b], clrx, clry[i_b], cov_p[i_b], fit_cft, i, i_b, &vt, FALSE);
-                sum_square_vt[i_b] = sum_square_vt[i_b] + (unsigned int)(vt * vt);
+                sum_square_vt[i_b] = add_square(sum_square_vt[i_b], vt);
             }
         }
     }
-- 
2.43.0


From 8ec36b94bbe6383ea196919e4a044cc8a889e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 27/61] fix: make date2matordinal work (Timestamp.toordinal
 does not accept a date)

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 0c95c64..fd7e8a5 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -350,7 +350,7 @@ def read_data(path):
 
 
 def date2matordinal(year, month, day):
-    return pd.Timestamp.toordinal(dt.date(year, month, day))
+    return dt.date(year, month, day).toordinal()
 
 
 def matordinal2date(ordinal):
-- 
2.43.0


From cac9ad456171797896f452cec47d02fdcf7acf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 28/61] fix: give the row/column index image the width and
 height of its reference

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index fd7e8a5..38e149e 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -523,7 +523,7 @@ def generate_rowcolimage(ref_image_path, out_path):
     index = (i + 1) * 10000 + j + 1
 
     outdriver1 = gdal.GetDriverByName("GTiff")
-    outdata = outdriver1.Create(out_path, rows, cols, 1, gdal.GDT_Int32)
+    outdata = outdriver1.Create(out_path, cols, rows, 1, gdal.GDT_Int32)
     outdata.GetRasterBand(1).WriteArray(index)
     outdata.FlushCache()
     outdata.SetGeoTransform(trans)
-- 
2.43.0


From b492ebaa012978740628a35efe32afa7c20a6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 29/61] fix: take the block column from the number of block
 columns when assembling change-magnitude maps

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 38e149e..5bc1800 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -124,7 +124,7 @@ def assemble_cmmaps(
     ]
     for iblock in range(dataset_info.nblocks):
         current_block_y = int(np.floor(iblock / dataset_info.n_block_x)) + 1
-        current_block_x = iblock % dataset_info.n_block_y + 1
+        current_block_x = iblock % dataset_info.n_block_x + 1
         try:
             cm_block = np.load(
                 join(result_path, "{}_x{}_y{}.npy".format(prefix, current_block_x, current_block_y))
-- 
2.43.0


From 6726b489583ad6c0705d45d19d5761501949d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 30/61] fix: leave the pixels of a missing block file no-data
 instead of repeating the previous block

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 5bc1800..d9d96fa 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -131,7 +131,7 @@ def assemble_cmmaps(
             ).astype(output_type)
         except OSError as e:
             print("Reading CM files fails: {}".format(e))
-        #    continue
+            continue
 
         # if prefix == "CM_date":
         #    cm_block_copy = cm_block.copy()
-- 
2.43.0


From bdece9a0b7c6660b798acbd84880dd70190f64e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 31/61] fix: assemble block arrays of grids with different
 numbers of block rows and columns

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index d9d96fa..333ea93 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -312,7 +312,7 @@ def assemble_array(array_list, n_block_x):
     """
     full_feature_array = np.hstack(array_list)
     full_feature_array = np.vstack(
-        np.hsplit(full_feature_array, n_block_x)
+        np.hsplit(full_feature_array, len(array_list) // n_block_x)
     )  # (nrows, ncols, nfeatures)
     return full_feature_array
 
-- 
2.43.0


From 5963ef8a2cab160fbd96d52c2fee30dea4274169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 32/61] fix: treat a block without images in the date range as
 empty instead of failing

---
 src/python/pycold/imagetool/tile_processing.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 184cd8d..59098b5 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -238,15 +238,13 @@ def get_stack_date(
         )
         for folder_name in img_files
     ]
+    files_date_zip = sorted(zip(img_dates, img_files))
     if low_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] >= low_datebound, zip(img_dates, img_files))
-        )
+        files_date_zip = [x for x in files_date_zip if x[0] >= low_datebound]
     if high_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] <= high_datebound, zip(img_dates, img_files))
-        )
-    files_date_zip = sorted(zip(img_dates, img_files))
+        files_date_zip = [x for x in files_date_zip if x[0] <= high_datebound]
+    if len(files_date_zip) == 0:
+        return None, None
     img_files_sorted = [x[1] for x in files_date_zip]
     img_dates_sorted = np.asarray([x[0] for x in files_date_zip])
     img_tstack = np.dstack(
-- 
2.43.0


From 1ee5275bf878d8f2b059107389968ba5a70b287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 33/61] fix: give slic the channel axis it requires so that the
 slic segmentation runs

---
 src/python/pycold/ob_analyst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 7cb1b7b..d32ec88 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -529,7 +529,7 @@ def segmentation_slic(
     # else:
     #     cm_date_min = NAN_VAL
     #     cm_date_max = NAN_VAL
-    cm_stack = cm_array_gaussian_s1
+    cm_stack = cm_array_gaussian_s1[..., np.newaxis]  # slic expects a channel axis
 
     n_segments = int(np.ceil(len(mask[mask == 1]) / 25))
     ell = np.unique(sklabel(mask))
-- 
2.43.0


From b95a95b9c4089190227a85d16843a0838dc52e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 34/61] fix: pass the requested floodfill ratio on to the
 segmentation

---
 src/python/pycold/ob_analyst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index d32ec88..0219da6 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -930,7 +930,8 @@ class ObjectAnalystHPC:
                             cmname_fromdate(date - cm_output_interval) + ".npy",
                         )
                     ),
-                    date_array_last
+                    date_array_last,
+                    floodfill_ratio=floodfill_ratio,
                 )
             elif method == "slic":
                 [object_map_s1, cm_date_array_updated, object_map_s2, s1_info] = segmentation_slic(
-- 
2.43.0


From d112736e7f30d761859964b01ebf24b9aad2316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 35/61] fix: read a block stack with the pixel count of the
 block, not of the tile

---
 src/python/pycold/ob_analyst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 0219da6..2e58af1 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1107,7 +1107,9 @@ class ObjectAnalystHPC:
         if img_stack is None and img_dates_sorted is None:
             block_folder = join(self.stack_path, "block_x{}_y{}".format(block_x, block_y))
             img_stack, img_dates_sorted = read_blockdata(
-                block_folder, self.dataset_info.n_cols * self.dataset_info.n_rows, self.band_num + 1
+                block_folder,
+                self.dataset_info.block_width * self.dataset_info.block_height,
+                self.band_num + 1,
             )
         obia_breaks = self.get_allobiaresult_asarray(block_x, block_y)
         result_collect = []
-- 
2.43.0


From 7b8b36f35af04137bb72c19510fa36602beffc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 36/61] fix: do not fail for a block in which no pixel has
 reconstructed records

---
 src/python/pycold/ob_analyst.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 2e58af1..3bf0ac2 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1148,6 +1148,8 @@ class ObjectAnalystHPC:
         return result_collect
 
     def save_obcoldrecords(self, block_id, result_collect):
+        if not result_collect:  # no pixel of the block has records
+            return
         block_x = get_block_x(block_id, self.dataset_info.n_block_x)
         block_y = get_block_y(block_id, self.dataset_info.n_block_x)
         np.save(
-- 
2.43.0


From affb1c397b42f9962c5fd11b6e1a72be8a4880bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 37/61] fix: save the classification maps in the requested
 output path

---
 src/python/pycold/pyclassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 010b10f..21b0ba7 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -364,7 +364,7 @@ class PyClassifierHPC(PyClassifier):
         if output_path is None:
             self.output_path = join(record_path, "feature_maps")  # default path
         else:
-            self.output_path = self.tmp_path
+            self.output_path = output_path
 
         self.n_features = band_num * len(feature_outputs)
 
-- 
2.43.0


From c317ed141c9b4b76a5a59224da0e45ba24cf695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 38/61] fix: do not count label 0 of the reference map as the
 last land-cover category

---
 src/python/pycold/pyclassifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 21b0ba7..3d7c097 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -112,8 +112,10 @@ def generate_sample_num(label, sample_parameters):
     Returns:
 
     """
+    # labels outside 1..total_landcover_category (e.g. 0 for no data) are not training labels
     unique_category, unique_counts_category = np.unique(
-        label[label <= sample_parameters["total_landcover_category"]], return_counts=True
+        label[(label >= 1) & (label <= sample_parameters["total_landcover_category"])],
+        return_counts=True,
     )
     counts_category = np.array([0] * sample_parameters["total_landcover_category"])
     for x in range(len(unique_counts_category)):
-- 
2.43.0


From b9527c8ada19fe8fc438b4a2c9c6493a8ebe37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 39/61] fix: assemble the change date maps with fewer than 16
 cores too instead of waiting forever

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 59098b5..204c027 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -631,7 +631,7 @@ def main(
                     cm_output_interval,
                     clean=False,
                 )
-            if rank == 16:
+            if rank == min(16, n_cores):  # a second core if there is one
                 assemble_cmmaps(
                     dataset_info,
                     result_path,
-- 
2.43.0


From 3c227a9a4f212e05256a4d6fa395c4dd7e8b192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 40/61] fix: skip a pixel for which COLD fails instead of
 ending the block or repeating its neighbour's change magnitudes

---
 src/python/pycold/imagetool/tile_processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 204c027..d35d639 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -532,9 +532,12 @@ def main(
                             "COLD fails at original_row {}, original_col {} ({})".format(
                                 original_row,
                                 original_col,
-                                datetime.now.strftime("%Y-%m-%d %H:%M:%S"),
+                                datetime.now(TZ).strftime("%Y-%m-%d %H:%M:%S"),
                             )
                         )
+                        if method == "OBCOLD":
+                            CM = np.full(n_cm_maps, -9999, dtype=np.short)
+                            CM_date = np.full(n_cm_maps, -9999, dtype=np.short)
                     except Exception:
                         if method == "OBCOLD":
                             CM = np.full(n_cm_maps, -9999, dtype=np.short)
-- 
2.43.0


From 78c3cb922590c251802c4d2c0b2e69ccbeda693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 41/61] fix: let whichever core comes first create the result
 folder

---
 src/python/pycold/imagetool/tile_processing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index d35d639..068bdec 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -369,9 +369,8 @@ def main(
             exit()
 
     # logging and folder preparation
+    os.makedirs(result_path, exist_ok=True)  # whichever core comes first
     if rank == 1:
-        if not os.path.exists(result_path):
-            os.makedirs(result_path)
         if method == "OBCOLD":
             if not os.path.exists(join(result_path, "cm_maps")):
                 os.makedirs(join(result_path, "cm_maps"))
-- 
2.43.0


From 017d5a2b50c23891c02e8556c869909950f39ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 42/61] fix: reconstruct from the images in the requested date
 range and skip blocks without images

---
 src/python/pycold/imagetool/tile_processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 068bdec..9ba4f05 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -730,8 +730,10 @@ def main(
             block_y = int((block_id - 1) / dataset_info.n_block_x) + 1
             block_x = int((block_id - 1) % dataset_info.n_block_x) + 1
             img_tstack, img_dates_sorted = get_stack_date(
-                dataset_info, block_x, block_y, stack_path
+                dataset_info, block_x, block_y, stack_path, low_datebound, upper_datebound
             )
+            if img_tstack is None:  # empty block
+                continue
             result_collect = ob_analyst.reconstruct_reccg(
                 block_id=block_id,
                 img_stack=img_tstack,
-- 
2.43.0


From 753c03663eb964bf7797403f3405297970963273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 43/61] fix: reconstruct with the Collection-2 option the tile
 is processed with

---
 src/python/pycold/imagetool/tile_processing.py | 1 +
 src/python/pycold/ob_analyst.py                | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 9ba4f05..de753e7 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -739,6 +739,7 @@ def main(
                 img_stack=img_tstack,
                 img_dates_sorted=img_dates_sorted,
                 conse=conse,
+                b_c2=b_c2,
             )
             ob_analyst.save_obcoldrecords(block_id=block_id, result_collect=result_collect)
 
diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 3bf0ac2..f01b8d8 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1081,6 +1081,7 @@ class ObjectAnalystHPC:
         img_dates_sorted: Optional[np.ndarray] = None,
         logger: Optional[Logger] = None,
         conse: int = 6,
+        b_c2: bool = False,
     ) -> Union[List[Any], None]:
         """
         the third step of OBCOLD, it reconstructs the new temporal segment based on the new spatially adjusted break
@@ -1089,6 +1090,7 @@ class ObjectAnalystHPC:
             img_stack: time series block-based dataset
             img_dates_sorted: the new break dates from obiaresult_{}.npy
             logger: logger handle
+            b_c2: True -> thermal bands are not considered for observation selection
         Returns:
             change records
         """
@@ -1133,6 +1135,7 @@ class ObjectAnalystHPC:
                     img_stack[pos, 7, :].astype(np.int64),
                     obia_breaks[:, pos].astype(np.int64),
                     conse=conse,
+                    b_c2=b_c2,
                     pos=self.dataset_info.n_cols * (original_row - 1) + original_col,
                 )
             except RuntimeError:
-- 
2.43.0


From fd09c845f88c3d56622bfa8ea8e4a77cc8dd2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 44/61] fix: do not take half-written maps and models for
 finished ones after a crash or while another core writes them

---
 src/python/pycold/pyclassifier.py |  9 ++++++---
 src/python/pycold/utils.py        | 16 +++++++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 3d7c097..1879053 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -12,7 +12,7 @@ from sklearn.ensemble import RandomForestClassifier
 from osgeo import gdal_array
 from typing import Optional
 from pycold.app import defaults
-from pycold.utils import get_block_y, get_block_x, get_col_index, get_row_index, assemble_array
+from pycold.utils import get_block_y, get_block_x, get_col_index, get_row_index, assemble_array, save_complete
 from pycold.common import DatasetInfo
 
 
@@ -441,7 +441,10 @@ class PyClassifierHPC(PyClassifier):
 
     @staticmethod
     def _save_rf_model(rf_model, rf_path):
-        joblib.dump(rf_model, rf_path, compress=3)
+        # the existence of rf_path means that the training is finished
+        tmp_path = join(os.path.dirname(rf_path), "tmp_" + os.path.basename(rf_path))
+        joblib.dump(rf_model, tmp_path, compress=3)
+        os.replace(tmp_path, rf_path)
 
     def _is_finished_step2_train_rfmodel(self):
         return exists(self.rf_path)
@@ -467,7 +470,7 @@ class PyClassifierHPC(PyClassifier):
         return True
 
     def _save_covermaps(self, full_yearlyclass_array, year):
-        np.save(
+        save_complete(
             join(self.output_path, "yearlyclassification_{}.npy".format(year)),
             full_yearlyclass_array,
         )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 333ea93..438afb1 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -165,7 +165,7 @@ def assemble_cmmaps(
                 get_doy(ordinal_date),
             ),
         )
-        np.save(outfile, cm_map)
+        save_complete(outfile, cm_map)
 
     if clean is True:
         tmp_filenames = [file for file in os.listdir(result_path) if file.startswith(prefix + "_x")]
@@ -173,6 +173,20 @@ def assemble_cmmaps(
             os.remove(join(result_path, file))
 
 
+def save_complete(path, array):
+    """
+    save an array under its final name only when it is complete, for files whose existence means that a step is finished
+    Parameters
+    ----------
+    path: string
+        the path of the .npy file
+    array: the array to be saved
+    """
+    tmp_path = join(os.path.dirname(path), "tmp_" + os.path.basename(path))
+    np.save(tmp_path, array)
+    os.replace(tmp_path, path)
+
+
 def get_rowcol_intile(index, block_width, block_height, block_x, block_y):
     """
     calculate row and col in original images based on pos index and block location
-- 
2.43.0


From 93ce00305f6f446f66b643ce9fd76aea32eb16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 45/61] fix: create the exported maps with the width and height
 of the tile, not exchanged

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a6c5353..76d17d1 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -586,7 +586,7 @@ def main(
             outname = "{}_{}.tif".format(mode_string, method)
             outfile = os.path.join(out_path, outname)
             outdriver1 = gdal.GetDriverByName("GTiff")
-            outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+            outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
             outdata.GetRasterBand(1).WriteArray(results)
             outdata.FlushCache()
             outdata.SetGeoTransform(trans)
@@ -612,7 +612,7 @@ def main(
                         outname = "{}_{}_{}_{}.tif".format(mode_string, method, band_name, coef)
                         outfile = os.path.join(out_path, outname)
                         outdriver1 = gdal.GetDriverByName("GTiff")
-                        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Float32)
+                        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Float32)
                         outdata.GetRasterBand(1).WriteArray(results[:, :, ninput])
                         outdata.FlushCache()
                         outdata.SetGeoTransform(trans)
@@ -637,7 +637,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(recent_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
@@ -655,7 +655,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(first_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
-- 
2.43.0


From 8be0f0f4b61d3dee392181e814fcc1e3ef7f1085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 46/61] fix: assemble exported maps of grids with different
 numbers of block rows and columns

---
 src/python/pycold/imagetool/export_change_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 76d17d1..807de01 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -578,7 +578,7 @@ def main(
             ]
 
             results = np.hstack(tmp_map_blocks)
-            results = np.vstack(np.hsplit(results, config["n_block_x"]))
+            results = np.vstack(np.hsplit(results, config["n_block_y"]))
 
             for x in range(config["n_blocks"]):
                 os.remove(os.path.join(out_path, "tmp_map_block{}_{}.npy".format(x + 1, year)))
@@ -604,7 +604,7 @@ def main(
                 ]
 
                 results = np.hstack(tmp_map_blocks)
-                results = np.vstack(np.hsplit(results, config["n_block_x"]))
+                results = np.vstack(np.hsplit(results, config["n_block_y"]))
                 ninput = 0
                 for band_idx, band_name in enumerate(coefs_bands):
                     for coef_index, coef in enumerate(coefs):
-- 
2.43.0


From e4d6e0417448c2d847ddc4409aa31320f69dca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 47/61] fix: export no-data coefficients for a block without
 records instead of failing

---
 src/python/pycold/imagetool/export_change_map.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 807de01..b837fa2 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -430,6 +430,11 @@ def main(
             for year in range(year_lowbound, year_uppbound + 1):
                 outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
                 np.save(outfile, results_block[year - year_lowbound])
+                if coefs is not None:
+                    outfile = os.path.join(
+                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                    )
+                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
             continue
         if method == "SCCDOFFLINE":
             file = open(os.path.join(reccg_path, filename), "rb")
-- 
2.43.0


From 8c92563d808dd212c20c6f9346cce7cc4d696df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 48/61] fix: accept the documented coefficient list with blanks
 after the commas

---
 src/python/pycold/imagetool/export_change_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index b837fa2..9b39c02 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -317,7 +317,7 @@ def main(
     if coefs is not None:
         try:
             coefs = list(coefs.split(","))
-            coefs = [str(coef) for coef in coefs]
+            coefs = [str(coef).strip() for coef in coefs]
         except ValueError:
             print(
                 "Illegal coefs inputs: example, --coefs='a0, c1, a1, b1, a2, b2, a3, b3, cv, rmse'"
-- 
2.43.0


From 19e093d4b59262644668c01f59a86fcea21c147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 49/61] fix: export a confirmed break of a pixel's last record
 by that pixel's records only

---
 .../pycold/imagetool/export_change_map.py     | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 9b39c02..7a2785f 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -190,6 +190,13 @@ def index_sccdpack(sccd_pack_single):
     return sccd_pack_single
 
 
+def has_next_curve(cold_plot, i_curve):
+    """whether the next record describes the segment of the same pixel after the break"""
+    return (
+        i_curve + 1 < len(cold_plot) and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+    )
+
+
 def getcategory_cold(cold_plot, i_curve):
     t_c = -200
     if (
@@ -198,7 +205,8 @@ def getcategory_cold(cold_plot, i_curve):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            has_next_curve(cold_plot, i_curve)
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -217,7 +225,8 @@ def getcategory_obcold(cold_plot, i_curve, last_dist_type):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            has_next_curve(cold_plot, i_curve)
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -498,11 +507,7 @@ def main(
                     current_processing_pos = curve["pos"]
                     current_dist_type = 0
 
-                if (
-                    curve["change_prob"] < 100
-                    or curve["t_break"] == 0
-                    or count == (len(cold_block) - 1)
-                ):  # last segment
+                if curve["change_prob"] < 100 or curve["t_break"] == 0:  # last segment
                     continue
 
                 i_col = (
-- 
2.43.0


From e107a52defa7752f8000458a470a9c50982985cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 50/61] fix: export the breaks of the last S-CCD pixel of a
 block

---
 src/python/pycold/imagetool/export_change_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 7a2785f..1ca7213 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -466,7 +466,7 @@ def main(
         if method == "SCCDOFFLINE":
             for count, plot in enumerate(cold_block):
                 for i_count, curve in enumerate(plot.rec_cg):
-                    if curve["t_break"] == 0 or count == (len(cold_block) - 1):  # last segment
+                    if curve["t_break"] == 0:  # last segment
                         continue
 
                     i_col = (
-- 
2.43.0


From 035205716ac47053282742b9078eebce61589d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 51/61] fix: read S-CCD packs with the current layout of the
 near-real-time model

---
 src/python/pycold/imagetool/export_change_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 1ca7213..201a471 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -32,14 +32,15 @@ output_nrtmodel = np.dtype(
     [
         ("t_start_since1982", np.short),
         ("num_obs", np.short),
-        ("obs", np.short, (6, 5)),
-        ("obs_date_since1982", np.short, 5),
+        ("obs", np.short, (6, 8)),
+        ("obs_date_since1982", np.short, 8),
         ("covariance", np.float32, (6, 36)),
-        ("nrt_coefPs", np.float32, (6, 6)),
+        ("nrt_coefs", np.float32, (6, 6)),
         ("H", np.float32, 6),
         ("rmse_sum", np.uint32, 6),
-        ("cm_outputs", np.short),
-        ("cm_outputs_date", np.short),
+        ("norm_cm", np.short),
+        ("cm_angle", np.short),
+        ("conse_last", np.ubyte),
     ],
     align=True,
 )
-- 
2.43.0


From 186c4609d64d3a8d59d7f0bc1876a7d6d28f81ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 52/61] fix: save the break maps of S-CCD blocks too

---
 .../pycold/imagetool/export_change_map.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 201a471..9f8e48c 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -567,15 +567,15 @@ def main(
                                 :
                             ] = feature_row[index]
 
-            # save the temp dataset out
-            for year in range(year_lowbound, year_uppbound + 1):
-                outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
-                np.save(outfile, results_block[year - year_lowbound])
-                if coefs is not None:
-                    outfile = os.path.join(
-                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
-                    )
-                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
+        # save the temp dataset out
+        for year in range(year_lowbound, year_uppbound + 1):
+            outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
+            np.save(outfile, results_block[year - year_lowbound])
+            if coefs is not None:
+                outfile = os.path.join(
+                    out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                )
+                np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
 
     # wait for all processes
     comm.Barrier()
-- 
2.43.0


From da777952ece3705bd8ade880d9ec5395b68baec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 53/61] fix: make the export of change maps work
 (Timestamp.toordinal does not accept a date)

---
 src/python/pycold/imagetool/export_change_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 9f8e48c..a915ae4 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -492,7 +492,7 @@ def main(
                     results_block[break_year - year_lowbound][i_row][i_col] = (
                         current_dist_type * 1000
                         + curve["t_break"]
-                        - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                        - datetime.date(break_year, 1, 1).toordinal()
                         + 1
                     )
         else:
@@ -501,7 +501,7 @@ def main(
             current_dist_type = 0
             year_list_to_predict = list(range(year_lowbound, year_uppbound + 1))
             ordinal_day_list = [
-                pd.Timestamp.toordinal(datetime.date(year, 7, 1)) for year in year_list_to_predict
+                datetime.date(year, 7, 1).toordinal() for year in year_list_to_predict
             ]
             for count, curve in enumerate(cold_block):
                 if curve["pos"] != current_processing_pos:
@@ -538,7 +538,7 @@ def main(
                 results_block[break_year - year_lowbound][i_row][i_col] = (
                     current_dist_type * 1000
                     + curve["t_break"]
-                    - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                    - datetime.date(break_year, 1, 1).toordinal()
                     + 1
                 )
                 # e.g., 1315 means that disturbance happens at doy of 315
-- 
2.43.0


From 4c3f1f2f8eb483d2fb59ae114d341d3285e8171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 54/61] fix: scale the shortwave-infrared band 2 as reflectance
 and the thermal band as temperature in Collection 2

---
 src/python/pycold/imagetool/prepare_ard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 75ed6a1..1217640 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1009,8 +1009,8 @@ def single_image_stacking(
             B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
             B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
             B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-            B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-            B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+            B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+            B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         # if path_array is not None, we will eliminate those observation that has different path with its assigned path
         if path_array is not None:  # meaning that single-path processing
@@ -1491,8 +1491,8 @@ def single_image_stacking_collection2(
         B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
         B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
         B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-        B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-        B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+        B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+        B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         if is_partition is True:
             # width of a block
-- 
2.43.0


From dd6cfc39a286d64671f9a149e4f22875135321b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 55/61] fix: log and skip a Collection-2 scene with an
 unreadable band instead of ending the worker

---
 src/python/pycold/imagetool/prepare_ard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 1217640..bb168a1 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1273,7 +1273,7 @@ def single_image_stacking_collection2(
             srcNodata=1,
             outputType=gdal.GDT_UInt16,
         ).ReadAsArray()
-    except ValueError as e:
+    except (ValueError, TypeError, AttributeError) as e:
         # logger.error('Cannot open QA band for {}: {}'.format(folder, e))
         logger.error("Cannot open QA band for {}: {}".format(folder, e))
         return
@@ -1391,7 +1391,7 @@ def single_image_stacking_collection2(
                     srcNodata=0,
                     outputType=gdal.GDT_UInt16,
                 ).ReadAsArray()
-            except ValueError as e:
+            except (ValueError, TypeError, AttributeError) as e:
                 # logger.error('Cannot open spectral bands for {}: {}'.format(folder, e))
                 logger.error("Cannot open Landsat bands for {}: {}".format(folder, e))
                 return
@@ -1467,7 +1467,7 @@ def single_image_stacking_collection2(
                     srcNodata=0,
                     outputType=gdal.GDT_UInt16,
                 ).ReadAsArray()
-            except ValueError as e:
+            except (ValueError, TypeError, AttributeError) as e:
                 # logger.error('Cannot open spectral bands for {}: {}'.format(folder, e))
                 logger.error("Cannot open Landsat bands for {}: {}".format(folder, e))
                 return
-- 
2.43.0


From e0ded119e4f9da0f281c386b44d0e9db2252ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 56/61] fix: log and skip a scene whose archive is damaged
 instead of ending the worker

---
 src/python/pycold/imagetool/prepare_ard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index bb168a1..76d9849 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -790,7 +790,7 @@ def single_image_stacking(
                 # logger.warning('Unzip fails for {}'.format(folder))
                 logger.error("Unzip fails for {}".format(folder))
                 return
-    except IOError as e:
+    except (IOError, tarfile.TarError) as e:
         logger.error("Unzip fails for {}: {}".format(folder, e))
         # return
 
@@ -803,7 +803,7 @@ def single_image_stacking(
                 # logger.warning('Unzip fails for {}'.format(folder.replace("SR", "BT")))
                 logger.error("Unzip fails for {}".format(folder.replace("SR", "BT")))
                 return
-    except IOError as e:
+    except (IOError, tarfile.TarError) as e:
         logger.error("Unzip fails for {}: {}".format(folder.replace("SR", "BT"), e))
         return
 
@@ -1258,7 +1258,7 @@ def single_image_stacking_collection2(
                 # logger.warning('Unzip fails for {}'.format(folder))
                 logger.error("Unzip fails for {}".format(folder))
                 return
-    except IOError as e:
+    except (IOError, tarfile.TarError) as e:
         logger.error("Unzip fails for {}: {}".format(folder, e))
         # return
 
-- 
2.43.0


From b990d075c19b7b0e3287f450beeef86b6503bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 57/61] fix: read the Sentinel-2 images of a block stack too

read_blockdata, which ObjectAnalystHPC.reconstruct_reccg uses when it is not
given the images, took only files starting with "L" and so dropped the S30
images of a HLS stack that the tile reader (get_stack_date) reads.
---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 438afb1..137a277 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -332,7 +332,7 @@ def assemble_array(array_list, n_block_x):
 
 
 def read_blockdata(block_folder, total_pixels, total_bands):
-    img_files = [f for f in os.listdir(block_folder) if f.startswith("L")]
+    img_files = [f for f in os.listdir(block_folder) if f.startswith("L") or f.startswith("S")]
 
     # sort image files by dates
     img_dates = [
-- 
2.43.0


From 761882f614787a607c0dbd639bf100061172ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:41 +0000
Subject: [PATCH 58/61] fix: log and skip an ARD scene whose metadata cannot be
 read instead of ending the worker

---
 src/python/pycold/imagetool/prepare_ard.py | 44 ++++++++++++----------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 76d9849..0826dd1 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1021,27 +1021,31 @@ def single_image_stacking(
                     )
                 )
                 return
-            tree = ET.parse(join(join(tmp_path, folder), folder.replace("_SR", ".xml")))
-
-            # get root element
-            root = tree.getroot()
-            if b_c2 is False:
-                elements = root.findall(
-                    "./{https://landsat.usgs.gov/ard/v1}scene_metadata/{https://landsat.usgs.gov/"
-                    "ard/v1}global_metadata/{https://landsat.usgs.gov/ard/v1}wrs"
-                )
-            else:
-                elements = root.findall("SCENE_METADATA/IMAGE_ATTRIBUTES")
-            if len(elements) == 0:
-                logger.error("Parsing xml fails for {}".format(folder))
-                return
-            if b_c2 is False:
-                pathid = int(elements[0].attrib["path"])
-            else:
-                if elements[0][3].text is not None:
-                    pathid = int(elements[0][3].text)
+            try:
+                tree = ET.parse(join(join(tmp_path, folder), folder.replace("_SR", ".xml")))
+
+                # get root element
+                root = tree.getroot()
+                if b_c2 is False:
+                    elements = root.findall(
+                        "./{https://landsat.usgs.gov/ard/v1}scene_metadata/{https://landsat.usgs.gov/"
+                        "ard/v1}global_metadata/{https://landsat.usgs.gov/ard/v1}wrs"
+                    )
+                else:
+                    elements = root.findall("SCENE_METADATA/IMAGE_ATTRIBUTES")
+                if len(elements) == 0:
+                    logger.error("Parsing xml fails for {}".format(folder))
+                    return
+                if b_c2 is False:
+                    pathid = int(elements[0].attrib["path"])
                 else:
-                    raise ValueError("path id could not be located.")
+                    if elements[0][3].text is not None:
+                        pathid = int(elements[0][3].text)
+                    else:
+                        raise ValueError("path id could not be located.")
+            except (ET.ParseError, KeyError, IndexError, TypeError, ValueError) as e:
+                logger.error("Parsing xml fails for {}: {}".format(folder, e))
+                return
             # print(pathid)
 
             # assign filled value to the pixels has different path id so won't be processed
-- 
2.43.0


From 093bdae49074b9798d1cf70e72d2a8917f03f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:51 +0000
Subject: [PATCH 59/61] fix: locate an ARD tile by the first scene that can be
 read

---
 src/python/pycold/imagetool/prepare_ard.py | 35 ++++++++++++----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 0826dd1..a82ddf7 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1890,21 +1890,26 @@ def main(
                     # conus_image_fpath = (Path(__file__).parent / 'singlepath_landsat_conus.tif').resolve()
                     conus_image = gdal.Open(os.fspath(conus_image_fpath))
 
-                if os.path.exists(join(tmp_path, folder_list[0])):
-                    shutil.rmtree(join(tmp_path, folder_list[0]), ignore_errors=True)
-                with tarfile.open(join(source_dir, folder_list[0] + ".tar")) as tar_ref:
+                # the first scene that can be read locates the tile
+                for ref_folder in folder_list:
+                    if os.path.exists(join(tmp_path, ref_folder)):
+                        shutil.rmtree(join(tmp_path, ref_folder), ignore_errors=True)
                     try:
-                        tar_ref.extractall(join(tmp_path, folder_list[0]))
-                    except Exception:
-                        logger.error("Unzip fails for {}".format(folder_list[0]))
-                if collection == "ARD":
-                    ref_image = gdal.Open(
-                        join(tmp_path, folder_list[0], "{}B1.tif".format(folder_list[0]))
-                    )
-                else:
-                    ref_image = gdal.Open(
-                        join(tmp_path, folder_list[0], "{}_B1.TIF".format(folder_list[0]))
-                    )
+                        with tarfile.open(join(source_dir, ref_folder + ".tar")) as tar_ref:
+                            tar_ref.extractall(join(tmp_path, ref_folder))
+                    except (IOError, tarfile.TarError) as e:
+                        logger.error("Unzip fails for {}: {}".format(ref_folder, e))
+                    if collection == "ARD":
+                        ref_image = gdal.Open(
+                            join(tmp_path, ref_folder, "{}B1.tif".format(ref_folder))
+                        )
+                    else:
+                        ref_image = gdal.Open(
+                            join(tmp_path, ref_folder, "{}_B1.TIF".format(ref_folder))
+                        )
+                    if ref_image is not None:
+                        break
+                    shutil.rmtree(join(tmp_path, ref_folder), ignore_errors=True)
                 trans = ref_image.GetGeoTransform()
                 proj = ref_image.GetProjection()
                 xmin = trans[0]
@@ -1923,7 +1928,7 @@ def main(
                 # must close the dst
                 dst = None  # NOQA
                 out_img = None  # NOQA
-                shutil.rmtree(join(tmp_path, folder_list[0]), ignore_errors=True)
+                shutil.rmtree(join(tmp_path, ref_folder), ignore_errors=True)
 
         if collection == "ARD" or collection == "ARD-C2":
             ordinal_dates = [
-- 
2.43.0


From 1b6bb7303ca623c5c9571467a2396b7bc0bda68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:51 +0000
Subject: [PATCH 60/61] fix: refuse a tile that its blocks do not cover

---
 src/python/pycold/imagetool/tile_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index de753e7..ba4605d 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -346,8 +346,8 @@ def main(
     cm_output_interval = int(config_general["ALGORITHMINFO"]["CM_OUTPUT_INTERVAL"])
     probability_threshold = config_general["ALGORITHMINFO"]["probability_threshold"]
 
-    if (dataset_info.n_cols % dataset_info.block_width != 0) or (
-        dataset_info.n_rows % dataset_info.block_height != 0
+    if (dataset_info.n_cols % dataset_info.n_block_x != 0) or (
+        dataset_info.n_rows % dataset_info.n_block_y != 0
     ):
         print(
             "n_cols, n_rows must be divisible respectively by dataset_info.block_width, dataset_info.block_height! Please double "
-- 
2.43.0


From 702edcffd75c65abe720f6549fb0127eb769ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:26 +0000
Subject: [PATCH 61/61] fix: validate b_c2, b_monitor_init and
 cm_output_interval like the other parameters

---
 src/python/pycold/colds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 3040ce4..e679392 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -19,8 +19,11 @@ _parameter_constraints: dict = {
     "n_cm": [Interval(Integral, 0, None, closed="left")],
     "conse": [Interval(Integral, 0, 12, closed="neither")],
     "b_output_cm": ["boolean"],
+    "cm_output_interval": [Interval(Integral, 0, None, closed="left")],
+    "b_c2": ["boolean"],
     "gap_days": [Interval(Real, 0.0, None, closed="left")],
     "b_pinpoint": ["boolean"],
+    "b_monitor_init": ["boolean"],
     "gate_tcg": [Interval(Real, 0.0, None, closed="neither")],
     "predictability_tcg": [Interval(Real, 0.0, None, closed="neither")],
     "dist_conse": [Interval(Integral, 0, 6, closed="right")],
-- 
2.43.0

