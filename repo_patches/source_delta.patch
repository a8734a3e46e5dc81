From e3fa554fba836b099773674371766a6a1ea5a969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 01/43] fix: EdgeOnDisk no longer aborts when the K1 Bessel
 function under- or overflows

---
 function_objects/func_edge-on-disk.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/function_objects/func_edge-on-disk.cpp b/function_objects/func_edge-on-disk.cpp
index 84e9936..3c4b094 100644
--- a/function_objects/func_edge-on-disk.cpp
+++ b/function_objects/func_edge-on-disk.cpp
@@ -78,6 +78,7 @@
 
 #include "func_edge-on-disk.h"
 #include "gsl/gsl_sf_bessel.h"
+#include "gsl/gsl_errno.h"
 
 using namespace std;
 
@@ -112,6 +113,9 @@ EdgeOnDisk::EdgeOnDisk( )
   }
   parameterUnitsExist = true;
   
+  // turn off GSL error handler (otherwise, under/overflow in K1 aborts the program)
+  gsl_set_error_handler_off();
+
   doSubsampling = true;
 }
 
@@ -170,7 +174,17 @@ double EdgeOnDisk::CalculateIntensity( double r, double z )
     I_radial = Sigma_00;
   else {
     double  scaledR = r/h;
-    I_radial = Sigma_00 * scaledR * gsl_sf_bessel_K1(scaledR);
+    // use the error-code version of the Bessel function, to handle underflow and
+    // overflow of K1 (GSL's default error handler, which aborts, is turned off in
+    // the constructor)
+    gsl_sf_result  besselResult;
+    int  status = gsl_sf_bessel_K1_e(scaledR, &besselResult);
+    if (status == GSL_EUNDRFLW)      // K1 -> 0 at large r
+      I_radial = 0.0;
+    else if (status == GSL_EOVRFLW)  // x * K1(x) -> 1 as x -> 0
+      I_radial = Sigma_00;
+    else
+      I_radial = Sigma_00 * scaledR * besselResult.val;
   }
 
   // if combination of n*z/z_0 is large enough, switch to simple exponential,
-- 
2.43.0


From 064942a0c0347f885cfceb4b66174a1224ddfc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 02/43] fix: broken-exponential profiles no longer give NaN (0
 * infinity) at large radius

---
 function_objects/func_broken-exp.cpp      | 5 +++--
 function_objects/func_broken-exp2d.cpp    | 5 +++--
 function_objects/func_brokenexpdisk3d.cpp | 5 +++--
 function_objects/func_flatbar.cpp         | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/function_objects/func_broken-exp.cpp b/function_objects/func_broken-exp.cpp
index faaacbc..51ccbb1 100644
--- a/function_objects/func_broken-exp.cpp
+++ b/function_objects/func_broken-exp.cpp
@@ -142,8 +142,9 @@ double BrokenExponential::CalculateIntensity( double r )
     // Outer-exponential approximation:
     I = I_0_times_S * exp(delta_Rb_scaled - r/h2);
   } else {
-    // no danger of overflow in exponentiation, so use fully correct calculation:
-    I = I_0_times_S * exp(-r/h1) * pow( 1.0 + exp(alpha*(r - r_b)), exponent );
+    // use fully correct calculation (as a single exponential, so that we avoid 0*infinity = NaN
+    // when one factor underflows and the other overflows):
+    I = I_0_times_S * exp( -r/h1 + exponent*log1p(exp(alpha*(r - r_b))) );
   }
   return I;
 }
diff --git a/function_objects/func_broken-exp2d.cpp b/function_objects/func_broken-exp2d.cpp
index 5865e33..b00fc92 100644
--- a/function_objects/func_broken-exp2d.cpp
+++ b/function_objects/func_broken-exp2d.cpp
@@ -146,8 +146,9 @@ double BrokenExponential2D::CalculateIntensity( double r, double z )
     // Outer-exponential approximation:
     I = I_0_times_S * exp(delta_Rb_scaled - rr/h2);
   } else {
-    // no danger of overflow in exponentiation, so use fully correct calculation:
-    I = I_0_times_S * exp(-rr/h1) * pow( 1.0 + exp(alpha*(rr - r_b)), exponent );
+    // use fully correct calculation (as a single exponential, so that we avoid 0*infinity = NaN
+    // when one factor underflows and the other overflows):
+    I = I_0_times_S * exp( -rr/h1 + exponent*log1p(exp(alpha*(rr - r_b))) );
   }
   return I * exp(-fabs(z)/h_z);
 }
diff --git a/function_objects/func_brokenexpdisk3d.cpp b/function_objects/func_brokenexpdisk3d.cpp
index 7a99cbf..c09caa8 100644
--- a/function_objects/func_brokenexpdisk3d.cpp
+++ b/function_objects/func_brokenexpdisk3d.cpp
@@ -264,8 +264,9 @@ double LuminosityDensityBED( double s, void *params )
     // Outer-exponential approximation:
     J_rad = J_0_times_S * exp(delta_Rb_scaled - R/h2);
   } else {
-    // no danger of overflow in exponentiation, so use fully correct calculation:
-    J_rad = J_0_times_S * exp(-R/h1) * pow( 1.0 + exp(alpha*(R - r_b)), exponent );
+    // use fully correct calculation (as a single exponential, so that we avoid 0*infinity = NaN
+    // when one factor underflows and the other overflows):
+    J_rad = J_0_times_S * exp( -R/h1 + exponent*log1p(exp(alpha*(R - r_b))) );
   }
 
   // if combination of n*z/z_0 is large enough, switch to simple exponential
diff --git a/function_objects/func_flatbar.cpp b/function_objects/func_flatbar.cpp
index 1166cb4..4893c02 100644
--- a/function_objects/func_flatbar.cpp
+++ b/function_objects/func_flatbar.cpp
@@ -152,8 +152,9 @@ double FlatBar::CalculateIntensity( double r, double h2_adj, double r_b_adj )
     // Outer-exponential approximation:
     I = I_0_times_S * exp(delta_Rb_scaled - r/h2_adj);
   } else {
-    // no danger of overflow in exponentiation, so use fully correct calculation:
-    I = I_0_times_S * exp(-r/h1) * pow( 1.0 + exp(alpha*(r - r_b_adj)), exponent );
+    // use fully correct calculation (as a single exponential, so that we avoid 0*infinity = NaN
+    // when one factor underflows and the other overflows):
+    I = I_0_times_S * exp( -r/h1 + exponent*log1p(exp(alpha*(r - r_b_adj))) );
   }
   return I;
 }
-- 
2.43.0


From 3b7e6c7cb14e8951f049b65cfd6d2d9b263bf881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 03/43] fix: downsampling of an oversampled region used its
 column count for the number of rows

---
 core/downsample.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/downsample.cpp b/core/downsample.cpp
index b8c5fc5..b622f03 100644
--- a/core/downsample.cpp
+++ b/core/downsample.cpp
@@ -76,7 +76,7 @@ void DownsampleAndReplace( const double *oversampledImage, int nOversampCols,
   i1 = startY - 1 + nMainPSFRows;
   // get number of columns and rows in sub-region of main image
   nCols_subregion = (int)((nOversampCols - 2*nOversampPSFCols)/oversampleScale);
-  nRows_subregion = (int)((nOversampCols - 2*nOversampPSFRows)/oversampleScale);
+  nRows_subregion = (int)((nOversampRows - 2*nOversampPSFRows)/oversampleScale);
   oversampleArea = oversampleScale*oversampleScale;
 
   // iterate over sub-region within main image [i,j = indices for main image]
-- 
2.43.0


From 46a89edc6023dee7aff8856a5100a0a543d85bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 04/43] fix: Lanczos interpolation of a PSF image swapped rows
 and columns

---
 function_objects/psf_interpolators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index ff60889..e1d3cdb 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -182,7 +182,7 @@ double PsfInterpolator_lanczos2::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 2) * Lanczos(y - y_dat, 2);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
@@ -272,7 +272,7 @@ double PsfInterpolator_lanczos3::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 3) * Lanczos(y - y_dat, 3);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
-- 
2.43.0


From 333c76766af8cbcb406cb2a6d3e942b9322d9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 05/43] fix: data race between threads evaluating the bicubic
 PSF interpolator

---
 function_objects/psf_interpolators.cpp | 7 ++-----
 function_objects/psf_interpolators.h   | 2 --
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index e1d3cdb..19e97e5 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -60,8 +60,6 @@ PsfInterpolator_bicubic::PsfInterpolator_bicubic( double *inputImage, int nCols_
   deltaYMin = -yBound;
   deltaYMax = yBound;
   
-  xacc = gsl_interp_accel_alloc();
-  yacc = gsl_interp_accel_alloc();
   splineInterp = gsl_spline2d_alloc(gsl_interp2d_bicubic, nColumns, nRows);
   int result = gsl_spline2d_init(splineInterp, xArray, yArray, inputImage, nColumns, nRows);
   
@@ -74,8 +72,6 @@ PsfInterpolator_bicubic::PsfInterpolator_bicubic( double *inputImage, int nCols_
 PsfInterpolator_bicubic::~PsfInterpolator_bicubic( )
 {
   gsl_spline2d_free(splineInterp);
-  gsl_interp_accel_free(xacc);
-  gsl_interp_accel_free(yacc);
   free(xArray);
   free(yArray);
 }
@@ -97,7 +93,8 @@ double PsfInterpolator_bicubic::GetValue( double x, double y )
   if ((x < deltaXMin) || (x > deltaXMax) || (y < deltaYMin) || (y > deltaYMax))
     newVal = 0.0;
   else
-    newVal = gsl_spline2d_eval(splineInterp, x, y, xacc, yacc);
+    // no gsl_interp_accel objects, since they would be shared by all OpenMP threads
+    newVal = gsl_spline2d_eval(splineInterp, x, y, nullptr, nullptr);
   return newVal;
 }
 
diff --git a/function_objects/psf_interpolators.h b/function_objects/psf_interpolators.h
index 055f6bd..06539db 100644
--- a/function_objects/psf_interpolators.h
+++ b/function_objects/psf_interpolators.h
@@ -57,8 +57,6 @@ class PsfInterpolator_bicubic : public PsfInterpolator
   private:
     // new data members
     gsl_spline2d *splineInterp;
-    gsl_interp_accel *xacc;
-    gsl_interp_accel *yacc;
     double *xArray;
     double *yArray;
 };
-- 
2.43.0


From 80b2e78db2a9e52b27860d1d56ea37d7c532a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 06/43] fix: point sources kept the scale of the last
 oversampled region when the main image was next computed

---
 core/model_object.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 3c022eb..1ce092a 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1188,8 +1188,10 @@ void ModelObject::CreateModelImage( double params[] )
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
     // objects to use the standard-resolution psfInterpolator object held by ModelObject
     for (FunctionObject *funcObj : functionObjects)
-      if (funcObj->IsPointSource())
+      if (funcObj->IsPointSource()) {
         funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->SetOversamplingScale(1);
+      }
     
 #pragma omp parallel private(i,j,n,x,y,newValSum,tempSum,adjVal,storedError)
     {
@@ -1277,8 +1279,10 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
-  if (functionObjects[functionIndex]->IsPointSource())
+  if (functionObjects[functionIndex]->IsPointSource()) {
     functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    functionObjects[functionIndex]->SetOversamplingScale(1);
+  }
 
   // 1. OK, populate modelVector with the model image -- standard pixel scaling
   // OpenMP Parallel section; see CreateModelImage() for general notes on this
-- 
2.43.0


From 7bc9f02bd64a295bd42d0bb53c322447fe87c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 07/43] fix: every point source uses its own interpolation
 method, not the first one's

---
 core/model_object.cpp | 36 ++++++++++++++++++++----------------
 core/model_object.h   |  6 ++++--
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 1ce092a..32badf3 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -120,8 +120,6 @@ ModelObject::ModelObject( )
   fsetStartFlags = nullptr;
 
   localPsfPixels = nullptr;
-  psfInterpolator = nullptr;
-  psfInterpolator_allocated = false;
   
   modelVectorAllocated = false;
   maskVectorAllocated = false;
@@ -202,8 +200,8 @@ ModelObject::~ModelObject()
   if (localPsfPixels_allocated)
     free(localPsfPixels);
 
-  if (psfInterpolator_allocated)
-    delete psfInterpolator;
+  for (auto &typeAndInterpolator : psfInterpolators)
+    delete typeAndInterpolator.second;
   
   if (nFunctions > 0)
     for (int i = 0; i < nFunctions; i++)
@@ -293,14 +291,14 @@ int ModelObject::AddFunction( FunctionObject *newFunctionObj_ptr, bool isGlobalF
   
   // handle optional case of PointSource function
   if (newFunctionObj_ptr->IsPointSource()) {
-    if (! psfInterpolator_allocated) {
-      string interpName = newFunctionObj_ptr->GetInterpolationType();
-      int interpType = interpolationMap[interpName];
+    string interpName = newFunctionObj_ptr->GetInterpolationType();
+    int interpType = interpolationMap[interpName];
+    if (psfInterpolators.count(interpType) == 0) {
       result = SetupPsfInterpolation(interpType);
       if (result < 0)
       	return -1;
     }
-    newFunctionObj_ptr->AddPsfInterpolator(psfInterpolator);
+    newFunctionObj_ptr->AddPsfInterpolator(GetPsfInterpolator(newFunctionObj_ptr));
     pointSourcesPresent = true;
   }
   
@@ -362,18 +360,15 @@ int ModelObject::SetupPsfInterpolation( int interpolationType )
 
   switch (interpolationType) {
     case kInterpolator_bicubic:
-      psfInterpolator = new PsfInterpolator_bicubic(localPsfPixels, nPSFColumns, nPSFRows);
-	  psfInterpolator_allocated = true;
+      psfInterpolators[interpolationType] = new PsfInterpolator_bicubic(localPsfPixels, nPSFColumns, nPSFRows);
       break;
     case kInterpolator_lanczos2:
-      psfInterpolator = new PsfInterpolator_lanczos2(localPsfPixels, nPSFColumns, nPSFRows);
-      psfInterpolator_allocated = true;
+      psfInterpolators[interpolationType] = new PsfInterpolator_lanczos2(localPsfPixels, nPSFColumns, nPSFRows);
       break;
     case kInterpolator_lanczos3:
 //       printf("ERROR: Lanczos3 interpolation not yet implemented!\n");
 //       return -2;
-      psfInterpolator = new PsfInterpolator_lanczos3(localPsfPixels, nPSFColumns, nPSFRows);
-      psfInterpolator_allocated = true;
+      psfInterpolators[interpolationType] = new PsfInterpolator_lanczos3(localPsfPixels, nPSFColumns, nPSFRows);
       break;
   }
   
@@ -381,6 +376,15 @@ int ModelObject::SetupPsfInterpolation( int interpolationType )
 }
 
 
+/* ---------------- PRIVATE METHOD: GetPsfInterpolator ---------------- */
+/// Returns the PsfInterpolator (using the standard PSF image) of the type requested
+/// by the specified point-source function.
+PsfInterpolator * ModelObject::GetPsfInterpolator( FunctionObject *pointSourceFunc )
+{
+  return psfInterpolators[interpolationMap[pointSourceFunc->GetInterpolationType()]];
+}
+
+
 /* ---------------- PUBLIC METHOD: DefineFunctionSets ---------------- */
 /// Given a vector of indices specifying the start of individual function
 /// sets, set up the internal fsetStartFlags array; also compute nParamsTot
@@ -1189,7 +1193,7 @@ void ModelObject::CreateModelImage( double params[] )
     // objects to use the standard-resolution psfInterpolator object held by ModelObject
     for (FunctionObject *funcObj : functionObjects)
       if (funcObj->IsPointSource()) {
-        funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->AddPsfInterpolator(GetPsfInterpolator(funcObj));
         funcObj->SetOversamplingScale(1);
       }
     
@@ -1280,7 +1284,7 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
   if (functionObjects[functionIndex]->IsPointSource()) {
-    functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    functionObjects[functionIndex]->AddPsfInterpolator(GetPsfInterpolator(functionObjects[functionIndex]));
     functionObjects[functionIndex]->SetOversamplingScale(1);
   }
 
diff --git a/core/model_object.h b/core/model_object.h
index 7b81eac..bff72f2 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -13,6 +13,7 @@
 #ifndef _MODEL_OBJ_H_
 #define _MODEL_OBJ_H_
 
+#include <map>
 #include <vector>
 #include <string>
 
@@ -325,8 +326,9 @@ class ModelObject
     int  imageOffset_X0, imageOffset_Y0;
     string  dataFilename;
     
-    PsfInterpolator *psfInterpolator;
-    bool  psfInterpolator_allocated;
+    // one interpolator per interpolation type in use (key = kInterpolator_*)
+    map<int, PsfInterpolator *>  psfInterpolators;
+    PsfInterpolator * GetPsfInterpolator( FunctionObject *pointSourceFunc );
     
     // stuff for ovsersampled PSF convolution
     Convolver  *psfConvolver_osamp;
-- 
2.43.0


From da5a48333ab7ef78a7579b90f478c722f350b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 08/43] fix: PointSourceRot accepts lanczos3 and the
 capitalised method names, and keeps its optional parameters for output

---
 function_objects/func_pointsource-rot.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/function_objects/func_pointsource-rot.cpp b/function_objects/func_pointsource-rot.cpp
index 4ab7646..2ccb823 100644
--- a/function_objects/func_pointsource-rot.cpp
+++ b/function_objects/func_pointsource-rot.cpp
@@ -167,6 +167,10 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
         interpolationType = "lanczos2";
         break;
       }
+      if ((iter->second == "lanczos3") || (iter->second == "Lanczos3")) {
+        interpolationType = "lanczos3";
+        break;
+      }
       fprintf(stderr, "ERROR: unidentified interpolation type in PointSourceRot::SetExtraParams!\n");
       fprintf(stderr, "(\"%s\" is not a recognized interpolation type)\n",
       			iter->second.c_str());
@@ -178,8 +182,8 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
       return 0;
     }
   }
-  interpolationType = iter->second;
   extraParamsSet = true;
+  inputExtraParams = inputMap;
   printf("   PointSourceRot::SetExtraParams -- setting method = %s\n", 
        		interpolationType.c_str());
   return 1;
-- 
2.43.0


From cf4c8acb2b005d0ad1a064b5e308110f73b22dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:43 +0000
Subject: [PATCH 09/43] fix: crash when a point source is used with an
 oversampled PSF too small to interpolate

---
 core/model_object.cpp       | 5 +++++
 core/oversampled_region.cpp | 1 +
 core/oversampled_region.h   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 32badf3..c5e7186 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -298,6 +298,11 @@ int ModelObject::AddFunction( FunctionObject *newFunctionObj_ptr, bool isGlobalF
       if (result < 0)
       	return -1;
     }
+    for (OversampledRegion *osampRegion : oversampledRegionsVect)
+      if (! osampRegion->HasPsfInterpolator()) {
+        fprintf(stderr, "** ERROR: Oversampled PSF image is too small for interpolation with PointSource functions!\n");
+        return -2;
+      }
     newFunctionObj_ptr->AddPsfInterpolator(GetPsfInterpolator(newFunctionObj_ptr));
     pointSourcesPresent = true;
   }
diff --git a/core/oversampled_region.cpp b/core/oversampled_region.cpp
index 40e96a7..a10f326 100644
--- a/core/oversampled_region.cpp
+++ b/core/oversampled_region.cpp
@@ -102,6 +102,7 @@ OversampledRegion::OversampledRegion( )
   setupComplete = false;
   debugLevel = 0;
   maxRequestedThreads = 0;   // default value --> use all available processors/cores
+  nPSFColumns = nPSFRows = 0;
   psfInterpolator = nullptr;
   psfInterpolator_allocated = false;
   ompChunkSize = DEFAULT_OPENMP_CHUNK_SIZE;
diff --git a/core/oversampled_region.h b/core/oversampled_region.h
index e039962..7c8dac8 100644
--- a/core/oversampled_region.h
+++ b/core/oversampled_region.h
@@ -46,6 +46,9 @@ class OversampledRegion
     					int nColumnsMain, int nRowsMain, int nColumnsPSF_main,
     					int nRowsPSF_main, int oversampScale );
     					
+    /// Returns true if PSF is large enough for use with PointSource functions
+    bool HasPsfInterpolator( ) { return psfInterpolator_allocated; };
+
     void ComputeRegionAndDownsample( double *mainImageVector, 
     				vector<FunctionObject *> functionObjectVect, int nFunctionObjects );
 
-- 
2.43.0


From 6c1ebe2e927f13d575f46c34d2540ccee43a3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:45 +0000
Subject: [PATCH 10/43] fix: malformed, empty or out-of-image oversampled
 regions are reported instead of crashing; one-pixel-wide regions work

---
 core/model_object.cpp |  7 ++++---
 core/utilities.cpp    | 10 ++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index c5e7186..1556088 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -904,7 +904,6 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   psfPixels_osamp = oversampledPsfInfo->GetPsfPixels();
   
   assert( (nPixels >= 1) && (nColumns_psf >= 1) && (nRows_psf >= 1) );
-  assert( (x1 < x2) && (y1 < y2) );
   assert( (oversampleScale >= 1) );
   // assertion to check that nModelColumns and nModelRows *have* been set to good values
   assert( (nModelColumns > 0) && (nModelRows > 0) );
@@ -928,8 +927,10 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   // size of oversampling region
   deltaX = x2 - x1 + 1;
   deltaY = y2 - y1 + 1;
-  assert( deltaX > 0 );
-  assert( deltaY > 0 );
+  if ((deltaX < 1) || (deltaY < 1)) {
+    fprintf(stderr, "** ERROR: Oversampled region is badly specified or lies outside the image!\n");
+    return -1;
+  }
   nCols_osamp = oversampleScale * deltaX;
   nRows_osamp = oversampleScale * deltaY;
   
diff --git a/core/utilities.cpp b/core/utilities.cpp
index c651be6..ad69273 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -310,9 +310,15 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
   // Trim away "[" at start, "]" at end if user accidentally included them
   string::size_type  startIndex = bracketString.find_first_not_of("[");
   string::size_type  endIndex = bracketString.find_last_not_of("]");
-  copyBracketString = bracketString.substr(startIndex, (endIndex - startIndex + 1) );
+  if ((startIndex != string::npos) && (endIndex != string::npos))
+    copyBracketString = bracketString.substr(startIndex, (endIndex - startIndex + 1) );
 
   SplitString(copyBracketString, sectionPieces, ",");
+  if (sectionPieces.size() != 2) {
+    fprintf(stderr, "\nWARNING: Incorrect image section format!\n");
+    fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
+    return std::make_tuple(0,0,0,0);
+  }
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
@@ -321,7 +327,7 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
     if (subsectionPieces_x.size() != 2) {
       fprintf(stderr, "\nWARNING1: Incorrect image section format!\n");
       fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
-      std::make_tuple(0,0,0,0);
+      return std::make_tuple(0,0,0,0);
     }
     x1 = atoi(subsectionPieces_x[0].c_str());
     x2 = atoi(subsectionPieces_x[1].c_str());
-- 
2.43.0


From 6ba859156c6d6c86b7d5c6bd3e765cf930c52a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 11/43] fix: --no-normalize was ignored for oversampled PSF
 images

---
 core/getimages.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/getimages.cpp b/core/getimages.cpp
index c5b7e71..76b5cff 100644
--- a/core/getimages.cpp
+++ b/core/getimages.cpp
@@ -192,6 +192,7 @@ int GetOversampledPsfInfo( const std::shared_ptr<OptionsBase> options, int xOffs
     psfOversampleInfo->AddPsfPixels(psfOversampledPixels, nColumns_psf_oversampled,
    									nRows_psf_oversampled, newPsfOversampledPixelsFlag);
     psfOversampleInfo->AddOversamplingScale(psfOversamplingScale);
+    psfOversampleInfo->SetNormalizationFlag(options->normalizePSF);
     psfOversamplingInfoVect.push_back(psfOversampleInfo);
   }
   
-- 
2.43.0


From ccd8c3d1e43c6396d04fe1d0ec9960e852691c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 12/43] fix: a non-finite value in a masked data pixel made the
 Poisson-MLR statistic NaN

---
 core/model_object.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 1556088..35e6c3f 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1023,10 +1023,6 @@ int ModelObject::FinalSetupForFitting( )
       return -1;
   }
   
-  // Generate extra terms vector from data for modified Cash statistic, if using latter
-  if ((useCashStatistic) && (poissonMLR))
-    GenerateExtraCashTerms();
-
   // If an external error map was supplied, identify currently unmasked *error* pixels 
   // which have non-finite values and add those pixels to the mask
   //   Possible sources of bad pixel values:
@@ -1074,6 +1070,11 @@ int ModelObject::FinalSetupForFitting( )
     }
   }
   
+  // Generate extra terms vector from data for modified Cash statistic, if using latter
+  // (after VetDataVector() has zeroed any non-finite masked data values)
+  if ((useCashStatistic) && (poissonMLR))
+    GenerateExtraCashTerms();
+
 #ifdef DEBUG
   PrintInputImage();
   PrintMask();
-- 
2.43.0


From 48c60d80cd318994efb446a7fa378e25e1d6d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 13/43] fix: data race between threads in the line-of-sight
 integration of the 3D functions

---
 function_objects/func_bpbar3d.cpp          | 6 ++++--
 function_objects/func_brokenexpdisk3d.cpp  | 6 ++++--
 function_objects/func_expdisk3d.cpp        | 6 ++++--
 function_objects/func_ferrersbar3d.cpp     | 6 ++++--
 function_objects/func_gaussianring3d.cpp   | 6 ++++--
 function_objects/func_peanut_dattathri.cpp | 6 ++++--
 function_objects/func_triaxbar3d.cpp       | 6 ++++--
 7 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/function_objects/func_bpbar3d.cpp b/function_objects/func_bpbar3d.cpp
index 2cd148c..8596854 100644
--- a/function_objects/func_bpbar3d.cpp
+++ b/function_objects/func_bpbar3d.cpp
@@ -244,11 +244,13 @@ double BPBar3D::GetValue( double x, double y )
   xyParameters[17] = z_bp_max;
   xyParameters[18] = h_bp;
   xyParameters[19] = twosigma_squared;
-  F.params = xyParameters;
+  // (local copy, since different threads can call GetValue() at the same time)
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // printf("Calling Integrate...\n");
   // integrate out to +/- integLimit
-  totalIntensity = Integrate(F, -integrationLimit, integrationLimit);
+  totalIntensity = Integrate(F_local, -integrationLimit, integrationLimit);
   // printf("Done.\n");
 
   return totalIntensity;
diff --git a/function_objects/func_brokenexpdisk3d.cpp b/function_objects/func_brokenexpdisk3d.cpp
index c09caa8..b382a6b 100644
--- a/function_objects/func_brokenexpdisk3d.cpp
+++ b/function_objects/func_brokenexpdisk3d.cpp
@@ -201,7 +201,9 @@ double BrokenExponentialDisk3D::GetValue( double x, double y )
   xyParameters[13] = scaledZ0;
   xyParameters[14] = two_to_alpha;
   xyParameters[15] = alphaVert;
-  F.params = xyParameters;
+  // (local copy, since different threads can call GetValue() at the same time)
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is larger of (multiple of break radius)
   // and (multiple of h2)
@@ -209,7 +211,7 @@ double BrokenExponentialDisk3D::GetValue( double x, double y )
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = fmax(INTEGRATION_MULTIPLIER * r_b, INTEGRATION_MULTIPLIER * h2);
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_expdisk3d.cpp b/function_objects/func_expdisk3d.cpp
index 8cf2254..bb59c10 100644
--- a/function_objects/func_expdisk3d.cpp
+++ b/function_objects/func_expdisk3d.cpp
@@ -206,14 +206,16 @@ double ExponentialDisk3D::GetValue( double x, double y )
   xyParameters[8] = scaledZ0;
   xyParameters[9] = two_to_alpha;
   xyParameters[10] = alpha;
-  F.params = xyParameters;
+  // (local copy, since different threads can call GetValue() at the same time)
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of exp. scale length
   // (NOTE: it seems like it would be faster to precalculate integLimit in the
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = INTEGRATION_MULTIPLIER * h;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_ferrersbar3d.cpp b/function_objects/func_ferrersbar3d.cpp
index a08dd69..548705e 100644
--- a/function_objects/func_ferrersbar3d.cpp
+++ b/function_objects/func_ferrersbar3d.cpp
@@ -201,14 +201,16 @@ double FerrersBar3D::GetValue( double x, double y )
   xyParameters[9] = b2;
   xyParameters[10] = c2;
   xyParameters[11] = n;
-  F.params = xyParameters;
+  // (local copy, since different threads can call GetValue() at the same time)
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // [] NOTE: ideally, we should compute the integration limits directly, given
   // the known orientation of the ellipsoid, as the inner and outer boundaries of
   // the ellipsoid along the current line of sight; this would be superior to our current
   // -number,+number integration...
   // integrate out to +/- integLimit
-  totalIntensity = Integrate(F, -integrationLimit, integrationLimit);
+  totalIntensity = Integrate(F_local, -integrationLimit, integrationLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_gaussianring3d.cpp b/function_objects/func_gaussianring3d.cpp
index 4385054..468898b 100644
--- a/function_objects/func_gaussianring3d.cpp
+++ b/function_objects/func_gaussianring3d.cpp
@@ -199,11 +199,13 @@ double GaussianRing3D::GetValue( double x, double y )
   xyParameters[9] = a_ring;
   xyParameters[10] = h_z;
   xyParameters[11] = twosigma_squared;
-  F.params = xyParameters;
+  // (local copy, since different threads can call GetValue() at the same time)
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of ring radius
   integLimit = INTEGRATION_MULTIPLIER * a_ring;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_peanut_dattathri.cpp b/function_objects/func_peanut_dattathri.cpp
index dfbf22e..f544866 100644
--- a/function_objects/func_peanut_dattathri.cpp
+++ b/function_objects/func_peanut_dattathri.cpp
@@ -196,14 +196,16 @@ double DattathriPeanut3D::GetValue( double x, double y )
   xyParameters[13] = sinInc;
   xyParameters[14] = cosPsi;
   xyParameters[15] = sinPsi;
-  F.params = xyParameters;
+  // (local copy, since different threads can call GetValue() at the same time)
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of exp. scale length
   // (NOTE: it seems like it would be faster to precalculate integLimit in the
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = INTEGRATION_MULTIPLIER * R_bar_x;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_triaxbar3d.cpp b/function_objects/func_triaxbar3d.cpp
index 3f06d1d..e2be260 100644
--- a/function_objects/func_triaxbar3d.cpp
+++ b/function_objects/func_triaxbar3d.cpp
@@ -164,7 +164,9 @@ double TriaxBar3D::GetValue( double x, double y )
   xyParameters[8] = q;
   xyParameters[9] = q_z;
   xyParameters[10] = twosigma_squared;
-  F.params = xyParameters;
+  // (local copy, since different threads can call GetValue() at the same time)
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // [] NOTE: ideally, we should compute the integration limits directly, given
   // the known orientation of the ellipsoid, as the inner and outer boundaries of
@@ -173,7 +175,7 @@ double TriaxBar3D::GetValue( double x, double y )
 
   // integrate out to +/- integLimit, which is multiple of Gaussian sigma^2
   integLimit = INTEGRATION_MULTIPLIER * twosigma_squared;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
-- 
2.43.0


From 9aaee82168f6252b6bd4ebf96472ddb595b65779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 14/43] fix: one-character function labels in configuration
 files were dropped

---
 core/config_file_parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 20b07a2..12ad5db 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -217,8 +217,12 @@ string GetFunctionLabel( const string& currentLine )
     label = string(""); // not strictly necessary, but useful to be explicit
   else {
     loc2 = loc1 + 5;   // just past final character of "LABEL"
-    label = currentLine.substr(loc2);
-    TrimWhitespace(label);
+    // trim whitespace (not with TrimWhitespace, which discards one-character strings)
+    loc1 = currentLine.find_first_not_of(" \t\n", loc2);
+    if (loc1 != string::npos) {
+      loc2 = currentLine.find_last_not_of(" \t\n");
+      label = currentLine.substr(loc1, loc2 - loc1 + 1);
+    }
   }
   return label;
 }
-- 
2.43.0


From a5ab2c8df8563470bc5a80a2afe40a704f24ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 15/43] fix: configuration-file keywords are only recognised as
 the first token of a line, and malformed function sections and non-finite
 values are rejected instead of crashing or being misread

---
 core/config_file_parser.cpp | 72 +++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 12ad5db..852803d 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -28,6 +28,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <math.h>
 
 #ifdef USE_LOGGING
 #include "loguru/loguru.hpp"
@@ -58,6 +59,28 @@ static string  fixedIndicatorString = "fixed";
 
 
 
+/* ---------------- FUNCTION: StartsWithKeyword ------------------------ */
+// Returns true if the first token of the line (ignoring comments) is the specified
+// keyword ("X0", "FUNCTION", etc.); a keyword appearing anywhere else in the line (e.g.,
+// as part of a comment or label) doesn't count.
+static bool StartsWithKeyword( string currentLine, const string& keyword )
+{
+  vector<string>  stringPieces;
+
+  ChopComment(currentLine);
+  SplitStringAdd(currentLine, stringPieces);
+  return ( (stringPieces.size() > 0) && (stringPieces[0] == keyword) );
+}
+
+
+/* ---------------- FUNCTION: IsFiniteNumber --------------------------- */
+// Returns true if the string is a number and is neither NaN nor infinite
+static bool IsFiniteNumber( const string& theString )
+{
+  return ( IsNumeric(theString.c_str()) && isfinite(strtod(theString.c_str(), nullptr)) );
+}
+
+
 /* ---------------- FUNCTION: ValidParameterLine ----------------------- */
 // Checks to see that a line has at least two tokens. In addition, if we're
 // in standard parameter-line mode (as opposed checking a parameter line in 
@@ -81,7 +104,7 @@ bool ValidParameterLine( string& currentLine, bool optionalParams )
       return true;
     // if we reach here, we're in regular parameter-line mode, so we do the full test
     token2 = stringPieces[1];
-    if (! IsNumeric(token2.c_str()))
+    if (! IsFiniteNumber(token2))
       return false;
     else {   // if third piece exists, it must be valid lower-limit,upper-limit pair OR "fixed"
       if ( (nPieces > 2) && (! (stringPieces[2] == fixedIndicatorString)) ) {
@@ -89,7 +112,7 @@ bool ValidParameterLine( string& currentLine, bool optionalParams )
         SplitString(token3, stringPieces2, ",");
         if (stringPieces2.size() != 2)
           return false;
-        if ((! IsNumeric(stringPieces2[0].c_str())) || (! IsNumeric(stringPieces2[1].c_str())))
+        if ((! IsFiniteNumber(stringPieces2[0])) || (! IsFiniteNumber(stringPieces2[1])))
           return false;
       }
     }
@@ -271,12 +294,12 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // OK, locate the start of the function set (first line beginning with "X0")
   i = 0;
   while (i < nInputLines) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (StartsWithKeyword(inputLines[i], "X0")) {
       functionSectionStart = i;
       functionSectionFound = true;
       if (mode2D) {
         // for 2D (makeimage or imfit) mode, the next line must start with "Y0"
-        if ( ((i + 1) == nInputLines) || (inputLines[i + 1].find("Y0", 0) == string::npos) ) {
+        if ( ((i + 1) == nInputLines) || (! StartsWithKeyword(inputLines[i + 1], "Y0")) ) {
           yValueOK = false;
           *badLineNumber = origLineNumbers[i];
         }
@@ -289,7 +312,7 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // Check to make sure we have at least one FUNCTION line
   if ((functionSectionFound) && (yValueOK)) {
     for (i = functionSectionStart; i < nInputLines; i++) {
-      if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+      if (StartsWithKeyword(inputLines[i], "FUNCTION")) {
         functionsExist = true;
         break;
       }
@@ -306,13 +329,13 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
       LOG_F(2, "VetConfigFile: checking line %d (orig = %d): %s", i, 
       		origLineNumbers[i], inputLines[i].c_str());
 #endif
-      if (inputLines[i].find("FUNCTION", 0) == string::npos) {
+      if (! StartsWithKeyword(inputLines[i], "FUNCTION")) {
         // test for valid line
-        if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+        if (StartsWithKeyword(inputLines[i], OPTIONAL_PARAMS_START)) {
           inOptionalParams = true;
           continue;
         }
-        if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+        if (StartsWithKeyword(inputLines[i], OPTIONAL_PARAMS_END)) {
           inOptionalParams = false;
           continue;
         }
@@ -404,8 +427,13 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
   int  paramNumber = 0;
   parameterLimitsFound = false;
   while (i < (int)inputLines.size()) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (StartsWithKeyword(inputLines[i], "X0")) {
       //printf("X0 detected (i = %d)\n", i);
+      if ((fsetStartIndices.size() > 0) && (fsetStartIndices.back() == functionNumber)) {
+        fprintf(stderr, "*** WARNING: No functions specified for function set preceding input line %d of configuration file!\n",
+        		origLineNumbers[i]);
+        return -1;
+      }
       fsetStartIndices.push_back(functionNumber);
       pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
       										origLineNumbers[i]);
@@ -419,10 +447,10 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (inputLines[i].find("Y0", 0) == string::npos) {
+        if ((i >= (int)inputLines.size()) || (! StartsWithKeyword(inputLines[i], "Y0"))) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
-          				origLineNumbers[i] - 1);
+          				origLineNumbers[i - 1]);
           return -1;
         }
         pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
@@ -439,8 +467,14 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       continue;
     }
     
-    if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+    if (StartsWithKeyword(inputLines[i], "FUNCTION")) {
       //printf("Function detected (i = %d)\n", i);
+      string  functionLine = inputLines[i];
+      if (! ValidParameterLine(functionLine, true)) {
+        fprintf(stderr, "*** WARNING: FUNCTION without a function name on input line %d of configuration file!\n",
+        		origLineNumbers[i]);
+        return -1;
+      }
       AddFunctionNameAndLabel(inputLines[i], functionNameList, functionLabels);
       // add empty optional-params map
       optionalParamsMap.clear();
@@ -452,12 +486,17 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
 
     // OK, we only reach here if we're inside an individual function specification,
     // so it's a regular (non-positional) parameter line *or* optional-parameter specification
-    if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+    if ((fsetStartIndices.size() > 0) && (fsetStartIndices.back() == functionNumber)) {
+      fprintf(stderr, "*** WARNING: Input line %d of configuration file should be a FUNCTION line!\n",
+      		origLineNumbers[i]);
+      return -1;
+    }
+    if (StartsWithKeyword(inputLines[i], OPTIONAL_PARAMS_START)) {
       inOptionalParams = true;
       i++;
       continue;
     }
-    if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+    if (StartsWithKeyword(inputLines[i], OPTIONAL_PARAMS_END)) {
       // Note that optionalParamsMap will be empty if no optional-parameter section
       // was found; this is fine.
       inOptionalParams = false;
@@ -481,6 +520,11 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
     }
   }
   
+  if ((fsetStartIndices.size() > 0) && (fsetStartIndices.back() == functionNumber)) {
+    fprintf(stderr, "*** WARNING: No functions specified for last function set in configuration file!\n");
+    return -1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From ae404c86407601b6c3b7e7564e94f791b1006454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:29 +0000
Subject: [PATCH 16/43] fix: check the number of parameters of each function,
 so that compensating errors in two functions are not silently misread

---
 core/add_functions.cpp       | 24 ++++++++++++++++++++++++
 core/add_functions.h         |  5 +++++
 core/config_file_parser.cpp  | 15 ++++++++++++---
 core/config_file_parser.h    |  4 +++-
 core/imfit_main.cpp          |  2 ++
 core/makeimage_main.cpp      |  2 ++
 core/makemultimages_main.cpp |  2 ++
 core/mcmc_main.cpp           |  2 ++
 core/multimfit_main.cpp      |  2 ++
 9 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/core/add_functions.cpp b/core/add_functions.cpp
index 0a11c30..d913b44 100644
--- a/core/add_functions.cpp
+++ b/core/add_functions.cpp
@@ -553,6 +553,30 @@ int GetFunctionParameterNames(string &functionName, vector<string> &parameterNam
 }
 
 
+/// Checks that the number of parameters supplied for each function (e.g., in the
+/// config file) is the number of parameters that function requires.
+int CheckFunctionParameterCounts( const vector<string> &functionNameList,
+								const vector<int> &functionParamCounts )
+{
+  for (int i = 0; i < (int)functionNameList.size(); i++) {
+    string  currentName = functionNameList[i];
+    vector<string>  parameterNames;
+    if (GetFunctionParameterNames(currentName, parameterNames) < 0) {
+      fprintf(stderr, "*** ERROR: unidentified function name (\"%s\")\n", currentName.c_str());
+      return -1;
+    }
+    if (functionParamCounts[i] != (int)parameterNames.size()) {
+      fprintf(stderr, "*** ERROR: number of input parameters (%d) for function #%d (%s) does not equal",
+      		functionParamCounts[i], i + 1, currentName.c_str());
+      fprintf(stderr, " required number of parameters for that function (%d)!\n\n",
+      		(int)parameterNames.size());
+      return -1;
+    }
+  }
+  return 0;
+}
+
+
 /// Gets the list of names of known functions and returns them
 /// in the input vector functionNameList
 ///
diff --git a/core/add_functions.h b/core/add_functions.h
index b9b212a..1b679f8 100644
--- a/core/add_functions.h
+++ b/core/add_functions.h
@@ -39,6 +39,11 @@ void ListFunctionParameters( );
 //! Populates a vector with names of the specified function's parameters
 int GetFunctionParameterNames( string &functionName, vector<string> &parameterNameList );
 
+/// Checks that the number of parameters supplied for each function is the number it
+/// requires; returns -1 (after printing an error message) if not.
+int CheckFunctionParameterCounts( const vector<string> &functionNameList,
+								const vector<int> &functionParamCounts );
+
 //! Populates a vector with names of available functions (FunctionObject classes)
 void GetFunctionNames( vector<string> &functionNameList );
 
diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 852803d..fe5bac3 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -409,7 +409,8 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
 						vector<double>&	parameterList, vector<mp_par>& parameterLimits, 
 						vector<int>& fsetStartIndices, bool& parameterLimitsFound,
 						const vector<int>& origLineNumbers, bool checkParameterLimits,
-						vector< map<string, string> >& optionalParamsVect )
+						vector< map<string, string> >& optionalParamsVect,
+						vector<int> *functionParamCounts )
 {
   int  pLimitFound;
   bool  inOptionalParams = false;
@@ -421,6 +422,8 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
   parameterList.clear();
   parameterLimits.clear();
   fsetStartIndices.clear();
+  if (functionParamCounts != nullptr)
+    functionParamCounts->clear();
 
   int  i = 0;
   int  functionNumber = 0;
@@ -476,6 +479,8 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
         return -1;
       }
       AddFunctionNameAndLabel(inputLines[i], functionNameList, functionLabels);
+      if (functionParamCounts != nullptr)
+        functionParamCounts->push_back(0);
       // add empty optional-params map
       optionalParamsMap.clear();
       optionalParamsVect.push_back(optionalParamsMap);
@@ -515,6 +520,8 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       }
       if (pLimitFound == 1)
         parameterLimitsFound = true;
+      if ((functionParamCounts != nullptr) && (functionParamCounts->size() > 0))
+        functionParamCounts->back() += 1;
       paramNumber++;
       i++;
     }
@@ -617,7 +624,8 @@ int ReadConfigFile( const string& configFileName, const bool mode2D, vector<stri
   vector<mp_par>  parameterLimits;
   result = ParseFunctionSection(funcSectionLines, mode2D, functionNameList, functionLabels,
   					parameterList, parameterLimits, fsetStartIndices, parameterLimitsFound,
-  					funcSectionOrigLineNumbers, false, optionalParamsVect);
+  					funcSectionOrigLineNumbers, false, optionalParamsVect,
+  					&configFileOptions.functionParamCounts);
   return result;
 }
 
@@ -699,7 +707,8 @@ int ReadConfigFile( const string& configFileName, const bool mode2D, vector<stri
   }
   result = ParseFunctionSection(funcSectionLines, mode2D, functionNameList, functionLabels,
   					parameterList, parameterLimits, fsetStartIndices, parameterLimitsFound,
-  					funcSectionOrigLineNumbers, true, optionalParamsVect);
+  					funcSectionOrigLineNumbers, true, optionalParamsVect,
+  					&configFileOptions.functionParamCounts);
   return result;  
 }
 
diff --git a/core/config_file_parser.h b/core/config_file_parser.h
index 1f32bfa..c7f603e 100644
--- a/core/config_file_parser.h
+++ b/core/config_file_parser.h
@@ -24,6 +24,7 @@ typedef struct {
   vector<string> optionNames;
   vector<string> optionValues;
   int  nOptions;
+  vector<int> functionParamCounts;   // number of parameters found for each function
 } configOptions;
 
 static vector< map<string, string> > EMPTY_MAP_VECTOR_CONFIGPARSER;
@@ -63,7 +64,8 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
 						vector<double>&	parameterList, vector<mp_par>& parameterLimits, 
 						vector<int>& fsetStartIndices, bool& parameterLimitsFound,
 						const vector<int>& origLineNumbers, bool checkParameterLimits=false,
-						vector< map<string, string> >& optionalParamsVect=EMPTY_MAP_VECTOR_CONFIGPARSER );
+						vector< map<string, string> >& optionalParamsVect=EMPTY_MAP_VECTOR_CONFIGPARSER,
+						vector<int> *functionParamCounts=nullptr );
 
 
 /// Function for use by makeimage
diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 6acb997..7f9d2f8 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -267,6 +267,8 @@ int main(int argc, char *argv[])
   	       nParamsTot);
   	exit(-1);
   }
+  if (CheckFunctionParameterCounts(functionList, userConfigOptions.functionParamCounts) < 0)
+    exit(-1);
 
   theModel->PrintDescription();
   if (options->printImages)
diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 3299346..072cae5 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -260,6 +260,8 @@ int main( int argc, char *argv[] )
   	       nParamsTot);
   	exit(-1);
  }
+  if (CheckFunctionParameterCounts(functionList, userConfigOptions.functionParamCounts) < 0)
+    exit(-1);
     
   // Copy parameters into C array and generate the model image
   paramsVect = (double *) calloc(nParamsTot, sizeof(double));
diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 42e1eaa..4fc7af5 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -360,6 +360,8 @@ int main( int argc, char *argv[] )
   	       nParamsTot);
   	return -1;
   }
+  if (CheckFunctionParameterCounts(functionList, userConfigOptions.functionParamCounts) < 0)
+    return -1;
     
   // Copy parameters into C array and generate the model image
   paramsVect = (double *) calloc(nInputParamsTot, sizeof(double));
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index bc9aa02..5dcd3e9 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -262,6 +262,8 @@ int main(int argc, char *argv[])
   	       nParamsTot);
   	exit(-1);
   }
+  if (CheckFunctionParameterCounts(functionList, userConfigOptions.functionParamCounts) < 0)
+    exit(-1);
   for (int i = 0; i < nParamsTot; i++) {
     if (parameterInfo[i].fixed == 1)
       nFreeParams--;
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 9800ff1..7f6b753 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -518,6 +518,8 @@ int main(int argc, char *argv[])
   	       nParamsTot);
   	return -1;
   }
+  if (CheckFunctionParameterCounts(functionList, userConfigOptions.functionParamCounts) < 0)
+    return -1;
 
   theMultImageModel->PrintDescription();
 
-- 
2.43.0


From fb596d9d64ad97e625fe0ca01c096ce6d8a53713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:46 +0000
Subject: [PATCH 17/43] fix: command-line '=' handling: values containing '=',
 empty values, values for flags and arguments consisting only of dashes and
 '='

---
 core/commandline_parser.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/core/commandline_parser.cpp b/core/commandline_parser.cpp
index 2faa8d6..936dbaf 100644
--- a/core/commandline_parser.cpp
+++ b/core/commandline_parser.cpp
@@ -277,8 +277,9 @@ void CLineParser::AddUsageLine( const string usageLine )
 /// Main method which parses command line
 int CLineParser::ParseCommandLine( int argc, char *argv[] )
 {
-  string  currentString;
-  vector<string>  stringPieces;
+  string  currentString, optionName, target;
+  string::size_type  equalsLocation;
+  bool  equalsFound;
   OptionObject  *currentOpt;
   int  i;
   
@@ -299,20 +300,31 @@ int CLineParser::ParseCommandLine( int argc, char *argv[] )
       if (verboseLevel > 1)
         printf("\tflag or option: %s\n", currentString.c_str());
       // chop the string up if there's an "=" in the middle
-      SplitString(currentString, stringPieces, "=");
-      if (optMap.count(stringPieces[0]) > 0) {
+      equalsLocation = currentString.find('=');
+      equalsFound = (equalsLocation != string::npos);
+      optionName = currentString.substr(0, equalsLocation);
+      if (optMap.count(optionName) > 0) {
         // OK, this is a valid flag or option
-        currentOpt = optMap[stringPieces[0]];
+        currentOpt = optMap[optionName];
         if (currentOpt->IsFlag()) {
-          // It's a flag, so set it
+          // It's a flag, so set it (flags do not take values)
+          if (equalsFound) {
+            fprintf(stderr, "WARNING: flag \"%s\" does not take a value!\n", argv[i]);
+            return -1;
+          }
           currentOpt->SetFlag();
           continue;
         }
         else {
           // It's an option with a target
           // check for "=" format
-          if (stringPieces.size() > 1) {
-            currentOpt->StoreTarget(stringPieces[1].c_str());
+          if (equalsFound) {
+            target = currentString.substr(equalsLocation + 1);
+            if (target.empty()) {
+              fprintf(stderr, "WARNING: option \"%s\" requires an argument!\n", argv[i]);
+              return -1;
+            }
+            currentOpt->StoreTarget(target.c_str());
             continue;
           }
           else {   // no equals sign, so should be "-opt target" format
-- 
2.43.0


From e519467b564f6b9d71563f8dc1307a0005673823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:46 +0000
Subject: [PATCH 18/43] fix: non-numeric or out-of-range option values (command
 line and configuration file) are reported instead of being misread or
 aborting

---
 core/imfit_main.cpp     | 34 ++++++++++++++++++----
 core/mcmc_main.cpp      | 34 ++++++++++++++++++----
 core/multimfit_main.cpp |  2 +-
 core/utilities.cpp      | 63 +++++++++++++++++++----------------------
 core/utilities_pub.h    |  1 +
 5 files changed, 89 insertions(+), 45 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 7f9d2f8..6199825 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -850,8 +850,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<ImfitOptions> theOptions )
     printf("\toutput best-fit parameter file = %s\n", theOptions->outputParameterFileName.c_str());
   }
   if (optParser->OptionSet("sky")) {
-    if (NotANumber(optParser->GetTargetString("sky").c_str(), 0, kAnyReal)) {
-      fprintf(stderr, "*** ERROR: sky should be a real number!\n");
+    if (NotANumber(optParser->GetTargetString("sky").c_str(), 0, kPosReal)) {
+      fprintf(stderr, "*** ERROR: sky should be a non-negative real number!\n");
       delete optParser;
       exit(1);
     }
@@ -860,7 +860,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<ImfitOptions> theOptions )
     printf("\toriginal sky level = %g ADU\n", theOptions->originalSky);
   }
   if (optParser->OptionSet("gain")) {
-    if (NotANumber(optParser->GetTargetString("gain").c_str(), 0, kPosReal)) {
+    if ( NotANumber(optParser->GetTargetString("gain").c_str(), 0, kPosReal)
+    	|| (strtod(optParser->GetTargetString("gain").c_str(), nullptr) <= 0.0) ) {
       fprintf(stderr, "*** ERROR: gain should be a positive real number!\n");
       delete optParser;
       exit(1);
@@ -880,7 +881,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<ImfitOptions> theOptions )
     printf("\tread noise = %g e-\n", theOptions->readNoise);
   }
   if (optParser->OptionSet("exptime")) {
-    if (NotANumber(optParser->GetTargetString("exptime").c_str(), 0, kPosReal)) {
+    if ( NotANumber(optParser->GetTargetString("exptime").c_str(), 0, kPosReal)
+    	|| (strtod(optParser->GetTargetString("exptime").c_str(), nullptr) <= 0.0) ) {
       fprintf(stderr, "*** ERROR: exptime should be a positive real number!\n");
       delete optParser;
       exit(1);
@@ -934,7 +936,7 @@ void ProcessInput( int argc, char *argv[], shared_ptr<ImfitOptions> theOptions )
     theOptions->maxThreadsSet = true;
   }
   if (optParser->OptionSet("seed")) {
-    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosInt)) {
+    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosLong)) {
       printf("*** WARNING: RNG seed should be a positive integer!\n");
       delete optParser;
       exit(1);
@@ -1011,6 +1013,11 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->gainSet) {
         printf("Gain value in config file ignored (using command-line value)\n");
       } else {
+        if ( NotANumber(configFileOptions->optionValues[i].c_str(), 0, kPosReal)
+        	|| (strtod(configFileOptions->optionValues[i].c_str(), nullptr) <= 0.0) ) {
+          fprintf(stderr, "*** ERROR: GAIN should be a positive real number!\n");
+          exit(1);
+        }
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: gain = %f e-/ADU\n", newDblVal);
         mainOptions->gain = newDblVal;
@@ -1021,6 +1028,10 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->readNoiseSet) {
         printf("Read-noise value in config file ignored (using command-line value)\n");
       } else {
+        if (NotANumber(configFileOptions->optionValues[i].c_str(), 0, kPosReal)) {
+          fprintf(stderr, "*** ERROR: READNOISE should be a non-negative real number!\n");
+          exit(1);
+        }
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: read noise = %f e-\n", newDblVal);
         mainOptions->readNoise = newDblVal;
@@ -1031,6 +1042,11 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->expTimeSet) {
         printf("Read-noise value in config file ignored (using command-line value)\n");
       } else {
+        if ( NotANumber(configFileOptions->optionValues[i].c_str(), 0, kPosReal)
+        	|| (strtod(configFileOptions->optionValues[i].c_str(), nullptr) <= 0.0) ) {
+          fprintf(stderr, "*** ERROR: EXPTIME should be a positive real number!\n");
+          exit(1);
+        }
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: exposure time = %f sec\n", newDblVal);
         mainOptions->expTime = newDblVal;
@@ -1041,6 +1057,10 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->originalSkySet) {
         printf("Original-sky value in config file ignored (using command-line value)\n");
       } else {
+        if (NotANumber(configFileOptions->optionValues[i].c_str(), 0, kPosReal)) {
+          fprintf(stderr, "*** ERROR: ORIGINAL_SKY should be a non-negative real number!\n");
+          exit(1);
+        }
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: original sky = %f\n", newDblVal);
         mainOptions->originalSky = newDblVal;
@@ -1051,6 +1071,10 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->nCombinedSet) {
         printf("nCombined value in config file ignored (using command-line value)\n");
       } else {
+        if (NotANumber(configFileOptions->optionValues[i].c_str(), 0, kPosInt)) {
+          fprintf(stderr, "*** ERROR: NCOMBINED should be a positive integer!\n");
+          exit(1);
+        }
         newIntVal = atoi(configFileOptions->optionValues[i].c_str());
         printf("Value from config file: nCombined = %d\n", newIntVal);
         mainOptions->nCombined = newIntVal;
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index 5dcd3e9..4740c11 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -735,8 +735,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MCMCOptions> theOptions )
     printf("\tmask image = %s\n", theOptions->maskFileName.c_str());
   }
   if (optParser->OptionSet("sky")) {
-    if (NotANumber(optParser->GetTargetString("sky").c_str(), 0, kAnyReal)) {
-      fprintf(stderr, "*** ERROR: sky should be a real number!\n");
+    if (NotANumber(optParser->GetTargetString("sky").c_str(), 0, kPosReal)) {
+      fprintf(stderr, "*** ERROR: sky should be a non-negative real number!\n");
       delete optParser;
       exit(1);
     }
@@ -745,7 +745,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MCMCOptions> theOptions )
     printf("\toriginal sky level = %g ADU\n", theOptions->originalSky);
   }
   if (optParser->OptionSet("gain")) {
-    if (NotANumber(optParser->GetTargetString("gain").c_str(), 0, kPosReal)) {
+    if ( NotANumber(optParser->GetTargetString("gain").c_str(), 0, kPosReal)
+    	|| (strtod(optParser->GetTargetString("gain").c_str(), nullptr) <= 0.0) ) {
       fprintf(stderr, "*** ERROR: gain should be a positive real number!\n");
       delete optParser;
       exit(1);
@@ -765,7 +766,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MCMCOptions> theOptions )
     printf("\tread noise = %g e-\n", theOptions->readNoise);
   }
   if (optParser->OptionSet("exptime")) {
-    if (NotANumber(optParser->GetTargetString("exptime").c_str(), 0, kPosReal)) {
+    if ( NotANumber(optParser->GetTargetString("exptime").c_str(), 0, kPosReal)
+    	|| (strtod(optParser->GetTargetString("exptime").c_str(), nullptr) <= 0.0) ) {
       fprintf(stderr, "*** ERROR: exptime should be a positive real number!\n");
       delete optParser;
       exit(1);
@@ -864,7 +866,7 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MCMCOptions> theOptions )
     theOptions->maxThreadsSet = true;
   }
   if (optParser->OptionSet("seed")) {
-    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosInt)) {
+    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosLong)) {
       printf("*** WARNING: RNG seed should be a positive integer!\n");
       delete optParser;
       exit(1);
@@ -941,6 +943,11 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->gainSet) {
         printf("Gain value in config file ignored (using command-line value)\n");
       } else {
+        if ( NotANumber(configFileOptions->optionValues[i].c_str(), 0, kPosReal)
+        	|| (strtod(configFileOptions->optionValues[i].c_str(), nullptr) <= 0.0) ) {
+          fprintf(stderr, "*** ERROR: GAIN should be a positive real number!\n");
+          exit(1);
+        }
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: gain = %f e-/ADU\n", newDblVal);
         mainOptions->gain = newDblVal;
@@ -951,6 +958,10 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->readNoiseSet) {
         printf("Read-noise value in config file ignored (using command-line value)\n");
       } else {
+        if (NotANumber(configFileOptions->optionValues[i].c_str(), 0, kPosReal)) {
+          fprintf(stderr, "*** ERROR: READNOISE should be a non-negative real number!\n");
+          exit(1);
+        }
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: read noise = %f e-\n", newDblVal);
         mainOptions->readNoise = newDblVal;
@@ -961,6 +972,11 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->expTimeSet) {
         printf("Read-noise value in config file ignored (using command-line value)\n");
       } else {
+        if ( NotANumber(configFileOptions->optionValues[i].c_str(), 0, kPosReal)
+        	|| (strtod(configFileOptions->optionValues[i].c_str(), nullptr) <= 0.0) ) {
+          fprintf(stderr, "*** ERROR: EXPTIME should be a positive real number!\n");
+          exit(1);
+        }
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: exposure time = %f sec\n", newDblVal);
         mainOptions->expTime = newDblVal;
@@ -971,6 +987,10 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->originalSkySet) {
         printf("Original-sky value in config file ignored (using command-line value)\n");
       } else {
+        if (NotANumber(configFileOptions->optionValues[i].c_str(), 0, kPosReal)) {
+          fprintf(stderr, "*** ERROR: ORIGINAL_SKY should be a non-negative real number!\n");
+          exit(1);
+        }
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: original sky = %f\n", newDblVal);
         mainOptions->originalSky = newDblVal;
@@ -981,6 +1001,10 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->nCombinedSet) {
         printf("nCombined value in config file ignored (using command-line value)\n");
       } else {
+        if (NotANumber(configFileOptions->optionValues[i].c_str(), 0, kPosInt)) {
+          fprintf(stderr, "*** ERROR: NCOMBINED should be a positive integer!\n");
+          exit(1);
+        }
         newIntVal = atoi(configFileOptions->optionValues[i].c_str());
         printf("Value from config file: nCombined = %d\n", newIntVal);
         mainOptions->nCombined = newIntVal;
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 7f6b753..1ec72b6 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -1157,7 +1157,7 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MultimfitOptions> theOptio
     theOptions->maxThreadsSet = true;
   }
   if (optParser->OptionSet("seed")) {
-    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosInt)) {
+    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosLong)) {
       printf("*** WARNING: RNG seed should be a positive integer!\n");
       delete optParser;
       exit(1);
diff --git a/core/utilities.cpp b/core/utilities.cpp
index ad69273..19c82db 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -24,6 +24,9 @@
 #include <stdio.h>
 #include <stdlib.h>  /* for exit() */
 #include <time.h>
+#include <errno.h>
+#include <limits.h>
+#include <cmath>
 #include <iostream>
 #include <fstream>
 #include <vector>
@@ -569,48 +572,40 @@ void CommandLineError( char errorString[] )
 //    -1
 bool NotANumber( const char theString[], int index, int restriction )
 {
-  int  theCharacter = theString[index];
+  const char  *start = theString + index;
+  char  *end;
+  long  intValue;
+  double  realValue;
+
+  // the number must begin with a digit, a decimal point, or a minus sign
+  if (! (isdigit((unsigned char)*start) || (*start == '-') || (*start == '.')) )
+    return true;
 
   switch (restriction) {
     case kAnyInt:
-      if (theCharacter == '-')
-        return NotANumber( theString, index + 1, kAnyInt );
-      else
-        return (bool)( ! isdigit(theCharacter) );
-    
     case kNonzeroInt:
-      if (theCharacter == '-')
-        return false;
-      else
-        return (bool)( ! isdigit(theCharacter) );
-    
     case kPosInt:
-      if ( isdigit(theCharacter) && (theCharacter != '0') )
+    case kPosLong:
+      errno = 0;
+      intValue = strtol(start, &end, 10);
+      if ((end == start) || (*end != '\0') || (errno == ERANGE))
+        return true;
+      if ((restriction != kPosLong) && ((intValue > INT_MAX) || (intValue < INT_MIN)))
+        return true;
+      if (restriction == kAnyInt)
         return false;
+      else if (restriction == kNonzeroInt)
+        return (intValue == 0);
       else
-        return true;
-    
+        return (intValue <= 0);
+
     case kAnyReal:
-      switch (theCharacter) {
-        case '-':
-          return NotANumber( theString, index + 1, kAnyReal );
-        case '.':
-          return NotANumber( theString, index + 1, kAnyInt );
-        default:
-          return (bool)( ! isdigit(theCharacter) );
-      }  /* end switch (theCharacter) */
-    
-    case kPosReal:
-      // THIS STILL NEEDS WORK!
-      switch (theCharacter) {
-        case '-':
-          return true;
-        case '.':
-          return NotANumber( theString, index + 1, kAnyInt );
-        default:
-          return (bool)( ! isdigit(theCharacter) );
-      }  /* end switch (theCharacter) */
-    
+    case kPosReal:   // (note that zero is allowed)
+      realValue = strtod(start, &end);
+      if ((end == start) || (*end != '\0') || (! std::isfinite(realValue)))
+        return true;
+      return ((restriction == kPosReal) && (*start == '-'));
+
     default:
       return true;
   }  /* end switch (restriction) */
diff --git a/core/utilities_pub.h b/core/utilities_pub.h
index 55f1c37..0e68084 100644
--- a/core/utilities_pub.h
+++ b/core/utilities_pub.h
@@ -20,6 +20,7 @@ const int kNonzeroInt =    1;
 const int kPosInt     =    2;
 const int kAnyReal    =    3;
 const int kPosReal    =    4;
+const int kPosLong    =    5;
 
 /* constants for use with PrepareImageComments: */
 const int HDR_MAKEIMAGE = 0;
-- 
2.43.0


From 739174e7eeacdab8bd200b965ffc4319cff50106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:46 +0000
Subject: [PATCH 19/43] fix: PrintToString reused a consumed va_list for
 strings longer than its buffer

---
 core/utilities.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 19c82db..1c051c7 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -75,13 +75,17 @@ string vformat( const char *fmt, va_list ap )
 
   while (1) {
     // Try to vsnprintf into our buffer.
-    int  needed = vsnprintf(buf, size, fmt, ap);
+    // (using a copy of the argument list, since we may need it more than once)
+    va_list  apCopy;
+    va_copy(apCopy, ap);
+    int  needed = vsnprintf(buf, size, fmt, apCopy);
+    va_end(apCopy);
     // NB. C99 (which modern Linux and OS X follow) says vsnprintf
     // failure returns the length it would have needed.  But older
     // glibc and current Windows return -1 for failure, i.e., not
     // telling us how much was needed.
 
-    if (needed <= (int)size && needed >= 0) {
+    if (needed < (int)size && needed >= 0) {
       // It fit fine so we're done.
       return string(buf, (size_t)needed);
     }
-- 
2.43.0


From b449d2da7c109e3fea4d1292b4def72cdb486ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:53 +0000
Subject: [PATCH 20/43] fix: image-info file parser: keywords only as first
 token, comments, validated values and limits, vetted local-function sections,
 parse failures reported

---
 core/definitions_multimage.h     |   1 +
 core/imageparams_file_parser.cpp | 178 +++++++++++++++++++++++--------
 core/imageparams_file_parser.h   |  11 +-
 core/makemultimages_main.cpp     |  10 +-
 core/multimfit_main.cpp          |   3 +
 5 files changed, 153 insertions(+), 50 deletions(-)

diff --git a/core/definitions_multimage.h b/core/definitions_multimage.h
index f541799..d2700b3 100644
--- a/core/definitions_multimage.h
+++ b/core/definitions_multimage.h
@@ -100,6 +100,7 @@ class ImageInfo
     vector<string> perImageFuncNames;
     vector<string> perImageFuncLabels;
     vector<int> perImageFuncSetIndices;
+    vector<int> perImageFuncParamCounts;
     vector<double> perImageParamVals;
     bool perImageParamLimitsExist;
     vector<mp_par> perImageParamLimits;
diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index b180a3b..dce1c0d 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -26,6 +26,7 @@
 #include <limits.h>  // for strtol
 #include <strings.h>  // for memset
 #include <tuple>
+#include <cmath>
 
 using namespace std;
 
@@ -86,6 +87,33 @@ const string fixedIndicatorString = "fixed";
 void ReportConfigError( const vector<int> &errorCodes, 
 						const vector<int> &origLineNumbers );
 
+
+// Returns the first token of the line, ignoring comments ("" if there isn't one)
+static string FirstToken( string currentLine )
+{
+  vector<string>  stringPieces;
+
+  ChopComment(currentLine);
+  SplitStringAdd(currentLine, stringPieces);
+  return (stringPieces.size() > 0) ? stringPieces[0] : string("");
+}
+
+
+// Returns true for the keywords which don't have an accompanying value
+static bool IsFlag( const string& keyword )
+{
+  return ( (keyword == PARAMETER_FLAG_MASK_ZERO_IS_GOOD) || (keyword == PARAMETER_FLAG_MASK_ZERO_IS_BAD)
+  		|| (keyword == PARAMETER_FLAG_ERRORS_ARE_SIGMAS) || (keyword == PARAMETER_FLAG_ERRORS_ARE_VARIANCES)
+  		|| (keyword == PARAMETER_FLAG_ERRORS_ARE_WEIGHTS) );
+}
+
+
+// Returns true if the string is a number and is neither NaN nor infinite
+static bool IsFiniteNumber( const string& theString )
+{
+  return ( IsNumeric(theString.c_str()) && std::isfinite(strtod(theString.c_str(), nullptr)) );
+}
+
 /* ---------------- FUNCTION: ReportConfigError ------------------------ */
 void ReportConfigError( const vector<int> &errorCodes, 
 						const vector<int> &origLineNumbers )
@@ -116,7 +144,7 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
   int  i, nInputLines;
   int  nErrors = 0;
   bool  imageSectionFound = false;
-  bool  dataFound = false;
+  bool  inFunctionSection = false;
 
   // check for erroneous input (no input lines, no original line numbers)
   if (inputLines.empty()) {
@@ -131,26 +159,25 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
   }
   
   // check for required stuff
-  i = 0;
   nInputLines = inputLines.size();
-  while (i < nInputLines) {
-    if (inputLines[i].find("IMAGE_START", 0) != string::npos) {
+  for (i = 0; i < nInputLines; i++)
+    if (FirstToken(inputLines[i]) == "IMAGE_START")
       imageSectionFound = true;
-      break;
-    }
-    i++;
-  }
-  
+
   // check to see that individual lines are well-formatted
   for (i = 0; i < nInputLines; i++) {
     // need to copy string so ValidParameterLine() can accept & operate on it.
     string currentLine = inputLines[i];
-    if (currentLine.find("IMAGE_START", 0) != string::npos) {
-      imageSectionFound = true;
+    string keyword = FirstToken(currentLine);
+    if (keyword == "IMAGE_START") {
+      inFunctionSection = false;
       continue;
     }
-    // Currently, we have two possibilities: FUNCTIONS_START or a parameter line
-    if (! (currentLine.find("FUNCTIONS_START", 0) != string::npos)) {
+    // Apart from FUNCTIONS_START, flags, and the lines of a per-image-function section (which
+    // are checked separately, in ReadImageParamsFile), we should have a parameter line
+    if (keyword == "FUNCTIONS_START")
+      inFunctionSection = true;
+    else if ((! inFunctionSection) && (! IsFlag(keyword))) {
       if (! ValidParameterLine(currentLine, true)) {
         badLineNumbers.push_back(origLineNumbers[i]);
         errorCodes.push_back(IMAGEPARAMS_FILE_ERROR_BADLINE);
@@ -298,7 +325,8 @@ std::tuple<double *, int> GetImageDescriptionParams( const vector<ImageInfo> ima
 
 // status = 0 for just a parameter value, 1 for fixed parameter,
 // 2 for parameter value and limit(s), or -1 for problem
-std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
+std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine,
+											bool checkParameterLimits )
 {
   double  paramVal;
   double  lowerLimit, upperLimit;
@@ -310,6 +338,11 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
   stringPieces.clear();
   SplitString(theLine, stringPieces);
   // first piece is parameter name, which we ignore; second piece is initial value
+  if ((stringPieces.size() < 2) || (! IsFiniteNumber(stringPieces[1]))) {
+    fprintf(stderr, "*** WARNING: value in line \"%s\" of image-info file should be a number!\n",
+    		theLine.c_str());
+    return std::make_tuple(0.0, mp_par(), -1);
+  }
   paramVal = strtod(stringPieces[1].c_str(), nullptr);
 
   // OK, now we create a new mp_par structure and check for possible parameter limits
@@ -322,15 +355,20 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
       newParamLimit.fixed = 1;
       status = 1;
     } else {
-      if (extraPiece.find(',', 0) != string::npos) {
+      newPieces.clear();
+      SplitString(extraPiece, newPieces, ",");
+      if ((newPieces.size() != 2) || (! IsFiniteNumber(newPieces[0])) || (! IsFiniteNumber(newPieces[1]))) {
+        fprintf(stderr, "*** WARNING: parameter limits for \"%s\" (\"%s\") should be \"fixed\" or two numbers separated by a comma!\n",
+        		stringPieces[0].c_str(), extraPiece.c_str());
+        status = -1;
+      }
+      else {
         status = 2;
-        newPieces.clear();
-        SplitString(extraPiece, newPieces, ",");
         newParamLimit.limited[0] = 1;
         newParamLimit.limited[1] = 1;
         lowerLimit = strtod(newPieces[0].c_str(), nullptr);
         upperLimit = strtod(newPieces[1].c_str(), nullptr);
-        if (lowerLimit >= upperLimit) {
+        if (checkParameterLimits && (lowerLimit >= upperLimit)) {
           fprintf(stderr, "*** WARNING: first parameter limit for \"%s\" (%g) must be < second limit (%g)!\n",
           				stringPieces[0].c_str(), lowerLimit, upperLimit);
           if (lowerLimit == upperLimit) {
@@ -338,7 +376,7 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
           }
           status = -1;
         }
-        if ((paramVal < lowerLimit) || (paramVal > upperLimit)) {
+        if (checkParameterLimits && ((paramVal < lowerLimit) || (paramVal > upperLimit))) {
           fprintf(stderr, "*** WARNING: initial parameter value for \"%s\" (%g) must lie between the limits (%g,%g)!\n",
           				stringPieces[0].c_str(), paramVal, lowerLimit, upperLimit);
           status = -1;
@@ -359,7 +397,7 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
 // appropriate info in the input ImageInfo object
 // We assume that theLine has had leading and trailing whitespace (including
 // newlines) removed before this function is called.
-int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
+int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo, bool checkParameterLimits )
 {
   double  numericVal;
   int  status;
@@ -368,8 +406,35 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   string  parameterName, stringVal;
   
   SplitString(theLine, stringPieces);
+  if (stringPieces.size() < 1)
+    return 0;
   parameterName = stringPieces[0];
-    
+  status = 0;
+  if ((stringPieces.size() < 2) && (! IsFlag(parameterName)) && (parameterName != "IMAGE_START"))
+    return -1;
+
+  // check the values of purely numerical parameters
+  bool  badValue = false;
+  if ((parameterName == PARAMETER_NAME_GAIN) || (parameterName == PARAMETER_NAME_EXPTIME))
+    badValue = ( NotANumber(stringPieces[1].c_str(), 0, kPosReal) || (strtod(stringPieces[1].c_str(), nullptr) <= 0.0) );
+  else if ((parameterName == PARAMETER_NAME_READNOISE) || (parameterName == PARAMETER_NAME_ORIGINAL_SKY)
+  		|| (parameterName == PARAMETER_NAME_WEIGHT))
+    badValue = NotANumber(stringPieces[1].c_str(), 0, kPosReal);
+  else if ((parameterName == PARAMETER_NAME_NCOLS) || (parameterName == PARAMETER_NAME_NROWS)
+  		|| (parameterName == PARAMETER_NAME_NCOMBINED) || (parameterName == PARAMETER_NAME_OVERPSF_SCALE))
+    badValue = NotANumber(stringPieces[1].c_str(), 0, kPosInt);
+  else if ((parameterName == PARAMETER_NAME_NROWS_NCOLS) || (parameterName == PARAMETER_NAME_NCOLS_NROWS)) {
+    vector<string> sizes;
+    SplitString(stringPieces[1], sizes, ",");
+    badValue = ( (sizes.size() != 2) || NotANumber(sizes[0].c_str(), 0, kPosInt)
+    			|| NotANumber(sizes[1].c_str(), 0, kPosInt) );
+  }
+  if (badValue) {
+    fprintf(stderr, "*** WARNING: invalid value for %s in image-info file (\"%s\")!\n",
+    		parameterName.c_str(), stringPieces[1].c_str());
+    return -1;
+  }
+
   // floating-point values
   if (parameterName == PARAMETER_NAME_GAIN) 
     imageInfo.gain = strtod(stringPieces[1].c_str(), nullptr);
@@ -390,8 +455,12 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   // Special cases of parameters with optional limits or fixed status
   
   else if (parameterName == PARAMETER_NAME_PIXEL_SCALE) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine, checkParameterLimits);
     imageInfo.pixelScale = numericVal;
+    if ((status >= 0) && (numericVal <= 0.0)) {
+      fprintf(stderr, "*** WARNING: PIXEL_SCALE in image-info file should be > 0!\n");
+      status = -1;
+    }
     // special rule for PIXEL_SCALE: fixed unless limits were explicitly set
     if (status == 2)
       imageInfo.pixelScale_limitInfo = paramLimits;
@@ -400,7 +469,7 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   }
       
   else if (parameterName == PARAMETER_NAME_IMAGE_PA) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine, checkParameterLimits);
     imageInfo.rotation = numericVal;
     // special rule for IMAGE_PA: fixed unless limits were explicitly set
     if (status == 2)
@@ -410,19 +479,19 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   }
       
   else if (parameterName == PARAMETER_NAME_FLUX_SCALE) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine, checkParameterLimits);
     imageInfo.intensityScale = numericVal;
     imageInfo.intensityScale_limitInfo = paramLimits;
   }
       
   else if (parameterName == PARAMETER_NAME_X0) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine, checkParameterLimits);
     imageInfo.x0 = numericVal;
     imageInfo.x0_limitInfo = paramLimits;
   }
       
   else if (parameterName == PARAMETER_NAME_Y0) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine, checkParameterLimits);
     imageInfo.y0 = numericVal;
     imageInfo.y0_limitInfo = paramLimits;
   }
@@ -430,27 +499,27 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   
   // integer values
   else if (parameterName == PARAMETER_NAME_NCOLS)
-    imageInfo.nColumns = (int)strtol(stringPieces[1].c_str(), nullptr, 0);
+    imageInfo.nColumns = (int)strtol(stringPieces[1].c_str(), nullptr, 10);
 
   else if (parameterName == PARAMETER_NAME_NROWS) 
-    imageInfo.nRows = (int)strtol(stringPieces[1].c_str(), nullptr, 0);
+    imageInfo.nRows = (int)strtol(stringPieces[1].c_str(), nullptr, 10);
 
   else if (parameterName == PARAMETER_NAME_NROWS_NCOLS) {
     vector<string> subPieces;
     SplitString(stringPieces[1], subPieces, ",");
-    imageInfo.nRows = (int)strtol(subPieces[0].c_str(), nullptr, 0);
-    imageInfo.nColumns = (int)strtol(subPieces[1].c_str(), nullptr, 0);
+    imageInfo.nRows = (int)strtol(subPieces[0].c_str(), nullptr, 10);
+    imageInfo.nColumns = (int)strtol(subPieces[1].c_str(), nullptr, 10);
   }
 
   else if (parameterName == PARAMETER_NAME_NCOLS_NROWS) {
     vector<string> subPieces;
     SplitString(stringPieces[1], subPieces, ",");
-    imageInfo.nColumns = (int)strtol(subPieces[0].c_str(), nullptr, 0);
-    imageInfo.nRows = (int)strtol(subPieces[1].c_str(), nullptr, 0);
+    imageInfo.nColumns = (int)strtol(subPieces[0].c_str(), nullptr, 10);
+    imageInfo.nRows = (int)strtol(subPieces[1].c_str(), nullptr, 10);
   }
 
   else if (parameterName == PARAMETER_NAME_NCOMBINED)
-    imageInfo.nCombined = (int)strtol(stringPieces[1].c_str(), nullptr, 0);
+    imageInfo.nCombined = (int)strtol(stringPieces[1].c_str(), nullptr, 10);
 
   
   // string values
@@ -476,7 +545,7 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
 
   // Special cases of oversampled PSF specifications
   else if (parameterName == PARAMETER_NAME_OVERPSF_SCALE) {
-    int osampleScale = (int)strtol(stringPieces[1].c_str(), nullptr, 0);
+    int osampleScale = (int)strtol(stringPieces[1].c_str(), nullptr, 10);
     imageInfo.psfOversamplingScales.push_back(osampleScale);
     imageInfo.nOversamplingScales += 1;
   }
@@ -517,7 +586,7 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
     ; // handle error
   }
   
-  return 0;
+  return (status < 0) ? -1 : 0;
 }
 
 
@@ -527,19 +596,24 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
 // and populates the input vector of ImageInfo objects, one for each specified
 // image.
 // Returns 0 for standard operation (no per-image functions found); returns 
-// index (> 0) for first line of per-image-function section if it exists
-int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoList )
+// index (> 0) for first line of per-image-function section if it exists, or -1 if one of
+// the lines has an invalid value
+int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoList,
+						bool checkParameterLimits )
 {
   ImageInfo newImageInfo = ImageInfo();
   int  nLines = lines.size();
   int  returnVal = 0;
   
   for (int i = 0; i < nLines; i++) {
-    if (lines[i].find("FUNCTIONS_START", 0) != string::npos) {
+    if (FirstToken(lines[i]) == "FUNCTIONS_START") {
       returnVal = i;
       break;
     }
-    StoreInfoFromLine(lines[i], newImageInfo);
+    string  currentLine = lines[i];
+    ChopComment(currentLine);
+    if (StoreInfoFromLine(currentLine, newImageInfo, checkParameterLimits) < 0)
+      return -1;
   }
   imageInfoList.push_back(newImageInfo);
   
@@ -553,7 +627,7 @@ int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoL
 //    Number of images specified in the file (nImages)
 //    Vector of ImageInfo objects (one per specified image) 
 int ReadImageParamsFile( const string& configFileName, int& nImages,
-						vector<ImageInfo>& imageInfoList )
+						vector<ImageInfo>& imageInfoList, bool checkParameterLimits )
 {
   ifstream  inputFileStream;
   string  inputLine;
@@ -583,7 +657,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
     // store non-empty, non-comment lines in a vector of strings
     if ((inputLine.size() > 0) && (inputLine[0] != '#')) {
       inputLines.push_back(inputLine);
-      origLineNumbers.push_back(k);
+      origLineNumbers.push_back(currentLine);
     }
   }
   inputFileStream.close();
@@ -602,7 +676,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
 
   // look for IMAGE_START to chop up input into per-image sections
   for (i = 0; i < nInputLines; i++) {
-    if (inputLines[i].find("IMAGE_START", 0) != string::npos)
+    if (FirstToken(inputLines[i]) == "IMAGE_START")
       imageStartIndices.push_back(i);
   }
   nImages = imageStartIndices.size();
@@ -621,7 +695,9 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
     for (i = currentStartIndex; i < currentEndIndex; i++)
       currentImageLines.push_back(inputLines[i]);
     // start of per-image functions section is relative to currentImageLines (0 = no such section)
-    imageFunctionsOffset = AddInfoFromLines(currentImageLines, imageInfoList);
+    imageFunctionsOffset = AddInfoFromLines(currentImageLines, imageInfoList, checkParameterLimits);
+    if (imageFunctionsOffset < 0)
+      return -1;
     // process per-image function lines, if they exist
     if (imageFunctionsOffset > 0) {
       // start with global location of current per-image functions section
@@ -630,12 +706,23 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
       imageFunctionsLines.clear();
       for (i = imageFunctionsStartIndex + 1; i < currentEndIndex; i++) {
         imageFunctionsLines.push_back(inputLines[i]);
-        functionSectionLineNumbers.push_back(i);
+        functionSectionLineNumbers.push_back(origLineNumbers[i]);
+      }
+      int  possibleBadLineNumber = -1;
+      if (VetConfigFile(imageFunctionsLines, functionSectionLineNumbers, true, &possibleBadLineNumber) != 0) {
+        fprintf(stderr, "*** ERROR: Problem with the per-image functions for image #%d in image-info file", k + 1);
+        if (possibleBadLineNumber > 0)
+          fprintf(stderr, " (line %d)", possibleBadLineNumber);
+        fprintf(stderr, "!\n");
+        return -1;
       }
       bool  paramLimitsExist = false;
+      vector< map<string, string> >  optionalParams;
+      vector<int>  funcParamCounts;
       int status = ParseFunctionSection(imageFunctionsLines, true, funcNameList,
 						funcLabelList, funcParams, funcParamLimits, funcSetStartIndices,
-						paramLimitsExist, functionSectionLineNumbers);
+						paramLimitsExist, functionSectionLineNumbers, checkParameterLimits,
+						optionalParams, &funcParamCounts);
 	  if (status < 0) {
 	    fprintf(stderr, "ERROR MESSAGE ABOUT FAILURE IN ParseFunctionSection\n");
 	    return -1;
@@ -643,6 +730,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
 	  imageInfoList[k].perImageFuncNames = funcNameList;
 	  imageInfoList[k].perImageFuncLabels = funcLabelList;
 	  imageInfoList[k].perImageFuncSetIndices = funcSetStartIndices;
+	  imageInfoList[k].perImageFuncParamCounts = funcParamCounts;
 	  imageInfoList[k].perImageParamVals = funcParams;
 	  imageInfoList[k].perImageParamLimitsExist = paramLimitsExist;
 	  imageInfoList[k].perImageParamLimits = funcParamLimits;
diff --git a/core/imageparams_file_parser.h b/core/imageparams_file_parser.h
index e5e8d2d..f0c2606 100644
--- a/core/imageparams_file_parser.h
+++ b/core/imageparams_file_parser.h
@@ -26,7 +26,8 @@ const int  IMAGEPARAMS_FILE_ERROR_BADLINE = -4;
 bool VetInputLines( const vector<string> &lines, const vector<int> &lineNumbers,
 					vector<int> &errorCodes, vector<int> &badLineNumbers );
 
-std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine );
+std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine,
+											bool checkParameterLimits=true );
 
 // two versions of this: first is simpler version for use by makemultimates
 // (no parameter limit info), second is for use by multimfit (includes parsing
@@ -38,12 +39,14 @@ std::tuple<double *, int>  GetImageDescriptionParams( const vector<ImageInfo> im
 											vector<mp_par>& imageParamLimits,
 											bool& paramLimitsExist );
 
-int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo );
+int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo,
+						bool checkParameterLimits=true );
 
-int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoList );
+int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoList,
+						bool checkParameterLimits=true );
 
 int ReadImageParamsFile( const string& configFileName, int& nImages,
-						vector<ImageInfo>& imageInfoList );
+						vector<ImageInfo>& imageInfoList, bool checkParameterLimits=true );
 
 
 #endif  // _IMAGEPARAMS_FILE_PARSER_H_
diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 4fc7af5..4e0fdec 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -172,7 +172,12 @@ int main( int argc, char *argv[] )
              options->imageInfoFile.c_str());
       return -1;
     }
-    status = ReadImageParamsFile(options->imageInfoFile, nImages, imageInfoVect);
+    status = ReadImageParamsFile(options->imageInfoFile, nImages, imageInfoVect, false);
+    if (status < 0) {
+      fprintf(stderr, "\n*** ERROR: Problems parsing image-info file \"%s\"!\n\n", 
+             options->imageInfoFile.c_str());
+      return -1;
+    }
     std::tie(imageDescParamsVect, nImageDescParams) = GetImageDescriptionParams(imageInfoVect);
     printf("Image-description params from image-info file \"%s\": ", options->imageInfoFile.c_str());
     for (int i = 0; i < nImageDescParams; i++)
@@ -270,6 +275,9 @@ int main( int argc, char *argv[] )
     if (imageInfoVect[i].perImageFunctionsExist) {
       int  nLocalFuncs = imageInfoVect[i].perImageFuncNames.size();
       printf("Image %d: %d local functions found!\n", i, nLocalFuncs);
+      if (CheckFunctionParameterCounts(imageInfoVect[i].perImageFuncNames,
+      									imageInfoVect[i].perImageFuncParamCounts) < 0)
+        exit(-1);
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 1ec72b6..38c9895 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -408,6 +408,9 @@ int main(int argc, char *argv[])
     if (imageInfoVect[i].perImageFunctionsExist) {
       int  nLocalFuncs = imageInfoVect[i].perImageFuncNames.size();
       printf("Image %d: %d local functions found!\n", i, nLocalFuncs);
+      if (CheckFunctionParameterCounts(imageInfoVect[i].perImageFuncNames,
+      									imageInfoVect[i].perImageFuncParamCounts) < 0)
+        exit(-1);
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
-- 
2.43.0


From 0e3093d79c484abe2a300327df5107db70f98b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 21/43] fix: local function sets were indexed per function
 instead of per set

---
 core/makemultimages_main.cpp | 6 ++++--
 core/multimfit_main.cpp      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 4e0fdec..79952d3 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -281,12 +281,14 @@ int main( int argc, char *argv[] )
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
+        //FIXME: handle any extra, local-function optional-parameter-map values
+        globalFuncFlags.push_back(false);
+      }
+      for (int j = 0; j < (int)imageInfoVect[i].perImageFuncSetIndices.size(); j++) {
         printf("newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j]");
         printf("  %d + %d\n", nGlobalFuncs, imageInfoVect[i].perImageFuncSetIndices[j]);
         int  newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j];
         currentFunctionSetIndices.push_back(newFunctionSetIndex);
-        //FIXME: handle any extra, local-function optional-parameter-map values
-        globalFuncFlags.push_back(false);
       }
     }
     printf("function list: ");
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 38c9895..a9ab211 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -414,12 +414,14 @@ int main(int argc, char *argv[])
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
+        //FIXME: handle any extra, local-function optional-parameter-map values
+        globalFuncFlags.push_back(false);
+      }
+      for (int j = 0; j < (int)imageInfoVect[i].perImageFuncSetIndices.size(); j++) {
         printf("newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j]");
         printf("  %d + %d\n", nGlobalFuncs, imageInfoVect[i].perImageFuncSetIndices[j]);
         int  newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j];
         currentFunctionSetIndices.push_back(newFunctionSetIndex);
-        //FIXME: handle any extra, local-function optional-parameter-map values
-        globalFuncFlags.push_back(false);
       }
     }
 #ifdef USE_LOGGING
-- 
2.43.0


From a08bf6f8872d5f7c15ca75dfb697abb76bc2e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:55 +0000
Subject: [PATCH 22/43] fix: uninitialised function counts in ModelObject
 (random crashes in multimfit and makemultimages)

---
 core/model_object.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 35e6c3f..d3849de 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -156,6 +156,9 @@ ModelObject::ModelObject( )
   nFunctionSets = 0;
   nFunctionParams = 0;
   nParamsTot = 0;
+  nGlobalFunctions = 0;
+  nPerImageFunctionSets = 0;
+  nPerImageParams = 0;
   nOversampledRegions = 0;
   debugLevel = 0;
   verboseLevel = 0;
-- 
2.43.0


From a23db1a55d8b2a218254397363483b955eb0d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:55 +0000
Subject: [PATCH 23/43] fix: imfit-mcmc needs at least three chains and one
 free parameter (aborted with one free parameter); saved chains are checked
 when a run is resumed, with image-section offsets applied

---
 cdream/dream.cpp         | 16 ++++++++--
 cdream/dream_params.h    |  1 +
 cdream/restore_state.cpp | 69 ++++++++++++++++++++++++++++++++++------
 core/mcmc_main.cpp       | 31 +++++++++++++++---
 4 files changed, 101 insertions(+), 16 deletions(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 0dc7cc1..e8f0faf 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -80,6 +80,12 @@ int dream( const dream_pars* p, rng::RngStream* rng )
   Array3D<double> state(p->maxEvals, p->numChains, p->nvar);
   Array2D<double> lik(p->maxEvals + 1, p->numChains);
 
+  if ((state.pt() == nullptr) || (lik.pt() == nullptr)) {
+    fprintf(stderr, "DREAM: not enough memory for %d generations of %d chains!\n", p->maxEvals,
+    		p->numChains);
+    return DREAM_EXIT_ERROR;
+  }
+
   Array2D<double> proposal(p->numChains, p->nvar);
   Array2D<double> proposal_two(p->numChains, p->nvar);
   proposal.set_all(0.0);
@@ -96,6 +102,11 @@ int dream( const dream_pars* p, rng::RngStream* rng )
 
   int prevLines = dream_restore_state(p, state, lik, pCR, inBurnIn);
   if (prevLines < 0) {
+    free(tempParams);
+    if (prevLines < -1) {
+      fprintf(stderr, "DREAM: problem with previous MCMC output files!\n");
+      return DREAM_EXIT_ERROR;
+    }
     fprintf(stderr, "DREAM: previous MCMC output files not found!\n");
     return DREAM_EXIT_NO_OUTPUT_FILES;
   }
@@ -376,7 +387,8 @@ int dream( const dream_pars* p, rng::RngStream* rng )
         if (delta_sum > 0.0) {
           pCR_sum = 0.0;
           for (int m = 0; m < p->nCR; ++m) {
-            pCR[m] = (delta_tot[m]/delta_sum) / totalSteps[m];  // relative jump size per step
+            if (totalSteps[m] > 0)
+              pCR[m] = (delta_tot[m]/delta_sum) / totalSteps[m];  // relative jump size per step
             pCR_sum += pCR[m];
           }
           for (int m = 0; m < p->nCR; ++m) {
@@ -475,7 +487,7 @@ int dream( const dream_pars* p, rng::RngStream* rng )
 
   for (int i(0); i < p->numChains; ++i) {
     // close output files
-    if (oout[i] != nullptr) 
+    if (oout[i] != &cout) 
       delete oout[i];
   }
 
diff --git a/cdream/dream_params.h b/cdream/dream_params.h
index d785b6d..eb6e147 100644
--- a/cdream/dream_params.h
+++ b/cdream/dream_params.h
@@ -50,6 +50,7 @@ typedef struct t_dream_pars {
   double* varInit;
   int* varLock;
   vector<string> parameterNames;
+  vector<double> paramOffsets;  // (file value) - (internal value), for restoring saved states
 
   LikelihoodFunction fun;
   void* extraData;
diff --git a/cdream/restore_state.cpp b/cdream/restore_state.cpp
index f56e0b7..9245411 100644
--- a/cdream/restore_state.cpp
+++ b/cdream/restore_state.cpp
@@ -1,14 +1,36 @@
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
+#include <string>
 #include <vector>
 #include <stdio.h>
+#include <stdlib.h>
 
 using namespace std;
 
 #include "dream.h"
 #include "array.h"
 
+
+// Converts the next whitespace-separated token of a row to a finite number;
+// returns false if there isn't one
+static bool NextNumber( istringstream& row, double& value )
+{
+  string  token;
+  char  *endPtr = nullptr;
+
+  if (! (row >> token))
+    return false;
+  value = strtod(token.c_str(), &endPtr);
+  return ( (*endPtr == '\0') && std::isfinite(value) );
+}
+
+
+// Reads the state of all the chains from the output files of a previous run.
+// Returns the index of the last generation present in *all* of the files, -1 if
+// a file is missing (or has no generations at all), or -2 if the contents of a file
+// are not a valid state for the current model.
 int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<double>& lik,
     					vector<double>& pCR, int& inBurnIn )
 {
@@ -21,6 +43,7 @@ int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<do
       if (p->verboseLevel > 0)
         printf("%d ", i);
       int line = 0;
+      int lineNumber = 0;
       ostringstream chainFilename("");
       chainFilename << p->outputRootname << "." << i + 1 << ".txt";
       ifstream ifile(chainFilename.str().c_str());
@@ -30,28 +53,56 @@ int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<do
         break;
       } else {
         string input;
-        while (! getline(ifile, input).eof()) {
+        while (getline(ifile, input)) {
+          ++lineNumber;
           if (line >= p->maxEvals) 
             break;
           if (input.length() == 0) 
             continue;
           if (input[0] == '#') 
             continue;
+          // a row ends with a newline and has nvar parameter values, the likelihood,
+          // burn-in flag, nCR crossover probabilities, and acceptance flag
+          bool rowOK = ! ifile.eof();
+          double value, burnInFlag;
+          string extra;
           istringstream istr(input);
-          for (int j = 0; j < p->nvar; ++j) 
-            istr >> state(line,i,j); 
-          istr >> lik(line,i) >> inBurnIn;
-          for (int j(0); j < p->nCR; ++j) 
-            istr >> pCR[j];
+          for (int j = 0; rowOK && (j < p->nvar); ++j) {
+            rowOK = NextNumber(istr, value);
+            if (rowOK) {
+              if (p->paramOffsets.size() > 0)
+                value -= p->paramOffsets[j];
+              // values in the files are rounded, so they can be slightly outside the limits
+              double tolerance = 1.0e-8*(fabs(value) + fabs(p->varLo[j]) + fabs(p->varHi[j]));
+              if (p->paramOffsets.size() > 0)
+                tolerance += 1.0e-8*fabs(p->paramOffsets[j]);
+              rowOK = ( (value >= p->varLo[j] - tolerance) && (value <= p->varHi[j] + tolerance) );
+              if (value < p->varLo[j])
+                value = p->varLo[j];
+              if (value > p->varHi[j])
+                value = p->varHi[j];
+              state(line,i,j) = value;
+            }
+          }
+          rowOK = rowOK && NextNumber(istr, lik(line,i)) && NextNumber(istr, burnInFlag)
+          		&& ((burnInFlag == 0.0) || (burnInFlag == 1.0));
+          if (rowOK)
+            inBurnIn = (int)burnInFlag;
+          for (int j = 0; rowOK && (j < p->nCR); ++j) 
+            rowOK = NextNumber(istr, pCR[j]) && (pCR[j] >= 0.0) && (pCR[j] <= 1.0);
+          rowOK = rowOK && NextNumber(istr, value) && (! (istr >> extra));
+          if (! rowOK) {
+            fprintf(stderr, "   line %d of MCMC output file \"%s\" is not a valid state of the current model!\n",
+            		lineNumber, chainFilename.str().c_str());
+            return -2;
+          }
           ++line;
         }
         ifile.close();
-        if (prevLines > line) 
+        if (prevLines > line - 1)
           prevLines = line - 1;
       }
     }
   }
   return prevLines;
 }
-
-
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index 4740c11..286b488 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -78,6 +78,9 @@ static string  kOriginalSkyString = "ORIGINAL_SKY";
 
 const string  LOG_FILENAME = "log_imfit-mcmc.txt";
 
+// minimum number of chains needed by the differential-evolution sampler
+const int  MIN_MCMC_CHAINS = 3;
+
 
 #ifdef USE_OPENMP
 #define VERSION_STRING      "1.9.0 (OpenMP-enabled)"
@@ -268,6 +271,10 @@ int main(int argc, char *argv[])
     if (parameterInfo[i].fixed == 1)
       nFreeParams--;
   }
+  if (nFreeParams <= 0) {
+    fprintf(stderr, "\n*** ERROR: all parameters are fixed, so there is nothing to sample!\n\n");
+    exit(-1);
+  }
   nDegFreedom = (long)(theModel->GetNValidPixels() - nFreeParams);
   printf("%d free parameters (%ld degrees of freedom)\n", nFreeParams, nDegFreedom);
 
@@ -394,8 +401,12 @@ int main(int argc, char *argv[])
 
   // Default is nChains = N_free_params (dimensionality of parameter space)
   if (options->nChains <= 0) {
-    printf("Setting nChains = %d (nFreeParams)\n", nFreeParams);
-    options->nChains = nFreeParams;
+    // differential-evolution proposals need at least two other chains
+    options->nChains = (nFreeParams > MIN_MCMC_CHAINS) ? nFreeParams : MIN_MCMC_CHAINS;
+    if (options->nChains == nFreeParams)
+      printf("Setting nChains = %d (nFreeParams)\n", options->nChains);
+    else
+      printf("Setting nChains = %d (minimum)\n", options->nChains);
   }
 
   dream_pars dreamPars;
@@ -416,8 +427,10 @@ int main(int argc, char *argv[])
   dreamPars.noise = options->mcmcNoise;
   dreamPars.bstar_zero = options->mcmc_bstar;
   dreamPars.verboseLevel = options->verbose;
-  for (int i = 0; i < nParamsTot; i++)
+  for (int i = 0; i < nParamsTot; i++) {
     dreamPars.parameterNames.push_back(paramNames[i]);
+    dreamPars.paramOffsets.push_back(parameterInfo[i].offset);
+  }
 
   // Construct header using parameter names, etc.
   programHeader.push_back("#\n# Model definition:\n");
@@ -445,7 +458,10 @@ int main(int argc, char *argv[])
 
   // OK, now we execute the MCMC process
   printf("\nStart of MCMC processing...\n");
-  dream(&dreamPars, &rng);
+  if (dream(&dreamPars, &rng) < 0) {
+    fprintf(stderr, "*** ERROR: MCMC processing could not be carried out!\n\n");
+    exit(-1);
+  }
   printf("\nMCMC chains written to output files %s.1.txt through %s.%d.txt", 
   		options->outputFileRoot.c_str(), options->outputFileRoot.c_str(), options->nChains);
 
@@ -530,7 +546,7 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MCMCOptions> theOptions )
   optParser->AddUsageLine("");
   optParser->AddUsageLine(" -o  --output <output-root>       root name for output MCMC chain files [default = mcmc_out]");
   optParser->AddUsageLine("     --append                     load state from existing output files and continue from there");
-  optParser->AddUsageLine("     --nchains <int>              Number of separate MCMC chains [default = # free parameters in model]");
+  optParser->AddUsageLine("     --nchains <int>              Number of separate MCMC chains [default = # free parameters in model; minimum = 3]");
   optParser->AddUsageLine("     --max-chain-length <int>     Maximum number of likelihood evaluations per chain [default = 100000]");
   optParser->AddUsageLine("     --burnin-length <int>        Number of generations in burn-in phase [default = 5000]");
   optParser->AddUsageLine("     --gelman-evals <int>         Perform Gelman-Rubin convergence check every N generations [default = 5000]");
@@ -800,6 +816,11 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MCMCOptions> theOptions )
       exit(1);
     }
     theOptions->nChains = atol(optParser->GetTargetString("nchains").c_str());
+    if (theOptions->nChains < MIN_MCMC_CHAINS) {
+      fprintf(stderr, "*** ERROR: number of chains should be at least %d!\n", MIN_MCMC_CHAINS);
+      delete optParser;
+      exit(1);
+    }
     printf("\tNumber of chains = %d\n", theOptions->nChains);
   }
   if (optParser->OptionSet("max-chain-length")) {
-- 
2.43.0


From ae8f6951534adfc66835269e6829b4bdeb491ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:12 +0000
Subject: [PATCH 24/43] fix: OptionsBase leaves the choice of statistic
 uninitialised for multimfit

---
 core/options_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/options_base.h b/core/options_base.h
index 259ffd3..93acbcf 100644
--- a/core/options_base.h
+++ b/core/options_base.h
@@ -68,6 +68,9 @@ class OptionsBase
 
       printFitStatisticOnly = false;
       solver = MPFIT_SOLVER;
+      useModelForErrors = false;
+      useCashStatistic = false;
+      usePoissonMLR = false;
 
       subsamplingFlag = true;
 
-- 
2.43.0


From 1411c901da779f25cea064d5c5ec3377fa4ae81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:12 +0000
Subject: [PATCH 25/43] fix: multimfit reads past the parameter list when
 images have local functions

---
 core/multimfit_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index a9ab211..63da21b 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -666,7 +666,7 @@ int main(int argc, char *argv[])
     paramsVect[i] = imageDescParamsVect[i];
   if (options->loggingOn)
     LOG_F(INFO, "Copying initial model parameter values into paramsVect...");
-  for (int i = nImageDescParams; i < nParamsTot; i++)
+  for (int i = nImageDescParams; i < nInputParams_nonLocal; i++)
     paramsVect[i] = parameterList[i - nImageDescParams];
   for (int i = nInputParams_nonLocal; i < nInputParamsTot; i++)
     paramsVect[i] = localParamsList[i - nInputParams_nonLocal];
-- 
2.43.0


From 69aa89b8cb6685a2ea71769046477ae8e5e57323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:43 +0000
Subject: [PATCH 26/43] fix: multimfit gave local functions no parameter names
 (crash) and no image-section offsets

---
 core/model_object_multimage.cpp | 13 +++++++++
 core/model_object_multimage.h   |  2 ++
 core/utilities_multimfit.cpp    | 48 ++++++++++++++++++---------------
 3 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index ea0147e..0ee5234 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -285,6 +285,9 @@ int ModelObjectMultImage::FinalModelSetup( )
     nPerImageParamsForModelObjects.push_back(nExtra);
     if (nExtra > 0) {
       nPerImageParams += nExtra;
+      // add names of this image's local-function parameters
+      for (int j = nGlobalFuncParams; j < nParamsThisImage; j++)
+        parameterLabels.push_back(modelObjectsVect[i]->GetParameterName(j));
     }
   }
   nParamsTot += nPerImageParams;
@@ -629,6 +632,16 @@ std::tuple<int, int> ModelObjectMultImage::GetOffsetsForImage( int imageNumber )
 
 
 
+/* ---------------- PUBLIC METHOD: GetNPerImageParams ----------------- */
+/// Returns the number of parameters of local, per-image functions (including their
+/// X0,Y0 values) for the specified data image.
+int ModelObjectMultImage::GetNPerImageParams( int imageNumber )
+{
+  return nPerImageParamsForModelObjects[imageNumber];
+}
+
+
+
 /* ---------------- PUBLIC METHOD: GetDataFilename -------------------- */
 /// Returns the x and y offsets for the specified data image.
 string ModelObjectMultImage::GetDataFilename( int imageNumber )
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 19de69c..92197de 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -61,6 +61,8 @@ class ModelObjectMultImage : public ModelObject
     void GetAllImageDescriptionParameters( double params[], double outputImageParams[] );
 
     std::tuple<int, int> GetOffsetsForImage( int imageNumber );
+
+    int GetNPerImageParams( int imageNumber );
     
     string GetDataFilename( int imageNumber );
 
diff --git a/core/utilities_multimfit.cpp b/core/utilities_multimfit.cpp
index fe685f8..b3a6344 100644
--- a/core/utilities_multimfit.cpp
+++ b/core/utilities_multimfit.cpp
@@ -37,7 +37,7 @@ void CorrectForImageOffsets( double *paramVect, vector<mp_par> &paramLimits,
   int  nParamsTot = multImageModel->GetNParams();
   int  nImages = multImageModel->GetNImages();
   int  nImageParams = N_IMAGE_PARAMS * (nImages - 1);
-  int  xOffset_this, yOffset_this, xOffset_ref, yOffset_ref;
+  int  xOffset_this, yOffset_this;
   int  i_x0, i_y0;
   
 //   for(int i = 0; i < nParamsTot; i++)
@@ -70,33 +70,37 @@ void CorrectForImageOffsets( double *paramVect, vector<mp_par> &paramLimits,
   }
   
   // Apply reference-image offsets to main model's function-block X0,Y0 sets
-  // (reference-image coordinates)
-  std::tie(xOffset_ref,yOffset_ref) = multImageModel->GetOffsetsForImage(0);
-//   printf("Offsets for reference image: %d,%d\n", xOffset_ref,yOffset_ref);
-  for (int i = nImageParams; i < nParamsTot; i++) {
-    if (multImageModel->GetParameterName(i) == X0_string) {
-//       printf("[X0:]     paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramVect[i] -= xOffset_ref;
-//       printf("     updated paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramLimits[i].offset = xOffset_ref;
-      if (paramLimits[i].limited[0] == 1)
-        paramLimits[i].limits[0] -= xOffset_ref;
-      if (paramLimits[i].limited[1] == 1)
-        paramLimits[i].limits[1] -= xOffset_ref;
-    } else if (multImageModel->GetParameterName(i) == Y0_string) {
-//       printf("[Y0:]     paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramVect[i] -= yOffset_ref;
-//       printf("     updated paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramLimits[i].offset = yOffset_ref;
+  // (reference-image coordinates), and each image's own offsets to the X0,Y0 values 
+  // of its local, per-image functions (coordinates of that image)
+  int  nPerImageParamsTot = 0;
+  for (int n = 0; n < nImages; n++)
+    nPerImageParamsTot += multImageModel->GetNPerImageParams(n);
+  int  i = nImageParams;
+  int  nextBlockStart = nParamsTot - nPerImageParamsTot;
+  int  imageNumber = -1;   // -1 = main (global) model
+  while (i < nParamsTot) {
+    while (i == nextBlockStart) {
+      imageNumber++;
+      nextBlockStart += multImageModel->GetNPerImageParams(imageNumber);
+    }
+    int  offset = 0;
+    std::tie(xOffset_this,yOffset_this) = multImageModel->GetOffsetsForImage(imageNumber < 0 ? 0 : imageNumber);
+    if (multImageModel->GetParameterName(i) == X0_string)
+      offset = xOffset_this;
+    else if (multImageModel->GetParameterName(i) == Y0_string)
+      offset = yOffset_this;
+    if (offset != 0) {
+      paramVect[i] -= offset;
+      paramLimits[i].offset = offset;
       if (paramLimits[i].limited[0] == 1)
-        paramLimits[i].limits[0] -= yOffset_ref;
+        paramLimits[i].limits[0] -= offset;
       if (paramLimits[i].limited[1] == 1)
-        paramLimits[i].limits[1] -= yOffset_ref;
+        paramLimits[i].limits[1] -= offset;
     }
+    i++;
   }
 }
 
 
 
 /* END OF FILE: utilities_multimfit.cpp ---------------------------- */
-
-- 
2.43.0


From aa4564a730990549b3a04a7975beefe58957f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:28 +0000
Subject: [PATCH 27/43] fix: functions before the first X0 line of a
 configuration file were silently dropped

---
 core/config_file_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index fe5bac3..a2a8bcf 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -306,6 +306,9 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
       }
       break;
     }
+    // a function which comes before the first X0 line has no center
+    if (StartsWithKeyword(inputLines[i], "FUNCTION"))
+      break;
     i++;
   }
   
-- 
2.43.0


From fe282d4ea216d5d24f81cb5eb6cd9292d39616b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:37 +0000
Subject: [PATCH 28/43] fix: a FITS image without pixels was accepted, then
 stopped the program in an assertion

---
 core/image_io.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index 711f71d..5dc495c 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -124,8 +124,12 @@ bool CheckHDUForImage( fitsfile *imageFile_ptr, int hduNum, int *status_ptr )
   fits_movabs_hdu(imageFile_ptr, hduNum, &hduType, status_ptr);
   if (hduType == IMAGE_HDU) {   /* primary array or image HDU */
     fits_get_img_dim(imageFile_ptr, &naxis, status_ptr);
-    if (naxis == 2)
-      validImageFlag = true;
+    if (naxis == 2) {
+      // an image without any pixels is not usable
+      long  naxes[2] = {0, 0};
+      fits_get_img_size(imageFile_ptr, 2, naxes, status_ptr);
+      validImageFlag = (naxes[0] > 0) && (naxes[1] > 0);
+    }
   }
   return validImageFlag;
 }
-- 
2.43.0


From b79c46fb75822c23b98410337ee834e545f97459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 29/43] fix: a truncated output image was not reported when
 cfitsio's last buffers could not be written

---
 core/image_io.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index 5dc495c..3d340c9 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -90,6 +90,7 @@
 /* ------------------------ Include Files (Header Files )--------------- */
 
 #include <stdlib.h>
+#include <fstream>
 #include <string>
 #include <vector>
 #include <tuple>
@@ -370,6 +371,27 @@ int SaveVectorAsImage( double *pixelVector, const std::string filename, int nCol
     return -1;
   }
   
+  // cfitsio does not report failures (e.g., disk full) which happen when its final 
+  // buffers are written, so check that the last pixel can be read back (if the
+  // output is an ordinary file)
+  std::ifstream  outputFile(filename);
+  if (outputFile.is_open()) {
+    long  lastPixel[2] = {naxes[0], naxes[1]};
+    double  lastValue;
+    problems = fits_open_diskfile(&imfile_ptr, filename.c_str(), READONLY, &status);
+    if (! problems) {
+      int  closeStatus = 0;
+      problems = fits_read_pix(imfile_ptr, TDOUBLE, lastPixel, 1, nullptr, &lastValue,
+    						nullptr, &status);
+      fits_close_file(imfile_ptr, &closeStatus);
+    }
+  }
+  if ( problems ) {
+    fprintf(stderr, "\n*** WARNING: FITS file \"%s\" was not completely written!\n    FITSIO error messages follow:", filename.c_str());
+    PrintError(status);
+    return -1;
+  }
+  
   return 0;
 }
 
-- 
2.43.0


From a1654415c2587c11320d8f40235573836c44499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 30/43] fix: Levenberg-Marquardt could report the statistic of
 a rejected trial step instead of that of the returned parameters

---
 solvers/mpfit.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/solvers/mpfit.cpp b/solvers/mpfit.cpp
index 4c7e31f..ca4f1ae 100644
--- a/solvers/mpfit.cpp
+++ b/solvers/mpfit.cpp
@@ -1049,8 +1049,9 @@ int mpfit( mp_func funct, int m, int npar, double *xall, mp_par *pars, mp_config
   }      
 
   if (result) {
-    result->bestnorm = mp_dmax1(fnorm,fnorm1);
-    result->bestnorm *= result->bestnorm;
+    // fnorm is the value for the returned parameters; fnorm1 may be that of a
+    // rejected trial step
+    result->bestnorm = fnorm*fnorm;
     result->orignorm = orignorm;
     result->status   = info;
     result->niter    = iter;
-- 
2.43.0


From 94a626578f6d6757523ef0c471b58e2e5cabcfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 31/43] fix: best-fit values saved after bootstrap resampling
 were those of the last resample

---
 core/bootstrap_errors.cpp       | 5 +++++
 core/model_object.cpp           | 9 +++++++++
 core/model_object.h             | 2 ++
 core/model_object_multimage.cpp | 9 +++++++++
 core/model_object_multimage.h   | 2 ++
 5 files changed, 27 insertions(+)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 008e70a..b3376dc 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -242,6 +242,8 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   }
   printf("\n");
 
+  // subsequent computations (e.g., for saving the best fit) should use the actual data
+  theModel->StopBootstrap();
  
   free(paramsVect);
   free(paramOffsets);
@@ -329,6 +331,9 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   if (verboseFlag)
     printf("\n");
 
+  // subsequent computations should use the actual data
+  theModel->StopBootstrap();
+
   free(paramsVect);
   free(paramOffsets);
 
diff --git a/core/model_object.cpp b/core/model_object.cpp
index d3849de..28ac89e 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2071,6 +2071,15 @@ int ModelObject::UseBootstrap( )
 }
 
 
+/* ---------------- PUBLIC METHOD: StopBootstrap ----------------------- */
+/// Tells ModelObject to leave bootstrap resampling mode, so that subsequent 
+/// computations use the actual data again.
+void ModelObject::StopBootstrap( )
+{
+  doBootstrap = false;
+}
+
+
 /* ---------------- PUBLIC METHOD: MakeBootstrapSample ----------------- */
 /// Generate a new bootstrap resampling of the data (more precisely, this generate a
 /// bootstrap resampling of the data *indices*)
diff --git a/core/model_object.h b/core/model_object.h
index bff72f2..533588f 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -258,6 +258,8 @@ class ModelObject
 
 
     virtual int UseBootstrap( );
+
+    virtual void StopBootstrap( );
     
     virtual int MakeBootstrapSample( );
     
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 0ee5234..4a6a37f 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -751,6 +751,15 @@ int ModelObjectMultImage::UseBootstrap( )
 }
 
 
+/* ---------------- PUBLIC METHOD: StopBootstrap ----------------------- */
+/// Tells the individual ModelObject instances to leave bootstrap resampling mode.
+void ModelObjectMultImage::StopBootstrap( )
+{
+  for (int i = 0; i < nModelObjects; i++)
+    modelObjectsVect[i]->StopBootstrap();
+}
+
+
 /* ---------------- PUBLIC METHOD: MakeBootstrapSample ----------------- */
 /// Generate a new bootstrap resampling of the data (more precisely, this generate a
 /// bootstrap resampling of the data *indices*).
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 92197de..8c7a7be 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -95,6 +95,8 @@ class ModelObjectMultImage : public ModelObject
     int GetNImages( ) override;
 
     int UseBootstrap( ) override;
+
+    void StopBootstrap( ) override;
     
     int MakeBootstrapSample( ) override;
 
-- 
2.43.0


From 75e7189c3b10818d6033551b5636ab1cb17855d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 32/43] fix: unsupported image sections were accepted with
 wrong pixel coordinates

---
 core/imfit_main.cpp     |  5 +++
 core/mcmc_main.cpp      |  5 +++
 core/multimfit_main.cpp |  5 +++
 core/utilities.cpp      | 72 +++++++++++++++++++++++++----------------
 4 files changed, 59 insertions(+), 28 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 6199825..e6bc0ec 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -209,6 +209,11 @@ int main(int argc, char *argv[])
            nColumns, nRows, nPixels_tot);
   // Determine X0,Y0 pixel offset values if user specified an image section
   std::tie(X0_offset, Y0_offset) = DetermineImageOffset(options->imageFileName);
+  if ((X0_offset < 0) || (Y0_offset < 0)) {
+    fprintf(stderr, "\n*** ERROR: Unsupported image section in \"%s\"!\n\n", 
+    			options->imageFileName.c_str());
+    exit(-1);
+  }
 
   // Get (and check) mask and/or error images
   std::tie(allMaskPixels, allErrorPixels, status) = GetMaskAndErrorImages(nColumns, nRows, 
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index 286b488..7eff337 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -204,6 +204,11 @@ int main(int argc, char *argv[])
            nColumns, nRows, nPixels_tot);
   // Determine X0,Y0 pixel offset values if user specified an image section
   std::tie(X0_offset, Y0_offset) = DetermineImageOffset(options->imageFileName);
+  if ((X0_offset < 0) || (Y0_offset < 0)) {
+    fprintf(stderr, "\n*** ERROR: Unsupported image section in \"%s\"!\n\n", 
+    			options->imageFileName.c_str());
+    exit(-1);
+  }
 
 
   // Get (and check) mask and/or error images
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 63da21b..12bbeec 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -340,6 +340,11 @@ int main(int argc, char *argv[])
     // Determine X0,Y0 pixel offset values if user specified an image section
     int  X0_offset_current, Y0_offset_current;
     std::tie(X0_offset_current, Y0_offset_current) = DetermineImageOffset(imageInfoVect[i].dataImageFileName);
+    if ((X0_offset_current < 0) || (Y0_offset_current < 0)) {
+      fprintf(stderr, "\n*** ERROR: Unsupported image section in \"%s\"!\n\n", 
+      			imageInfoVect[i].dataImageFileName.c_str());
+      exit(-1);
+    }
 
     // Get (and check) mask and/or error images
     if ((imageInfoVect[i].maskImage_present) || (imageInfoVect[i].errorImage_present)) {
diff --git a/core/utilities.cpp b/core/utilities.cpp
index 1c051c7..8c39709 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -356,6 +356,35 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
   return std::make_tuple(x1, x2, y1, y2);
 }
 
+/* ---------------- FUNCTION: GetStartCoordFromRange() -------------- */
+// Given one part of an image section -- "n1:n2" (with 1 <= n1 <= n2) or "*" -- 
+// return the starting coordinate (n1, or 1 for "*"). Returns 0 for anything else
+// (including reversed ranges and ranges with steps, for which image coordinates 
+// would not be a simple offset from the coordinates of the full image).
+static int GetStartCoordFromRange( const string& inputRange )
+{
+  string::size_type  startIndex = inputRange.find_first_not_of(" \t");
+  string::size_type  endIndex = inputRange.find_last_not_of(" \t");
+  vector<string>  rangePieces;
+  int  n1, n2;
+  
+  if (startIndex == string::npos)
+    return 0;
+  string  range = inputRange.substr(startIndex, endIndex - startIndex + 1);
+  if (range == "*")
+    return 1;
+  SplitString(range, rangePieces, ":");
+  if ((rangePieces.size() != 2) || (range.find_first_not_of("0123456789: \t") != string::npos)
+  		|| (range[0] == ':'))
+    return 0;
+  n1 = atoi(rangePieces[0].c_str());
+  n2 = atoi(rangePieces[1].c_str());
+  if ((n1 < 1) || (n2 < n1))
+    return 0;
+  return n1;
+}
+
+
 /* ---------------- FUNCTION: GetStartCoordsFromBracket() ----------- */
 /// Given a string of the form "x1:x2,y1:y2", return x1 and y1. Special cases:
 ///    1. "*,y1:y2" ==> returns 1, y1;
@@ -363,39 +392,25 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
 std::tuple<int, int>  GetStartCoordsFromBracket( const string& bracketString,
                            							const string& fileName )
 {
-  vector<string>  sectionPieces, subsectionPieces_x, subsectionPieces_y;
-  const string star = string("*");
+  vector<string>  sectionPieces;
   int x1, y1;
 
-  // default values indicating errors:
-  x1 = y1 = 0;
-  
   SplitString(bracketString, sectionPieces, ",");
   // handle the x part of the section specification
-  if (sectionPieces[0] == star)
-    x1 = 1;
-  else {
-    SplitString(sectionPieces[0], subsectionPieces_x, ":");
-    if (subsectionPieces_x.size() != 2) {
-      fprintf(stderr, "\nWARNING1: Incorrect image section format in \"%s\"!\n",
+  x1 = GetStartCoordFromRange(sectionPieces[0]);
+  if (x1 < 1) {
+    fprintf(stderr, "\nWARNING1: Incorrect image section format in \"%s\"!\n",
     					fileName.c_str());
-      fprintf(stderr, "\t\"%s\"\n", bracketString.c_str());
-      return std::make_tuple(0,0);
-    }
-    x1 = atoi(subsectionPieces_x[0].c_str());
+    fprintf(stderr, "\t\"%s\"\n", bracketString.c_str());
+    return std::make_tuple(0,0);
   }
   // handle the y part of the section specification
-  if (sectionPieces[1] == star)
-    y1 = 1;
-  else {
-    SplitString(sectionPieces[1], subsectionPieces_y, ":");
-    if (subsectionPieces_y.size() != 2) {
-      fprintf(stderr, "\nWARNING2: Incorrect image section format in \"%s\"!\n",
+  y1 = GetStartCoordFromRange(sectionPieces[1]);
+  if (y1 < 1) {
+    fprintf(stderr, "\nWARNING2: Incorrect image section format in \"%s\"!\n",
     					fileName.c_str());
-      fprintf(stderr, "\t\"%s\"\n", bracketString.c_str());
-      return std::make_tuple(0,0);
-    }
-    y1 = atoi(subsectionPieces_y[0].c_str());
+    fprintf(stderr, "\t\"%s\"\n", bracketString.c_str());
+    return std::make_tuple(0,0);
   }
   return std::make_tuple(x1, y1);
 }
@@ -447,15 +462,16 @@ std::tuple<int, int> GetPixelStartCoords( const string& inputFilename )
   SplitString(sectionSubstring, sectionPieces, ",");
   nPieces = sectionPieces.size();
   // two valid possibilites: an image section (nPieces = 2) or an extension number
-  // (nPieces = 1)
-  if (nPieces == 2) {
+  // (nPieces = 1) or name (possibly with version number)
+  bool  isSection = (sectionSubstring.find_first_of(":*") != string::npos);
+  if ((nPieces == 2) && isSection) {
     // apparently an image section
     std::tie(xStart, yStart) = GetStartCoordsFromBracket(sectionSubstring, inputFilename);
     // we found a valid (or invalid) image section; ignore anything else...
     return std::make_tuple(xStart, yStart);
   }
   // if we don't have an image section, we need to have an image extension number
-  if ((nPieces != 1) || (sectionSubstring.size() < 1)) {
+  if ((nPieces > 2) || isSection || (sectionSubstring.size() < 1)) {
     fprintf(stderr, "\nWARNING: Incorrect image section format in \"%s\"!\n",
   					inputFilename.c_str());
     return std::make_tuple(0,0);
-- 
2.43.0


From 4c18bdbc616c577e29b2f9462a7db9aee0835736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 33/43] fix: an image section with blanks around the comma is
 rejected (cfitsio reads different pixels than the section says)

---
 core/utilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 8c39709..ce2ada3 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -397,8 +397,9 @@ std::tuple<int, int>  GetStartCoordsFromBracket( const string& bracketString,
 
   SplitString(bracketString, sectionPieces, ",");
   // handle the x part of the section specification
+  // (CFITSIO ignores everything following a blank before the comma)
   x1 = GetStartCoordFromRange(sectionPieces[0]);
-  if (x1 < 1) {
+  if ((x1 < 1) || (sectionPieces[0].find_last_of(" \t") == sectionPieces[0].size() - 1)) {
     fprintf(stderr, "\nWARNING1: Incorrect image section format in \"%s\"!\n",
     					fileName.c_str());
     fprintf(stderr, "\t\"%s\"\n", bracketString.c_str());
-- 
2.43.0


From c6724d5a693ad5469531ae89b0efc57a51a26b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 34/43] fix: differential evolution with Latin hypercube
 sampling is reproducible with --seed

---
 solvers/DESolver.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 6f2efdb..6b3f2eb 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -118,8 +118,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
     double  intervalSize, p;
     // prep Latin hypercube sampling --> sampleIndices
     vector< vector<int> >  sampleIndices;   // [nDim][nPop]
-    random_device rd;
-    mt19937 g(rd());
+    mt19937 g(genrand_int32());   // so that results depend only on rngSeed
     vector<int> singleParamSampleIndices(nPop);
   
     // set up the shuffled indices
-- 
2.43.0


From 8709914189c87b9dec564c15948cfe1e263baf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 35/43] fix: the NLopt solvers with random numbers (PRAXIS) use
 --seed

---
 solvers/dispatch_solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solvers/dispatch_solver.cpp b/solvers/dispatch_solver.cpp
index 04c9f30..771e136 100644
--- a/solvers/dispatch_solver.cpp
+++ b/solvers/dispatch_solver.cpp
@@ -41,6 +41,7 @@
 #include "levmar_fit.h"
 #include "diff_evoln_fit.h"
 #ifndef NO_NLOPT
+#include <nlopt.h>
 #include "nmsimplex_fit.h"
 #include "nlopt_fit.h"
 #endif
@@ -77,6 +78,9 @@ int DispatchToSolver( int solverID, int nParametersTot, int nFreeParameters, int
     case GENERIC_NLOPT_SOLVER:
       if (verboseLevel >= 0)
         printf("\nCalling NLOpt solver %s ..\n", solverName.c_str());
+      // for algorithms which make use of random numbers (e.g., PRAXIS)
+      if (rngSeed > 0)
+        nlopt_srand(rngSeed);
       fitStatus = NLOptFit(nParametersTot, parameters, parameterInfo, modelObj, fracTolerance, 
       						verboseLevel, solverName, solverResults);
       break;
-- 
2.43.0


From 0616cc5770cc10cc5b58ec3a0adf52099cec8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 36/43] fix: differential evolution returns a solution within
 the limits when all fit-statistic values are huge or undefined

---
 solvers/DESolver.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 6b3f2eb..c872ede 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -29,6 +29,7 @@
 // Use cmath instead of math.h to avoid GCC-5 problems with C++-11 and isnan()
 //#include <math.h>
 #include <cmath>
+#include <cfloat>
 #include <time.h>
 #include <vector>
 #include <random>
@@ -137,7 +138,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
         p = genrand_real1();
         Element(population,i,j) = min[j] + (sampleOffset + p)*intervalSize;
       }
-      popEnergy[i] = 1.0E20;
+      popEnergy[i] = DBL_MAX;
     }
   }
   else {
@@ -146,7 +147,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
  	for (i = 0; i < nPop; i++) {
       for (int j = 0; j < nDim; j++)
         Element(population,i,j) = RandomUniform(min[j], max[j]);
-      popEnergy[i] = 1.0E20;
+      popEnergy[i] = DBL_MAX;
     }
   }
 
@@ -213,7 +214,7 @@ int DESolver::Solve( int maxGenerations, int verbose )
   double  relativeDeltas[3] = {100.0, 100.0, 100.0};
   double  lastBestEnergy;
 
-  bestEnergy = 1.0E20;
+  bestEnergy = DBL_MAX;
   lastBestEnergy = bestEnergy;
 
   bAtSolution = false;
@@ -307,8 +308,10 @@ int DESolver::Solve( int maxGenerations, int verbose )
 
 void DESolver::StoreSolution( double *theSolution )
 {
+  // if no trial solution had a valid energy, return one from within the bounds
+  double  *solution = (bestEnergy < DBL_MAX) ? bestSolution : RowVector(population, 0);
   for (int i = 0; i < nDim; i++)
-    theSolution[i] = bestSolution[i];
+    theSolution[i] = solution[i];
 }
 
 
-- 
2.43.0


From a8d2d6a098b48ef6dde3b1a2890b8f5fc076d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 37/43] fix: bootstrap summary uses the successful iterations
 only and best-fit values in full-image coordinates

---
 core/bootstrap_errors.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index b3376dc..c659f4b 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -88,9 +88,7 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
 					const int nIterations, const int nFreeParams, const int whichStatistic, 
 					FILE *outputFile_ptr, unsigned long rngSeed, bool multimfitMode )
 {
-  double  *paramSigmas;
   double **outputParamArray;
-//   double  lower, upper, plus, minus, halfwidth;
   int  i, nSuccessfulIterations;
   int  nParams = theModel->GetNParams();
 
@@ -104,9 +102,6 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   for (i = 0; i < nParams; i++)
     outputParamArray[i] = (double *)calloc( (size_t)nIterations, sizeof(double) );
 
-//   paramOffsets = (double *) calloc(nParams, sizeof(double));
-//   bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
-  
   // write column header info to file, if user requested saving to file
   if (outputFile_ptr != nullptr) {
     string  headerLine = theModel->GetParamHeader();
@@ -125,25 +120,25 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   else {
     // Apply image-offset corrections to best-fit parameters, so their values
     // get printed corrected
-//     theModel->GetImageOffsets(paramOffsets);
-//     for (i = 0; i < nParams; i++)
-//       bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
+    vector<double>  paramOffsets(nParams, 0.0);
+    vector<double>  bestfitParams_offsetCorrected(nParams);
+    theModel->GetImageOffsets(paramOffsets.data());
+    for (i = 0; i < nParams; i++)
+      bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
     
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nIterations, 
-    								parameterLimits, theModel);
+      PrintBootstrapSummaryMultimfit(bestfitParams_offsetCorrected.data(), outputParamArray, 
+    								nParams, nSuccessfulIterations, parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nIterations, 
-    						parameterLimits, theModel);
+      PrintBootstrapSummary(bestfitParams_offsetCorrected.data(), outputParamArray, nParams, 
+    						nSuccessfulIterations, parameterLimits, theModel);
   }
 
   for (i = 0; i < nParams; i++)
     free(outputParamArray[i]);
   free(outputParamArray);
-//   free(paramOffsets);
-//   free(bestfitParams_offsetCorrected);
 
   return nSuccessfulIterations;
 }
-- 
2.43.0


From c2a90505b9cb8e45656578b2ef464f9a71c7a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 38/43] fix: an unwritable bootstrap file is a warning (was a
 crash), and images saved after a bootstrap are those of the best fit

---
 core/imfit_main.cpp     | 13 ++++++++++---
 core/multimfit_main.cpp |  5 ++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index e6bc0ec..c4c4c0b 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -406,8 +406,12 @@ int main(int argc, char *argv[])
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
       bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
-      // write general info + best-fitting params as a commented-out header
-      SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
+      if (bootstrapSaveFile_ptr == nullptr)
+        fprintf(stderr, "\n*** WARNING: Unable to open bootstrap-output file \"%s\"!\n\n",
+        				options->outputBootstrapFileName.c_str());
+      else
+        // write general info + best-fitting params as a commented-out header
+        SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
     
     printf("\nNow doing bootstrap resampling (%d iterations) to estimate errors...\n",
@@ -418,13 +422,16 @@ int main(int argc, char *argv[])
     									nFreeParams, theModel->WhichFitStatistic(), 
     									bootstrapSaveFile_ptr, options->rngSeed);
     gettimeofday(&timer_end_bootstrap, nullptr);
-    if (options->saveBootstrap) {
+    if (bootstrapSaveFile_ptr != nullptr) {
       if (nSucessfulIterations > 0)
         printf("Bootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
       // even if we didn't have any successful iterations, we need to close the file
       fclose(bootstrapSaveFile_ptr);
     }
     didBootstrap = true;
+    // re-evaluate the best-fit model, so that any images saved below correspond to it,
+    // rather than to the fit to the last bootstrap sample
+    theModel->GetFitStatistic(paramsVect);
   }
 
 
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 12bbeec..22bc433 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -764,6 +764,9 @@ int main(int argc, char *argv[])
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
       bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
+      if (bootstrapSaveFile_ptr == nullptr)
+        fprintf(stderr, "\n*** WARNING: Unable to open bootstrap-output file \"%s\"!\n\n",
+        				options->outputBootstrapFileName.c_str());
       // write general info + best-fitting params as a commented-out header
       // SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
@@ -776,7 +779,7 @@ int main(int argc, char *argv[])
     									nFreeParams, theMultImageModel->WhichFitStatistic(), 
     									bootstrapSaveFile_ptr, options->rngSeed, true);
     gettimeofday(&timer_end_bootstrap, NULL);
-    if (options->saveBootstrap) {
+    if (bootstrapSaveFile_ptr != nullptr) {
       if (nSucessfulIterations > 0)
         printf("\nBootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
       // even if we didn't have any successful iterations, we need to close the file
-- 
2.43.0


From 25bb51a2a6b076bb1770e61d8e5d48d4ee5b4384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 39/43] fix: imfit-mcmc accepts --cashstat (was rejected
 because of the L-M solver, which it does not use)

---
 core/options_mcmc.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/options_mcmc.h b/core/options_mcmc.h
index bfda539..c1ea099 100644
--- a/core/options_mcmc.h
+++ b/core/options_mcmc.h
@@ -67,6 +67,8 @@ class MCMCOptions : public OptionsBase
 
       noParamLimits = true;
 
+      solver = NO_FITTING;   // no minimization is done (so Cash statistic is OK)
+
       appendToOutput = false;
       outputFileRoot = "mcmc_out";
       nChains = -1;          // -1 = use default, which is nChains = nFreeParams
-- 
2.43.0


From 9d885de756d2c33bc6f3d1feeedc3103946f8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:26 +0000
Subject: [PATCH 40/43] fix: NLopt solvers (COBYLA) could return a worse fit
 than their starting values

---
 solvers/nlopt_fit.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index 0452a2f..57f68a7 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -81,6 +81,9 @@ const int  REPORT_STEPS_PER_VERBOSE_OUTPUT = 5;
 // Module variables -- used to control user feedback within myfunc_nlopt_gen
 static int  verboseOutput;
 static int  funcCallCount = 0;
+// best parameter values found so far (some algorithms do not always return them)
+static vector<double>  bestParams;
+static double  bestStatisticVal;
 nlopt_opt  theOptimizer;
 string  currentSolverName;
 
@@ -124,6 +127,10 @@ double myfunc_nlopt_gen( unsigned n, const double *x, double *grad, void *my_fun
   nlopt_result  junk;
   
   fitStatistic = theModel->GetFitStatistic(params);
+  if (fitStatistic < bestStatisticVal) {
+    bestStatisticVal = fitStatistic;
+    bestParams.assign(x, x + n);
+  }
   
   // feedback to user
   funcCallCount++;
@@ -313,10 +320,19 @@ int NLOptFit( int nParamsTot, double *paramVector, vector<mp_par> parameterLimit
   
   // record initial fit-statistic value
   initialStatisticVal = theModel->GetFitStatistic(paramVector);
+  bestStatisticVal = initialStatisticVal;
+  bestParams.assign(paramVector, paramVector + nParamsTot);
 
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
+  finalStatisticVal = initialStatisticVal;
   result = nlopt_optimize(theOptimizer, paramVector, &finalStatisticVal);
+  // COBYLA and PRAXIS can end at a point which is worse than one found earlier
+  if (bestStatisticVal < finalStatisticVal) {
+    finalStatisticVal = bestStatisticVal;
+    for (int i = 0; i < nParamsTot; i++)
+      paramVector[i] = bestParams[i];
+  }
   if (verbose >= 0)
     InterpretResult(result, algorithmName);
 
-- 
2.43.0


From c9fa0b43a0104d43fdd1b553b051c92ffb157a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:43 +0000
Subject: [PATCH 41/43] fix: makeimage --print-fluxes with a reference image
 aborted on an empty image

---
 core/makeimage_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 072cae5..b757898 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -189,7 +189,7 @@ int main( int argc, char *argv[] )
     }
   }
   // Get image size from reference image, if necessary
-  if ((! printFluxesOnly) && (options->noImageDimensions)) {
+  if ((! options->noRefImage) && (options->noImageDimensions)) {
     //status = GetImageSize(options->referenceImageName, &nColumns, &nRows);
     std::tie(nColumns, nRows, status) = GetImageSize(options->referenceImageName);
     if (status != 0) {
-- 
2.43.0


From 26573d3d00789933bba18e3b1930135e96d68643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:43 +0000
Subject: [PATCH 42/43] fix: makeimage --save-expanded used uninitialized PSF
 sizes without a PSF and misplaced the prefix in names with a directory

---
 core/makeimage_main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index b757898..ee53fa8 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -98,7 +98,8 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
 int main( int argc, char *argv[] )
 {
   int  nColumns, nRows;
-  int  nColumns_psf, nRows_psf;
+  int  nColumns_psf = 0;
+  int  nRows_psf = 0;
   int  nParamsTot;
   int  status;
   double  *psfPixels = nullptr;
@@ -294,7 +295,10 @@ int main( int argc, char *argv[] )
       }
       // code for checking PSF convolution fixes [May 2012]
       if (options->saveExpandedImage) {
-        string  tempName = "expanded_" + options->outputImageName;
+        // prefix the file name itself, not any directory it is in
+        size_t  nameStart = options->outputImageName.find_last_of('/') + 1;
+        string  tempName = options->outputImageName;
+        tempName.insert(nameStart, "expanded_");
         printf("\nSaving full (expanded) output model image (\"%s\") ...\n", tempName.c_str());
         status = SaveVectorAsImage(theModel->GetExpandedModelImageVector(), tempName, 
                           nColumns + 2*nColumns_psf, nRows + 2*nRows_psf, imageCommentsList);
-- 
2.43.0


From f00dfcd261a70edc319c397c1f900de034a1113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:43 +0000
Subject: [PATCH 43/43] fix: makeimage --save-fluxes crashed when the file
 could not be opened

---
 core/makeimage_main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index ee53fa8..d38bb35 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -811,6 +811,11 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
     headerLines.push_back(columHeaderLine_for_file);
 
     FILE * file_ptr = fopen(options->saveFluxesFileName.c_str(), "w");
+    if (file_ptr == nullptr) {
+      fprintf(stderr, "\n*** ERROR: Unable to save fluxes to file \"%s\"!\n\n", 
+      			options->saveFluxesFileName.c_str());
+      exit(-1);
+    }
     for (n = 0; n < (int)headerLines.size(); n++)
       fprintf(file_ptr, "%s", headerLines[n].c_str());
     for (n = 0; n < (int)saveFluxesLines.size(); n++)
-- 
2.43.0

