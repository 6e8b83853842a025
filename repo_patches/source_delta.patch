From 40ba993fb8dcd2674516b8bafdf62fb72ce9bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:32 +0000
Subject: [PATCH 1/8] fix: avoid 32-bit overflow in djcl() and djcal() for
 accepted dates above MJD 5.3e8

---
 src/djcal.cc | 8 ++++----
 src/djcl.cc  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/djcal.cc b/src/djcal.cc
index e891a62..ce657e4 100644
--- a/src/djcal.cc
+++ b/src/djcal.cc
@@ -56,12 +56,12 @@ bool djcal(int ndp, double mjd, Date& date) {
         const double d = (df - f) / fd;
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const long long jd = f_nint(d) + 2400001LL;
 
-        const int n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
-        const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
+        const long long n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
+        const int nd10 = 10 * (int) (((n4 - 237) % 1461) / 4) + 5;
 
-        date.d_year = n4 / 1461 - 4712;
+        date.d_year = (int) (n4 / 1461 - 4712);
         date.d_month =  ((nd10 / 306 + 2) % 12) + 1;
         date.d_day = (nd10 % 306) / 10 + 1;
         date.d_ifraction = f_nint(f);
diff --git a/src/djcl.cc b/src/djcl.cc
index 2482bf1..47a6ffb 100644
--- a/src/djcl.cc
+++ b/src/djcl.cc
@@ -46,12 +46,12 @@ bool djcl(double mjd, Date& date) {
         const double d = f_anint(mjd - f);
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const long long jd = f_nint(d) + 2400001LL;
 
-        const int n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
-        const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
+        const long long n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
+        const int nd10 = 10 * (int) (((n4 - 237) % 1461) / 4) + 5;
 
-        date.d_year = n4 / 1461 - 4712;
+        date.d_year = (int) (n4 / 1461 - 4712);
         date.d_month = ((nd10 / 306 + 2) % 12) + 1;
         date.d_day = (nd10 % 306) / 10 + 1;
         date.d_fraction = f;
-- 
2.43.0


From 94ed39789c437180f280b341802fcaa921fe74df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:31 +0000
Subject: [PATCH 2/8] fix: avoid 32-bit overflow in cldj() and clyd() for
 far-future years

---
 src/cldj.cc |  4 ++--
 src/clyd.cc | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cldj.cc b/src/cldj.cc
index 21d5685..6dc953f 100644
--- a/src/cldj.cc
+++ b/src/cldj.cc
@@ -37,9 +37,9 @@ G2JStatus cldj(int year, int month, int day, double& mjd) {
         // validate month
         if (month >= 1 && month <= 12) {
             // calculate and return Modified Julian Date
-            mjd = double((1461 * (year - (12 - month) / 10 + 4712)) / 4
+            mjd = double((1461LL * (year - (12 - month) / 10 + 4712LL)) / 4
                 + (306 * ((month + 9) % 12) + 5) / 10
-                - (3 * ((year - (12 - month) / 10 + 4900) / 100)) / 4
+                - (3 * ((year - (12 - month) / 10 + 4900LL) / 100)) / 4
                 + day - 2399904);
             // validate day
             return validate_gregorian_day(year, month, day);
diff --git a/src/clyd.cc b/src/clyd.cc
index 36a07f8..dade3d6 100644
--- a/src/clyd.cc
+++ b/src/clyd.cc
@@ -51,16 +51,16 @@ G2JStatus clyd(int year, int month, int day, int& jyear, int& jday) {
         if (month >= 1 && month <= 12) {
             // perform the conversion
             int i = (14 - month) / 12;
-            int k = year - i;
-            int j = (1461 * (k + 4800)) / 4 + (367 * (month - 2 + 12 * i)) / 12 -
+            long long k = year - i;
+            long long j = (1461 * (k + 4800)) / 4 + (367 * (month - 2 + 12 * i)) / 12 -
                     (3 * ((k + 4900) / 100)) / 4 + day - 30660;
             k = (j - 1) / 1461;
-            const int L = j - 1461 * k;
+            const int L = (int) (j - 1461 * k);
             const int N = (L - 1) / 365 - L / 1461;
             j = ((80 * (L - 365 * N + 30)) / 2447) / 11;
-            i = N + j;
-            jday = 59 + L - 365 * i + ((4 - N) / 4) * (1 - j);
-            jyear = 4 * k + i - 4716;
+            i = N + (int) j;
+            jday = 59 + L - 365 * i + ((4 - N) / 4) * (1 - (int) j);
+            jyear = (int) (4 * k + i - 4716);
 
             // validate day
             return validate_gregorian_day(year, month, day);
-- 
2.43.0


From 97caf5672b82bea7ef0438b898171708ab87dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:18 +0000
Subject: [PATCH 3/8] fix: epco() accepts both letter cases of both epoch
 codes, as documented

---
 src/epco.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/epco.cc b/src/epco.cc
index e080738..d89bee6 100644
--- a/src/epco.cc
+++ b/src/epco.cc
@@ -34,11 +34,15 @@ namespace sla {
 double epco(char result, char given, double epoch) {
     if (result == 'b') {
         result = 'B';
+    } else if (result == 'j') {
+        result = 'J';
     }
     if (result != 'B' && result != 'J') {
         return 0.0;
     }
-    if (given == 'j') {
+    if (given == 'b') {
+        given = 'B';
+    } else if (given == 'j') {
         given = 'J';
     }
     if (given != 'B' && given != 'J') {
-- 
2.43.0


From 06d19a86059d9aaa643de381ff7761ff46054bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:03 +0000
Subject: [PATCH 4/8] fix: dpav() and pav() return zero for coincident points
 given as non-unit vectors

---
 src/dpav.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dpav.cc b/src/dpav.cc
index 74690d0..5ceeb34 100644
--- a/src/dpav.cc
+++ b/src/dpav.cc
@@ -45,10 +45,16 @@ double dpav(const Vector<double> va, const Vector<double> vb) {
         y1 = y1 / length;
         z1 = z1 / length;
     }
-    // vector to point 2
-    const double x2 = vb[0];
-    const double y2 = vb[1];
-    const double z2 = vb[2];
+    // unit vector to point 2 (so that coincident points give exactly zero, whatever the vector's length)
+    double x2 = vb[0];
+    double y2 = vb[1];
+    double z2 = vb[2];
+    const double length2 = std::sqrt(x2 * x2 + y2 * y2 + z2 * z2);
+    if (length2 != 0.0) {
+        x2 = x2 / length2;
+        y2 = y2 / length2;
+        z2 = z2 / length2;
+    }
 
     // position angle
     const double sq = y2 * x1 - x2 * y1;
-- 
2.43.0


From d81b840ec7fd8c2394a38634da4fe6c2b405d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:25 +0000
Subject: [PATCH 5/8] fix: fitxy() reports no solution for two coincident
 samples

The four-coefficient fit of two samples at the same measured position is
singular in both passes, but the preset of the first pass's residuals made
it look like a solution: FIT_OK was returned with an all-zero model.
---
 src/fitxy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fitxy.cc b/src/fitxy.cc
index 9367044..93e3860 100644
--- a/src/fitxy.cc
+++ b/src/fitxy.cc
@@ -66,7 +66,7 @@ FITStatus fitxy(bool sbr, int nsamples, const XYSamples expected, const XYSample
     double b_old = 0.0;
     double c_old = 0.0;
     double d_old = 0.0;
-    double sdr2_old = 0.0;
+    double sdr2_old = -1.0; // negative until the first solution is found
 
     // get floating-point value of the number of samples
     auto num_samples = (const double) nsamples;
-- 
2.43.0


From d952042269b36d3e8b7d7906d284abae464f21d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:05 +0000
Subject: [PATCH 6/8] fix: svd() cancels a superdiagonal element completely

When a zero diagonal element splits the bidiagonal form, the rotations that
cancel the superdiagonal element must also scale the following ones. They
did not, so that U x W x VT differed from A for rank-deficient matrices.
---
 src/svd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/svd.cc b/src/svd.cc
index 49bc8d2..2e450a1 100644
--- a/src/svd.cc
+++ b/src/svd.cc
@@ -273,9 +273,11 @@ int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* w
 
                 // Cancellation of ws[l] if l>1
                 if (cancel) {
+                    c = 0.0;
                     s = 1.0;
                     for (i = l; i <= k; i++) {
                         f = s * ws[i];
+                        ws[i] = c * ws[i];
                         if (an + std::fabs(f) == an) {
                             break;
                         }
-- 
2.43.0


From 981b9654209c5d37b1e2abc61a55ffda26185014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:02 +0000
Subject: [PATCH 7/8] fix: polmo() returns finite azimuth correction for a site
 exactly at the celestial pole

---
 src/polmo.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/polmo.cc b/src/polmo.cc
index a61911e..6a60942 100644
--- a/src/polmo.cc
+++ b/src/polmo.cc
@@ -104,9 +104,12 @@ void polmo(double m_long, double m_phi, double x_pm, double y_pm, double& t_long
     cos_phi = std::sqrt(xt * xt + yt * yt);
     if (cos_phi == 0.0) {
         xt = 1.0;
+        sin_long = 0.0;
+        cos_long = 1.0;
+    } else {
+        sin_long = yt / cos_phi;
+        cos_long = xt / cos_phi;
     }
-    sin_long = yt / cos_phi;
-    cos_long = xt / cos_phi;
 
     // return true longitude and true geodetic latitude of site
     t_long = (xt != 0.0 || yt != 0.0)? std::atan2(yt, xt): 0.0;
-- 
2.43.0


From b37f2fd2d4036e2f0e4259870033013e0f603dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:18 +0000
Subject: [PATCH 8/8] fix: combn() does not overflow when the number of
 candidates is the largest int

---
 src/combn.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/combn.cc b/src/combn.cc
index 54d3b86..5cda4fb 100644
--- a/src/combn.cc
+++ b/src/combn.cc
@@ -70,10 +70,10 @@ CPStatus combn(int nsel, int ncand, int* list) {
 
         // is this the final list item?
         const int nmax = (i >= nsel)?
-            ncand + 1: // yes: comparison value is number of candidates plus one
-            list[i]; // no: comparison value is next list item
+            ncand: // yes: largest possible value is number of candidates
+            list[i] - 1; // no: largest possible value is one below next list item
         // can the current item be incremented?
-        if (nmax - list_i > 1) {
+        if (list_i < nmax) {
             // yes: increment it.
             list[i - 1] = list_i + 1;
 
-- 
2.43.0

