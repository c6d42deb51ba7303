From 316c9a78c59bd5b8236e9118a2fda16b1f2db5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:18 +0000
Subject: [PATCH 01/20] fix: keep full precision of the particle angles

The unqualified atan2 resolved to the double overload of the C library, so
the spherical angles and every spinor built from them were only accurate to
double precision in long double builds.
---
 source/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 633c1ed..aed90dd 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -71,8 +71,8 @@ namespace spinas {
     if(std::abs(p[0]*p[0]-pmag*pmag-m*m) > epsilon){
       throw std::runtime_error("Momentum and mass don't match:  p^2 = " + std::to_string(p[0]*p[0]-pmag*pmag) + " != " + std::to_string(m*m));
     }
-    theta = atan2(pxymag,p[3]);
-    phi = atan2(p[2],p[1]);
+    theta = std::atan2(pxymag,p[3]);
+    phi = std::atan2(p[2],p[1]);
     //if(phi<0) phi+=2.*PI;
     c = cdouble(std::cos(theta/2.),0.);
     s = std::polar(std::sin(theta/2.),phi);
-- 
2.43.0


From 301f0b3f645c310a9fb067e502e6c9f41008d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:34 +0000
Subject: [PATCH 02/20] fix: judge the mass shell condition relative to the
 energy and reject NaN

An absolute tolerance rejected exactly on-shell momenta with energies above
about 10^5, where the rounding of the squares alone exceeds it.  A NaN in the
momentum or mass passed the comparison silently.
---
 source/particle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index aed90dd..403cd2f 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -21,6 +21,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 #include <iostream>
 #include <sstream>
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -68,7 +69,8 @@ namespace spinas {
     constexpr ldouble epsilon = std::numeric_limits<ldouble>::epsilon() * 1000000000;
     pxymag = std::sqrt(p[1]*p[1]+p[2]*p[2]);
     pmag = std::sqrt(pxymag*pxymag+p[3]*p[3]);
-    if(std::abs(p[0]*p[0]-pmag*pmag-m*m) > epsilon){
+    //The rounding error of the invariant mass grows with the energy squared.
+    if(!(std::abs(p[0]*p[0]-pmag*pmag-m*m)/std::max(ldouble(1),p[0]*p[0]) <= epsilon)){
       throw std::runtime_error("Momentum and mass don't match:  p^2 = " + std::to_string(p[0]*p[0]-pmag*pmag) + " != " + std::to_string(m*m));
     }
     theta = std::atan2(pxymag,p[3]);
-- 
2.43.0


From 9af89c9cd5d7b45caf18ecf87f721cea378f045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:38 +0000
Subject: [PATCH 03/20] fix: compute sqrt(E-p) of a massive particle without
 cancellation

For small masses E-p is lost to rounding and can come out negative, which
made the massive spinors inaccurate or NaN.
---
 source/particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 403cd2f..72a944f 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -80,7 +80,8 @@ namespace spinas {
     s = std::polar(std::sin(theta/2.),phi);
     sc = std::conj(s);
     sqrtEpP = cdouble(std::sqrt(p[0]+pmag),0);
-    sqrtEmP = cdouble(std::sqrt(p[0]-pmag),0);
+    //E-p=m^2/(E+p) without the cancellation, which could even turn negative.
+    sqrtEmP = cdouble(m==0 ? 0 : std::abs(m)/std::sqrt(p[0]+pmag),0);
     
     //Reset all the calcs.
     //The matrices and spinors
-- 
2.43.0


From ab0199f3e770b412e7ba926f451f9eac391ce7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:49 +0000
Subject: [PATCH 04/20] fix: build the ladder generators from the
 cancellation-free sqrt(E-p)

The ratio (E+p)/(E-p) was zero-divided or negative for small masses and gave
infinite or NaN generators.
---
 source/particle.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 72a944f..f0f0696 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -488,7 +488,7 @@ namespace spinas {
   cmatrix particle::lorentz_jp_lu() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=0;
-    if(m!=0) pre = half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
+    if(m!=0) pre = half*std::real(sqrtEmP/sqrtEpP);
 
     return pre*cmatrix(
 		       std::sin(theta), -std::polar(-one+std::cos(theta),-phi) ,
@@ -497,7 +497,7 @@ namespace spinas {
   cmatrix particle::lorentz_jm_lu() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
-    if(m!=0) pre=half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
+    if(m!=0) pre=half*std::real(sqrtEpP/sqrtEmP);
     return pre*cmatrix(
 		       std::sin(theta), -std::polar(one+std::cos(theta),-phi) ,
 		       -std::polar(-one+std::cos(theta),phi), -std::sin(theta));
@@ -513,7 +513,7 @@ namespace spinas {
   cmatrix particle::lorentz_jp_ul() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=0;
-    if(m!=0) pre = half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
+    if(m!=0) pre = half*std::real(sqrtEmP/sqrtEpP);
 
     return pre*cmatrix(
 		       -std::sin(theta), std::polar(one+std::cos(theta),phi) ,
@@ -522,7 +522,7 @@ namespace spinas {
   cmatrix particle::lorentz_jm_ul() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
-    if(m!=0) pre=half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
+    if(m!=0) pre=half*std::real(sqrtEpP/sqrtEmP);
     return pre*cmatrix(
 		       -std::sin(theta), std::polar(-one+std::cos(theta),phi) ,
 		       std::polar(one+std::cos(theta),-phi), std::sin(theta));
@@ -541,7 +541,7 @@ namespace spinas {
   cmatrix particle::lorentz_jp_lu_dot() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
-    if(m!=0) pre = half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
+    if(m!=0) pre = half*std::real(sqrtEpP/sqrtEmP);
 
     return pre*cmatrix(
 		       -std::sin(theta), std::polar(one+std::cos(theta),phi) ,
@@ -550,7 +550,7 @@ namespace spinas {
   cmatrix particle::lorentz_jm_lu_dot() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=0;
-    if(m!=0) pre=half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
+    if(m!=0) pre=half*std::real(sqrtEmP/sqrtEpP);
     return pre*cmatrix(
 		       -std::sin(theta), std::polar(-one+std::cos(theta),phi) ,
 		       std::polar(one+std::cos(theta),-phi), std::sin(theta));
@@ -566,7 +566,7 @@ namespace spinas {
   cmatrix particle::lorentz_jp_ul_dot() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
-    if(m!=0) pre=half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
+    if(m!=0) pre=half*std::real(sqrtEpP/sqrtEmP);
 
     return pre*cmatrix(
 		       std::sin(theta), -std::polar(-one+std::cos(theta),-phi) ,
@@ -575,7 +575,7 @@ namespace spinas {
   cmatrix particle::lorentz_jm_ul_dot() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=0;
-    if(m!=0) pre = half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
+    if(m!=0) pre = half*std::real(sqrtEmP/sqrtEpP);
     
     return pre*cmatrix(
 		       std::sin(theta), -std::polar(one+std::cos(theta),-phi) ,
-- 
2.43.0


From 8e1af3a47b099e5aee673911af80e1de828d7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:45 +0000
Subject: [PATCH 05/20] fix: reject invalid spins in spinor products that are
 already calculated

The spin was only checked by the particle when the product was computed.
Once the value was cached, v(3) or v(1,0) silently returned it.
---
 source/sproduct.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/sproduct.cpp b/source/sproduct.cpp
index 9cc32d2..666e636 100755
--- a/source/sproduct.cpp
+++ b/source/sproduct.cpp
@@ -316,6 +316,8 @@ namespace spinas {
   }
   //One massive spinor
   cdouble sproduct::v(const int& spin){
+    if(spin!=1 && spin!=-1)
+      throw std::runtime_error("Incorrect usage of sproduct.val(j).  The spin must be 1 or -1.");
     if(isLeftMassive){
       if(isRightMassive){
 	throw std::runtime_error("Incorrect usage of sproduct.val(j).  Only one particle must be massive.");
@@ -385,6 +387,8 @@ namespace spinas {
   }
   //Both massive
   cdouble sproduct::v(const int& spinL, const int& spinR){
+    if((spinL!=1 && spinL!=-1) || (spinR!=1 && spinR!=-1))
+      throw std::runtime_error("Incorrect usage of sproduct.val(jL,jR).  The spins must be 1 or -1.");
     if(!isLeftMassive || !isRightMassive){
       throw std::runtime_error("Incorrect usage of sproduct.val(jL,jR).  Both particles must be massive.");
       return cdouble(0,0);
-- 
2.43.0


From 043ced4d4cfaa12d86fe8c4ba51106a323bb841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:45 +0000
Subject: [PATCH 06/20] fix: reject out-of-range momentum components

get_momentum read past the momentum array instead of throwing like the
element access of cmatrix and cvector does.
---
 source/particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/particle.cpp b/source/particle.cpp
index f0f0696..8beddd5 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -61,6 +61,8 @@ namespace spinas {
     return m;
   }
   const ldouble particle::get_momentum(const int& mu) const {
+    if (mu < 0 || mu >= 4)
+      throw std::out_of_range("particle momentum index out of bounds");
     return p[mu];
   }
 
-- 
2.43.0


From b7b95b6cd36e558ace34937356608153a8b9307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:19 +0000
Subject: [PATCH 07/20] fix: write exponents in Mathematica notation for
 vectors and matrices

The components were written in C notation. Mathematica reads 1e-05 as
the symbol e minus five. Use double_to_Mathematica_string for them.
---
 source/cmatrix.cpp | 9 +++++----
 source/cvector.cpp | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/cmatrix.cpp b/source/cmatrix.cpp
index df8e7e9..15ada16 100755
--- a/source/cmatrix.cpp
+++ b/source/cmatrix.cpp
@@ -29,6 +29,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include "types.h"
 //#include "aliases.h"
 #include "cmatrix.h"
+#include "utilities.h"
 
 namespace spinas {
   //Constructors
@@ -217,10 +218,10 @@ namespace spinas {
   
   std::string cmatrix::to_Mathematica_string() const {
     std::stringstream tmpStr;
-    tmpStr<<"{ { "<<std::real(mat[0][0])<<" + I* "<<std::imag(mat[0][0])<<
-      " , "<<std::real(mat[0][1])<<" + I* "<<std::imag(mat[0][1])<<
-      " } , { "<<std::real(mat[1][0])<<" + I* "<<std::imag(mat[1][0])<<
-      " , "<<std::real(mat[1][1])<<" + I* "<<std::imag(mat[1][1])<<" } }";
+    tmpStr<<"{ { "<<double_to_Mathematica_string(std::real(mat[0][0]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[0][0]))<<
+      " , "<<double_to_Mathematica_string(std::real(mat[0][1]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[0][1]))<<
+      " } , { "<<double_to_Mathematica_string(std::real(mat[1][0]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[1][0]))<<
+      " , "<<double_to_Mathematica_string(std::real(mat[1][1]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[1][1]))<<" } }";
     return tmpStr.str();
   }
   
diff --git a/source/cvector.cpp b/source/cvector.cpp
index 8be3ba7..a6709cf 100755
--- a/source/cvector.cpp
+++ b/source/cvector.cpp
@@ -28,6 +28,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 //#include "aliases.h"
 #include "cmatrix.h"
 #include "cvector.h"
+#include "utilities.h"
 
 namespace spinas {
   //Constructors
@@ -144,8 +145,8 @@ namespace spinas {
   std::string cvector::to_Mathematica_string() const {
     std::stringstream tmpStr;
     tmpStr<<"{ "
-	  <<std::real(vec[0])<<" + I * "<<std::imag(vec[0])<<
-      " , "<<std::real(vec[1])<<" + I * "<<std::imag(vec[1])<<
+	  <<double_to_Mathematica_string(std::real(vec[0]))<<" + I * "<<double_to_Mathematica_string(std::imag(vec[0]))<<
+      " , "<<double_to_Mathematica_string(std::real(vec[1]))<<" + I * "<<double_to_Mathematica_string(std::imag(vec[1]))<<
       " }";
     return tmpStr.str();
   }
-- 
2.43.0


From c8675427fcd8c79592af08e3e454fc9c1bc6cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:07 +0000
Subject: [PATCH 08/20] fix: rotate in the right direction for every angle

The sine was taken as the positive root, so that negative angles and
angles between pi and 2 pi rotated the wrong way.
---
 source/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utilities.cpp b/source/utilities.cpp
index bf6b6ee..b52685c 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -56,7 +56,7 @@ namespace spinas {
   //Rotate a Momentum by theta around axis given by normalized u[3]={ux,uy,uz}.
   void rotate_momentum(ldouble mom[4], const ldouble u[3], const ldouble& theta){
     ldouble cost = std::cos(theta), ux=u[0], uy=u[1], uz=u[2];
-    ldouble sint = std::sqrt(1.0-cost*cost);
+    ldouble sint = std::sin(theta);
     ldouble R[4][4] = {{1,0,0,0},
 		       {0, cost + ux*ux*(1 - cost), ux*uy*(1 - cost) - uz*sint, ux*uz*(1 - cost) + uy*sint},
 		       {0, ux*uy*(1 - cost) + uz*sint, cost + uy*uy*(1 - cost), uy*uz*(1 - cost) - ux*sint},
-- 
2.43.0


From baefae92fc1806385f3ba32aa4a49edf7c7b6ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:08 +0000
Subject: [PATCH 09/20] fix: boosting with zero velocity leaves the momentum
 unchanged

The boost matrix divides by the velocity squared, giving NaN.
---
 source/utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/utilities.cpp b/source/utilities.cpp
index b52685c..7b50699 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -72,6 +72,7 @@ namespace spinas {
   void boost_momentum(ldouble mom[4], const ldouble v[3]){
     ldouble vx=v[0], vy=v[1], vz=v[2];
     ldouble v2=vx*vx+vy*vy+vz*vz;
+    if(v2==0) return;
     ldouble gamma = 1./std::sqrt(1-v2);
     ldouble B[4][4] = {{gamma, -gamma*vx, -gamma*vy, -gamma*vz},
 		       {-gamma*vx, 1 + (gamma - 1)*vx*vx/v2, (gamma - 1)*vx*vy/v2, (gamma - 1)*vx*vz/v2},
-- 
2.43.0


From 274e84b1dc2759526842b4b01b9612728c2010c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:35 +0000
Subject: [PATCH 10/20] fix: draw a new axis if the random rotation axis
 vanishes

The axis was normalized by its length without looking at it, so that
three zeros from the generator gave NaN momenta.
---
 source/process.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/process.cpp b/source/process.cpp
index 8a84007..d884492 100755
--- a/source/process.cpp
+++ b/source/process.cpp
@@ -366,8 +366,11 @@ namespace spinas {
 
   void process::rotate_random_test_momenta(ldouble p1[4], ldouble p2[4], ldouble p3[4], ldouble p4[4]) const {
     ldouble u[3], um, angle;
-    for(int k=0;k<3;k++) u[k] = choose_random_ldouble(0,1000);
-    um = std::sqrt(u[0]*u[0]+u[1]*u[1]+u[2]*u[2]);
+    um = 0;
+    while(um==0){
+      for(int k=0;k<3;k++) u[k] = choose_random_ldouble(0,1000);
+      um = std::sqrt(u[0]*u[0]+u[1]*u[1]+u[2]*u[2]);
+    }
     for(int k=0;k<3;k++) u[k] /= um;
     angle = choose_random_ldouble(0,2.*3.141592653589793238462643383279502884);
     rotate_momentum(p1,u,angle);
-- 
2.43.0


From 6249d29d6d64963ce648bd8154a26a826825e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:51 +0000
Subject: [PATCH 11/20] fix: count NaN and infinite reference data as
 disagreement

Every comparison with NaN is false, so that the tests passed silently
if the reference data was NaN or infinite.
---
 source/process.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/process.cpp b/source/process.cpp
index d884492..34853e1 100755
--- a/source/process.cpp
+++ b/source/process.cpp
@@ -200,8 +200,8 @@ namespace spinas {
       set_momenta(p1,p2,p3,p4);
       ampSquared = amp2_func(params);
       if(std::isinf(ampSquared) || std::isnan(ampSquared) ||
-	 (std::abs(ampSquared-data[j])>1e-20 &&
-	  std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j])>1e-9)){
+	 !(std::abs(ampSquared-data[j])<=1e-20 ||
+	  std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j])<=1e-9)){
 	score += std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j]);
       }
     }
@@ -226,8 +226,8 @@ namespace spinas {
       set_momenta(p1,p2,p3,p4);
       ampSquared = amp2_func();
       if(std::isinf(ampSquared) || std::isnan(ampSquared) ||
-	 (std::abs(ampSquared-data[j])>1e-15 &&
-	  std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j])>1e-9)){
+	 !(std::abs(ampSquared-data[j])<=1e-15 ||
+	  std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j])<=1e-9)){
 	  print_test_message("Lab Frame", m1, m2, m3, m4, ampSquared, data[j], cost);
 	i++;
       }
@@ -256,8 +256,8 @@ namespace spinas {
 	set_momenta(p1,p2,p3,p4);
 	ampSquared = amp2_func();
 	if(std::isinf(ampSquared) || std::isnan(ampSquared) ||
-	   (std::abs(ampSquared-data[j])>1e-15 &&
-	    std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j])>1e-9)){
+	   !(std::abs(ampSquared-data[j])<=1e-15 ||
+	    std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j])<=1e-9)){
 	  print_test_message("Random Rotation", m1, m2, m3, m4, ampSquared, data[j], cost);
 	  i++;
 	}
@@ -286,8 +286,8 @@ namespace spinas {
 	set_momenta(p1,p2,p3,p4);
 	ampSquared = amp2_func();
 	if(std::isinf(ampSquared) || std::isnan(ampSquared) ||
-	   (std::abs(ampSquared-data[j])>1e-15 &&
-	    std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j])>1e-8)){
+	   !(std::abs(ampSquared-data[j])<=1e-15 ||
+	    std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j])<=1e-8)){
 	  print_test_message("Random Boost", m1, m2, m3, m4, ampSquared, data[j], cost);
 	  i++;
 	}
@@ -320,8 +320,8 @@ namespace spinas {
 	set_momenta(p1,p2,p3,p4);
 	ampSquared = amp2_func();
 	if(std::isinf(ampSquared) || std::isnan(ampSquared) ||
-	   (std::abs(ampSquared-data[j])>1e-15 &&
-	    std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j])>1e-8)){
+	   !(std::abs(ampSquared-data[j])<=1e-15 ||
+	    std::abs(ampSquared-data[j])/std::abs(ampSquared+data[j])<=1e-8)){
 	  print_test_message("Random Rotation-Boost-Rotation", m1, m2, m3, m4, ampSquared, data[j], cost);
 	  i++;
 	}
-- 
2.43.0


From eca76e9c6035799998c1fae44004a607bfb884e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:22 +0000
Subject: [PATCH 12/20] fix: use the electron mass in the propagators of nnWW
 and nWWn from construction on

The constructors left the mass of the exchanged electron at zero, so the
mass passed in was ignored until set_masses was called.
---
 SM/nWWn.cpp | 2 +-
 SM/nnWW.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SM/nWWn.cpp b/SM/nWWn.cpp
index 2e0a7ed..944a5b9 100755
--- a/SM/nWWn.cpp
+++ b/SM/nWWn.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   nWWn::nWWn(const ldouble& echarge, const ldouble& masse, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(0,0) {
+    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(masse,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/nnWW.cpp b/SM/nnWW.cpp
index 6b5a525..9f16a21 100755
--- a/SM/nnWW.cpp
+++ b/SM/nnWW.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   nnWW::nnWW(const ldouble& echarge, const ldouble& masse, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(0,0) {
+    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(masse,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
-- 
2.43.0


From 6167c9861e266cc5e618834801ac9fdba12e14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:03 +0000
Subject: [PATCH 13/20] fix: include the [241> terms in eAeh::amp2 with momenta

The brackets were declared and used but never computed, so this overload
left out the terms proportional to the electron mass.
---
 SM/eAeh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SM/eAeh.cpp b/SM/eAeh.cpp
index df427c5..dd1019c 100755
--- a/SM/eAeh.cpp
+++ b/SM/eAeh.cpp
@@ -171,6 +171,8 @@ namespace spinas {
       a23[i] = p2.langle()*p3.rangle(2*i-1);
       s243[i] = p2.lsquare()*p4.umat()*p3.rangle(2*i-1);
       a243[i] = p2.langle()*p4.lmat()*p3.rsquare(2*i-1);
+      s241[i] = p2.lsquare()*p4.umat()*p1.rangle(2*i-1);
+      a241[i] = p2.langle()*p4.lmat()*p1.rsquare(2*i-1);
     }
     s2342 = p2.lsquare()*p3.umat()*p4.lmat()*p2.rsquare();
     a2342 = p2.langle()*p3.lmat()*p4.umat()*p2.rangle();
-- 
2.43.0


From 0dd6cb3c5ce78910ef680bfd05ac1755d5b11e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:52 +0000
Subject: [PATCH 14/20] fix: take over the W mass in set_masses of the A/g f f
 h processes

dAdh, uAuh, dgdh, uguh, hgdd and hguu ignored the W mass passed to
set_masses and kept the coupling of the W mass they were built with.
---
 SM/dAdh.cpp | 1 +
 SM/dgdh.cpp | 1 +
 SM/hgdd.cpp | 1 +
 SM/hguu.cpp | 1 +
 SM/uAuh.cpp | 1 +
 SM/uguh.cpp | 1 +
 6 files changed, 6 insertions(+)

diff --git a/SM/dAdh.cpp b/SM/dAdh.cpp
index 340ff04..f74c2f0 100755
--- a/SM/dAdh.cpp
+++ b/SM/dAdh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void dAdh::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(md);
     p3.set_mass(md);
     p4.set_mass(mh);
diff --git a/SM/dgdh.cpp b/SM/dgdh.cpp
index 9bb48b4..bc610ca 100755
--- a/SM/dgdh.cpp
+++ b/SM/dgdh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void dgdh::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(md);
     p3.set_mass(md);
     p4.set_mass(mh);
diff --git a/SM/hgdd.cpp b/SM/hgdd.cpp
index 91e6b14..dbf53eb 100755
--- a/SM/hgdd.cpp
+++ b/SM/hgdd.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void hgdd::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(mh);
     p3.set_mass(md);
     p4.set_mass(md);
diff --git a/SM/hguu.cpp b/SM/hguu.cpp
index a5a8d6d..fa6ce84 100755
--- a/SM/hguu.cpp
+++ b/SM/hguu.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void hguu::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mh);
     p3.set_mass(mu);
     p4.set_mass(mu);
diff --git a/SM/uAuh.cpp b/SM/uAuh.cpp
index cbe541f..2b83998 100755
--- a/SM/uAuh.cpp
+++ b/SM/uAuh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void uAuh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mu);
     p3.set_mass(mu);
     p4.set_mass(mh);
diff --git a/SM/uguh.cpp b/SM/uguh.cpp
index 47d50c1..b105931 100755
--- a/SM/uguh.cpp
+++ b/SM/uguh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void uguh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mu);
     p3.set_mass(mu);
     p4.set_mass(mh);
-- 
2.43.0


From 6f0511c0036bad07df53e067ff730e60e3b168a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:52 +0000
Subject: [PATCH 15/20] fix: update the Z propagator in set_masses of ZWWh and
 ZhWW

---
 SM/ZWWh.cpp | 1 +
 SM/ZhWW.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/SM/ZWWh.cpp b/SM/ZWWh.cpp
index 956c715..721c37b 100755
--- a/SM/ZWWh.cpp
+++ b/SM/ZWWh.cpp
@@ -73,6 +73,7 @@ namespace spinas {
     p3.set_mass(MW);
     p4.set_mass(mh);
     propW.set_mass(MW);
+    propZ.set_mass(MZ);
     //Couplings
     pre = sqrt2*e*e/(2.0*MW*MW*SW*SW);
     preS = pre;
diff --git a/SM/ZhWW.cpp b/SM/ZhWW.cpp
index 9dbf049..c1ecf67 100755
--- a/SM/ZhWW.cpp
+++ b/SM/ZhWW.cpp
@@ -73,6 +73,7 @@ namespace spinas {
     p3.set_mass(MW);
     p4.set_mass(MW);
     propW.set_mass(MW);
+    propZ.set_mass(MZ);
     //Couplings
     pre = e*e/(sqrt2*MW*MW*SW*SW);
     preS = pre;
-- 
2.43.0


From 5039f9398bc154380e86bf5ba483dc4d6fbe7184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:07 +0000
Subject: [PATCH 16/20] fix: use the Z width in the four-fermion processes

The Z propagators of these classes were built without a width and only
given their mass, so the width passed to the constructor was ignored and
the amplitude diverged on the Z peak.
---
 SM/dddd2.cpp     | 1 +
 SM/ddee.cpp      | 1 +
 SM/ddnn.cpp      | 1 +
 SM/ddss.cpp      | 1 +
 SM/deed.cpp      | 1 +
 SM/dnnd.cpp      | 1 +
 SM/dsds.cpp      | 1 +
 SM/eeee.cpp      | 1 +
 SM/eeee2.cpp     | 1 +
 SM/eemm.cpp      | 1 +
 SM/eenene.cpp    | 1 +
 SM/eenmnm.cpp    | 1 +
 SM/emem.cpp      | 1 +
 SM/enenee.cpp    | 1 +
 SM/enmenm.cpp    | 1 +
 SM/nenenene.cpp  | 1 +
 SM/nenenene2.cpp | 1 +
 SM/nenenmnm.cpp  | 1 +
 SM/nenmnenm.cpp  | 1 +
 SM/ucuc.cpp      | 1 +
 SM/udud.cpp      | 1 +
 SM/ueeu.cpp      | 1 +
 SM/unnu.cpp      | 1 +
 SM/usus.cpp      | 1 +
 SM/uucc.cpp      | 1 +
 SM/uudd.cpp      | 1 +
 SM/uuee.cpp      | 1 +
 SM/uunn.cpp      | 1 +
 SM/uuss.cpp      | 1 +
 SM/uuuu.cpp      | 1 +
 SM/uuuu2.cpp     | 1 +
 31 files changed, 31 insertions(+)

diff --git a/SM/dddd2.cpp b/SM/dddd2.cpp
index 954523f..5a0c0d2 100755
--- a/SM/dddd2.cpp
+++ b/SM/dddd2.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*md/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/ddee.cpp b/SM/ddee.cpp
index 3ae71bf..0b8853d 100755
--- a/SM/ddee.cpp
+++ b/SM/ddee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*me/(4.0*MW*MW*SW*SW);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
diff --git a/SM/ddnn.cpp b/SM/ddnn.cpp
index 22ce0b8..ea7d1ea 100755
--- a/SM/ddnn.cpp
+++ b/SM/ddnn.cpp
@@ -41,6 +41,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/ddss.cpp b/SM/ddss.cpp
index f4ee478..27bf491 100755
--- a/SM/ddss.cpp
+++ b/SM/ddss.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*ms/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/deed.cpp b/SM/deed.cpp
index a4e93f6..11407e4 100755
--- a/SM/deed.cpp
+++ b/SM/deed.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*me/(4.0*MW*MW*SW*SW);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
diff --git a/SM/dnnd.cpp b/SM/dnnd.cpp
index eba29ab..116d614 100755
--- a/SM/dnnd.cpp
+++ b/SM/dnnd.cpp
@@ -41,6 +41,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/dsds.cpp b/SM/dsds.cpp
index ea162fa..9b516d3 100755
--- a/SM/dsds.cpp
+++ b/SM/dsds.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*ms/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/eeee.cpp b/SM/eeee.cpp
index 320a861..6d972b0 100755
--- a/SM/eeee.cpp
+++ b/SM/eeee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*me/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eeee2.cpp b/SM/eeee2.cpp
index 3b1ae2f..62cecc8 100755
--- a/SM/eeee2.cpp
+++ b/SM/eeee2.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*me/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eemm.cpp b/SM/eemm.cpp
index 3b045ea..cf8bc91 100755
--- a/SM/eemm.cpp
+++ b/SM/eemm.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*mm/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eenene.cpp b/SM/eenene.cpp
index fddc1fb..bda0717 100755
--- a/SM/eenene.cpp
+++ b/SM/eenene.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/eenmnm.cpp b/SM/eenmnm.cpp
index b26e696..79b7c0e 100755
--- a/SM/eenmnm.cpp
+++ b/SM/eenmnm.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/emem.cpp b/SM/emem.cpp
index 1b23d34..b9884a6 100755
--- a/SM/emem.cpp
+++ b/SM/emem.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*mm/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/enenee.cpp b/SM/enenee.cpp
index 8e08123..66662e8 100755
--- a/SM/enenee.cpp
+++ b/SM/enenee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/enmenm.cpp b/SM/enmenm.cpp
index 8ada286..0a951b9 100755
--- a/SM/enmenm.cpp
+++ b/SM/enmenm.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/nenenene.cpp b/SM/nenenene.cpp
index 9d3957d..ab4b36c 100755
--- a/SM/nenenene.cpp
+++ b/SM/nenenene.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenene::set_masses(const ldouble& massW){
diff --git a/SM/nenenene2.cpp b/SM/nenenene2.cpp
index 2823413..1f27b59 100755
--- a/SM/nenenene2.cpp
+++ b/SM/nenenene2.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenene2::set_masses(const ldouble& massW){
diff --git a/SM/nenenmnm.cpp b/SM/nenenmnm.cpp
index 9953c2e..6804144 100755
--- a/SM/nenenmnm.cpp
+++ b/SM/nenenmnm.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenmnm::set_masses(const ldouble& massW){
diff --git a/SM/nenmnenm.cpp b/SM/nenmnenm.cpp
index a2a834c..2ef37a5 100755
--- a/SM/nenmnenm.cpp
+++ b/SM/nenmnenm.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenmnenm::set_masses(const ldouble& massW){
diff --git a/SM/ucuc.cpp b/SM/ucuc.cpp
index 319db46..9a4629a 100755
--- a/SM/ucuc.cpp
+++ b/SM/ucuc.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mc/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/udud.cpp b/SM/udud.cpp
index d50c75d..edd680b 100755
--- a/SM/udud.cpp
+++ b/SM/udud.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*md/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/ueeu.cpp b/SM/ueeu.cpp
index bb58c11..b77c26b 100755
--- a/SM/ueeu.cpp
+++ b/SM/ueeu.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*me/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/unnu.cpp b/SM/unnu.cpp
index 0aa75de..b56686e 100755
--- a/SM/unnu.cpp
+++ b/SM/unnu.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/usus.cpp b/SM/usus.cpp
index d783c1a..e7c1316 100755
--- a/SM/usus.cpp
+++ b/SM/usus.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*ms/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uucc.cpp b/SM/uucc.cpp
index 09c7b77..82527b0 100755
--- a/SM/uucc.cpp
+++ b/SM/uucc.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mc/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/uudd.cpp b/SM/uudd.cpp
index 89698fc..193f818 100755
--- a/SM/uudd.cpp
+++ b/SM/uudd.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*md/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uuee.cpp b/SM/uuee.cpp
index c08c2d3..702596f 100755
--- a/SM/uuee.cpp
+++ b/SM/uuee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*me/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uunn.cpp b/SM/uunn.cpp
index 6518114..cfb6bd9 100755
--- a/SM/uunn.cpp
+++ b/SM/uunn.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/uuss.cpp b/SM/uuss.cpp
index 2ff1bcf..8b28182 100755
--- a/SM/uuss.cpp
+++ b/SM/uuss.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*ms/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uuuu.cpp b/SM/uuuu.cpp
index db629cc..0da45b5 100755
--- a/SM/uuuu.cpp
+++ b/SM/uuuu.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mu/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/uuuu2.cpp b/SM/uuuu2.cpp
index cc54632..6c9b24c 100755
--- a/SM/uuuu2.cpp
+++ b/SM/uuuu2.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mu/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
-- 
2.43.0


From 0ceab13b7bb23d56b065433b09406d63e997fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:23 +0000
Subject: [PATCH 17/20] fix: sign of one helicity amplitude of dAAd

The crossing of the outgoing particles was not applied to the photon
helicity combination (-,+), so its sign relative to the other
combinations was wrong. eAAe and uAAu have the right sign.
---
 SM/dAAd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SM/dAAd.cpp b/SM/dAAd.cpp
index dc51239..0d3507f 100755
--- a/SM/dAAd.cpp
+++ b/SM/dAAd.cpp
@@ -110,8 +110,8 @@ namespace spinas {
     else if(ds3>0&&ds2<0){
       //AADd all in:      + ([31]<42>+[41]<32>)[132>/tu
       //dAAD: 4->1->3->4: - ([34]<12>+[13]<24>)[342>/st
-      //34 out:           - ([34]<12>-[13]<24>)[342>/st
-      return - 2.0*e*e*Qd*Qd*(s34s.v(ds4)*a12a.v(ds1)-s13s.v(ds1)*a24a.v(ds4))*s342a.v()/pDenS/pDenT;
+      //34 out:           + ([34]<12>-[13]<24>)[342>/st
+      return + 2.0*e*e*Qd*Qd*(s34s.v(ds4)*a12a.v(ds1)-s13s.v(ds1)*a24a.v(ds4))*s342a.v()/pDenS/pDenT;
     }
     else if(ds3<0&&ds2>0){
       //AADd all in:      + (<31>[42]+<41>[32])[231>/tu
-- 
2.43.0


From 7f8326689c809f5c2cb1585af0805583213d12e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:08 +0000
Subject: [PATCH 18/20] fix: do not pass negative moduli to std::polar

The modulus must not be negative. libc++ returns NaN for it, so that the
generators were NaN there. cos(theta)-1 is never positive, and
sin(theta) is slightly negative for momenta along -z, where theta is pi
rounded up.
---
 source/particle.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 8beddd5..c63dbe4 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -484,8 +484,8 @@ namespace spinas {
     constexpr ldouble half=0.5;
     constexpr cdouble one=cdouble(1,0);
     
-    return -half*cmatrix(std::cos(theta)*one,std::polar(std::sin(theta),-phi),
-		      std::polar(std::sin(theta),phi),-std::cos(theta)*one);
+    return -half*cmatrix(std::cos(theta)*one,std::sin(theta)*std::polar(ldouble(1),-phi),
+		      std::sin(theta)*std::polar(ldouble(1),phi),-std::cos(theta)*one);
   }
   cmatrix particle::lorentz_jp_lu() const{
     constexpr ldouble half=0.5, one=1;
@@ -493,7 +493,7 @@ namespace spinas {
     if(m!=0) pre = half*std::real(sqrtEmP/sqrtEpP);
 
     return pre*cmatrix(
-		       std::sin(theta), -std::polar(-one+std::cos(theta),-phi) ,
+		       std::sin(theta), std::polar(one-std::cos(theta),-phi) ,
 		       -std::polar(one+std::cos(theta),phi), -std::sin(theta));
   }
   cmatrix particle::lorentz_jm_lu() const{
@@ -502,15 +502,15 @@ namespace spinas {
     if(m!=0) pre=half*std::real(sqrtEpP/sqrtEmP);
     return pre*cmatrix(
 		       std::sin(theta), -std::polar(one+std::cos(theta),-phi) ,
-		       -std::polar(-one+std::cos(theta),phi), -std::sin(theta));
+		       std::polar(one-std::cos(theta),phi), -std::sin(theta));
   }
   //UL acts on <j| (from the left)
   cmatrix particle::lorentz_j3_ul() const{
     constexpr ldouble half=0.5;
     constexpr cdouble one=cdouble(1,0);
     
-    return half*cmatrix(std::cos(theta)*one,std::polar(std::sin(theta),phi),
-			std::polar(std::sin(theta),-phi),-std::cos(theta)*one);
+    return half*cmatrix(std::cos(theta)*one,std::sin(theta)*std::polar(ldouble(1),phi),
+			std::sin(theta)*std::polar(ldouble(1),-phi),-std::cos(theta)*one);
   }
   cmatrix particle::lorentz_jp_ul() const{
     constexpr ldouble half=0.5, one=1;
@@ -519,14 +519,14 @@ namespace spinas {
 
     return pre*cmatrix(
 		       -std::sin(theta), std::polar(one+std::cos(theta),phi) ,
-		       std::polar(-one+std::cos(theta),-phi), std::sin(theta));
+		       -std::polar(one-std::cos(theta),-phi), std::sin(theta));
   }
   cmatrix particle::lorentz_jm_ul() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
     if(m!=0) pre=half*std::real(sqrtEpP/sqrtEmP);
     return pre*cmatrix(
-		       -std::sin(theta), std::polar(-one+std::cos(theta),phi) ,
+		       -std::sin(theta), -std::polar(one-std::cos(theta),phi) ,
 		       std::polar(one+std::cos(theta),-phi), std::sin(theta));
   }
 
@@ -537,8 +537,8 @@ namespace spinas {
     constexpr ldouble half=0.5;
     constexpr cdouble one=cdouble(1,0);
     
-    return half*cmatrix(std::cos(theta)*one,std::polar(std::sin(theta),phi),
-			std::polar(std::sin(theta),-phi),-std::cos(theta)*one);
+    return half*cmatrix(std::cos(theta)*one,std::sin(theta)*std::polar(ldouble(1),phi),
+			std::sin(theta)*std::polar(ldouble(1),-phi),-std::cos(theta)*one);
   }
   cmatrix particle::lorentz_jp_lu_dot() const{
     constexpr ldouble half=0.5, one=1;
@@ -547,14 +547,14 @@ namespace spinas {
 
     return pre*cmatrix(
 		       -std::sin(theta), std::polar(one+std::cos(theta),phi) ,
-		       std::polar(-one+std::cos(theta),-phi), std::sin(theta));
+		       -std::polar(one-std::cos(theta),-phi), std::sin(theta));
   }
   cmatrix particle::lorentz_jm_lu_dot() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=0;
     if(m!=0) pre=half*std::real(sqrtEmP/sqrtEpP);
     return pre*cmatrix(
-		       -std::sin(theta), std::polar(-one+std::cos(theta),phi) ,
+		       -std::sin(theta), -std::polar(one-std::cos(theta),phi) ,
 		       std::polar(one+std::cos(theta),-phi), std::sin(theta));
   }
   //UL acts on |j] (from the right)
@@ -562,8 +562,8 @@ namespace spinas {
     constexpr ldouble half=0.5;
     constexpr cdouble one=cdouble(1,0);
     
-    return half*cmatrix(-std::cos(theta)*one,-std::polar(std::sin(theta),-phi),
-			-std::polar(std::sin(theta),phi),std::cos(theta)*one);
+    return half*cmatrix(-std::cos(theta)*one,-std::sin(theta)*std::polar(ldouble(1),-phi),
+			-std::sin(theta)*std::polar(ldouble(1),phi),std::cos(theta)*one);
   }
   cmatrix particle::lorentz_jp_ul_dot() const{
     constexpr ldouble half=0.5, one=1;
@@ -571,7 +571,7 @@ namespace spinas {
     if(m!=0) pre=half*std::real(sqrtEpP/sqrtEmP);
 
     return pre*cmatrix(
-		       std::sin(theta), -std::polar(-one+std::cos(theta),-phi) ,
+		       std::sin(theta), std::polar(one-std::cos(theta),-phi) ,
 		       -std::polar(one+std::cos(theta),phi), -std::sin(theta));
   }
   cmatrix particle::lorentz_jm_ul_dot() const{
@@ -581,7 +581,7 @@ namespace spinas {
     
     return pre*cmatrix(
 		       std::sin(theta), -std::polar(one+std::cos(theta),-phi) ,
-		       -std::polar(-one+std::cos(theta),phi), -std::sin(theta));
+		       std::polar(one-std::cos(theta),phi), -std::sin(theta));
   }
   
   
-- 
2.43.0


From 70597968213d2a65212fc0488dafbf99610e819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:08 +0000
Subject: [PATCH 19/20] fix: keep full precision of the spin normalization

The square root of two was taken in double precision.
---
 source/process.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/process.cpp b/source/process.cpp
index 34853e1..12dc278 100755
--- a/source/process.cpp
+++ b/source/process.cpp
@@ -105,7 +105,7 @@ namespace spinas {
     ldouble normFactor = 1;
     //constexpr ldouble sqrt2=std::sqrt(2.0);
     for(int i=0;i<length;i++)
-      if(dsList[i]==0) normFactor /= std::sqrt(2.0);
+      if(dsList[i]==0) normFactor /= std::sqrt(ldouble(2));
     return normFactor;
   }
   //Spinor Spins
-- 
2.43.0


From 220e26f82c3600db5d03787aad2a59355c11986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:10 +0000
Subject: [PATCH 20/20] fix: initialise the state of particles built without a
 momentum

Only the mass and the momentum were set. The angles and magnitudes were
left uninitialised, although products of spinors built on such particles
read them.
---
 source/particle.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index c63dbe4..87ce361 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -33,11 +33,17 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 namespace spinas {
   //Constructors
-  particle::particle()
-  {}
+  particle::particle():
+    m(0), p{0,0,0,0}
+  {
+    update();
+  }
 
   particle::particle(const ldouble& mass):
-    m(mass), p{m,0,0,0}{}
+    m(mass), p{m,0,0,0}
+  {
+    update();
+  }
 
   particle::particle(const ldouble momentum[4], const ldouble& mass):
     m(mass),p{momentum[0],momentum[1],momentum[2],momentum[3]}
-- 
2.43.0

