From f4439362de21afd8fab81ae505c65d422c68541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 01/93] fix: apply the threshold of Vector::Norm/Normalize in
 every direction

---
 orocos_kdl/src/frames.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 4d478de..d2364e3 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -102,7 +102,7 @@ namespace KDL {
     // if v is smaller than eps, Vector(1,0) is returned with norm 0.
     // if this is not good, check the return value of this method.
     double Vector2::Normalize(double eps) {
-        double v = this->Norm();
+        double v = this->Norm(eps);
         if (v < eps) {
             *this = Vector2(1,0);
             return 0;
@@ -129,10 +129,16 @@ namespace KDL {
                 }
                 return tmp1*sqrt(1+sqr(data[1]/data[0])+sqr(data[2]/data[0]));
             } else {
+                if (tmp2 < eps) {
+                    return 0;
+                }
                 return tmp2*sqrt(1+sqr(data[0]/data[2])+sqr(data[1]/data[2]));
             }
         } else {
             tmp1=fabs(data[2]);
+            if (tmp1 < eps && tmp2 < eps) {
+                return 0;
+            }
             if (tmp2 > tmp1) {
                 return tmp2*sqrt(1+sqr(data[0]/data[1])+sqr(data[2]/data[1]));
             } else {
@@ -145,7 +151,7 @@ namespace KDL {
     // if v is smaller than eps, Vector(1,0,0) is returned with norm 0.
     // if this is not good, check the return value of this method.
     double Vector::Normalize(double eps) {
-        double v = this->Norm();
+        double v = this->Norm(eps);
         if (v < eps) {
             *this = Vector(1,0,0);
             return 0;
-- 
2.43.0


From 2cf8d56785eb37f7eef220914cd3c2dccba30cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 02/93] fix: Rotation::Rot returns identity for a vanishing
 axis, as documented

---
 orocos_kdl/src/frames.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index d2364e3..5ecb348 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -302,7 +302,8 @@ Rotation Rotation::Rot(const Vector& rotaxis,double angle) {
     // can be found by multiplying it with an arbitrary vector p
     // and noting that this vector is rotated.
     Vector rotvec = rotaxis;
-	rotvec.Normalize();
+	if (rotvec.Normalize() == 0)
+		return Rotation::Identity();
 	return Rotation::Rot2(rotvec,angle);
 }
 
-- 
2.43.0


From 02b154e48a8c770d77425290edd01d06931eeaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 03/93] fix: GetRotAngle returns the axis with positive Z
 component at PI, as documented

---
 orocos_kdl/src/frames.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 5ecb348..d3f4958 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -420,6 +420,8 @@ double Rotation::GetRotAngle(Vector& axis,double eps) const {
             y = yz/z;
         }
         axis = KDL::Vector(x, y, z);
+        if (z < -epsilon)
+            axis.ReverseSign(); // of the two solutions, choose the one with positive Z component
         return angle; // return 180 deg rotation
     }
 
-- 
2.43.0


From 2599fa6148fec33d5b6905241b0fb217cedc84b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 04/93] fix: GetRotAngle honours an eps below the default

---
 orocos_kdl/src/frames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index d3f4958..27007b9 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -431,8 +431,8 @@ double Rotation::GetRotAngle(Vector& axis,double eps) const {
     y = (data[2] - data[6]);
     z = (data[3] - data[1]);
     axis = KDL::Vector(x, y, z);
-    angle = atan2(axis.Norm()/2,f);
-    axis.Normalize();
+    angle = atan2(axis.Norm(epsilon)/2,f);
+    axis.Normalize(epsilon);
     return angle;
 }
 
-- 
2.43.0


From 8105d6731fa02c818bafbf149ae369c55b66a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 05/93] fix: Rotation2::operator() returns the elements of the
 rotation matrix, not its transpose

---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 8349ff1..40ed5e5 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -861,9 +861,9 @@ IMETHOD double Rotation2::operator()(int i,int j) const {
     FRAMES_CHECKI((0<=i)&&(i<=1)&&(0<=j)&&(j<=1));
     if (i==j) return c;
     if (i==0) 
-        return s;
-    else
         return -s;
+    else
+        return s;
 }
 
 
-- 
2.43.0


From 067aa22f6b92ce8e39fc77d045953648bd771880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 06/93] fix: Vector::Set2DPlane stores its result

---
 orocos_kdl/src/frames.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 40ed5e5..d2d15e9 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -710,7 +710,7 @@ void Vector::Set2DPlane(const Frame& F_someframe_XY,const Vector2& v_XY)
 {
 Vector tmp_XY;
 tmp_XY.Set2DXY(v_XY);
-tmp_XY = F_someframe_XY*(tmp_XY);
+*this = F_someframe_XY*(tmp_XY);
 }
 
 
-- 
2.43.0


From 7da9b54e8c5dfc489b697d66e7accd2c2fc87cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:00 +0000
Subject: [PATCH 07/93] fix: reading a Rotation2 stores the angle read

---
 orocos_kdl/src/frames_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames_io.cpp b/orocos_kdl/src/frames_io.cpp
index 0af50bb..e5daa4a 100644
--- a/orocos_kdl/src/frames_io.cpp
+++ b/orocos_kdl/src/frames_io.cpp
@@ -294,7 +294,7 @@ std::istream& operator >> (std::istream& is,Rotation2& r)
     Eat(is,'[');
     double val;
     is >> val;
-    r.Rot(val*deg2rad);
+    r = Rotation2::Rot(val*deg2rad);
     EatEnd(is,']');
     IOTracePop();
     return is;
-- 
2.43.0


From 5e0a93275ba3e84a3a2ef1c8b51b322e83a35217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 08/93] fix: EatWord stays within the given buffer

---
 orocos_kdl/src/utilities/utility_io.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index eacf6cb..6a62b69 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -190,11 +190,11 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
     size=0;
     int count = 0;
     while ((count==0)&&(strchr(delim,ch)==NULL)) {
-        *p = (char) toupper(ch);
-        ++p;
-        if (size==maxsize) {
+        if (size+1>=maxsize) { // keep room for the terminating zero
            throw Error_BasicIO_ToBig();
         }
+        *p = (char) toupper(ch);
+        ++p;
         _check_istream(is);
         ++size;
         //ch = is.get();
-- 
2.43.0


From 300fe2d7b1a82c766c5a152ed19c8440fd557939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 09/93] fix: reading from a stream in error ends comments
 instead of looping forever

---
 orocos_kdl/src/utilities/utility_io.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index 6a62b69..81f3f31 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -31,7 +31,7 @@ namespace KDL {
 
     void _check_istream(std::istream& is)
     {
-        if ((!is.good())&&(is.eof()) )
+        if (is.eof()||is.bad())
             {
             throw Error_BasicIO_File();
             }
-- 
2.43.0


From 5729da6886c276350156889fda04d5b7559011ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 10/93] fix: abs of Rall1d and Rall2d compiles and
 differentiates

---
 orocos_kdl/src/utilities/rall1d.h | 4 ++--
 orocos_kdl/src/utilities/rall2d.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall1d.h b/orocos_kdl/src/utilities/rall1d.h
index 812c69f..b2546ab 100644
--- a/orocos_kdl/src/utilities/rall1d.h
+++ b/orocos_kdl/src/utilities/rall1d.h
@@ -409,8 +409,8 @@ template <class T,class V,class S>
 INLINE  Rall1d<T,V,S> abs(const Rall1d<T,V,S>& x)
 {
     T v;
-    v=(Sign(x));
-    return Rall1d<T,V,S>(v*x,v*x.grad);
+    v=(sign(x.t));
+    return Rall1d<T,V,S>(v*x.t,v*x.grad);
 }
 
 
diff --git a/orocos_kdl/src/utilities/rall2d.h b/orocos_kdl/src/utilities/rall2d.h
index fd6f6f9..6cf2758 100644
--- a/orocos_kdl/src/utilities/rall2d.h
+++ b/orocos_kdl/src/utilities/rall2d.h
@@ -464,8 +464,8 @@ INLINE  Rall2d<T,V,S> atan2(const Rall2d<T,V,S>& y,const Rall2d<T,V,S>& x)
 template <class T,class V,class S>
 INLINE  Rall2d<T,V,S> abs(const Rall2d<T,V,S>& x)
 {
-    T v(Sign(x));
-    return Rall2d<T,V,S>(v*x,v*x.d,v*x.dd);
+    T v(sign(x.t));
+    return Rall2d<T,V,S>(v*x.t,v*x.d,v*x.dd);
 }
 
 template <class T,class V,class S>
-- 
2.43.0


From fc59868687cfacce159b1c547a5abb8bbe503947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 11/93] fix: Rall2d::operator*= applies the product rule to the
 operands' old values

---
 orocos_kdl/src/utilities/rall2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall2d.h b/orocos_kdl/src/utilities/rall2d.h
index 6cf2758..4561802 100644
--- a/orocos_kdl/src/utilities/rall2d.h
+++ b/orocos_kdl/src/utilities/rall2d.h
@@ -114,9 +114,9 @@ class Rall2d
 
         INLINE Rall2d<T,V,S>& operator *=(const Rall2d<T,V,S>& rhs)
             {
-            t *= rhs.t;
-            d  = (d*rhs.t+t*rhs.d);
             dd = (dd*rhs.t+S(2)*d*rhs.d+t*rhs.dd);
+            d  = (d*rhs.t+t*rhs.d);
+            t *= rhs.t;
             return *this;
             }
 
-- 
2.43.0


From 7f5156f136abed758a2652e48e1c79b9dbd26a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 12/93] fix: RotationVel::RotY rotates about Y

---
 orocos_kdl/src/framevel.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.inl b/orocos_kdl/src/framevel.inl
index 05aceb0..f43195b 100644
--- a/orocos_kdl/src/framevel.inl
+++ b/orocos_kdl/src/framevel.inl
@@ -214,7 +214,7 @@ void RotationVel::DoRotY(const doubleVel& angle) {
     R.DoRotY(angle.t);
 }
 RotationVel RotationVel::RotY(const doubleVel& angle) {
-    return RotationVel(Rotation::RotX(angle.t),Vector(0,angle.grad,0));
+    return RotationVel(Rotation::RotY(angle.t),Vector(0,angle.grad,0));
 }
 
 void RotationVel::DoRotZ(const doubleVel& angle) {
-- 
2.43.0


From ab8268e38ec7cc16ceeba56afa9c7deeb20e93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:18 +0000
Subject: [PATCH 13/93] fix: diff of FrameVels returns translation in vel and
 rotation in rot

---
 orocos_kdl/src/framevel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.hpp b/orocos_kdl/src/framevel.hpp
index b84e69c..92ec580 100644
--- a/orocos_kdl/src/framevel.hpp
+++ b/orocos_kdl/src/framevel.hpp
@@ -359,7 +359,7 @@ IMETHOD RotationVel addDelta(const RotationVel& a,const VectorVel&da,double dt=1
 }
 
 IMETHOD TwistVel diff(const FrameVel& a,const FrameVel& b,double dt=1.0) {
-	return TwistVel(diff(a.M,b.M,dt),diff(a.p,b.p,dt));
+	return TwistVel(diff(a.p,b.p,dt),diff(a.M,b.M,dt));
 }
 
 IMETHOD FrameVel addDelta(const FrameVel& a,const TwistVel& da,double dt=1.0) {
-- 
2.43.0


From db4dd33b69009019e01caac13db54a5f0cdc4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 14/93] fix: define SetToZero(TwistAcc&), which frameacc.hpp
 declares

---
 orocos_kdl/src/frameacc.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orocos_kdl/src/frameacc.inl b/orocos_kdl/src/frameacc.inl
index fa9c23c..2f68436 100644
--- a/orocos_kdl/src/frameacc.inl
+++ b/orocos_kdl/src/frameacc.inl
@@ -575,6 +575,12 @@ TwistAcc FrameAcc::Inverse(const Twist& arg) const
     return tmp;
 }
 
+void SetToZero(TwistAcc& v)
+{
+    v.vel = VectorAcc::Zero();
+    v.rot = VectorAcc::Zero();
+}
+
 Twist TwistAcc::GetTwist() const {
     return Twist(vel.p,rot.p);
 }
-- 
2.43.0


From 7338011935cc0aa6ca2ebd2039a21f4b6adc8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 15/93] fix: Chain::addSegment accepts a segment of the chain
 itself

---
 orocos_kdl/src/chain.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 43eb4f1..a1f4707 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -54,7 +54,8 @@ namespace KDL {
     {
         segments.push_back(segment);
         nrOfSegments++;
-        if(segment.getJoint().getType()!=Joint::Fixed)
+        // segment can be an element of segments: it is not valid after push_back
+        if(segments.back().getJoint().getType()!=Joint::Fixed)
             nrOfJoints++;
     }
 
-- 
2.43.0


From 79e50cc7f9566029c8bd8cf45d984a1b28b4fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 16/93] fix: Chain::addChain accepts the chain itself

---
 orocos_kdl/src/chain.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index a1f4707..de757f7 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -61,7 +61,9 @@ namespace KDL {
 
     void Chain::addChain(const Chain& chain)
     {
-        for(unsigned int i=0;i<chain.getNrOfSegments();i++)
+        // chain can be this chain: the number of segments to add is the one at the start
+        const unsigned int nr = chain.getNrOfSegments();
+        for(unsigned int i=0;i<nr;i++)
             this->addSegment(chain.getSegment(i));
     }
 
-- 
2.43.0


From 41ee6122c1ac1b4aed0fb7f978939e9d096445dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 17/93] fix: assigning a Chain to itself keeps its segments

---
 orocos_kdl/src/chain.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index de757f7..a156dae 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -41,6 +41,8 @@ namespace KDL {
 
     Chain& Chain::operator=(const Chain& arg)
     {
+        if(this == &arg)
+            return *this;
         nrOfJoints=0;
         nrOfSegments=0;
         segments.resize(0);
-- 
2.43.0


From 375f30de88b11a21f57db773bc933c765548fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 18/93] fix: Tree::getSubTree can replace the tree itself

---
 orocos_kdl/src/tree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 70151e6..dba83cd 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -169,8 +169,11 @@ bool Tree::getSubTree(const std::string& segment_name, Tree& tree) const
   if (root == segments.end())
     return false;
   //init the tree, segment_name is the new root.
-  tree = Tree(root->first);
-  return tree.addTreeRecursive(root, segment_name);
+  //tree can be this tree: it is replaced only after its segments are copied
+  Tree subtree(root->first);
+  const bool success = subtree.addTreeRecursive(root, segment_name);
+  tree = subtree;
+  return success;
 }
 
 }//end of namespace
-- 
2.43.0


From e8f496caea403e06c811fa9a81b1daba9e4d046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 19/93] fix: assigning a Tree to itself keeps its segments

---
 orocos_kdl/src/tree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index dba83cd..9d0bc75 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -41,6 +41,8 @@ Tree::Tree(const Tree& in) {
 }
 
 Tree& Tree::operator=(const Tree& in) {
+    if (this == &in)
+        return *this;
     segments.clear();
     nrOfSegments = 0;
     nrOfJoints = 0;
-- 
2.43.0


From e9a1eb3119b6362aab6ea70aa435984d30cd0d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 20/93] fix: copies of a Tree keep its joint numbers

---
 orocos_kdl/src/tree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 9d0bc75..57e98d8 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -38,6 +38,9 @@ Tree::Tree(const Tree& in) {
 
     segments.insert(make_pair(root_name, TreeElement::Root(root_name)));
     addTree(in, root_name);
+    // addTree numbers the joints in the order it visits them, keep the numbers of in
+    for (SegmentMap::iterator it = segments.begin(); it != segments.end(); ++it)
+        GetTreeElementQNr(it->second) = GetTreeElementQNr(in.segments.find(it->first)->second);
 }
 
 Tree& Tree::operator=(const Tree& in) {
@@ -50,6 +53,9 @@ Tree& Tree::operator=(const Tree& in) {
 
     segments.insert(make_pair(in.root_name, TreeElement::Root(root_name)));
     this->addTree(in, root_name);
+    // addTree numbers the joints in the order it visits them, keep the numbers of in
+    for (SegmentMap::iterator it = segments.begin(); it != segments.end(); ++it)
+        GetTreeElementQNr(it->second) = GetTreeElementQNr(in.segments.find(it->first)->second);
     return *this;
 }
 
-- 
2.43.0


From c6b6f617e22cac35ccdb6b50a0b148b932c62886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:52 +0000
Subject: [PATCH 21/93] fix: Tree::getChain keeps the scale, offset and
 mechanical properties of joints it reverses

---
 orocos_kdl/src/tree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 57e98d8..8dc58f5 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -156,9 +156,11 @@ bool Tree::getChain(const std::string& chain_root, const std::string& chain_tip,
         Frame f_tip = seg.pose(0.0).Inverse();
         Joint jnt = seg.getJoint();
         if (jnt.getType() == Joint::RotX || jnt.getType() == Joint::RotY || jnt.getType() == Joint::RotZ || jnt.getType() == Joint::RotAxis)
-            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis);
+            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         else if (jnt.getType() == Joint::TransX || jnt.getType() == Joint::TransY || jnt.getType() == Joint::TransZ || jnt.getType() == Joint::TransAxis)
-            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis);
+            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         chain.addSegment(Segment(GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getName(),
                                  jnt, f_tip, GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getInertia()));
     }
-- 
2.43.0


From be82e059d99e3a076b1f28ca013401c3bfa92ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 22/93] fix: TreeFkSolverPos_recursive reads no joint value for
 fixed segments

---
 orocos_kdl/src/treefksolverpos_recursive.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treefksolverpos_recursive.cpp b/orocos_kdl/src/treefksolverpos_recursive.cpp
index b919b95..b12c41b 100644
--- a/orocos_kdl/src/treefksolverpos_recursive.cpp
+++ b/orocos_kdl/src/treefksolverpos_recursive.cpp
@@ -49,7 +49,9 @@ namespace KDL {
 	{
 		//gets the frame for the current element (segment)
         const TreeElementType& currentElement = it->second;
-        Frame currentFrame = GetTreeElementSegment(currentElement).pose(q_in(GetTreeElementQNr(currentElement)));
+        const Segment& segment = GetTreeElementSegment(currentElement);
+        //a fixed segment has no element in q_in, which can be empty
+        Frame currentFrame = segment.pose(segment.getJoint().getType() != Joint::Fixed ? q_in(GetTreeElementQNr(currentElement)) : 0.0);
 
 		SegmentMap::const_iterator rootIterator = tree.getRootSegment();
 		if(it == rootIterator){
-- 
2.43.0


From 8b9bed65a41c30db41d43d87dab611bbaa4d32b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 23/93] fix: TreeJntToJacSolver reads no joint value for fixed
 segments

---
 orocos_kdl/src/treejnttojacsolver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/treejnttojacsolver.cpp b/orocos_kdl/src/treejnttojacsolver.cpp
index 0afb4d1..60f356e 100644
--- a/orocos_kdl/src/treejnttojacsolver.cpp
+++ b/orocos_kdl/src/treejnttojacsolver.cpp
@@ -42,12 +42,14 @@ int TreeJntToJacSolver::JntToJac(const JntArray& q_in, Jacobian& jac, const std:
         unsigned int q_nr = GetTreeElementQNr(it->second);
         
         //get the pose of the segment:
-        Frame T_local = GetTreeElementSegment(it->second).pose(q_in(q_nr));
+        //(a fixed segment has no element in q_in, which can be empty)
+        const bool movable = GetTreeElementSegment(it->second).getJoint().getType() != Joint::Fixed;
+        Frame T_local = GetTreeElementSegment(it->second).pose(movable ? q_in(q_nr) : 0.0);
         //calculate new T_end:
         T_total = T_local * T_total;
         
         //get the twist of the segment:
-        if (GetTreeElementSegment(it->second).getJoint().getType() != Joint::Fixed) {
+        if (movable) {
             Twist t_local = GetTreeElementSegment(it->second).twist(q_in(q_nr), 1.0);
             //transform the endpoint of the local twist to the global endpoint:
             t_local = t_local.RefPoint(T_total.p - T_local.p);
-- 
2.43.0


From e6bf35600d8c7d0a3df46f026369b8f4fa392d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 24/93] fix: the all-segments overloads of the chain FK solvers
 report their error codes through getError

---
 orocos_kdl/src/chainfksolverpos_recursive.cpp | 10 +++++-----
 orocos_kdl/src/chainfksolvervel_recursive.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/chainfksolverpos_recursive.cpp b/orocos_kdl/src/chainfksolverpos_recursive.cpp
index 487569c..c0e016d 100644
--- a/orocos_kdl/src/chainfksolverpos_recursive.cpp
+++ b/orocos_kdl/src/chainfksolverpos_recursive.cpp
@@ -65,13 +65,13 @@ namespace KDL {
             segmentNr = seg_nr;
 
         if(q_in.rows()!=chain.getNrOfJoints())
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(p_out.size() != segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -89,7 +89,7 @@ namespace KDL {
                     p_out[i] = p_out[i-1]*chain.getSegment(i).pose(0.0);
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 
diff --git a/orocos_kdl/src/chainfksolvervel_recursive.cpp b/orocos_kdl/src/chainfksolvervel_recursive.cpp
index 8957db0..ec485f1 100644
--- a/orocos_kdl/src/chainfksolvervel_recursive.cpp
+++ b/orocos_kdl/src/chainfksolvervel_recursive.cpp
@@ -76,13 +76,13 @@ namespace KDL
 
 
         if(!(in.q.rows()==chain.getNrOfJoints()&&in.qdot.rows()==chain.getNrOfJoints()))
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(out.size()!=segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -105,7 +105,7 @@ namespace KDL
                                      chain.getSegment(i).twist(0.0,0.0));
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 }
-- 
2.43.0


From c02386737186c1d229595532cee7b7943ff5a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 25/93] fix: ChainJntToJacDotSolver handles locked joints

---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 9bb7e11..23064bf 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -48,7 +48,6 @@ void ChainJntToJacDotSolver::updateInternalDataStructures() {
     this->setLockedJoints(locked_joints_);
     jac_solver_.updateInternalDataStructures();
     jac_.resize(chain.getNrOfJoints());
-    jac_dot_.resize(chain.getNrOfJoints());
     fk_solver_.updateInternalDataStructures();
 }
 
@@ -58,7 +57,14 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Twist& jac_dot_
     if (error != E_NOERROR) {
         return error;
     }
-    MultiplyJacobian(jac_dot_,q_in.qdot,jac_dot_q_dot);
+    // jac_dot_ has a column for each joint that is not locked
+    SetToZero(jac_dot_q_dot);
+    unsigned int column=0;
+    for(unsigned int i=0;i<locked_joints_.size();++i)
+    {
+        if(!locked_joints_[i])
+            jac_dot_q_dot += jac_dot_.getColumn(column++) * q_in.qdot(i);
+    }
     return (error = E_NOERROR);
 }
 
@@ -102,20 +108,27 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     }
 
     // Let's compute Jdot in the corresponding representation
-    int k=0;
+    int k=0; // joint
+    int column=0; // column of jdot, which has none for locked joints
     for(unsigned int i=0;i<segmentNr;++i)
     {
         //Only increase joint nr if the segment has a joint
         if(chain.getSegment(i).getJoint().getType()!=Joint::Fixed) {
 
+            if(locked_joints_[k]) {
+                k++;
+                continue;
+            }
+
             for(unsigned int j=0;j<chain.getNrOfJoints();++j)
             {
                 // Column J is the sum of all partial derivatives  ref (41)
                 if(!locked_joints_[j])
                     jac_dot_k_ += getPartialDerivative(jac_,j,k,representation_) * q_in.qdot(j);
             }
-            jdot.setColumn(k++,jac_dot_k_);
+            jdot.setColumn(column++,jac_dot_k_);
             SetToZero(jac_dot_k_);
+            k++;
         }
     }
 
@@ -234,6 +247,7 @@ int ChainJntToJacDotSolver::setLockedJoints(const std::vector<bool>& locked_join
         if(!locked_joints_[i])
             nr_of_unlocked_joints_++;
     }
+    jac_dot_.resize(nr_of_unlocked_joints_);
 
     return (error = E_NOERROR);
 }
-- 
2.43.0


From c85a0596e158eabe53cb02f3f9ae733348b7214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 26/93] fix: ChainJntToJacDotSolver checks the size of the
 joint velocities

---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 23064bf..90efe57 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -82,7 +82,7 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     //Initialize Jacobian to zero since only segmentNr columns are computed
     SetToZero(jdot) ;
 
-    if(q_in.q.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
+    if(q_in.q.rows()!=chain.getNrOfJoints() || q_in.qdot.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
         return (error = E_SIZE_MISMATCH);
     else if(segmentNr>chain.getNrOfSegments())
         return (error = E_OUT_OF_RANGE);
-- 
2.43.0


From 7a5063b85181837a354e4e37ac4c3102dafa0fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 27/93] fix: ChainJntToJacDotSolver::setLockedJoints reports
 its error through getError

---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 90efe57..b7b39e8 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -240,7 +240,7 @@ void ChainJntToJacDotSolver::setRepresentation(const int& representation)
 int ChainJntToJacDotSolver::setLockedJoints(const std::vector<bool>& locked_joints)
 {
     if(locked_joints.size()!=locked_joints_.size())
-        return E_SIZE_MISMATCH;
+        return (error = E_SIZE_MISMATCH);
     locked_joints_=locked_joints;
     nr_of_unlocked_joints_=0;
     for(unsigned int i=0;i<locked_joints_.size();i++){
-- 
2.43.0


From baba9fdb5015f43c80a1a98daf2a37b521fa6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:59 +0000
Subject: [PATCH 28/93] fix: JntArrayVel and JntArrayAcc products and quotients
 are aliasing-safe

---
 orocos_kdl/src/jntarrayacc.cpp | 36 +++++++++++++---------------------
 orocos_kdl/src/jntarrayvel.cpp |  8 ++++----
 2 files changed, 18 insertions(+), 26 deletions(-)

diff --git a/orocos_kdl/src/jntarrayacc.cpp b/orocos_kdl/src/jntarrayacc.cpp
index 2d0949a..ad7b57a 100644
--- a/orocos_kdl/src/jntarrayacc.cpp
+++ b/orocos_kdl/src/jntarrayacc.cpp
@@ -109,24 +109,20 @@ namespace KDL
     }
     void Multiply(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.qdot,factor.grad*2,dest.qdot);
+        // highest derivative first, so that src and dest can be the same object
         Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdot,dest.qdotdot,dest.qdotdot);
-        Multiply(src.q,factor.grad,dest.q);
+        dest.qdotdot.data+=(factor.grad*2)*src.qdot.data;
         Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        dest.qdot.data+=factor.grad*src.q.data;
         Multiply(src.q,factor.t,dest.q);
     }
     void Multiply(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,factor.dd,dest.q);
-        Multiply(src.qdot,factor.d*2,dest.qdot);
+        // highest derivative first, so that src and dest can be the same object
         Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d,dest.q);
+        dest.qdotdot.data+=(factor.d*2)*src.qdot.data+factor.dd*src.q.data;
         Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        dest.qdot.data+=factor.d*src.q.data;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -138,26 +134,22 @@ namespace KDL
     }
     void Divide(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.grad)/(factor.t*factor.t),dest.qdot);
+        // highest derivative first, so that src and dest can be the same object
         Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.grad/(factor.t*factor.t),dest.q);
+        dest.qdotdot.data+=((2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t))*src.q.data
+                          -((2*factor.grad)/(factor.t*factor.t))*src.qdot.data;
         Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        dest.qdot.data-=(factor.grad/(factor.t*factor.t))*src.q.data;
         Divide(src.q,factor.t,dest.q);
     }
     void Divide(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.d)/(factor.t*factor.t),dest.qdot);
+        // highest derivative first, so that src and dest can be the same object
         Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d/(factor.t*factor.t),dest.q);
+        dest.qdotdot.data+=((2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t))*src.q.data
+                          -((2*factor.d)/(factor.t*factor.t))*src.qdot.data;
         Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        dest.qdot.data-=(factor.d/(factor.t*factor.t))*src.q.data;
         Divide(src.q,factor.t,dest.q);
     }
 
diff --git a/orocos_kdl/src/jntarrayvel.cpp b/orocos_kdl/src/jntarrayvel.cpp
index 2a14250..aab461f 100644
--- a/orocos_kdl/src/jntarrayvel.cpp
+++ b/orocos_kdl/src/jntarrayvel.cpp
@@ -83,9 +83,9 @@ namespace KDL
     }
     void Multiply(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,factor.grad,dest.q);
+        // highest derivative first, so that src and dest can be the same object
         Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        dest.qdot.data+=factor.grad*src.q.data;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -96,9 +96,9 @@ namespace KDL
     }
     void Divide(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,(factor.grad/factor.t/factor.t),dest.q);
+        // highest derivative first, so that src and dest can be the same object
         Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        dest.qdot.data-=(factor.grad/factor.t/factor.t)*src.q.data;
         Divide(src.q,factor.t,dest.q);
     }
 
-- 
2.43.0


From 179be4ce11b4ca7b53e5a65c17517bff1a71532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 29/93] fix: Multiply(JntSpaceInertiaMatrix,JntArray) accepts
 its operand as destination

---
 orocos_kdl/src/jntspaceinertiamatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/jntspaceinertiamatrix.cpp b/orocos_kdl/src/jntspaceinertiamatrix.cpp
index fb8a4fe..1a5a4e8 100644
--- a/orocos_kdl/src/jntspaceinertiamatrix.cpp
+++ b/orocos_kdl/src/jntspaceinertiamatrix.cpp
@@ -98,7 +98,7 @@ namespace KDL
 
     void Multiply(const JntSpaceInertiaMatrix& src, const JntArray& vec, JntArray& dest)
     {
-        dest.data=src.data.lazyProduct(vec.data);
+        dest.data=src.data*vec.data;
     }
     
     void SetToZero(JntSpaceInertiaMatrix& mat)
-- 
2.43.0


From 9f7fb2bcc91e2f22ac76b7bc3f0888938c516b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:06 +0000
Subject: [PATCH 30/93] fix: JntSpaceInertiaMatrix::resize leaves all elements
 zero, as documented

---
 orocos_kdl/src/jntspaceinertiamatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/jntspaceinertiamatrix.cpp b/orocos_kdl/src/jntspaceinertiamatrix.cpp
index 1a5a4e8..15e0486 100644
--- a/orocos_kdl/src/jntspaceinertiamatrix.cpp
+++ b/orocos_kdl/src/jntspaceinertiamatrix.cpp
@@ -52,7 +52,7 @@ namespace KDL
 
     void JntSpaceInertiaMatrix::resize(unsigned int newSize)
     {
-        data.resize(newSize,newSize);
+        data.setZero(newSize,newSize);
     }
 
     double JntSpaceInertiaMatrix::operator()(unsigned int i,unsigned int j)const
-- 
2.43.0


From 5384cd24e8b891d19d6a81c8e8d62ec259cb30c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 31/93] fix: TreeIdSolver_RNE does not dereference the root
 segment's null parent

---
 orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp b/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
index b26fb32..a60ae1b 100644
--- a/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
@@ -78,7 +78,6 @@ namespace KDL{
     void TreeIdSolver_RNE::rne_step(SegmentMap::const_iterator segment, const JntArray &q, const JntArray &q_dot, const JntArray &q_dotdot, const WrenchMap& f_ext, JntArray& torques) {
       const Segment& seg = GetTreeElementSegment(segment->second);
       const std::string& segname = segment->first;
-      const std::string& parname = GetTreeElementParent(segment->second)->first;
 
       //Do forward calculations involving velocity & acceleration of this segment
       double q_, qdot_, qdotdot_;
@@ -106,6 +105,7 @@ namespace KDL{
         a.at(segname) = X.at(segname).Inverse(ag) + S.at(segname)*qdotdot_+ v.at(segname)*vj;
       }
       else {
+        const std::string& parname = GetTreeElementParent(segment->second)->first;
         v.at(segname) = X.at(segname).Inverse(v.at(parname)) + vj;
         a.at(segname) = X.at(segname).Inverse(a.at(parname)) + S.at(segname)*qdotdot_ + v.at(segname)*vj;
       }
@@ -133,7 +133,9 @@ namespace KDL{
       }
 
       //add reaction forces to parent segment
-      if(segment != tree.getRootSegment())
+      if(segment != tree.getRootSegment()) {
+        const std::string& parname = GetTreeElementParent(segment->second)->first;
         f.at(parname) = f.at(parname) + X.at(segname)*f.at(segname);
+      }
     }
 }//namespace
-- 
2.43.0


From 8649d9c3df533fabfdfa505eacecea663685195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 32/93] fix: ChainDynParam reports errors of JntToCoriolis and
 JntToGravity through getError

---
 orocos_kdl/src/chaindynparam.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chaindynparam.cpp b/orocos_kdl/src/chaindynparam.cpp
index f9f9fb9..4a3b63e 100644
--- a/orocos_kdl/src/chaindynparam.cpp
+++ b/orocos_kdl/src/chaindynparam.cpp
@@ -131,7 +131,7 @@ namespace KDL {
 
 
 	//the calculation of coriolis matrix C
-	return chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis);
+	return (error = chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis));
 
     }
 
@@ -143,7 +143,7 @@ namespace KDL {
 
 	SetToZero(jntarraynull);
 	//the calculation of coriolis matrix C
-	return chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity);
+	return (error = chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity));
     }
 
     ChainDynParam::~ChainDynParam()
-- 
2.43.0


From 241a4e4fef8945153b2bc1ff62292dc1a7c3f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 33/93] fix: define the declared sum and difference of an
 articulated and a rigid body inertia

---
 orocos_kdl/src/articulatedbodyinertia.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orocos_kdl/src/articulatedbodyinertia.cpp b/orocos_kdl/src/articulatedbodyinertia.cpp
index 709096d..733ec7d 100644
--- a/orocos_kdl/src/articulatedbodyinertia.cpp
+++ b/orocos_kdl/src/articulatedbodyinertia.cpp
@@ -54,6 +54,10 @@ namespace KDL{
         return ArticulatedBodyInertia(Ia.M+Ib.M,Ia.H+Ib.H,Ia.I+Ib.I);
     }
 
+    ArticulatedBodyInertia operator+(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia+ArticulatedBodyInertia(Ib);
+    }
+
     ArticulatedBodyInertia operator+(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia)+Ib;
     }
@@ -61,6 +65,10 @@ namespace KDL{
         return ArticulatedBodyInertia(Ia.M-Ib.M,Ia.H-Ib.H,Ia.I-Ib.I);
     }
 
+    ArticulatedBodyInertia operator-(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia-ArticulatedBodyInertia(Ib);
+    }
+
     ArticulatedBodyInertia operator-(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia)-Ib;
     }
-- 
2.43.0


From f527fe33bb2b4b750fbe21199111e0bf72d1155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 34/93] fix: RK4Integrator weights the intermediate velocities
 correctly

---
 orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 6e01c49..41947b3 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -109,16 +109,16 @@ namespace KDL{
         for (unsigned int i=0; i<nj; ++i)
         {
             q_temp(i) = q(i) + q_dot_temp(i)*dt/2.0;
-            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
             dq(i) += 2.0*q_dot_temp(i);
+            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
         for (unsigned int i=0; i<nj; ++i)
         {
             q_temp(i) = q(i) + q_dot_temp(i)*dt;
-            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
             dq(i) += 2.0*q_dot_temp(i);
+            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
-- 
2.43.0


From 42bcffd04b0348772cac9c3b82c0bf4fe3362b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 35/93] fix: the Vereshchagin solver rejects chains with fixed
 joints instead of reading past the joint arrays

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 3 +++
 orocos_kdl/src/chainhdsolver_vereshchagin.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 75f58e9..94a544e 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -63,6 +63,9 @@ int ChainHdSolver_Vereshchagin::CartToJnt(const JntArray &q, const JntArray &q_d
         return (error = E_SIZE_MISMATCH);
     if (alfa.columns() != nc || beta.rows() != nc)
         return (error = E_SIZE_MISMATCH);
+    //only chains with one joint per segment are supported: fixed joints have no joint value and no motion axis
+    if (nj != ns)
+        return (error = E_NOT_IMPLEMENTED);
     //do an upward recursion for position, velocities and rigid-body bias forces
     this->initial_upwards_sweep(q, q_dot, q_dotdot, f_ext);
     //do an inward recursion for inertia, articulated bias forces and constraints
diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.hpp b/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
index 86be647..e87b7fd 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
@@ -331,6 +331,7 @@ namespace KDL
  * ### Supported robot models
  *
  * KDL's current implementation of the Vereshchagin HD solver supports only robot chains that have equal number of joints and segments.
+ * For any other chain, CartToJnt returns E_NOT_IMPLEMENTED.
  * Moreover, this implementation can only compute dynamics for **serial** type of chains, i.e. currently, **tree** robot structures are not supported
  * in this solver. Nevertheless, the original solver's derivation has been extended in [3] to account for multiple motion constraints imposed
  * on a **tree** robot structure. This extension does not only account for acceleration constraints imposed on multiple end-effectors but also for
-- 
2.43.0


From 50fcba8505235105f795c1e15149297e38f4bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 36/93] fix: ChainHdSolver_Vereshchagin inherits SolverI
 publicly, so getError and strError can be called

---
 orocos_kdl/src/chainhdsolver_vereshchagin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.hpp b/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
index e87b7fd..fedf02a 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
@@ -364,7 +364,7 @@ namespace KDL
  * @ingroup KinematicFamily
  */
 
-class ChainHdSolver_Vereshchagin : KDL::SolverI
+class ChainHdSolver_Vereshchagin : public KDL::SolverI
 {
     typedef std::vector<Twist> Twists;
     typedef std::vector<Frame> Frames;
-- 
2.43.0


From d6108bb8854fb1f4c513958c65fd1f94a2f3a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 37/93] fix: Vereshchagin solver: report the joint torques of
 the constraint forces, not their articulated reduction

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 94a544e..555456e 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -303,6 +303,19 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
 {
     unsigned int j = 0;
 
+    //Constraint force acting on the end-effector, in end-effector coordinates
+    Vector6d tmp_ee = Vector6d::Zero();
+    if (ns > 0)
+        tmp_ee = results[ns].E_tilde*nu;
+    Wrench constraint_force_ee = Wrench(Vector(tmp_ee(3), tmp_ee(4), tmp_ee(5)),
+                                        Vector(tmp_ee(0), tmp_ee(1), tmp_ee(2)));
+    //The joint torques originating from the end-effector constraints: this force projected on the joint axes
+    for (unsigned int i = ns; i >= 1; i--)
+    {
+        constraint_force_ee = results[i].F*constraint_force_ee;
+        constraint_torques(i - 1) = -dot(results[i].Z, constraint_force_ee);
+    }
+
     for (unsigned int i = 1; i <= ns; i++)
     {
         segment_info& s = results[i];
@@ -331,15 +344,14 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
         double parent_forceProjection = -dot(s.Z, parent_force);
         double parentAccComp = parent_forceProjection / s.D;
 
-        //The constraint force and acceleration force projected on the joint axes -> axis torque/force
-        constraint_torques(j) = -dot(s.Z, constraint_force);
-        //The result should be the torque originating from the end-effector constraints
+        //The constraint force, reduced by the motion of the more distal joints, projected on the joint axis
+        double constraint_forceProjection = -dot(s.Z, constraint_force);
 
         // Total torque on the joint resulting from the parent forces, constraint forces and nullspace forces.
-        total_torques(j) = s.u + parent_forceProjection + constraint_torques(j);
+        total_torques(j) = s.u + parent_forceProjection + constraint_forceProjection;
         // q_dotdot(j) is also equal to: total_torques(j) / s.D
 
-        s.constAccComp = constraint_torques(j) / s.D;
+        s.constAccComp = constraint_forceProjection / s.D;
         s.nullspaceAccComp = s.u / s.D;
 
         // Total joint space acceleration resulting from accelerations of parent joints, constraint forces and nullspace forces.
-- 
2.43.0


From a1270bde344d4d271d7f9a519ac26d3204df215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:40 +0000
Subject: [PATCH 38/93] fix: svd_HH, svd_eigen_HH: splitting test against the
 norm of the matrix

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 7 ++++---
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index b82467c..e6d7647 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -66,7 +66,8 @@ namespace KDL
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
+        bool flag;
+        double maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         for(i=0;i<rows;i++)
@@ -173,11 +174,11 @@ namespace KDL
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if ((fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
                         flag=false;
                         break;
                     }
-                    if ((fabs(w(nm)+anorm) == anorm)) break;
+                    if ((fabs(w(nm))+anorm) == anorm) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 7c7bd37..68a801e 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -34,7 +34,8 @@ namespace KDL{
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
+        bool flag;
+        double maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         /* Householder reduction to bidiagonal form. */
@@ -140,11 +141,11 @@ namespace KDL{
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if ((fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
                         flag=false;
                         break;
                     }
-                    if ((fabs(S(nm)+anorm) == anorm)) break;
+                    if ((fabs(S(nm))+anorm) == anorm) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
-- 
2.43.0


From 732d271d37ba53297aafd147538f0a2e788092cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 39/93] fix: svd_HH, svd_eigen_HH: report exhausted iterations,
 and only those

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 7 +++----
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index e6d7647..c6efb66 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -262,11 +262,10 @@ namespace KDL
                 tmp(k)=f;
                 w(k)=x;
             }
+            if (its > maxiter) /* No convergence. */
+                return (-2);
         }
-        if (its == maxiter)
-            return (-2);
-        else
-            return (0);
+        return (0);
     }
 
 }
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 68a801e..d39022a 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -235,6 +235,8 @@ namespace KDL{
                 tmp(k)=f;
                 S(k)=x;
             }
+            if (its > maxiter) /* No convergence. */
+                return (-2);
         }
 
         //Sort eigen values:
@@ -261,9 +263,6 @@ namespace KDL{
             }
         }
         
-        if (its == maxiter) 
-            return (-2);
-        else 
-            return (0);
+        return (0);
     }
 }
-- 
2.43.0


From f19744b96a7dc244f4273edef095af111da6ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:25 +0000
Subject: [PATCH 40/93] fix: svd_eigen_Macie: decompose tall and singular
 matrices

---
 orocos_kdl/src/utilities/svd_eigen_Macie.cpp | 180 ++++++-------------
 1 file changed, 58 insertions(+), 122 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
index c0fce47..be80954 100644
--- a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
@@ -20,6 +20,8 @@
 // Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include "svd_eigen_Macie.hpp"
+#include <cmath>
+#include <limits>
 
 namespace KDL{
     int svd_eigen_Macie(const Eigen::MatrixXd& A,Eigen::MatrixXd& U,Eigen::VectorXd& S, Eigen::MatrixXd& V,
@@ -28,135 +30,69 @@ namespace KDL{
     {
         bool rotate = true;
         unsigned int sweeps=0;
-        unsigned int rotations=0;
-        if(toggle){
-            //Calculate B from new A and previous V
-            B=A.lazyProduct(V);
-            while(rotate){
-                rotate=false;
-                rotations=0;
-                //Perform rotations between columns of B
-                for(unsigned int i=0;i<B.cols();i++){
-                    for(unsigned int j=i+1;j<B.cols();j++){
-                        //calculate plane rotation
-                        double p = B.col(i).dot(B.col(j));
-                        double qi =B.col(i).dot(B.col(i));
-                        double qj = B.col(j).dot(B.col(j));
-                        double q=qi-qj;
-                        double alpha = pow(p,2.0)/(qi*qj);
-                        //if columns are orthogonal with precision
-                        //threshold, don't perform rotation and continue
-                        if(alpha<threshold)
-                            continue;
-                        rotations++;
-                        double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
-                        double cos,sin;
-                        if(q>=0){
-                            cos=sqrt((c+q)/(2*c));
-                            sin=p/(c*cos);
-                        }else{
-                            if(p<0)
-                                sin=-sqrt((c-q)/(2*c));
-                            else
-                                sin=sqrt((c-q)/(2*c));
-                            cos=p/(c*sin);
-                        }
-
-                        //Apply plane rotation to columns of B
-                        tempi = cos*B.col(i) + sin*B.col(j);
-                        B.col(j) = - sin*B.col(i) + cos*B.col(j);
-                        B.col(i) = tempi;
-                        
-                        //Apply plane rotation to columns of V
-                        tempi.head(V.rows()) = cos*V.col(i) + sin*V.col(j);
-                        V.col(j) = - sin*V.col(i) + cos*V.col(j);
-                        V.col(i) = tempi.head(V.rows());
-
-                        rotate=true;
-                    }
-                }
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
-                    for(unsigned int i=0;i<U.rows();i++) {
-                        if(i<B.cols()){
-                            double si=sqrt(B.col(i).dot(B.col(i)));
-                            if(si==0)
-                                U.col(i) = B.col(i);
-                            else
-                                U.col(i) = B.col(i)/si;
-                            S(i)=si;
-                        }
+        const double eps = std::numeric_limits<double>::epsilon();
+        //Calculate B from new A and previous V; every other call starts from
+        //scratch such that rounding errors do not accumulate in V
+        if(!toggle)
+            V.setIdentity();
+        B=A.lazyProduct(V);
+        while(rotate){
+            rotate=false;
+            //Perform rotations between columns of B
+            for(unsigned int i=0;i<B.cols();i++){
+                for(unsigned int j=i+1;j<B.cols();j++){
+                    //calculate plane rotation
+                    double p = B.col(i).dot(B.col(j));
+                    double qi =B.col(i).dot(B.col(i));
+                    double qj = B.col(j).dot(B.col(j));
+                    double q=qi-qj;
+                    //if columns are orthogonal with precision
+                    //threshold, or one of them vanishes next to the other,
+                    //don't perform rotation and continue
+                    if(!(p*p>threshold*qi*qj) || !(fabs(p)>4*eps*(qi+qj)))
+                        continue;
+                    double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
+                    double cos,sin;
+                    if(q>=0){
+                        cos=sqrt((c+q)/(2*c));
+                        sin=p/(c*cos);
+                    }else{
+                        if(p<0)
+                            sin=-sqrt((c-q)/(2*c));
                         else
-                            U.col(i) = 0*tempi;
+                            sin=sqrt((c-q)/(2*c));
+                        cos=p/(c*sin);
                     }
-                    sweeps++;
-                }
-            }
-            return sweeps;
-        }else{
-            //Calculate B from new A and previous U'
-            B = U.transpose().lazyProduct(A);
-            while(rotate){
-                rotate=false;
-                rotations=0;
-                //Perform rotations between rows of B
-                for(unsigned int i=0;i<B.cols();i++){
-                    for(unsigned int j=i+1;j<B.cols();j++){
-                        //calculate plane rotation
-                        double p = B.row(i).dot(B.row(j));
-                        double qi = B.row(i).dot(B.row(i));
-                        double qj = B.row(j).dot(B.row(j));
-
-                        double q=qi-qj;
-                        double alpha = pow(p,2.0)/(qi*qj);
-                        //if columns are orthogonal with precision
-                        //threshold, don't perform rotation and
-                        //continue
-                        if(alpha<threshold)
-                            continue;
-                        rotations++;
-                        double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
-                        double cos,sin;
-                        if(q>=0){
-                            cos=sqrt((c+q)/(2*c));
-                            sin=p/(c*cos);
-                        }else{
-                            if(p<0)
-                                sin=-sqrt((c-q)/(2*c));
-                            else
-                                sin=sqrt((c-q)/(2*c));
-                            cos=p/(c*sin);
-                        }
-
-                        //Apply plane rotation to rows of B
-                        tempi.head(B.cols()) =  cos*B.row(i) + sin*B.row(j);
-                        B.row(j) =  - sin*B.row(i) + cos*B.row(j);
-                        B.row(i) =  tempi.head(B.cols());
 
+                    //Apply plane rotation to columns of B
+                    tempi = cos*B.col(i) + sin*B.col(j);
+                    B.col(j) = - sin*B.col(i) + cos*B.col(j);
+                    B.col(i) = tempi;
 
-                        //Apply plane rotation to rows of U
-                        tempi.head(U.rows()) = cos*U.col(i) + sin*U.col(j);
-                        U.col(j) = - sin*U.col(i) + cos*U.col(j);
-                        U.col(i) = tempi.head(U.rows());
+                    //Apply plane rotation to columns of V
+                    tempi.head(V.rows()) = cos*V.col(i) + sin*V.col(j);
+                    V.col(j) = - sin*V.col(i) + cos*V.col(j);
+                    V.col(i) = tempi.head(V.rows());
 
-                        rotate=true;
-                    }
-                }
-
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
-                    for(unsigned int i=0;i<V.rows();i++) {
-                        double si=sqrt(B.row(i).dot(B.row(i)));
-                        if(si==0)
-                            V.col(i) = B.row(i);
-                        else
-                            V.col(i) = B.row(i)/si;
-                        S(i)=si;
-                    }
-                    sweeps++;
+                    rotate=true;
                 }
             }
-            return sweeps;
+            if(rotate)
+                sweeps++;
+        }
+        //Calculate new U and S
+        for(unsigned int i=0;i<U.cols();i++) {
+            if(i<B.cols()){
+                double si=sqrt(B.col(i).dot(B.col(i)));
+                if(si==0)
+                    U.col(i) = B.col(i);
+                else
+                    U.col(i) = B.col(i)/si;
+                S(i)=si;
+            }
+            else
+                U.col(i).setZero();
         }
+        return sweeps;
     }
 } // namespace KDL
-- 
2.43.0


From d41f4125d953fbb4a204311b09d7b19ffca16b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:25 +0000
Subject: [PATCH 41/93] fix: ChainExternalWrenchEstimator::setInitialMomentum:
 reset the stored inertia matrix

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 8c9d752..fdbce1c 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -83,6 +83,9 @@ int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_posit
 
     initial_jnt_momentum.data = jnt_mass_matrix.data * joint_velocity.data;
 
+    // The robot's inertia changes relative to the one that the initial momentum belongs to
+    previous_jnt_mass_matrix.data = jnt_mass_matrix.data;
+
     // Reset data because of the new momentum offset
     SetToZero(estimated_momentum_integral);
     SetToZero(filtered_estimated_ext_torque);
-- 
2.43.0


From 65d80a353a68798f3531bdbf0b53f6e08eb44f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:05 +0000
Subject: [PATCH 42/93] fix: ChainExternalWrenchEstimator: updating an
 estimator of an empty chain

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 4 ++--
 orocos_kdl/src/chainexternalwrenchestimator.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index fdbce1c..4d647bc 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -24,7 +24,7 @@ namespace KDL {
 
 ChainExternalWrenchEstimator::ChainExternalWrenchEstimator(const Chain &chain, const Vector &gravity, const double sample_frequency, const double estimation_gain, const double filter_constant, const double eps, const int maxiter) :
     CHAIN(chain),
-    DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant),
+    DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant), GAIN_CONST(estimation_gain),
     svd_eps(eps),
     svd_maxiter(maxiter),
     nj(CHAIN.getNrOfJoints()), ns(CHAIN.getNrOfSegments()),
@@ -64,7 +64,7 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
     S.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     S_inv.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     tmp.conservativeResizeLike(Eigen::VectorXd::Zero(6));
-    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, ESTIMATION_GAIN(0)));
+    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, GAIN_CONST));
     dynparam_solver.updateInternalDataStructures();
     jacobian_solver.updateInternalDataStructures();
     fk_pos_solver.updateInternalDataStructures();
diff --git a/orocos_kdl/src/chainexternalwrenchestimator.hpp b/orocos_kdl/src/chainexternalwrenchestimator.hpp
index 3147a5d..3f282d6 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.hpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.hpp
@@ -109,7 +109,7 @@ namespace KDL {
 
     private:
         const Chain &CHAIN;
-        const double DT_SEC, FILTER_CONST;
+        const double DT_SEC, FILTER_CONST, GAIN_CONST;
         double svd_eps;
         int svd_maxiter;
         unsigned int nj, ns;
-- 
2.43.0


From 5595ccca1b490f977897ebea8c5769bfb9338e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 43/93] fix: ChainIkSolverVel_pinv, ChainIkSolverVel_wdls:
 report lost rank of chains with fewer than six joints

---
 orocos_kdl/src/chainiksolvervel_pinv.cpp | 2 +-
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv.cpp b/orocos_kdl/src/chainiksolvervel_pinv.cpp
index 4ecc0cc..f80373f 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv.cpp
@@ -122,7 +122,7 @@ namespace KDL
 
         // Note if the solution is singular, i.e. if number of near zero
         // singular values is greater than the full rank of jac
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        if ( nrZeroSigmas > (jac.columns() > jac.rows() ? jac.columns()-jac.rows() : 0) ) {
             return (error = E_CONVERGE_PINV_SINGULAR);   // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index a2f37ae..511d9ea 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -208,7 +208,7 @@ namespace KDL
 
         // If number of near zero singular values is greater than the full rank
         // of jac, then wdls is active
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        if ( nrZeroSigmas > (jac.columns() > jac.rows() ? jac.columns()-jac.rows() : 0) ) {
             return (error = E_CONVERGE_PINV_SINGULAR);  // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
-- 
2.43.0


From 8ae8e31df07849ada136b6fa534b841f34bd7bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:52 +0000
Subject: [PATCH 44/93] fix: ChainIkSolverVel_pinv_givens: truncate the
 vanishing singular values of a singular Jacobian

---
 orocos_kdl/src/chainiksolvervel_pinv_givens.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
index fbf102b..2744180 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
@@ -98,11 +98,14 @@ namespace KDL
         else
             UY.noalias() = U.transpose() * v_in_eigen;
 
+        // Singular values of a singular Jacobian are only zero up to rounding
+        double S_max = (n > 0) ? S.maxCoeff() : 0.0;
+
         for (unsigned int i = 0; i < n; i++){
             double wi = UY(i);
             double alpha = S(i);
             
-            if (alpha != 0)
+            if (alpha > 1e-10 * S_max)
                 alpha = 1.0 / alpha;
             else
                 alpha = 0.0;
-- 
2.43.0


From c0765d5b120c2a91d0e985d397862431fd570f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 45/93] fix: ChainIkSolverVel_pinv_nso: do not store the
 desired twist in a vector of joint size

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 1b04795..fa86ba8 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -113,11 +113,12 @@ namespace KDL
         for (i = 0; i < nj; ++i) {
             Sinv(i) = fabs(S(i))<eps ? 0.0 : 1.0/S(i);
         }
+        Eigen::Matrix<double,6,1> v_in_eigen;
         for (i = 0; i < 6; ++i) {
-            tmp(i) = v_in(i);
+            v_in_eigen(i) = v_in(i);
         }
 
-        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * tmp.head(6);
+        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * v_in_eigen;
 
         // Now onto NULL space
         // Given the cost function g, and the current joints q, desired joints qd, and weights w:
-- 
2.43.0


From 8f2fafce746567e4b079fde9ae495407c92060b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 46/93] fix: ChainIkSolverVel_wdls: check the dimensions of the
 weights, not only their size

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index 511d9ea..3f7099f 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -77,14 +77,14 @@ namespace KDL
         if(nj != chain.getNrOfJoints())
             return (error = E_NOT_UP_TO_DATE);
 
-        if (Mq.size() != weight_js.size())
+        if (Mq.rows() != weight_js.rows() || Mq.cols() != weight_js.cols())
             return (error = E_SIZE_MISMATCH);
         weight_js = Mq;
         return (error = E_NOERROR);
     }
     
     int ChainIkSolverVel_wdls::setWeightTS(const Eigen::MatrixXd& Mx){
-        if (Mx.size() != weight_ts.size())
+        if (Mx.rows() != weight_ts.rows() || Mx.cols() != weight_ts.cols())
             return (error = E_SIZE_MISMATCH);
         weight_ts = Mx;
         return (error = E_NOERROR);
-- 
2.43.0


From f34e64dcfcc4c9e04d69261e054650fff6163d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 47/93] fix: ChainIkSolverVel_wdls: chains of fewer than six
 joints

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index 3f7099f..9f5d00c 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -151,7 +151,9 @@ namespace KDL
         }
 
         //Pre-multiply U and V by the task space and joint space weighting matrix respectively
-        tmp_ts = weight_ts.lazyProduct(U.topLeftCorner(6,6));
+        // (U has one column per joint, only its first six can belong to a non-zero singular value)
+        const unsigned int nc = nj < 6 ? nj : 6;
+        tmp_ts.leftCols(nc) = weight_ts.lazyProduct(U.leftCols(nc));
         tmp_js = weight_js.lazyProduct(V);
 
         // Minimum of six largest singular values of J is S(5) if number of joints >=6 and 0 for <6
-- 
2.43.0


From b2e638876aa69e9a403b3b1c7409fb2e52587227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:05 +0000
Subject: [PATCH 48/93] fix: ChainIkSolverVel_wdls: without damping set the
 inverse of singular values below eps to zero

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index 9f5d00c..699a93d 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -181,12 +181,12 @@ namespace KDL
                 lambda_scaled = sqrt(1.0-(sigmaMin/eps)*(sigmaMin/eps))*lambda ;
             }
             if(fabs(S(i))<eps) {
-                if (i<6) {
+                if (i<6 && lambda_scaled != 0.0) {
                     // Scale lambda to size of singular value sigmaMin
                     tmp(i) = sum*((S(i)/(S(i)*S(i)+lambda_scaled*lambda_scaled)));
                 }
                 else {
-                    tmp(i)=0.0;  // S(i)=0 for i>=6 due to cols>rows
+                    tmp(i)=0.0;  // S(i)=0 for i>=6 due to cols>rows, or not damped: inverse set to zero
                 }
                 //  Count number of singular values near zero
                 ++nrZeroSigmas ;
-- 
2.43.0


From bea1848639b842ed6b0acc59a71189babf180cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 49/93] fix: ChainIkSolverPos_NR: record the result of a
 converged solution for getError

---
 orocos_kdl/src/chainiksolverpos_nr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr.cpp b/orocos_kdl/src/chainiksolverpos_nr.cpp
index 79747bf..8d7f12d 100644
--- a/orocos_kdl/src/chainiksolverpos_nr.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr.cpp
@@ -62,7 +62,7 @@ namespace KDL
             Add(q_out,delta_q,q_out);
             if(Equal(delta_twist,Twist::Zero(),eps))
                 // converged, but possibly with a degraded solution
-                return (rc > E_NOERROR ? E_DEGRADED : E_NOERROR);
+                return (error = (rc > E_NOERROR ? E_DEGRADED : E_NOERROR));
         }
         return (error = E_MAX_ITERATIONS_EXCEEDED);        // failed to converge
     }
-- 
2.43.0


From 581fe8090b1ea2987bee1bf162906a636ffd9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:29 +0000
Subject: [PATCH 50/93] fix: ChainIkSolverPos_NR: return the joints that were
 checked against the target

---
 orocos_kdl/src/chainiksolverpos_nr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr.cpp b/orocos_kdl/src/chainiksolverpos_nr.cpp
index 8d7f12d..e146094 100644
--- a/orocos_kdl/src/chainiksolverpos_nr.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr.cpp
@@ -59,10 +59,10 @@ namespace KDL
                 return (error = E_IKSOLVER_FAILED);
             // we chose to continue if the child solver returned a positive
             // "error", which may simply indicate a degraded solution
-            Add(q_out,delta_q,q_out);
             if(Equal(delta_twist,Twist::Zero(),eps))
                 // converged, but possibly with a degraded solution
                 return (error = (rc > E_NOERROR ? E_DEGRADED : E_NOERROR));
+            Add(q_out,delta_q,q_out);
         }
         return (error = E_MAX_ITERATIONS_EXCEEDED);        // failed to converge
     }
-- 
2.43.0


From 9b3f235640ff60babb2fce22ac9ca01bd1304374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 51/93] fix: ChainIkSolverPos_NR_JL: default lower joint limit
 is the lowest value

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index bb30c45..95166ce 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -46,13 +46,13 @@ namespace KDL
          delta_q(nj),
          maxiter(_maxiter),eps(_eps)
     {
-        q_min.data.setConstant(std::numeric_limits<double>::min());
+        q_min.data.setConstant(-std::numeric_limits<double>::max());
         q_max.data.setConstant(std::numeric_limits<double>::max());
     }
 
     void ChainIkSolverPos_NR_JL::updateInternalDataStructures() {
        nj = chain.getNrOfJoints();
-       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::min()));
+       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,-std::numeric_limits<double>::max()));
        q_max.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::max()));
        iksolver.updateInternalDataStructures();
        fksolver.updateInternalDataStructures();
-- 
2.43.0


From 08e62773a8eb7841a37e19be969f79e6451da900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 52/93] fix: ChainIkSolverPos_NR_JL: clamp the initial guess to
 the joint limits

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index 95166ce..18f2e1a 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -68,6 +68,13 @@ namespace KDL
             return (error = E_SIZE_MISMATCH);
 
         q_out = q_init;
+        // the initial guess may lie outside of the joint limits
+        for(unsigned int j=0; j<nj; j++) {
+            if(q_out(j) < q_min(j))
+                q_out(j) = q_min(j);
+            if(q_out(j) > q_max(j))
+                q_out(j) = q_max(j);
+        }
 
         unsigned int i;
         for(i=0;i<maxiter;i++){
-- 
2.43.0


From cd8eec75f1cb55d035a6a21e387a9cc15fb7e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 53/93] fix: ChainIkSolverPos_LMA: diagnostics of a start
 position at the target

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index 71d2ab5..18a4ba1 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -209,10 +209,12 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 	delta_pos_norm = delta_pos.norm();
 	if (delta_pos_norm<eps) {
 		lastNrOfIter    =0 ;
+		lastDifference  = delta_pos_norm;
 		Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
-		lastDifference  = delta_pos.norm();
 		lastTransDiff   = delta_pos.topRows(3).norm();
 		lastRotDiff     = delta_pos.bottomRows(3).norm();
+		compute_jacobian(q);
+		jac = L.asDiagonal()*jac;
 		svd.compute(jac);
 		original_Aii    = svd.singularValues();
 		lastSV          = svd.singularValues();
-- 
2.43.0


From a5ebe36ac92d6c3770132c6a0ec66fca501568c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 54/93] fix: ChainIkSolverPos_LMA: report unweighted
 differences when the iterations are exhausted

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index 18a4ba1..a053750 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -306,6 +306,8 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 			v      = 2*v;
 		}
 	}
+	compute_fwdpos(q);
+	Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
 	lastDifference = delta_pos_norm;
 	lastTransDiff  = delta_pos.topRows(3).norm();
 	lastRotDiff    = delta_pos.bottomRows(3).norm();
-- 
2.43.0


From f63d3a11e79055ced15719ba03aeb62ed2b1769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 55/93] fix: ChainIkSolverPos_LMA: chains without joints

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index a053750..eca6ea5 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -61,7 +61,7 @@ ChainIkSolverPos_LMA::ChainIkSolverPos_LMA(
 	lastDifference(0),
 	lastTransDiff(0),
 	lastRotDiff(0),
-	lastSV(nj),
+	lastSV(nj>6?6:nj),
 	jac(6, nj),
 	grad(nj),
 	display_information(false),
@@ -207,6 +207,15 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 	Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
 	delta_pos=L.asDiagonal()*delta_pos;
 	delta_pos_norm = delta_pos.norm();
+	if (nj == 0) {
+		// no joints: nothing to decompose or to move
+		lastNrOfIter    = 0;
+		lastDifference  = delta_pos_norm;
+		Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
+		lastTransDiff   = delta_pos.topRows(3).norm();
+		lastRotDiff     = delta_pos.bottomRows(3).norm();
+		return (error = (delta_pos_norm<eps ? (int)E_NOERROR : E_GRADIENT_JOINTS_TOO_SMALL));
+	}
 	if (delta_pos_norm<eps) {
 		lastNrOfIter    =0 ;
 		lastDifference  = delta_pos_norm;
-- 
2.43.0


From ca69736925bfad54011a6fcb78d80c9be7cb0043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 56/93] fix: TreeIkSolverVel_wdls: without damping truncate
 vanishing singular values

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 87665db..924aede 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -86,6 +86,9 @@ namespace KDL {
         Wy_t.noalias() = Wy * t;
         Wq_V.noalias() = Wq * V;
         
+        // Without damping, singular values that are zero (up to rounding) are truncated
+        double S_max = (J.cols() > 0) ? S.maxCoeff() : 0.0;
+
         // tmp = (Si*Wy*U'*y),
         for (unsigned int i = 0; i < J.cols(); i++) {
             double sum = 0.0;
@@ -95,7 +98,10 @@ namespace KDL {
                 else
                     sum += 0.0;
             }
-            tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
+            if (lambda == 0.0 && S(i) <= 1e-10 * S_max)
+                tmp(i) = 0.0;
+            else
+                tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
         }
         
         // x = Lx^-1*V*tmp + x
-- 
2.43.0


From 8ee7bf0a10d6c4b3df719ffa434e0383b99bfa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 57/93] fix: TreeIkSolverVel_wdls: twists for some of the
 endpoints

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 924aede..a1352e6 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -66,7 +66,9 @@ namespace KDL {
             else {
                 //lets put the jacobian in the big matrix and put the twist in the big t:
                 J.block(6*k,0, 6,tree.getNrOfJoints()) = jac_it->second.data;
-                const Twist& twist=v_in.find(jac_it->first)->second;
+                //an endpoint without a twist has to stand still
+                Twists::const_iterator v_it = v_in.find(jac_it->first);
+                const Twist twist = (v_it != v_in.end()) ? v_it->second : Twist::Zero();
                 t.segment(6*k,3)   = Eigen::Map<const Eigen::Vector3d>(twist.vel.data);
                 t.segment(6*k+3,3) = Eigen::Map<const Eigen::Vector3d>(twist.rot.data);
             }
-- 
2.43.0


From a9f42f9bf0f50c694683442bb511ca4dbba1b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 58/93] fix: TreeIkSolverPos_NR_JL: check the size of the
 limits and clamp the initial guess

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 2b0b1a3..363fb3f 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -46,6 +46,16 @@ namespace KDL {
         for(Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it)
             if(frames.find(f_des_it->first)==frames.end())
                 return -2;
+        if (q_out.rows() != q_min.rows() || q_out.rows() != q_max.rows())
+            return -1;
+        
+        // The initial guess may lie outside of the joint limits
+        for (unsigned int j = 0; j < q_min.rows(); j++) {
+            if (q_out(j) < q_min(j))
+                q_out( j) = q_min(j);
+            else if (q_out(j) > q_max(j))
+                q_out( j) = q_max(j);
+        }
         
         unsigned int k=0;
         while(++k <= maxiter) {
-- 
2.43.0


From b96a9ab3685133d1d069ea28c439c4001aeac643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 59/93] fix: TreeIkSolverPos_NR_JL, TreeIkSolverPos_Online:
 forget the twists of earlier targets

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp  | 4 ++++
 orocos_kdl/src/treeiksolverpos_online.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 363fb3f..e224266 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -57,6 +57,10 @@ namespace KDL {
                 q_out( j) = q_max(j);
         }
         
+        // Endpoints without a target have to stand still
+        for (Twists::iterator t_it = delta_twists.begin(); t_it != delta_twists.end(); ++t_it)
+            t_it->second = Twist::Zero();
+        
         unsigned int k=0;
         while(++k <= maxiter) {
             for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it){
diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 594c3a0..1bfcb45 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -66,6 +66,10 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
     if(frames_.find(f_des_it->first)==frames_.end())
       return -2;
 
+  // Endpoints without a target have to stand still
+  for (Twists::iterator t_it = delta_twists_.begin(); t_it != delta_twists_.end(); ++t_it)
+    t_it->second = Twist::Zero();
+
   for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it)
   {
     // Get all iterators for this endpoint
-- 
2.43.0


From 6352ab59a9fef445a98217086ff9d7c320017524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:55 +0000
Subject: [PATCH 60/93] fix: TreeIkSolverPos_Online: scale Cartesian velocities
 with the biggest overshoot

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 1bfcb45..5cd24ee 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -157,18 +157,17 @@ void TreeIkSolverPos_Online::enforceCartVelLimits()
   x_dot_trans = sqrt( pow(twist_.vel.x(), 2) + pow(twist_.vel.y(), 2) + pow(twist_.vel.z(), 2));
   x_dot_rot = sqrt( pow(twist_.rot.x(), 2) + pow(twist_.rot.y(), 2) + pow(twist_.rot.z(), 2));
 
-  if ( x_dot_trans > x_dot_trans_max_ || x_dot_rot > x_dot_rot_max_ )
+  // scale both with the biggest relative overshoot
+  double scale = 1.0;
+  if ( x_dot_trans > x_dot_trans_max_ )
+    scale = x_dot_trans_max_ / x_dot_trans;
+  if ( x_dot_rot > x_dot_rot_max_ && x_dot_rot_max_ / x_dot_rot < scale )
+    scale = x_dot_rot_max_ / x_dot_rot;
+
+  if ( scale < 1.0 )
   {
-    if ( x_dot_trans > x_dot_rot )
-    {
-      twist_.vel = twist_.vel * ( x_dot_trans_max_ / x_dot_trans );
-      twist_.rot = twist_.rot * ( x_dot_trans_max_ / x_dot_trans );
-    }
-    else if ( x_dot_rot > x_dot_trans )
-    {
-      twist_.vel = twist_.vel * ( x_dot_rot_max_ / x_dot_rot );
-      twist_.rot = twist_.rot * ( x_dot_rot_max_ / x_dot_rot );
-    }
+    twist_.vel = twist_.vel * scale;
+    twist_.rot = twist_.rot * scale;
   }
 }
 
-- 
2.43.0


From 012e4be56c0c052c580fad7d1cce259e9d7a0e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:17 +0000
Subject: [PATCH 61/93] fix: TreeIkSolverVel_wdls: refuse weights of wrong
 dimensions

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index a1352e6..e2c03c2 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -55,6 +55,9 @@ namespace KDL {
         //Check if q_in has the right size
         if (q_in.rows() != tree.getNrOfJoints())
             return -1;
+        //Check if the weights have the right size
+        if (Wq.rows() != J.cols() || Wq.cols() != J.cols() || Wy.rows() != J.rows() || Wy.cols() != J.rows())
+            return -1;
         
         //Lets get all the jacobians we need:
         unsigned int k = 0;
-- 
2.43.0


From 8b187eb0f667af3ce38e778453fddb2cb385015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:59 +0000
Subject: [PATCH 62/93] fix: Path_Line from a twist rotates about the base
 frame axes

---
 orocos_kdl/src/path_line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_line.cpp b/orocos_kdl/src/path_line.cpp
index 789f542..8fc5f6d 100644
--- a/orocos_kdl/src/path_line.cpp
+++ b/orocos_kdl/src/path_line.cpp
@@ -98,10 +98,10 @@ Path_Line::Path_Line(const Frame& startpos,
        // after 1 time unit, startframe has translated over starttwist.vel
        // and rotated over starttwist.rot.Norm() (both vectors can be zero)
        // Thus the frame on the path after 1 time unit is defined by
-       // startframe.Integrate(starttwist, 1);
+       // startframe.Integrate(startframe.M.Inverse(starttwist), 1);
 	   	V_start_end = V_base_end - V_base_start;
 	   	double dist = V_start_end.Normalize(); // distance traveled during 1 time unit
-		orient->SetStartEnd(startpos.M, (startpos*Frame( Rotation::Rot(starttwist.rot, starttwist.rot.Norm() ), starttwist.vel )).M);
+		orient->SetStartEnd(startpos.M, Rotation::Rot(starttwist.rot, starttwist.rot.Norm())*startpos.M);
 		double alpha = orient->Angle();        // rotation during 1 time unit
 
 		// See what has the slowest eq. motion, and adapt
-- 
2.43.0


From 6d112a108169aa6d67b6e40d96b494636ceb2b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 63/93] fix: Path_Circle without any motion has NaN poses

---
 orocos_kdl/src/path_circle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 53261e8..17f1246 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -88,6 +88,11 @@ Path_Circle::Path_Circle(const Frame& F_base_start,
         pathlength = oalpha*eqradius;
         scalerot = 1/eqradius;
         scalelin = dist/pathlength;
+    } else if (dist == 0) {
+        // both were zero
+        pathlength = 0;
+        scalerot = 1;
+        scalelin = 1;
     } else {
         // translation is the limitation
         pathlength = dist;
-- 
2.43.0


From 6a00be8db8ebf4f39d6308ad288a9c6d08bd8a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:06 +0000
Subject: [PATCH 64/93] fix: Path_Line without any motion reports a twist

---
 orocos_kdl/src/path_line.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/path_line.cpp b/orocos_kdl/src/path_line.cpp
index 8fc5f6d..e6e5cfd 100644
--- a/orocos_kdl/src/path_line.cpp
+++ b/orocos_kdl/src/path_line.cpp
@@ -76,9 +76,10 @@ Path_Line::Path_Line(const Frame& startpos,
 			scalerot   = alpha/pathlength;
 			scalelin   = 1;
 		} else {
-            // both were zero
+            // both were zero, so there is no direction of motion
+            V_start_end = Vector::Zero();
             pathlength = 0;
-            scalerot   = 1;
+            scalerot   = 0;
             scalelin   = 1;
         }
    }
@@ -119,9 +120,10 @@ Path_Line::Path_Line(const Frame& startpos,
 			scalerot   = alpha/pathlength;
 			scalelin   = 1;
 		} else {
-            // both were zero
+            // both were zero, so there is no direction of motion
+            V_start_end = Vector::Zero();
             pathlength = 0;
-            scalerot   = 1;
+            scalerot   = 0;
             scalelin   = 1;
         }
    }
-- 
2.43.0


From d5aa93b7b535821adb79d8bf8c330472e66e29f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:08 +0000
Subject: [PATCH 65/93] fix: Path_Circle without any motion reports a twist

---
 orocos_kdl/src/path_circle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 17f1246..b365ce5 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -91,8 +91,8 @@ Path_Circle::Path_Circle(const Frame& F_base_start,
     } else if (dist == 0) {
         // both were zero
         pathlength = 0;
-        scalerot = 1;
-        scalelin = 1;
+        scalerot = 0;
+        scalelin = 0;
     } else {
         // translation is the limitation
         pathlength = dist;
-- 
2.43.0


From 1be84c633bb3a6df3b395c71611d9b02d341fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 66/93] fix: rounding of short segments in
 Path_RoundedComposite

---
 orocos_kdl/src/path_roundedcomposite.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 2916505..899097e 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -117,8 +117,9 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 			Frame F_base_circlestart = line1->Pos(line1->LengthToS(abdist - d));
 			Frame F_base_circleend = line2->Pos(line2->LengthToS(d));
 			// end of circle segment, beginning of next line
-			Vector V_base_t = ab * (ab * bc);
-			V_base_t.Normalize();
+			// (unit vectors: the result should not depend on the length of the segments)
+			Vector V_base_t = (ab / abdist) * ((ab / abdist) * (bc / bcdist));
+			V_base_t.Normalize(1E-10);
 			comp->Add(
 					new Path_Line(F_base_start, F_base_circlestart,
 							orient->Clone(), eqradius));
-- 
2.43.0


From f5e653f45db6655a210ad9119837b24c3c85baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:16 +0000
Subject: [PATCH 67/93] fix: Path_Composite lookup at a part boundary depends
 on earlier lookups

---
 orocos_kdl/src/path_composite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index c93f5a2..10dc974 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -56,7 +56,7 @@ double Path_Composite::Lookup(double s) const
 {
 	assert(s>=-1e-12);
 	assert(s<=pathlength+1e-12);
-	if ( (cached_starts <=s) && ( s <= cached_ends) ) {
+	if ( (cached_starts < s) && ( s <= cached_ends) ) {
 		return s - cached_starts;
 	}
 	double previous_s=0;
-- 
2.43.0


From 371e0fd9640d6d248bed9e47521d99310461f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:20 +0000
Subject: [PATCH 68/93] fix: rejected way point leaves half a corner in
 Path_RoundedComposite

---
 orocos_kdl/src/path_roundedcomposite.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 899097e..6072946 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -120,14 +120,17 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 			// (unit vectors: the result should not depend on the length of the segments)
 			Vector V_base_t = (ab / abdist) * ((ab / abdist) * (bc / bcdist));
 			V_base_t.Normalize(1E-10);
+			// can throw : construct it before the path is changed
+			scoped_ptr < Path
+					> circle(
+							new Path_Circle(F_base_circlestart,
+									F_base_circlestart.p - V_base_t * radius,
+									F_base_circleend.p, F_base_circleend.M,
+									alpha, orient->Clone(), eqradius));
 			comp->Add(
 					new Path_Line(F_base_start, F_base_circlestart,
 							orient->Clone(), eqradius));
-			comp->Add(
-					new Path_Circle(F_base_circlestart,
-							F_base_circlestart.p - V_base_t * radius,
-							F_base_circleend.p, F_base_circleend.M, alpha,
-							orient->Clone(), eqradius));
+			comp->Add(circle.release());
 			// shift for next line
 			F_base_start = F_base_circleend; // end of the circle segment
 			F_base_via = F_base_point;
-- 
2.43.0


From 0a8e726657abc277475a0f75762cec2a019bede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 69/93] fix: Path_RoundedComposite of a single point moves to
 the base frame

---
 orocos_kdl/src/path_roundedcomposite.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 6072946..151c6b7 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -41,6 +41,7 @@
 
 
 #include "path_roundedcomposite.hpp"
+#include "path_point.hpp"
 #include "path_line.hpp"
 #include "path_circle.hpp"
 #include "utilities/error.h"
@@ -141,7 +142,10 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 }
 
 void Path_RoundedComposite::Finish() {
-	if (nrofpoints >= 1) {
+	if (nrofpoints == 1) {
+		// there is no second point to move to
+		comp->Add(new Path_Point(F_base_start));
+	} else if (nrofpoints > 1) {
 		comp->Add(
 				new Path_Line(F_base_start, F_base_via, orient->Clone(),
 						eqradius));
-- 
2.43.0


From 9c6a3459e3fc4a842a132b0819c90afff721d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:26 +0000
Subject: [PATCH 70/93] fix: Path_Circle::Clone returns another arc

---
 orocos_kdl/src/path_circle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index b365ce5..8d10ff2 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -146,12 +146,12 @@ Path* Path_Circle::Clone() {
 	return new Path_Circle(
 		Pos(0),
 		F_base_center.p,
-		F_base_center.M.UnitY(),
+		F_base_center.p + F_base_center.M.UnitY(),
 		orient->Pos(pathlength*scalerot),
-		pathlength*scalelin/radius/deg2rad,
+		pathlength*scalelin/radius,
 		orient->Clone(),
 		eqradius,
-        aggregate
+        true
 	);
 }
 
-- 
2.43.0


From 085c016e9befc6ea80fae2e74eda67ac02b8e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 71/93] fix: Path_Circle::Write plane point

---
 orocos_kdl/src/path_circle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 8d10ff2..627466f 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -164,7 +164,7 @@ void Path_Circle::Write(std::ostream& os) {
 	os << "CIRCLE[ ";
 	os << "  " << Pos(0) << std::endl;
 	os << "  " << F_base_center.p << std::endl;
-	os << "  " << F_base_center.M.UnitY() << std::endl;
+	os << "  " << F_base_center.p + F_base_center.M.UnitY() << std::endl;
 	os << "  " << orient->Pos(pathlength*scalerot) << std::endl;
 	os << "  " << pathlength*scalelin/radius/deg2rad << std::endl;
 	os << "  ";orient->Write(os);
-- 
2.43.0


From e9d2beb928ad21a4afb109c19b88fcf6f0ca89cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:32 +0000
Subject: [PATCH 72/93] fix: clones of composite and cyclic paths with lent
 parts leak

---
 orocos_kdl/src/path_composite.cpp     | 3 ++-
 orocos_kdl/src/path_cyclic_closed.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index 10dc974..aca3a29 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -113,7 +113,8 @@ Twist Path_Composite::Acc(double s,double sd,double sdd) const {
 Path* Path_Composite::Clone()  {
 	scoped_ptr<Path_Composite> comp( new Path_Composite() );
 	for (unsigned int i = 0; i < dv.size(); ++i) {
-		comp->Add(gv[i].first->Clone(), gv[i].second);
+		// the clones are always owned by the new composite
+		comp->Add(gv[i].first->Clone(), true);
 	}
 	return comp.release();
 }
diff --git a/orocos_kdl/src/path_cyclic_closed.cpp b/orocos_kdl/src/path_cyclic_closed.cpp
index fa5c65f..2f2190e 100644
--- a/orocos_kdl/src/path_cyclic_closed.cpp
+++ b/orocos_kdl/src/path_cyclic_closed.cpp
@@ -76,7 +76,7 @@ Path_Cyclic_Closed::~Path_Cyclic_Closed() {
 }
 
 Path* Path_Cyclic_Closed::Clone() {
-	return new Path_Cyclic_Closed(geom->Clone(),times, aggregate);
+	return new Path_Cyclic_Closed(geom->Clone(),times, true);
 }
 
 void Path_Cyclic_Closed::Write(std::ostream& os)  {
-- 
2.43.0


From d0859d47de36486a0cfa449b037926df87bbe3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:47 +0000
Subject: [PATCH 73/93] fix: clone of an unfinished Path_RoundedComposite
 forgets its last way points

---
 orocos_kdl/src/path_roundedcomposite.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 151c6b7..d89b346 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -204,7 +204,10 @@ Path_RoundedComposite::~Path_RoundedComposite() {
 
 
 Path* Path_RoundedComposite::Clone() {
-	return new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	Path_RoundedComposite* res = new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	res->F_base_start = F_base_start;
+	res->F_base_via = F_base_via;
+	return res;
 }
 
 }
-- 
2.43.0


From 193dbd178024a0a5e98447afbd2059a235efb4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:50 +0000
Subject: [PATCH 74/93] fix: RotationalInterpolation_SingleAxis::Clone loses
 start and end

---
 orocos_kdl/src/rotational_interpolation_sa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/rotational_interpolation_sa.cpp b/orocos_kdl/src/rotational_interpolation_sa.cpp
index 6b5a56b..1580d0b 100644
--- a/orocos_kdl/src/rotational_interpolation_sa.cpp
+++ b/orocos_kdl/src/rotational_interpolation_sa.cpp
@@ -81,7 +81,7 @@ RotationalInterpolation_SingleAxis::~RotationalInterpolation_SingleAxis() {
 
 
 RotationalInterpolation* RotationalInterpolation_SingleAxis::Clone() const {
-	return new RotationalInterpolation_SingleAxis();
+	return new RotationalInterpolation_SingleAxis(*this);
 }
 
 }
-- 
2.43.0


From d3d236a8ddf5f8c5bd10417d6fadd4c4f80e1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:12 +0000
Subject: [PATCH 75/93] fix: clones of velocity profiles replan instead of
 copying

---
 orocos_kdl/src/velocityprofile_dirac.hpp    | 4 +---
 orocos_kdl/src/velocityprofile_rect.hpp     | 4 +---
 orocos_kdl/src/velocityprofile_trap.cpp     | 4 +---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 4 +---
 4 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_dirac.hpp b/orocos_kdl/src/velocityprofile_dirac.hpp
index 07aa62b..6ef40e3 100644
--- a/orocos_kdl/src/velocityprofile_dirac.hpp
+++ b/orocos_kdl/src/velocityprofile_dirac.hpp
@@ -57,9 +57,7 @@ namespace KDL {
         virtual double Acc(double time) const;
         virtual void Write(std::ostream& os) const;
         virtual VelocityProfile* Clone() const {
-            VelocityProfile_Dirac* res =  new VelocityProfile_Dirac();
-            res->SetProfileDuration( p1, p2, t );
-            return res;
+            return new VelocityProfile_Dirac(*this);
         }
 
         virtual ~VelocityProfile_Dirac() {}
diff --git a/orocos_kdl/src/velocityprofile_rect.hpp b/orocos_kdl/src/velocityprofile_rect.hpp
index 4482779..4f049b9 100644
--- a/orocos_kdl/src/velocityprofile_rect.hpp
+++ b/orocos_kdl/src/velocityprofile_rect.hpp
@@ -76,9 +76,7 @@ namespace KDL {
 		virtual double Acc(double time) const;
 		virtual void Write(std::ostream& os) const;
 		virtual VelocityProfile* Clone() const{
-			VelocityProfile_Rectangular* res =  new VelocityProfile_Rectangular(maxvel);
-			res->SetProfileDuration( p, p+v*d, d );
-			return res;
+			return new VelocityProfile_Rectangular(*this);
 		}
 		// returns copy of current VelocityProfile object. (virtual constructor)
 		virtual ~VelocityProfile_Rectangular() {}
diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index 1bee674..aab4167 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -178,9 +178,7 @@ double VelocityProfile_Trap::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_Trap::Clone() const {
-	VelocityProfile_Trap* res =  new VelocityProfile_Trap(maxvel,maxacc);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_Trap(*this);
 }
 
 VelocityProfile_Trap::~VelocityProfile_Trap() {}
diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 05ff180..334dd9c 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -183,9 +183,7 @@ double VelocityProfile_TrapHalf::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_TrapHalf::Clone() const {
-	VelocityProfile_TrapHalf* res =  new VelocityProfile_TrapHalf(maxvel,maxacc, starting);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_TrapHalf(*this);
 }
 
 VelocityProfile_TrapHalf::~VelocityProfile_TrapHalf() {}
-- 
2.43.0


From 1120168234d8048fdfbc5263ac4d319f2ddb857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 76/93] fix: velocity profiles are uninitialised until they are
 set

---
 orocos_kdl/src/velocityprofile_dirac.hpp    | 1 +
 orocos_kdl/src/velocityprofile_rect.hpp     | 2 +-
 orocos_kdl/src/velocityprofile_traphalf.cpp | 5 +++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/velocityprofile_dirac.hpp b/orocos_kdl/src/velocityprofile_dirac.hpp
index 6ef40e3..606af07 100644
--- a/orocos_kdl/src/velocityprofile_dirac.hpp
+++ b/orocos_kdl/src/velocityprofile_dirac.hpp
@@ -49,6 +49,7 @@ namespace KDL {
     {
         double p1,p2,t;
     public:
+        VelocityProfile_Dirac(): p1(0),p2(0),t(0) {}
         void SetProfile(double pos1,double pos2);
         virtual void SetProfileDuration(double pos1,double pos2,double duration);
         virtual double Duration() const;
diff --git a/orocos_kdl/src/velocityprofile_rect.hpp b/orocos_kdl/src/velocityprofile_rect.hpp
index 4f049b9..e70206c 100644
--- a/orocos_kdl/src/velocityprofile_rect.hpp
+++ b/orocos_kdl/src/velocityprofile_rect.hpp
@@ -62,7 +62,7 @@ namespace KDL {
 		double maxvel;
 
 		VelocityProfile_Rectangular(double _maxvel=0):
-		  maxvel(_maxvel) {}
+		  d(0),p(0),v(0),maxvel(_maxvel) {}
 		// constructs motion profile class with <maxvel> as parameter of the
 		// trajectory.
 
diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 334dd9c..77fde2d 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -48,6 +48,11 @@ namespace KDL {
 
 
 VelocityProfile_TrapHalf::VelocityProfile_TrapHalf(double _maxvel,double _maxacc,bool _starting):
+		  a1(0),a2(0),a3(0),
+		  b1(0),b2(0),b3(0),
+		  c1(0),c2(0),c3(0),
+		  duration(0),t1(0),t2(0),
+		  startpos(0),endpos(0),
 		  maxvel(_maxvel),maxacc(_maxacc),starting(_starting) {}
 
 void VelocityProfile_TrapHalf::SetMax(double _maxvel,double _maxacc, bool _starting)
-- 
2.43.0


From 1344239cc379355b563bd4ed6705673f6b400f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:09 +0000
Subject: [PATCH 77/93] fix: VelocityProfile_Trap::SetProfileDuration with zero
 or negative durations

---
 orocos_kdl/src/velocityprofile_trap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index aab4167..a6a7e4e 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -94,9 +94,9 @@ void VelocityProfile_Trap::SetProfileDuration(
 	// Fastest :
 	SetProfile(pos1,pos2);
 	// Must be Slower  :
-	double factor = duration/newduration;
-	if (factor > 1)
+	if (newduration <= duration)
 		return; // do not exceed max
+	double factor = duration/newduration;
 	a2*=factor;
 	a3*=factor*factor;
 	b2*=factor;
-- 
2.43.0


From eaddfa270532a61dc2b0f21149902e7e414612b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 78/93] fix: VelocityProfile_TrapHalf over no distance is NaN

---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 77fde2d..0d3e9d1 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -90,7 +90,9 @@ void VelocityProfile_TrapHalf::SetProfile(double pos1,double pos2) {
 	double s        = sign(endpos-startpos);
 	// check that the maxvel is obtainable
 	double vel = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
-	duration		= s*(endpos-startpos)/vel+vel/maxacc/2.0;
+	duration		= vel/maxacc/2.0;
+	if (vel > 0)
+		duration	+= s*(endpos-startpos)/vel;
 	if (starting) {
 		t1 = 0;
 		t2 = vel/maxacc;
-- 
2.43.0


From a2ec755d1ca4c5057987d994627db6c40e4d76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:16 +0000
Subject: [PATCH 79/93] fix: VelocityProfile_TrapHalf::SetProfileDuration of
 short moves and of no distance

---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 0d3e9d1..801724c 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -108,14 +108,20 @@ void VelocityProfile_TrapHalf::SetProfileDuration(
 	double pos1,double pos2,double newduration)
 {
 	SetProfile(pos1,pos2);
-	double factor = duration/newduration;
 
-	if ( factor > 1 )
+	if ( newduration <= duration )
 		return;
 
 	double s        = sign(endpos-startpos);
-	double tmp      = 2.0*s*(endpos-startpos)/maxvel;
-	double v        = s*maxvel;
+	// the velocity that can be reached without exceeding maxacc
+	double vel      = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
+	if ( vel == 0 ) {
+		// nothing to move
+		duration = newduration;
+		return;
+	}
+	double tmp      = 2.0*s*(endpos-startpos)/vel;
+	double v        = s*vel;
 	duration        = newduration;
 	if (starting) {
 		if (tmp > duration) {
-- 
2.43.0


From 29038d033f8cd7c1996ad103d881793bd2d75eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:44 +0000
Subject: [PATCH 80/93] fix: VelocityProfile_Rectangular::SetProfileDuration
 backwards and with zero duration

---
 orocos_kdl/src/velocityprofile_rect.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_rect.cpp b/orocos_kdl/src/velocityprofile_rect.cpp
index 7992c1e..9e5282e 100644
--- a/orocos_kdl/src/velocityprofile_rect.cpp
+++ b/orocos_kdl/src/velocityprofile_rect.cpp
@@ -81,8 +81,9 @@ void VelocityProfile_Rectangular::
     if ( diff != 0 )
         {
             v    = diff/duration;
-            if (v > maxvel || duration==0 ) // safety.
-                v=maxvel;
+            // safety, in both directions :
+            if (duration<=0 || v > maxvel || v < -maxvel)
+                v    = (diff>0)?maxvel:-maxvel;
             p    = pos1;               // start pos
             d    = diff/v;
         }
@@ -90,7 +91,7 @@ void VelocityProfile_Rectangular::
         {
             v    = 0;
             p    = pos1;
-            d    = duration;
+            d    = (duration>0)?duration:0;
         }
 }
 
-- 
2.43.0


From c11dfecaa6844d3a80a8b606c670a28a5179c677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 81/93] fix: Path_RoundedComposite constructor leaks when it
 throws

---
 orocos_kdl/src/path_roundedcomposite.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index d89b346..9689bee 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -64,6 +64,10 @@ Path_RoundedComposite::Path_RoundedComposite(double _radius,double _eqradius,Rot
 {
 		nrofpoints = 0;
 		if (eqradius<=0) {
+			// the destructor is not called
+			delete comp;
+			if (aggregate)
+				delete orient;
 			throw Error_MotionPlanning_Not_Feasible(1);
 		}
 }
-- 
2.43.0


From 51dabeb6597f8afec1e21a2694eaaf22d311cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:34 +0000
Subject: [PATCH 82/93] fix: Trajectory_Composite::Destroy keeps the duration
 of the destroyed parts

---
 orocos_kdl/src/trajectory_composite.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index 1583608..c3758ab 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -98,6 +98,7 @@ namespace KDL {
         }
         vt.erase(vt.begin(),vt.end());
         vd.erase(vd.begin(),vd.end());
+        duration = 0;
     }
 
     Trajectory_Composite::~Trajectory_Composite() {
-- 
2.43.0


From 7c96b7493b76c7efb6c5e2f5e78699b5f7e39e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:47 +0000
Subject: [PATCH 83/93] fix: update the inner solvers and matrices of
 ChainFdSolver_RNE with the chain

---
 .../src/chainfdsolver_recursive_newton_euler.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 41947b3..daa4551 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -46,6 +46,16 @@ namespace KDL{
     void ChainFdSolver_RNE::updateInternalDataStructures() {
         nj = chain.getNrOfJoints();
         ns = chain.getNrOfSegments();
+        DynSolver.updateInternalDataStructures();
+        IdSolver.updateInternalDataStructures();
+        H.resize(nj);
+        Tzeroacc.resize(nj);
+        H_eig.conservativeResize(nj,nj);
+        Tzeroacc_eig.conservativeResize(nj);
+        L_eig.conservativeResize(nj,nj);
+        D_eig.conservativeResize(nj);
+        r_eig.conservativeResize(nj);
+        acc_eig.conservativeResize(nj);
     }
 
     int ChainFdSolver_RNE::CartToJnt(const JntArray &q, const JntArray &q_dot, const JntArray &torques, const Wrenches& f_ext, JntArray &q_dotdot)
-- 
2.43.0


From bdfb6398d9b7f7755f72d8fa82fe7776bc1f5ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 84/93] fix: ChainExternalWrenchEstimator::setInitialMomentum
 reports an outdated solver

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 4d647bc..1beea78 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -73,6 +73,9 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
 // Calculates robot's initial momentum in the joint space. If this method is not called by the user, zero values will be taken for the initial momentum.
 int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_position, const JntArray &joint_velocity)
 {
+    if (nj != CHAIN.getNrOfJoints() || ns != CHAIN.getNrOfSegments())
+        return (error = E_NOT_UP_TO_DATE);
+
     // Check sizes first
     if (joint_position.rows() != nj || joint_velocity.rows() != nj)
         return (error = E_SIZE_MISMATCH);
-- 
2.43.0


From abe72ea8d8fc716fce82bbdb7c6f9f600b4597e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:13 +0000
Subject: [PATCH 85/93] fix: keep the estimator's previous inertia over
 updateInternalDataStructures

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 1beea78..e16f27a 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -47,7 +47,7 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
     nj = CHAIN.getNrOfJoints();
     ns = CHAIN.getNrOfSegments();
     jnt_mass_matrix.resize(nj);
-    previous_jnt_mass_matrix.resize(nj);
+    previous_jnt_mass_matrix.data.conservativeResizeLike(Eigen::MatrixXd::Zero(nj, nj)); // keeps the running estimation's state, as below
     jnt_mass_matrix_dot.resize(nj);
     initial_jnt_momentum.resize(nj);
     estimated_momentum_integral.resize(nj);
-- 
2.43.0


From fb5d2f0f6ac055718f017f8f0dfd07ccacc108b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:48 +0000
Subject: [PATCH 86/93] fix: PyKDL solvers keep the chain and inner solvers
 they refer to alive

---
 python_orocos_kdl/PyKDL/dynamics.cpp |  2 +-
 python_orocos_kdl/PyKDL/kinfam.cpp   | 31 ++++++++++++++++------------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/dynamics.cpp b/python_orocos_kdl/PyKDL/dynamics.cpp
index 46d0f50..6e81a3b 100644
--- a/python_orocos_kdl/PyKDL/dynamics.cpp
+++ b/python_orocos_kdl/PyKDL/dynamics.cpp
@@ -86,7 +86,7 @@ void init_dynamics(pybind11::module &m)
     // ChainDynParam
     // --------------------
     py::class_<ChainDynParam> chain_dyn_param(m, "ChainDynParam");
-    chain_dyn_param.def(py::init<const Chain&, Vector>());
+    chain_dyn_param.def(py::init<const Chain&, Vector>(), py::keep_alive<1, 2>());
     chain_dyn_param.def("JntToCoriolis", &ChainDynParam::JntToCoriolis, py::arg("q"), py::arg("q_dot"), py::arg("coriolis"));
     chain_dyn_param.def("JntToMass", &ChainDynParam::JntToMass, py::arg("q"), py::arg("H"));
     chain_dyn_param.def("JntToGravity", &ChainDynParam::JntToGravity, py::arg("q"), py::arg("gravity"));
diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index fec7eda..f92d51c 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -355,14 +355,14 @@ void init_kinfam(pybind11::module &m)
     // ChainFkSolverPos_recursive
     // ------------------------------
     py::class_<ChainFkSolverPos_recursive, ChainFkSolverPos> chain_fk_solver_pos_recursive(m, "ChainFkSolverPos_recursive");
-    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainFkSolverVel_recursive
     // ------------------------------
     py::class_<ChainFkSolverVel_recursive, ChainFkSolverVel> chain_fk_solver_vel_recursive(m, "ChainFkSolverVel_recursive");
-    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // --------------------
@@ -390,7 +390,8 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_NR, ChainIkSolverPos> chain_ik_solver_pos_NR(m, "ChainIkSolverPos_NR");
     chain_ik_solver_pos_NR.def(py::init<const Chain&, ChainFkSolverPos&, ChainIkSolverVel&, unsigned int, double>(),
                                py::arg("chain"), py::arg("fksolver"), py::arg("iksolver"),
-                               py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                               py::arg("maxiter")=100, py::arg("eps")=epsilon,
+                               py::keep_alive<1, 2>(), py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
 
     // ---------------------------
@@ -400,7 +401,8 @@ void init_kinfam(pybind11::module &m)
     chain_ik_solver_pos_NR_JL.def(py::init<const Chain&, const JntArray&, const JntArray&, ChainFkSolverPos&,
                                   ChainIkSolverVel&, unsigned int, double>(),
                                   py::arg("chain"), py::arg("q_min"), py::arg("q_max"), py::arg("fksolver"),
-                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon,
+                                  py::keep_alive<1, 2>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>());
 
 
     // -------------------------
@@ -408,7 +410,8 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_pinv, ChainIkSolverVel> chain_ik_solver_vel_pinv(m, "ChainIkSolverVel_pinv");
     chain_ik_solver_vel_pinv.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150,
+                                 py::keep_alive<1, 2>());
 
 
     // -------------------------
@@ -416,7 +419,8 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_wdls, ChainIkSolverVel> chain_ik_solver_vel_wdls(m, "ChainIkSolverVel_wdls");
     chain_ik_solver_vel_wdls.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150,
+                                 py::keep_alive<1, 2>());
     chain_ik_solver_vel_wdls.def("setWeightTS", &ChainIkSolverVel_wdls::setWeightTS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setWeightJS", &ChainIkSolverVel_wdls::setWeightJS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setLambda", &ChainIkSolverVel_wdls::setLambda, py::arg("lambda"));
@@ -437,10 +441,10 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_LMA, ChainIkSolverPos> chain_ik_solver_pos_LMA(m, "ChainIkSolverPos_LMA");
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, const Eigen::Matrix<double,6,1>&, double, int, double>(),
                                 py::arg("chain"), py::arg("L"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15, py::keep_alive<1, 2>());
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, double, int, double>(),
                                 py::arg("chain"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15, py::keep_alive<1, 2>());
 
 
     // ----------------------------
@@ -448,7 +452,8 @@ void init_kinfam(pybind11::module &m)
     // ----------------------------
     py::class_<ChainIkSolverVel_pinv_nso, ChainIkSolverVel> chain_ik_solver_vel_pinv_nso(m, "ChainIkSolverVel_pinv_nso");
     chain_ik_solver_vel_pinv_nso.def(py::init<const Chain&, double, int, double>(),
-                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25);
+                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25,
+                                     py::keep_alive<1, 2>());
     chain_ik_solver_vel_pinv_nso.def("setWeights", &ChainIkSolverVel_pinv_nso::setWeights, py::arg("weights"));
     chain_ik_solver_vel_pinv_nso.def("setOptPos", &ChainIkSolverVel_pinv_nso::setOptPos, py::arg("opt_pos"));
     chain_ik_solver_vel_pinv_nso.def("setAlpha", &ChainIkSolverVel_pinv_nso::setAlpha, py::arg("alpha"));
@@ -461,14 +466,14 @@ void init_kinfam(pybind11::module &m)
     // ChainIkSolverVel_pinv_givens
     // -------------------------------
     py::class_<ChainIkSolverVel_pinv_givens, ChainIkSolverVel> chain_ik_solver_vel_pinv_givens(m, "ChainIkSolverVel_pinv_givens");
-    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainJntToJacSolver
     // ------------------------------
     py::class_<ChainJntToJacSolver, SolverI> chain_jnt_to_jac_solver(m, "ChainJntToJacSolver");
-    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
     chain_jnt_to_jac_solver.def("JntToJac", &ChainJntToJacSolver::JntToJac,
                                 py::arg("q_in"), py::arg("jac"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_solver.def("setLockedJoints", &ChainJntToJacSolver::setLockedJoints, py::arg("locked_joints"));
@@ -478,7 +483,7 @@ void init_kinfam(pybind11::module &m)
     // ChainJntToJacDotSolver
     // ------------------------------
     py::class_<ChainJntToJacDotSolver, SolverI> chain_jnt_to_jac_dot_solver(m, "ChainJntToJacDotSolver");
-    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Jacobian&, int)) &ChainJntToJacDotSolver::JntToJacDot,
                                     py::arg("q_in"), py::arg("jdot"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Twist&, int)) &ChainJntToJacDotSolver::JntToJacDot,
@@ -512,5 +517,5 @@ void init_kinfam(pybind11::module &m)
     // ChainIdSolver_RNE
     // ------------------------------
     py::class_<ChainIdSolver_RNE, ChainIdSolver> chain_id_solver_RNE(m, "ChainIdSolver_RNE");
-    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"));
+    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"), py::keep_alive<1, 2>());
 }
-- 
2.43.0


From 61b4697fafd23ba174c23b507528c985e0113971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:10 +0000
Subject: [PATCH 87/93] fix: pickling a Rotation keeps its matrix

---
 python_orocos_kdl/PyKDL/frames.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/frames.cpp b/python_orocos_kdl/PyKDL/frames.cpp
index 9cbee1b..ad23e74 100644
--- a/python_orocos_kdl/PyKDL/frames.cpp
+++ b/python_orocos_kdl/PyKDL/frames.cpp
@@ -377,17 +377,25 @@ void init_frames(py::module &m)
             [](const Rotation &rot)
             { // __getstate__
                 /* Return a tuple that fully encodes the state of the object */
-                double roll{0}, pitch{0}, yaw{0};
-                rot.GetRPY(roll, pitch, yaw);
-                return py::make_tuple(roll, pitch, yaw);
+                py::tuple t(9);
+                for (int i = 0; i < 9; i++)
+                    t[i] = rot.data[i];
+                return t;
             },
             [](py::tuple t)
             { // __setstate__
-                if (t.size() != 3)
+                /* State as pickled by earlier versions: roll, pitch, yaw */
+                if (t.size() == 3)
+                    return Rotation::RPY(t[0].cast<double>(), t[1].cast<double>(), t[2].cast<double>());
+
+                if (t.size() != 9)
                     throw std::runtime_error("Invalid state!");
 
                 /* Create a new C++ instance */
-                return Rotation::RPY(t[0].cast<double>(), t[1].cast<double>(), t[2].cast<double>());
+                Rotation rot;
+                for (int i = 0; i < 9; i++)
+                    rot.data[i] = t[i].cast<double>();
+                return rot;
             }));
 
     m.def("Equal", (bool (*)(const Rotation&, const Rotation&, double eps)) &KDL::Equal,
-- 
2.43.0


From cd249df644563c570aeebf9040f408e32f3811af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:45 +0000
Subject: [PATCH 88/93] fix: PyKDL getSegment, getColumn and setColumn check
 their index

---
 python_orocos_kdl/PyKDL/kinfam.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index f92d51c..11e10b7 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -173,8 +173,13 @@ void init_kinfam(pybind11::module &m)
     chain.def("addChain", &Chain::addChain, py::arg("chain"));
     chain.def("getNrOfJoints", &Chain::getNrOfJoints);
     chain.def("getNrOfSegments", &Chain::getNrOfSegments);
-    chain.def("getSegment", (Segment& (Chain::*)(unsigned int)) &Chain::getSegment, py::arg("index"));
-    chain.def("getSegment", (const Segment& (Chain::*)(unsigned int) const) &Chain::getSegment, py::arg("index"));
+    chain.def("getSegment", [](const Chain &c, unsigned int index)
+    {
+        if (index >= c.getNrOfSegments())
+            throw py::index_error("Chain segment index out of range");
+
+        return c.getSegment(index);
+    }, py::arg("index"));
     chain.def("__repr__", [](const Chain &c)
     {
         std::ostringstream oss;
@@ -217,8 +222,20 @@ void init_kinfam(pybind11::module &m)
     jacobian.def("rows", &Jacobian::rows);
     jacobian.def("columns", &Jacobian::columns);
     jacobian.def("resize", &Jacobian::resize, py::arg("nr_columns"));
-    jacobian.def("getColumn", &Jacobian::getColumn, py::arg("index"));
-    jacobian.def("setColumn", &Jacobian::setColumn, py::arg("index"), py::arg("t"));
+    jacobian.def("getColumn", [](const Jacobian &jac, unsigned int index)
+    {
+        if (index >= jac.columns())
+            throw py::index_error("Jacobian column index out of range");
+
+        return jac.getColumn(index);
+    }, py::arg("index"));
+    jacobian.def("setColumn", [](Jacobian &jac, unsigned int index, const Twist &t)
+    {
+        if (index >= jac.columns())
+            throw py::index_error("Jacobian column index out of range");
+
+        jac.setColumn(index, t);
+    }, py::arg("index"), py::arg("t"));
     jacobian.def("changeRefPoint", &Jacobian::changeRefPoint, py::arg("base"));
     jacobian.def("changeBase", &Jacobian::changeBase, py::arg("rot"));
     jacobian.def("changeRefFrame", &Jacobian::changeRefFrame, py::arg("frame"));
-- 
2.43.0


From 4b46799512d3107519145ca2032fb945a54a65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:56 +0000
Subject: [PATCH 89/93] fix: svd_HH, svd_eigen_HH: splitting test that rounding
 cannot keep failing

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 8 +++++---
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index c6efb66..daf6ec3 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -23,6 +23,7 @@
 //Based on the svd of the KDL-0.2 library by Erwin Aertbelien
 
 #include "svd_HH.hpp"
+#include <limits>
 
 namespace KDL
 {
@@ -169,16 +170,17 @@ namespace KDL
         }
 
         /* Diagonalization of the bidiagonal form. */
+        const double eps=std::numeric_limits<double>::epsilon();
         for (k=cols-1;k>=0;k--) { /* Loop over singular values. */
             for (its=1;its<=maxiter;its++) {  /* Loop over allowed iterations. */
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || fabs(tmp(ppi)) <= eps*anorm) {
                         flag=false;
                         break;
                     }
-                    if ((fabs(w(nm))+anorm) == anorm) break;
+                    if (fabs(w(nm)) <= eps*anorm) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
@@ -186,7 +188,7 @@ namespace KDL
                     for (i=ppi;i<=k;i++) {
                         f=s*tmp(i);
                         tmp(i)=c*tmp(i);
-                        if ((fabs(f)+anorm) == anorm) break;
+                        if (fabs(f) <= eps*anorm) break;
                         g=w(i);
                         h=PYTHAG(f,g);
                         w(i)=h;
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index d39022a..2c7fe56 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -20,6 +20,7 @@
 // Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include "svd_eigen_HH.hpp"
+#include <limits>
 
 namespace KDL{
     
@@ -136,16 +137,17 @@ namespace KDL{
         }
         
         /* Diagonalization of the bidiagonal form. */
+        const double eps=std::numeric_limits<double>::epsilon();
         for (k=cols-1;k>=0;k--) { /* Loop over singular values. */
             for (its=1;its<=maxiter;its++) {  /* Loop over allowed iterations. */
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || fabs(tmp(ppi)) <= eps*anorm) {
                         flag=false;
                         break;
                     }
-                    if ((fabs(S(nm))+anorm) == anorm) break;
+                    if (fabs(S(nm)) <= eps*anorm) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
@@ -153,7 +155,7 @@ namespace KDL{
                     for (i=ppi;i<=k;i++) {
                         f=s*tmp(i);
                         tmp(i)=c*tmp(i);
-                        if ((fabs(f)+anorm) == anorm) break;
+                        if (fabs(f) <= eps*anorm) break;
                         g=S(i);
                         h=PYTHAG(f,g);
                         S(i)=h;
-- 
2.43.0


From 2e8f3a77d9636d32a2196c3ecfcb4b2ebdab82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:04 +0000
Subject: [PATCH 90/93] fix: posrandom(Frame) draws positive positions

---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index d2d15e9..e680a02 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -1265,8 +1265,8 @@ IMETHOD void posrandom(Rotation& R) {
 }
 
 IMETHOD void posrandom(Frame& F) {
-	random(F.M);
-	random(F.p);
+	posrandom(F.M);
+	posrandom(F.p);
 }
 
 
-- 
2.43.0


From 121d8ec16361ec45918167108c5263cef68a7544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:09 +0000
Subject: [PATCH 91/93] fix: Error_IO keeps the type number it is given

---
 orocos_kdl/src/utilities/error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/utilities/error.h b/orocos_kdl/src/utilities/error.h
index 785fa51..3363868 100644
--- a/orocos_kdl/src/utilities/error.h
+++ b/orocos_kdl/src/utilities/error.h
@@ -70,7 +70,7 @@ class Error_IO : public Error {
 	std::string msg;
 	int typenr;
 public:
-	Error_IO(const std::string& _msg="Unspecified I/O Error",int typenr=0):msg(_msg) {}
+	Error_IO(const std::string& _msg="Unspecified I/O Error",int _typenr=0):msg(_msg),typenr(_typenr) {}
     virtual const char* Description() const {return msg.c_str();}
     virtual int GetType() const {return typenr;}
 };
-- 
2.43.0


From a9dd78102886c466f282afb03004716476aa37df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:58 +0000
Subject: [PATCH 92/93] fix: ChainIkSolverVel_wdls reports the FrameVel call as
 not implemented

---
 orocos_kdl/src/chainiksolvervel_wdls.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.hpp b/orocos_kdl/src/chainiksolvervel_wdls.hpp
index dbba19b..006f004 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.hpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.hpp
@@ -102,7 +102,7 @@ namespace KDL
          * not (yet) implemented.
          *
          */
-        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return -1;};
+        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return (error = E_NOT_IMPLEMENTED);};
 
         /**
          * Set the joint space weighting matrix
-- 
2.43.0


From 5ea52b4fd3c3c8f929e3fa46a075b06b47193b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:48 +0000
Subject: [PATCH 93/93] fix: rallNd.h compiles

---
 orocos_kdl/src/utilities/rallNd.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/rallNd.h b/orocos_kdl/src/utilities/rallNd.h
index 63596eb..6a0e057 100644
--- a/orocos_kdl/src/utilities/rallNd.h
+++ b/orocos_kdl/src/utilities/rallNd.h
@@ -5,6 +5,8 @@
 #include "rall1d_io.h"
 #include "rall2d.h"
 #include "rall2d_io.h"
+
+namespace KDL {
 /**
  * The Rall1d class allows for a 24-line implementation of rall numbers
  * generalized to the Nth derivative !
@@ -75,12 +77,12 @@ public:
 template <>
 class RallNd<2> : public Rall2d<double>  {
 public:
-	RallNd() {}* (dwz. met evenveel numerieke operaties als een 
+	RallNd() {}
 	RallNd(const Rall2d<double>& arg) :
 		Rall2d<double>(arg) {}
 	RallNd(double value,double d[]) {
 		t    = value;
-		d = d[0];
+		this->d = d[0];
 		dd= d[1];
 	}
 };
@@ -97,5 +99,7 @@ public:
 	}
 };
 
+} // namespace KDL
+
 #endif
 
-- 
2.43.0

