From 0e4af7b3176be40128ea0275c899ff598b4ec7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 01/28] fix: use the sampling period, not the first interval,
 in the inverse of the acceleration/order-2 velocity dynamics

---
 src/tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 42e96dd..39e8bc9 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -176,7 +176,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeAccDynamic(Scalar S, Scalar T,
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
@@ -215,7 +215,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeOrder2VelDynamic(Scalar S, Scala
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
-- 
2.43.0


From cc4afa9cacfb5fa7065f929d30eda65572fc3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 02/28] fix: initialise the tilt contact point in the default
 constructor of BaseModel

---
 src/model/zebulon_base_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 39155f1..88b6b93 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -58,6 +58,8 @@ BaseModel<Scalar>::BaseModel()
   ,velocityLimit_(1.0)
   ,accelerationLimit_(1.0)
   ,jerkLimit_(1.0)
+  ,tiltContactPointX_(0.0)
+  ,tiltContactPointY_(0.0)
   ,copSupportConvexPolygon_()
   ,comSupportConvexPolygon_()
 {
-- 
2.43.0


From afcfed00ed012ee73826bc342c5463f9e2d80370 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 03/28] fix: build the convex hull of coincident and aligned
 points

Duplicated points indexed past the end of the set or were taken for corners,
the angle of (nearly) parallel vectors was NaN, and points behind the last
edge could get the angle -pi and be selected, which looped or gave a wrong
polygon.
---
 src/convexpolygon.cpp | 82 ++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 43 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index f561d3b..f57095f 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -8,6 +8,7 @@
 #include <mpc-walkgen/convexpolygon.h>
 #include <mpc-walkgen/constant.h>
 #include <boost/math/constants/constants.hpp>
+#include <algorithm>
 #include "macro.h"
 
 namespace MPCWalkgen
@@ -60,9 +61,7 @@ namespace MPCWalkgen
 
     // Adding the first vertex
     int index = getIndexOfLowestAndLeftmostVertice(points);
-
-    // Adding the first point
-    p.push_back(points[index]);
+    std::vector<int> indexes(1, index);
 
     // Finding the index of the second vertex
     index = getIndexOfSmallestAngleVertice(index,
@@ -70,14 +69,19 @@ namespace MPCWalkgen
                                                    points[index](1)),
                                            points);
 
-    // Adding the other vertices until we reach the first index, which
-    // means the convex polygon has been completed
-    while(index != getIndexOfLowestAndLeftmostVertice(points))
+    // Adding the other vertices until we reach one of them again, which
+    // means the convex polygon has been completed. This is the first one,
+    // unless it has been discarded as a copy of, or aligned with, the others.
+    while(std::find(indexes.begin(), indexes.end(), index) == indexes.end())
     {
-      assert(p.size() <= points.size());
+      indexes.push_back(index);
+      index = getIndexOfSmallestAngleVertice(index, points[*(indexes.end()-2)], points);
+    }
 
-      p.push_back(points[index]);
-      index = getIndexOfSmallestAngleVertice(index, *(p.end()-2), points);
+    for (std::vector<int>::const_iterator it = std::find(indexes.begin(), indexes.end(), index);
+         it != indexes.end(); ++it)
+    {
+      p.push_back(points[*it]);
     }
 
     return p;
@@ -99,16 +103,7 @@ namespace MPCWalkgen
     }
     else
     {
-      Scalar angle = vec1.dot(vec2)/(vec1.norm()*vec2.norm());
-
-      if(vec1(0)*vec2(1) - vec1(1)*vec2(0) >= static_cast<Scalar>(0.0))
-      {
-        return std::acos(angle);
-      }
-      else
-      {
-        return -std::acos(angle);
-      }
+      return std::atan2(vec1(0)*vec2(1) - vec1(1)*vec2(0), vec1.dot(vec2));
     }
   }
 
@@ -129,7 +124,7 @@ namespace MPCWalkgen
                                     lowestVerticesIndexes.end());
         lowestVerticesIndexes.push_back(i);
       }
-      else if(std::abs(p[i](1)-p[lowestVerticesIndexes[0]](1)) < Constant<Scalar>::EPSILON)
+      else if(p[i](1) == p[lowestVerticesIndexes[0]](1))
       {
         lowestVerticesIndexes.push_back(i);
       }
@@ -166,44 +161,45 @@ namespace MPCWalkgen
   {
     //Creating vector of indexes of the candidate for the next vertex
     std::vector<int> indexesTab;
-    indexesTab.reserve(ptot.size() - 1);
-
-    // We push back index 0 arbitrarily, unless currIndex=0
-    if(currIndex!=0)
-    {
-      indexesTab.push_back(0);
-    }
-    else
-    {
-      indexesTab.push_back(1);
-    }
+    indexesTab.reserve(ptot.size());
+    Scalar smallestAngle = 0;
 
-    for (size_t i=1; i<ptot.size(); ++i)
+    for (size_t i=0; i<ptot.size(); ++i)
     {
       // We do not check the current vertex. This if statement also avoids copies
       // of the current vertex among ptot vector, i.e. we do not count the current
       // vertex more than once
-      if(!ptot[i].isApprox(ptot[currIndex], Constant<Scalar>::EPSILON))
+      if((ptot[i] - ptot[currIndex]).norm() >= Constant<Scalar>::EPSILON)
       {
-        if(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                            ptot[i] - ptot[currIndex]) <
-           angleBetweenVecs(ptot[currIndex] -
-                            lastVertice, ptot[indexesTab[0]] - ptot[currIndex]))
+        Scalar angle = angleBetweenVecs(ptot[currIndex] - lastVertice,
+                                        ptot[i] - ptot[currIndex]);
+
+        // All the points are on the left of the last edge. An angle of -pi is then
+        // that of a point of the last edge, i.e. pi
+        if(angle < -Constant<Scalar>::EPSILON)
         {
-          indexesTab.erase(indexesTab.begin(), indexesTab.end());
+          angle += 2*boost::math::constants::pi<Scalar>();
+        }
+
+        if(indexesTab.empty() || angle < smallestAngle - Constant<Scalar>::EPSILON)
+        {
+          indexesTab.clear();
           indexesTab.push_back(i);
+          smallestAngle = angle;
         }
-        else if(std::abs(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[i] - ptot[currIndex]) -
-                         angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[indexesTab[0]] - ptot[currIndex]))
-               < Constant<Scalar>::EPSILON)
+        else if(std::abs(angle - smallestAngle) < Constant<Scalar>::EPSILON)
         {
           indexesTab.push_back(i);
         }
       }
     }
 
+    // All the points are copies of the current vertex
+    if(indexesTab.empty())
+    {
+      return currIndex;
+    }
+
     //Choosing the index of the furthest point from the current point
     //among indexesTab
     if (indexesTab.size()>1)
-- 
2.43.0


From 86c8efe518852fc59a86a6823a4a656cb82dc7e5 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 04/28] fix: guess the first previewed step from the support
 foot

Outside of double support, when no step was previewed before, the guess
was made from unrelated elements of the QP variable.
---
 src/humanoid_feet_supervisor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 53324bf..03c72ee 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -756,13 +756,14 @@ namespace MPCWalkgen
     }
 
     // Adding x and y coordinates of the new footstep position
-    if(isInDS() && (nbPreviewedSteps_==1))
+    if(newNbOfSteps==1)
     {
+      // There is no previous previewed footstep: the new one follows the support foot
       variable(2*nbSamples_ + newNbOfSteps - 1) =
-          getLeftFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
+          getSupportFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
 
       variable(newSize - 1) =
-          getLeftFootStateY()(0) + (lowestPointY + highestPointY)/2;
+          getSupportFootStateY()(0) + (lowestPointY + highestPointY)/2;
     }
     else
     {
-- 
2.43.0


From d0f159f329a522bc4e875e41a94be664daba753f Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 05/28] fix: keep the size of the QP variable equal to the
 number of previewed steps

Stopping before the first step, or lengthening a phase, left the rows of
steps that are not previewed any more.
---
 src/humanoid_feet_supervisor.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 03c72ee..c1f89f5 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -526,18 +526,21 @@ namespace MPCWalkgen
       {
         enlargeStepVec(variable);
       }
-      // When the user set move_ to false this checks if the QP variable size must be reduce.
-      if(!move_ && (variable.rows() > 2*nbSamples_ + 2))
-      {
-        variable(2*nbSamples_ + 1) = variable(variable.rows()/2 + nbSamples_);
-        variable.conservativeResize(2*nbSamples_ + 2);
-      }
 
       // Decrementing timers
       phaseTimer_ -= samplingPeriod_;
       horizonTimer_ -= samplingPeriod_;
     }
 
+    // When there are fewer previewed steps than before (the user set move_ to false or
+    // lengthened a phase), only the first ones are kept in the QP variable.
+    if(variable.rows() > 2*nbSamples_ + 2*nbPreviewedSteps_)
+    {
+      const VectorX stepsY = variable.segment(variable.rows()/2 + nbSamples_, nbPreviewedSteps_);
+      variable.conservativeResize(2*nbSamples_ + 2*nbPreviewedSteps_);
+      variable.tail(nbPreviewedSteps_) = stepsY;
+    }
+
     //Removing useless phases
     timeline_.set_capacity(phaseIndex + 1);
 
-- 
2.43.0


From 7ad7b9f1b0f7519f66af33b02799038804104270 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 06/28] fix: give a phase the duration configured when it
 begins

A step or double support duration set after the last update of the
preceding phase was ignored for the whole next phase.
---
 src/humanoid_feet_supervisor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index c1f89f5..3cf3ac1 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -488,6 +488,10 @@ namespace MPCWalkgen
       timeline_.pop_front();
       timeline_.set_capacity(timeline_.capacity() - 1);
 
+      // The step or double support duration may have been set since the phase was previewed
+      setPhase(timeline_.front().phaseType_);
+      timeline_.front().duration_ = phase_.duration_;
+
       timeToNextPhase_ = timeline_.front().duration_;
     }
 
-- 
2.43.0


From df67f969b48d7353dc89f80048444ec23ba8cd2f Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 07/28] fix: land the swing foot when its highest point falls
 inside a feedback period

The upward interpolation was evaluated beyond its end, and the foot ended
its step above the ground.
---
 src/humanoid_feet_supervisor.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 3cf3ac1..d224e1b 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -602,9 +602,20 @@ namespace MPCWalkgen
       }
       else
       {
+        // The foot may reach its maximum height before the end of the feedback period, and
+        // then starts going down
+        const Scalar timeToMaxHeight = timeToNextPhase_ - flyingTime*0.5f;
+
         flyingFoot->updateStateZ(Vector3(flyingFoot->getMaxHeight(), 0, 0),
-                                 timeToNextPhase_ - flyingTime*0.5f,
-                                 feedBackPeriod);
+                                 timeToMaxHeight,
+                                 std::min(feedBackPeriod, timeToMaxHeight));
+
+        if(feedBackPeriod > timeToMaxHeight + Constant<Scalar>::EPSILON)
+        {
+          flyingFoot->updateStateZ(Vector3::Zero(),
+                                   flyingTime*0.5f,
+                                   feedBackPeriod - timeToMaxHeight);
+        }
       }
     }
 
-- 
2.43.0


From fb749e2495e282bb860f643dd69875577b977207 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 08/28] fix: bound a previewed step relatively to the step
 before it, not to its old place

The axis-parallel edges of the reach polygon were applied around the value
the previous step had before the optimisation.
---
 src/function/humanoid_foot_constraint.cpp | 86 +++++++++++++++++------
 1 file changed, 63 insertions(+), 23 deletions(-)

diff --git a/src/function/humanoid_foot_constraint.cpp b/src/function/humanoid_foot_constraint.cpp
index 34fa1a1..f835045 100644
--- a/src/function/humanoid_foot_constraint.cpp
+++ b/src/function/humanoid_foot_constraint.cpp
@@ -13,6 +13,37 @@
 
 namespace MPCWalkgen
 {
+  namespace
+  {
+    // The bounds of a convex polygon, as rows (a, b, c) of general constraints ax + by + c <= 0
+    template <typename Scalar>
+    typename Type<Scalar>::MatrixX getBoundsAsGeneralConstraints(const ConvexPolygon<Scalar>& cp)
+    {
+      typename Type<Scalar>::MatrixX rows(4, 3);
+      int nbRows = 0;
+
+      if(cp.getXSupBound() < Constant<Scalar>::MAXIMUM_BOUND_VALUE)
+      {
+        rows.row(nbRows++) << 1, 0, -cp.getXSupBound();
+      }
+      if(cp.getXInfBound() > -Constant<Scalar>::MAXIMUM_BOUND_VALUE)
+      {
+        rows.row(nbRows++) << -1, 0, cp.getXInfBound();
+      }
+      if(cp.getYSupBound() < Constant<Scalar>::MAXIMUM_BOUND_VALUE)
+      {
+        rows.row(nbRows++) << 0, 1, -cp.getYSupBound();
+      }
+      if(cp.getYInfBound() > -Constant<Scalar>::MAXIMUM_BOUND_VALUE)
+      {
+        rows.row(nbRows++) << 0, -1, cp.getYInfBound();
+      }
+
+      rows.conservativeResize(nbRows, 3);
+      return rows;
+    }
+  }
+
   template <typename Scalar>
   HumanoidFootConstraint<Scalar>::HumanoidFootConstraint(const LIPModel<Scalar>& lipModel,
                                                const HumanoidFeetSupervisor<Scalar>& feetSupervisor)
@@ -109,6 +140,13 @@ namespace MPCWalkgen
     {
       nbGeneralConstraints_+=
           feetSupervisor_.getKinematicConvexPolygon(i).getNbGeneralConstraints();
+
+      // A bound relative to a previewed step, which is a variable too, is a general constraint
+      if(i>0)
+      {
+        nbGeneralConstraints_+=
+            getBoundsAsGeneralConstraints(feetSupervisor_.getKinematicConvexPolygon(i)).rows();
+      }
     }
   }
 
@@ -170,6 +208,22 @@ namespace MPCWalkgen
       }
 
       nbGeneralConstraintsSinceFirstStep += nbGeneralConstraintsAtCurrentStep;
+
+      if(i>0)
+      {
+        const MatrixX bounds = getBoundsAsGeneralConstraints(cp);
+
+        for(int j = 0; j<bounds.rows(); ++j)
+        {
+          A_(nbGeneralConstraintsSinceFirstStep + j, 2*N + i) = bounds(j, 0);
+          A_(nbGeneralConstraintsSinceFirstStep + j, 2*N + M + i) = bounds(j, 1);
+          A_(nbGeneralConstraintsSinceFirstStep + j, 2*N + i - 1) = -bounds(j, 0);
+          A_(nbGeneralConstraintsSinceFirstStep + j, 2*N + M + i - 1) = -bounds(j, 1);
+          b_(nbGeneralConstraintsSinceFirstStep + j) = bounds(j, 2);
+        }
+
+        nbGeneralConstraintsSinceFirstStep += bounds.rows();
+      }
     }
   }
 
@@ -183,31 +237,17 @@ namespace MPCWalkgen
     supBound_.setConstant(2*M, Constant<Scalar>::MAXIMUM_BOUND_VALUE);
     infBound_.setConstant(2*M, -Constant<Scalar>::MAXIMUM_BOUND_VALUE);
 
-    for(int i = 0; i<M; ++i)
+    // The first previewed step is bounded relatively to the current support foot. The other ones
+    // depend on the step before, and have general constraints only.
+    if(M>0)
     {
-      const ConvexPolygon<Scalar>& cp = feetSupervisor_.getKinematicConvexPolygon(i);
-
-      supBound_(i) = cp.getXSupBound();
-      supBound_(i + M) = cp.getYSupBound();
-      infBound_(i) = cp.getXInfBound();
-      infBound_(i + M) = cp.getYInfBound();
+      const ConvexPolygon<Scalar>& cp = feetSupervisor_.getKinematicConvexPolygon(0);
 
-      // This if-else statement adds the required terms to vectors supBound_ and infBound_
-      // so that constraints are expressed in world frame
-      if(i==0)
-      {
-        supBound_(i) += feetSupervisor_.getSupportFootStateX()(0);
-        supBound_(i + M) += feetSupervisor_.getSupportFootStateY()(0);
-        infBound_(i) += feetSupervisor_.getSupportFootStateX()(0);
-        infBound_(i + M) += feetSupervisor_.getSupportFootStateY()(0);
-      }
-      else
-      {
-        supBound_(i) += x0(i - 1);
-        supBound_(i + M) += x0(M + i - 1);
-        infBound_(i) += x0(i - 1);
-        infBound_(i + M) += x0(M + i - 1);
-      }
+      // Bounds are expressed in world frame
+      supBound_(0) = cp.getXSupBound() + feetSupervisor_.getSupportFootStateX()(0);
+      supBound_(M) = cp.getYSupBound() + feetSupervisor_.getSupportFootStateY()(0);
+      infBound_(0) = cp.getXInfBound() + feetSupervisor_.getSupportFootStateX()(0);
+      infBound_(M) = cp.getYInfBound() + feetSupervisor_.getSupportFootStateY()(0);
     }
 
     // As we optimize a variation dX_ of the QP variable X_ (such that X_ = x0 + dX_),
-- 
2.43.0


From bb777f77819a935580c5180f26cf6bc6ca4d602d Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 09/28] fix: rebuild the solvers of the humanoid generator when
 its sizes change

The solvers of the former sizes were kept in front of the new ones, so that any
configuration but the default one picked solvers of the wrong size, and the number of
feet constraints was added again at every change.
---
 src/humanoid_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 57cc3cb..e965be1 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -458,6 +458,7 @@ namespace MPCWalkgen
   {
     // Updating qpoasesSolverVec_ and qpMatrixVec_
     maximumNbOfSteps_ = feetSupervisor_.getNbSamples();
+    maximumNbOfConstraints_ = 0;
     if(config_.withCopConstraints)
     {
       maximumNbOfConstraints_ = feetSupervisor_.getMaximumNbOfCopConstraints()
@@ -469,6 +470,7 @@ namespace MPCWalkgen
           *maximumNbOfSteps_;
     }
 
+    qpoasesSolverVec_.clear();
     qpoasesSolverVec_.reserve((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
     qpMatrixVec_.resize((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
 
-- 
2.43.0


From 3670ad32661872196982b6369bdc441ebdbce786 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 10/28] fix: report a solver failure even when no log stream is
 given

---
 qpsolver/src/qpsolver_qpoases.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 241ded1..6ead07b 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -76,11 +76,14 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
   // the "non-solution" might be useful: it is optimal but unfeasible with
   // respect to some constraints.
   qp_.getPrimalSolution(sol.data());
-  if ((ret != ::qpOASES::SUCCESSFUL_RETURN) && (os != nullptr))
+  if (ret != ::qpOASES::SUCCESSFUL_RETURN)
   {
-    *os << "QP unfeasible. QPOases error code: " << ret
-        << ". Number of working set recalculations: " << maxNbIterations
-        << ". Was warm start: " << doWarmStart << ".\n";
+    if (os != nullptr)
+    {
+      *os << "QP unfeasible. QPOases error code: " << ret
+          << ". Number of working set recalculations: " << maxNbIterations
+          << ". Was warm start: " << doWarmStart << ".\n";
+    }
     return false;
   }
 
-- 
2.43.0


From ca01fb902e6210d138ed7558cff5ad995702b19a Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 11/28] fix: resize the humanoid generator's problems when a
 polygon changes

The number of constraints depends on the number of vertices: a polygon set after the
configuration made solve() read past the end of the problems and solvers.
---
 src/humanoid_walkgen.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index e965be1..50332dc 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -94,6 +94,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootKinematicConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -101,6 +103,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar> &convexPolygon)
   {
     feetSupervisor_.setRightFootKinematicConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -108,6 +112,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootCopConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -115,6 +121,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setRightFootCopConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
-- 
2.43.0


From 8d7bd1551bef7916475ad4dc9ef047a4158a3db9 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 12/28] fix: preview the next phase when a double support is
 shortened to end now

When its former end was beyond the horizon, the timeline held no phase to go to.
---
 src/humanoid_feet_supervisor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index d224e1b..63f7e5a 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -485,6 +485,14 @@ namespace MPCWalkgen
         shortenStepVec(variable);
       }
 
+      // The double support may have been shortened before its end came into the horizon
+      if(timeline_.size() == 1)
+      {
+        processFSM(timeline_.front());
+        timeline_.set_capacity(timeline_.capacity() + 1);
+        timeline_.push_back(Phase<Scalar>(phase_));
+      }
+
       timeline_.pop_front();
       timeline_.set_capacity(timeline_.capacity() - 1);
 
-- 
2.43.0


From 343171df645089c77fac36c667ebdfa5a6677d93 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 13/28] fix: CoP reference from world frame references under
 tilted gravity

The CoP of the two masses is com - h*(acc + g_xy)/g_z, as the linear dynamics have it; the
horizontal gravity was added instead of subtracted.
---
 src/function/zebulon_cop_centering_objective.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/zebulon_cop_centering_objective.cpp b/src/function/zebulon_cop_centering_objective.cpp
index b869632..794f819 100644
--- a/src/function/zebulon_cop_centering_objective.cpp
+++ b/src/function/zebulon_cop_centering_objective.cpp
@@ -175,7 +175,7 @@ void CopCenteringObjective<Scalar>::setCopRefInWorldFrame(
 
   copRefInLocalFrame_ = ( mb*g[2]*basePosRefInWorldFrame - mb*hb*baseAccRefInWorldFrame
                         + mc*g[2]*comPosRefInWorldFrame - mc*hc*comAccRefInWorldFrame
-                        + (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
+                        - (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
 
                         - basePosRefInWorldFrame; //In local Frame
 }
-- 
2.43.0


From e41254da9ae855a92b9acff337bd845482d07b7c Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 14/28] fix: keep the CoP and CoM of the mobile base in the
 support polygon itself

The rows held the points of the polygon reflected through the base: the vertices are
counter-clockwise, the rows were written for the other order. The first row stays the one of
the side of the polygon it was for, only the polygon is not reflected any more.
---
 src/function/zebulon_com_constraint.cpp | 10 ++++++----
 src/function/zebulon_cop_constraint.cpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/function/zebulon_com_constraint.cpp b/src/function/zebulon_com_constraint.cpp
index d0a3084..18524bb 100644
--- a/src/function/zebulon_com_constraint.cpp
+++ b/src/function/zebulon_com_constraint.cpp
@@ -113,15 +113,17 @@ void ComConstraint<Scalar>::computeconstraintMatrices()
   A_.setZero(M*N, 2*N);
   b_.resize(M*N);
 
+  // The rows are A*z + b >= 0. The vertices are counter-clockwise, so the inside of an edge
+  // is on its left. The first rows are those of the edge opposite to the first one.
   for(int i=0; i<M; ++i)
   {
-    const Vector2& p1 = supportConvexPolygon.getVertices()[i];
-    const Vector2& p2 = supportConvexPolygon.getVertices()[(i+1)%M];
+    const Vector2& p1 = supportConvexPolygon.getVertices()[(i+M/2)%M];
+    const Vector2& p2 = supportConvexPolygon.getVertices()[(i+M/2+1)%M];
 
     for(int j=0; j<N; ++j)
     {
-      A_(i*N+j, j) = p2(1)-p1(1);
-      A_(i*N+j, j+N) = -p2(0)+p1(0);
+      A_(i*N+j, j) = -p2(1)+p1(1);
+      A_(i*N+j, j+N) = p2(0)-p1(0);
       b_(i*N+j) = -p1(1)*(p2(0)-p1(0)) + p1(0)*(p2(1)-p1(1));
     }
   }
diff --git a/src/function/zebulon_cop_constraint.cpp b/src/function/zebulon_cop_constraint.cpp
index 6e2b3f7..a91554d 100644
--- a/src/function/zebulon_cop_constraint.cpp
+++ b/src/function/zebulon_cop_constraint.cpp
@@ -145,15 +145,17 @@ void CopConstraint<Scalar>::computeconstraintMatrices()
   A_.setZero(M*N, 2*N);
   b_.resize(M*N);
 
+  // The rows are A*z + b >= 0. The vertices are counter-clockwise, so the inside of an edge
+  // is on its left. The first rows are those of the edge opposite to the first one.
   for(int i=0; i<M; ++i)
   {
-    const Vector2& p1 = supportConvexPolygon.getVertices()[i];
-    const Vector2& p2 = supportConvexPolygon.getVertices()[(i+1)%M];
+    const Vector2& p1 = supportConvexPolygon.getVertices()[(i+M/2)%M];
+    const Vector2& p2 = supportConvexPolygon.getVertices()[(i+M/2+1)%M];
 
     for(int j=0; j<N; ++j)
     {
-      A_(i*N+j, j) = p2(1)-p1(1);
-      A_(i*N+j, j+N) = -p2(0)+p1(0);
+      A_(i*N+j, j) = -p2(1)+p1(1);
+      A_(i*N+j, j+N) = p2(0)-p1(0);
       b_(i*N+j) = -p1(1)*(p2(0)-p1(0)) + p1(0)*(p2(1)-p1(1));
     }
   }
-- 
2.43.0


From 9b5b3dfcc921d2dd36c724536a3a695a1e96f598 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 15/28] fix: masses of the accelerations in the tilt of the
 mobile base

The documented balance has M L d'' + m h c''; the two factors were exchanged.
---
 src/function/zebulon_tilt_minimization_objective.cpp      | 8 ++++----
 .../zebulon_tilt_velocity_minimization_objective.cpp      | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/function/zebulon_tilt_minimization_objective.cpp b/src/function/zebulon_tilt_minimization_objective.cpp
index 4fb6ebf..9ac55a5 100644
--- a/src/function/zebulon_tilt_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_minimization_objective.cpp
@@ -153,13 +153,13 @@ void TiltMinimizationObjective<Scalar>::computeConstantPart()
   dynPsiY_.K = -uInv_*tmp;
   dynPsiY_.S = uInv_*A6*angularAccRelativeToAngleDyn.S;
 
-  dynC_.U = uInv_*(-A5*dynComAcc.U + A2*dynComPos.U);
+  dynC_.U = uInv_*(-A4*dynComAcc.U + A2*dynComPos.U);
   dynC_.UT = dynC_.U.transpose();
-  dynC_.S = uInv_*(-A5*dynComAcc.S + A2*dynComPos.S);
+  dynC_.S = uInv_*(-A4*dynComAcc.S + A2*dynComPos.S);
 
-  dynB_.U = uInv_*(-A4*dynBaseAcc.U - A2*dynBasePos.U);
+  dynB_.U = uInv_*(-A5*dynBaseAcc.U - A2*dynBasePos.U);
   dynB_.UT = dynB_.U.transpose();
-  dynB_.S = uInv_*(-A4*dynBaseAcc.S - A2*dynBasePos.S);
+  dynB_.S = uInv_*(-A5*dynBaseAcc.S - A2*dynBasePos.S);
 
   //Compute the hessian
   hessian_.setZero(4*N, 4*N);
diff --git a/src/function/zebulon_tilt_velocity_minimization_objective.cpp b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
index c3af044..53d739b 100644
--- a/src/function/zebulon_tilt_velocity_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
@@ -158,13 +158,13 @@ void TiltVelMinimizationObjective<Scalar>::computeConstantPart()
   dynPsiY_.S = uInv_*A6*angularAccRelativeToAngleDyn.S
              - tiltVelAngleDyn.U*tiltAngleDyn.Uinv*tiltAngleDyn.S+tiltVelAngleDyn.S;
 
-  dynC_.U = uInv_*(-A5*dynComAcc.U + A2*dynComPos.U);
+  dynC_.U = uInv_*(-A4*dynComAcc.U + A2*dynComPos.U);
   dynC_.UT = dynC_.U.transpose();
-  dynC_.S = uInv_*(-A5*dynComAcc.S + A2*dynComPos.S);
+  dynC_.S = uInv_*(-A4*dynComAcc.S + A2*dynComPos.S);
 
-  dynB_.U = uInv_*(-A4*dynBaseAcc.U - A2*dynBasePos.U);
+  dynB_.U = uInv_*(-A5*dynBaseAcc.U - A2*dynBasePos.U);
   dynB_.UT = dynB_.U.transpose();
-  dynB_.S = uInv_*(-A4*dynBaseAcc.S - A2*dynBasePos.S);
+  dynB_.S = uInv_*(-A5*dynBaseAcc.S - A2*dynBasePos.S);
 
   //Compute the hessian
   hessian_.setZero(4*N, 4*N);
-- 
2.43.0


From dc70516fbc4f89c5ea869b6cf855c9e78a49d6c7 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 16/28] fix: allow the masses of the mobile base generator to
 be lowered

---
 src/zebulon_walkgen.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 5b588a5..7472dc9 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -189,10 +189,18 @@ void ZebulonWalkgen<Scalar>::setBodyMass(Scalar mass)
 
 
   Scalar totalMass = mass + baseModel_.getMass();
+  // the total mass may never be lower than the mass of a part
+  const bool lighter = mass < lipModel_.getMass();
+  if (lighter)
+  {
+    lipModel_.setMass(mass);
+  }
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
-
-  lipModel_.setMass(mass);
+  if (!lighter)
+  {
+    lipModel_.setMass(mass);
+  }
 
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
@@ -209,10 +217,18 @@ void ZebulonWalkgen<Scalar>::setBaseMass(Scalar mass)
   assert(mass==mass);
 
   Scalar totalMass = lipModel_.getMass() + mass;
+  // the total mass may never be lower than the mass of a part
+  const bool lighter = mass < baseModel_.getMass();
+  if (lighter)
+  {
+    baseModel_.setMass(mass);
+  }
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
-
-  baseModel_.setMass(mass);
+  if (!lighter)
+  {
+    baseModel_.setMass(mass);
+  }
 
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
-- 
2.43.0


From a99e28d6643f850639a02e9a6381059497662e7b Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 17/28] fix: keep the gravity shift of the CoM centering when
 the horizon changes

---
 src/zebulon_walkgen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 7472dc9..3abb476 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -63,6 +63,7 @@ void ZebulonWalkgen<Scalar>::setNbSamples(int nbSamples)
   posTrackingObj_.computeConstantPart();
   baseMotionConstraint_.computeConstantPart();
   tiltMotionConstraint_.computeConstantPart();
+  comCenteringObj_.updateGravityShift();
 
   computeConstantPart();
 }
-- 
2.43.0


From 752756c395e1b424391c4a17f061a947b798de08 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 18/28] fix: update the tilt objectives when the height of the
 base changes

---
 src/zebulon_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 3abb476..e4021c1 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -179,6 +179,8 @@ void ZebulonWalkgen<Scalar>::setComBaseHeight(Scalar comHeight)
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
+  tiltMinObj_.computeConstantPart();
+  tiltVelMinObj_.computeConstantPart();
 
   computeConstantPart();
 }
-- 
2.43.0


From 0ec71e0936dd469aaa33da256bf67cf4af85136b Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 19/28] fix: keep the contacts of a foot model as long as its
 horizon

setNbSamples left isInContact_ at its former size: isInContact() of a sample
beyond it read past the end.
---
 src/model/humanoid_foot_model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model/humanoid_foot_model.cpp b/src/model/humanoid_foot_model.cpp
index d648d89..8e28886 100644
--- a/src/model/humanoid_foot_model.cpp
+++ b/src/model/humanoid_foot_model.cpp
@@ -58,6 +58,7 @@ namespace MPCWalkgen
     assert(nbSamples>0);
 
     nbSamples_ = nbSamples;
+    isInContact_.resize(nbSamples_, true);
   }
 
   template <typename Scalar>
-- 
2.43.0


From bb397a48e009150e96655c096317d7667ee64b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 20/28] fix: HumanoidWalkgen::setWeightings checks the weights
 it is given, not the former ones

---
 src/humanoid_walkgen.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 50332dc..c100a0d 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -294,9 +294,9 @@ namespace MPCWalkgen
   template <typename Scalar>
   void HumanoidWalkgen<Scalar>::setWeightings(const HumanoidWalkgenWeighting<Scalar>& weighting)
   {
-    assert(weighting_.velocityTracking >=0);
-    assert(weighting_.copCentering >=0);
-    assert(weighting_.jerkMinimization >=0);
+    assert(weighting.velocityTracking >=0);
+    assert(weighting.copCentering >=0);
+    assert(weighting.jerkMinimization >=0);
 
     weighting_ = weighting;
   }
-- 
2.43.0


From 7f75ed714ce6c5eca01794259dbad5cd636f6f92 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 21/28] fix: the models' setGravity checks the gravity it is
 given, not the former one

---
 src/model/lip_model.cpp          | 2 +-
 src/model/zebulon_base_model.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/lip_model.cpp b/src/model/lip_model.cpp
index 5809666..7eb99c3 100644
--- a/src/model/lip_model.cpp
+++ b/src/model/lip_model.cpp
@@ -224,7 +224,7 @@ template <typename Scalar>
 void LIPModel<Scalar>::setGravity(const Vector3& gravity)
 {
   assert(gravity==gravity);
-  assert(std::abs(gravity_(2))>Constant<Scalar>::EPSILON);
+  assert(std::abs(gravity(2))>Constant<Scalar>::EPSILON);
 
   gravity_ = gravity;
 
diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 88b6b93..96273ac 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -203,7 +203,7 @@ template <typename Scalar>
 void BaseModel<Scalar>::setGravity(const Vector3& gravity)
 {
   assert(gravity==gravity);
-  assert(std::abs(gravity_(2))>Constant<Scalar>::EPSILON);
+  assert(std::abs(gravity(2))>Constant<Scalar>::EPSILON);
 
   gravity_ = gravity;
 
-- 
2.43.0


From d557154d1fb77410b1fd5de8b8294a7caf4a3524 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 22/28] fix: setWeightings refuses a negative position tracking
 weight

---
 src/trajectory_walkgen.cpp | 2 +-
 src/zebulon_walkgen.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trajectory_walkgen.cpp b/src/trajectory_walkgen.cpp
index 9c315c2..4acbe8f 100644
--- a/src/trajectory_walkgen.cpp
+++ b/src/trajectory_walkgen.cpp
@@ -116,7 +116,7 @@ template <typename Scalar>
 void TrajectoryWalkgen<Scalar>::setWeightings(const  TrajectoryWalkgenWeighting<Scalar>& weighting)
 {
   assert(weighting.velocityTracking>=0);
-  assert(weighting.velocityTracking>=0);
+  assert(weighting.positionTracking>=0);
   assert(weighting.jerkMinimization>=0);
 
   weighting_ = weighting;
diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index e4021c1..f9e4a93 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -415,7 +415,7 @@ void ZebulonWalkgen<Scalar>::setWeightings(const  ZebulonWalkgenWeighting<Scalar
   assert(weighting.copCentering>=0);
   assert(weighting.comCentering>=0);
   assert(weighting.velocityTracking>=0);
-  assert(weighting.velocityTracking>=0);
+  assert(weighting.positionTracking>=0);
   assert(weighting.jerkMinimization>=0);
   assert(weighting.tiltMinimization>=0);
 
-- 
2.43.0


From 75ab254007a4f3e468945b20df0792fc36f8f15f Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Fri, 20 Nov 2026 01:54:48 +0000
Subject: [PATCH 23/28] fix: LIPModel refuses a null period or an empty horizon
 at construction, and a null feedback period, before dividing by it

---
 src/model/lip_model.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model/lip_model.cpp b/src/model/lip_model.cpp
index 7eb99c3..2e18618 100644
--- a/src/model/lip_model.cpp
+++ b/src/model/lip_model.cpp
@@ -28,6 +28,8 @@ LIPModel<Scalar>::LIPModel(int nbSamples,
   ,mass_(1.0)
   ,totalMass_(1.0)
 {
+  assert(nbSamples>0);
+  assert(samplingPeriod>0);
 
   stateX_.setZero(3);
   stateY_.setZero(3);
@@ -266,7 +268,7 @@ void LIPModel<Scalar>::setTotalMass(Scalar mass)
 template <typename Scalar>
 void LIPModel<Scalar>::setFeedbackPeriod(Scalar feedbackPeriod)
 {
-  assert(feedbackPeriod>=0);
+  assert(feedbackPeriod>0);
   feedbackPeriod_ = feedbackPeriod;
 
   if (autoCompute_)
-- 
2.43.0


From 395a700bd679c87aecf1b586f7444d15e6ad8cd5 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Fri, 20 Nov 2026 01:54:48 +0000
Subject: [PATCH 24/28] fix: HumanoidWalkgen::solve checks the feedback period
 before using it

---
 src/humanoid_walkgen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index c100a0d..bb4f7a9 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -323,6 +323,8 @@ namespace MPCWalkgen
   template <typename Scalar>
   bool HumanoidWalkgen<Scalar>::solve(Scalar feedBackPeriod)
   {
+    assert(feedBackPeriod>0);
+
     //Updating the supervisor timeline
     feetSupervisor_.updateTimeline(X_, feedBackPeriod);
 
@@ -331,7 +333,6 @@ namespace MPCWalkgen
       lipModel_.setFeedbackPeriod(feedBackPeriod);
     }
 
-    assert(feedBackPeriod>0);
     assert(feetSupervisor_.getNbSamples() == lipModel_.getNbSamples());
 
     int N = lipModel_.getNbSamples();
-- 
2.43.0


From b6a2a0c4667139e990c22bc25c298c30b274f044 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Fri, 20 Nov 2026 01:55:38 +0000
Subject: [PATCH 25/28] fix: HumanoidWalkgen::solve refuses a feedback period
 longer than what remains before the next sample

---
 src/humanoid_walkgen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index bb4f7a9..7cbdc83 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -334,6 +334,7 @@ namespace MPCWalkgen
     }
 
     assert(feetSupervisor_.getNbSamples() == lipModel_.getNbSamples());
+    assert(feetSupervisor_.getNbOfCallsBeforeNextSample()>0);
 
     int N = lipModel_.getNbSamples();
     int M = feetSupervisor_.getNbPreviewedSteps();
-- 
2.43.0


From 6266be00e32a8b23efcc6a80714614e55fe4a8f9 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 26/28] fix: the references returned by getSupportFootStateX
 and getSupportFootStateY are not to the same vector

---
 mpc-walkgen/humanoid_feet_supervisor.h | 2 +-
 src/humanoid_feet_supervisor.cpp       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpc-walkgen/humanoid_feet_supervisor.h b/mpc-walkgen/humanoid_feet_supervisor.h
index 2e4df92..72aa5d0 100644
--- a/mpc-walkgen/humanoid_feet_supervisor.h
+++ b/mpc-walkgen/humanoid_feet_supervisor.h
@@ -213,7 +213,7 @@ namespace MPCWalkgen
       Scalar feedbackPeriod_;
 
       HumanoidFootModel<Scalar> leftFootModel_, rightFootModel_;
-      mutable VectorX middleState_;
+      mutable VectorX middleStateX_, middleStateY_;
       mutable ConvexPolygon<Scalar> copDSConvexPolygon_;
       mutable vectorOfVector2 copDSpoints_;
 
diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 63f7e5a..122c0c4 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -424,8 +424,8 @@ namespace MPCWalkgen
     }
     else if(isInDS() && !move_)
     {
-      middleState_ = (rightFootModel_.getStateX() + leftFootModel_.getStateX())/2.0;
-      return middleState_;
+      middleStateX_ = (rightFootModel_.getStateX() + leftFootModel_.getStateX())/2.0;
+      return middleStateX_;
     }
     return leftFootModel_.getStateX();
   }
@@ -439,8 +439,8 @@ namespace MPCWalkgen
     }
     else if(isInDS() && !move_)
     {
-      middleState_ = (rightFootModel_.getStateY() + leftFootModel_.getStateY())/2.0;
-      return middleState_;
+      middleStateY_ = (rightFootModel_.getStateY() + leftFootModel_.getStateY())/2.0;
+      return middleStateY_;
     }
     return leftFootModel_.getStateY();
   }
-- 
2.43.0


From bacb17fe82796649676901595beb518f774a4eb8 Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 27/28] fix: compare the candidates of the hull to the smallest
 angle of all

Candidates were kept or dropped against the smallest angle met so far: one
nearly aligned with the final choice was lost when a smaller angle followed,
and one exactly EPSILON away from it was neither kept nor better. The hull
could then miss a corner.
---
 src/convexpolygon.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index f57095f..3e6d345 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -162,7 +162,12 @@ namespace MPCWalkgen
     //Creating vector of indexes of the candidate for the next vertex
     std::vector<int> indexesTab;
     indexesTab.reserve(ptot.size());
-    Scalar smallestAngle = 0;
+
+    // The angles of these candidates
+    std::vector<int> candidates;
+    std::vector<Scalar> angles;
+    candidates.reserve(ptot.size());
+    angles.reserve(ptot.size());
 
     for (size_t i=0; i<ptot.size(); ++i)
     {
@@ -181,25 +186,27 @@ namespace MPCWalkgen
           angle += 2*boost::math::constants::pi<Scalar>();
         }
 
-        if(indexesTab.empty() || angle < smallestAngle - Constant<Scalar>::EPSILON)
-        {
-          indexesTab.clear();
-          indexesTab.push_back(i);
-          smallestAngle = angle;
-        }
-        else if(std::abs(angle - smallestAngle) < Constant<Scalar>::EPSILON)
-        {
-          indexesTab.push_back(i);
-        }
+        candidates.push_back(i);
+        angles.push_back(angle);
       }
     }
 
     // All the points are copies of the current vertex
-    if(indexesTab.empty())
+    if(candidates.empty())
     {
       return currIndex;
     }
 
+    // Keeping all those whose angle is the smallest one, up to EPSILON
+    const Scalar smallestAngle = *std::min_element(angles.begin(), angles.end());
+    for (size_t i=0; i<candidates.size(); ++i)
+    {
+      if(angles[i] <= smallestAngle + Constant<Scalar>::EPSILON)
+      {
+        indexesTab.push_back(candidates[i]);
+      }
+    }
+
     //Choosing the index of the furthest point from the current point
     //among indexesTab
     if (indexesTab.size()>1)
-- 
2.43.0


From e47fe5ef1eb6d4102025ef61ced91dc6b75c69ee Mon Sep 17 00:00:00 2001
From: verif <v@l>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 28/28] fix: judge a short side of a polygon parallel to an
 axis by its direction

A side under a few millimetres counted as parallel to an axis with an
extent of 1e-4, whatever its slope, and its bound cut off the polygon.
---
 src/convexpolygon.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index 3e6d345..a30168a 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -240,7 +240,11 @@ namespace MPCWalkgen
     {
       Vector2 hullEdge = p_[(i+1)%nbVertices] - p_[i];
 
-      if(std::abs(hullEdge(0))<Constant<Scalar>::EPSILON)
+      // A short side is parallel to an axis if its direction is, whatever its extents
+      const Scalar parallelThreshold =
+          Constant<Scalar>::EPSILON*std::min(hullEdge.norm(), static_cast<Scalar>(1));
+
+      if(std::abs(hullEdge(0))<parallelThreshold)
       {
         if(hullEdge(1)<0)
         {
@@ -251,7 +255,7 @@ namespace MPCWalkgen
           xSupBound_ = p_[i](0);
         }
       }
-      else if(std::abs(hullEdge(1))<Constant<Scalar>::EPSILON)
+      else if(std::abs(hullEdge(1))<parallelThreshold)
       {
         if(hullEdge(0)<0)
         {
-- 
2.43.0

