From 5eb31f8986b6a776be02780ce5e41c96aefce54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 01/15] fix: BCQPSolver::solveBBPGD returns the latest iterate
 when iteMax is reached

---
 Constraint/BCQPSolver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index c05f0f7..995f5bb 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -234,8 +234,11 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
 
         // prepare next iteration
         // swap the contents of pointers directly, be careful
-        xkm1Rcp.swap(xkRcp);
-        gradkm1Rcp.swap(gradkRcp);
+        // keep the latest iterate in xkRcp if this is the last iteration
+        if (iteCount < iteMax) {
+            xkm1Rcp.swap(xkRcp);
+            gradkm1Rcp.swap(gradkRcp);
+        }
     }
 
     xsolRcp = xkRcp; // return solution
-- 
2.43.0


From 64d1b75d081dcfeffe85a56adbcf89eb67184864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 02/15] fix: CPSolver::LCP_BBPGD returns the latest iterate
 when iteMax is reached

---
 Collision/CPSolver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index d76ab13..80c6e56 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -389,8 +389,11 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
 
         // prepare next iteration
         // swap the contents of pointers directly, be careful
-        xkm1Rcp.swap(xkRcp);
-        gradkm1Rcp.swap(gradkRcp);
+        // keep the latest iterate in xkRcp if this is the last iteration
+        if (iteCount < iteMax) {
+            xkm1Rcp.swap(xkRcp);
+            gradkm1Rcp.swap(gradkRcp);
+        }
     }
 
     xsolRcp = xkRcp; // return solution
-- 
2.43.0


From 6061ec13eccf97e8fcefbab6452a6fab56fd5202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 03/15] fix: ConstraintSolver computes constraint force and
 velocity from the returned gamma

---
 Constraint/ConstraintSolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Constraint/ConstraintSolver.cpp b/Constraint/ConstraintSolver.cpp
index d03baff..c63607e 100644
--- a/Constraint/ConstraintSolver.cpp
+++ b/Constraint/ConstraintSolver.cpp
@@ -90,6 +90,10 @@ void ConstraintSolver::solveConstraints() {
     auto &p = history.back();
     spdlog::info("RECORD: BCQP residue {:g}, {:g}, {:g}, {:g}, {:g}, {:g}", p[0], p[1], p[2], p[3], p[4], p[5]);
 
+    // the force/vel held by MOp belong to the last vector it was applied to, which may not be the returned solution
+    Teuchos::RCP<TV> MgammaRcp = Teuchos::rcp(new TV(gammaRcp->getMap(), true));
+    MOpRcp->apply(*gammaRcp, *MgammaRcp);
+
     // calculate unilateral and bilateral vel/force with solution
     Teuchos::RCP<TCMAT> DMatRcp = MOpRcp->getDMat();
     // bilateral first
-- 
2.43.0


From 3856a46c75971d476e6c295d518dfea16afb01a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 04/15] fix: BCQPSolver::solveBBPGD projects the initial guess
 onto the bounds

---
 Constraint/BCQPSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 995f5bb..83d0de6 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -150,6 +150,9 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     Teuchos::RCP<TV> gkdiffRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // gkdiff = gk - gkm1
     Teuchos::RCP<TV> xkdiffRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // xkdiff = xk - xkm1
 
+    // the initial guess may be out of bounds
+    boundProjection(xkm1Rcp);
+
     // compute grad
     ARcp->apply(*xkm1Rcp, *gradkm1Rcp); // gkm1 = A.dot(xkm1)
     mvCount++;
-- 
2.43.0


From ee699ead322d24de2bbf3e1b0147be4eb0219867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 05/15] fix: BCQPSolver::solveAPGD does not hang on an empty
 problem

---
 Constraint/BCQPSolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 83d0de6..a04c8f1 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -286,7 +286,8 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
 
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
-    double Lk = (tempNorm2 / xkdiffNorm2);
+    // xkdiff is zero if the problem is empty or the initial guess is xhat
+    double Lk = xkdiffNorm2 > 0 ? (tempNorm2 / xkdiffNorm2) : 1.0;
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
-- 
2.43.0


From b4e298c8dc9dc2f345f67169cba2b0228a90930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 06/15] fix: BCQPSolver::checkProjectionResidual sets
 projectionError without a data race

---
 Constraint/BCQPSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index a04c8f1..1b63a9b 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -479,7 +479,7 @@ double BCQPSolver::checkProjectionResidual(const Teuchos::RCP<const TV> &XRcp, c
 
     bool projectionError = false;
 // EQ 2.2 of Dai & Fletcher 2005
-#pragma omp parallel for
+#pragma omp parallel for reduction(|| : projectionError)
     for (int i = 0; i < ibound; i++) {
         if (xPtr(i, c) < lbPtr(i, c) + eps) {
             qPtr(i, c) = std::min(yPtr(i, c), 0.0);
-- 
2.43.0


From 25cbc77d343615c69d9303c9e8b63a08ca1febeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 07/15] fix: SylinderNearEP::getRSearch covers the collision
 radius

---
 Sylinder/SylinderNear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderNear.hpp b/Sylinder/SylinderNear.hpp
index a8c3959..383cc3d 100644
--- a/Sylinder/SylinderNear.hpp
+++ b/Sylinder/SylinderNear.hpp
@@ -106,7 +106,7 @@ struct SylinderNearEP {
      * @return PS::F64
      */
     PS::F64 getRSearch() const {
-        return std::max(length + 2 * radius, lengthCollision + 2 * lengthCollision) * (1 + colBuf);
+        return std::max(length + 2 * radius, lengthCollision + 2 * radiusCollision) * (1 + colBuf);
     }
 
     /**
-- 
2.43.0


From d3941137fb20579b0cfb5cd76db0d2155c9e7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 08/15] fix: boundary collision search uses the effective
 radius of spheres

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index a95ae57..54a1abc 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1123,7 +1123,7 @@ void SylinderSystem::collectBoundaryCollision() {
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
                     } else if (deltanorm <
-                               (1 + runConfig.sylinderColBuf * 2) * sy.radiusCollision) { // inside boundary but close
+                               (1 + runConfig.sylinderColBuf * 2) * radius) { // inside boundary but close
                         que.emplace_back(deltanorm - radius, 0, sy.gid, sy.gid, sy.globalIndex, sy.globalIndex,
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
-- 
2.43.0


From c325babc6fe43786562222058ba02cef2b835743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 09/15] fix: calcBoundingBox upper bound of negative
 coordinates

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 54a1abc..4ba9fa8 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1178,7 +1178,7 @@ void SylinderSystem::calcBoundingBox(double localLow[3], double localHigh[3], do
     double lx, ly, lz;
     lx = ly = lz = std::numeric_limits<double>::max();
     double hx, hy, hz;
-    hx = hy = hz = std::numeric_limits<double>::min();
+    hx = hy = hz = std::numeric_limits<double>::lowest();
 
     for (int i = 0; i < nLocal; i++) {
         const auto &sy = sylinderContainer[i];
-- 
2.43.0


From e9040357334eeaf160b7631cfbdc937d602fc2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 10/15] fix: setLinkMapFromFile replaces the reverse link map
 too

---
 Sylinder/SylinderSystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 4ba9fa8..e9a82d6 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -390,6 +390,7 @@ void SylinderSystem::setLinkMapFromFile(const std::string &filename) {
     std::getline(myfile, line);
 
     linkMap.clear();
+    linkReverseMap.clear();
     while (std::getline(myfile, line)) {
         if (line[0] == 'L') {
             Link link;
-- 
2.43.0


From c356cb383657be8e807c1df37ea7a948b9938470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 11/15] fix: addNewLink removes duplicated links

---
 Sylinder/SylinderSystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index e9a82d6..37914d6 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1363,6 +1363,10 @@ void SylinderSystem::addNewLink(const std::vector<Link> &newLink) {
 
     // put newLinks into the map, same op on all mpi ranks
     for (const auto &ll : newLinkRecv) {
+        const auto range = linkMap.equal_range(ll.prev);
+        if (std::any_of(range.first, range.second, [&](const auto &kv) { return kv.second == ll.next; })) {
+            continue; // duplicated link
+        }
         linkMap.emplace(ll.prev, ll.next);
         linkReverseMap.emplace(ll.next, ll.prev);
     }
-- 
2.43.0


From 4f07d022a16c984737dc530d9868089f1b41bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 12/15] fix: record a snapshot for restart only after all ranks
 have written it

---
 Sylinder/SylinderSystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 37914d6..f4eba42 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -507,6 +507,7 @@ void SylinderSystem::writeAscii(const std::string &baseFolder) {
 }
 
 void SylinderSystem::writeTimeStepInfo(const std::string &baseFolder) {
+    commRcp->barrier(); // the files of all ranks must be complete before being recorded for restart
     if (commRcp->getRank() == 0) {
         // write a single txt file containing timestep and most recent pvtp file names
         std::string name = baseFolder + std::string("../../TimeStepInfo.txt");
-- 
2.43.0


From bb706acdd0892cdb99cd21e4d6fa45cd3ecd5b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 13/15] fix: monolayer removes the out of plane Brownian
 velocity of sylinders

---
 Sylinder/SylinderSystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index f4eba42..56d446b 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -795,6 +795,11 @@ void SylinderSystem::calcVelocityNonCon() {
                 velBPtr(6 * i + 2, 0) = 0; // vz
                 velBPtr(6 * i + 3, 0) = 0; // omegax
                 velBPtr(6 * i + 4, 0) = 0; // omegay
+                // sync Sylinder members
+                auto &sy = sylinderContainer[i];
+                sy.velBrown[2] = 0;
+                sy.omegaBrown[0] = 0;
+                sy.omegaBrown[1] = 0;
             }
         }
         velocityNonConRcp->update(1.0, *velocityBrownRcp, 1.0);
-- 
2.43.0


From 57512225c3cafc657f1c006f2778af2b2a746eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 14/15] fix: snapshot interval is timeSnap/dt rounded and at
 least one step

---
 Sylinder/SylinderSystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 56d446b..0f5f558 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -887,7 +887,8 @@ void SylinderSystem::updateSylinderMap() {
 }
 
 bool SylinderSystem::getIfWriteResultCurrentStep() {
-    return (stepCount % static_cast<int>(runConfig.timeSnap / runConfig.dt) == 0);
+    // round to nearest, timeSnap/dt may be slightly smaller than an integer, and is less than 1 if timeSnap < dt
+    return (stepCount % std::max(1, static_cast<int>(std::lround(runConfig.timeSnap / runConfig.dt))) == 0);
 }
 
 void SylinderSystem::prepareStep() {
-- 
2.43.0


From 5f9d6122e691d0b784c9b932450417c698dde879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:11 +0000
Subject: [PATCH 15/15] fix: CPSolver::LCP_APGD divided by zero and did not
 terminate on an empty problem or a guess of ones

---
 Collision/CPSolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 80c6e56..cac1ffa 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -440,7 +440,8 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
 
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
-    double Lk = (tempNorm2 / xkdiffNorm2);
+    // xkdiff is zero if the problem is empty or the initial guess is xhat
+    double Lk = xkdiffNorm2 > 0 ? (tempNorm2 / xkdiffNorm2) : 1.0;
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
-- 
2.43.0

