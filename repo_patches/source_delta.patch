From 7a517c38cec5661866f3a5312d90e2db6a8267fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 01/62] fix: product manifolds with Euclidean or Sphere
 components corrupt memory

EucGradToGrad of Euclidean, FixedRankE and SphereTx attached the gradient
component of a product to the iterate without owning its memory (double free),
and Sphere::ExpHInvTran passed swapped dimensions to ger (heap overflow as soon
as the operator is larger than one component).
---
 Manifolds/Euclidean.cpp  | 5 ++++-
 Manifolds/FixedRankE.cpp | 5 ++++-
 Manifolds/Sphere.cpp     | 2 +-
 Manifolds/SphereTx.cpp   | 5 ++++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Euclidean.cpp b/Manifolds/Euclidean.cpp
index 9976f3f..7c6f021 100644
--- a/Manifolds/Euclidean.cpp
+++ b/Manifolds/Euclidean.cpp
@@ -140,7 +140,10 @@ namespace ROPTLIB{
 	{
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*egf may be a component in a product of elements, whose memory does not belong to egf, see Stiefel::EucGradToGrad*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
         }
         *result = egf;
         return *result;
diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 84ca83b..0da4f62 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -278,7 +278,10 @@ namespace ROPTLIB{
         Projection(x, egf, result);
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*egf may be a component in a product of elements, whose memory does not belong to egf, see Stiefel::EucGradToGrad*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
         }
         return *result;
 	};
diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index a528d33..49a2ae2 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -140,7 +140,7 @@ namespace ROPTLIB{
 		realdp *resultL = result->ObtainWritePartialData();
 		/* resultL(:, start : start + length - 1) <- scalar * Hxpy * xv^T + resultL(:, start : start + length - 1),
 		details: www.netlib.org/lapack/explore-html/dc/da8/ger_8f.html */
-		ger_(&length, &ell, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
+		ger_(&ell, &length, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
 
 		delete[] Hxpy;
         return *result;
diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 4c61b58..b60a064 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -151,7 +151,10 @@ namespace ROPTLIB{
 	{
         if (prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*egf may be a component in a product of elements, whose memory does not belong to egf, see Stiefel::EucGradToGrad*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
         }
         return Projection(x, egf, result);
 	};
-- 
2.43.0


From 28da521d5e79ec06f53772f963f122f84a6f7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 02/62] fix: quasi-Newton trust-region and line-search solvers
 abort on some valid inputs

LRTRSR1 aborted when LengthSY exceeds the length of a tangent vector and on
complex manifolds with extrinsic representations, where Projection was called
before the complex flag was restored; LinearOPEEta left the complex flag of the
result set, so dense quasi-Newton methods aborted on CStiefel extrinsically.
---
 Manifolds/Manifold.cpp | 1 +
 Solvers/LRTRSR1.cpp    | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 7f2125b..32224a6 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -27,6 +27,7 @@ namespace ROPTLIB{
         bool etaxiscomplex = etax.Getiscomplex();
         etax.Setiscomplex(false);
         Vector etaxreshape = etax; etaxreshape.Reshape(etax.Getlength());
+        result->Setiscomplex(false);
         result->AlphaABaddBetaThis(1, Hx, GLOBAL::N, etaxreshape, GLOBAL::N, 0);
         etax.Setiscomplex(etaxiscomplex);
         result->Setiscomplex(etaxiscomplex);
diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index ef2c5f6..345cd2f 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -72,6 +72,9 @@ namespace ROPTLIB{
 
 	void LRTRSR1::Run(void)
 	{
+        /*tCG_TR represents the pairs by an orthonormal basis, so there can not be more pairs than the length of a tangent vector*/
+        if (LengthSY > Prob->GetDomain()->GetEMPTY().Getlength())
+            LengthSY = Prob->GetDomain()->GetEMPTY().Getlength();
 		DeleteVectors(S, LengthSY);
 		NewVectors(S, LengthSY);
 		DeleteVectors(Y, LengthSY);
@@ -262,10 +265,10 @@ namespace ROPTLIB{
                     ComputeSBySMW(gamma + sigmaStar, Psig, Psi.Field("_R"), PMGQ, Psi); /*gf1, Psig, YMGS, PMGQ, RT*/
                 tCGstatusSM = TRSM_EXCREGION;
             }
-        Mani->Projection(x1, eta2, &eta2);
         /*recover the types of data*/
         gf1.Setiscomplex(gf1iscomplex);
         eta2.Setiscomplex(gf1iscomplex);
+        Mani->Projection(x1, eta2, &eta2);
     };
 
 	void LRTRSR1::ComputeSBySMW(realdp tauStar, const Vector &Psig, const Vector &R, const Vector &PMGQ, const Vector &Psi)
-- 
2.43.0


From f2f2c7294782c4c40c9b00ac0286f63004789937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 03/62] fix: subgradient solvers abort when tangent vectors are
 matrices

SphereConvexHull assumed that tangent vectors have a single column.
---
 Problems/SphereConvexHull.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Problems/SphereConvexHull.cpp b/Problems/SphereConvexHull.cpp
index 9891061..27c8570 100644
--- a/Problems/SphereConvexHull.cpp
+++ b/Problems/SphereConvexHull.cpp
@@ -24,7 +24,7 @@ namespace ROPTLIB{
         Vector xsq = x.GetHadamardProduct(x);
         const realdp *xsqPtr = xsq.ObtainReadData();
         
-        Vector Wxsq(W[0].Getrow()), PWxsq(W[0].Getrow());
+        Vector Wxsq(W[0]), PWxsq(W[0]); /*the tangent vectors may be matrices*/
         Wxsq.SetToZeros();
         for(integer i = 0; i < lengthW; i++)
         {
@@ -68,7 +68,7 @@ namespace ROPTLIB{
         }
         Vector xeta = x.GetHadamardProduct(etax);
         const realdp *xetaptr = xeta.ObtainReadData();
-        Vector Wxeta(W[0].Getrow()), PWxeta(W[0].Getrow());
+        Vector Wxeta(W[0]), PWxeta(W[0]);
         Wxeta.SetToZeros();
         for(integer i = 0; i < lengthW; i++)
         {
-- 
2.43.0


From 8c018f1a36a7cafe0859fc3139c85ab13a030c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 04/62] fix: reported times and TimeBound break when the wall
 clock is stepped

getTickCount() returned the wall clock, so an adjustment of the system time
during a run made elapsed times negative (wrapping around to huge values) and
triggered or disabled TimeBound. Use the monotonic clock on Linux.
---
 Others/Timer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Others/Timer.cpp b/Others/Timer.cpp
index c4a09ee..2cdbc92 100644
--- a/Others/Timer.cpp
+++ b/Others/Timer.cpp
@@ -28,9 +28,10 @@ namespace ROPTLIB{
 		currentTime = current.tv_sec * 1000000 + current.tv_usec;
 #endif
 #elif __linux
-		struct timeval current;
-		gettimeofday(&current, NULL);
-		currentTime = current.tv_sec * 1000000 + current.tv_usec;
+		/*Elapsed times are differences of ticks, so use a clock that is not affected by adjustments of the system time.*/
+		struct timespec current;
+		clock_gettime(CLOCK_MONOTONIC, &current);
+		currentTime = current.tv_sec * 1000000 + current.tv_nsec / 1000;
 #endif
 
 		return currentTime;
-- 
2.43.0


From 27b84209c8048cd7c064b960bf1afe914ec9bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 05/62] fix: TimeBound and reported times of a solver are reset
 by other solvers

starttime was one global shared by all solvers, so any solver running inside a
callback, interleaved with another one, or as the inner subproblem of the
subgradient methods (MinPNormConHull) restarted the clock of the outer run.
Make it a member of each solver.
---
 Problems/Problem.h  | 1 -
 Solvers/Solvers.cpp | 2 +-
 Solvers/Solvers.h   | 2 +-
 3 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/Problems/Problem.h b/Problems/Problem.h
index e721254..4fb9074 100644
--- a/Problems/Problem.h
+++ b/Problems/Problem.h
@@ -23,7 +23,6 @@ namespace ROPTLIB{
     class Problem;
 
     extern Vector MinMaxEigValHessian(Variable *X, Manifold *Domain, const Problem *Prob);
-    extern unsigned long starttime;    /*the start time of running the algorithm*/
 
 	class Problem{
 	public:
diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index 0c8d7e3..1378f36 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -4,7 +4,6 @@
 /*Define the namespace*/
 namespace ROPTLIB{
 
-    unsigned long starttime = 0;
 	void Solvers::CheckParams(void)
 	{
 		std::string VERBOSEnames[VERBOSELENGTH] = { "NOOUTPUT", "FINALRESULT", "ITERRESULT", "DETAILED" };
@@ -53,6 +52,7 @@ namespace ROPTLIB{
     void Solvers::SetDefaultParams(void)
     {
         nf = 0; ng = 0; nV = 0; nVp = 0; nR = 0; nH = 0; lengthSeries = 0;
+        starttime = 0;
         StopPtr = nullptr;
 
         TimeBound = 60 * 60 * 24 * 365; /*one year; */
diff --git a/Solvers/Solvers.h b/Solvers/Solvers.h
index 10a6997..bd48d76 100644
--- a/Solvers/Solvers.h
+++ b/Solvers/Solvers.h
@@ -29,7 +29,6 @@ namespace ROPTLIB{
 	The details of output information can be found in Appendix B of the User Manual.
 	*/
 	enum VERBOSEINFO{ NOOUTPUT, FINALRESULT, ITERRESULT, DETAILED, VERBOSELENGTH };
-    extern unsigned long starttime;    /*the start time of running the algorithm*/
 
 	class Solvers{
 	public:
@@ -157,6 +156,7 @@ namespace ROPTLIB{
 
 		/* For debug information */
 		integer iter; /*number of iterations*/
+		unsigned long starttime;	/*the start time of running the algorithm*/
 		realdp ComTime;	/*the computational time*/
 		integer nf, ng, nR, nV, nVp, nH; /*number of function evaluations
 										 number of gradient evaluations
-- 
2.43.0


From 4b04ad4b03982eeeeafb87d464a7b48527b2a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 06/62] fix: Wolfe line search never ends when a trial cost is
 nan

The interpolated step became nan, after which no comparison could end the
loop.
---
 Solvers/SolversSMLS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index e73b786..d6f528c 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -772,7 +772,7 @@ namespace ROPTLIB{
 				LSstatus = LSSM_SUCCESS;
 				return;
 			}
-			if (stepsize <= Minstepsize)
+			if (!(stepsize > Minstepsize))
 			{
 				stepsize = Minstepsize;
 				f2 = h();
@@ -802,7 +802,8 @@ namespace ROPTLIB{
 				}
 				prestepsize = stepsize;
 				f2pre = f2;
-				stepsize = (steptemp <= static_cast<realdp> (1e-2) * stepsize) ? static_cast<realdp> (1e-2) * stepsize : steptemp;
+				/*the negated comparison also covers the case that steptemp is nan, e.g., when f2 is nan or inf*/
+				stepsize = !(steptemp > static_cast<realdp> (1e-2) * stepsize) ? static_cast<realdp> (1e-2) * stepsize : steptemp;
 			}
 		}
 	};
-- 
2.43.0


From dc7f29c34bcab4e15a16ab228f1ff8e85d66f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 07/62] fix: subgradient solvers can loop for ever

ndir1 was stale (or uninitialised) when GetSearchDir stopped early; the loop
never ended when Eps could not shrink further; a nan cost or an exhausted
interval kept the line search running; TimeBound was ignored while Eps was
above Min_Eps.
---
 Solvers/SolversNSMSubLS.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 808097d..d7810f6 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -45,8 +45,14 @@ namespace ROPTLIB{
 			/*Call the function to check whether the stopping criterion is satisfied or not.
 			The default function is written in Solvers.h and Solvers.cpp*/
 			isstop = IsStopped();
+			/*the time limit applies no matter how large Eps is*/
+			if (iter >= Min_Iteration && static_cast<realdp>(getTickCount() - starttime) / CLK_PS > TimeBound)
+				break;
 			if (fabs(ndir1) <= Del || fabs(ndir1) <= Tolerance)
 			{
+				/*Eps can not be reduced any further and no descent direction longer than Tolerance exists.*/
+				if (Eps <= Min_Eps && fabs(ndir1) <= Tolerance)
+					break;
 				Eps *= Theta_eps;
 				Eps = (Eps > Min_Eps) ? Eps : Min_Eps;
 				if (Eps > Min_Eps)
@@ -81,6 +87,11 @@ namespace ROPTLIB{
                 printf("Linesearch fails! LSstatus:%s\n", LSstatusSetnames[LSstatus].c_str());
             }
 
+			if (std::isnan(f2) || std::isinf(f2)) /*Stop when got a nan or inf*/
+			{
+				printf("New function value is either nan or inf. Stop!\n");
+				break;
+			}
 			iter++;
 
 			/*Update some data, such as Hessian approximation in quasi-Newton methods, etc*/
@@ -251,6 +262,7 @@ namespace ROPTLIB{
 			}
 			if (nminPv <= Del)
 			{
+				ndir1 = nminPv; /*the search is terminated by the size of minPv, see the Run function*/
 				return;
 			}
             /*end the stopping criterion*/
@@ -357,7 +369,7 @@ namespace ROPTLIB{
         {
             stepsize = (a + b) / 2;
 
-            if (stepsize < Minstepsize)
+            if (stepsize < Minstepsize || stepsize <= a || stepsize >= b) /*too small or no number left between a and b*/
             {
                 if (Verbose > FINALRESULT)
                 {
-- 
2.43.0


From d7004fb92b95be22c67fdd28ef659b2e54f995bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 08/62] fix: failed Wolfe and strong Wolfe searches return an
 inconsistent point

On failure Zoom returned a trial point that violates the decrease condition and
whose gradient had never been evaluated (gf2 belonged to another point or was
empty); Wolfe did the same when the step limit was reached. Return the best
step that has been found.
---
 Solvers/SolversSMLS.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index d6f528c..f5ceab4 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -530,6 +530,10 @@ namespace ROPTLIB{
 			times++;
 			if (times >= 10)
 			{
+				/*use the best step size that has been found, such that x2, f2 and gf2 belong to each other*/
+				stepsize = xlo;
+				f2 = h();
+				newslope = dh();
 				LSstatus = LSSM_LSERROR;
 				return;
 			}
@@ -557,6 +561,9 @@ namespace ROPTLIB{
 			}
 			if (stepsize <= Minstepsize)
 			{
+				stepsize = xlo;
+				f2 = h();
+				newslope = dh();
 				LSstatus = LSSM_MINSTEPSIZE;
 				return;
 			}
@@ -714,7 +721,7 @@ namespace ROPTLIB{
 						if (times > 10)
 							break;
 					}
-					if (stepsize >= Maxstepsize)
+					if (stepsize >= Maxstepsize && f2 <= f1 + LS_alpha * stepsize * initialslope)
 					{
 						Prob->Grad(x2, &gf2); ng++;
 						LSstatus = LSSM_MAXSTEPSIZE;
@@ -762,6 +769,7 @@ namespace ROPTLIB{
 						}
 						if (newslope < LS_beta * initialslope)
 						{
+							stepsize = stepsizelo; /*the largest step size known to satisfy the Armijo condition*/
 							f2 = h();
 							newslope = dh();
 							LSstatus = LSSM_NOCURVATURE;
-- 
2.43.0


From cbe897684a4db56886e2b651d367f47c67c30ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 09/62] fix: running a solver object a second time crashes or
 mixes two runs

LRBFGS, LRTRSR1 and LRBFGSSub kept the length of a memory whose vectors had been
replaced by empty ones; counters accumulated; the first stopping test looked at
a trial point of the previous run; BB step sizes of the previous run were used.
---
 Solvers/LRBFGS.cpp      | 4 ++++
 Solvers/LRBFGSSub.cpp   | 4 ++++
 Solvers/LRTRSR1.cpp     | 4 ++++
 Solvers/Solvers.cpp     | 3 +++
 Solvers/SolversSMLS.cpp | 1 +
 5 files changed, 16 insertions(+)

diff --git a/Solvers/LRBFGS.cpp b/Solvers/LRBFGS.cpp
index 1782b5c..a7f25c5 100644
--- a/Solvers/LRBFGS.cpp
+++ b/Solvers/LRBFGS.cpp
@@ -87,6 +87,10 @@ namespace ROPTLIB{
 		if (RHO != nullptr)
 			delete[] RHO;
 		RHO = new realdp[LengthSY];
+		/*the stored pairs have been deleted, start with an empty memory*/
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
 		SolversSMLS::Run();
 	};
 
diff --git a/Solvers/LRBFGSSub.cpp b/Solvers/LRBFGSSub.cpp
index 8c70bac..614ac23 100644
--- a/Solvers/LRBFGSSub.cpp
+++ b/Solvers/LRBFGSSub.cpp
@@ -13,6 +13,10 @@ namespace ROPTLIB{
         if (RHO != nullptr)
             delete[] RHO;
         RHO = new realdp[LengthSY];
+        /*the stored pairs have been deleted, start with an empty memory*/
+        Currentlength = 0;
+        beginidx = 0;
+        gamma = 1;
         SolversNSMSubLS::Run();
 	};
 
diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 345cd2f..fc614c3 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -88,6 +88,10 @@ namespace ROPTLIB{
 		if (SY != nullptr)
 			delete[] SY;
 		SY = new realdp[LengthSY * LengthSY];
+		/*the stored pairs have been deleted, start with an empty memory*/
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
 		SolversSMTR::Run();
 	};
 
diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index 1378f36..c31be6f 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -33,6 +33,9 @@ namespace ROPTLIB{
 		mexCallMATLAB(0, lhs, 1, rhs, "feval");
 #endif
 		starttime = getTickCount();
+		/*The statistics belong to this run, and x2 may be a trial point of the previous run.*/
+		nf = 0; ng = 0; nV = 0; nVp = 0; nR = 0; nH = 0; lengthSeries = 0;
+		x2 = x1;
 		if (Verbose >= ITERRESULT)
 		{
             timeSeries = Vector(1 + Max_Iteration);
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index f5ceab4..ff96fdb 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -10,6 +10,7 @@ namespace ROPTLIB{
         Variable xTemp(x1);
         Vector gfTemp = Prob->GetDomain()->GetEMPTY();
 		pre_funs.clear();
+		pre_BBs.clear();
 
 		SolversSM::Run();
 
-- 
2.43.0


From 67d5c8d3f4ca194711a9742cd168635380fdf2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 10/62] fix: trust-region solvers report rejected candidates
 and ignore TimeBound on rejections

The series stored the cost of rejected candidates as if they were iterates, and
a sequence of rejected candidates was not stopped by TimeBound.
---
 Solvers/SolversSMTR.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 47f9f72..4196c25 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -97,6 +97,9 @@ namespace ROPTLIB{
 			}
 			else
 			{
+				/*the iterate is unchanged, only the time limit can be reached*/
+				if (static_cast<realdp>(getTickCount() - starttime) / CLK_PS > TimeBound)
+					isstop = true;
 				iter++;
 				if (Verbose >= ITERRESULT && iter % OutputGap == 0)
 				{
@@ -108,8 +111,9 @@ namespace ROPTLIB{
 			if (Verbose >= ITERRESULT)
 			{
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-				funSeriesptr[iter] = f2;
-                gradSeriesptr[iter] = ngf2;
+				/*f1 and ngf1 belong to the current iterate, also when the candidate was rejected*/
+				funSeriesptr[iter] = f1;
+                gradSeriesptr[iter] = ngf1;
 			}
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-- 
2.43.0


From 70a7deacc542c1418ff26089080e9f06b2303be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 11/62] fix: AManPG returns nan and does not count half of its
 evaluations

A nan or inf cost at the accelerated iterates was accepted as the final cost, and
their cost, gradient and retraction evaluations were missing in the statistics.
---
 Solvers/AManPG.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 93045c1..e1bb087 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -194,8 +194,14 @@ namespace ROPTLIB{
                     s1 = 1;
                 }
                 /*update the safeguard iterate*/
+                fz1 = Prob->f(z1); nf++;
+                if (std::isnan(fz1) || std::isinf(fz1)) /*Stop when got a nan or inf*/
+                {
+                    printf("New function value is either nan or inf. Stop!\n");
+                    break;
+                }
                 x1 = z1;
-                f1 = Prob->f(x1); nf++;
+                f1 = fz1;
                 Prob->Grad(x1, &gf1); ng++;
             }
 
@@ -203,16 +209,21 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            Mani->Retraction(y1, eta1, &z2);
-            fz2 = Prob->f(z2);
+            Mani->Retraction(y1, eta1, &z2); nR++;
+            fz2 = Prob->f(z2); nf++;
             s2 = (1.0 + std::sqrt(1.0 + 4.0 * s1 * s1)) / 2.0;
             Vector zeta(gf1); Mani->InvRetraction(z2, z1, &zeta);
             Mani->ScalarTimesVector(z2, -(s1 - 1) / s2, zeta, &zeta);
             
-            Mani->Retraction(z2, zeta, &y2);
+            Mani->Retraction(z2, zeta, &y2); nR++;
             
-            fy2 = Prob->f(y2);
-            Prob->Grad(y2, &gfy2);
+            fy2 = Prob->f(y2); nf++;
+            Prob->Grad(y2, &gfy2); ng++;
+            if (std::isnan(fz2) || std::isinf(fz2) || std::isnan(fy2) || std::isinf(fy2)) /*Stop when got a nan or inf*/
+            {
+                printf("New function value is either nan or inf. Stop!\n");
+                break;
+            }
             
             /*Call the function to check whether the stopping criterion is satisfied or not.
             The default function is written in Solvers.h and Solvers.cpp*/
-- 
2.43.0


From 04bfb03b25a929ceaa4ddcd697288f3d9c84aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 12/62] fix: householder vector transport gives nan if one of
 the reflectors is zero

---
 Manifolds/Manifold.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 32224a6..a310155 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -710,13 +710,17 @@ namespace ROPTLIB{
         }
         Vector TRetaVector = etax.Field("betaTReta");
         HasHHR = false; VectorTransport(x, etax, y, etax, &eps1); HasHHR = true;
-        ScalarTimesVector(y, sqrt(Metric(x, etax, etax) / Metric(y, eps1, eps1)), eps1, &eps1); /*note \|etax\|_x = \|TRetaVector\|_y*/
+        realdp eps1eps1 = Metric(y, eps1, eps1);
+        if (eps1eps1 > 0)
+            ScalarTimesVector(y, sqrt(Metric(x, etax, etax) / eps1eps1), eps1, &eps1); /*note \|etax\|_x = \|TRetaVector\|_y*/
         Element tau1tau2(2);
         realdp *tau1tau2ptr = tau1tau2.ObtainWriteEntireData();
         ScalarTimesVector(y, 2.0, eps1, &nu1);
         VectorLinearCombination(y, -1.0, eps1, -1.0, TRetaVector, &nu2);
-        tau1tau2ptr[0] = static_cast<realdp> (2) / Metric(y, nu1, nu1);
-        tau1tau2ptr[1] = static_cast<realdp> (2) / Metric(y, nu2, nu2);
+        realdp nu1nu1 = Metric(y, nu1, nu1), nu2nu2 = Metric(y, nu2, nu2);
+        /*the reflector of a zero vector is the identity*/
+        tau1tau2ptr[0] = (nu1nu1 > 0) ? static_cast<realdp> (2) / nu1nu1 : 0;
+        tau1tau2ptr[1] = (nu2nu2 > 0) ? static_cast<realdp> (2) / nu2nu2 : 0;
         
         etax.AddToFields("tau1tau2", tau1tau2);
         etax.AddToFields("nu1", nu1);
@@ -730,7 +734,9 @@ namespace ROPTLIB{
             Obtainnu1nu2forLC(x, etax, y);
         }
         HasHHR = false; VectorTransport(x, etax, y, xix, result); HasHHR = true;
-        ScalarTimesVector(y, sqrt(Metric(x, xix, xix) / Metric(y, *result, *result)), *result, result);
+        realdp normresult2 = Metric(y, *result, *result);
+        if (normresult2 > 0)
+            ScalarTimesVector(y, sqrt(Metric(x, xix, xix) / normresult2), *result, result);
         
         Element tau1tau2 = etax.Field("tau1tau2");
         const realdp *tau1tau2ptr = tau1tau2.ObtainReadData();
-- 
2.43.0


From cfb39295202ad153ab3560879dd6c30dbd802664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 13/62] fix: exponential retraction on the sphere gives nan for
 a zero tangent vector

---
 Manifolds/Sphere.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index 49a2ae2..da4bcd4 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -58,7 +58,8 @@ namespace ROPTLIB{
 	Variable &Sphere::ExpRetraction(const Variable &x, const Vector &etax, Variable *result) const
 	{
 		realdp normetax = sqrt(Metric(x, etax, etax));
-		VectorLinearCombination(x, cos(normetax), x, sin(normetax) / normetax, etax, result);
+		realdp sincnormetax = (normetax == 0) ? 1 : sin(normetax) / normetax;
+		VectorLinearCombination(x, cos(normetax), x, sincnormetax, etax, result);
 		realdp normresult = sqrt(Metric(x, *result, *result));
 		return ScalarTimesVector(x, static_cast<realdp> (1) / normresult, *result, result);
 	};
@@ -68,6 +69,8 @@ namespace ROPTLIB{
 		realdp xiytx = Metric(x, x, xiy);
 		realdp xiytetax = Metric(x, xiy, etax);
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax == 0) /*the differential of the retraction is the identity*/
+			return Projection(x, xiy, result);
 		realdp sinnormetax = sin(normetax);
 		realdp cosnormetax = cos(normetax);
 		VectorLinearCombination(x, sinnormetax / normetax, xiy, (xiytetax * cosnormetax / normetax
@@ -80,8 +83,15 @@ namespace ROPTLIB{
 		realdp etaxtxix = Metric(x, etax, xix);
 		realdp normetax = sqrt(Metric(x, etax, etax));
 		realdp sinnormetax = sin(normetax);
-        VectorLinearCombination(x, -sinnormetax * etaxtxix / normetax, x, sinnormetax / normetax, xix, result);
-        ScalarVectorAddVector(x, (cos(normetax) - sinnormetax / normetax) * etaxtxix / normetax / normetax, etax, *result, result);
+        if (normetax == 0) /*the differential of the retraction is the identity*/
+        {
+            *result = xix;
+        }
+        else
+        {
+            VectorLinearCombination(x, -sinnormetax * etaxtxix / normetax, x, sinnormetax / normetax, xix, result);
+            ScalarVectorAddVector(x, (cos(normetax) - sinnormetax / normetax) * etaxtxix / normetax / normetax, etax, *result, result);
+        }
         
 
         if (IsEtaXiSameDir && HasHHR)
-- 
2.43.0


From 2a56d55488016ae58ed0e1b51a97ae77c00b85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 14/62] fix: LRTRSR1 subproblem: use after free, wrong
 direction in the hard case, nan from rounding

---
 Solvers/LRTRSR1.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index fc614c3..1d8caae 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -165,7 +165,7 @@ namespace ROPTLIB{
                 lambda_min = Lambdaptr[i];
         realdp a_kp2 = std::sqrt(Mani->Metric(x1, gf1, gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel)));
         
-        if (a_kp2 * a_kp2 < tolLocalNewton)
+        if (std::isnan(a_kp2) || a_kp2 * a_kp2 < tolLocalNewton) /*nan: the square is negative by rounding errors*/
             a_kp2 = 0;
         
         Vector a_j(k + 1);
@@ -218,28 +218,34 @@ namespace ROPTLIB{
 
                 if (lambda_min < 0)
                 {
-                    realdp alpha = sqrt(Delta * Delta - dot_(&n, pStar, &GLOBAL::IONE, pStar, &GLOBAL::IONE));
+                    realdp alpha2 = Delta * Delta - eta2.DotProduct(eta2); /*eta2 may have been given new memory, pStar is not used*/
+                    realdp alpha = (alpha2 > 0) ? sqrt(alpha2) : 0;
 
                     Vector zstar(n);
-                    if (fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
-                    {
-                        zstar = (alpha / std::sqrt(P_parallel.DotProduct(P_parallel))) * P_parallel;
+                    realdp norm_umin = 0;
+                    if (k > 0 && fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
+                    {/*the first column of P_parallel is an eigenvector of the smallest eigenvalue*/
+                        zstar = P_parallel.GetSubmatrix(0, n - 1, 0, 0);
+                        norm_umin = std::sqrt(zstar.DotProduct(zstar));
                     }
                     else
-                    {
-                        realdp norm_umin = 1;
-                        for (integer i = 0; i < k; i++)
+                    {/*a vector in the orthogonal complement of the columns of P_parallel: (I - P_parallel P_parallel^T) e_i*/
+                        for (integer i = 0; i < n && i <= k; i++)
                         {
-                            Vector subM = P_parallel.GetSubmatrix(i, i, 0, k - 1);
-                            zstar.AlphaABaddBetaThis(1, P_parallel, GLOBAL::N, subM, GLOBAL::T, 0); /*zstar = P_parallel * P_parallel.GetSubmatrix(i, i, 0, k - 1).GetTranspose();*/
+                            zstar.SetToZeros();
+                            if (k > 0)
+                            {
+                                Vector subM = P_parallel.GetSubmatrix(i, i, 0, k - 1);
+                                zstar.AlphaABaddBetaThis(-1, P_parallel, GLOBAL::N, subM, GLOBAL::T, 0);
+                            }
                             realdp *zstarptr = zstar.ObtainWritePartialData();
                             zstarptr[i] += 1;
                             norm_umin = std::sqrt(zstar.DotProduct(zstar));
                             if (norm_umin > tolLocalNewton)
                                 break;
                         }
-                        zstar = (alpha / norm_umin) * zstar;
                     }
+                    zstar.ScalarTimesThis(alpha / norm_umin);
                     eta2 = zstar + eta2;
                 }
                 tCGstatusSM = TRSM_NEGCURVTURE;
@@ -419,7 +425,7 @@ namespace ROPTLIB{
 		integer k = 0;
 		realdp gf = 0;
 		realdp fv = PhiBar_fg(x0, Delta, Lambda, a_j, &gf);
-		while (fabs(fv) > std::numeric_limits<realdp>::epsilon() && k < maxIter)
+		while (fabs(fv) > std::numeric_limits<realdp>::epsilon() && ! std::isinf(fv) && k < maxIter) /*fv is inf if all the a_j are negligible*/
 		{
 			x0 -= fv / gf;
 			fv = PhiBar_fg(x0, Delta, Lambda, a_j, &gf);
-- 
2.43.0


From a78dda23cf5e0620aa139e4be3ed3b66189ed033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 15/62] fix: zero gradient makes search directions and initial
 step sizes nan

---
 Solvers/RNewton.cpp     | 2 +-
 Solvers/SolversSMLS.cpp | 8 +++++++-
 Solvers/SolversSMTR.cpp | 7 ++++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 31b7b63..aba31ac 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -149,7 +149,7 @@ namespace ROPTLIB{
 
 			tempnum = pow(norm_r0, theta);
 
-			if (j >= Min_Inner_Iter && norm_r <= norm_r0 * ((tempnum < kappa) ? tempnum : kappa))
+			if ((j >= Min_Inner_Iter || norm_r == 0) && norm_r <= norm_r0 * ((tempnum < kappa) ? tempnum : kappa))
 			{
 				if (kappa < tempnum)
 					tCGLSSMstatus = LSSM_LCON; /* linear convergence*/
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index ff96fdb..2cf2361 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -47,6 +47,11 @@ namespace ROPTLIB{
 		/*Start the loop*/
 		while ((((! isstop) && iter < Max_Iteration) || iter < Min_Iteration) && LSstatus == LSSM_SUCCESS)
 		{
+			if (ngf1 == 0) /*x1 is a critical point, there is no search direction*/
+			{
+				printf("The gradient is zero. Stop!\n");
+				break;
+			}
 			GetSearchDir(); /* Obtain search direction eta1 */
 			initialslope = Mani->Metric(x1, gf1, eta1);
 			/*Compute initial step size for the next iteration*/
@@ -301,7 +306,8 @@ namespace ROPTLIB{
 			};
 			/*Safeguard for the initial stepsize*/
             stepsize = (stepsize < quadintstepsize / 100) ? quadintstepsize : stepsize;
-			stepsize = (stepsize < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : stepsize;
+			/*the formulas above give nan or inf if x1 and x2 or their gradients coincide*/
+			stepsize = (stepsize >= std::numeric_limits<realdp>::epsilon() && ! std::isinf(stepsize)) ? stepsize : Initstepsize / ngf1;
 		}
 	};
 
diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 4196c25..00dd1b1 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -35,6 +35,11 @@ namespace ROPTLIB{
 		bool isstop = IsStopped();
 		while (((!isstop) && iter < Max_Iteration) || iter < Min_Iteration)
 		{
+			if (ngf1 == 0) /*x1 is a critical point, there is nothing left to do*/
+			{
+				printf("The gradient is zero. Stop!\n");
+				break;
+			}
 			InitialVector(); /* Obtain initial guess, eta1, for local model */
 			tCG_TR(); /* obtain eta2 */
 			Mani->Retraction(x1, eta2, &x2);	nR++;
@@ -224,7 +229,7 @@ namespace ROPTLIB{
 
 			tempnum = pow(norm_r0, theta);
 
-			if (j >= Min_Inner_Iter && norm_r <= norm_r0 * ((tempnum < kappa) ? tempnum : kappa))
+			if ((j >= Min_Inner_Iter || norm_r == 0) && norm_r <= norm_r0 * ((tempnum < kappa) ? tempnum : kappa))
 			{
 				if (kappa < tempnum)
 					tCGstatusSM = TRSM_LCON; /* linear convergence*/
-- 
2.43.0


From b5f1983d196226420b7624138e08f42dec3abaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 16/62] fix: exact line search goes on with a nan function
 value and accepts a worse point

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 2cf2361..bcb7a57 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -428,7 +428,7 @@ namespace ROPTLIB{
 				}
 			}
 
-			if (LSstatus == LSSM_NONEXACT)
+			if (LSstatus == LSSM_NONEXACT || std::isnan(sf2)) /*a nan is reported to the main loop*/
 				break;
             
 			s = t * dir;
-- 
2.43.0


From 433136a733cc7e452bcc82ecbbe716346f06b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 17/62] fix: failed line search moves to a trial point that is
 worse than the current iterate

---
 Solvers/SolversSMLS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index bcb7a57..b331d80 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -102,6 +102,10 @@ namespace ROPTLIB{
 				printf("Linesearch fails! LSstatus:%s\n", LSstatusSetnames[LSstatus].c_str());
 			}
 
+			if (LSstatus < LSSM_SUCCESS && f2 > f1) /*The last trial point is worse than the current iterate*/
+			{
+				break;
+			}
 			if (std::isnan(f2) || std::isinf(f2)) /*Stop when got a nan or inf*/
 			{
 				printf("New function value is either nan or inf. Stop!\n");
-- 
2.43.0


From 312896533943220222b837f3fb7792844ce6db14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 18/62] fix: LRTRSR1 divides by zero if the stored pairs span
 the whole tangent space

---
 Solvers/LRTRSR1.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 1d8caae..0a05d45 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -245,6 +245,11 @@ namespace ROPTLIB{
                                 break;
                         }
                     }
+                    if (k > 0 && norm_umin <= tolLocalNewton)
+                    {/*the columns of P_parallel span the whole space*/
+                        zstar = P_parallel.GetSubmatrix(0, n - 1, 0, 0);
+                        norm_umin = std::sqrt(zstar.DotProduct(zstar));
+                    }
                     zstar.ScalarTimesThis(alpha / norm_umin);
                     eta2 = zstar + eta2;
                 }
-- 
2.43.0


From 2813ac00854c8b2da8632c7bc1aaf9beeff936e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 19/62] fix: Wolfe line search takes infinite steps if its
 model is degenerate

---
 Solvers/SolversSMLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index b331d80..85edb4b 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -757,6 +757,8 @@ namespace ROPTLIB{
 						{
 							stepsizeincr = -newslope * stepsizediff * stepsizediff / 2 / (fhi - (flo + newslope * stepsizediff));
 							stepsizeincr = (stepsizeincr < static_cast<realdp> (0.2) * stepsizediff) ? static_cast<realdp> (0.2) * stepsizediff : stepsizeincr;
+							/*the model above is not convex or degenerate, then use bisection*/
+							stepsizeincr = (stepsizeincr <= stepsizediff) ? stepsizeincr : static_cast<realdp> (0.5) * stepsizediff;
 							stepsize = stepsizelo + stepsizeincr;
 							f2 = h();
 							if (f2 > f1 + LS_alpha * stepsize * initialslope)
-- 
2.43.0


From 2002be9b5c216b8a9e658d174bba22a56c1feb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 20/62] fix: trust region methods accept a step that increases
 the cost if the model increases

---
 Solvers/SolversSMTR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 00dd1b1..e26684b 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -81,7 +81,7 @@ namespace ROPTLIB{
 					}
 				}
 			
-			if (rho > Acceptence_Rho ||
+			if ((rho > Acceptence_Rho && f2 <= f1) || /*rho is also positive if both the model and the function increase*/
 				(fabs(f1 - f2) / (fabs(f1) + 1) < sqeps && f2 < f1) ||
 				(ngf1 / (ngf0 + Tolerance) < Accuracy && (f2 < f1 || (tCGstatusSM == TRSM_MIN || tCGstatusSM == TRSM_LCON || tCGstatusSM == TRSM_SCON))) /*If accurate enough and the solution is in the trust region, then always accept the new iterate.*/
 				)
-- 
2.43.0


From 9dfb6331cdfe6f8e92c93b276e8402d350a27d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 21/62] fix: LRTRSR1 prints an uninitialised number of inner
 iterations

---
 Solvers/LRTRSR1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 0a05d45..26c4eb0 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -100,6 +100,7 @@ namespace ROPTLIB{
         /*note that if the manifold is a complex, then we still view it as a real manifold with real reparameterizations
         therefore, we first set the types of vectors to be real and then recover the types of them at the end of this function*/
         bool gf1iscomplex = gf1.Getiscomplex(); gf1.Setiscomplex(false);
+        innerIter = 0; /*the local model is solved without inner iterations*/
         
         integer n = gf1.Getlength(); /*number of rows*/
         integer k = Currentlength;    /*number of columns*/
-- 
2.43.0


From c18763ebacb3e9bf5748e73ff5297d457f2724d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 22/62] fix: LRTRSR1 calls gemm with an empty matrix if no
 pairs are stored and gamma is not positive

---
 Solvers/LRTRSR1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 26c4eb0..2315d0b 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -210,7 +210,10 @@ namespace ROPTLIB{
                     }
                 }
                 const realdp *P_parallelptr = P_parallel.ObtainReadData();
-                gemm_(GLOBAL::N, GLOBAL::N, &n, &GLOBAL::IONE, &k, &GLOBAL::DNONE, const_cast<realdp *> (P_parallelptr), &n, v, &k, &GLOBAL::DZERO, pStar, &n);
+                if (k > 0)
+                    gemm_(GLOBAL::N, GLOBAL::N, &n, &GLOBAL::IONE, &k, &GLOBAL::DNONE, const_cast<realdp *> (P_parallelptr), &n, v, &k, &GLOBAL::DZERO, pStar, &n);
+                else /*no pairs are stored*/
+                    eta2.SetToZeros();
                 delete[] v;
                 if (fabs(gamma + sigmaStar) > tolLocalNewton)
                 {
-- 
2.43.0


From 7488432ee8ee55d9fd9481ca5ad8644231c671c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 23/62] fix: line search methods search along ascent directions
 if the Hessian approximation is not positive definite

---
 Solvers/SolversSMLS.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 85edb4b..8b7b2fa 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -54,6 +54,11 @@ namespace ROPTLIB{
 			}
 			GetSearchDir(); /* Obtain search direction eta1 */
 			initialslope = Mani->Metric(x1, gf1, eta1);
+			if (! (initialslope < 0)) /*not a descent direction, e.g., the Hessian approximation is not positive definite*/
+			{
+				Mani->ScalarTimesVector(x1, -1, gf1, &eta1);
+				initialslope = - ngf1 * ngf1;
+			}
 			/*Compute initial step size for the next iteration*/
 			InitialStepSize();
 			initiallength = stepsize;
-- 
2.43.0


From 1b5b7b80429526480c726c7de7829f0e11ab4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 24/62] fix: LRTRSR1 takes infinite steps if the system of the
 local model is singular

---
 Solvers/LRTRSR1.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 2315d0b..d4f4bbf 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -319,6 +319,11 @@ namespace ROPTLIB{
             /*otherwise, use below eta2*/
             /* eta2 = Psi * (vw % Psig) + (static_cast<realdp> (-1) / tauStar) * gf1; */
             Vector tmp = vw % Psig;
+            if(! (tmp.Fnorm() <= std::numeric_limits<realdp>::max())) /*the LU factor of vw is singular, the solution is inf or nan*/
+            {
+                eta2 = gf1; eta2.ScalarTimesThis(static_cast<realdp> (-1) / tauStar);
+                return;
+            }
             eta2 = gf1;
             eta2.AlphaABaddBetaThis(1, Psi, GLOBAL::N, tmp, GLOBAL::N, static_cast<realdp> (-1) / tauStar);
             
-- 
2.43.0


From 0563d87eb76d6021f692117608d7240882b507ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 25/62] fix: LRTRSR1 uses a wrong starting point in the Newton
 iteration of its subproblem

---
 Solvers/LRTRSR1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index d4f4bbf..b10b195 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -270,8 +270,8 @@ namespace ROPTLIB{
                     realdp sigmaHat = 0;
                     for (integer i = 0; i < k + 1; i++)
                     {
-                        if (sigmaHat < a_jptr[i] / Delta - Lambdaptr[i])
-                            sigmaHat = a_jptr[i] / Delta - Lambdaptr[i];
+                        if (sigmaHat < fabs(a_jptr[i]) / Delta - Lambdaptr[i])
+                            sigmaHat = fabs(a_jptr[i]) / Delta - Lambdaptr[i];
                     }
                     if (sigmaHat > -lambda_min)
                         sigmaStar = LocalNewton(sigmaHat, 10, tolLocalNewton, Lambda, a_j);
-- 
2.43.0


From ef72f8ef8e604130ad47323a0aff39298d0763df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 26/62] fix: RTRSR1 and LRTRSR1 become nan if the gradients at
 two iterates coincide

---
 Solvers/LRTRSR1.cpp | 7 ++++---
 Solvers/RTRSR1.cpp  | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index b10b195..130cd0c 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -546,7 +546,8 @@ namespace ROPTLIB{
         {
             inpsy = Mani->Metric(x1, s, y);
             inpyy = Mani->Metric(x1, y, y);
-            gamma = inpyy / inpsy;
+            if (std::isfinite(inpyy / inpsy)) /*y may be zero or orthogonal to s*/
+                gamma = inpyy / inpsy;
             Mani->ScalarTimesVector(x1, gamma, s, &Heta2);
         }
         Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
@@ -555,12 +556,12 @@ namespace ROPTLIB{
         inpss = Mani->Metric(x1, s, s);
         inpsy = Mani->Metric(x1, s, y);
         
-        if (denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3)
+        if (denorminator != 0 && denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3)
             && (iter != 0 || fabs(gamma - inpsy / inpss) > mintol)) /* This is for the robustness when the cost
              function is quadratic and its Hessian is identity everywhere. */
         {
             inpyy = Mani->Metric(x1, y, y);
-            if(isupdated == true)
+            if(isupdated == true && std::isfinite(inpyy / inpsy))
                 gamma = inpyy / inpsy;
             
             if(LMrestart && Currentlength >= LengthSY)
diff --git a/Solvers/RTRSR1.cpp b/Solvers/RTRSR1.cpp
index d6b017f..28c959a 100644
--- a/Solvers/RTRSR1.cpp
+++ b/Solvers/RTRSR1.cpp
@@ -84,12 +84,12 @@ namespace ROPTLIB{
         Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
         denorminator = Mani->Metric(x1, s, zeta);
         
-        if (iter == 1)
+        if (iter == 1 && std::isfinite(Mani->Metric(x1, y, y) / Mani->Metric(x1, s, y))) /*y may be zero or orthogonal to s*/
             B.ScaledIdOPE(Mani->Metric(x1, y, y) / Mani->Metric(x1, s, y));
         
         inpss = Mani->Metric(x1, s, s);
         norm2ymBs = Mani->Metric(x1, zeta, zeta);
-        if (denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3))
+        if (denorminator != 0 && denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3))
         {
             Mani->HaddScaledRank1OPE(x1, B, static_cast<realdp> (1) / denorminator, zeta, zeta, &B);
             isupdated = true;
-- 
2.43.0


From f285480a5d568508893b18d6ba811cd1aeb2e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 27/62] fix: exact line search returns worse points after a
 trial point with cost -inf

---
 Solvers/SolversSMLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 8b7b2fa..aaf3005 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -472,6 +472,8 @@ namespace ROPTLIB{
 		{
 			LSstatus = LSSM_MAXSTEPSIZE;
 		}
+		if (sf2 > f1) /*the iterations above may end at a worse point, e.g., after a trial point with cost -inf*/
+			LSstatus = LSSM_NONEXACT;
 		f2 = sf2;
 		newslope = sgf2;
 	};
-- 
2.43.0


From bf7271838ba1e45ca7e4432f24ea6e46570a18c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 28/62] fix: Wolfe line search does not end if the square of
 the initial step size overflows

---
 Solvers/SolversSMLS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index aaf3005..acfc84a 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -830,8 +830,9 @@ namespace ROPTLIB{
 				}
 				prestepsize = stepsize;
 				f2pre = f2;
-				/*the negated comparison also covers the case that steptemp is nan, e.g., when f2 is nan or inf*/
-				stepsize = !(steptemp > static_cast<realdp> (1e-2) * stepsize) ? static_cast<realdp> (1e-2) * stepsize : steptemp;
+				/*the negated comparison also covers the case that steptemp is nan, e.g., when f2 is nan or inf,
+				and steptemp is inf if the initial step size is so large that its square overflows*/
+				stepsize = !(steptemp > static_cast<realdp> (1e-2) * stepsize && steptemp < stepsize) ? static_cast<realdp> (1e-2) * stepsize : steptemp;
 			}
 		}
 	};
-- 
2.43.0


From f168bba81dcdafbcf7a36999686c8994c493e0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 29/62] fix: differentiated polar retraction on Stiefel is nan
 for a zero direction

---
 Manifolds/Stiefel.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 6fbe5d5..b6fb48b 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -604,7 +604,21 @@ namespace ROPTLIB{
                 ObtainExtr(x, etax, &etaxtmp);
             else
                 etaxtmp = etax;
-			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
+			realdp netax2 = Metric(x, etax, etax);
+			if (netax2 == 0) /*e.g., a component of a product manifold does not move; alpha below would be 0/0*/
+			{
+				*result = xix;
+				if (HasHHR)
+				{
+					Vector beta(3);
+					realdp *betaptr = beta.ObtainWriteEntireData();
+					betaptr[0] = 1; betaptr[1] = 0; betaptr[2] = 0;
+					etax.AddToFields("beta", beta);
+					etax.AddToFields("betaTReta", *result);
+				}
+				return *result;
+			}
+			realdp alpha = sqrt(Metric(x, xix, xix) / netax2);
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
-- 
2.43.0


From bac8cb39dd9779e2cfc3b3cfd3dd762d4682dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 30/62] fix: SolversNSMPGLS::SetParams truncated LS_ratio,
 LS_alpha and Minstepsize to integers

---
 Solvers/SolversNSMPGLS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index cf6e767..e8fddf0 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -115,17 +115,17 @@ namespace ROPTLIB{
             else
             if (iter->first == static_cast<std::string> ("LS_ratio"))
             {
-                LS_ratio = static_cast<integer> (iter->second);
+                LS_ratio = static_cast<realdp> (iter->second);
             }
             else
             if (iter->first == static_cast<std::string> ("LS_alpha"))
             {
-                LS_alpha = static_cast<integer> (iter->second);
+                LS_alpha = static_cast<realdp> (iter->second);
             }
             else
             if (iter->first == static_cast<std::string> ("Minstepsize"))
             {
-                Minstepsize = static_cast<integer> (iter->second);
+                Minstepsize = static_cast<realdp> (iter->second);
             }
         }
     };
-- 
2.43.0


From b147e3b92bb4bca7ea2424ba1240487402f8a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 31/62] fix: the last entry of the direction series of the
 subgradient solvers was uninitialised

---
 Solvers/SolversNSMSubLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index d7810f6..cafd8a5 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -106,7 +106,7 @@ namespace ROPTLIB{
 				}
 				/*Store debug information in the arrays*/
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-				funSeriesptr[iter] = f2; dirSeriesptr[iter - 1] = ndir1;
+				funSeriesptr[iter] = f2; dirSeriesptr[iter - 1] = ndir1; dirSeriesptr[iter] = ndir1; /*overwritten if another direction is computed*/
                 initialstepsizeptr[iter] = initiallength;
                 acceptedstepsizeptr[iter] = stepsize;
 			}
-- 
2.43.0


From 4627088e4733f1c0465ca40a4c0f73599a4c8150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 32/62] fix: RBroydenFamily printed an uninitialised
 coefficient when the first update was skipped

---
 Solvers/RBroydenFamily.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/RBroydenFamily.cpp b/Solvers/RBroydenFamily.cpp
index 95c03fe..461e616 100644
--- a/Solvers/RBroydenFamily.cpp
+++ b/Solvers/RBroydenFamily.cpp
@@ -161,6 +161,7 @@ namespace ROPTLIB{
         else
         {
             isupdated = false;
+            phic = 0;
         }
     };
 
-- 
2.43.0


From a01fbdbc8177a3858375778b9cf73fdbe04b25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 33/62] fix: LRBFGS leaked a work array when the preconditioner
 throws

---
 Solvers/LRBFGS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/LRBFGS.cpp b/Solvers/LRBFGS.cpp
index a7f25c5..2590420 100644
--- a/Solvers/LRBFGS.cpp
+++ b/Solvers/LRBFGS.cpp
@@ -1,5 +1,6 @@
 
 #include "Solvers/LRBFGS.h"
+#include <vector>
 
 /*Define the namespace*/
 namespace ROPTLIB{
@@ -148,7 +149,7 @@ namespace ROPTLIB{
 
     Vector &LRBFGS::HvLRBFGS(const Vector &v, Vector *result)
     {
-        realdp *xi = new realdp[Currentlength];
+        std::vector<realdp> xi(Currentlength); /*freed also when the preconditioner throws*/
         realdp omega;
         integer idx;
         *result = v;
@@ -167,7 +168,6 @@ namespace ROPTLIB{
             omega = RHO[idx] * Mani->Metric(x1, Y[idx], *result);
             Mani->ScalarVectorAddVector(x1, xi[idx] - omega, S[idx], *result, result);
         }
-        delete[] xi;
         return *result;
     };
 
-- 
2.43.0


From ddf1aa1832c5498a312ed4426137e8518267ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 34/62] fix: RNewton and RTRNewton lost the data for the
 Hessian when another solver was constructed on the same problem

---
 Solvers/RNewton.cpp   | 8 ++++++++
 Solvers/RNewton.h     | 3 +++
 Solvers/RTRNewton.cpp | 8 ++++++++
 Solvers/RTRNewton.h   | 3 +++
 4 files changed, 22 insertions(+)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index aba31ac..f9a0086 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -8,6 +8,14 @@ namespace ROPTLIB{
 		Initialization(prob, initialx);
 	};
 
+	void RNewton::Run(void)
+	{
+		/*other solvers may have been constructed with the same problem since this one was*/
+		Prob->SetUseGrad(true);
+		Prob->SetUseHess(true);
+		SolversSMLS::Run();
+	};
+
 	void RNewton::SetProbX(const Problem *prob, const Variable *initialx)
 	{
 		SolversSMLS::SetProbX(prob, initialx);
diff --git a/Solvers/RNewton.h b/Solvers/RNewton.h
index 93de9ed..992e07a 100644
--- a/Solvers/RNewton.h
+++ b/Solvers/RNewton.h
@@ -34,6 +34,9 @@ namespace ROPTLIB{
 		initialx is the initial iterate.*/
 		RNewton(const Problem *prob, const Variable *initialx);
 
+		/*Indicate that the action of the Hessian is needed (another solver of the same problem may have said otherwise), then run the algorithm.*/
+		virtual void Run(void);
+
 		/*Check whether the parameters about RNewton are legal or not.*/
 		virtual void CheckParams(void);
 
diff --git a/Solvers/RTRNewton.cpp b/Solvers/RTRNewton.cpp
index d76bf43..f58618b 100644
--- a/Solvers/RTRNewton.cpp
+++ b/Solvers/RTRNewton.cpp
@@ -9,6 +9,14 @@ namespace ROPTLIB{
 		Initialization(prob, initialx);
 	};
 
+	void RTRNewton::Run(void)
+	{
+		/*other solvers may have been constructed with the same problem since this one was*/
+		Prob->SetUseGrad(true);
+		Prob->SetUseHess(true);
+		SolversSMTR::Run();
+	};
+
 	void RTRNewton::SetProbX(const Problem *prob, const Variable *initialx)
 	{
 		SolversSMTR::SetProbX(prob, initialx);
diff --git a/Solvers/RTRNewton.h b/Solvers/RTRNewton.h
index d582c30..ede8d14 100644
--- a/Solvers/RTRNewton.h
+++ b/Solvers/RTRNewton.h
@@ -25,6 +25,9 @@ namespace ROPTLIB{
 		initialx is the initial iterate.*/
 		RTRNewton(const Problem *prob, const Variable *initialx);
 
+		/*Indicate that the action of the Hessian is needed (another solver of the same problem may have said otherwise), then run the algorithm.*/
+		virtual void Run(void);
+
 	protected:
         /*Call Solvers::SetProbX function; initialize temporary vectors; and indicate RTRNewton needs action of Hessian.
         INPUT:    prob is the problem which defines the cost function, gradient and possible the action of Hessian
-- 
2.43.0


From ddb23ad470cdafb973eb1e89852f47746332bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 35/62] fix: copies of components share memory that belongs to
 the product, and failed allocations break elements

Components of a product of elements had an interior pointer of the data of the
product together with a counter of their own, so a copy of a component dangled
as soon as the product was changed or deleted. Their data are now never shared.
Copying an element checks the shapes of the components, takes over the shape if
the data are already shared, copies from a field or a component of the target,
removes stale fields of components, allocates before it changes the target, and
reports bad_alloc instead of going on without memory. CopyOnWrite removes the
fields as documented.
---
 Manifolds/Element.cpp    | 408 +++++++++++++++------------------------
 Manifolds/Element.h      |  26 ++-
 Manifolds/Euclidean.cpp  |   5 +-
 Manifolds/FixedRankE.cpp |   5 +-
 Manifolds/SmartSpace.cpp | 152 ++++++---------
 Manifolds/SmartSpace.h   |  30 +--
 Manifolds/SphereTx.cpp   |   5 +-
 7 files changed, 248 insertions(+), 383 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 40d25ab..3d94bb5 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1,5 +1,7 @@
 
 #include "Manifolds/Element.h"
+#include <memory>
+#include <vector>
 
 /*Define the namespace*/
 namespace ROPTLIB{
@@ -2382,107 +2384,46 @@ namespace ROPTLIB{
     Element::Element(integer numberoftypes, Element *ElementsTypes, integer *inpowsinterval)
     {
         iscomplex = false;
-        numoftypes = numberoftypes;
-        powsinterval = new integer[numoftypes + 1];
-        for(integer i = 0; i <= numoftypes; i++)
-            powsinterval[i] = inpowsinterval[i];
+        numoftypes = 0; powsinterval = nullptr;
+        numofelements = 0; elements = nullptr;
         
-        Element **types = new Element *[numoftypes];
-        length = 0;
-        for(integer i = 0; i < numoftypes; i++)
-        {
+        std::vector<Element *> types(numberoftypes);
+        for(integer i = 0; i < numberoftypes; i++)
             types[i] = &ElementsTypes[i];
-            length += types[i]->Getlength() * (powsinterval[i + 1] - powsinterval[i]);
-        }
-
-        numofelements = powsinterval[numoftypes];
-        elements = new Element [numofelements];
-
-        ls = 3;
-        size = new integer[ls];
-        size[0] = length; size[1] = 1; size[2] = 1;
-        Space = nullptr;
-        sharedtimes = nullptr;
-        integer *isize = nullptr;
 
-        for (integer i = 0; i < numoftypes; i++)
-        {
-            isize = new integer[types[i]->Getls()];
-            for (integer j = 0; j < types[i]->Getls(); j++)
-            {
-                isize[j] = types[i]->Getsize()[j];
-            }
-
-            for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-            {
-                if(types[i]->GetSpace() != nullptr)
-                {
-                    printf("Warning: the types of element for creating a collection of multiple elements are not empty. This will cause memory leakage!\n");
-                }
-                elements[j] = *(types[i]);
-                delete[] elements[j].Getsize();
-                elements[j].SetByParams(isize, types[i]->Getls(), types[i]->Getlength(), nullptr, nullptr);
-                
-            }
-        }
-
-        delete[] types;
+        integer newlength = 0;
+        for(integer i = 0; i < numberoftypes; i++)
+            newlength += types[i]->Getlength() * (inpowsinterval[i + 1] - inpowsinterval[i]);
+        Initialization(3, newlength, 1, 1);
+        NewMultiElements(numberoftypes, types.data(), inpowsinterval);
     };
 
     Element::Element(integer numberoftypes, Element *FirstVar, integer Firstnum, ...)
     {
         iscomplex = false;
-        numoftypes = numberoftypes;
-        powsinterval = new integer[numoftypes + 1];
-
-        Element **types = new Element *[numoftypes];
+        numoftypes = 0; powsinterval = nullptr;
+        numofelements = 0; elements = nullptr;
+        
+        std::vector<Element *> types(numberoftypes);
+        std::vector<integer> inpowsinterval(numberoftypes + 1);
 
         va_list argptr;
         va_start(argptr, Firstnum);
-        powsinterval[0] = 0;
+        inpowsinterval[0] = 0;
         types[0] = FirstVar;
-        powsinterval[1] = Firstnum;
-        length = types[0]->Getlength() *Firstnum;
-        for (integer i = 1; i < numoftypes; i++)
+        inpowsinterval[1] = Firstnum;
+        for (integer i = 1; i < numberoftypes; i++)
         {
             types[i] = va_arg(argptr, Element *);
-            powsinterval[i + 1] = powsinterval[i] + va_arg(argptr, integer);
-            length += types[i]->Getlength() * (powsinterval[i + 1] - powsinterval[i]);
+            inpowsinterval[i + 1] = inpowsinterval[i] + va_arg(argptr, integer);
         }
         va_end(argptr);
 
-        numofelements = powsinterval[numoftypes];
-        elements = new Element [numofelements];
-
-        ls = 3;
-        size = new integer[ls];
-        size[0] = length; size[1] = 1; size[2] = 1;
-        Space = nullptr;
-        sharedtimes = nullptr;
-        integer *isize = nullptr;
-
-        for (integer i = 0; i < numoftypes; i++)
-        {
-            isize = new integer[types[i]->Getls()];
-            for (integer j = 0; j < types[i]->Getls(); j++)
-            {
-                isize[j] = types[i]->Getsize()[j];
-            }
-
-            for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-            {
-                if(types[i]->GetSpace() != nullptr)
-                {
-                    printf("Warning: the types of element for creating a collection of multiple elements are not empty. This will cause memory leakage!\n");
-                }
-                elements[j] = *(types[i]);
-                delete[] elements[j].Getsize();
-                elements[j].SetByParams(isize, types[i]->Getls(), types[i]->Getlength(), nullptr, nullptr);
-                
-            }
-        }
-
-        delete[] types;
+        integer newlength = 0;
+        for(integer i = 0; i < numberoftypes; i++)
+            newlength += types[i]->Getlength() * (inpowsinterval[i + 1] - inpowsinterval[i]);
+        Initialization(3, newlength, 1, 1);
+        NewMultiElements(numberoftypes, types.data(), inpowsinterval.data());
     };
 
     realdp Element::Fnorm(void) const
@@ -2586,49 +2527,60 @@ namespace ROPTLIB{
 
     void Element::CopyTo(Element &eta) const
     {
-        SmartSpace::CopyTo(eta);
-        eta.Setiscomplex(iscomplex);
-        eta.ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
+        if(this == &eta)
+            return;
+        
+        if(eta.Contains(*this)) /*"this" would be deleted or changed while eta is changed*/
+        {
+            Element Temp(*this);
+            Temp.CopyTo(eta);
+            return;
+        }
+        
+        std::vector<Element *> types(numoftypes);
         for(integer i = 0; i < numoftypes; i++)
+            types[i] = &elements[powsinterval[i]];
+        
+        if(eta.HaveSameElements(*this))
+            SmartSpace::CopyTo(eta);
+        else
         {
-            for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-            {
-                elements[j].CopyFieldsTo(eta.GetElement(j));
-            }
+            Element Temp; /*all memory is allocated before eta is changed*/
+            if(numoftypes > 0)
+                Temp.NewMultiElements(numoftypes, types.data(), powsinterval);
+            SmartSpace::CopyTo(eta);
+            std::swap(eta.numoftypes, Temp.numoftypes); std::swap(eta.powsinterval, Temp.powsinterval);
+            std::swap(eta.numofelements, Temp.numofelements); std::swap(eta.elements, Temp.elements);
         }
+        eta.Setiscomplex(iscomplex);
+        eta.ResetMultiElementsParams();
         
-        MAP::const_iterator thisiter = Fields.begin();
-        MAP::const_iterator etaiter, etaiterpre;
-        for (thisiter = Fields.begin(); thisiter != Fields.end(); thisiter++)
+        try
         {
-            etaiter = eta.Fields.find(thisiter->first);
-            if (etaiter != eta.Fields.end())
-            {
-                thisiter->second->CopyTo(*(etaiter->second));
-            }
-            else
-            {
-                Element Temp(*(thisiter->second));
-                eta.AddToFields(thisiter->first, Temp);
-            }
+            CopyAllFieldsTo(eta);
         }
-        if (Fields.size() < eta.Fields.size())
+        catch (...)
         {
-            for (etaiter = eta.Fields.begin(); etaiter != eta.Fields.end();)
-            {
-                thisiter = Fields.find(etaiter->first);
-                if (thisiter == Fields.end())
-                {
-                    etaiterpre = etaiter;
-                    etaiter++;
-                    eta.RemoveFromFields(etaiterpre->first);
-                }
-                else
-                    etaiter++;
-            }
+            eta.RemoveAllFromFields();
+            throw;
         }
     };
 
+    void Element::CopyAllFieldsTo(Element &eta) const
+    {
+        MAP::const_iterator etaiter, etaiterpre;
+        for (etaiter = eta.Fields.begin(); etaiter != eta.Fields.end();)
+        {
+            etaiterpre = etaiter;
+            etaiter++;
+            if (Fields.find(etaiterpre->first) == Fields.end())
+                eta.RemoveFromFields(etaiterpre->first);
+        }
+        CopyFieldsTo(eta);
+        for(integer i = 0; i < numofelements; i++)
+            elements[i].CopyAllFieldsTo(eta.elements[i]);
+    };
+
     void Element::CopyFieldsTo(Element &eta) const
     {
         MAP::const_iterator thisiter = Fields.begin();
@@ -2652,21 +2604,21 @@ namespace ROPTLIB{
     {
         RemoveAllFromFields();
         SmartSpace::RandUnform(start, end);
-        ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
+        ResetMultiElementsParams();
     };
 
     void Element::RandGaussian(realdp mean, realdp variance)
     {
         RemoveAllFromFields();
         SmartSpace::RandGaussian(mean, variance);
-        ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
+        ResetMultiElementsParams();
     };
 
     void Element::SetToZeros(void)
     {
         RemoveAllFromFields();
         SmartSpace::SetToZeros();
-        ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
+        ResetMultiElementsParams();
     };
 
     realdp *Element::ObtainWriteEntireData(void)
@@ -2685,13 +2637,14 @@ namespace ROPTLIB{
     {
         RemoveAllFromFields();
         SmartSpace::NewMemoryOnWrite();
-        ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
+        ResetMultiElementsParams();
     };
 
     void Element::CopyOnWrite(void)
     {
+        RemoveAllFromFields();
         SmartSpace::CopyOnWrite();
-        ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
+        ResetMultiElementsParams();
     };
 
     void Element::Print(const char *name, bool isonlymain) const
@@ -2773,8 +2726,9 @@ namespace ROPTLIB{
         thisiter = Fields.find(name);
         if (thisiter == Fields.end())
         {
-            Element *Tmp = new Element(Temp);
-            Fields.insert(std::pair<std::string, Element *>(name, Tmp));
+            std::unique_ptr<Element> Tmp(new Element(Temp));
+            Fields.insert(std::pair<std::string, Element *>(name, Tmp.get()));
+            Tmp.release();
         }
         else
         {
@@ -2788,8 +2742,9 @@ namespace ROPTLIB{
         thisiter = Fields.find(name);
         if (thisiter == Fields.end())
         {
-            Element *Tmp = new Element(Temp);
-            Fields.insert(std::pair<std::string, Element *>(name, Tmp));
+            std::unique_ptr<Element> Tmp(new Element(Temp));
+            Fields.insert(std::pair<std::string, Element *>(name, Tmp.get()));
+            Tmp.release();
         }
         else
         {
@@ -2875,6 +2830,7 @@ namespace ROPTLIB{
     {
         RemoveAllFromFields();
         SmartSpace::Delete();
+        DeleteMultiElements();
     };
 
     void Element::ObtainTempNames(std::string *names) const
@@ -2887,159 +2843,101 @@ namespace ROPTLIB{
         }
     };
 
-    void Element::ResetMultiElementsParams(const integer *inpowsinterval, integer innumoftypes, const Element *inelements, integer innumofelements)
+    void Element::ResetMultiElementsParams(void)
     {
-        if(innumoftypes == 0)
+        integer shift = 0;
+        for(integer i = 0; i < numofelements; i++)
         {
-            DeleteMultiElements();
-            numoftypes = 0; powsinterval = nullptr;
-            numofelements = 0; elements = nullptr;
-            return;
+            elements[i].SmartSpace::SetByParams((Space == nullptr) ? nullptr : Space + shift);
+            elements[i].ResetMultiElementsParams();
+            shift += elements[i].Getlength();
         }
+    };
+
+    void Element::NewMultiElements(integer innumoftypes, Element **types, const integer *inpowsinterval)
+    {
+        std::unique_ptr<integer[]> newpowsinterval(new integer[innumoftypes + 1]);
+        for(integer i = 0; i <= innumoftypes; i++)
+            newpowsinterval[i] = inpowsinterval[i];
         
-        if(powsinterval == inpowsinterval && elements == inelements) /*if the input parameters belong to "this element", then only reset the space in elements*/
+        std::unique_ptr<Element[]> newelements(new Element[inpowsinterval[innumoftypes]]);
+        for(integer i = 0; i < innumoftypes; i++)
         {
-            integer shift = 0;
-            integer *isharedtimes = nullptr;
-            for(integer i = 0; i < numoftypes; i++)
+            for(integer j = inpowsinterval[i]; j < inpowsinterval[i + 1]; j++)
             {
-                for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
+                Element &element = newelements[j];
+                integer *newsize = new integer[types[i]->ls];
+                for(integer k = 0; k < types[i]->ls; k++)
+                    newsize[k] = types[i]->size[k];
+                delete[] element.size;
+                element.size = newsize;
+                element.ls = types[i]->ls;
+                element.length = types[i]->length;
+                element.iscomplex = types[i]->iscomplex;
+                if(types[i]->numoftypes > 0)
                 {
-                    isharedtimes = const_cast<integer *>(elements[j].GetSharedTimes());
-                    if(isharedtimes == nullptr)
-                    {
-                        isharedtimes = new integer;
-                        *isharedtimes = 1;
-                    }
-                    
-                    elements[j].SetByParams(isharedtimes, Space + shift);
-                    elements[j].ResetMultiElementsParams(inelements[j].Getpowsinterval(), inelements[j].Getnumoftypes(), inelements[j].Getelements(), inelements[j].Getnumofelements());
-                    shift += ((Space == nullptr) ? 0 : elements[j].Getlength());
+                    std::vector<Element *> subtypes(types[i]->numoftypes);
+                    for(integer k = 0; k < types[i]->numoftypes; k++)
+                        subtypes[k] = &types[i]->elements[types[i]->powsinterval[k]];
+                    element.NewMultiElements(types[i]->numoftypes, subtypes.data(), types[i]->powsinterval);
                 }
             }
-            return;
         }
         
-        bool issamesize = true;
-        if(numoftypes != innumoftypes || numofelements != innumofelements)
-            issamesize = false;
+        DeleteMultiElements();
+        numoftypes = innumoftypes;
+        numofelements = inpowsinterval[innumoftypes];
+        powsinterval = newpowsinterval.release();
+        elements = newelements.release();
+    };
+
+    bool Element::HaveSameElements(const Element &x) const
+    {
+        if(numoftypes != x.numoftypes || numofelements != x.numofelements)
+            return false;
         
-        if(issamesize)
+        for(integer i = 0; i < numoftypes; i++)
         {
-            for(integer i = 0; i < innumofelements; i++)
-            {
-                if(inelements[i].Getlength() != elements[i].Getlength())
-                {
-                    issamesize = false;
-                    break;
-                }
-            }
+            if(powsinterval[i + 1] != x.powsinterval[i + 1])
+                return false;
         }
-        
-        /*if input parameters do not belong to "this" element, but have the same size, then only update sharedtimes and elements*/
-        if(issamesize)
+        for(integer i = 0; i < numofelements; i++)
         {
-            integer shift = 0;
-            integer *isharedtimes = nullptr;
-            for(integer i = 0; i < numoftypes; i++)
+            if(elements[i].ls != x.elements[i].ls || elements[i].iscomplex != x.elements[i].iscomplex)
+                return false;
+            for(integer j = 0; j < elements[i].ls; j++)
             {
-                for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-                {
-                    isharedtimes = const_cast<integer *>(elements[j].GetSharedTimes());
-                    if(isharedtimes == nullptr && Space != nullptr)
-                    {
-                        isharedtimes = new integer;
-                        *isharedtimes = 1;
-                    }
-                    if(Space == nullptr && isharedtimes != nullptr)
-                    {
-                        delete isharedtimes;
-                        isharedtimes = nullptr;
-                    }
-                    
-                    elements[j].SetByParams(isharedtimes, Space + shift);
-                    elements[j].ResetMultiElementsParams(elements[j].Getpowsinterval(), elements[j].Getnumoftypes(), elements[j].Getelements(), elements[j].Getnumofelements());
-                    shift += ((Space == nullptr) ? 0 : elements[j].Getlength());
-                }
+                if(elements[i].size[j] != x.elements[i].size[j])
+                    return false;
             }
-            return;
+            if(!elements[i].HaveSameElements(x.elements[i]))
+                return false;
         }
+        return true;
+    };
 
-        if(!issamesize)
+    bool Element::Contains(const Element &x) const
+    {
+        for (MAP::const_iterator iter = Fields.begin(); iter != Fields.end(); iter++)
         {
-            DeleteMultiElements();
-            
-            numoftypes = innumoftypes;
-            powsinterval = new integer[numoftypes + 1];
-            for(integer i = 0; i < numoftypes + 1; i++)
-                powsinterval[i] = inpowsinterval[i];
-            
-            numofelements = innumofelements;
-            elements = new Element [numofelements];
-            integer shift = 0;
-            integer *isharedtimes = nullptr;
-            integer *isize = nullptr;
-            integer ils;
-            for(integer i = 0; i < numoftypes; i++)
-            {
-                ils = inelements[i].Getls();
-                isize = new integer[ils];
-                
-                for(integer j = 0; j < ils; j++)
-                {
-                    isize[j] = inelements[powsinterval[i]].Getsize()[j];
-                }
-                for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-                {
-                    if(Space == nullptr)
-                    {
-                        isharedtimes = nullptr;
-                    }
-                    else
-                    {
-                        isharedtimes = new integer;
-                        *isharedtimes = 1;
-                    }
-					delete[] elements[j].Getsize();
-                    
-                    elements[j].SetByParams(isize, ils, inelements[j].Getlength(), isharedtimes, Space + shift);
-                    elements[j].Setiscomplex(inelements[j].Getiscomplex());
-                    elements[j].ResetMultiElementsParams(inelements[j].Getpowsinterval(), inelements[j].Getnumoftypes(), inelements[j].Getelements(), inelements[j].Getnumofelements());
-                    shift += ((Space == nullptr) ? 0 : elements[j].Getlength());
-                }
-            }
+            if(iter->second == &x || iter->second->Contains(x))
+                return true;
         }
+        for(integer i = 0; i < numofelements; i++)
+        {
+            if(&elements[i] == &x || elements[i].Contains(x))
+                return true;
+        }
+        return false;
     };
 
     void Element::DeleteMultiElements(void)
     {
-        if(numoftypes != 0) /*if it is multiple elements, then delete related variables*/
-        {
-            for (integer i = 0; i < numoftypes; i++)
-            {
-                if (elements[powsinterval[i]].Getsize() != nullptr)
-                {
-                    delete[] elements[powsinterval[i]].Getsize();
-                }
-                
-                for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-                {
-                    if (elements[j].GetSharedTimes() != nullptr)
-                    {
-                        (*(elements[j].GetSharedTimes()))--;
-                        if((*(elements[j].GetSharedTimes())) == 0)
-                            delete elements[j].GetSharedTimes();
-                    }
-                }
-            }
-            for(integer i = 0; i < numofelements; i++)
-            {
-                elements[i].DeleteBySettingNull();
-            }
-            delete[] elements;
-            delete[] powsinterval;
-            numoftypes = 0;
-            numofelements = 0;
-        }
+        delete[] elements;
+        elements = nullptr;
+        delete[] powsinterval;
+        powsinterval = nullptr;
+        numoftypes = 0;
+        numofelements = 0;
     };
 }; /*end of ROPTLIB namespace*/
diff --git a/Manifolds/Element.h b/Manifolds/Element.h
index b541cc1..ff6a454 100644
--- a/Manifolds/Element.h
+++ b/Manifolds/Element.h
@@ -178,10 +178,18 @@ namespace ROPTLIB{
         /*Copy Constructor */
         Element(const Element &eta)
         {
-            Initialization(3, eta.Getsize()[0], eta.Getsize()[1], eta.Getsize()[2]);
             numoftypes = 0; powsinterval = nullptr;
             numofelements = 0; elements = nullptr;
-            eta.CopyTo(*this);
+            try
+            {
+                eta.CopyTo(*this);
+            }
+            catch (...)
+            {
+                RemoveAllFromFields();
+                DeleteMultiElements();
+                throw;
+            }
         };
         
         const Element &operator=(const Element &right)
@@ -565,7 +573,19 @@ namespace ROPTLIB{
         mutable bool iscomplex;
         
         /*Reset the memory of all elements of MultiElement such that their pointers to data are consistant.*/
-        virtual void ResetMultiElementsParams(const integer *powsinterval, integer numoftypes, const Element *elements, integer numofelements);
+        virtual void ResetMultiElementsParams(void);
+        
+        /*Replace the elements by empty ones with the given types. Nothing is changed if the allocation fails.*/
+        void NewMultiElements(integer innumoftypes, Element **types, const integer *inpowsinterval);
+        
+        /*Check whether the elements of "this" and x have the same types*/
+        bool HaveSameElements(const Element &x) const;
+        
+        /*Make the fields of eta and of its elements the same as those of "this"*/
+        void CopyAllFieldsTo(Element &eta) const;
+        
+        /*Check whether x is stored in the fields or the elements of "this"*/
+        bool Contains(const Element &x) const;
         
         integer numoftypes; /*the number of types of elements*/
         integer *powsinterval; /*The length of powsinterval is numoftypes + 1; the number of each type of elements*/
diff --git a/Manifolds/Euclidean.cpp b/Manifolds/Euclidean.cpp
index 7c6f021..9976f3f 100644
--- a/Manifolds/Euclidean.cpp
+++ b/Manifolds/Euclidean.cpp
@@ -140,10 +140,7 @@ namespace ROPTLIB{
 	{
         if(prob->GetUseHess())
         {
-            /*egf may be a component in a product of elements, whose memory does not belong to egf, see Stiefel::EucGradToGrad*/
-            Vector EGrad(egf);
-            EGrad.CopyOnWrite();
-            x.AddToFields("EGrad", EGrad);
+            x.AddToFields("EGrad", egf);
         }
         *result = egf;
         return *result;
diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 0da4f62..84ca83b 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -278,10 +278,7 @@ namespace ROPTLIB{
         Projection(x, egf, result);
         if(prob->GetUseHess())
         {
-            /*egf may be a component in a product of elements, whose memory does not belong to egf, see Stiefel::EucGradToGrad*/
-            Vector EGrad(egf);
-            EGrad.CopyOnWrite();
-            x.AddToFields("EGrad", EGrad);
+            x.AddToFields("EGrad", egf);
         }
         return *result;
 	};
diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 9d42f3d..5d9629c 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -1,5 +1,6 @@
 
 #include "Manifolds/SmartSpace.h"
+#include <memory>
 
 /*Define the namespace*/
 namespace ROPTLIB{
@@ -23,20 +24,8 @@ namespace ROPTLIB{
 
 	void SmartSpace::NewMemoryOnWrite(void)
 	{
-		if (sharedtimes == nullptr)
-		{
+		if (sharedtimes == nullptr || (*sharedtimes) > 1)
 			NewMemory();
-			sharedtimes = new integer;
-			*sharedtimes = 1;
-		}
-		else
-			if ((*sharedtimes) > 1)
-			{
-				NewMemory();
-				(*sharedtimes)--;
-				sharedtimes = new integer;
-				*sharedtimes = 1;
-			}
 	};
 
 	void SmartSpace::CopyOnWrite(void)
@@ -44,17 +33,12 @@ namespace ROPTLIB{
 		if (sharedtimes == nullptr)
 		{
 			NewMemory();
-			sharedtimes = new integer;
-			*sharedtimes = 1;
 		}
 		else
 			if ((*sharedtimes) > 1)
 			{
 				realdp *ptr = Space;
 				NewMemory();
-				(*sharedtimes)--;
-				sharedtimes = new integer;
-				*sharedtimes = 1;
 
 				integer N = length, inc = 1;
 				copy_(&N, ptr, &inc, Space, &inc);
@@ -85,9 +69,9 @@ namespace ROPTLIB{
 
 	void SmartSpace::CopyTo(SmartSpace &eta) const
 	{
-		if (this == &eta || (eta.Space == Space && !(eta.Space == nullptr && Space == nullptr)))
+		if (this == &eta)
 			return;
-        
+
 		bool IsSameSize = true;
         
 		if (eta.ls != ls)
@@ -105,42 +89,37 @@ namespace ROPTLIB{
 				}
 			}
 		}
-		if (eta.sharedtimes != nullptr && *(eta.sharedtimes) == 1 && IsSameSize)
+		integer N = length, inc = 1;
+		if (eta.sharedtimes != nullptr && *(eta.sharedtimes) == 1 && IsSameSize && Space != nullptr)
 		{
-			integer N = length, inc = 1;
-            
-             if(Space != nullptr)
-                copy_(&N, Space, &inc, eta.Space, &inc);
-             else
-             {
- 				delete eta.sharedtimes; eta.sharedtimes = nullptr;
- 				delete[] eta.Space; eta.Space = nullptr;
-             }
+			copy_(&N, Space, &inc, eta.Space, &inc);
 			return;
 		}
-		if (eta.sharedtimes != nullptr && *(eta.sharedtimes) > 1)
+
+		/*all memory is allocated before eta is changed*/
+		std::unique_ptr<integer[]> newsize((eta.ls != ls && ls > 0) ? new integer[ls] : nullptr);
+		if (sharedtimes == &componenttimes) /*the data belong to a collection of multiple elements, they are not shared*/
 		{
-			(*(eta.sharedtimes))--;
+			std::unique_ptr<integer> newtimes(new integer(1));
+			realdp *newSpace = new realdp[length];
+			copy_(&N, Space, &inc, newSpace, &inc);
+			eta.ReleaseMemory();
+			eta.sharedtimes = newtimes.release();
+			eta.Space = newSpace;
 		}
 		else
-			if (eta.sharedtimes != nullptr && *(eta.sharedtimes) == 1)
-			{
-#ifdef CHECKMEMORYDELETED
-				(*CheckMemoryDeleted)[eta->sharedtimes] = *(eta->sharedtimes);
-#endif
-				delete eta.sharedtimes; eta.sharedtimes = nullptr;
-				delete[] eta.Space; eta.Space = nullptr;
-			}
-        
-		if (sharedtimes != nullptr)
-			(*sharedtimes)++;
-		eta.sharedtimes = sharedtimes;
-		eta.Space = Space;
+		{
+			if (sharedtimes != nullptr)
+				(*sharedtimes)++;
+			eta.ReleaseMemory();
+			eta.sharedtimes = sharedtimes;
+			eta.Space = Space;
+		}
         
 		if (eta.ls != ls)
 		{
 			delete[] eta.size;
-			eta.size = new integer[ls];
+			eta.size = newsize.release();
 			eta.ls = ls;
 		}
         
@@ -152,13 +131,29 @@ namespace ROPTLIB{
 
 	void SmartSpace::NewMemory(void)
 	{
-		try{
-			Space = new realdp[length];
-		}
-		catch (std::bad_alloc exception)
+		std::unique_ptr<integer> newtimes(new integer(1));
+		realdp *newSpace = new realdp[length];
+		ReleaseMemory();
+		sharedtimes = newtimes.release();
+		Space = newSpace;
+	};
+
+	void SmartSpace::ReleaseMemory(void)
+	{
+		if (sharedtimes != nullptr && sharedtimes != &componenttimes)
 		{
-			printf("Catch exception:%s\n", exception.what());
+			(*sharedtimes)--;
+#ifdef CHECKMEMORYDELETED
+			(*CheckMemoryDeleted)[sharedtimes] = *sharedtimes;
+#endif
+			if (*sharedtimes == 0)
+			{
+				delete sharedtimes;
+				delete[] Space;
+			}
 		}
+		sharedtimes = nullptr;
+		Space = nullptr;
 	};
 
 	const realdp *SmartSpace::ObtainReadData(void) const
@@ -184,21 +179,7 @@ namespace ROPTLIB{
 			delete[] size;
         size = nullptr;
 
-		if (sharedtimes != nullptr)
-		{
-#ifdef CHECKMEMORYDELETED
-			(*CheckMemoryDeleted)[sharedtimes] = *sharedtimes;
-#endif
-
-			(*sharedtimes)--;
-			if (*sharedtimes == 0 && Space != nullptr)
-			{
-				delete sharedtimes;
-				delete[] Space;
-			}
-            sharedtimes = nullptr;
-            Space = nullptr;
-		}
+		ReleaseMemory();
 	};
 
 	void SmartSpace::Print(const char * name) const
@@ -278,28 +259,16 @@ namespace ROPTLIB{
 				}
 	};
 
-	void SmartSpace::SetByParams(integer *insize, integer inls, integer inlength, integer *insharedtimes, realdp *inSpace)
+	void SmartSpace::SetByParams(realdp *inSpace)
 	{
-		size = insize;
-		ls = inls;
-		length = inlength;
-		sharedtimes = insharedtimes;
+		ReleaseMemory();
+		if (inSpace == nullptr)
+			return;
+		componenttimes = 1;
+		sharedtimes = &componenttimes;
 		Space = inSpace;
 	};
 
-    void SmartSpace::SetByParams(integer *insharedtimes, realdp *inSpace)
-    {
-        sharedtimes = insharedtimes;
-        Space = inSpace;
-    };
-
-    void SmartSpace::DeleteBySettingNull(void)
-    {
-        size = nullptr;
-        sharedtimes = nullptr;
-        Space = nullptr;
-    };
-
 	void SmartSpace::Delete(void)
 	{
         if (size != nullptr)
@@ -307,20 +276,7 @@ namespace ROPTLIB{
         size = nullptr;
         ls = 0;
 
-        if (sharedtimes != nullptr)
-        {
-#ifdef CHECKMEMORYDELETED
-            (*CheckMemoryDeleted)[sharedtimes] = *sharedtimes;
-#endif
-            (*sharedtimes)--;
-            if (*sharedtimes == 0 && Space != nullptr)
-            {
-                delete sharedtimes;
-                delete[] Space;
-            }
-            sharedtimes = nullptr;
-            Space = nullptr;
-        }
+        ReleaseMemory();
         length = 0;
 	};
 }; /*end of ROPTLIB namespace*/
diff --git a/Manifolds/SmartSpace.h b/Manifolds/SmartSpace.h
index 173dae9..d09ee90 100644
--- a/Manifolds/SmartSpace.h
+++ b/Manifolds/SmartSpace.h
@@ -90,27 +90,27 @@ namespace ROPTLIB{
 		/*Get the total length of the data*/
 		inline integer Getlength(void) const { return length; };
 
-		/*This is used for creating a collection of multiple elements. it is not encouraged to be used by users. It initializes this SmartSpace by setting the parameters*/
-		virtual void SetByParams(integer *size, integer ls, integer length, integer *sharedtimes, realdp *Space);
-        
-        /*This is used for creating a collection of multiple elements. it is not encouraged to be used by users. It initializes this SmartSpace by setting the parameters*/
-        virtual void SetByParams(integer *insharedtimes, realdp *Space);
-        
-        /*This is not encouraged to be used by users. It deleted this SmartSpace by setting all parameters to be NULL*/
-        virtual void DeleteBySettingNull(void);
-        
+		/*This is used for creating a collection of multiple elements. it is not encouraged to be used by users. The data of this
+		SmartSpace become the part of the data of the collection that starts at inSpace. They belong to the collection: they are not shared
+		with other SmartSpace (copies of this SmartSpace obtain their own memory) and they are not deleted by this SmartSpace.*/
+		virtual void SetByParams(realdp *inSpace);
+
 		/*Delete current space*/
 		virtual void Delete(void);
 	protected:
-		integer *size; /* size of the data*/
-		integer ls; /*length of the array size*/
-		integer length; /*the length of the data*/
+		integer *size = nullptr; /* size of the data*/
+		integer ls = 0; /*length of the array size*/
+		integer length = 0; /*the length of the data*/
 
-		integer *sharedtimes; /*The number of use of the data*/
-		realdp *Space; /*The pointer which points to the data*/
+		integer *sharedtimes = nullptr; /*The number of use of the data*/
+		realdp *Space = nullptr; /*The pointer which points to the data*/
+		integer componenttimes = 1; /*sharedtimes points to it if the data belong to a collection of multiple elements*/
 
-		/*allocate memory*/
+		/*allocate memory that is not shared with other SmartSpace. Nothing is changed if the allocation fails.*/
 		void NewMemory(void);
+
+		/*stop using the data, they are deleted if no other SmartSpace uses them*/
+		void ReleaseMemory(void);
 	};
 }; /*end of ROPTLIB namespace*/
 
diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index b60a064..4c61b58 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -151,10 +151,7 @@ namespace ROPTLIB{
 	{
         if (prob->GetUseHess())
         {
-            /*egf may be a component in a product of elements, whose memory does not belong to egf, see Stiefel::EucGradToGrad*/
-            Vector EGrad(egf);
-            EGrad.CopyOnWrite();
-            x.AddToFields("EGrad", EGrad);
+            x.AddToFields("EGrad", egf);
         }
         return Projection(x, egf, result);
 	};
-- 
2.43.0


From d29cb9671fcc1f4a5f432deb1afa6e85b16a8cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 36/62] fix: operations that update an Element change other
 elements, keep stale fields or lose the result

HaddRankone and Conj wrote to memory shared with other elements, ScaledIdOPE,
Conj, HaddRankone and Reshape kept decompositions of the old value,
SubmatrixAssignment lost the other entries of a shared matrix, += and -= updated
a copy, operands that are the element itself or one of its fields were changed
or deleted before they were used, and GetRealInComplex/GetImagInComplex returned
a half initialised complex matrix.
---
 Manifolds/Element.cpp | 41 ++++++++++++++++++++++++++++++++---------
 Manifolds/Element.h   |  4 ++--
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 3d94bb5..5ab2caf 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -216,7 +216,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator+=(Element left, Element right)
+    Element &operator+=(Element &left, Element right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
@@ -292,7 +292,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator-=(Element left, Element right)
+    Element &operator-=(Element &left, Element right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
@@ -1562,6 +1562,8 @@ namespace ROPTLIB{
     {
         assert(Space != nullptr);
         assert(M.Getiscomplex() == iscomplex);
+        if(&M == this || M.Contains(*this)) /*"this" would be changed before it is used*/
+            return Element(*this).DiagTimesM(M, side);
         realdp *resultptr = M.ObtainWritePartialData();
         integer n = M.Getrow(), m = M.Getcol();
         
@@ -1615,7 +1617,10 @@ namespace ROPTLIB{
         assert(u.Getcol() == 1 && u.Getnum() == 1 && u.Getrow() == Getrow());
         assert(v.Getcol() == 1 && v.Getnum() == 1 && v.Getrow() == Getcol());
         assert(Space != nullptr);
+        if(Contains(u) || Contains(v)) /*u and v would be removed together with the fields*/
+            return HaddRankone(scalar, Element(u), Element(v));
         integer m = Getrow(), n = Getcol();
+        CopyOnWrite();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
 
@@ -1630,7 +1635,10 @@ namespace ROPTLIB{
         assert(v.Getcol() == 1 && v.Getnum() == 1 && v.Getrow() == Getcol());
         assert(Space != nullptr);
         assert(iscomplex == true && u.Getiscomplex() == true && v.Getiscomplex() == true);
+        if(Contains(u) || Contains(v)) /*u and v would be removed together with the fields*/
+            return HaddRankone(scalar, Element(u), Element(v));
         integer m = Getrow(), n = Getcol();
+        CopyOnWrite();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
 
@@ -1643,6 +1651,8 @@ namespace ROPTLIB{
     Element &Element::AlphaXaddThis(realdp alpha, const Element &X)
     {
         assert(length == X.Getlength());
+        if(Contains(X)) /*X would be removed together with the fields*/
+            return AlphaXaddThis(alpha, Element(X));
         const realdp *Xptr = X.ObtainReadData();
         realdp *thisptr = this->ObtainWritePartialData();
         axpy_(&length, &alpha, const_cast<realdp *> (Xptr), &GLOBAL::IONE, thisptr, &GLOBAL::IONE);
@@ -1652,6 +1662,8 @@ namespace ROPTLIB{
     Element &Element::AlphaXaddThis(realdpcomplex alpha, const Element &X)
     {
         assert(length == X.Getlength() && X.Getiscomplex());
+        if(Contains(X)) /*X would be removed together with the fields*/
+            return AlphaXaddThis(alpha, Element(X));
         const realdp *Xptr = X.ObtainReadData();
         realdp *thisptr = this->ObtainWritePartialData();
         integer L = length / 2;
@@ -1676,6 +1688,9 @@ namespace ROPTLIB{
 
     Element &Element::AlphaABaddBetaThis(realdp alpha, const Element &A, char *transA, const Element &B, char*transB, realdp beta)
     {
+        if(&A == this || &B == this || Contains(A) || Contains(B)) /*A and B would be changed before they are used*/
+            return AlphaABaddBetaThis(alpha, Element(A), transA, Element(B), transB, beta);
+        
         if(!A.Getiscomplex() && !B.Getiscomplex())
         { /* if both A and B are real*/
             integer rowA = A.Getrow(), colA = A.Getcol(), rowB = B.Getrow(), colB = B.Getcol(), rowOutput = Getrow(), colOutput = Getcol(), row = 0, col = 0, k = 0;
@@ -1708,7 +1723,7 @@ namespace ROPTLIB{
             return (*this);
         }
         
-        if (A.Getiscomplex() && A.Getiscomplex())
+        if (A.Getiscomplex() && B.Getiscomplex())
         { /* if both A and B are complex*/
             realdpcomplex calpha = {alpha, 0}, cbeta = {beta, 0};
             AlphaABaddBetaThis(calpha, A, transA, B, transB, cbeta);
@@ -1721,6 +1736,9 @@ namespace ROPTLIB{
     Element &Element::AlphaABaddBetaThis(realdpcomplex alpha, const Element &A, char *transA, const Element &B, char*transB, realdpcomplex beta)
     {
         assert(A.Getiscomplex() && B.Getiscomplex());
+        if(&A == this || &B == this || Contains(A) || Contains(B)) /*A and B would be changed before they are used*/
+            return AlphaABaddBetaThis(alpha, Element(A), transA, Element(B), transB, beta);
+        
         integer rowA = A.Getrow(), colA = A.Getcol(), rowB = B.Getrow(), colB = B.Getcol(), rowOutput = Getrow(), colOutput = Getcol(), row = 0, col = 0, k = 0;
         const realdpcomplex *Aptr = (realdpcomplex *) A.ObtainReadData();
         const realdpcomplex *Bptr = (realdpcomplex *) B.ObtainReadData();
@@ -1811,6 +1829,8 @@ namespace ROPTLIB{
 
     Element &Element::Reshape(integer r, integer c, integer n)
     {
+        if(r != Getrow() || c != Getcol() || n != Getnum())
+            RemoveAllFromFields(); /*they belong to a matrix of the old size*/
         if(!iscomplex)
         {
             assert(r * c * n == length);
@@ -1950,6 +1970,7 @@ namespace ROPTLIB{
         assert(Space != nullptr);
         assert(iscomplex);
         integer num = length / 2;
+        CopyOnWrite();
         scal_(&num, &GLOBAL::DNONE, Space + 1, &GLOBAL::ITWO);
         return (*this);
     };
@@ -2235,9 +2256,11 @@ namespace ROPTLIB{
     {
         assert(rstart >= 0 && rend <= Getrow() - 1 && cstart >= 0 && cend <= Getcol() - 1);
         assert(rend - rstart + 1 == mat.Getrow() && cend - cstart + 1 == mat.Getcol() && mat.Getiscomplex() == iscomplex);
+        if(Contains(mat)) /*mat would be removed together with the fields*/
+            return SubmatrixAssignment(rstart, rend, cstart, cend, Element(mat));
         const realdp *matptr = mat.ObtainReadData();
         integer matrow = mat.Getrow();
-        this->NewMemoryOnWrite();
+        this->CopyOnWrite();
         if(!iscomplex)
         {
             for(integer j = cstart; j <= cend; j++)
@@ -2484,8 +2507,8 @@ namespace ROPTLIB{
     Element Element::GetRealInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
-        realdp *resultptr = result.ObtainWritePartialData();
+        Element result(Getrow(), Getcol(), Getnum());
+        realdp *resultptr = result.ObtainWriteEntireData();
         for(integer i = 0; i < length / 2; i++)
         {
             resultptr[i] = Space[i * 2];
@@ -2496,8 +2519,8 @@ namespace ROPTLIB{
     Element Element::GetImagInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
-        realdp *resultptr = result.ObtainWritePartialData();
+        Element result(Getrow(), Getcol(), Getnum());
+        realdp *resultptr = result.ObtainWriteEntireData();
         for(integer i = 0; i < length / 2; i++)
         {
             resultptr[i] = Space[i * 2 + 1];
@@ -2813,7 +2836,7 @@ namespace ROPTLIB{
             printf("Warning: This is not a square matrix. It can not be assigned to be an identity matrix!\n");
             return;
         }
-        SmartSpace::NewMemoryOnWrite();
+        NewMemoryOnWrite();
         integer ell = size[0];
         for (integer i = 0; i < ell; i++)
         {
diff --git a/Manifolds/Element.h b/Manifolds/Element.h
index ff6a454..e2897e4 100644
--- a/Manifolds/Element.h
+++ b/Manifolds/Element.h
@@ -65,7 +65,7 @@ namespace ROPTLIB{
         friend Element operator+(realdpcomplex left, Element right);
         
         /*left = left + right*/
-        friend Element operator+=(Element left, Element right);
+        friend Element &operator+=(Element &left, Element right);
         
         /*substract an element from another. They have to be both real or complex*/
         friend Element operator-(Element left, Element right);
@@ -83,7 +83,7 @@ namespace ROPTLIB{
         friend Element operator-(realdpcomplex left, Element right);
         
         /*left = left - right*/
-        friend Element operator-=(Element left, Element right);
+        friend Element &operator-=(Element &left, Element right);
         
         /*a element times another, they have to be both real or complex
          This is matrix multiplication*/
-- 
2.43.0


From 9ef305e2fb7b238b98a36627a5ea7dabc36d18a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:34 +0000
Subject: [PATCH 37/62] fix: a failed allocation in a solver's constructor or
 run crashes, leaks or leaves the manifold's flags changed

---
 Manifolds/Manifold.cpp       | 25 +++++++++----------------
 Manifolds/Manifold.h         | 15 +++++++++++++++
 Manifolds/MultiManifolds.cpp |  6 ++----
 Solvers/LRBFGS.cpp           |  1 +
 Solvers/LRBFGSSub.cpp        |  1 +
 Solvers/LRTRSR1.cpp          |  2 ++
 Solvers/RBFGS.cpp            | 17 ++++++++---------
 Solvers/RBFGSSub.cpp         | 16 ++++++++--------
 Solvers/RBroydenFamily.cpp   | 16 ++++++++--------
 Solvers/RCG.h                |  2 +-
 Solvers/RNewton.h            |  2 +-
 Solvers/RTRSR1.cpp           | 16 ++++++++--------
 Solvers/RWRBFGS.cpp          | 16 ++++++++--------
 Solvers/SolversNSMPGLS.h     |  2 +-
 Solvers/SolversNSMSub.h      |  4 ++--
 Solvers/SolversNSMSubLS.h    |  2 +-
 Solvers/SolversSMLS.h        |  2 +-
 Solvers/SolversSMTR.h        |  2 +-
 18 files changed, 78 insertions(+), 69 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index a310155..c077a30 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -25,11 +25,9 @@ namespace ROPTLIB{
         /*even if etax is a complex element, the real reparameterizations are used. In other words, we viewed it is
         2 n dimension real data. We have to convert it to real element to apply the linear opeartor. */
         bool etaxiscomplex = etax.Getiscomplex();
-        etax.Setiscomplex(false);
-        Vector etaxreshape = etax; etaxreshape.Reshape(etax.Getlength());
+        Vector etaxreshape = etax; etaxreshape.Setiscomplex(false); etaxreshape.Reshape(etax.Getlength());
         result->Setiscomplex(false);
         result->AlphaABaddBetaThis(1, Hx, GLOBAL::N, etaxreshape, GLOBAL::N, 0);
-        etax.Setiscomplex(etaxiscomplex);
         result->Setiscomplex(etaxiscomplex);
         result->Reshape(etax.Getrow(), etax.Getcol(), etax.Getnum());
         return *result;
@@ -237,15 +235,10 @@ namespace ROPTLIB{
         #endif
         /*even if etax and xix are complex elements, the real reparameterizations are used. In other words, we viewed it is
         2 n dimension real data. Therefore, the low rank update uses real operations. */
-        bool etaxiscomplex = etax.Getiscomplex(), xixiscomplex = xix.Getiscomplex();
-        etax.Setiscomplex(false);
-        xix.Setiscomplex(false);
         *result = Hx;
-        Vector etaxreshape = etax; etaxreshape.Reshape(etax.Getlength());
-        Vector xixreshape = xix; xixreshape.Reshape(xix.Getlength());
+        Vector etaxreshape = etax; etaxreshape.Setiscomplex(false); etaxreshape.Reshape(etax.Getlength());
+        Vector xixreshape = xix; xixreshape.Setiscomplex(false); xixreshape.Reshape(xix.Getlength());
         result->HaddRankone(scalar, etaxreshape, xixreshape);
-        etax.Setiscomplex(etaxiscomplex);
-        xix.Setiscomplex(xixiscomplex);
         return *result;
 	};
 
@@ -709,7 +702,7 @@ namespace ROPTLIB{
             DiffRetraction(x, etax, y, etax, &eps1, true);
         }
         Vector TRetaVector = etax.Field("betaTReta");
-        HasHHR = false; VectorTransport(x, etax, y, etax, &eps1); HasHHR = true;
+        { TempFlag noHHR(HasHHR, false); VectorTransport(x, etax, y, etax, &eps1); }
         realdp eps1eps1 = Metric(y, eps1, eps1);
         if (eps1eps1 > 0)
             ScalarTimesVector(y, sqrt(Metric(x, etax, etax) / eps1eps1), eps1, &eps1); /*note \|etax\|_x = \|TRetaVector\|_y*/
@@ -733,7 +726,7 @@ namespace ROPTLIB{
         {
             Obtainnu1nu2forLC(x, etax, y);
         }
-        HasHHR = false; VectorTransport(x, etax, y, xix, result); HasHHR = true;
+        { TempFlag noHHR(HasHHR, false); VectorTransport(x, etax, y, xix, result); }
         realdp normresult2 = Metric(y, *result, *result);
         if (normresult2 > 0)
             ScalarTimesVector(y, sqrt(Metric(x, xix, xix) / normresult2), *result, result);
@@ -766,7 +759,7 @@ namespace ROPTLIB{
         temp = -Metric(y, *result, nu1);
         ScalarVectorAddVector(y, temp * tau1tau2ptr[0], nu1, *result, result);
         
-        HasHHR = false; InverseVectorTransport(x, etax, y, *result, result); HasHHR = true;
+        { TempFlag noHHR(HasHHR, false); InverseVectorTransport(x, etax, y, *result, result); }
         return *result;
     };
 
@@ -783,7 +776,7 @@ namespace ROPTLIB{
         const realdp *nu1TV = nu1.ObtainReadData();
         const realdp *nu2TV = nu2.ObtainReadData();
         
-        HasHHR = false; HInvTran(x, etax, y, Hx, start, end, result); HasHHR = true;
+        { TempFlag noHHR(HasHHR, false); HInvTran(x, etax, y, Hx, start, end, result); }
         
         realdp *resultTV = result->ObtainWritePartialData();
         char *sider = const_cast<char *> ("r");
@@ -812,7 +805,7 @@ namespace ROPTLIB{
         Vector nu2 = etax.Field("nu2");
         const realdp *nu1TV = nu1.ObtainReadData();
         const realdp *nu2TV = nu2.ObtainReadData();
-        HasHHR = false; TranH(x, etax, y, Hx, start, end, result); HasHHR = true;
+        { TempFlag noHHR(HasHHR, false); TranH(x, etax, y, Hx, start, end, result); }
         realdp *resultTV = result->ObtainWritePartialData();
         
         char *sidel = const_cast<char *> ("l");
@@ -841,7 +834,7 @@ namespace ROPTLIB{
         Vector nu2 = etax.Field("nu2");
         const realdp *nu1TV = nu1.ObtainReadData();
         const realdp *nu2TV = nu2.ObtainReadData();
-        HasHHR = false; TranHInvTran(x, etax, y, Hx, result); HasHHR = true;
+        { TempFlag noHHR(HasHHR, false); TranHInvTran(x, etax, y, Hx, result); }
         realdp *resultTV = result->ObtainWritePartialData();
         
         char *sidel = const_cast<char *> ("l"), *sider = const_cast<char *> ("r");
diff --git a/Manifolds/Manifold.h b/Manifolds/Manifold.h
index b65ee03..23b4194 100644
--- a/Manifolds/Manifold.h
+++ b/Manifolds/Manifold.h
@@ -30,7 +30,22 @@ namespace ROPTLIB{
 	class Problem;
 	class ProductManifold;
 
+	/*Set a flag for the life of this object. The old value is recovered even if an exception is thrown.*/
+	class TempFlag{
+	public:
+		TempFlag(bool &inflag, bool value) : flag(inflag), oldvalue(inflag) { flag = value; };
+		~TempFlag(void) { flag = oldvalue; };
+	private:
+		TempFlag(const TempFlag &);
+		TempFlag &operator=(const TempFlag &);
+		bool &flag;
+		bool oldvalue;
+	};
+
+	class MultiManifolds;
+
 	class Manifold{
+		friend class MultiManifolds; /*it sets the representation of its components temporarily*/
 	public:
 		/*Indicate this class is abstract*/
 		virtual ~Manifold(void) = 0;
diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 4a53cd0..778390f 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -214,9 +214,8 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
-                manifolds[i]->SetIsIntrApproach(false);
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, false);
                 manifolds[i]->Retraction(x.GetElement(j), etax.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
             }
         }
         return *result;
@@ -241,9 +240,8 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
-                manifolds[i]->SetIsIntrApproach(false);
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, false);
                 manifolds[i]->InvRetraction(x.GetElement(j), y.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
             }
         }
         
diff --git a/Solvers/LRBFGS.cpp b/Solvers/LRBFGS.cpp
index 2590420..b7aed5a 100644
--- a/Solvers/LRBFGS.cpp
+++ b/Solvers/LRBFGS.cpp
@@ -87,6 +87,7 @@ namespace ROPTLIB{
 		NewVectors(Y, LengthSY);
 		if (RHO != nullptr)
 			delete[] RHO;
+		RHO = nullptr;
 		RHO = new realdp[LengthSY];
 		/*the stored pairs have been deleted, start with an empty memory*/
 		Currentlength = 0;
diff --git a/Solvers/LRBFGSSub.cpp b/Solvers/LRBFGSSub.cpp
index 614ac23..81cbc7d 100644
--- a/Solvers/LRBFGSSub.cpp
+++ b/Solvers/LRBFGSSub.cpp
@@ -12,6 +12,7 @@ namespace ROPTLIB{
         NewVectors(Y, LengthSY);
         if (RHO != nullptr)
             delete[] RHO;
+        RHO = nullptr;
         RHO = new realdp[LengthSY];
         /*the stored pairs have been deleted, start with an empty memory*/
         Currentlength = 0;
diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 130cd0c..93db4d6 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -84,9 +84,11 @@ namespace ROPTLIB{
         
 		if (SS != nullptr)
 			delete[] SS;
+		SS = nullptr;
 		SS = new realdp[LengthSY * LengthSY];
 		if (SY != nullptr)
 			delete[] SY;
+		SY = nullptr;
 		SY = new realdp[LengthSY * LengthSY];
 		/*the stored pairs have been deleted, start with an empty memory*/
 		Currentlength = 0;
diff --git a/Solvers/RBFGS.cpp b/Solvers/RBFGS.cpp
index 3dfc2c9..d9b485c 100644
--- a/Solvers/RBFGS.cpp
+++ b/Solvers/RBFGS.cpp
@@ -19,23 +19,22 @@ namespace ROPTLIB{
 	{
 		SolversSMLS::SetProbX(prob, initialx);
 
-        bool initHisnull = (initialH == nullptr);
-        if (initHisnull)
+        if (initialH == nullptr)
         {
             if (prob->GetDomain()->GetIsIntrinsic())
             {
-                initialH = new LinearOPE(prob->GetDomain()->GetEMPTYINTR().Getlength(), prob->GetDomain()->GetEMPTYINTR().Getlength());
+                H = LinearOPE(prob->GetDomain()->GetEMPTYINTR().Getlength(), prob->GetDomain()->GetEMPTYINTR().Getlength());
             }
             else
             {
-                initialH = new LinearOPE(prob->GetDomain()->GetEMPTYEXTR().Getlength(), prob->GetDomain()->GetEMPTYEXTR().Getlength());
+                H = LinearOPE(prob->GetDomain()->GetEMPTYEXTR().Getlength(), prob->GetDomain()->GetEMPTYEXTR().Getlength());
             }
-            initialH->ScaledIdOPE();
+            H.ScaledIdOPE();
+        }
+        else
+        {
+            H = *initialH;
         }
-        
-        H = *initialH;
-        if (initHisnull)
-            delete initialH;
         prob->SetUseGrad(true);
         prob->SetUseHess(false);
         s = Prob->GetDomain()->GetEMPTY();
diff --git a/Solvers/RBFGSSub.cpp b/Solvers/RBFGSSub.cpp
index df209f9..c1915b1 100644
--- a/Solvers/RBFGSSub.cpp
+++ b/Solvers/RBFGSSub.cpp
@@ -19,22 +19,22 @@ namespace ROPTLIB{
 	{
         SolversNSMSubLS::SetProbX(prob, initialx);
         
-        bool initHisnull = (initialH == nullptr);
-        if (initHisnull)
+        if (initialH == nullptr)
         {
             if (prob->GetDomain()->GetIsIntrinsic())
             {
-                initialH = new LinearOPE(prob->GetDomain()->GetEMPTYINTR().Getlength(), prob->GetDomain()->GetEMPTYINTR().Getlength());
+                H = LinearOPE(prob->GetDomain()->GetEMPTYINTR().Getlength(), prob->GetDomain()->GetEMPTYINTR().Getlength());
             }
             else
             {
-                initialH = new LinearOPE(prob->GetDomain()->GetEMPTYEXTR().Getlength(), prob->GetDomain()->GetEMPTYEXTR().Getlength());
+                H = LinearOPE(prob->GetDomain()->GetEMPTYEXTR().Getlength(), prob->GetDomain()->GetEMPTYEXTR().Getlength());
             }
-            initialH->ScaledIdOPE();
+            H.ScaledIdOPE();
+        }
+        else
+        {
+            H = *initialH;
         }
-        H = *initialH;
-        if (initHisnull)
-            delete initialH;
         prob->SetUseGrad(true);
         prob->SetUseHess(false);
         s = Prob->GetDomain()->GetEMPTY();
diff --git a/Solvers/RBroydenFamily.cpp b/Solvers/RBroydenFamily.cpp
index 461e616..5b313cb 100644
--- a/Solvers/RBroydenFamily.cpp
+++ b/Solvers/RBroydenFamily.cpp
@@ -18,22 +18,22 @@ namespace ROPTLIB{
 	void RBroydenFamily::SetProbX(const Problem *prob, const Variable *initialx, LinearOPE *initialH)
 	{
 		SolversSMLS::SetProbX(prob, initialx);
-		bool initHisnull = (initialH == nullptr);
-		if (initHisnull)
+		if (initialH == nullptr)
 		{
 			if (prob->GetDomain()->GetIsIntrinsic())
 			{
-                initialH = new LinearOPE(prob->GetDomain()->GetEMPTYINTR().Getlength(), prob->GetDomain()->GetEMPTYINTR().Getlength());
+                H = LinearOPE(prob->GetDomain()->GetEMPTYINTR().Getlength(), prob->GetDomain()->GetEMPTYINTR().Getlength());
 			}
 			else
 			{
-                initialH = new LinearOPE(prob->GetDomain()->GetEMPTYEXTR().Getlength(), prob->GetDomain()->GetEMPTYEXTR().Getlength());
+                H = LinearOPE(prob->GetDomain()->GetEMPTYEXTR().Getlength(), prob->GetDomain()->GetEMPTYEXTR().Getlength());
 			}
-			initialH->ScaledIdOPE();
+			H.ScaledIdOPE();
+		}
+		else
+		{
+		    H = *initialH;
 		}
-		H = *initialH;
-		if (initHisnull)
-			delete initialH;
 		prob->SetUseGrad(true);
 		prob->SetUseHess(false);
         s = Prob->GetDomain()->GetEMPTY();
diff --git a/Solvers/RCG.h b/Solvers/RCG.h
index bca2d08..1b60289 100644
--- a/Solvers/RCG.h
+++ b/Solvers/RCG.h
@@ -70,7 +70,7 @@ namespace ROPTLIB{
         virtual void SetDefaultParams(void);
 
 		/*Strings to store the names of formula used in RCG methods*/
-		std::string *RCGmethodSetnames;
+		std::string *RCGmethodSetnames = nullptr;
 
 		/*sigma is the coefficient in - \grad f(x_{k+1}) + sigma eta_k*/
 		realdp sigma;
diff --git a/Solvers/RNewton.h b/Solvers/RNewton.h
index 992e07a..fc171a6 100644
--- a/Solvers/RNewton.h
+++ b/Solvers/RNewton.h
@@ -86,7 +86,7 @@ namespace ROPTLIB{
 
 		integer innerIter; /*the number of iterations of the truncated conjugate gradient method*/
 		tCGLSSMstatusSet tCGLSSMstatus; /*the output status of the truncated conjugate gradient method*/
-		std::string *tCGLSSMstatusSetnames; /*the output names of the truncated conjugate gradient method*/
+		std::string *tCGLSSMstatusSetnames = nullptr; /*the output names of the truncated conjugate gradient method*/
 	};
 }; /*end of ROPTLIB namespace*/
 #endif /* end of RNEWTON_H */
diff --git a/Solvers/RTRSR1.cpp b/Solvers/RTRSR1.cpp
index 28c959a..9fa00ab 100644
--- a/Solvers/RTRSR1.cpp
+++ b/Solvers/RTRSR1.cpp
@@ -19,22 +19,22 @@ namespace ROPTLIB{
 	{
 		SolversSMTR::SetProbX(prob, initialx);
         
-        bool initBisnull = (initialB == nullptr);
-        if (initBisnull)
+        if (initialB == nullptr)
         {
             if (prob->GetDomain()->GetIsIntrinsic())
             {
-                initialB = new LinearOPE(prob->GetDomain()->GetEMPTYINTR().Getlength(), prob->GetDomain()->GetEMPTYINTR().Getlength());
+                B = LinearOPE(prob->GetDomain()->GetEMPTYINTR().Getlength(), prob->GetDomain()->GetEMPTYINTR().Getlength());
             }
             else
             {
-                initialB = new LinearOPE(prob->GetDomain()->GetEMPTYEXTR().Getlength(), prob->GetDomain()->GetEMPTYEXTR().Getlength());
+                B = LinearOPE(prob->GetDomain()->GetEMPTYEXTR().Getlength(), prob->GetDomain()->GetEMPTYEXTR().Getlength());
             }
-            initialB->ScaledIdOPE();
+            B.ScaledIdOPE();
+        }
+        else
+        {
+            B = *initialB;
         }
-        B = *initialB;
-        if (initBisnull)
-            delete initialB;
         prob->SetUseGrad(true);
         prob->SetUseHess(false);
         s = Prob->GetDomain()->GetEMPTY();
diff --git a/Solvers/RWRBFGS.cpp b/Solvers/RWRBFGS.cpp
index 53eb0ff..d04a69e 100644
--- a/Solvers/RWRBFGS.cpp
+++ b/Solvers/RWRBFGS.cpp
@@ -18,22 +18,22 @@ namespace ROPTLIB{
 	void RWRBFGS::SetProbX(const Problem *prob, const Variable *initialx, LinearOPE *initialH)
 	{
 		SolversSMLS::SetProbX(prob, initialx);
-        bool initHisnull = (initialH == nullptr);
-        if (initHisnull)
+        if (initialH == nullptr)
         {
             if (prob->GetDomain()->GetIsIntrinsic())
             {
-                initialH = new LinearOPE(prob->GetDomain()->GetEMPTYINTR().Getlength(), prob->GetDomain()->GetEMPTYINTR().Getlength());
+                H = LinearOPE(prob->GetDomain()->GetEMPTYINTR().Getlength(), prob->GetDomain()->GetEMPTYINTR().Getlength());
             }
             else
             {
-                initialH = new LinearOPE(prob->GetDomain()->GetEMPTYEXTR().Getlength(), prob->GetDomain()->GetEMPTYEXTR().Getlength());
+                H = LinearOPE(prob->GetDomain()->GetEMPTYEXTR().Getlength(), prob->GetDomain()->GetEMPTYEXTR().Getlength());
             }
-            initialH->ScaledIdOPE();
+            H.ScaledIdOPE();
+        }
+        else
+        {
+            H = *initialH;
         }
-        H = *initialH;
-        if (initHisnull)
-            delete initialH;
         prob->SetUseGrad(true);
         prob->SetUseHess(false);
         s = Prob->GetDomain()->GetEMPTY();
diff --git a/Solvers/SolversNSMPGLS.h b/Solvers/SolversNSMPGLS.h
index abf7829..fcdaf24 100644
--- a/Solvers/SolversNSMPGLS.h
+++ b/Solvers/SolversNSMPGLS.h
@@ -92,7 +92,7 @@ namespace ROPTLIB{
         /*Data for ProximalMap*/
         Vector initD;
         
-        std::string *LSstatusSetnames;    /*This string array is to store the line search status names*/
+        std::string *LSstatusSetnames = nullptr;    /*This string array is to store the line search status names*/
 	};
 }; /*end of ROPTLIB namespace*/
 #endif /* end of SOLVERSNSMPGLS_H */
diff --git a/Solvers/SolversNSMSub.h b/Solvers/SolversNSMSub.h
index 9cfb982..b7e97ac 100644
--- a/Solvers/SolversNSMSub.h
+++ b/Solvers/SolversNSMSub.h
@@ -77,14 +77,14 @@ namespace ROPTLIB{
         Vector &(SolversNSMSub::*Hv)(const Vector &v, Vector *result);
 
 		/* the next six parameters are for stopping criterion of optimizing partly smooth cost functions */
-		Vector *gfs; /*The gradients of previous few steps*/
+		Vector *gfs = nullptr; /*The gradients of previous few steps*/
 		integer Lengthgfs; /*The maximum length of gfs*/
 		integer Currentlengthgfs; /*the current of gfs*/
 		integer idxgfs; /*current idx of gfs*/
 		integer subprobtimes; /*the number of runs for solving the sub convex problem*/
 
 		/*points in a neighborhood of current iterate. It is used in RGS.*/
-		Variable *Xs;
+		Variable *Xs = nullptr;
 	};
 
 }; /*end of ROPTLIB namespace*/
diff --git a/Solvers/SolversNSMSubLS.h b/Solvers/SolversNSMSubLS.h
index f3ff877..98cf8e4 100644
--- a/Solvers/SolversNSMSubLS.h
+++ b/Solvers/SolversNSMSubLS.h
@@ -123,7 +123,7 @@ namespace ROPTLIB{
         realdp stepsize;        /*The step size*/
         realdp initialslope;
         realdp newslope;
-        std::string *LSstatusSetnames;    /*This string array is to store the line search status names*/
+        std::string *LSstatusSetnames = nullptr;    /*This string array is to store the line search status names*/
     private:
         void ZoomLP(realdp a, realdp b);
 
diff --git a/Solvers/SolversSMLS.h b/Solvers/SolversSMLS.h
index a350493..602f204 100644
--- a/Solvers/SolversSMLS.h
+++ b/Solvers/SolversSMLS.h
@@ -204,7 +204,7 @@ namespace ROPTLIB{
 		realdp initialslopepre, initialslope, newslope;	/*The slopes for the scalar function h(t) = f(R_{x_1}(t * eta1)) at 0 and at the accepted stepsize*/
 		std::list<realdp> pre_funs; /* Store a few computed function values for nonmonotonic line search*/
 		LSstatusSetSM LSstatus;	/*The line search status produced by the linesearch algorithm*/
-		std::string *LSstatusSetnames;	/*This string array is to store the line search status names*/
+		std::string *LSstatusSetnames = nullptr;	/*This string array is to store the line search status names*/
 	private:
 		/*The function used in the strong Wolfe condition. See Algorithm 3.6 in [NW06]
 		[NW06] : J.Nocedal and S.J.Wright.Numerical optimization.Springer, second edition, 2006 */
diff --git a/Solvers/SolversSMTR.h b/Solvers/SolversSMTR.h
index c7dcb42..21c25b7 100644
--- a/Solvers/SolversSMTR.h
+++ b/Solvers/SolversSMTR.h
@@ -126,7 +126,7 @@ namespace ROPTLIB{
         Vector Heta2;
 		integer innerIter;	/*The number of inner iterations for solving the local model.*/
 		tCGstatusSetSM tCGstatusSM; /*The status of solving the local model*/
-		std::string *tCGstatusSetSMnames;	/*This string array is to store the trust region status names*/
+		std::string *tCGstatusSetSMnames = nullptr;	/*This string array is to store the trust region status names*/
 	};
 }; /*end of ROPTLIB namespace*/
 #endif
-- 
2.43.0


From 48da6353ffd2183a85998ba2b331538ace03878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 38/62] fix: destroyed sparse matrices never give their table
 slot back, and failed construction leaks

Table_insert appended for ever because its test for a free slot was always true;
a bad_alloc while inserting entries left the handle in the table for ever.
---
 Others/SparseBLAS/nist_spblas.cpp | 22 +++++++++++++++-------
 Others/SparseMatrix.cpp           | 20 ++++++++++++++++++--
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/Others/SparseBLAS/nist_spblas.cpp b/Others/SparseBLAS/nist_spblas.cpp
index 3224132..c2f6e7c 100644
--- a/Others/SparseBLAS/nist_spblas.cpp
+++ b/Others/SparseBLAS/nist_spblas.cpp
@@ -52,13 +52,7 @@ namespace NIST_SPBLAS{
     */
     int Table_insert(Sp_mat* S)
     {
-      if (Table_active_matrices <= Table.size())
-      {
-        Table.push_back(S);
-        Table_active_matrices++;
-        return static_cast<int> (Table.size() - 1);
-      }
-      else
+      if (Table_active_matrices < Table.size())
       {
         /* there is an available slot; find it. */
         for (unsigned int i=0; i<Table.size(); i++)
@@ -71,6 +65,20 @@ namespace NIST_SPBLAS{
           }
         }
       }
+      else
+      {
+        try
+        {
+          Table.push_back(S);
+        }
+        catch (...)
+        {
+          delete S;
+          throw;
+        }
+        Table_active_matrices++;
+        return static_cast<int> (Table.size() - 1);
+      }
 
       return -1;
     }
diff --git a/Others/SparseMatrix.cpp b/Others/SparseMatrix.cpp
index 9fec3e1..522a166 100644
--- a/Others/SparseMatrix.cpp
+++ b/Others/SparseMatrix.cpp
@@ -14,7 +14,15 @@ namespace ROPTLIB{
 #else
         SparseM = BLAS_duscr_begin(m, n);
 #endif
-        BLAS_uscr_insert_entries(SparseM, nz, vals, ir, jc);
+        try
+        {
+            BLAS_uscr_insert_entries(SparseM, nz, vals, ir, jc);
+        }
+        catch (...)
+        { /*the destructor does not run for an object whose constructor throws*/
+            BLAS_usds(SparseM);
+            throw;
+        }
 #ifdef SINGLE_PRECISION
         BLAS_suscr_end(SparseM);
 #else
@@ -32,7 +40,15 @@ namespace ROPTLIB{
 #else
         SparseM = BLAS_zuscr_begin(m, n);
 #endif
-        BLAS_uscr_insert_entries(SparseM, nz, vals, ir, jc);
+        try
+        {
+            BLAS_uscr_insert_entries(SparseM, nz, vals, ir, jc);
+        }
+        catch (...)
+        { /*the destructor does not run for an object whose constructor throws*/
+            BLAS_usds(SparseM);
+            throw;
+        }
 #ifdef SINGLE_PRECISION
         BLAS_cuscr_end(SparseM);
 #else
-- 
2.43.0


From eb3d197a0acbfb063fc34ce91de74faaae33d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 39/62] fix: RandGaussian(mean, variance) draws from
 N(mean*variance, variance^2)

---
 Manifolds/SmartSpace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 5d9629c..a5845a7 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -56,8 +56,9 @@ namespace ROPTLIB{
 	void SmartSpace::RandGaussian(realdp mean, realdp variance)
 	{
 		NewMemoryOnWrite();
+		realdp sd = std::sqrt(variance);
 		for (integer i = 0; i < length; i++)
-			Space[i] = (genrandnormal() + mean) * variance;
+			Space[i] = genrandnormal() * sd + mean;
 	};
 
     void SmartSpace::SetToZeros(void)
-- 
2.43.0


From a8045903c5722a616b946787b9da14cfe70c921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 40/62] fix: sparse entry insertion leaks its index array when
 an allocation fails

---
 Others/BlasLapackCppWrapper.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/Others/BlasLapackCppWrapper.cpp b/Others/BlasLapackCppWrapper.cpp
index e328e1a..2fe6bb8 100644
--- a/Others/BlasLapackCppWrapper.cpp
+++ b/Others/BlasLapackCppWrapper.cpp
@@ -6,7 +6,8 @@ More functions will be added in this class.
 -----WH
 */
 
-#include "Others/BlasLapackCppWrapper.h"
+#include "Others/BlasLapackCppWrapper.h"
+#include <vector>
 
 /*Define the namespace */
 namespace ROPTLIB {
@@ -1193,7 +1194,8 @@ namespace ROPTLIB {
 
 	void BLAS_uscr_insert_entries(blas_sparse_matrix A, integer nz, const float *val, const integer *indx, const integer *jndx)
 	{
-		int *indxptr = new int[nz * 2];
+		std::vector<int> indices(nz * 2);
+		int *indxptr = indices.data();
 		int *jndxptr = indxptr + nz;
 		for (integer i = 0; i < nz; i++)
 		{
@@ -1201,11 +1203,11 @@ namespace ROPTLIB {
 			jndxptr[i] = jndx[i];
 		}
 		BLAS_suscr_insert_entries(A, nz, val, indxptr, jndxptr);
-		delete[] indxptr;
 	}
 	void BLAS_uscr_insert_entries(blas_sparse_matrix A, integer nz, const double *val, const integer *indx, const integer *jndx)
 	{
-		int *indxptr = new int[nz * 2];
+		std::vector<int> indices(nz * 2);
+		int *indxptr = indices.data();
 		int *jndxptr = indxptr + nz;
 		for (integer i = 0; i < nz; i++)
 		{
@@ -1213,11 +1215,11 @@ namespace ROPTLIB {
 			jndxptr[i] = jndx[i];
 		}
 		BLAS_duscr_insert_entries(A, nz, val, indxptr, jndxptr);
-		delete[] indxptr;
 	}
 	void BLAS_uscr_insert_entries(blas_sparse_matrix A, integer nz, const complex *val, const integer *indx, const integer *jndx)
 	{
-		int *indxptr = new int[nz * 2];
+		std::vector<int> indices(nz * 2);
+		int *indxptr = indices.data();
 		int *jndxptr = indxptr + nz;
 		for (integer i = 0; i < nz; i++)
 		{
@@ -1225,11 +1227,11 @@ namespace ROPTLIB {
 			jndxptr[i] = jndx[i];
 		}
 		BLAS_cuscr_insert_entries(A, nz, val, indxptr, jndxptr);
-		delete[] indxptr;
 	}
 	void BLAS_uscr_insert_entries(blas_sparse_matrix A, integer nz, const doublecomplex *val, const integer *indx, const integer *jndx)
 	{
-		int *indxptr = new int[nz * 2];
+		std::vector<int> indices(nz * 2);
+		int *indxptr = indices.data();
 		int *jndxptr = indxptr + nz;
 		for (integer i = 0; i < nz; i++)
 		{
@@ -1237,7 +1239,6 @@ namespace ROPTLIB {
 			jndxptr[i] = jndx[i];
 		}
 		BLAS_zuscr_insert_entries(A, nz, val, indxptr, jndxptr);
-		delete[] indxptr;
 	}
 
 //#if ! defined(__APPLE__) || defined(MATLAB_MEX_FILE)
-- 
2.43.0


From a2c9db3c00ffb9e5a6d318ae9ff04045ee2ffa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 41/62] fix: RGS turns a vanishing random sample into NaN
 directions

---
 Solvers/RGS.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Solvers/RGS.cpp b/Solvers/RGS.cpp
index e93ddb5..946fcca 100644
--- a/Solvers/RGS.cpp
+++ b/Solvers/RGS.cpp
@@ -29,8 +29,13 @@ namespace ROPTLIB{
         for(integer i = 1; i < Lengthgfs; i++)
         {
             gfs[i] = gf1;
-            gfs[i].RandGaussian();
-            Mani->Projection(x1, gfs[i], &gfs[i]);
+            for (integer trial = 0; trial < 10; trial++)
+            { /*a sample may vanish on a one-dimensional tangent space; it has no direction and is drawn again*/
+                gfs[i].RandGaussian();
+                Mani->Projection(x1, gfs[i], &gfs[i]);
+                if (Mani->Metric(x1, gfs[i], gfs[i]) > 0)
+                    break;
+            }
 //            std::cout << "i:" << i << std::endl;//---
 //            gfs[i].GetTranspose().Print("gfi transpose:");//----
         }
-- 
2.43.0


From cac83a147c67f7e26191531b319ab3e6d430e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 42/62] fix: LRTRSR1 forgets its pairs when their matrix is
 singular instead of stepping to nan

---
 Solvers/LRTRSR1.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 93db4d6..0734c9d 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -146,6 +146,14 @@ namespace ROPTLIB{
             
             P_parallel.AlphaABaddBetaThis(1, Psi.Field("_Q"), GLOBAL::N, RinvPMGQRT.Field("_EigVec"), GLOBAL::N, 0); /* P_parallel = Psi.Field("_Q") * RinvPMGQRT.Field("_EigVec"); */
             D = RinvPMGQRT.Field("_EigVal");
+            if(! (D.Fnorm() <= std::numeric_limits<realdp>::max()))
+            {/*PMGQ is singular, e.g., the same pair has been stored twice. Start with an empty memory*/
+                Currentlength = 0;
+                beginidx = 0;
+                gf1.Setiscomplex(gf1iscomplex);
+                tCG_TR();
+                return;
+            }
             Vector gf1reshape(gf1); gf1reshape.Reshape(n);
             Psig.AlphaABaddBetaThis(1, Psi, GLOBAL::T, gf1reshape, GLOBAL::N, 0); /* Psig = Psi.GetTranspose() * gf1.GetReshape(n); */
             g_parallel.AlphaABaddBetaThis(1, P_parallel, GLOBAL::T, gf1reshape, GLOBAL::N, 0); /* g_parallel = P_parallel.GetTranspose() * gf1.GetReshape(n); */
-- 
2.43.0


From 616113c552ee78e0c71886a43c274d7e971a3f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:45 +0000
Subject: [PATCH 43/62] fix: TranHInvTran of SymFixedRankQ and CSymFixedRankQ
 with HasHHR called the wrong transport and aborted

---
 Manifolds/CSymFixedRankQ.cpp | 2 +-
 Manifolds/SymFixedRankQ.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 25e9b52..5351e91 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -236,7 +236,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: CSymFixedRankQ::TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index f2187ce..13b2bf4 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -287,7 +287,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
-- 
2.43.0


From 3bc6273bee1c7c708c9d3ac438b39625da2aec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:45 +0000
Subject: [PATCH 44/62] fix: Sphere and SPDManifold ignored HasHHR in their
 transports, so Beta's assertion aborted runs

---
 Manifolds/SPDManifold.cpp |  3 +++
 Manifolds/Sphere.cpp      | 10 +++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 776398c..0e1c007 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -471,6 +471,9 @@ namespace ROPTLIB{
 
     Vector &SPDManifold::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
     {
+        if (HasHHR)
+            return LCVectorTransport(x, etax, y, xix, result);
+        
         if (VecTran == SPDPARATRAN)
             return ParallelTranslation(x, etax, y, xix, result);
         
diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index da4bcd4..13fc36e 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -216,7 +216,7 @@ namespace ROPTLIB{
 
 	Vector &Sphere::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
 	{
-		if (VecTran == STIE_PARALLELTRANSLATION)
+		if (VecTran == STIE_PARALLELTRANSLATION && !HasHHR)
 		{
 			return ExpVectorTransport(x, etax, y, xix, result);
 		}
@@ -225,7 +225,7 @@ namespace ROPTLIB{
 
 	Vector &Sphere::InverseVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
 	{
-		if (VecTran == STIE_PARALLELTRANSLATION)
+		if (VecTran == STIE_PARALLELTRANSLATION && !HasHHR)
 		{
 			return ExpInverseVectorTransport(x, etax, y, xiy, result);
 		}
@@ -234,7 +234,7 @@ namespace ROPTLIB{
 
 	LinearOPE &Sphere::HInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, integer start, integer end, LinearOPE *result) const
 	{
-		if (VecTran == STIE_PARALLELTRANSLATION)
+		if (VecTran == STIE_PARALLELTRANSLATION && !HasHHR)
 		{
 			return ExpHInvTran(x, etax, y, Hx, start, end, result);
 		}
@@ -243,7 +243,7 @@ namespace ROPTLIB{
 
 	LinearOPE &Sphere::TranH(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, integer start, integer end, LinearOPE *result) const
 	{
-		if (VecTran == STIE_PARALLELTRANSLATION)
+		if (VecTran == STIE_PARALLELTRANSLATION && !HasHHR)
 		{
 			return ExpTranH(x, etax, y, Hx, start, end, result);
 		}
@@ -252,7 +252,7 @@ namespace ROPTLIB{
 
 	LinearOPE &Sphere::TranHInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, LinearOPE *result) const
 	{
-		if (VecTran == STIE_PARALLELTRANSLATION)
+		if (VecTran == STIE_PARALLELTRANSLATION && !HasHHR)
 		{
 			return ExpTranHInvTran(x, etax, y, Hx, result);
 		}
-- 
2.43.0


From dbb38153c595d0dc60ebce930352d4e9ec0fd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:45 +0000
Subject: [PATCH 45/62] fix: a product with extrinsic tangent vectors left its
 components in intrinsic mode

---
 Manifolds/MultiManifolds.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 778390f..dd4e0ae 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -133,6 +133,7 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                 result += manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), xix.GetElement(j));
             }
         }
@@ -169,6 +170,7 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                 manifolds[i]->Projection(x.GetElement(j), inetax.GetElement(j), &(result->GetElement(j)));
             }
         }
@@ -186,6 +188,7 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                 manifolds[i]->ExtrProjection(x.GetElement(j), inetax.GetElement(j), &(result->GetElement(j)));
             }
         }
@@ -258,6 +261,7 @@ namespace ROPTLIB{
         {
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                 manifolds[i]->coTangentVector(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxiy.GetElement(j), &(result->GetElement(j)));
             }
         }
@@ -289,6 +293,7 @@ namespace ROPTLIB{
 				}
 				else
 				{
+                    TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                     tmp = manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), etax.GetElement(j));
 					numerator += tmp;
 					denominator += tmp;
@@ -307,6 +312,7 @@ namespace ROPTLIB{
         {
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                 manifolds[i]->DiffRetraction(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxix.GetElement(j), &(result->GetElement(j)), IsEtaXiSameDir);
             }
         }
@@ -356,6 +362,7 @@ namespace ROPTLIB{
         {
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                 manifolds[i]->VectorTransport(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxix.GetElement(j), &(result->GetElement(j)));
             }
         }
@@ -374,6 +381,7 @@ namespace ROPTLIB{
         {
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                 manifolds[i]->InverseVectorTransport(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxiy.GetElement(j), &(result->GetElement(j)));
             }
         }
@@ -394,6 +402,7 @@ namespace ROPTLIB{
 			{
 				start = end;
 				end = start + etax.GetElement(j).Getlength();
+				TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
 				manifolds[i]->HInvTran(x.GetElement(j), etax.GetElement(j), y.GetElement(j), *result, start, end, result);
 				manifolds[i]->TranH(x.GetElement(j), etax.GetElement(j), y.GetElement(j), *result, start, end, result);
 			}
@@ -410,6 +419,7 @@ namespace ROPTLIB{
         {
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                 manifolds[i]->ObtainEtaxFlat(x.GetElement(j), xix.GetElement(j), &(xixflat.GetElement(j)));
             }
         }
@@ -479,6 +489,7 @@ namespace ROPTLIB{
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 egf.CopyFieldsTo(egf.GetElement(j));
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                 manifolds[i]->EucGradToGrad(x.GetElement(j), inegf.GetElement(j), prob, &(result->GetElement(j)));
             }
         }
@@ -496,6 +507,7 @@ namespace ROPTLIB{
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 inexix.CopyFieldsTo(inexix.GetElement(j));
+                TempFlag extrinsic(manifolds[i]->IsIntrApproach, manifolds[i]->IsIntrApproach && IsIntrApproach);
                 manifolds[i]->EucHvToHv(x.GetElement(j), etax.GetElement(j), inexix.GetElement(j), prob, &(result->GetElement(j)));
             }
         }
-- 
2.43.0


From 4809c26545cf742d0ed493601c132a6c90ea4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:45 +0000
Subject: [PATCH 46/62] fix: LRTRSR1 took an inner product of extrinsic
 gradients with the wrong layout and aborted on complex manifolds

---
 Solvers/LRTRSR1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 0734c9d..8ea4cbe 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -174,7 +174,7 @@ namespace ROPTLIB{
         for(integer i = 0; i < k + 1; i++)
             if(lambda_min > Lambdaptr[i])
                 lambda_min = Lambdaptr[i];
-        realdp a_kp2 = std::sqrt(Mani->Metric(x1, gf1, gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel)));
+        realdp a_kp2 = std::sqrt(gf1.DotProduct(gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel)));
         
         if (std::isnan(a_kp2) || a_kp2 * a_kp2 < tolLocalNewton) /*nan: the square is negative by rounding errors*/
             a_kp2 = 0;
-- 
2.43.0


From 7e253df690465612dcb2bc1360cdde48c45fb3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:39 +0000
Subject: [PATCH 47/62] fix: SphereTx let rounding errors leave the tangent
 space, iterates of extrinsic base manifolds drifted off the sphere

---
 Manifolds/SphereTx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 4c61b58..c0ef257 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -83,6 +83,8 @@ namespace ROPTLIB{
 		else
 			mani->VectorLinearCombination(root, cos(norm), x, sin(norm) / norm, etax, result);
 
+		/* rounding errors normal to the tangent space would accumulate otherwise */
+		mani->Projection(root, *result, result);
 		norm = sqrt(this->Metric(x, *result, *result));
         return mani->ScalarTimesVector(root, static_cast<realdp> (1) / norm, *result, result);
 	};
-- 
2.43.0


From 8ee820fa0c195f2ebd52656456bbc81431ff6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:06 +0000
Subject: [PATCH 48/62] fix: SPDManifold::SecOrdRetraction let rounding errors
 make iterates non-symmetric with extrinsic tangent vectors

---
 Manifolds/SPDManifold.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 0e1c007..91a1c5c 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -252,6 +252,16 @@ namespace ROPTLIB{
         
         result->AlphaXaddThis(1, exetax);
         result->AlphaXaddThis(1, x);
+        /*etax and x are symmetric up to rounding errors, which must not accumulate over the iterates*/
+        realdp *resultptr = result->ObtainWritePartialData();
+        for (integer i = 0; i < n; i++)
+        {
+            for (integer j = i + 1; j < n; j++)
+            {
+                resultptr[j + i * n] = (resultptr[j + i * n] + resultptr[i + j * n]) * static_cast<realdp> (0.5);
+                resultptr[i + j * n] = resultptr[j + i * n];
+            }
+        }
         
         if (!result->FieldsExist("_L"))
         {
-- 
2.43.0


From a72eb239f9ec91bb2042f339fee4b2325d694a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:09 +0000
Subject: [PATCH 49/62] fix: MultiManifolds::TranHInvTran ignored the operator
 it was given and transformed the old content of the result

---
 Manifolds/MultiManifolds.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index dd4e0ae..2b90a48 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -393,6 +393,7 @@ namespace ROPTLIB{
 		if (HasHHR)
 			return LCTranHInvTran(x, etax, y, Hx, result);
 
+        *result = Hx;
         result->CopyOnWrite();
         
 		integer start, end = 0;
-- 
2.43.0


From 1b862ff7062fac98fef28e0be72cd53288d9116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:09 +0000
Subject: [PATCH 50/62] fix: SymFixedRankQ::ObtainExtrQEUC aborted if
 ObtainIntrQEUC was not called at the same iterate before

---
 Manifolds/SymFixedRankQ.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 13b2bf4..8a089d3 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -698,6 +698,12 @@ namespace ROPTLIB{
             x.HHRDecom();
         }
         
+        if(!x.FieldsExist("BL"))
+        { /*the field BL depends on x only and is computed in ObtainIntrQEUC*/
+            Vector intrx(EMPTYINTR);
+            ObtainIntrQEUC(x, x, &intrx);
+        }
+        
         integer dim = p * (p + 1) / 2;
         Vector BL = x.Field("BL");
         
-- 
2.43.0


From 36d1e2332a8d798f4ee7138570d65002cb97054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:09 +0000
Subject: [PATCH 51/62] fix: FixedRankQ2F, CFixedRankQ2F checked for one field
 and used another one, aborted after ObtainIntr at a new iterate

---
 Manifolds/CFixedRankQ2F.cpp | 8 ++++----
 Manifolds/FixedRankQ2F.cpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Manifolds/CFixedRankQ2F.cpp b/Manifolds/CFixedRankQ2F.cpp
index 9842671..006fcda 100644
--- a/Manifolds/CFixedRankQ2F.cpp
+++ b/Manifolds/CFixedRankQ2F.cpp
@@ -538,13 +538,13 @@ namespace ROPTLIB{
         result->NewMemoryOnWrite();
         
         Vector G = x.GetElement(0), H = x.GetElement(1);
-        if(!G.FieldsExist("_LG"))
+        if(!G.FieldsExist("_L"))
         {
             Vector tmp = G.GetTranspose() * G;
             tmp.CholDecom();
             x.GetElement(0).AddToFields("_L", tmp.Field("_L"));
         }
-        if(!H.FieldsExist("_LH"))
+        if(!H.FieldsExist("_L"))
         {
             Vector tmp = H.GetTranspose() * H;
             tmp.CholDecom();
@@ -608,14 +608,14 @@ namespace ROPTLIB{
     {
         Variable G = x.GetElement(0);
         Variable H = x.GetElement(1);
-        if(!G.FieldsExist("_LG"))
+        if(!G.FieldsExist("_L"))
         {
             Vector tmp = G.GetTranspose() * G;
             tmp.CholDecom();
             x.GetElement(0).AddToFields("_L", tmp.Field("_L"));
         }
         
-        if(!H.FieldsExist("_LH"))
+        if(!H.FieldsExist("_L"))
         {
             Vector tmp = H.GetTranspose() * H;
             tmp.CholDecom();
diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 7691906..90cb139 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -511,13 +511,13 @@ namespace ROPTLIB{
         result->NewMemoryOnWrite();
         
         Vector G = x.GetElement(0), H = x.GetElement(1);
-        if(!G.FieldsExist("_LG"))
+        if(!G.FieldsExist("_L"))
         {
             Vector tmp = G.GetTranspose() * G;
             tmp.CholDecom();
             x.GetElement(0).AddToFields("_L", tmp.Field("_L"));
         }
-        if(!H.FieldsExist("_LH"))
+        if(!H.FieldsExist("_L"))
         {
             Vector tmp = H.GetTranspose() * H;
             tmp.CholDecom();
@@ -581,14 +581,14 @@ namespace ROPTLIB{
     {
         Variable G = x.GetElement(0);
         Variable H = x.GetElement(1);
-        if(!G.FieldsExist("_LG"))
+        if(!G.FieldsExist("_L"))
         {
             Vector tmp = G.GetTranspose() * G;
             tmp.CholDecom();
             x.GetElement(0).AddToFields("_L", tmp.Field("_L"));
         }
         
-        if(!H.FieldsExist("_LH"))
+        if(!H.FieldsExist("_L"))
         {
             Vector tmp = H.GetTranspose() * H;
             tmp.CholDecom();
-- 
2.43.0


From 4e0b1e4642ac228d416c3baab089c4a150a1de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:09 +0000
Subject: [PATCH 52/62] fix: after a failed allocation an element kept the
 first half of a cached factorization and the next use aborted

---
 Manifolds/CStiefel.cpp   | 2 +-
 Manifolds/Element.cpp    | 4 ++--
 Manifolds/FixedRankE.cpp | 4 ++--
 Manifolds/Grassmann.cpp  | 2 +-
 Manifolds/Manifold.cpp   | 2 +-
 Manifolds/Stiefel.cpp    | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index be3044d..c3ff6e7 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -435,8 +435,8 @@ namespace ROPTLIB{
                 scal_(&n, &GLOBAL::ZNONE, resultptr + i * n, &GLOBAL::IONE);
             }
         }
-        result->AddToFields("_HHR", xaddetax.Field("_HHR"));
         result->AddToFields("_tau", xaddetax.Field("_tau"));
+        result->AddToFields("_HHR", xaddetax.Field("_HHR"));
 
         return *result;
 	};
diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 5ab2caf..dc00077 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1094,8 +1094,8 @@ namespace ROPTLIB{
                 if (jpvt[i] != (i + 1))
                     printf("Error in qr decomposition!\n");
             }
-            AddToFields("_HHR", HHR);
             AddToFields("_tau", tau);
+            AddToFields("_HHR", HHR);
             delete[] jpvt;
             delete[] work;
             return;
@@ -1127,8 +1127,8 @@ namespace ROPTLIB{
             if (jpvt[i] != (i + 1))
                 printf("Error in qr decomposition!\n");
         }
-        AddToFields("_HHR", HHR);
         AddToFields("_tau", tau);
+        AddToFields("_HHR", HHR);
         delete[] jpvt;
         delete[] work;
         delete[] rwork;
diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 84ca83b..196ef46 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -175,8 +175,8 @@ namespace ROPTLIB{
         Vector Uy = Q * (R.Field("_U") * R.Field("_Vt"));
         Uy.AddToFields("_Vt", R.Field("_Vt"));
         Uy.AddToFields("_S", R.Field("_S"));
-        Uy.AddToFields("_HHR", UdU.Field("_HHR"));
         Uy.AddToFields("_tau", UdU.Field("_tau"));
+        Uy.AddToFields("_HHR", UdU.Field("_HHR"));
         
         Vector VdV = Vx + dV;
         VdV.QRDecom();
@@ -185,8 +185,8 @@ namespace ROPTLIB{
         Vector Vy = Q * (R.Field("_U") * R.Field("_Vt"));
         Vy.AddToFields("_Vt", R.Field("_Vt"));
         Vy.AddToFields("_S", R.Field("_S"));
-        Vy.AddToFields("_HHR", VdV.Field("_HHR"));
         Vy.AddToFields("_tau", VdV.Field("_tau"));
+        Vy.AddToFields("_HHR", VdV.Field("_HHR"));
         
         Vector Dy = Dx + dD;
         *result = Uy * Dy * Vy.GetTranspose();
diff --git a/Manifolds/Grassmann.cpp b/Manifolds/Grassmann.cpp
index b10c0c9..5ac7c4d 100644
--- a/Manifolds/Grassmann.cpp
+++ b/Manifolds/Grassmann.cpp
@@ -70,8 +70,8 @@ namespace ROPTLIB{
                 scal_(&n, &GLOBAL::DNONE, resultptr + i * n, &GLOBAL::IONE);
             }
         }
-        result->AddToFields("_HHR", xaddetax.Field("_HHR"));
         result->AddToFields("_tau", xaddetax.Field("_tau"));
+        result->AddToFields("_HHR", xaddetax.Field("_HHR"));
         
         return *result;
 	};
diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index c077a30..6697f0d 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -715,9 +715,9 @@ namespace ROPTLIB{
         tau1tau2ptr[0] = (nu1nu1 > 0) ? static_cast<realdp> (2) / nu1nu1 : 0;
         tau1tau2ptr[1] = (nu2nu2 > 0) ? static_cast<realdp> (2) / nu2nu2 : 0;
         
-        etax.AddToFields("tau1tau2", tau1tau2);
         etax.AddToFields("nu1", nu1);
         etax.AddToFields("nu2", nu2);
+        etax.AddToFields("tau1tau2", tau1tau2);
     };
 
     Vector &Manifold::LCVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index b6fb48b..af4141f 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -459,8 +459,8 @@ namespace ROPTLIB{
                 scal_(&n, &GLOBAL::DNONE, resultptr + i * n, &GLOBAL::IONE);
             }
         }
-        result->AddToFields("_HHR", xaddetax.Field("_HHR"));
         result->AddToFields("_tau", xaddetax.Field("_tau"));
+        result->AddToFields("_HHR", xaddetax.Field("_HHR"));
         
         return *result;
 	};
-- 
2.43.0


From 439256fa8f0eee8fe9d17591e74ec0455d072ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:09 +0000
Subject: [PATCH 53/62] fix: Grassmann::DiffRetraction returned a vector that
 is not horizontal with the extrinsic representation

---
 Manifolds/Grassmann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Grassmann.cpp b/Manifolds/Grassmann.cpp
index 5ac7c4d..552b1fb 100644
--- a/Manifolds/Grassmann.cpp
+++ b/Manifolds/Grassmann.cpp
@@ -112,7 +112,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
             ObtainIntr(y, exresult, result);
         else
-            *result = exresult;
+            ExtrProjection(y, exresult, result);
         
         if (IsEtaXiSameDir && HasHHR)
         {
-- 
2.43.0


From 100b7764e3ca00154c27dd877a378176f09d86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 54/62] fix: Stiefel with the Cayley retraction used the
 factors of the last retraction, not those of the given tangent vector, and
 aborted if x had none

---
 Manifolds/Stiefel.cpp | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index af4141f..bf1959e 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -814,10 +814,12 @@ namespace ROPTLIB{
 		realdp *resultptr = result->ObtainWritePartialData();
 		gemm_(GLOBAL::N, GLOBAL::N, &N, &P, &P2, &GLOBAL::DONE, Uptr, &N, Mk3ptr, &P2, &GLOBAL::DONE, resultptr, &N);
 
-        x.AddToFields("Mk2", Mk2);
-        x.AddToFields("Mk3", Mk3);
-        x.AddToFields("LUP", LUP);
-        x.AddToFields("U", U);
+        /*Mk2, Mk3, LUP and U depend on both x and etax. They are therefore attached to etax, as x may have been
+        retracted along another tangent vector in the meantime. LUP is added last since it is the one being checked.*/
+        etax.AddToFields("Mk2", Mk2);
+        etax.AddToFields("Mk3", Mk3);
+        etax.AddToFields("U", U);
+        etax.AddToFields("LUP", LUP);
         return *result;
 	};
 
@@ -831,10 +833,15 @@ namespace ROPTLIB{
 	{
 		if (IsEtaXiSameDir)
 		{
-			const realdp *Mk2ptr = x.Field("Mk2").ObtainReadData();
-			const realdp *Mk3ptr = x.Field("Mk3").ObtainReadData();
-			const realdp *LUPptr = x.Field("LUP").ObtainReadData();
-			const realdp *Uptr = x.Field("U").ObtainReadData();
+			if (!etax.FieldsExist("LUP"))
+			{
+				Variable tmpy(y);
+				CayleyRetraction(x, etax, &tmpy);
+			}
+			const realdp *Mk2ptr = etax.Field("Mk2").ObtainReadData();
+			const realdp *Mk3ptr = etax.Field("Mk3").ObtainReadData();
+			const realdp *LUPptr = etax.Field("LUP").ObtainReadData();
+			const realdp *Uptr = etax.Field("U").ObtainReadData();
 
 			realdp *Mk2Mk3 = new realdp[4 * p * p];
 			realdp *tmp = Mk2Mk3 + 2 * p * p;
@@ -902,8 +909,13 @@ namespace ROPTLIB{
         else
             exxix = xix;
         
-        const realdp *LUPptr = x.Field("LUP").ObtainReadData();
-        const realdp *Uptr = x.Field("U").ObtainReadData();
+        if (!etax.FieldsExist("LUP"))
+        {
+            Variable tmpy(y);
+            CayleyRetraction(x, etax, &tmpy);
+        }
+        const realdp *LUPptr = etax.Field("LUP").ObtainReadData();
+        const realdp *Uptr = etax.Field("U").ObtainReadData();
         
 		realdp *V = new realdp[n * 2 * p + 2 * p * p];
 		realdp *Vtxix = V + n * 2 * p;
@@ -943,8 +955,13 @@ namespace ROPTLIB{
         else
             exxiy = xiy;
         
-        const realdp *LUPptr = x.Field("LUP").ObtainReadData();
-        const realdp *Uptr = x.Field("U").ObtainReadData();
+        if (!etax.FieldsExist("LUP"))
+        {
+            Variable tmpy(y);
+            CayleyRetraction(x, etax, &tmpy);
+        }
+        const realdp *LUPptr = etax.Field("LUP").ObtainReadData();
+        const realdp *Uptr = etax.Field("U").ObtainReadData();
         
 		realdp *V = new realdp[n * 2 * p + 2 * p * p];
 		realdp *Utxiy = V + n * 2 * p;
-- 
2.43.0


From 47bd90e87496e90c2570c8ee072d1fd0d30b1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:01 +0000
Subject: [PATCH 55/62] fix: FixedRankE left HasHHR uninitialized

---
 Manifolds/FixedRankE.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 196ef46..1f6e3d8 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -10,6 +10,7 @@ namespace ROPTLIB{
 		n = inn;
 		r = inr;
 		name.assign("FixedRankEmbedded");
+        HasHHR = false;
         IsIntrApproach = false;
         ExtrinsicDim = n * m;
         IntrinsicDim = (m - r) * r + r * r + (n - r) * r;
-- 
2.43.0


From d504f926fc31a27ca9d507887f440b3a11bcc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:01 +0000
Subject: [PATCH 56/62] fix: Problem left UseGrad, UseHess and NumGradHess
 uninitialized, a user's problem could silently use numerical derivatives

---
 Problems/Problem.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Problems/Problem.h b/Problems/Problem.h
index 4fb9074..20f5481 100644
--- a/Problems/Problem.h
+++ b/Problems/Problem.h
@@ -107,9 +107,9 @@ namespace ROPTLIB{
         
 	protected:
 		Manifold *Domain; /*Domain of the cost function. It is required to be assigned.*/
-		mutable bool UseGrad; /*Mark whether the gradient is used*/
-		mutable bool UseHess; /*Mark whether the action of the Hessian is used.*/
-        mutable bool NumGradHess;
+		mutable bool UseGrad = true; /*Mark whether the gradient is used*/
+		mutable bool UseHess = true; /*Mark whether the action of the Hessian is used.*/
+        mutable bool NumGradHess = false; /*Mark whether the gradient and the action of the Hessian are computed numerically*/
 	};
 
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From d5127dc161612043bb2df23b4f4ee5862212d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 57/62] fix: the locking condition was violated if the
 transported step is opposite to the differentiated retraction up to rounding
 errors

---
 Manifolds/Manifold.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 6697f0d..7e5ef0a 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -711,9 +711,10 @@ namespace ROPTLIB{
         ScalarTimesVector(y, 2.0, eps1, &nu1);
         VectorLinearCombination(y, -1.0, eps1, -1.0, TRetaVector, &nu2);
         realdp nu1nu1 = Metric(y, nu1, nu1), nu2nu2 = Metric(y, nu2, nu2);
-        /*the reflector of a zero vector is the identity*/
+        /*the reflector of a zero vector is the identity, nu2 is zero up to rounding errors if eps1 = - TRetaVector*/
+        realdp nu2tol = static_cast<realdp> (100) * std::numeric_limits<realdp>::epsilon();
         tau1tau2ptr[0] = (nu1nu1 > 0) ? static_cast<realdp> (2) / nu1nu1 : 0;
-        tau1tau2ptr[1] = (nu2nu2 > 0) ? static_cast<realdp> (2) / nu2nu2 : 0;
+        tau1tau2ptr[1] = (nu2nu2 > nu2tol * nu2tol * nu1nu1) ? static_cast<realdp> (2) / nu2nu2 : 0;
         
         etax.AddToFields("nu1", nu1);
         etax.AddToFields("nu2", nu2);
-- 
2.43.0


From 5f37df412c00b79bd6ea22134f4747b160bcc23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:38 +0000
Subject: [PATCH 58/62] fix: MultiManifolds::Beta did not override
 Manifold::Beta, products with HasHHR violated the locking condition

---
 Manifolds/MultiManifolds.cpp | 2 +-
 Manifolds/MultiManifolds.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 2b90a48..d294a7a 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -268,7 +268,7 @@ namespace ROPTLIB{
         return *result;
 	};
 
-	realdp MultiManifolds::Beta(const Variable &x, Vector &etax) const
+	realdp MultiManifolds::Beta(const Variable &x, const Vector &etax) const
 	{
 		if (!HasHHR)
 			return 1;
diff --git a/Manifolds/MultiManifolds.h b/Manifolds/MultiManifolds.h
index b10c763..0b0490e 100644
--- a/Manifolds/MultiManifolds.h
+++ b/Manifolds/MultiManifolds.h
@@ -121,7 +121,7 @@ namespace ROPTLIB{
 		/*computes beta = \|etax\| / \|\mathcal{T}_{R_etax} etax\|
 		Default: etax = (etax_1, dots, eta_n);
 		beta = \sqrt(sum \|eta_i\|_2^2) / \sqrt(sum \|\mathcal{T}_{R_{etax_i}} etax_i\|) */
-        virtual realdp Beta(const Variable &x, Vector &etax) const;
+        virtual realdp Beta(const Variable &x, const Vector &etax) const;
 
 		/*compute the distance between two points on the manifold.
 		Default: sqrt(dist_M1(x1_1, x2_2)^2 + dist_M2(x1_2, x2_2)^2 + ... + dist_M1(x1_n, x2_n)^2)
-- 
2.43.0


From acef377aaba174a2fc590a39682253718d503d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:48 +0000
Subject: [PATCH 59/62] fix: CStiefel::ObtainNorVerExtr left the imaginary
 parts of a diagonal uninitialised

---
 Manifolds/CStiefel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index c3ff6e7..8186c26 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -389,6 +389,7 @@ namespace ROPTLIB{
         for(integer i = 0; i < p; i++)
         {
             xTetaxptr[i + i * p].r = intretaxptr[idx];
+            xTetaxptr[i + i * p].i = 0;
             idx++;
         }
         for(integer i = 0; i < p; i++)
-- 
2.43.0


From 5380a3075fb63ad1ff3e786b42adffbcfac0bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:48 +0000
Subject: [PATCH 60/62] fix: CStiefel::InvRetraction of the polar retraction
 used real matrices and aborted

---
 Manifolds/CStiefel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 8186c26..edcf535 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -526,9 +526,9 @@ namespace ROPTLIB{
 
     Vector &CStiefel::InvPolarRetraction(const Variable &x, const Variable &y, Vector *result) const
     {
-        Vector A(p, p); A.AlphaABaddBetaThis(1, x, GLOBAL::C, y, GLOBAL::N, 0); /* A = x.GetTranspose() * y; */
+        Vector A(p, p, "complex"); A.AlphaABaddBetaThis(1, x, GLOBAL::C, y, GLOBAL::N, 0); /* A = x.GetTranspose() * y; */
 
-        Vector tIp(p, p); tIp.SetToIdentity(); tIp = 2 * tIp;
+        Vector tIp(p, p, "complex"); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
         *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
 
-- 
2.43.0


From 06fac045c6570d7a671be5f2870166da7bdd6ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:48 +0000
Subject: [PATCH 61/62] fix: InvRetraction of Stiefel and CStiefel returned an
 extrinsic vector in the intrinsic approach

---
 Manifolds/CStiefel.cpp | 8 +++++++-
 Manifolds/Stiefel.cpp  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index edcf535..dbbdbc1 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -138,7 +138,13 @@ namespace ROPTLIB{
     Vector &CStiefel::InvRetraction(const Variable &x, const Variable &y, Vector *result) const
     {
         if (retraction == CSTIE_POLAR)
-            return InvPolarRetraction(x, y, result);
+        {
+            if(!IsIntrApproach)
+                return InvPolarRetraction(x, y, result);
+
+            Vector exresult(EMPTYEXTR); InvPolarRetraction(x, y, &exresult);
+            return ObtainIntr(x, exresult, result);
+        }
 
         printf("Error: InvRetraction has not been done!\n");
         return Manifold::InvRetraction(x, y, result);
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index bf1959e..113c658 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -149,7 +149,13 @@ namespace ROPTLIB{
     Vector &Stiefel::InvRetraction(const Variable &x, const Variable &y, Vector *result) const
     {
         if (retraction == STIE_POLAR)
-            return InvPolarRetraction(x, y, result);
+        {
+            if(!IsIntrApproach)
+                return InvPolarRetraction(x, y, result);
+
+            Vector exresult(EMPTYEXTR); InvPolarRetraction(x, y, &exresult);
+            return ObtainIntr(x, exresult, result);
+        }
         
         printf("Error: InvRetraction has not been done!\n");
         return Manifold::InvRetraction(x, y, result);
-- 
2.43.0


From f0abeee80a8d9b5bbd2c738a958ddd3736d9a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:26 +0000
Subject: [PATCH 62/62] fix: FixedRankE::ObtainNorVerIntr aborted at points
 without cached Householder vectors

---
 Manifolds/FixedRankE.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 1f6e3d8..3380b57 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -117,6 +117,16 @@ namespace ROPTLIB{
     Vector &FixedRankE::ObtainNorVerIntr(const Variable &x, const Vector &etax, Vector *result) const
     {
         Vector U = x.Field("U"), D = x.Field("D"), V = x.Field("V");
+        if(!(U.FieldsExist("_HHR")))
+        {
+            U.HHRDecom();
+            x.AddToFields("U", U);
+        }
+        if(!(V.FieldsExist("_HHR")))
+        {
+            V.HHRDecom();
+            x.AddToFields("V", V);
+        }
         Vector QUTetax = etax.HHRMtp(U.Field("_HHR"), U.Field("_tau"), GLOBAL::T, GLOBAL::L);
         Vector QUTetaxQV = QUTetax.HHRMtp(V.Field("_HHR"), V.Field("_tau"), GLOBAL::N, GLOBAL::R);
         const realdp *QUTetaxQVptr = QUTetaxQV.ObtainReadData();
-- 
2.43.0

