From ccca9f9d216c348c1118b788a358ca9470eaad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 01/56] fix: set failure status on every failing root-finding
 result

---
 .../RootFinding/RootFindingBracketing.h       |  8 ++++++++
 .../RootFinding/RootFindingMethods.h          | 20 +++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/mml/algorithms/RootFinding/RootFindingBracketing.h b/mml/algorithms/RootFinding/RootFindingBracketing.h
index 1998ab0..883f2ad 100644
--- a/mml/algorithms/RootFinding/RootFindingBracketing.h
+++ b/mml/algorithms/RootFinding/RootFindingBracketing.h
@@ -267,11 +267,13 @@ namespace MML {
 
 			// Check for non-finite initial values using shared validation helper
 			if (!IsFunctionValueValid(f) || !IsFunctionValueValid(fmid)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootBisection";
 				return result;
 			}
 
 			if (f * fmid >= 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for bisection in FindRootBisection";
 				return result;
 			}
@@ -297,6 +299,7 @@ namespace MML {
 					result.function_value = fmid;
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootBisection iteration";
 					return result;
 				}
@@ -323,6 +326,7 @@ namespace MML {
 			result.function_value = func(rtb);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Too many bisections in FindRootBisection";
 			return result;
 		}
@@ -404,10 +408,12 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootFalsePosition";
 				return result;
 			}
 			if (f1 * f2 >= 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for false position";
 				return result;
 			}
@@ -429,6 +435,7 @@ namespace MML {
 					result.root = rtf;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootFalsePosition";
 					return result;
 				}
@@ -460,6 +467,7 @@ namespace MML {
 			result.function_value = func(rtf);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootFalsePosition";
 			return result;
 		}
diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index 65d2555..a86f567 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -146,6 +146,7 @@ namespace MML {
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 			if (f1 * f2 > 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Newton-Raphson method";
 				return result;
 			}
@@ -163,6 +164,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite derivative in FindRootNewton";
 					return result;
 				}
@@ -171,6 +173,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Zero or near-zero derivative in FindRootNewton";
 					return result;
 				}
@@ -182,6 +185,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite step in FindRootNewton";
 					return result;
 				}
@@ -198,6 +202,7 @@ namespace MML {
 					result.function_value = func(rtn);
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
+					result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 					result.error_message = "Jumped out of brackets in FindRootNewton";
 					return result;
 				}
@@ -216,6 +221,7 @@ namespace MML {
 			result.function_value = func(rtn);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootNewton";
 			return result;
 		}
@@ -301,11 +307,13 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootSecant";
 				return result;
 			}
 
 			if (f1 * f2 > 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Secant method";
 				return result;
 			}
@@ -325,6 +333,7 @@ namespace MML {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite step in FindRootSecant";
 					return result;
 				}
@@ -338,6 +347,7 @@ namespace MML {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootSecant";
 					return result;
 				}
@@ -361,6 +371,7 @@ namespace MML {
 			result.function_value = f2;
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootSecant";
 			return result;
 		}
@@ -454,10 +465,12 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootRidders";
 				return result;
 			}
 			if (f1 * f2 >= 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Ridders method";
 				return result;
 			}
@@ -473,6 +486,7 @@ namespace MML {
 					result.root = ans;
 					result.function_value = fm;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootRidders";
 					return result;
 				}
@@ -505,6 +519,7 @@ namespace MML {
 					result.root = ans;
 					result.function_value = fnew;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootRidders";
 					return result;
 				}
@@ -551,6 +566,7 @@ namespace MML {
 			result.function_value = func(ans);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootRidders";
 			return result;
 		}
@@ -660,10 +676,12 @@ namespace MML {
 			Real fa = func(a), fb = func(b), fc, p, q, r, s, tol1, xm;
 
 			if (!IsFunctionValueValid(fa) || !IsFunctionValueValid(fb)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootBrent";
 				return result;
 			}
 			if (fa * fb >= 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Brent method";
 				return result;
 			}
@@ -745,6 +763,7 @@ namespace MML {
 					result.root = b;
 					result.function_value = fb;
 					result.iterations_used = iter + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootBrent";
 					return result;
 				}
@@ -754,6 +773,7 @@ namespace MML {
 			result.function_value = fb;
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(xm);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootBrent";
 			return result;
 		}
-- 
2.43.0


From 946a97db35a30c9c46acdc499c94bed96a4fa10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 02/56] fix: minimization results built without convergence
 carry a failure status and message

---
 mml/algorithms/OptimizationMultidim.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 864c2e8..1c9e4d8 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -133,6 +133,8 @@ namespace MML::Optimization {
 			, fmin(f)
 			, iterations(iter)
 			, converged(conv)
+			, status(conv ? AlgorithmStatus::Success : AlgorithmStatus::MaxIterationsExceeded)
+			, error_message(conv ? "" : "Minimization did not converge within the iteration limit")
 			, function_evaluations(iter) {}
 	};
 
-- 
2.43.0


From b36299f0ec8a86605eb2317d056d4ef78dd64dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 03/56] fix: non-converged results of BVPShootingMethod carry a
 failure status and message

---
 mml/algorithms/ODESolvers/BVPShootingMethod.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/algorithms/ODESolvers/BVPShootingMethod.h b/mml/algorithms/ODESolvers/BVPShootingMethod.h
index 15d537a..4d8e648 100644
--- a/mml/algorithms/ODESolvers/BVPShootingMethod.h
+++ b/mml/algorithms/ODESolvers/BVPShootingMethod.h
@@ -199,6 +199,7 @@ namespace MML {
 				if (!bracketed) {
 					result.converged = false;
 					result.failureReason = BVPFailureReason::BracketingFailed;
+					result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 					result.failureDetails = "Could not bracket root with initial guesses [" + 
 						std::to_string(shootGuess1) + ", " + std::to_string(shootGuess2) + 
 						"] even after expanding range";
@@ -226,6 +227,7 @@ namespace MML {
 			} catch (const std::exception& e) {
 				result.converged = false;
 				result.failureReason = BVPFailureReason::RootFindingFailed;
+				result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 				result.failureDetails = e.what();
 				result.residual = std::numeric_limits<Real>::max();
 			}
@@ -427,6 +429,7 @@ namespace MML {
 			if (!config.isValid()) {
 				result.converged = false;
 				result.failureReason = BVPFailureReason::InvalidConfiguration;
+				result.status = AlgorithmStatus::InvalidInput;
 				result.failureDetails = "Shooting configuration invalid: unknownIndices, targetIndices, "
 					"unknownGuesses, and targetValues must all have same non-zero size";
 				return result;
@@ -473,6 +476,7 @@ namespace MML {
 				if (!std::isfinite(residualNorm)) {
 					result.converged = false;
 					result.failureReason = BVPFailureReason::NumericalInstability;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.failureDetails = "Residual norm became NaN/Inf at iteration " + 
 						std::to_string(iter);
 					break;
@@ -497,6 +501,7 @@ namespace MML {
 				if (!linearResult.success) {
 					result.converged = false;
 					result.failureReason = BVPFailureReason::SingularJacobian;
+					result.status = AlgorithmStatus::SingularMatrix;
 					result.failureDetails = linearResult.errorMessage;
 					break;
 				}
@@ -512,6 +517,7 @@ namespace MML {
 			// Check if we exceeded max iterations without converging
 			if (!result.converged && result.failureReason == BVPFailureReason::None) {
 				result.failureReason = BVPFailureReason::MaxIterationsExceeded;
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
 				result.failureDetails = "Did not converge within " + std::to_string(_maxIterations) + 
 					" iterations. Final residual norm: " + std::to_string(residualNorm) + 
 					" (tolerance: " + std::to_string(_tolerance) + ")";
-- 
2.43.0


From ff11dd009ede2c36621c098b450ca961a1d869ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 04/56] fix: non-converged results of EigenSystemSolvers carry
 a failure status and message

---
 mml/algorithms/EigenSystemSolvers.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mml/algorithms/EigenSystemSolvers.h b/mml/algorithms/EigenSystemSolvers.h
index 5ca1cec..4919818 100644
--- a/mml/algorithms/EigenSystemSolvers.h
+++ b/mml/algorithms/EigenSystemSolvers.h
@@ -193,6 +193,10 @@ namespace MML {
 			result.iterations = sweep;
 			result.residual = offDiagNorm;
 			result.converged = (offDiagNorm <= tol);
+			if (!result.converged) {
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
+				result.error_message = "Jacobi iteration did not converge within " + std::to_string(maxIter) + " sweeps";
+			}
 
 			return result;
 		}
@@ -424,6 +428,10 @@ namespace MML {
 
 			// Step 4: Apply implicit QR algorithm with Wilkinson shift
 			ImplicitQRAlgorithm(diag, subdiag, Q, n, tol, maxIter, result.iterations, result.converged);
+			if (!result.converged) {
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
+				result.error_message = "QR iteration did not converge within " + std::to_string(maxIter) + " iterations";
+			}
 
 			// Step 5: Compute final residual (off-diagonal norm)
 			result.residual = 0.0;
@@ -998,6 +1006,10 @@ namespace MML {
 			result.iterations = totalIter;
 			result.maxResidual = 0.0;
 			result.converged = (totalIter < maxIter);
+			if (!result.converged) {
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
+				result.error_message = "General QR iteration did not converge within " + std::to_string(maxIter) + " iterations";
+			}
 
 			// Verify eigenvector quality
 			for (size_t i = 0; i < result.eigenvalues.size(); i++) {
-- 
2.43.0


From b78bc937b917fd2646fbba1cbc3c2113bb09d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 05/56] fix: non-converged results of LinAlgEqSolvers_iterative
 carry a failure status and message

---
 mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
index 8b748d2..d623044 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
@@ -93,7 +93,9 @@ namespace MML
 		
 		IterativeSolverResult() : iterations(0), residual(0.0), converged(false) {}
 		IterativeSolverResult(const Vector<Real>& sol, int iter, Real res, bool conv)
-			: solution(sol), iterations(iter), residual(res), converged(conv) {}
+			: solution(sol), iterations(iter), residual(res), converged(conv),
+			  status(conv ? AlgorithmStatus::Success : AlgorithmStatus::MaxIterationsExceeded),
+			  error_message(conv ? "" : "Iteration did not converge within the iteration limit") {}
 	};
 
 	/**
-- 
2.43.0


From fb8eb679d926793c405c75db63b0ca3386ace4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 06/56] fix: non-converged results of MonteCarloIntegration
 carry a failure status and message

---
 mml/core/Integration/MonteCarloIntegration.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mml/core/Integration/MonteCarloIntegration.h b/mml/core/Integration/MonteCarloIntegration.h
index 4ba2623..0924ca8 100644
--- a/mml/core/Integration/MonteCarloIntegration.h
+++ b/mml/core/Integration/MonteCarloIntegration.h
@@ -191,7 +191,9 @@ namespace MML
 			result.samples_used = config.use_antithetic ? n * 2 : n;
 			result.converged = converged;
 			result.function_evaluations = static_cast<int>(result.samples_used);
-			result.status = AlgorithmStatus::Success;
+			result.status = converged ? AlgorithmStatus::Success : AlgorithmStatus::ToleranceUnachievable;
+			if (!converged)
+				result.error_message = "Error estimate exceeds the target error";
 			result.algorithm_name = "MonteCarloIntegrator";
 			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
@@ -360,7 +362,9 @@ namespace MML
 			result.samples_used = total_samples;
 			result.converged = converged;
 			result.function_evaluations = static_cast<int>(total_samples);
-			result.status = AlgorithmStatus::Success;
+			result.status = converged ? AlgorithmStatus::Success : AlgorithmStatus::ToleranceUnachievable;
+			if (!converged)
+				result.error_message = "Error estimate exceeds the target error";
 			result.algorithm_name = "StratifiedMonteCarloIntegrator";
 			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
-- 
2.43.0


From 2b9740cfda8ae2684b0c4b714e0def1cd5caaf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 07/56] fix: Triangle2D side lengths follow vertices changed
 through a kept reference, and const queries write nothing

---
 .../Geometry2DCore/Geometry2DTriangle.h       | 33 ++++++-------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h b/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
index f17eac9..da2aa57 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
@@ -30,19 +30,6 @@ namespace MML
 	{
 	private:
 		Point2Cartesian _pnt1, _pnt2, _pnt3;
-		mutable Real _a, _b, _c; // Cached side lengths
-		mutable bool _sidesComputed;
-
-		/// @brief Computes and caches side lengths on demand
-		void ComputeSides() const
-		{
-			if (!_sidesComputed) {
-				_a = _pnt1.Dist(_pnt2);
-				_b = _pnt2.Dist(_pnt3);
-				_c = _pnt3.Dist(_pnt1);
-				_sidesComputed = true;
-			}
-		}
 
 	public:
 		/// @brief Constructs a triangle from three vertices
@@ -50,28 +37,28 @@ namespace MML
 		/// @param pnt2 Second vertex
 		/// @param pnt3 Third vertex
 		Triangle2D(const Point2Cartesian& pnt1, const Point2Cartesian& pnt2, const Point2Cartesian& pnt3) 
-			: _pnt1(pnt1), _pnt2(pnt2), _pnt3(pnt3), _a(0), _b(0), _c(0), _sidesComputed(false)
+			: _pnt1(pnt1), _pnt2(pnt2), _pnt3(pnt3)
 		{ }
 
 		/// @brief Gets first vertex (const version)
 		Point2Cartesian  Pnt1() const { return _pnt1; }
-		/// @brief Gets first vertex (mutable reference, invalidates cache)
-		Point2Cartesian& Pnt1() { _sidesComputed = false; return _pnt1; }
+		/// @brief Gets first vertex (mutable reference)
+		Point2Cartesian& Pnt1() { return _pnt1; }
 		/// @brief Gets second vertex (const version)
 		Point2Cartesian  Pnt2() const { return _pnt2; }
-		/// @brief Gets second vertex (mutable reference, invalidates cache)
-		Point2Cartesian& Pnt2() { _sidesComputed = false; return _pnt2; }
+		/// @brief Gets second vertex (mutable reference)
+		Point2Cartesian& Pnt2() { return _pnt2; }
 		/// @brief Gets third vertex (const version)
 		Point2Cartesian  Pnt3() const { return _pnt3; }
-		/// @brief Gets third vertex (mutable reference, invalidates cache)
-		Point2Cartesian& Pnt3() { _sidesComputed = false; return _pnt3; }
+		/// @brief Gets third vertex (mutable reference)
+		Point2Cartesian& Pnt3() { return _pnt3; }
 
 		/// @brief Gets length of side a (P1 to P2)
-		Real A() const { ComputeSides(); return _a; }
+		Real A() const { return _pnt1.Dist(_pnt2); }
 		/// @brief Gets length of side b (P2 to P3)
-		Real B() const { ComputeSides(); return _b; }
+		Real B() const { return _pnt2.Dist(_pnt3); }
 		/// @brief Gets length of side c (P3 to P1)
-		Real C() const { ComputeSides(); return _c; }
+		Real C() const { return _pnt3.Dist(_pnt1); }
 
 		/// @brief Calculates the perimeter
 		Real Perimeter() const { return A() + B() + C(); }
-- 
2.43.0


From 2b67b211003a184d9745c577579c16ff2593c1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 08/56] fix: members, results and pivots that stayed
 indeterminate are initialised (frames, surfaces, intervals, fixed points,
 Gauss-Jordan on NaN)

---
 mml/algorithms/RootFinding/RootFindingMethods.h      |  2 +-
 .../Geometry/Geometry3DCore/Geometry3DSurfaces.h     |  2 +-
 .../InterpolatedFunctions/InterpolatedRealFunction.h |  2 +-
 mml/base/Intervals.h                                 |  2 +-
 mml/base/Matrix/MatrixNM.h                           |  5 ++++-
 mml/core/CoordSystem.h                               |  6 ++++--
 mml/core/Integration/Integration1D.h                 |  2 +-
 mml/core/LinAlgEqSolvers/LinAlgDirect.h              |  5 ++++-
 mml/systems/DynamicalSystemTypes.h                   | 12 ++++++------
 9 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index a86f567..46f9815 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -673,7 +673,7 @@ namespace MML {
 											   const RootFindingConfig& config) {
 			RootFindingResult result;
 			Real a = x1, b = x2, c = x2, d = 0.0, e = 0.0;
-			Real fa = func(a), fb = func(b), fc, p, q, r, s, tol1, xm;
+			Real fa = func(a), fb = func(b), fc, p, q, r, s, tol1, xm = 0.0;
 
 			if (!IsFunctionValueValid(fa) || !IsFunctionValueValid(fb)) {
 				result.status = AlgorithmStatus::NumericalInstability;
diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
index b6feb44..8696cbc 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
@@ -253,7 +253,7 @@ namespace MML
 	public:
 		// all constructors are expected to set properly these values
 		Pnt3Cart _pnt1, _pnt2, _pnt3, _pnt4;
-		Real _minX, _maxX, _minY, _maxY;
+		Real _minX = 0, _maxX = 0, _minY = 0, _maxY = 0;
 		Pnt3Cart _center;
 		Vec3Cart _localX, _localY;
 
diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index e226fe8..e449af9 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -260,7 +260,7 @@ namespace MML {
 
 		Real calcInterpValue(int startInd, Real x) const override {
 			int i, m, ns = 0;
-			Real y, den, dif, dift, ho, hp, w, dy;
+			Real y, den, dif, dift, ho, hp, w, dy = 0.0;
 			Vector<Real> c(getInterpOrder()), d(getInterpOrder());
 
 			dif = std::abs(x - X(startInd));
diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index d37158c..720d1fc 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -463,7 +463,7 @@ namespace MML {
 	/// @endcode
 
 	class Interval : public IInterval {
-		Real _lower, _upper;
+		Real _lower = 0, _upper = 0;
 		std::vector<std::shared_ptr<BaseInterval>> _intervals; ///< Component intervals
 	public:
 		/// @brief Constructs an empty composite interval.
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index ca41849..a30abd0 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -618,7 +618,7 @@ namespace MML {
 
 			b(0, 0) = 1.0;
 
-			int i, icol, irow, j, k, l, ll;
+			int i, icol = -1, irow = -1, j, k, l, ll;
 			Type big, dum, pivinv;
 
 			int n = rows();
@@ -638,6 +638,7 @@ namespace MML {
 
 			for (i = 0; i < n; i++) {
 				big = 0.0;
+				irow = icol = -1;
 				for (j = 0; j < n; j++)
 					if (ipiv[j] != 1)
 						for (k = 0; k < n; k++) {
@@ -649,6 +650,8 @@ namespace MML {
 								}
 							}
 						}
+				if (irow < 0 || icol < 0)
+					throw SingularMatrixError("MatrixNM::Invert, gaussj: no finite pivot", 0.0);
 				++(ipiv[icol]);
 				if (irow != icol) {
 					for (l = 0; l < n; l++)
diff --git a/mml/core/CoordSystem.h b/mml/core/CoordSystem.h
index f111182..22b9227 100644
--- a/mml/core/CoordSystem.h
+++ b/mml/core/CoordSystem.h
@@ -273,7 +273,7 @@ namespace MML
 	{
 	public:
 		Real _radius;          ///< Orbital radius from parent origin
-		Real _speed;           ///< Orbital speed (calculated from period)
+		Real _speed = 0;       ///< Orbital speed (calculated from period)
 		Real _period;          ///< Orbital period (time for full revolution)
 		Real _angle_at_t0;     ///< Initial angle at t=0 (in radians)
 		Vector3Cartesian _axis; ///< Normal to orbital plane (rotation axis)
@@ -285,7 +285,7 @@ namespace MML
 		CircleOrbitingFrame3DCartesian(ReferenceFrame3D* parentFrame, Real radius, Real period) : NonInertialFrame3D(parentFrame)
 		{
 			_radius = radius;
-			// _speed = speed; // izracunati
+			_speed = 2 * Constants::PI * radius / period;
 			_period = period;
 			_angle_at_t0 = 0;
 		}
@@ -297,6 +297,7 @@ namespace MML
 		CircleOrbitingFrame3DCartesian(ReferenceFrame3D* parentFrame, Real radius, Real period, Real angle_at_t0) : NonInertialFrame3D(parentFrame)
 		{
 			_radius = radius;
+			_speed = 2 * Constants::PI * radius / period;
 			_period = period;
 			_angle_at_t0 = angle_at_t0;
 		}
@@ -309,6 +310,7 @@ namespace MML
 		CircleOrbitingFrame3DCartesian(ReferenceFrame3D* parentFrame, Real radius, Real period, Real orbit_inclination, Real angle_at_t0) : NonInertialFrame3D(parentFrame)
 		{
 			_radius = radius;
+			_speed = 2 * Constants::PI * radius / period;
 			_period = period;
 			_angle_at_t0 = angle_at_t0;
 			// calc axis based on inclination
diff --git a/mml/core/Integration/Integration1D.h b/mml/core/Integration/Integration1D.h
index e86984d..fdbc9cc 100644
--- a/mml/core/Integration/Integration1D.h
+++ b/mml/core/Integration/Integration1D.h
@@ -95,7 +95,7 @@ namespace MML
 	static IntegrationResult IntegrateTrap(const IRealFunction& func, Real a, Real b,
 																		 const Real eps = Defaults::TrapezoidIntegrationEPS)	{
 		int		j;
-		Real	currSum, oldSum = 0.0;
+		Real	currSum = 0.0, oldSum = 0.0;
 
 		TrapIntegrator t(func, a, b);
 
diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 3705caf..36d384c 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -109,7 +109,7 @@ namespace MML
 		/// @throws MatrixNumericalError if pivot inverse is non-finite
 		static void SolveInPlace(Matrix<Type>& a, Matrix<Type>& b)
 		{
-			int i, icol, irow, j, k, l, ll;
+			int i, icol = -1, irow = -1, j, k, l, ll;
 			Real big;
 			Type dum, pivinv;
 
@@ -138,6 +138,7 @@ namespace MML
 			for (j = 0; j < n; j++) ipiv[j] = 0;
 			for (i = 0; i < n; i++) {
 				big = 0.0;
+				irow = icol = -1;
 				for (j = 0; j < n; j++)
 					if (ipiv[j] != 1)
 						for (k = 0; k < n; k++) {
@@ -149,6 +150,8 @@ namespace MML
 								}
 							}
 						}
+				if (irow < 0 || icol < 0)
+					throw SingularMatrixError("GaussJordanSolver::SolveInPlace - no finite pivot", 0.0);
 				++(ipiv[icol]);
 				if (irow != icol) {
 					for (l = 0; l < n; l++) std::swap(a[irow][l], a[icol][l]);
diff --git a/mml/systems/DynamicalSystemTypes.h b/mml/systems/DynamicalSystemTypes.h
index 48e02b2..99eca5a 100644
--- a/mml/systems/DynamicalSystemTypes.h
+++ b/mml/systems/DynamicalSystemTypes.h
@@ -76,10 +76,10 @@ namespace MML::Systems
 		Vector<Type> location;											 ///< Position in state space
 		std::vector<std::complex<Type>> eigenvalues; ///< Jacobian eigenvalues
 		Matrix<Type> jacobian;											 ///< Jacobian at fixed point
-		FixedPointType type;												 ///< Stability classification
-		bool isStable;															 ///< Overall stability
-		Type convergenceResidual;										 ///< ||f(x*)|| at convergence
-		int iterations;															 ///< Newton iterations used
+		FixedPointType type = FixedPointType::Unknown; ///< Stability classification
+		bool isStable = false;											 ///< Overall stability
+		Type convergenceResidual = 0;								 ///< ||f(x*)|| at convergence
+		int iterations = 0;													 ///< Newton iterations used
 	};
 
 	/// @brief Result of Lyapunov exponent computation
@@ -100,8 +100,8 @@ namespace MML::Systems
 		std::string parameterName;											///< Name of swept parameter
 		std::vector<Type> parameterValues;							///< Parameter values
 		std::vector<std::vector<Type>> attractorValues; ///< Attractor points at each param
-		int numTransientSteps;													///< Transient removal steps
-		int numRecordedPoints;													///< Points recorded per parameter
+		int numTransientSteps = 0;											///< Transient removal steps
+		int numRecordedPoints = 0;											///< Points recorded per parameter
 	};
 
 	/// @brief Poincaré section definition
-- 
2.43.0


From b57304ff64a78ab2ff626d944583440d7d91e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 09/56] fix: Simpson integration with a zero step limit
 returned an indeterminate value

---
 mml/core/Integration/Integration1D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/Integration/Integration1D.h b/mml/core/Integration/Integration1D.h
index fdbc9cc..9883475 100644
--- a/mml/core/Integration/Integration1D.h
+++ b/mml/core/Integration/Integration1D.h
@@ -134,7 +134,7 @@ namespace MML
 																			 const Real eps = Defaults::SimpsonIntegrationEPS)
 	{
 		int j;
-		Real currSum, st, ost = 0.0, oldSum = 0.0;
+		Real currSum = 0.0, st, ost = 0.0, oldSum = 0.0;
 
 		TrapIntegrator t(func, a, b);
 
-- 
2.43.0


From aae8553ae42fbb867ea034faa0c50a7d398cea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 10/56] fix: matrix shape predicates and SimilarityTransform no
 longer index past rectangular matrices

---
 mml/core/MatrixUtils.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mml/core/MatrixUtils.h b/mml/core/MatrixUtils.h
index bf90333..2de301c 100644
--- a/mml/core/MatrixUtils.h
+++ b/mml/core/MatrixUtils.h
@@ -47,7 +47,7 @@ namespace MML
 		{
 			int n = H.rows();
 			for (int i = 2; i < n; i++)
-				for (int j = 0; j < i - 1; j++)
+				for (int j = 0; j < i - 1 && j < H.cols(); j++)
 					if (std::abs(H(i, j)) > tol)
 						return false;
 			return true;
@@ -65,7 +65,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 1; i < n; i++)
-				for (int j = 0; j < i; j++)
+				for (int j = 0; j < i && j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -83,7 +83,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = i + 1; j < n; j++)
+				for (int j = i + 1; j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -101,7 +101,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = 0; j < n; j++)
+				for (int j = 0; j < A.cols(); j++)
 					if (i != j && std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -262,6 +262,9 @@ namespace MML
 		Matrix<Type> SimilarityTransform(const Matrix<Type>& Q, const Matrix<Type>& A)
 		{
 			int n = A.rows();
+			if (A.cols() != n || Q.rows() != n || Q.cols() != n)
+				throw MatrixDimensionError("SimilarityTransform - Q and A must be square with the same dimension", Q.rows(), Q.cols(), A.rows(), A.cols());
+
 			Matrix<Type> temp(n, n);
 			Matrix<Type> result(n, n);
 			
-- 
2.43.0


From 2525db1c18fead41058a0ef6ca0013c427920aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 11/56] fix: TridiagonalMatrix::Solve rejects right-hand sides
 and outputs of the wrong size

---
 mml/base/Matrix/MatrixTriDiag.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index 83209b0..caa849d 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -212,6 +212,9 @@ namespace MML
 		void Solve(const Vector<Type>& rhs, Vector<Type>& sol)
 		{
 			int j, n = _belowDiag.size();
+			if (rhs.size() != n || sol.size() != n)
+				throw VectorDimensionError("TridiagonalMatrix::Solve - rhs and sol must match the matrix dimension", n, rhs.size() != n ? rhs.size() : sol.size());
+
 			Type bet;  // Must be Type to work with complex matrices
 			Vector<Type> gam(n);
 
-- 
2.43.0


From 981484ca39e5fe903514bf607a3836b85912d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 12/56] fix: MatrixFromVectorsInRows/Columns reject ragged
 input and accept an empty list

---
 mml/base/BaseUtils/MatrixOps.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mml/base/BaseUtils/MatrixOps.h b/mml/base/BaseUtils/MatrixOps.h
index 2a12a54..62e0961 100644
--- a/mml/base/BaseUtils/MatrixOps.h
+++ b/mml/base/BaseUtils/MatrixOps.h
@@ -78,10 +78,17 @@ namespace MML
 		template<class Type> 
 		static Matrix<Type> MatrixFromVectorsInRows(const std::vector<Vector<Type>>& b)
 		{
+			if (b.empty())
+				return Matrix<Type>();
+
 			Matrix<Type> ret((int)b.size(), (int)b[0].size());
 			for (int i = 0; i < b.size(); i++)
+			{
+				if (b[i].size() != ret.cols())
+					throw VectorDimensionError("MatrixFromVectorsInRows - all vectors must have the same size", ret.cols(), b[i].size());
 				for (int j = 0; j < b[i].size(); j++)
 					ret[i][j] = b[i][j];
+			}
 			return ret;
 		}
 
@@ -92,10 +99,17 @@ namespace MML
 		template<class Type> 
 		static Matrix<Type> MatrixFromVectorsInColumns(const std::vector<Vector<Type>>& b)
 		{
+			if (b.empty())
+				return Matrix<Type>();
+
 			Matrix<Type> ret((int)b[0].size(), (int)b.size());
 			for (int i = 0; i < b.size(); i++)
+			{
+				if (b[i].size() != ret.rows())
+					throw VectorDimensionError("MatrixFromVectorsInColumns - all vectors must have the same size", ret.rows(), b[i].size());
 				for (int j = 0; j < b[i].size(); j++)
 					ret[j][i] = b[i][j];
+			}
 			return ret;
 		}
 
-- 
2.43.0


From 4b469cc7dcc4c986ea6351ff0cf68dddbde92c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 13/56] fix: Matrix::isDiagonallyDominant no longer reads past
 the columns of a tall matrix

---
 mml/base/Matrix/Matrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 2067be1..92a99fa 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -674,6 +674,9 @@ namespace MML
 		/// @return true if |M(i,i)| ≥ Σ_{j≠i} |M(i,j)| for all rows
 		bool isDiagonallyDominant() const
 		{
+			if (_rows > _cols)
+				return false;   // rows beyond the last column have no diagonal element
+
 			for (int i = 0; i < _rows; ++i) {
 				Real sum{0};  // Use Real for magnitude accumulation
 				for (int j = 0; j < _cols; ++j)
-- 
2.43.0


From e873e560b352900e5b5c107b53ed03ce211b5919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 14/56] fix: BandDiagonalSolver rejects a lower bandwidth
 larger than the dimension

---
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 36d384c..7b4742c 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -686,6 +686,9 @@ namespace MML
 			  _al(_n, _m1),
 			  _indx(_n)
 		{
+			if (_m1 > _n)
+				throw MatrixDimensionError("BandDiagonalSolver - lower bandwidth exceeds the matrix dimension", _n, _n, _m1, _m2);
+
 			int mm = _m1 + _m2 + 1;
 			
 			// Copy band diagonal matrix to working storage and compute matrix norm
-- 
2.43.0


From efc5cc7b94897c04539ce0a51cbe19091e55e308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 15/56] fix: eigenvalue solvers reject non-square matrices

---
 mml/algorithms/EigenSystemSolvers.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mml/algorithms/EigenSystemSolvers.h b/mml/algorithms/EigenSystemSolvers.h
index 4919818..63dbccd 100644
--- a/mml/algorithms/EigenSystemSolvers.h
+++ b/mml/algorithms/EigenSystemSolvers.h
@@ -204,6 +204,8 @@ namespace MML {
 		/// Solve for a regular Matrix (extracts symmetric part)
 		/// Note: Only use if you're certain the matrix is symmetric!
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 100) {
+			if (A.rows() != A.cols())
+				throw MatrixDimensionError("SymmMatEigenSolverJacobi::Solve - matrix must be square", A.rows(), A.cols(), -1, -1);
 			// Convert to symmetric matrix (average A and A^T)
 			int n = A.rows();
 			MatrixSym<Real> symA(n);
@@ -237,6 +239,8 @@ namespace MML {
 
 		/// Solve for a regular Matrix using configuration object.
 		static Result Solve(const Matrix<Real>& A, const EigenSolverConfig& config) {
+			if (A.rows() != A.cols())
+				throw MatrixDimensionError("SymmMatEigenSolverJacobi::Solve - matrix must be square", A.rows(), A.cols(), -1, -1);
 			int n = A.rows();
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
@@ -451,6 +455,8 @@ namespace MML {
 
 		// Overload for regular Matrix (will symmetrize)
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 1000) {
+			if (A.rows() != A.cols())
+				throw MatrixDimensionError("SymmMatEigenSolverQR::Solve - matrix must be square", A.rows(), A.cols(), -1, -1);
 			int n = A.rows();
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
@@ -483,6 +489,8 @@ namespace MML {
 
 		/// Solve for a regular Matrix using configuration object.
 		static Result Solve(const Matrix<Real>& A, const EigenSolverConfig& config) {
+			if (A.rows() != A.cols())
+				throw MatrixDimensionError("SymmMatEigenSolverQR::Solve - matrix must be square", A.rows(), A.cols(), -1, -1);
 			int n = A.rows();
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
@@ -874,6 +882,8 @@ namespace MML {
 		/// - eigenvalues[k] = {λ, μ}, eigenvalues[k+1] = {λ, -μ}
 		/// - eigenvectors.Column(k) = vr, Column(k+1) = vi
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 1000) {
+			if (A.rows() != A.cols())
+				throw MatrixDimensionError("EigenSolver::Solve - matrix must be square", A.rows(), A.cols(), -1, -1);
 			int n = A.rows();
 			Result result(n);
 
-- 
2.43.0


From 95b9d2eef22a25297a95606b45e2b5d7ada3cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 16/56] fix: reject max_iter < 1 in Richardson differentiation
 instead of reading row -1

---
 mml/core/Derivation/DerivationRealFunction.h | 6 +++---
 mml/core/RichardsonExtrapolation.h           | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/core/Derivation/DerivationRealFunction.h b/mml/core/Derivation/DerivationRealFunction.h
index 75c32ad..2cc6975 100644
--- a/mml/core/Derivation/DerivationRealFunction.h
+++ b/mml/core/Derivation/DerivationRealFunction.h
@@ -582,7 +582,7 @@ namespace MML
 			const Real big = std::numeric_limits<Real>::max();
 			const Real safe = 2.0;
 
-			if (h == 0.0)
+			if (h == 0.0 || max_iter < 1)
 			{
 				if (error) *error = big;
 				return 0.0;
@@ -658,7 +658,7 @@ namespace MML
 			const Real big = std::numeric_limits<Real>::max();
 			const Real safe = 2.0;
 
-			if (h == 0.0)
+			if (h == 0.0 || max_iter < 1)
 			{
 				if (error) *error = big;
 				return 0.0;
@@ -724,7 +724,7 @@ namespace MML
 			const Real big = std::numeric_limits<Real>::max();
 			const Real safe = 2.0;
 
-			if (h == 0.0)
+			if (h == 0.0 || max_iter < 1)
 			{
 				if (error) *error = big;
 				return 0.0;
diff --git a/mml/core/RichardsonExtrapolation.h b/mml/core/RichardsonExtrapolation.h
index a278f6d..71c2015 100644
--- a/mml/core/RichardsonExtrapolation.h
+++ b/mml/core/RichardsonExtrapolation.h
@@ -126,7 +126,7 @@ namespace MML
 			const Real con2 = con * con;
 			const Real big = std::numeric_limits<Real>::max();
 
-			if (std::abs(h0) < Precision::DivisionSafetyThreshold)
+			if (std::abs(h0) < Precision::DivisionSafetyThreshold || max_iter < 1)
 				return RichardsonResult(0.0, big, 0, false);
 
 			// Allocate tableau (triangular, but use full matrix for clarity)
-- 
2.43.0


From 96ea661de22603ec65dc512f79682fafed23c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 17/56] fix: QR determinant sign loop on an empty factorization

---
 mml/core/LinAlgEqSolvers/LinAlgQR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgQR.h b/mml/core/LinAlgEqSolvers/LinAlgQR.h
index 66bd518..d7d5463 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgQR.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgQR.h
@@ -110,7 +110,7 @@ namespace MML
 			}
 
 			// For square matrices, handle the last diagonal element separately
-			if (_m == _n)
+			if (_m == _n && _n > 0)
 			{
 				_d[_n - 1] = _QR[_n - 1][_n - 1];
 				// Use norm-scaled threshold instead of exact zero
-- 
2.43.0


From 3186900e7cfe950acff979d6a7fd2d0d25b852a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 18/56] fix: interpolated functions reject x and y of different
 lengths

---
 mml/base/InterpolatedFunctions/InterpolatedRealFunction.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index e449af9..ecec14e 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -69,6 +69,8 @@ namespace MML {
 			// throw if not enough points
 			if (_numPoints < 2 || _usedPoints < 2 || _usedPoints > _numPoints)
 				throw RealFuncInterpInitError("RealFunctionInterpolated size error");
+			if (y.size() != _numPoints)
+				throw RealFuncInterpInitError("RealFunctionInterpolated: x and y must have the same number of points");
 			// Check for duplicate x-values (causes division by zero in interpolation)
 			for (int i = 0; i < _numPoints; i++)
 				for (int j = i + 1; j < _numPoints; j++)
-- 
2.43.0


From 9e663b367b6aa9529dc008b47bedaaa5879ad9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 19/56] fix: linear parametric curve rejects an empty point set
 and wrong dimension

---
 mml/base/InterpolatedFunctions/InterpolationParametricCurve.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index 8d7aeef..b15cfe5 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -74,6 +74,8 @@ namespace MML {
 			, _curvePoints(ptsin)
 			, _arcLen(_numPoints)
 			, _isCurveClosed(close) {
+			if (ptsin.rows() < 1 || ptsin.cols() != N)
+				throw MatrixDimensionError("LinInterpParametricCurve: need at least one point and one matrix column per dimension");
 			// Compute normalized arc length parameterization
 			_arcLen[0] = 0.0;
 			Real totalLen = 0.0;
-- 
2.43.0


From 5cff66fa52656c475948d195fc4e4d58ad63702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 20/56] fix: polynomial Derive with an empty output vector

---
 mml/base/Polynom.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index f114c3c..2ecb3bf 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -434,6 +434,9 @@ namespace MML
 			int  nd = pd.size() - 1;
 			Real cnst = 1.0;
 
+			if (nd < 0)
+				return;
+
 			pd[0] = (*this)[nc];
 			for (j = 1; j < nd + 1; j++)
 				pd[j] = 0.0;
-- 
2.43.0


From d3680e6c991deed01d63ce5074f5908fe0faa127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 21/56] fix: band diagonal matrix rejects negative bandwidths

---
 mml/base/Matrix/MatrixBandDiag.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Matrix/MatrixBandDiag.h b/mml/base/Matrix/MatrixBandDiag.h
index 0bdff9f..caf0f39 100644
--- a/mml/base/Matrix/MatrixBandDiag.h
+++ b/mml/base/Matrix/MatrixBandDiag.h
@@ -119,7 +119,7 @@ namespace MML {
 			, _m1(m1)
 			, _m2(m2)
 			, _data(data) {
-			if (data.rows() != dim || data.cols() != m1 + m2 + 1)
+			if (m1 < 0 || m2 < 0 || data.rows() != dim || data.cols() != m1 + m2 + 1)
 				throw MatrixDimensionError("BandDiagonalMatrix constructor: data dimensions must be dim x (m1+m2+1)");
 		}
 
-- 
2.43.0


From ec088259f032ee0e6f76832109569fd0da146eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 22/56] fix: Powell rejects an initial direction matrix of the
 wrong size

---
 mml/algorithms/OptimizationMultidim.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 1c9e4d8..729f4d0 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -895,6 +895,8 @@ namespace MML::Optimization {
 			if (_maxIter <= 0)
 				throw MultidimOptimizationInputError("Powell: maxIter must be positive");
 			// Validate direction matrix
+			if (ximat.rows() != N || ximat.cols() != N)
+				throw MultidimOptimizationInputError("Powell::Minimize: direction matrix must be N x N");
 			for (int i = 0; i < N; ++i) {
 				for (int j = 0; j < N; ++j) {
 					if (!std::isfinite(ximat(i, j)))
-- 
2.43.0


From 19c32585d81855d5365e92190e2f7cb5d9d21c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 23/56] fix: DynamicalSystemBase::setParams rejects a vector of
 the wrong size

---
 mml/systems/DynamicalSystemBase.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/systems/DynamicalSystemBase.h b/mml/systems/DynamicalSystemBase.h
index d455971..de451d5 100644
--- a/mml/systems/DynamicalSystemBase.h
+++ b/mml/systems/DynamicalSystemBase.h
@@ -13,6 +13,7 @@
 #define MML_DYNAMICAL_SYSTEM_BASE_H
 
 #include "MMLBase.h"
+#include "MMLExceptions.h"
 #include "base/Vector/Vector.h"
 #include "interfaces/IDynamicalSystem.h"
 
@@ -69,6 +70,8 @@ namespace MML::Systems
 		}
 
 		void setParams(const Vector<Real>& p) override {
+			if (p.size() != P)
+				throw VectorDimensionError("DynamicalSystemBase::setParams - one value per parameter expected", P, p.size());
 			for (int i = 0; i < P; ++i)
 				_params[i] = p[i];
 		}
-- 
2.43.0


From 259a1cf5565911b9cf601e586a9a28e454525560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 24/56] fix: multi-function serializer rejects a legend shorter
 than the function list

---
 mml/tools/serializer/SerializerBase.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/tools/serializer/SerializerBase.h b/mml/tools/serializer/SerializerBase.h
index 130f3a4..f5ef8d9 100644
--- a/mml/tools/serializer/SerializerBase.h
+++ b/mml/tools/serializer/SerializerBase.h
@@ -72,6 +72,8 @@ namespace MML
 		inline SerializeResult WriteRealMultiFuncHeader(std::ostream& out, std::string title, int numFuncs,
 														std::vector<std::string> legend, Real x1, Real x2, int numPoints)
 		{
+			if (static_cast<int>(legend.size()) < numFuncs)
+				return {false, SerializeError::INVALID_PARAMETERS, "legend must contain one entry per function"};
 			try
 			{
 				out << "MULTI_REAL_FUNCTION" << std::endl;
-- 
2.43.0


From 95507d0b45f4d861924eff4f9ce43e30256fb79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 25/56] fix: ODE and DAE solutions grow until the requested
 step index fits

---
 mml/base/DAESystem.h         | 8 ++++----
 mml/base/ODESystemSolution.h | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index 8d1c53d..6705bb9 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -237,7 +237,7 @@ namespace MML
 			if (y.size() != _algDim)
 				throw ArgumentError("Algebraic vector size mismatch in DAESolution::fillValues");
 
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = t;
@@ -255,7 +255,7 @@ namespace MML
 		{
 			if (ind < 0)
 				throw IndexError("Index must be non-negative in DAESolution::setTVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_tval[ind] = t;
 			if (ind + 1 > _count) _count = ind + 1;
@@ -271,7 +271,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in DAESolution::setXVal");
 			if (component < 0 || component >= _diffDim)
 				throw IndexError("Component index out of range in DAESolution::setXVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_xval[component][ind] = val;
 		}
@@ -286,7 +286,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in DAESolution::setYVal");
 			if (component < 0 || component >= _algDim)
 				throw IndexError("Component index out of range in DAESolution::setYVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_yval[component][ind] = val;
 		}
diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 2c28b46..31ef2fc 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -162,7 +162,7 @@ namespace MML
 			if (ind < 0 )
 				throw IndexError("Index must be non-negative in ODESystemSolution::setTVal");
 			
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = x;
@@ -181,7 +181,7 @@ namespace MML
 			if (component < 0 || component >= _sysDim)
 				throw IndexError("Component index out of range in ODESystemSolution::setXVal(component)");
 
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_xval[component][ind] = x;
@@ -202,7 +202,7 @@ namespace MML
 			if( y.size() != _sysDim )
 				throw ArgumentError("Vector size mismatch in ODESystemSolution::fillValues");
 
-			if(ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = x;
-- 
2.43.0


From 72e4150b51a32846a4486013ef924e1b7336e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:11 +0000
Subject: [PATCH 26/56] fix: integral of a one-coefficient Chebyshev
 approximation

---
 mml/algorithms/ChebyshevApproximation.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mml/algorithms/ChebyshevApproximation.h b/mml/algorithms/ChebyshevApproximation.h
index 3dcd898..7da9ee4 100644
--- a/mml/algorithms/ChebyshevApproximation.h
+++ b/mml/algorithms/ChebyshevApproximation.h
@@ -312,6 +312,15 @@ namespace MML {
 		// where con = (b-a)/4.
 		ChebyshevApproximation Integral() const {
 			int n = static_cast<int>(_coef.size());
+			if (n == 0)
+				throw std::invalid_argument("ChebyshevApproximation::Integral: no coefficients");
+			if (n == 1) {
+				// Integral of a constant is linear: one coefficient more than the constant has
+				Vector<Real> lin(2);
+				lin[1] = 0.25 * (_b - _a) * _coef[0];
+				lin[0] = 2.0 * lin[1];
+				return ChebyshevApproximation(lin, _a, _b);
+			}
 
 			Vector<Real> cint(n);
 			Real sum = 0.0;
-- 
2.43.0


From 5e0b6db463db7c4abeb1edea142db7bfeb258b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:11 +0000
Subject: [PATCH 27/56] fix: ODE/DAE solution curves reject component indices
 out of range

---
 mml/base/DAESystem.h         | 4 ++++
 mml/base/ODESystemSolution.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index 6705bb9..87b1485 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -353,6 +353,8 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 2D
 		SplineInterpParametricCurve<2> getXAsParamCurve2D(int ind1, int ind2) const
 		{
+			if (ind1 < 0 || ind1 >= _diffDim || ind2 < 0 || ind2 >= _diffDim)
+				throw IndexError("Component out of range in DAESolution::getXAsParamCurve2D");
 			Matrix<Real> curve_points(_totalSavedSteps, 2);
 			for (int i = 0; i < _totalSavedSteps; i++)
 			{
@@ -369,6 +371,8 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 3D
 		SplineInterpParametricCurve<3> getXAsParamCurve3D(int ind1, int ind2, int ind3) const
 		{
+			if (ind1 < 0 || ind1 >= _diffDim || ind2 < 0 || ind2 >= _diffDim || ind3 < 0 || ind3 >= _diffDim)
+				throw IndexError("Component out of range in DAESolution::getXAsParamCurve3D");
 			Matrix<Real> curve_points(_totalSavedSteps, 3);
 			for (int i = 0; i < _totalSavedSteps; i++)
 			{
diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 31ef2fc..f80524b 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -260,6 +260,8 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 2D
 		SplineInterpParametricCurve<2> getSolAsParamCurve2D(int ind1, int ind2) const
 		{
+			if (ind1 < 0 || ind1 >= _sysDim || ind2 < 0 || ind2 >= _sysDim)
+				throw IndexError("Component out of range in ODESystemSolution::getSolAsParamCurve2D");
 			Matrix<Real> curve_points(_count, 2);
 			for (int i = 0; i < _count; i++)
 			{
@@ -276,6 +278,8 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 3D
 		SplineInterpParametricCurve<3> getSolAsParamCurve3D(int ind1, int ind2, int ind3) const
 		{
+			if (ind1 < 0 || ind1 >= _sysDim || ind2 < 0 || ind2 >= _sysDim || ind3 < 0 || ind3 >= _sysDim)
+				throw IndexError("Component out of range in ODESystemSolution::getSolAsParamCurve3D");
 			Matrix<Real> curve_points(_count, 3);
 			for (int i = 0; i < _count; i++)
 			{
-- 
2.43.0


From 8db927a61b83ff796333533b3439821f33ccec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 28/56] fix: serializers report success only if the output
 stream accepted everything written

---
 mml/tools/serializer/SerializerBase.h       | 15 ++++++++++++---
 mml/tools/serializer/SerializerCurves.h     | 10 +++++-----
 mml/tools/serializer/SerializerFieldLines.h | 10 +++++-----
 mml/tools/serializer/SerializerFunctions.h  | 14 +++++++-------
 mml/tools/serializer/SerializerODE.h        |  8 ++++----
 mml/tools/serializer/SerializerSimulation.h |  4 ++--
 mml/tools/serializer/SerializerSurfaces.h   | 10 +++++-----
 mml/tools/serializer/SerializerVectors.h    |  8 ++++----
 8 files changed, 44 insertions(+), 35 deletions(-)

diff --git a/mml/tools/serializer/SerializerBase.h b/mml/tools/serializer/SerializerBase.h
index f5ef8d9..0ed21cc 100644
--- a/mml/tools/serializer/SerializerBase.h
+++ b/mml/tools/serializer/SerializerBase.h
@@ -47,6 +47,15 @@ namespace MML
 		// Header writers - common utilities used by other serializer modules
 		//===================================================================================
 
+		/// @brief Outcome of a finished write operation
+		/// @return Success only if the stream accepted everything written to it (call after flush/close)
+		inline SerializeResult WriteOutcome(const std::ostream& out, const std::string& successMessage = "Success")
+		{
+			if (!out)
+				return {false, SerializeError::WRITE_FAILED, "Write error: output stream is in a failed state"};
+			return {true, SerializeError::OK, successMessage};
+		}
+
 		/// @brief Write header for real function data file
 		/// @return SerializeResult with success flag and error details
 		inline SerializeResult WriteRealFuncHeader(std::ostream& out, std::string type, std::string title,
@@ -59,7 +68,7 @@ namespace MML
 				out << "x1: " << x1 << std::endl;
 				out << "x2: " << x2 << std::endl;
 				out << "NumPoints: " << numPoints << std::endl;
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -84,7 +93,7 @@ namespace MML
 				out << "x1: " << x1 << std::endl;
 				out << "x2: " << x2 << std::endl;
 				out << "NumPoints: " << numPoints << std::endl;
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -105,7 +114,7 @@ namespace MML
 				out << "t1: " << t1 << std::endl;
 				out << "t2: " << t2 << std::endl;
 				out << "NumPoints: " << numPoints << std::endl;
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out);
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerCurves.h b/mml/tools/serializer/SerializerCurves.h
index db20385..41c6216 100644
--- a/mml/tools/serializer/SerializerCurves.h
+++ b/mml/tools/serializer/SerializerCurves.h
@@ -58,7 +58,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return WriteOutcome(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -99,7 +99,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return WriteOutcome(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -143,7 +143,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return WriteOutcome(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -184,7 +184,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return WriteOutcome(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -237,7 +237,7 @@ namespace MML
 					file << t << " " << vec_x[i] << " " << vec_y[i] << std::endl;
 				}
 				file.close();
-				return { true, SerializeError::OK, "Successfully saved parametric curve 2D" };
+				return WriteOutcome(file, "Successfully saved parametric curve 2D");
 			}
 			catch (const std::exception& e) {
 				file.close();
diff --git a/mml/tools/serializer/SerializerFieldLines.h b/mml/tools/serializer/SerializerFieldLines.h
index 7577112..8aa2504 100644
--- a/mml/tools/serializer/SerializerFieldLines.h
+++ b/mml/tools/serializer/SerializerFieldLines.h
@@ -38,7 +38,7 @@ namespace MML
 				out << type << std::endl;
 				out << "Title: " << title << std::endl;
 				out << "NUM_LINES: " << numLines << std::endl;
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -89,7 +89,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return WriteOutcome(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -137,7 +137,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return WriteOutcome(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -189,7 +189,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return WriteOutcome(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -233,7 +233,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return WriteOutcome(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index 38e1b44..1ac050a 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -53,7 +53,7 @@ namespace MML
 					Real x = x1 + i * step;
 					out << x << " " << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -96,7 +96,7 @@ namespace MML
 					Real x = points[i];
 					out << x << " " << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -140,7 +140,7 @@ namespace MML
 					Real x = x1 + i * step;
 					out << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -197,7 +197,7 @@ namespace MML
 
 					out << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -257,7 +257,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -300,7 +300,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -343,7 +343,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerODE.h b/mml/tools/serializer/SerializerODE.h
index 1211821..7291cc6 100644
--- a/mml/tools/serializer/SerializerODE.h
+++ b/mml/tools/serializer/SerializerODE.h
@@ -54,7 +54,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -95,7 +95,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -138,7 +138,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -183,7 +183,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerSimulation.h b/mml/tools/serializer/SerializerSimulation.h
index 47c0946..6790fa1 100644
--- a/mml/tools/serializer/SerializerSimulation.h
+++ b/mml/tools/serializer/SerializerSimulation.h
@@ -85,7 +85,7 @@ namespace MML
 				}
 				file << buffer.str();
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -155,7 +155,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerSurfaces.h b/mml/tools/serializer/SerializerSurfaces.h
index 5187222..e190686 100644
--- a/mml/tools/serializer/SerializerSurfaces.h
+++ b/mml/tools/serializer/SerializerSurfaces.h
@@ -84,7 +84,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -140,7 +140,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -209,7 +209,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -269,7 +269,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -341,7 +341,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerVectors.h b/mml/tools/serializer/SerializerVectors.h
index a469404..040408b 100644
--- a/mml/tools/serializer/SerializerVectors.h
+++ b/mml/tools/serializer/SerializerVectors.h
@@ -55,7 +55,7 @@ namespace MML
 						file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -98,7 +98,7 @@ namespace MML
 							file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -161,7 +161,7 @@ namespace MML
 						}
 
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -210,7 +210,7 @@ namespace MML
 						}
 
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return WriteOutcome(file);
 			}
 			catch (const std::exception& e)
 			{
-- 
2.43.0


From cf4bb99365438fe0db2d490e182cb8321a9ea104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:52 +0000
Subject: [PATCH 29/56] fix: serializers propagate a failed header write
 instead of discarding it

---
 mml/tools/serializer/SerializerCurves.h    |  4 +++-
 mml/tools/serializer/SerializerFunctions.h | 28 ++++++++++++++++------
 mml/tools/serializer/SerializerODE.h       | 16 +++++++++----
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/mml/tools/serializer/SerializerCurves.h b/mml/tools/serializer/SerializerCurves.h
index 41c6216..4a81495 100644
--- a/mml/tools/serializer/SerializerCurves.h
+++ b/mml/tools/serializer/SerializerCurves.h
@@ -229,7 +229,9 @@ namespace MML
 			}
 
 			try {
-				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_2D", title, t1, t2, static_cast<int>(vec_x.size()));
+				auto headerResult = WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_2D", title, t1, t2, static_cast<int>(vec_x.size()));
+				if (!headerResult.success)
+					return headerResult;
 
 				for (int i = 0; i < vec_x.size(); i++)
 				{
diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index 1ac050a..c440a47 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -45,7 +45,9 @@ namespace MML
 			try
 			{
 				out.precision(precision);
-				WriteRealFuncHeader(out, "REAL_FUNCTION", title, x1, x2, numPoints);
+				auto headerResult = WriteRealFuncHeader(out, "REAL_FUNCTION", title, x1, x2, numPoints);
+				if (!headerResult.success)
+					return headerResult;
 
 				Real step = (x2 - x1) / (numPoints - 1);
 				for (int i = 0; i < numPoints; i++)
@@ -89,7 +91,9 @@ namespace MML
 			try
 			{
 				out.precision(precision);
-				WriteRealFuncHeader(out, "REAL_FUNCTION", title, points[0], points[points.size() - 1], static_cast<int>(points.size()));
+				auto headerResult = WriteRealFuncHeader(out, "REAL_FUNCTION", title, points[0], points[points.size() - 1], static_cast<int>(points.size()));
+				if (!headerResult.success)
+					return headerResult;
 
 				for (int i = 0; i < points.size(); i++)
 				{
@@ -132,7 +136,9 @@ namespace MML
 			try
 			{
 				out.precision(precision);
-				WriteRealFuncHeader(out, "REAL_FUNCTION_EQUALLY_SPACED", title, x1, x2, numPoints);
+				auto headerResult = WriteRealFuncHeader(out, "REAL_FUNCTION_EQUALLY_SPACED", title, x1, x2, numPoints);
+				if (!headerResult.success)
+					return headerResult;
 
 				Real step = (x2 - x1) / (numPoints - 1);
 				for (int i = 0; i < numPoints; i++)
@@ -185,7 +191,9 @@ namespace MML
 			try
 			{
 				out.precision(precision);
-				WriteRealMultiFuncHeader(out, title, funcs.size(), legend, x1, x2, numPoints);
+				auto headerResult = WriteRealMultiFuncHeader(out, title, funcs.size(), legend, x1, x2, numPoints);
+				if (!headerResult.success)
+					return headerResult;
 
 				for (int i = 0; i < numPoints; i++)
 				{
@@ -244,7 +252,9 @@ namespace MML
 
 			try
 			{
-				WriteRealMultiFuncHeader(file, title, funcs.size(), legend, x1, x2, numPoints);
+				auto headerResult = WriteRealMultiFuncHeader(file, title, funcs.size(), legend, x1, x2, numPoints);
+				if (!headerResult.success)
+					return headerResult;
 
 				for (int i = 0; i < numPoints; i++)
 				{
@@ -287,7 +297,9 @@ namespace MML
 
 			try
 			{
-				WriteRealMultiFuncHeader(file, title, funcs.size(), legend, x1, x2, numPoints);
+				auto headerResult = WriteRealMultiFuncHeader(file, title, funcs.size(), legend, x1, x2, numPoints);
+				if (!headerResult.success)
+					return headerResult;
 
 				for (int i = 0; i < numPoints; i++)
 				{
@@ -330,7 +342,9 @@ namespace MML
 
 			try
 			{
-				WriteRealMultiFuncHeader(file, title, funcs.size(), legend, x1, x2, numPoints);
+				auto headerResult = WriteRealMultiFuncHeader(file, title, funcs.size(), legend, x1, x2, numPoints);
+				if (!headerResult.success)
+					return headerResult;
 
 				for (int i = 0; i < numPoints; i++)
 				{
diff --git a/mml/tools/serializer/SerializerODE.h b/mml/tools/serializer/SerializerODE.h
index 7291cc6..b9a47a8 100644
--- a/mml/tools/serializer/SerializerODE.h
+++ b/mml/tools/serializer/SerializerODE.h
@@ -46,7 +46,9 @@ namespace MML
 
 			try
 			{
-				WriteRealFuncHeader(file, "REAL_FUNCTION", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				auto headerResult = WriteRealFuncHeader(file, "REAL_FUNCTION", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				if (!headerResult.success)
+					return headerResult;
 				
 				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
 				{
@@ -83,7 +85,9 @@ namespace MML
 
 			try
 			{
-				WriteRealMultiFuncHeader(file, title, sol.getSysDim(), legend, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				auto headerResult = WriteRealMultiFuncHeader(file, title, sol.getSysDim(), legend, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				if (!headerResult.success)
+					return headerResult;
 
 				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
 				{
@@ -127,7 +131,9 @@ namespace MML
 
 			try
 			{
-				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_2D", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				auto headerResult = WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_2D", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				if (!headerResult.success)
+					return headerResult;
 				
 				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
 				{
@@ -171,7 +177,9 @@ namespace MML
 
 			try
 			{
-				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_3D", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				auto headerResult = WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_3D", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				if (!headerResult.success)
+					return headerResult;
 
 				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
 				{
-- 
2.43.0


From d7b083c13684fee8a1d972ca0f632efdf38d901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 30/56] fix: file savers and loaders report failure on failed,
 truncated or unreadable data

---
 mml/base/Vector/Vector.h        | 15 ++++++++++++---
 mml/tools/ConsolePrinter.h      |  4 ++++
 mml/tools/serializer/MatrixIO.h | 20 ++++++++++++++++----
 mml/tools/serializer/VectorIO.h | 10 +++++++++-
 4 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 99e669f..0a8ede5 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -519,7 +519,7 @@ namespace MML
 			}
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from binary file
@@ -552,6 +552,10 @@ namespace MML
 			file.read(reinterpret_cast<char*>(&size), sizeof(size));
 			file.read(reinterpret_cast<char*>(&elemSize), sizeof(elemSize));
 			
+			if (file.fail()) {
+				std::cerr << "Error: truncated header in " << filename << std::endl;
+				return false;
+			}
 			if (elemSize != sizeof(Type)) {
 				std::cerr << "Error: element size mismatch in " << filename 
 				          << " (file: " << elemSize << ", expected: " << sizeof(Type) << ")" << std::endl;
@@ -565,6 +569,10 @@ namespace MML
 				          size * sizeof(Type));
 			}
 			
+			if (file.fail()) {
+				std::cerr << "Error: truncated data in " << filename << std::endl;
+				return false;
+			}
 			file.close();
 			return true;
 		}
@@ -583,7 +591,7 @@ namespace MML
 				file << val << std::endl;
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from text file
@@ -596,12 +604,13 @@ namespace MML
 			if (!file.is_open()) return false;
 			
 			size_t size;
-			file >> size;
+			if (!(file >> size)) return false;
 			outVec._elems.resize(size);
 			
 			for (size_t i = 0; i < size; ++i)
 				file >> outVec._elems[i];
 			
+			if (file.fail()) return false;
 			file.close();
 			return true;
 		}
diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index 04d2741..7c3da84 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -573,6 +573,10 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			exportTo(file, format);
+			file.close();
+			if (!file) {
+				throw FileIOError("Cannot write file: " + filename, filename);
+			}
 		}
 
 	private:
diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index 46b977f..be5f25b 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -61,6 +61,10 @@ namespace Serializer
 			for (int j = 0; j < cols; ++j)
 				file >> outMat(i, j);
 		
+		if (file.fail()) {
+			std::cerr << "Error: could not read all " << rows << "x" << cols << " elements from " << filename << std::endl;
+			return false;
+		}
 		file.close();
 		return true;
 	}
@@ -89,7 +93,7 @@ namespace Serializer
 		}
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -119,7 +123,7 @@ namespace Serializer
 			while (std::getline(ss, cell, ',')) {
 				std::stringstream cellStream(cell);
 				Type value;
-				cellStream >> value;
+				if (!(cellStream >> value)) return false;
 				row.push_back(value);
 			}
 			if (!row.empty())
@@ -155,7 +159,7 @@ namespace Serializer
 		}
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -207,7 +211,7 @@ namespace Serializer
 		           static_cast<std::streamsize>(rows) * cols * sizeof(Type));
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	/**
@@ -246,6 +250,10 @@ namespace Serializer
 		file.read(reinterpret_cast<char*>(&elemSize), sizeof(elemSize));
 		file.read(reinterpret_cast<char*>(&reserved), sizeof(reserved));
 		
+		if (file.fail()) {
+			std::cerr << "Error: truncated header in " << filename << std::endl;
+			return false;
+		}
 		if (elemSize != sizeof(Type)) {
 			std::cerr << "Error: element size mismatch in " << filename 
 			          << " (file: " << elemSize << ", expected: " << sizeof(Type) << ")" << std::endl;
@@ -261,6 +269,10 @@ namespace Serializer
 		file.read(reinterpret_cast<char*>(outMat.data()), 
 		          static_cast<std::streamsize>(rows) * cols * sizeof(Type));
 		
+		if (file.fail()) {
+			std::cerr << "Error: truncated data in " << filename << std::endl;
+			return false;
+		}
 		file.close();
 		return true;
 	}
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index 5ac2710..efa2722 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -77,7 +77,7 @@ bool SaveComplexVector(const std::vector<std::complex<T>>& vec,
     }
     
     file.close();
-    return true;
+    return !file.fail();
 }
 
 /// @brief Load complex vector from binary file
@@ -113,6 +113,10 @@ bool LoadComplexVector(const std::string& filename,
     file.read(reinterpret_cast<char*>(&count), sizeof(count));
     file.read(reinterpret_cast<char*>(&elemSize), sizeof(elemSize));
     
+    if (file.fail()) {
+        std::cerr << "Error: truncated header in " << filename << std::endl;
+        return false;
+    }
     if (elemSize != sizeof(T)) {
         std::cerr << "Error: element size mismatch in " << filename 
                   << " (file: " << elemSize << ", expected: " << sizeof(T) << ")" << std::endl;
@@ -145,6 +149,10 @@ bool LoadComplexVector(const std::string& filename,
         file.read(reinterpret_cast<char*>(&imagParts[i]), sizeof(T));
     }
     
+    if (file.fail()) {
+        std::cerr << "Error: truncated data in " << filename << std::endl;
+        return false;
+    }
     // Construct complex values
     vec.resize(count);
     for (uint32_t i = 0; i < count; ++i) {
-- 
2.43.0


From e88bdacce3a7bf2ed7a9b833d84b32cc32a7dcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 31/56] fix: function serializers report a failed close of
 their output file

---
 mml/tools/serializer/SerializerFunctions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index c440a47..e215b05 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -77,7 +77,7 @@ namespace MML
 
 			auto result = SaveRealFunc(file, f, title, x1, x2, numPoints, precision);
 			file.close();
-			return result;
+			return result.success ? WriteOutcome(file) : result;
 		}
 
 		/// @brief Serialize a real function to a stream at specified points
@@ -121,7 +121,7 @@ namespace MML
 
 			auto result = SaveRealFunc(file, f, title, points, precision);
 			file.close();
-			return result;
+			return result.success ? WriteOutcome(file) : result;
 		}
 
 		/// @brief Serialize a real function to stream saving only function values (space-optimized)
@@ -167,7 +167,7 @@ namespace MML
 
 			auto result = SaveRealFuncEquallySpaced(file, f, title, x1, x2, numPoints, precision);
 			file.close();
-			return result;
+			return result.success ? WriteOutcome(file) : result;
 		}
 
 		//===================================================================================
@@ -227,7 +227,7 @@ namespace MML
 
 			auto result = SaveRealMultiFunc(file, funcs, title, legend, x1, x2, numPoints, precision);
 			file.close();
-			return result;
+			return result.success ? WriteOutcome(file) : result;
 		}
 
 		/// @brief Serialize multiple linear interpolation functions to file
-- 
2.43.0


From fbb4a058b48c58d024aeb56b73bd33f9b24317c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 32/56] fix: TablePrinter::printToFile reports a failed write

---
 mml/tools/ConsolePrinter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index 7c3da84..bf190db 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -532,6 +532,10 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			print(file);
+			file.close();
+			if (!file) {
+				throw FileIOError("Cannot write file: " + filename, filename);
+			}
 		}
 
 		// Convert to string
-- 
2.43.0


From 20dc82b3c3b6d29fa4fafa73dd5df464406e70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:56 +0000
Subject: [PATCH 33/56] fix: DormandPrince8_Stepper starts each step from the
 derivative at the accepted state

---
 mml/algorithms/ODESolvers/ODERKCoefficients.h |  2 +-
 mml/algorithms/ODESolvers/ODESteppers.h       | 29 ++++++++-----------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODERKCoefficients.h b/mml/algorithms/ODESolvers/ODERKCoefficients.h
index a55a683..717b95d 100644
--- a/mml/algorithms/ODESolvers/ODERKCoefficients.h
+++ b/mml/algorithms/ODESolvers/ODERKCoefficients.h
@@ -190,7 +190,7 @@ namespace RKCoeff {
 		static constexpr int stages = 13;
 		static constexpr int order = 8;
 		static constexpr int error_order = 7;
-		static constexpr bool fsal = true;
+		static constexpr bool fsal = false;
 
 		// Time nodes (c coefficients)
 		static constexpr Real c[13] = {
diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 5d3a8d3..3be38a6 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -523,7 +523,7 @@ namespace MML {
 	/// High-order method for problems requiring very high accuracy.
 	/// Features:
 	/// - 8th order accurate solution with 7th order error estimate
-	/// - 13 stages (FSAL optimization applies)
+	/// - 13 stages
 	/// - Excellent for smooth problems, astronomical trajectories
 	/// - Higher cost per step but much larger accurate step sizes
 	class DormandPrince8_Stepper : public IAdaptiveStepper {
@@ -534,13 +534,13 @@ namespace MML {
 		static constexpr int NSTAGES = 13;
 		std::vector<Vector<Real>> _k; // Stage vectors
 		Vector<Real> _xNew;
+		Vector<Real> _dxNew; // Derivative at the accepted state
 
 		// Dense output data
 		Real _tOld;
 		Real _hDone;
 		Vector<Real> _xOld;
 		bool _stepReady;
-		bool _haveFSAL;
 		Real _errOld;
 
 		// Dormand-Prince 8(7) coefficients from centralized header
@@ -576,12 +576,12 @@ namespace MML {
 			, _tOld(0)
 			, _hDone(0)
 			, _stepReady(false)
-			, _haveFSAL(false)
 			, _errOld(1.0) {
 			_k.resize(NSTAGES);
 			for (int i = 0; i < NSTAGES; ++i)
 				_k[i].Resize(_n);
 			_xNew.Resize(_n);
+			_dxNew.Resize(_n);
 			_xOld.Resize(_n);
 		}
 
@@ -593,12 +593,7 @@ namespace MML {
 			Real h = htry;
 
 			while (true) {
-				// Use FSAL if available
-				if (_haveFSAL) {
-					_k[0] = _k[12];
-				} else {
-					_k[0] = dxdt;
-				}
+				_k[0] = dxdt;
 
 				// Stage 2
 				for (int i = 0; i < _n; i++)
@@ -655,7 +650,7 @@ namespace MML {
 					_xNew[i] = x[i] + h * (a12[0] * _k[0][i] + a12[3] * _k[3][i] + a12[4] * _k[4][i] + a12[5] * _k[5][i] + a12[6] * _k[6][i] + a12[7] * _k[7][i] + a12[8] * _k[8][i] + a12[9] * _k[9][i] + a12[10] * _k[10][i]);
 				_sys.derivs(t + c[11] * h, _xNew, _k[11]);
 
-				// Stage 13 (final, also FSAL)
+				// Stage 13
 				for (int i = 0; i < _n; i++)
 					_xNew[i] = x[i] + h * (a13[0] * _k[0][i] + a13[3] * _k[3][i] + a13[4] * _k[4][i] + a13[5] * _k[5][i] + a13[6] * _k[6][i] + a13[7] * _k[7][i] + a13[8] * _k[8][i] + a13[9] * _k[9][i] + a13[10] * _k[10][i]);
 				_sys.derivs(t + c[12] * h, _xNew, _k[12]);
@@ -694,8 +689,10 @@ namespace MML {
 
 					// Update state
 					x = _xNew;
-					dxdt = _k[12];
-					_haveFSAL = true;
+					// The last stage is not taken at the 8th order solution (a13 != b8), so it can't be reused
+					_sys.derivs(t + h, x, dxdt);
+					_dxNew = dxdt;
+					result.funcEvals++;
 
 					// Step size control for next step
 					Real factor = SAFETY * std::pow(errMax, -ALPHA);
@@ -710,7 +707,6 @@ namespace MML {
 				Real factor = SAFETY * std::pow(errMax, -ALPHA);
 				factor = std::max<Real>(MIN_FACTOR, factor);
 				h *= factor;
-				_haveFSAL = false;
 
 				if (std::abs(h) < Constants::Eps)
 					throw ODESolverError("Step size underflow in DormandPrince8_Stepper");
@@ -737,23 +733,22 @@ namespace MML {
 
 			for (int i = 0; i < _n; i++) {
 				Real hf0 = _hDone * _k[0][i];
-				Real hf1 = _hDone * _k[12][i];
+				Real hf1 = _hDone * _dxNew[i];
 				result[i] = h00 * _xOld[i] + h10 * hf0 + h01 * _xNew[i] + h11 * hf1;
 			}
 
 			return result;
 		}
 
-		bool isFSAL() const override { return true; }
+		bool isFSAL() const override { return false; }
 
-		const Vector<Real>& getFinalDeriv() const override { return _k[12]; }
+		const Vector<Real>& getFinalDeriv() const override { return _dxNew; }
 
 		int stageCount() const override { return NSTAGES; }
 
 		int order() const override { return 8; }
 
 		void resetFSAL() override {
-			_haveFSAL = false;
 			_stepReady = false;
 			_errOld = 1.0;
 		}
-- 
2.43.0


From a85c468894d49ddb408dc57ada25a2178e3efc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:02 +0000
Subject: [PATCH 34/56] fix: Bulirsch-Stoer steppers extrapolate from the
 current estimate

---
 mml/algorithms/ODESolvers/ODESteppers.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 3be38a6..ac2d5b1 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -837,6 +837,8 @@ namespace MML {
 			} else {
 				// Use Neville's algorithm
 				Vector<Real> c = yest;
+				yz = yest;
+				dy = yest;
 
 				for (int k = 0; k < iest; k++) {
 					Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -849,13 +851,12 @@ namespace MML {
 						delta = c[j] - q;
 						dy[j] = f1 * delta;
 						c[j] = f2 * delta;
+						yz[j] += dy[j];
 					}
 				}
 
-				for (int j = 0; j < _n; j++) {
-					yz[j] += dy[j];
+				for (int j = 0; j < _n; j++)
 					_d[iest][j] = dy[j];
-				}
 			}
 		}
 
@@ -1065,6 +1066,8 @@ namespace MML {
 			// Use Neville's polynomial extrapolation (same as pzextr)
 			// This is more stable than rational extrapolation
 			Vector<Real> c = yest;
+			yz = yest;
+			dy = yest;
 
 			for (int k = 0; k < iest; k++) {
 				Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -1077,13 +1080,12 @@ namespace MML {
 					Real diff = c[j] - q;
 					dy[j] = f1 * diff;
 					c[j] = f2 * diff;
+					yz[j] += dy[j];
 				}
 			}
 
-			for (int j = 0; j < _n; j++) {
-				yz[j] += dy[j];
+			for (int j = 0; j < _n; j++)
 				_d[iest][j] = dy[j];
-			}
 		}
 
 	public:
-- 
2.43.0


From 08e07cf0a1600b37d79fa7eab36256f84d7e1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:32 +0000
Subject: [PATCH 35/56] fix: CoordTransf3DCartOrthogonal inverts
 transformations with non-unit base vectors

---
 mml/core/CoordTransf/CoordTransf3D.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index 6b3d814..dc7c972 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -364,11 +364,16 @@ namespace MML
 			_base[1] = b2;
 			_base[2] = b3;
 
+			// Base vectors need not be unit vectors: column j of the inverse is b_j / |b_j|^2
+			const Real normSq[3] = { base1 * base1, base2 * base2, base3 * base3 };
+			if (normSq[0] == 0.0 || normSq[1] == 0.0 || normSq[2] == 0.0)
+				throw GeometryError("CoordTransf3DCartOrthogonal: Base vectors must be non-zero.");
+
 			for (int i = 0; i < 3; i++) {
 				for (int j = 0; j < 3; j++)
 				{
 					_transf(i, j) = _base[i][j];
-					_transfInverse(i, j) = _base[j][i];
+					_transfInverse(i, j) = _base[j][i] / normSq[j];
 				}
 			}
 		}
-- 
2.43.0


From 25f58a527baefeac68516882961792d562e8b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:01 +0000
Subject: [PATCH 36/56] fix: face terms of the Cayley-Menger determinant in
 Tetrahedron::Volume

---
 mml/base/Geometry/GeometryCore/Geometry3DShapes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
index 5f31b49..f111ee0 100644
--- a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
@@ -241,7 +241,7 @@ namespace MML {
 			Real term1 = a2 * f2 * (b2 + c2 + d2 + e2 - a2 - f2);
 			Real term2 = b2 * e2 * (a2 + c2 + d2 + f2 - b2 - e2);
 			Real term3 = c2 * d2 * (a2 + b2 + e2 + f2 - c2 - d2);
-			Real term4 = -a2 * b2 * f2 - a2 * c2 * e2 - b2 * c2 * d2;
+			Real term4 = -a2 * b2 * d2 - a2 * c2 * e2 - b2 * c2 * f2;
 			Real term5 = -d2 * e2 * f2;
 
 			Real det = term1 + term2 + term3 + term4 + term5;
-- 
2.43.0


From 9eb454d47bbcb7047bd07b749a89d1bc6aeca499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:01 +0000
Subject: [PATCH 37/56] fix: angle between the sides in
 Parallelogram::FromDiagonals

---
 mml/base/Geometry/GeometryCore/Geometry2DShapes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/GeometryCore/Geometry2DShapes.h b/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
index f3394ff..3851946 100644
--- a/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
@@ -481,7 +481,7 @@ namespace MML {
 			// Diagonals bisect each other; use parallelogram law
 			Real a = 0.5 * sqrt(p * p + q * q + 2 * p * q * cos(angleBetween));
 			Real b = 0.5 * sqrt(p * p + q * q - 2 * p * q * cos(angleBetween));
-			Real angle = acos((a * a + b * b - 0.25 * p * p) / (2 * a * b));
+			Real angle = acos((a * a + b * b - p * p) / (2 * a * b));
 			return Parallelogram(a, b, angle);
 		}
 	};
-- 
2.43.0


From 44af7b442a4bb3b56c95232182b60b849c96142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:01 +0000
Subject: [PATCH 38/56] fix: lines at an obtuse angle are not perpendicular

---
 mml/base/Geometry/Geometry3DCore/Geometry3DLines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
index 606f7b1..7dfd05a 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
@@ -145,7 +145,7 @@ namespace MML
 		/// @brief Tests if this line is perpendicular to another line
 		bool IsPerpendicular(const Line3D& b, Real eps = Defaults::Line3DIsPerpendicularTolerance) const
 		{
-			return ScalarProduct(Direction(), b.Direction()) < eps;
+			return std::abs(ScalarProduct(Direction(), b.Direction())) < eps;
 		}
 		
 		/// @brief Tests if this line is parallel to another line
-- 
2.43.0


From fda50850819a5bb7eebb5e5570241dfad06f0fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:01 +0000
Subject: [PATCH 39/56] fix: sign of the point on the intersection line of two
 planes

---
 mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
index d00d81c..0742b91 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
@@ -281,12 +281,12 @@ namespace MML
 			}
 
 			// Solve for a point on the intersection line:
-			// x = ( (d2 n1 - d1 n2) x (n1 x n2) ) / |n1 x n2|^2
+			// x = ( (d1 n2 - d2 n1) x (n1 x n2) ) / |n1 x n2|^2
 			double d1 = -D();
 			double d2 = -plane.D();
 
 			Vec3Cart n1xn2 = dir;
-			Vec3Cart p = VectorProduct((d2 * n1 - d1 * n2), n1xn2) / POW2(n1xn2.NormL2());
+			Vec3Cart p = VectorProduct((d1 * n2 - d2 * n1), n1xn2) / POW2(n1xn2.NormL2());
 
 			out_inter_line = Line3D(Pnt3Cart(p.X(), p.Y(), p.Z()), dir.GetAsUnitVector());
 			return true;
-- 
2.43.0


From 7641892eca2100fb0efb14ec9d7f7b567cd17ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:01 +0000
Subject: [PATCH 40/56] fix: planes with opposite normals are parallel

---
 mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
index 0742b91..5e43db3 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
@@ -232,7 +232,7 @@ namespace MML
 			Vec3Cart norm1(_A, _B, _C);
 			Vec3Cart norm2(plane._A, plane._B, plane._C);
 
-			return norm1.IsParallelTo(norm2);
+			return norm1.IsParallelTo(norm2) || norm1.IsParallelTo(-norm2);
 		}
 		
 		/// @brief Tests if this plane is perpendicular to another plane
-- 
2.43.0


From 8dbe69cb22a83099abfb0141ea5da8e92d462303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:22 +0000
Subject: [PATCH 41/56] fix: faces of Pyramid3D stand on its base and follow
 its center

---
 .../Geometry3DSpherePyramid.h                 | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
index b9c41a2..e19b0bd 100644
--- a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
+++ b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
@@ -198,14 +198,22 @@ namespace MML {
 		/// @param h Height (apex at z = h)
 
 		Pyramid3D(Real a, Real h)
+			: Pyramid3D(a, h, Vec3Cart(0, 0, 0)) {}
+
+		/// @brief Construct pyramid with base centered at specified point.
+		/// @param a Base side length
+		/// @param h Height
+		/// @param center Base center point
+
+		Pyramid3D(Real a, Real h, const Vec3Cart& center)
 			: _a(a)
 			, _h(h)
-			, _center(0, 0, 0) {
-			Pnt3Cart pnt1(a / 2, -a / 2, -a / 2);
-			Pnt3Cart pnt2(a / 2, a / 2, -a / 2);
-			Pnt3Cart pnt3(-a / 2, a / 2, -a / 2);
-			Pnt3Cart pnt4(-a / 2, -a / 2, -a / 2);
-			Pnt3Cart pnt5(0, 0, h); // apex
+			, _center(center) {
+			Pnt3Cart pnt1(center.X() + a / 2, center.Y() - a / 2, center.Z());
+			Pnt3Cart pnt2(center.X() + a / 2, center.Y() + a / 2, center.Z());
+			Pnt3Cart pnt3(center.X() - a / 2, center.Y() + a / 2, center.Z());
+			Pnt3Cart pnt4(center.X() - a / 2, center.Y() - a / 2, center.Z());
+			Pnt3Cart pnt5(center.X(), center.Y(), center.Z() + h); // apex
 
 			_surfaces.push_back(TriangleSurface3D(pnt1, pnt4, pnt3)); // base triangle 1
 			_surfaces.push_back(TriangleSurface3D(pnt1, pnt3, pnt2)); // base triangle 2
@@ -214,16 +222,6 @@ namespace MML {
 			_surfaces.push_back(TriangleSurface3D(pnt5, pnt3, pnt4)); // back face
 			_surfaces.push_back(TriangleSurface3D(pnt5, pnt4, pnt1)); // left face
 		}
-
-		/// @brief Construct pyramid with base centered at specified point.
-		/// @param a Base side length
-		/// @param h Height
-		/// @param center Base center point
-
-		Pyramid3D(Real a, Real h, const Vec3Cart& center)
-			: Pyramid3D(a, h) {
-			_center = center;
-		}
 		/// @}
 
 		/// @name Containment Test
-- 
2.43.0


From 8154e499838dc0b574c66cc312373957c1e12266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:22 +0000
Subject: [PATCH 42/56] fix: faces of Sphere3D all wound the same way, outward

---
 .../Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
index e19b0bd..305d62d 100644
--- a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
+++ b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
@@ -104,11 +104,11 @@ namespace MML {
 						_surfaces.emplace_back(p1, p4, p3);
 					} else if (i == _numLatitude - 1) {
 						// Bottom pole: single triangle
-						_surfaces.emplace_back(p1, p2, p3);
+						_surfaces.emplace_back(p1, p3, p2);
 					} else {
 						// Regular patch: two triangles
-						_surfaces.emplace_back(p1, p2, p3);
-						_surfaces.emplace_back(p1, p3, p4);
+						_surfaces.emplace_back(p1, p3, p2);
+						_surfaces.emplace_back(p1, p4, p3);
 					}
 				}
 			}
-- 
2.43.0


From ca202bada13f62a5119051c06121c4b528ada40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:03 +0000
Subject: [PATCH 43/56] fix: distance between parallel 3D lines is the
 perpendicular distance

Line3D::Dist(line) and the overload returning the nearest points projected
the vector between the reference points onto the common direction, which
gave the offset along the lines (signed) instead of the distance between them.
---
 mml/base/Geometry/Geometry3DCore/Geometry3DLines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
index 7dfd05a..8eeac7f 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
@@ -226,7 +226,7 @@ namespace MML
 			if (n.isZero())
 			{
 				// parallel lines
-				return Vec3Cart(p1, p2) * d1 / d2.NormL2();
+				return Dist(p2);
 			}
 			else
 			{
@@ -255,7 +255,7 @@ namespace MML
 
 			if (n.isZero())				// check for parallel lines
 			{
-				out_dist = Vec3Cart(p1, p2) * d1 / d2.NormL2();
+				out_dist = Dist(p2);
 				return false;
 			}
 			else
-- 
2.43.0


From 5e82b26bef348ebc0fe9f08e6ee84f40c0da0477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:01 +0000
Subject: [PATCH 44/56] fix: SplineInterpParametricCurve owns its splines, so
 copies no longer delete them twice

---
 .../InterpolationParametricCurve.h                     | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index b15cfe5..58ebd3f 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -23,6 +23,7 @@
 #define MML_INTERPOLATION_PARAMETRIC_CURVE_H
 
 #include <cmath>
+#include <memory>
 #include <vector>
 
 #include "MMLBase.h"
@@ -162,7 +163,7 @@ namespace MML {
 		Vector<Real> s;			   ///< Arc-length parameters
 		Vector<Real> ans;		   ///< Temporary result storage
 
-		std::vector<SplineInterpRealFunc*> srp; ///< Spline for each coordinate
+		std::vector<std::shared_ptr<const SplineInterpRealFunc>> srp; ///< Spline for each coordinate
 
 	public:
 		/// @brief Construct a spline-interpolated parametric curve.
@@ -221,7 +222,7 @@ namespace MML {
 
 				Vector<Real> vec = _curvePoints.VectorFromRow(j);
 
-				srp[j] = new SplineInterpRealFunc(s, vec, db, de);
+				srp[j] = std::make_shared<const SplineInterpRealFunc>(s, vec, db, de);
 			}
 		}
 
@@ -232,11 +233,6 @@ namespace MML {
 		SplineInterpParametricCurve(const Matrix<Real>& ptsin, bool close = 0)
 			: SplineInterpParametricCurve(0.0, 1.0, ptsin, close) {}
 
-		~SplineInterpParametricCurve() {
-			for (int j = 0; j < _dim; j++)
-				delete srp[j];
-		}
-
 		/// /** @brief Get the minimum parameter value. */
 
 		Real getMinT() const { return _minT; }
-- 
2.43.0


From 8f7ae4269b9386e3d5e9d32f628f442cd140c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:01 +0000
Subject: [PATCH 45/56] fix: copying a coordinate transformation rebinds its
 component functions to the copy

---
 mml/core/CoordTransf/CoordTransf2D.h      |  9 +++++++++
 mml/core/CoordTransf/CoordTransf3D.h      | 24 +++++++++++++++++++++++
 mml/core/CoordTransf/CoordTransfLorentz.h |  3 +++
 3 files changed, 36 insertions(+)

diff --git a/mml/core/CoordTransf/CoordTransf2D.h b/mml/core/CoordTransf/CoordTransf2D.h
index 8079a30..8ae67f5 100644
--- a/mml/core/CoordTransf/CoordTransf2D.h
+++ b/mml/core/CoordTransf/CoordTransf2D.h
@@ -99,6 +99,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransfCart2DRotation(const CoordTransfCart2DRotation& other) : CoordTransfCart2DRotation(other._angle) {}
+
 		/// @brief Constructor for 2D rotation transformation
 		/// @param inAngle Rotation angle in radians (counterclockwise positive)
 		CoordTransfCart2DRotation(Real inAngle) : 
@@ -179,6 +182,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransfObliqueToCartesian2D(const CoordTransfObliqueToCartesian2D& other) : CoordTransfObliqueToCartesian2D(other._angle) {}
+
 		/// @brief Constructor for oblique to Cartesian transformation
 		/// @param inAngle Angle between oblique Y-axis and X-axis (in radians)
 		CoordTransfObliqueToCartesian2D(Real inAngle)
@@ -243,6 +249,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransfCartesianToOblique2D(const CoordTransfCartesianToOblique2D& other) : CoordTransfCartesianToOblique2D(other._angle) {}
+
 		/// @brief Constructor for Cartesian to oblique transformation
 		/// @param inAngle Angle between oblique Y-axis and X-axis (in radians)
 		CoordTransfCartesianToOblique2D(Real inAngle)
diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index dc7c972..f432a44 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -37,6 +37,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransfCart3DRotationXAxis(const CoordTransfCart3DRotationXAxis& other) : CoordTransfCart3DRotationXAxis(other._angle) {}
+
 		/// @brief Constructor for X-axis rotation
 		/// @param inAngle Rotation angle in radians (counterclockwise looking down positive X-axis)
 		CoordTransfCart3DRotationXAxis(Real inAngle) : _angle(inAngle),
@@ -111,6 +114,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransfCart3DRotationYAxis(const CoordTransfCart3DRotationYAxis& other) : CoordTransfCart3DRotationYAxis(other._angle) {}
+
 		CoordTransfCart3DRotationYAxis(Real inAngle) : _angle(inAngle),
 			_f1([this](const VectorN<Real, 3>& q) { return func1(q); }),
 			_f2([this](const VectorN<Real, 3>& q) { return func2(q); }),
@@ -172,6 +178,9 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransfCart3DRotationZAxis(const CoordTransfCart3DRotationZAxis& other) : CoordTransfCart3DRotationZAxis(other._angle) {}
+
 		CoordTransfCart3DRotationZAxis(Real inAngle) : _angle(inAngle),
 			_f1([this](const VectorN<Real, 3>& q) { return func1(q); }),
 			_f2([this](const VectorN<Real, 3>& q) { return func2(q); }),
@@ -261,6 +270,9 @@ namespace MML
 		}
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransfCart3DRotationEuler(const CoordTransfCart3DRotationEuler& other) : CoordTransfCart3DRotationEuler(other._alpha, other._beta, other._gamma) {}
+
 		/// @brief Constructor using ZYZ Euler angles
 		/// @param alpha First rotation around Z-axis (radians)
 		/// @param beta Second rotation around Y'-axis (radians)
@@ -333,6 +345,9 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_transfInverse * q)[2]; }
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransf3DCartOrthogonal(const CoordTransf3DCartOrthogonal& other) : CoordTransf3DCartOrthogonal(other._base[0], other._base[1], other._base[2]) {}
+
 		/// @brief Constructor for orthogonal transformation
 		/// @param b1 First basis vector (must be orthogonal to b2, b3)
 		/// @param b2 Second basis vector (must be orthogonal to b1, b3)
@@ -434,6 +449,9 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_transfInverse * q)[2]; }
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransf3DCartGeneral(const CoordTransf3DCartGeneral& other) : CoordTransf3DCartGeneral(other._transf) {}
+
 		/// @brief Constructor from transformation matrix
 		/// @param transfMat 3x3 transformation matrix (must be non-singular)
 		/// @throws SingularMatrixError if matrix is singular (determinant ≈ 0)
@@ -513,6 +531,9 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_baseMat * q)[2]; }
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransfCartesianToOblique3D(const CoordTransfCartesianToOblique3D& other) : CoordTransfCartesianToOblique3D(other._base[0], other._base[1], other._base[2]) {}
+
 		/// @brief Constructor for oblique coordinate system
 		/// @param b1 First basis vector (need not be orthogonal)
 		/// @param b2 Second basis vector (need not be orthogonal)
@@ -661,6 +682,9 @@ namespace MML
 		}
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransfCart3DRotationQuaternion(const CoordTransfCart3DRotationQuaternion& other) : CoordTransfCart3DRotationQuaternion(other._quat) {}
+
 		// Construct from quaternion
 		explicit CoordTransfCart3DRotationQuaternion(const Quaternion& q) 
 			: _quat(q),
diff --git a/mml/core/CoordTransf/CoordTransfLorentz.h b/mml/core/CoordTransf/CoordTransfLorentz.h
index ce2a6f1..3ab6594 100644
--- a/mml/core/CoordTransf/CoordTransfLorentz.h
+++ b/mml/core/CoordTransf/CoordTransfLorentz.h
@@ -43,6 +43,9 @@ namespace MML {
 		const ScalarFunctionFromStdFunc<4> _fInv1, _fInv2, _fInv3, _fInv4;
 
 	public:
+		/// @brief Copy constructor (the component functions are bound to the new object)
+		CoordTransfLorentzXAxis(const CoordTransfLorentzXAxis& other) : CoordTransfLorentzXAxis(other._velocity) {}
+
 		/// @brief Construct Lorentz boost along X-axis
 		/// @param inVelocity Velocity in units of c, must be in [0, 1)
 		/// @throws std::range_error if velocity is outside valid range
-- 
2.43.0


From f7df11ba81b5dabe35e946ca2c988224a0d820eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:44 +0000
Subject: [PATCH 46/56] fix: in-place scalar operations, erase by value and
 addEdge are correct when the argument is an element of the object

---
 mml/base/Graph.h           | 2 +-
 mml/base/Matrix/Matrix.h   | 4 ++--
 mml/base/Matrix/Matrix3D.h | 6 +++---
 mml/base/Matrix/MatrixNM.h | 2 +-
 mml/base/Vector/Vector.h   | 2 +-
 mml/base/Vector/VectorN.h  | 4 ++--
 6 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index ea96e00..3fb1200 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -205,7 +205,7 @@ namespace MML
 
 		/// Add an edge from vertex 'from' to vertex 'to' with given weight
 		/// For undirected graphs, adds edge in both directions
-		void addEdge(size_t from, size_t to, const E& weight = E{1})
+		void addEdge(size_t from, size_t to, E weight = E{1})
 		{
 			if (from >= _vertexData.size() || to >= _vertexData.size())
 				throw std::out_of_range("Graph::addEdge - vertex index out of range");
diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 92a99fa..3dff018 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1008,7 +1008,7 @@ namespace MML
 		}
 		
 		/// @brief In-place scalar multiplication
-		Matrix& operator*=(const Type& scalar)
+		Matrix& operator*=(Type scalar)
 		{
 			for (auto& elem : _data)
 				elem *= scalar;
@@ -1025,7 +1025,7 @@ namespace MML
 		}
 		
 		/// @brief In-place scalar division
-		Matrix& operator/=(const Type& scalar)
+		Matrix& operator/=(Type scalar)
 		{
 			for (auto& elem : _data)
 				elem /= scalar;
diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index db2389f..9c09178 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -356,19 +356,19 @@ namespace MML {
 		/// @{ */
 
 		/// @brief In-place scalar multiplication.
-		Matrix3D& operator*=(const Type& scalar) {
+		Matrix3D& operator*=(Type scalar) {
 			for (auto& elem : _data) elem *= scalar;
 			return *this;
 		}
 
 		/// @brief In-place scalar division.
-		Matrix3D& operator/=(const Type& scalar) {
+		Matrix3D& operator/=(Type scalar) {
 			for (auto& elem : _data) elem /= scalar;
 			return *this;
 		}
 
 		/// @brief In-place scalar addition.
-		Matrix3D& operator+=(const Type& scalar) {
+		Matrix3D& operator+=(Type scalar) {
 			for (auto& elem : _data) elem += scalar;
 			return *this;
 		}
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index a30abd0..8401904 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -478,7 +478,7 @@ namespace MML {
 		}
 
 		/// @brief In-place scalar multiplication (A *= b).
-		MatrixNM& operator*=(const Type& b) {
+		MatrixNM& operator*=(Type b) {
 			int i, j;
 
 			for (i = 0; i < rows(); i++)
diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 0a8ede5..e277c5c 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -152,7 +152,7 @@ namespace MML
 		
 		void erase(int pos)							{ _elems.erase(_elems.begin() + pos); }
 		void erase(int start, int end)	{ _elems.erase(_elems.begin() + start, _elems.begin() + end); }
-		void erase(const Type& val)			{ _elems.erase(std::remove(_elems.begin(), _elems.end(), val), _elems.end()); }
+		void erase(const Type& val)			{ const Type value = val; _elems.erase(std::remove(_elems.begin(), _elems.end(), value), _elems.end()); }
 
 		/// @brief Remove all elements
 		void Clear()	{ _elems.clear(); }
diff --git a/mml/base/Vector/VectorN.h b/mml/base/Vector/VectorN.h
index 0e01755..175175a 100644
--- a/mml/base/Vector/VectorN.h
+++ b/mml/base/Vector/VectorN.h
@@ -249,7 +249,7 @@ namespace MML
 		}
 		/// @brief In-place scalar multiplication.
 		/// @param b Scalar multiplier
-		VectorN& operator*=(const Type& b)
+		VectorN& operator*=(Type b)
 		{
 			for (int i = 0; i < N; i++)
 				_val[i] *= b;
@@ -266,7 +266,7 @@ namespace MML
 		}		
 		/// @brief In-place scalar division.
 		/// @param b Scalar divisor
-		VectorN& operator/=(const Type& b)
+		VectorN& operator/=(Type b)
 		{
 			for (int i = 0; i < N; i++)
 				_val[i] /= b;
-- 
2.43.0


From b599e3c2227279f9e2a3af5af3017d9dbbf32540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:01 +0000
Subject: [PATCH 47/56] fix: DAE solvers report a failure when the step limit
 ends the integration early; Radau IIA integrates to the requested end

---
 mml/algorithms/DAESolvers/DAEBDF2.h          |  7 +++++++
 mml/algorithms/DAESolvers/DAEBDF4.h          |  7 +++++++
 mml/algorithms/DAESolvers/DAEBackwardEuler.h |  7 +++++++
 mml/algorithms/DAESolvers/DAERODAS.h         |  7 +++++++
 mml/algorithms/DAESolvers/DAERadauIIA.h      | 11 +++++++++--
 5 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/DAESolvers/DAEBDF2.h b/mml/algorithms/DAESolvers/DAEBDF2.h
index e9d461d..1b7f184 100644
--- a/mml/algorithms/DAESolvers/DAEBDF2.h
+++ b/mml/algorithms/DAESolvers/DAEBDF2.h
@@ -234,6 +234,13 @@ namespace MML {
 			++step;
 		}
 
+		// Step limit reached before the end of the interval: do not report success
+		if (result.status == AlgorithmStatus::Success && t < t_end - config.step_size * 1e-10)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps (" + std::to_string(config.max_steps) + ") reached at t=" + std::to_string(t);
+		}
+
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
diff --git a/mml/algorithms/DAESolvers/DAEBDF4.h b/mml/algorithms/DAESolvers/DAEBDF4.h
index 8673ff2..68cb5ba 100644
--- a/mml/algorithms/DAESolvers/DAEBDF4.h
+++ b/mml/algorithms/DAESolvers/DAEBDF4.h
@@ -300,6 +300,13 @@ namespace MML {
 			++step;
 		}
 
+		// Step limit reached before the end of the interval: do not report success
+		if (result.status == AlgorithmStatus::Success && t_current < t_end - config.step_size * 1e-10)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps (" + std::to_string(config.max_steps) + ") reached at t=" + std::to_string(t_current);
+		}
+
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
diff --git a/mml/algorithms/DAESolvers/DAEBackwardEuler.h b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
index 274598a..be39455 100644
--- a/mml/algorithms/DAESolvers/DAEBackwardEuler.h
+++ b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
@@ -183,6 +183,13 @@ namespace MML {
 			++step;
 		}
 
+		// Step limit reached before the end of the interval: do not report success
+		if (result.status == AlgorithmStatus::Success && t < t_end - config.step_size * 1e-10)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps (" + std::to_string(config.max_steps) + ") reached at t=" + std::to_string(t);
+		}
+
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
diff --git a/mml/algorithms/DAESolvers/DAERODAS.h b/mml/algorithms/DAESolvers/DAERODAS.h
index 3cc2dc2..b85991d 100644
--- a/mml/algorithms/DAESolvers/DAERODAS.h
+++ b/mml/algorithms/DAESolvers/DAERODAS.h
@@ -195,6 +195,13 @@ namespace MML {
 			++step;
 		}
 
+		// Step limit reached before the end of the interval: do not report success
+		if (result.status == AlgorithmStatus::Success && t < t_end - config.step_size * 1e-10)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps (" + std::to_string(config.max_steps) + ") reached at t=" + std::to_string(t);
+		}
+
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
diff --git a/mml/algorithms/DAESolvers/DAERadauIIA.h b/mml/algorithms/DAESolvers/DAERadauIIA.h
index 79de999..f8c3adc 100644
--- a/mml/algorithms/DAESolvers/DAERadauIIA.h
+++ b/mml/algorithms/DAESolvers/DAERadauIIA.h
@@ -117,11 +117,11 @@ namespace MML {
 		Matrix<Real> dgDx(algDim, diffDim), dgDy(algDim, algDim);
 
 		int step = 1;
-		while (t + h/2 <= t_end && step < config.max_steps) {
+		while (t < t_end && step < config.max_steps) {
 
 			// Clamp step size to reach t_end exactly
 			Real h_actual = std::min(h, t_end - t);
-			if (h_actual < 1e-15) break;
+			if (h_actual < h * 1e-10) break;
 
 			// Initialize stage values to current solution (predictor)
 			X1 = x; X2 = x; X3 = x;
@@ -291,6 +291,13 @@ namespace MML {
 			++step;
 		}
 
+		// Step limit reached before the end of the interval: do not report success
+		if (result.status == AlgorithmStatus::Success && t < t_end - config.step_size * 1e-10)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps (" + std::to_string(config.max_steps) + ") reached at t=" + std::to_string(t);
+		}
+
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
-- 
2.43.0


From b09226b5dfe58f5ffa4fe7ddfbf8c084a706fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:01 +0000
Subject: [PATCH 48/56] fix: backward Euler and BDF2 integrate to the requested
 end when the interval is not a multiple of the step

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 31 +++++++++++++++-------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index 5201d60..9e7cc30 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -143,8 +143,11 @@ namespace MML {
 	/// @return ODESystemSolution containing solution trajectory
 	inline ODESystemSolution SolveBackwardEuler(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 												int max_newton_iter = 10, Real newton_tol = 1e-8) {
+		if (!(h > 0))
+			throw std::invalid_argument("Backward Euler: Step size must be positive");
+
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = static_cast<int>((t_end - t0) / h) + 1;	// Initial storage (grows as needed)
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
@@ -157,7 +160,7 @@ namespace MML {
 		sol.fillValues(0, t, y);
 		int step = 1;
 
-		while (t < t_end && step < num_steps) {
+		while (t_end - t > h * 1e-10) {	// Remainders below this are round-off of the step sum
 			Real h_actual = std::min(h, t_end - t);
 			Real t_next = t + h_actual;
 
@@ -255,8 +258,11 @@ namespace MML {
 	/// @return ODESystemSolution containing solution trajectory
 	inline ODESystemSolution SolveBDF2(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 									   int max_newton_iter = 10, Real newton_tol = 1e-8) {
+		if (!(h > 0))
+			throw std::invalid_argument("BDF2: Step size must be positive");
+
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = static_cast<int>((t_end - t0) / h) + 1;	// Initial storage (grows as needed)
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
@@ -271,7 +277,7 @@ namespace MML {
 		int step = 1;
 
 		// First step: Use Backward Euler (BDF1) to bootstrap
-		if (step < num_steps) {
+		if (t_end - t > h * 1e-10) {
 			Real h_actual = std::min(h, t_end - t);
 			Real t_next = t + h_actual;
 
@@ -310,23 +316,28 @@ namespace MML {
 		}
 
 		// Subsequent steps: Use BDF2
-		while (t < t_end && step < num_steps) {
+		while (t_end - t > h * 1e-10) {	// Remainders below this are round-off of the step sum
 			Real h_actual = std::min(h, t_end - t);
 			Real t_next = t + h_actual;
 
 			// BDF2: y_{n+1} = (4/3)*y_n - (1/3)*y_{n-1} + (2/3)*h*f(t_{n+1}, y_{n+1})
 			// Rearrange: y_{n+1} - (2/3)*h*f(t_{n+1}, y_{n+1}) = (4/3)*y_n - (1/3)*y_{n-1}
+			// The formula assumes equal steps: a shorter final step is taken with Backward Euler
+			const bool full_step = h_actual > h * (1.0 - 1e-10);
+			const Real c0 = full_step ? 4.0 / 3.0 : 1.0;
+			const Real c1 = full_step ? 1.0 / 3.0 : 0.0;
+			const Real cf = full_step ? 2.0 / 3.0 : 1.0;
 
 			Vector<Real> y_new = y * 2.0 - y_prev; // Extrapolation as initial guess
-			Vector<Real> rhs = y * (4.0 / 3.0) - y_prev * (1.0 / 3.0);
+			Vector<Real> rhs = y * c0 - y_prev * c1;
 
 			bool converged = false;
 			for (int iter = 0; iter < max_newton_iter; ++iter) {
 				system.derivs(t_next, y_new, dydt);
 				system.jacobian(t_next, y_new, dydt, J);
 
-				// Residual: r = y_new - (2/3)*h*f - rhs
-				Vector<Real> residual = y_new - dydt * (2.0 / 3.0 * h_actual) - rhs;
+				// Residual: r = y_new - cf*h*f - rhs
+				Vector<Real> residual = y_new - dydt * (cf * h_actual) - rhs;
 				Real res_norm = residual.NormL2();
 
 				if (res_norm < newton_tol) {
@@ -334,8 +345,8 @@ namespace MML {
 					break;
 				}
 
-				// Newton step: solve (I - (2/3)*h*J)*delta = -residual
-				Matrix<Real> A = Matrix<Real>::Identity(dim) - J * (2.0 / 3.0 * h_actual);
+				// Newton step: solve (I - cf*h*J)*delta = -residual
+				Matrix<Real> A = Matrix<Real>::Identity(dim) - J * (cf * h_actual);
 				Vector<Real> rhs = residual * (-1.0);
 				GaussJordanSolver<Real>::SolveInPlace(A, rhs);
 				Vector<Real> delta = rhs;
-- 
2.43.0


From 15f302ed2cb345f192a6c5e543bf7e01d8c3fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:01 +0000
Subject: [PATCH 49/56] fix: eigenvalue consumers no longer use the values of
 an eigenvalue iteration that did not converge

---
 mml/algorithms/GraphSpectral.h         | 2 ++
 mml/algorithms/MatrixAlg.h             | 2 ++
 mml/systems/DynamicalSystemAnalyzers.h | 7 +++++++
 mml/systems/LinearSystem.h             | 8 ++++++++
 4 files changed, 19 insertions(+)

diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index 9248098..eb63153 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -44,6 +44,8 @@ namespace MML
 
 		Matrix<Real> L = graph.toLaplacianMatrix();
 		auto result = SymmMatEigenSolverJacobi::Solve(L, tol, maxIter);
+		if (!result.converged)
+			throw ConvergenceError("LaplacianEigenvalues: eigenvalue iteration did not converge", maxIter);
 
 		// Convert Vector<Real> to std::vector<Real>
 		std::vector<Real> eigenvalues;
diff --git a/mml/algorithms/MatrixAlg.h b/mml/algorithms/MatrixAlg.h
index a247f17..403fa51 100644
--- a/mml/algorithms/MatrixAlg.h
+++ b/mml/algorithms/MatrixAlg.h
@@ -120,6 +120,8 @@ namespace MML {
 		inline Definiteness ClassifyDefiniteness(const MatrixSym<Real>& A, Real tol = 1e-10) {
 			// Compute eigenvalues using Jacobi method
 			auto result = SymmMatEigenSolverJacobi::Solve(A, tol);
+			if (!result.converged)
+				throw ConvergenceError("ClassifyDefiniteness: eigenvalue iteration did not converge");
 
 			int n = A.rows();
 			int numPositive = 0;
diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 0554c7f..2a42881 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -126,6 +126,13 @@ namespace MML::Systems
 
 			// Compute eigenvalues
 			auto eigenResult = EigenSolver::Solve(fp.jacobian);
+			if (!eigenResult.converged) {
+				// Eigenvalues not determined: nothing can be said about type or stability
+				fp.eigenvalues.clear();
+				fp.type = FixedPointType::Unknown;
+				fp.isStable = false;
+				return;
+			}
 
 			fp.eigenvalues.clear();
 			for (const auto& ev : eigenResult.eigenvalues)
diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 412feca..ce56258 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -729,6 +729,8 @@ namespace MML::Systems
 		Vector<Type> Eigenvalues(Type tol = Precision::DefaultToleranceStrict) const {
 			RequireSquare();
 			auto result = EigenSolver::Solve(_A, tol);
+			if (!result.converged)
+				throw ConvergenceError("LinearSystem::Eigenvalues - eigenvalue iteration did not converge");
 			int n = rows();
 			Vector<Type> eigs(n);
 			for (int i = 0; i < n; ++i)
@@ -746,6 +748,8 @@ namespace MML::Systems
 				throw MatrixDimensionError("LinearSystem::EigenvaluesSymmetric - matrix is not symmetric", rows(), cols(), rows(), cols());
 
 			auto result = SymmMatEigenSolverJacobi::Solve(_A);
+			if (!result.converged)
+				throw ConvergenceError("LinearSystem::EigenvaluesSymmetric - eigenvalue iteration did not converge");
 			return result.eigenvalues;
 		}
 
@@ -755,6 +759,8 @@ namespace MML::Systems
 		Type SpectralRadius(Type tol = Precision::DefaultToleranceStrict) const {
 			RequireSquare();
 			auto result = EigenSolver::Solve(_A, tol);
+			if (!result.converged)
+				throw ConvergenceError("LinearSystem::SpectralRadius - eigenvalue iteration did not converge");
 			Type maxMag = 0;
 			for (const auto& ev : result.eigenvalues)
 				maxMag = std::max(maxMag, ev.magnitude());
@@ -767,6 +773,8 @@ namespace MML::Systems
 		bool HasComplexEigenvalues(Type tol = Precision::DefaultToleranceStrict) const {
 			RequireSquare();
 			auto result = EigenSolver::Solve(_A, tol);
+			if (!result.converged)
+				throw ConvergenceError("LinearSystem::HasComplexEigenvalues - eigenvalue iteration did not converge");
 			for (const auto& ev : result.eigenvalues) {
 				if (ev.isComplex(tol))
 					return true;
-- 
2.43.0


From 0db01e4088a4d2eebf811c08dd43d8737a39fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:01 +0000
Subject: [PATCH 50/56] fix: 3D hull construction limit cannot overflow and an
 incomplete hull is not returned

---
 mml/algorithms/CompGeometry/ConvexHull3D.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mml/algorithms/CompGeometry/ConvexHull3D.h b/mml/algorithms/CompGeometry/ConvexHull3D.h
index 3d67ea7..8ae44bb 100644
--- a/mml/algorithms/CompGeometry/ConvexHull3D.h
+++ b/mml/algorithms/CompGeometry/ConvexHull3D.h
@@ -329,9 +329,9 @@ public:
 		}
 		
 		// Process faces with outside points
-		int maxIterations = n * n;  // Safety limit
-		int iterations = 0;
-		while (iterations++ < maxIterations) {
+		long long maxIterations = static_cast<long long>(n) * n;  // Safety limit
+		long long iterations = 0;
+		while (true) {
 			// Find a face with outside points
 			int faceIdx = -1;
 			for (size_t i = 0; i < faceDataList.size(); i++) {
@@ -342,6 +342,8 @@ public:
 			}
 			
 			if (faceIdx < 0) break;  // No more faces with outside points
+			if (++iterations > maxIterations)
+				throw GeometryError("ConvexHull3D: construction did not terminate, the hull is incomplete");
 			
 			FaceData& currentFace = faceDataList[faceIdx];
 			
-- 
2.43.0


From 0349204177189d1df822770a50d41b306bd70a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:01 +0000
Subject: [PATCH 51/56] fix: quantiles and incomplete beta/gamma functions no
 longer return an unconverged value

---
 mml/algorithms/FourierWindowing.h         |   2 +-
 mml/algorithms/Statistics/Distributions.h | 111 ++++++++++++++++------
 2 files changed, 84 insertions(+), 29 deletions(-)

diff --git a/mml/algorithms/FourierWindowing.h b/mml/algorithms/FourierWindowing.h
index 01f6870..118af32 100644
--- a/mml/algorithms/FourierWindowing.h
+++ b/mml/algorithms/FourierWindowing.h
@@ -208,7 +208,7 @@ namespace MML::Fourier
 				Real term = 1.0;
 				Real x_half = x / 2.0;
 
-				for (int k = 1; k <= 50; k++) // Sufficient for typical accuracy
+				for (int k = 1; k <= 50 || (k < x && k < 10000); k++) // Terms decrease once k > x/2
 				{
 					term *= (x_half / k);
 					term *= (x_half / k);
diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 20c8eeb..548900e 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -320,10 +320,20 @@ namespace MML
 					t -= delta;
 					
 					if (std::abs(delta) < Precision::DefaultToleranceStrict)
-						break;
+						return t;
 				}
 				
-				return t;
+				// Newton-Raphson did not settle (far tail, few degrees of freedom): bisect
+				Real low = -1.0, high = 1.0;
+				while (cdf(low) > p && low > -1e300) low *= 2.0;
+				while (cdf(high) < p && high < 1e300) high *= 2.0;
+				while (true) {
+					Real mid = low + (high - low) / 2.0;
+					if (!(mid > low && mid < high)) break;
+					if (cdf(mid) < p) low = mid;
+					else high = mid;
+				}
+				return high;
 			}
 
 			/// @brief Survival function: P(T > t)
@@ -407,7 +417,7 @@ namespace MML
 				// Formula from Numerical Recipes (Press et al.)
 				const Real fpmin = 1.0e-30;
 				const Real eps = 1.0e-15;
-				const int maxIter = 200;
+				const int maxIter = 100000;	// about sqrt(max(a, b)) terms are needed
 				
 				Real qab = a + b;
 				Real qap = a + 1.0;
@@ -417,6 +427,7 @@ namespace MML
 				if (std::abs(d) < fpmin) d = fpmin;
 				d = 1.0 / d;
 				Real h = d;
+				Real change = 1.0;
 				
 				for (int m = 1; m <= maxIter; m++) {
 					int m2 = 2 * m;
@@ -437,9 +448,12 @@ namespace MML
 					Real del = d * c;
 					h *= del;
 					
-					if (std::abs(del - 1.0) < eps)
+					change = std::abs(del - 1.0);
+					if (!(change >= eps))
 						break;
 				}
+				if (change > 1e-10)
+					throw ConvergenceError("TDistribution: incomplete beta function did not converge", maxIter, change);
 
 				return front * h;
 			}
@@ -515,10 +529,13 @@ namespace MML
 				Real low = 0.0;
 				Real high = mean() + 10.0 * stddev();  // Start with reasonable upper bound
 				Real tolerance = 1e-9;
-				int maxIterations = 100;
+				while (cdf(high) < 1.0 - alpha && high < 1e300)  // Enclose the critical value
+					high *= 2.0;
 
-				for (int iter = 0; iter < maxIterations; iter++) {
+				while (true) {
 					Real mid = (low + high) / 2.0;
+					if (!(mid > low && mid < high))  // Interval exhausted to machine precision
+						return mid;
 					Real cdf_mid = cdf(mid);
 					Real target = 1.0 - alpha;
 
@@ -530,8 +547,6 @@ namespace MML
 					else
 						high = mid;
 				}
-
-				return (low + high) / 2.0;
 			}
 
 		private:
@@ -562,13 +577,15 @@ namespace MML
 				Real term = 1.0 / a;
 				Real tolerance = 1e-12;
 
-				for (int n = 1; n <= 1000; n++) {
+				for (int n = 1; n <= 100000; n++) {	// about sqrt(a) terms are needed
 					term *= x / (a + n);
 					sum += term;
 
-					if (std::abs(term) < std::abs(sum) * tolerance)
+					if (!(std::abs(term) >= std::abs(sum) * tolerance))
 						break;
 				}
+				if (std::abs(term) > std::abs(sum) * 1e-10)
+					throw ConvergenceError("ChiSquareDistribution: incomplete gamma series did not converge", 100000);
 
 				return sum * std::exp(-x + a * std::log(x) - std::lgamma(a));
 			}
@@ -583,8 +600,9 @@ namespace MML
 				Real c = 1.0 / fpmin;
 				Real d = 1.0 / b;
 				Real h = d;
+				Real change = 1.0;
 
-				for (int i = 1; i <= 1000; i++) {
+				for (int i = 1; i <= 100000; i++) {	// about sqrt(a) terms are needed
 					Real an = -i * (i - a);
 					b += 2.0;
 					d = an * d + b;
@@ -595,9 +613,12 @@ namespace MML
 					Real delta = d * c;
 					h *= delta;
 
-					if (std::abs(delta - 1.0) < tolerance)
+					change = std::abs(delta - 1.0);
+					if (!(change >= tolerance))
 						break;
 				}
+				if (change > 1e-10)
+					throw ConvergenceError("ChiSquareDistribution: incomplete gamma fraction did not converge", 100000, change);
 
 				return h * std::exp(-x + a * std::log(x) - std::lgamma(a));
 			}
@@ -700,10 +721,13 @@ namespace MML
         Real low = 0.0;
         Real high = 100.0;  // Start with reasonable upper bound
         Real tolerance = 1e-9;
-        int maxIterations = 100;
+        while (rightTailPValue(high) > alpha && high < 1e300)  // Enclose the critical value
+          high *= 2.0;
 
-        for (int iter = 0; iter < maxIterations; iter++) {
+        while (true) {
           Real mid = (low + high) / 2.0;
+          if (!(mid > low && mid < high))  // Interval exhausted to machine precision
+            return mid;
           Real pValue = rightTailPValue(mid);
 
           if (std::abs(pValue - alpha) < tolerance)
@@ -714,8 +738,6 @@ namespace MML
           else  // Need smaller F
             high = mid;
         }
-
-        return (low + high) / 2.0;
       }
 
     private:
@@ -756,8 +778,9 @@ namespace MML
         if (std::abs(d) < fpmin) d = fpmin;
         d = 1.0 / d;
         Real h = d;
+        Real change = 1.0;
 
-        for (int m = 1; m <= 1000; m++) {
+        for (int m = 1; m <= 100000; m++) {  // about sqrt(max(a, b)) terms are needed
           int m2 = 2 * m;
           Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
           d = 1.0 + aa * d;
@@ -776,9 +799,12 @@ namespace MML
           Real delta = d * c;
           h *= delta;
 
-          if (std::abs(delta - 1.0) < tolerance)
+          change = std::abs(delta - 1.0);
+          if (!(change >= tolerance))
             break;
         }
+        if (change > 1e-10)
+          throw ConvergenceError("FDistribution: incomplete beta function did not converge", 100000, change);
 
         return h;
       }
@@ -1075,9 +1101,19 @@ namespace MML
 					Real dx = f / fp;
 					x -= dx;
 					if (x <= 0.0) x = 1e-10;
-					if (std::abs(dx) < 1e-12 * x) break;
+					if (std::abs(dx) < 1e-12 * x) return x;
+				}
+
+				// Newton-Raphson did not settle (extreme shape or probability): bisect
+				Real low = 0.0, high = mean();
+				while (cdf(high) < p && high < 1e300) high *= 2.0;
+				while (true) {
+					Real mid = low + (high - low) / 2.0;
+					if (!(mid > low && mid < high)) break;
+					if (cdf(mid) < p) low = mid;
+					else high = mid;
 				}
-				return x;
+				return high;
 			}
 
 			Real mean() const { return shape * scale; }
@@ -1095,12 +1131,14 @@ namespace MML
 					Real ap = a;
 					Real sum = 1.0 / a;
 					Real del = sum;
-					for (int n = 1; n <= 200; n++) {
+					for (int n = 1; n <= 100000; n++) {	// about sqrt(a) terms are needed
 						ap += 1.0;
 						del *= x / ap;
 						sum += del;
-						if (std::abs(del) < std::abs(sum) * 1e-15) break;
+						if (!(std::abs(del) >= std::abs(sum) * 1e-15)) break;
 					}
+					if (std::abs(del) > std::abs(sum) * 1e-10)
+						throw ConvergenceError("GammaDistribution: incomplete gamma series did not converge", 100000);
 					return sum * std::exp(-x + a * std::log(x) - std::lgamma(a));
 				} else {
 					// Continued fraction representation
@@ -1108,7 +1146,8 @@ namespace MML
 					Real c = 1.0 / 1e-30;
 					Real d = 1.0 / b;
 					Real h = d;
-					for (int n = 1; n <= 200; n++) {
+					Real change = 1.0;
+					for (int n = 1; n <= 100000; n++) {	// about sqrt(a) terms are needed
 						Real an = -n * (n - a);
 						b += 2.0;
 						d = an * d + b;
@@ -1118,8 +1157,11 @@ namespace MML
 						d = 1.0 / d;
 						Real del = d * c;
 						h *= del;
-						if (std::abs(del - 1.0) < 1e-15) break;
+						change = std::abs(del - 1.0);
+						if (!(change >= 1e-15)) break;
 					}
+					if (change > 1e-10)
+						throw ConvergenceError("GammaDistribution: incomplete gamma fraction did not converge", 100000, change);
 					return 1.0 - h * std::exp(-x + a * std::log(x) - std::lgamma(a));
 				}
 			}
@@ -1230,9 +1272,18 @@ namespace MML
 					x -= dx;
 					if (x <= 0.0) x = 1e-10;
 					if (x >= 1.0) x = 1.0 - 1e-10;
-					if (std::abs(dx) < 1e-12) break;
+					if (std::abs(dx) < 1e-12) return x;
+				}
+
+				// Newton-Raphson did not settle (extreme shape or probability): bisect
+				Real low = 0.0, high = 1.0;
+				while (true) {
+					Real mid = low + (high - low) / 2.0;
+					if (!(mid > low && mid < high)) break;
+					if (cdf(mid) < p) low = mid;
+					else high = mid;
 				}
-				return x;
+				return high;
 			}
 
 			Real mean() const { return alpha / (alpha + beta); }
@@ -1263,8 +1314,9 @@ namespace MML
 				if (std::abs(d) < 1e-30) d = 1e-30;
 				d = 1.0 / d;
 				Real h = d;
+				Real change = 1.0;
 
-				for (int m = 1; m <= 200; m++) {
+				for (int m = 1; m <= 100000; m++) {	// about sqrt(max(a, b)) terms are needed
 					int m2 = 2 * m;
 					Real aa = m * (b - m) * x / ((qam + m2) * (a + m2));
 					d = 1.0 + aa * d; if (std::abs(d) < 1e-30) d = 1e-30;
@@ -1278,8 +1330,11 @@ namespace MML
 					d = 1.0 / d;
 					Real del = d * c;
 					h *= del;
-					if (std::abs(del - 1.0) < 1e-15) break;
+					change = std::abs(del - 1.0);
+					if (!(change >= 1e-15)) break;
 				}
+				if (change > 1e-10)
+					throw ConvergenceError("BetaDistribution: incomplete beta function did not converge", 100000, change);
 				return bt * h / a;
 			}
 		};
-- 
2.43.0


From 043446a9a0bb9053235a7c1a33c291f3a0fa168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:30 +0000
Subject: [PATCH 52/56] fix: power-iteration centralities throw instead of
 returning an unconverged vector

---
 mml/algorithms/GraphSpectral.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index eb63153..98ac2b6 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -385,10 +385,10 @@ namespace MML
 			centrality = next;
 
 			if (diff < tolerance)
-				break;
+				return centrality;
 		}
 
-		return centrality;
+		throw ConvergenceError("EigenvectorCentrality: power iteration did not converge", static_cast<int>(maxIterations));
 	}
 
 	/// Compute PageRank centrality
@@ -459,10 +459,10 @@ namespace MML
 			rank = next;
 
 			if (diff < tolerance)
-				break;
+				return rank;
 		}
 
-		return rank;
+		throw ConvergenceError("PageRank: power iteration did not converge", static_cast<int>(maxIterations));
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c748bbd2bec1c2dd66db0d6fb6a558d7516d19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:50 +0000
Subject: [PATCH 53/56] fix: headers include what they use, so each compiles on
 its own

---
 mml/base/Intervals.h                         | 1 +
 mml/core/Derivation/ForwardAD.h              | 1 +
 mml/core/Integration/GaussianQuadrature.h    | 1 +
 mml/core/Integration/Integration2D.h         | 1 +
 mml/core/Integration/Integration3D.h         | 1 +
 mml/core/Integration/MonteCarloIntegration.h | 1 +
 mml/core/Integration/SurfaceIntegration.h    | 1 +
 mml/tools/serializer/VectorIO.h              | 1 +
 8 files changed, 8 insertions(+)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index 720d1fc..245e1cb 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -81,6 +81,7 @@
 #include <algorithm>
 #include <initializer_list>
 #include <limits>
+#include <memory>
 #include <vector>
 
 namespace MML {
diff --git a/mml/core/Derivation/ForwardAD.h b/mml/core/Derivation/ForwardAD.h
index 5772a61..3ed78af 100644
--- a/mml/core/Derivation/ForwardAD.h
+++ b/mml/core/Derivation/ForwardAD.h
@@ -17,6 +17,7 @@
 #include <cmath>
 #include <iostream>
 #include <limits>
+#include <vector>
 
 namespace MML::Symbolic
 {
diff --git a/mml/core/Integration/GaussianQuadrature.h b/mml/core/Integration/GaussianQuadrature.h
index 3a8464e..1219c96 100644
--- a/mml/core/Integration/GaussianQuadrature.h
+++ b/mml/core/Integration/GaussianQuadrature.h
@@ -18,6 +18,7 @@
 #include <stdexcept>
 
 #include "MMLBase.h"
+#include "interfaces/IFunction.h"
 #include "base/StandardFunctions.h"
 #include "IntegrationBase.h"
 
diff --git a/mml/core/Integration/Integration2D.h b/mml/core/Integration/Integration2D.h
index b13ffcd..d9ed32c 100644
--- a/mml/core/Integration/Integration2D.h
+++ b/mml/core/Integration/Integration2D.h
@@ -20,6 +20,7 @@
 #include "MMLBase.h"
 
 #include "interfaces/IFunction.h"
+#include "core/Integration/Integration1D.h"
 
 
 namespace MML
diff --git a/mml/core/Integration/Integration3D.h b/mml/core/Integration/Integration3D.h
index 79f231a..7ea76f0 100644
--- a/mml/core/Integration/Integration3D.h
+++ b/mml/core/Integration/Integration3D.h
@@ -18,6 +18,7 @@
 #include "MMLBase.h"
 
 #include "interfaces/IFunction.h"
+#include "core/Integration/Integration1D.h"
 
 
 namespace MML
diff --git a/mml/core/Integration/MonteCarloIntegration.h b/mml/core/Integration/MonteCarloIntegration.h
index 0924ca8..b348ae3 100644
--- a/mml/core/Integration/MonteCarloIntegration.h
+++ b/mml/core/Integration/MonteCarloIntegration.h
@@ -19,6 +19,7 @@
 #include "base/Vector/VectorN.h"
 
 #include <random>
+#include <functional>
 #include <numeric>
 #include <cmath>
 
diff --git a/mml/core/Integration/SurfaceIntegration.h b/mml/core/Integration/SurfaceIntegration.h
index 787c6a1..d950964 100644
--- a/mml/core/Integration/SurfaceIntegration.h
+++ b/mml/core/Integration/SurfaceIntegration.h
@@ -39,6 +39,7 @@
 #include "base/Vector/Vector.h"
 #include "base/Vector/VectorN.h"
 #include "mml/base/Geometry/Geometry3D.h"
+#include "mml/base/Geometry/Geometry3DBodies.h"
 
 #include "core/Derivation.h"
 #include "core/Integration.h"
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index efa2722..cbf94ca 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -26,6 +26,7 @@
 #define MML_VECTOR_IO_H
 
 #include "mml/MMLBase.h"
+#include "mml/base/Vector/Vector.h"
 
 #include <vector>
 #include <complex>
-- 
2.43.0


From 5ce8000b19db2ea6665047c6c327960ddb1d41b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:50 +0000
Subject: [PATCH 54/56] fix: members of complex, integer and float vectors,
 matrices, polynomials and QR solvers compile

---
 mml/base/Matrix/Matrix.h            | 4 ++--
 mml/base/Matrix/MatrixNM.h          | 3 ++-
 mml/base/Polynom.h                  | 4 ++--
 mml/base/Vector/Vector.h            | 2 +-
 mml/base/Vector/VectorN.h           | 4 ++--
 mml/core/LinAlgEqSolvers/LinAlgQR.h | 2 +-
 6 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 3dff018..030c953 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -711,7 +711,7 @@ namespace MML
 			
 			for (int i = 0; i < _rows; ++i) {
 				for (int j = i + 1; j < _cols; ++j) {
-					if (IsMatrixTypeComplex()) {
+					if constexpr (!std::is_arithmetic_v<Type>) {
 						if (Abs((*this)(i, j) + std::conj((*this)(j, i))) > eps)
 							return false;
 					} else {
@@ -1250,7 +1250,7 @@ namespace MML
 			if constexpr (is_MML_simple_numeric<Type>) {
 				for (int i = 0; i < _rows; ++i) {
 					for (int j = 0; j < _cols; ++j) {
-						if (std::abs(static_cast<Real>(temp(i, j))) < threshold) {
+						if (Abs(temp(i, j)) < threshold) {
 							temp(i, j) = Type{0};
 						}
 					}
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index 8401904..8be88d8 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -619,7 +619,8 @@ namespace MML {
 			b(0, 0) = 1.0;
 
 			int i, icol = -1, irow = -1, j, k, l, ll;
-			Type big, dum, pivinv;
+			Real big;
+			Type dum, pivinv;
 
 			int n = rows();
 			int m = b.cols();
diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index 2ecb3bf..0b1fc93 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -155,7 +155,7 @@ namespace MML
 		void Reduce() { while (!_vecCoef.empty() && _vecCoef.back() == CoefT(0)) _vecCoef.pop_back(); }
 		/// @brief Removes trailing coefficients smaller than eps in absolute value.
 		/// @param eps Tolerance threshold for near-zero coefficients
-		void Reduce(CoefT eps) { while (!_vecCoef.empty() && std::abs(_vecCoef.back()) < eps) _vecCoef.pop_back(); }
+		void Reduce(Real eps) { while (!_vecCoef.empty() && std::abs(_vecCoef.back()) < eps) _vecCoef.pop_back(); }
 		
 		/// @brief Returns leading coefficient.
 		CoefT leadingTerm() const noexcept { return _vecCoef.empty() ? CoefT(0) : _vecCoef.back(); }
@@ -427,7 +427,7 @@ namespace MML
 		/// @brief Evaluates polynomial and its first n derivatives at point x.
 		/// @param x Evaluation point
 		/// @param pd Output vector: pd[0]=P(x), pd[1]=P'(x), ..., pd[n]=P^(n)(x)
-		void Derive(const Real x, Vector<Real>& pd)
+		void Derive(const Real x, Vector<decltype(CoefT() * Real())>& pd)
 		{
 			int  nnd, j, i;
 			int  nc = degree();
diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index e277c5c..977f2e4 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -113,7 +113,7 @@ namespace MML
 				throw VectorDimensionError("Vector::UnitVector - wrong unit index", dimVec, indUnit);
 
 			Vector ret(dimVec);
-			ret[indUnit] = Type{ 1.0 };
+			ret[indUnit] = Type(1);
 			return ret;
 		}
 
diff --git a/mml/base/Vector/VectorN.h b/mml/base/Vector/VectorN.h
index 175175a..ffc65e6 100644
--- a/mml/base/Vector/VectorN.h
+++ b/mml/base/Vector/VectorN.h
@@ -160,14 +160,14 @@ namespace MML
 		/// @param a First vector
 		/// @param b Second vector
 		/// @param eps Tolerance
-		static bool AreEqual(const VectorN& a, const VectorN& b, Type eps = Defaults::VectorIsEqualTolerance)
+		static bool AreEqual(const VectorN& a, const VectorN& b, Real eps = Defaults::VectorIsEqualTolerance)
 		{
 			return a.IsEqualTo(b, eps);
 		}
 		/// @brief Checks equality within tolerance.
 		/// @param b Vector to compare
 		/// @param eps Tolerance
-		bool IsEqualTo(const VectorN& b, Type eps = Defaults::VectorIsEqualTolerance) const
+		bool IsEqualTo(const VectorN& b, Real eps = Defaults::VectorIsEqualTolerance) const
 		{
 			for (int i = 0; i < N; i++)
 			{
diff --git a/mml/core/LinAlgEqSolvers/LinAlgQR.h b/mml/core/LinAlgEqSolvers/LinAlgQR.h
index d7d5463..bad0b0f 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgQR.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgQR.h
@@ -67,7 +67,7 @@ namespace MML
 				// Compute the norm of the k-th column below the diagonal
 				scale = 0.0;
 				for (i = k; i < _m; i++)
-					scale = std::max(scale, Abs(_QR[i][k]));
+					scale = std::max(scale, static_cast<Type>(Abs(_QR[i][k])));
 
 				if (scale < std::numeric_limits<Real>::epsilon())
 				{
-- 
2.43.0


From 9086ee0cf579c095891623c7abdaea4e7356d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:50 +0000
Subject: [PATCH 55/56] fix: transformation of tensors of rank 3 to 5 compiles

---
 mml/core/CoordTransf.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mml/core/CoordTransf.h b/mml/core/CoordTransf.h
index 69439ed..412a43d 100644
--- a/mml/core/CoordTransf.h
+++ b/mml/core/CoordTransf.h
@@ -268,7 +268,7 @@ Real coef1, coef2;
 				for (int j = 0; j < N; j++)
 					for (int k = 0; k < N; k++)
 					{
-						ret.Component(i, j, k) = 0;
+						ret(i, j, k) = 0;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 								for (int n = 0; n < N; n++)
@@ -289,7 +289,7 @@ Real coef1, coef2;
 									else
 										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, pos);
 
-									ret.Component(i, j, k) += coef1 * coef2 * coef3 * tensor.Component(l, m, n);
+									ret(i, j, k) += coef1 * coef2 * coef3 * tensor(l, m, n);
 								}
 					}
 
@@ -308,7 +308,7 @@ Real coef1, coef2;
 					for (int k = 0; k < N; k++)
 						for (int l = 0; l < N; l++)
 						{
-							ret[i][j][k][l] = 0;
+							ret(i, j, k, l) = 0;
 							for (int m = 0; m < N; m++)
 								for (int n = 0; n < N; n++)
 									for (int o = 0; o < N; o++)
@@ -335,7 +335,7 @@ Real coef1, coef2;
 											else
 												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, pos);
 
-											ret[i][j][k][l] += coef1 * coef2 * coef3 * coef4 * tensor[m][n][o][p];
+											ret(i, j, k, l) += coef1 * coef2 * coef3 * coef4 * tensor(m, n, o, p);
 										}
 						}
 
@@ -355,7 +355,7 @@ Real coef1, coef2;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 							{
-								ret[i][j][k][l][m] = 0;
+								ret(i, j, k, l, m) = 0;
 								for (int n = 0; n < N; n++)
 									for (int o = 0; o < N; o++)
 										for (int p = 0; p < N; p++)
@@ -387,7 +387,7 @@ Real coef1, coef2;
 												coef5 = Derivation::NDer4Partial(this->coordTransfFunc(m), r, pos);
 											else
 												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, pos);
-													ret[i][j][k][l][m] += coef1 * coef2 * coef3 * coef4 * coef5 * tensor[n][o][p][q][r];
+													ret(i, j, k, l, m) += coef1 * coef2 * coef3 * coef4 * coef5 * tensor(n, o, p, q, r);
 												}
 							}
 
-- 
2.43.0


From 771e73c1d2a2df47af287ea4f0cac4c4a8c16fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:50 +0000
Subject: [PATCH 56/56] fix: Jacobian of a function between spaces of different
 dimension compiles

---
 mml/core/Derivation/Jacobians.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mml/core/Derivation/Jacobians.h b/mml/core/Derivation/Jacobians.h
index bf6c4a0..94275d2 100644
--- a/mml/core/Derivation/Jacobians.h
+++ b/mml/core/Derivation/Jacobians.h
@@ -22,6 +22,7 @@
 #include "base/Vector/VectorN.h"
 #include "base/Matrix/MatrixNM.h"
 
+#include "core/Derivation/DerivationScalarFunction.h"
 #include "core/Derivation/DerivationVectorFunction.h"
 
 #include <functional>
@@ -66,13 +67,26 @@ namespace MML
 		template<int N, int M>
 		static MatrixNM<Real, M, N> calcJacobian(const IVectorFunctionNM<N, M>& func, const VectorN<Real, N>& pos)
 		{
+			// scalar view of a single output component
+			struct Component : public IScalarFunction<N>
+			{
+				const IVectorFunctionNM<N, M>& f;
+				int index;
+
+				Component(const IVectorFunctionNM<N, M>& inFunc, int inIndex) : f(inFunc), index(inIndex) {}
+				Real operator()(const VectorN<Real, N>& x) const override { return f(x)[index]; }
+			};
+
 			MatrixNM<Real, M, N> jac;
 
 			for (int i = 0; i < M; ++i)
+			{
+				Component fi(func, i);
 				for (int j = 0; j < N; ++j)
 				{
-					jac(i, j) = Derivation::NDer4Partial(func, i, j, pos);
+					jac(i, j) = NDer4Partial(fi, j, pos);
 				}
+			}
 
 			return jac;
 		}
-- 
2.43.0

