// C10: every member of every template instance the library names or documents is instantiated.
namespace MML {
template class Matrix<int>;
template class Matrix<float>;
template class Matrix<Real>;
template class Matrix<Complex>;
template class MatrixNM<float, 2, 2>;
template class MatrixNM<float, 3, 3>;
template class MatrixNM<float, 4, 4>;
template class MatrixNM<Real, 2, 2>;
template class MatrixNM<Real, 3, 3>;
template class MatrixNM<Real, 4, 4>;
template class MatrixNM<Complex, 2, 2>;
template class MatrixNM<Complex, 3, 3>;
template class MatrixNM<Complex, 4, 4>;
template class Polynom<Real>;
template class Polynom<Complex>;
template class Polynom<Real, Complex>;
template class Polynom<Real, MatrixNM<Real, 2, 2>>;
template class Polynom<Real, MatrixNM<Real, 3, 3>>;
template class Polynom<Real, MatrixNM<Real, 4, 4>>;
template class Vector<int>;
template class Vector<float>;
template class Vector<Real>;
template class Vector<Complex>;
template class VectorN<Real, 2>;
template class VectorN<Real, 3>;
template class VectorN<Real, 4>;
template class VectorN<float, 2>;
template class VectorN<float, 3>;
template class VectorN<float, 4>;
template class VectorN<Complex, 2>;
template class VectorN<Complex, 3>;
template class VectorN<Complex, 4>;
template class Vector<long double>;
template class Matrix<long double>;
template class MatrixViewNew<Real>;
template class MatrixViewNew<Complex>;
template class MatrixNM<Real, 2, 3>;
template class Matrix3D<Real>;
template class Matrix3D<float>;
template class MatrixSym<Real>;
template class MatrixSym<float>;
template class TridiagonalMatrix<Real>;
template class TridiagonalMatrix<float>;
template class Tensor2<2>;
template class Tensor2<3>;
template class Tensor2<4>;
template class Tensor3<3>;
template class Tensor3<4>;
template class Tensor4<3>;
template class Tensor4<4>;
template class Tensor5<3>;
template class Polynom<float>;
template class ScalarFunction<2>;
template class ScalarFunction<3>;
template class ScalarFunctionFromStdFunc<3>;
template class VectorFunction<2>;
template class VectorFunction<3>;
template class VectorFunctionFromStdFunc<3>;
template class VectorFunctionNM<2, 3>;
template class VectorFunctionNM<3, 2>;
template class VectorFunctionNMFromStdFunc<2, 3>;
template class ParametricCurve<2>;
template class ParametricCurve<3>;
template class ParametricCurveFromStdFunc<3>;
template class ParametricSurface<3>;
template class ParametricSurfaceRect<3>;
template class ParametricSurfaceFromStdFunc<3>;
template class LinInterpParametricCurve<2>;
template class LinInterpParametricCurve<3>;
template class SplineInterpParametricCurve<2>;
template class SplineInterpParametricCurve<3>;
template struct Edge<Real>;
template class Graph<int, Real>;
template class Graph<std::string, Real>;
template class GaussJordanSolver<Real>;
template class LUSolver<Real>;
template class LUSolverInPlace<Real>;
template class CholeskySolver<Real>;
template class QRSolver<Real>;
template class SVDecompositionSolver<Real>;
template class GaussJordanSolver<Complex>;
template class LUSolver<Complex>;
template class GaussJordanSolver<float>;
template class LUSolver<float>;
template class LUSolverInPlace<Complex>;
template class LUSolverInPlace<float>;
template class CholeskySolver<float>;
template class QRSolver<float>;
template class SVDecompositionSolver<float>;
template class MonteCarloIntegrator<2>;
template class MonteCarloIntegrator<3>;
template class StratifiedMonteCarloIntegrator<3>;
template class HitOrMissIntegrator<3>;
template class MetricTensorField<3>;
template class MetricTensorField<4>;
template class MetricTensorFromCoordTransf<Vector3Spherical, Vector3Cartesian, 3>;
template class CoordTransf<Vector3Spherical, Vector3Cartesian, 3>;
template class CoordTransf<Vector2Polar, Vector2Cartesian, 2>;
template class CoordTransfWithInverse<Vector3Spherical, Vector3Cartesian, 3>;
template struct FieldLine<2>;
template struct FieldLine<3>;
template struct BoundingBox<2>;
template struct BoundingBox<3>;
template class FieldLineTracer<2>;
template class FieldLineTracer<3>;
template class ODEAdaptiveIntegrator<DormandPrince5_Stepper>;
template class ODEAdaptiveIntegrator<CashKarp_Stepper>;
template class ODEAdaptiveIntegrator<DormandPrince8_Stepper>;
template class ODEAdaptiveIntegrator<BulirschStoer_Stepper>;
template class ODEAdaptiveIntegrator<BulirschStoerRational_Stepper>;
template class ODEEventDetectionIntegrator<DormandPrince5_Stepper>;
template class BVPShootingSolver<RungeKutta4_StepCalculator>;
template class BVPShootingSolverND<RungeKutta4_StepCalculator>;
template class Systems::LinearSystem<Real>;
template class Systems::DynamicalSystemAnalyzer<Real>;
template struct Symbolic::Dual<double>;
template struct Symbolic::Dual<float>;
template class TablePrinter<Real, Real>;
template class TablePrinter<int, Real>;
template class TablePrinter<std::string, Real>;
template class KDTree<2>;
template class KDTree<3>;
template class Systems::DiscreteMapLyapunov<2>;
template class IScalarFunctionParametrized<3>;
template class IVectorFunctionParametrized<3>;
template class ITensorField2<3>;
template class ITensorField3<3>;
template class ITensorField4<3>;
template class ITensorField5<3>;
template class Optimization::LineFunction<2>;
template class Optimization::DLineFunction<2>;
template class Optimization::NegatedScalarFunction<2>;
template class IParametricCurveParametrized<3>;
template struct DerivativeResult<Real>;
template struct LinearSolverResult<Real>;
template struct LinearSolverResult<Complex>;
template struct Systems::FixedPoint<Real>;
template struct Systems::LyapunovResult<Real>;
template struct Systems::BifurcationDiagram<Real>;
template struct Systems::PoincareSection<Real>;
template class ScalarFunction<4>;
template class VectorFunction<4>;
template class MatrixNM<Real, 3, 2>;
template class MatrixNM<Real, 4, 2>;
template class Tensor5<4>;
template class MetricTensorField<2>;
static inline void c10_members()
{
	(void)static_cast<MatrixNM<Real, 3, 2>(*)(const IVectorFunctionNM<2, 3>&, const VectorN<Real, 2>&)>(&Derivation::calcJacobian<2, 3>);
	(void)static_cast<MatrixNM<Real, 2, 3>(*)(const IVectorFunctionNM<3, 2>&, const VectorN<Real, 3>&)>(&Derivation::calcJacobian<3, 2>);
	(void)static_cast<MatrixNM<Real, 3, 3>(*)(const IVectorFunction<3>&, const VectorN<Real, 3>&)>(&Derivation::calcJacobian<3>);
}
}
