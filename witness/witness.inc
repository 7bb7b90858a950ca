// Instantiation witness: makes the compiler resolve every class template of the library for
// representative arguments, so that the extractor sees resolved callees and types.
namespace mmlx {
  struct Fn { // callable stand-in for user functors
    double operator()(double) const; double operator()(double, double) const; double operator()(double, double, double) const;
  };
  typedef Fn arg_Func; typedef Fn arg_Evaluator; typedef Fn arg_Function;
  typedef char arg_V_unused;
}
namespace MML {
  template class Vector<double>; 
  template class VectorN<double, 3>; template class VectorN<double, 2>;
  template class Matrix<double>; template class MatrixViewNew<double>;
  template class MatrixNM<double, 3, 3>; template class MatrixNM<double, 2, 2>;
  template class Matrix3D<double>; template class MatrixSym<double>; template class TridiagonalMatrix<double>;
  template class Tensor2<3>; template class Tensor3<3>; template class Tensor4<3>; template class Tensor5<3>;
  template class Polynom<double>;
  template class ScalarFunction<3>; template class ScalarFunctionFromStdFunc<3>;
  template class VectorFunction<3>; template class VectorFunctionFromStdFunc<3>;
  template class VectorFunctionNM<2, 3>; template class VectorFunctionNMFromStdFunc<2, 3>;
  template class ParametricCurve<3>; template class ParametricCurveFromStdFunc<3>;
  template class ParametricSurface<3>; template class ParametricSurfaceRect<3>; template class ParametricSurfaceFromStdFunc<3>;
  template class LinInterpParametricCurve<3>; template class SplineInterpParametricCurve<3>;
  template struct Edge<double>; template class Graph<int, double>;
  template class GaussJordanSolver<double>; template class LUSolver<double>; template class LUSolverInPlace<double>;
  template class CholeskySolver<double>; template class QRSolver<double>; template class SVDecompositionSolver<double>;
  template class MonteCarloIntegrator<3>; template class StratifiedMonteCarloIntegrator<3>; template class HitOrMissIntegrator<3>;
  template class MetricTensorField<3>; template class MetricTensorFromCoordTransf<Vector3Spherical, Vector3Cartesian, 3>;
  template struct FieldLine<3>; template struct BoundingBox<3>; template class FieldLineTracer<3>;
  template class ODEAdaptiveIntegrator<DormandPrince5_Stepper>; template class ODEEventDetectionIntegrator<DormandPrince5_Stepper>;
  template class BVPShootingSolver<RungeKutta4_StepCalculator>; template class BVPShootingSolverND<RungeKutta4_StepCalculator>;
  template class Systems::LinearSystem<double>; template class Systems::DynamicalSystemAnalyzer<double>;
  template class Symbolic::Dual<double>;
  template class TablePrinter<double, double>; template class KDTree<3>;
  template class Systems::DiscreteMapLyapunov<2>;
  namespace mmlx_w {
    struct Vis { bool operator()(size_t) const; };
    inline void use(const Graph<int, double>& g, const MatrixNM<double, 3, 3>& m, const IVectorFunctionNM<2, 3>& f, const VectorN<Real, 2>& p) {
      DFSVisit(g, 0, Vis()); BFSVisit(g, 0, Vis());
      (void)(m * m); (void)(m * MatrixNM<double, 3, 2>());
      (void)Symbolic::derivative([](Symbolic::Dual<double> x) { return x * x; }, 1.0);
      (void)Symbolic::gradient([](const std::vector<Symbolic::Dual<double>>& x) { return x[0] * x[0]; }, std::vector<double>{1.0});
    }
  }
}
