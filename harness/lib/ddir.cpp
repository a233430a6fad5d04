// registers the descent directions
#include "ode_num_int/AlgebraicSolverClassesRegistrator.h"
namespace { typedef ctm::math::VectorData<double> VD; using ctm::ImplementationRegistrator; using namespace ctm::math;
ImplementationRegistrator< SimpleNewtonDescentDirection<VD> > a1; ImplementationRegistrator< JacobianBroydenUpdateNewtonDescentDirection<VD> > a2; ImplementationRegistrator< JacobianFakeBroydenUpdateNewtonDescentDirection<VD> > a3; ImplementationRegistrator< JacobianLazyFakeBroydenUpdateNewtonDescentDirection<VD> > a4; ImplementationRegistrator< JacobianHartUpdateNewtonDescentDirection<VD> > a5; ImplementationRegistrator< ConstJacobianNewtonDescentDirection<VD> > a6; }
