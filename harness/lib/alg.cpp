// registers part of the algebraic solver classes, and error norm, step size and event controllers, initial states
#include "ode_num_int/AlgebraicSolverClassesRegistrator.h"
#include "ode_num_int/OdeEventControllerClassesRegistrator.h"
#include "ode_num_int/OdeSolverCommonClassesRegistrator.h"
#include "ode_num_int/OdeStepMappingClassesRegistrator.h"
namespace { typedef ctm::math::VectorData<double> VD; using ctm::ImplementationRegistrator; using namespace ctm::math;
ImplementationRegistrator< DefaultJacobianProvider<VD> > a1; ImplementationRegistrator< SparseJacobianProvider<VD> > a2; ImplementationRegistrator< SimpleErrorEstimator<VD> > a3; ImplementationRegistrator< JacobianWidthBasedTrimmer<VD> > a4; ImplementationRegistrator< JacobianThresholdBasedTrimmer<VD> > a5; ImplementationRegistrator< SimpleNewtonLinearSearch<VD> > a6; ImplementationRegistrator< NewtonIterationPerformerImpl<VD> > a7; ImplementationRegistrator< NewtonSolver<VD> > a8;
OdeEventControllerClassesRegistrator<VD> r2; OdeSolverCommonClassesRegistrator<VD> r3; OdeStepMappingClassesRegistrator<VD> r4; }
