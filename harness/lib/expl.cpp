// registers OdeSolverExplicitEuler OdeSolverRK4 OdeSolverDOPRI45 OdeSolverDOPRI56 OdeSolverDOPRI78
#include "ode_num_int/OdeSolverClassesRegistrator.h"
namespace { typedef ctm::math::VectorData<double> VD;
ctm::ImplementationRegistrator< ctm::math::OdeSolverExplicitEuler<VD> > r0;
ctm::ImplementationRegistrator< ctm::math::OdeSolverRK4<VD> > r1;
ctm::ImplementationRegistrator< ctm::math::OdeSolverDOPRI45<VD> > r2;
ctm::ImplementationRegistrator< ctm::math::OdeSolverDOPRI56<VD> > r3;
ctm::ImplementationRegistrator< ctm::math::OdeSolverDOPRI78<VD> > r4;
}
