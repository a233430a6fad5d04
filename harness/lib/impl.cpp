// registers OdeSolverImplicitEuler
#include "ode_num_int/OdeSolverClassesRegistrator.h"
namespace { typedef ctm::math::VectorData<double> VD;
ctm::ImplementationRegistrator< ctm::math::OdeSolverImplicitEuler<VD> > r0;
}
