// registers OdeSolverGragg OdeSolverExtrapolator
#include "ode_num_int/OdeSolverClassesRegistrator.h"
namespace { typedef ctm::math::VectorData<double> VD;
ctm::ImplementationRegistrator< ctm::math::OdeSolverGragg<VD> > r0;
ctm::ImplementationRegistrator< ctm::math::OdeSolverExtrapolator<VD> > r1;
}
