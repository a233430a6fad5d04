// registers OdeSolverRosenbrock_W1 OdeSolverRosenbrock_SW2_4
#include "ode_num_int/OdeSolverClassesRegistrator.h"
namespace { typedef ctm::math::VectorData<double> VD;
ctm::ImplementationRegistrator< ctm::math::OdeSolverRosenbrock_W1<VD> > r0;
ctm::ImplementationRegistrator< ctm::math::OdeSolverRosenbrock_SW2_4<VD> > r1;
}
