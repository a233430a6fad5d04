// registers error norm, step size and event controllers only
#include "ode_num_int/OdeEventControllerClassesRegistrator.h"
#include "ode_num_int/OdeSolverCommonClassesRegistrator.h"
namespace { typedef ctm::math::VectorData<double> VD;
ctm::math::OdeEventControllerClassesRegistrator<VD> r2; ctm::math::OdeSolverCommonClassesRegistrator<VD> r3; }
