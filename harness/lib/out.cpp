// registers the output options
#include "ode_num_int/NewtonSolverInterface.h"
#include "ode_num_int/OdeSolverOutputClassesRegistrator.h"
namespace { ctm::math::OdeSolverOutputClassesRegistrator< ctm::math::VectorData<double> > r; }
