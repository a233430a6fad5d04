// registers the test models
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
namespace { ctm::testmodels::OdeTestModelClassesRegistrator< ctm::math::VectorData<double> > r; }
