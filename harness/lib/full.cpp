// registers everything the way a program does
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
void registerAll() { typedef ctm::math::VectorData<double> VD; ctm::math::OdeNumIntClassesRegistrator<VD> r1; ctm::testmodels::OdeTestModelClassesRegistrator<VD> r2; }
