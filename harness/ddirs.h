// ddirs.h - the descent strategies by number
#pragma once
#include "nenv.h"
#include "ode_num_int/ConstJacobianNewtonDescentDirection.h"
#include "ode_num_int/JacobianBroydenUpdateNewtonDescentDirection.h"
#include "ode_num_int/JacobianFakeBroydenUpdateNewtonDescentDirection.h"
#include "ode_num_int/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h"
#include "ode_num_int/JacobianHartUpdateNewtonDescentDirection.h"
#include "ode_num_int/SparseJacobianProvider.h"
namespace h {
typedef std::shared_ptr< m::NewtonDescentDirection<VD> > PD;
enum { SIMPLE, CONST, BROYDEN, FAKE, LAZY, HART, NDDIR };
inline const char *ddName( int k ) { static const char *n[] = { "simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart" }; return n[k]; }
inline PD ddir( int k ) {
    switch( k ) {
        case SIMPLE: return std::make_shared< m::SimpleNewtonDescentDirection<VD> >();
        case CONST: return std::make_shared< m::ConstJacobianNewtonDescentDirection<VD> >();
        case BROYDEN: return std::make_shared< m::JacobianBroydenUpdateNewtonDescentDirection<VD> >();
        case FAKE: return std::make_shared< m::JacobianFakeBroydenUpdateNewtonDescentDirection<VD> >();
        case LAZY: return std::make_shared< m::JacobianLazyFakeBroydenUpdateNewtonDescentDirection<VD> >();
        default: return std::make_shared< m::JacobianHartUpdateNewtonDescentDirection<VD> >();
        }
    }
}
