// oenv.h - scripted environment for the ODE solvers
#pragma once
#include "hutil.h"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include "ode_num_int/OdeSolver.h"
#include "ode_num_int/OdeStepSizeController.h"
#include "ode_num_int/ErrorNormCalculator.h"
#include "ode_num_int/OdeEventController.h"
namespace h {
typedef ctm::OptionalParameters::Parameters Params; typedef ctm::OptionalParameters::Value Value;
typedef ctm::math::OdeSolver<VD> Solver; typedef ctm::math::OdeRhs<VD> Rhs;
typedef ctm::math::OdeStepSizeController<VD> Ctl; typedef ctm::math::ErrorNormCalculator<VD> Norm; typedef ctm::math::OdeEventController<VD> Events;
struct Injected : std::runtime_error { Injected() : std::runtime_error("injected failure") {} };
// A system given by a C++ function of (t, x) returning the accelerations and first order derivatives (the last n2+n1 entries)
struct FnRhs : Rhs {
    unsigned n2, n1; std::function<D(double,const D&)> f; mutable long evals = 0; long failAt = -1, nanAt = -1;      // number of the evaluation that throws
    std::function<void(double,const D&)> onEval; mutable std::vector<std::string> *log = nullptr;
    FnRhs( unsigned n2_, unsigned n1_, std::function<D(double,const D&)> f_ ) : n2(n2_), n1(n1_), f(f_) {}
    unsigned secondOrderVarCount() const { return n2; } unsigned firstOrderVarCount() const { return n1; }
    using Rhs::rhs;
    void rhs( V& dst, double t, const V& x ) const {
        this->odeRhsPreObservers( t, x, this ); D X = rd(x); if( X.size() != 2*n2+n1 ) mc::fail( "size", "the right-hand side is given a state of size " + std::to_string(X.size()) );
        if( onEval ) onEval( t, X );
        if( evals++ == failAt ) throw Injected();
        D g = f( t, X ); if( evals-1 == nanAt ) for( double& y : g ) y = NaN;
        dst.resize( X.size() ); for( unsigned i=0; i<n2; ++i ) dst[i] = X[n2+i]; for( unsigned i=0; i<n2+n1; ++i ) dst[n2+i] = g[i];
        this->odeRhsPostObservers( t, x, dst, this );
        }
    };
// Scripted parts
struct SpyCtl : Ctl { std::function<Result(double,double,double)> f; Result controlStepSize( double h, double e, double o ) const { return f( h, e, o ); } std::string typeId() const { return "spy"; } };
struct SpyNorm : Norm { std::function<double(const D&)> f; double errorNorm( const V& e ) const { double r = f( rd(e) ); this->errorNormCalculatorObservers( e, r ); return r; } std::string typeId() const { return "spy"; } };
inline void setCtl( const std::shared_ptr<Solver>& s, std::shared_ptr<Ctl> c ) { auto p = dynamic_cast<ctm::math::OdeStepSizeControllerHolder<VD>*>( s.get() ); if( !p ) mc::broken( "no step size controller" ); p->setOdeStepSizeController( c ); }
inline void setNorm( const std::shared_ptr<Solver>& s, std::shared_ptr<Norm> c ) { auto p = dynamic_cast<ctm::math::ErrorNormCalculatorHolder<VD>*>( s.get() ); if( !p ) mc::broken( "no error norm" ); p->setErrorNormCalculator( c ); }
inline std::shared_ptr<Events> eventsOf( const std::shared_ptr<Solver>& s ) { auto p = dynamic_cast<ctm::math::OdeEventControllerHolder<VD>*>( s.get() ); return p ? p->eventController() : std::shared_ptr<Events>(); }
// Solver variants
struct Variant { std::string name, solver; Params params; };
inline Variant variant( const std::string& name, const std::string& solver, std::initializer_list<std::pair<const char*,ctm::OptionalParameters::Value>> p = {} ) { Variant v{ name, solver, Params() }; for( auto& x : p ) v.params[x.first] = x.second; return v; }
// options of a Newton solver that iterates to the given tolerances and has no limit on relative changes
inline Value newton( double tol = 1e-10, Params p = Params(), const std::string& type = "newton" ) { Params e; e["abs_tol"] = tol; e["rel_tol"] = tol; e["rel_max_threshold"] = 0.; p["err"] = Value( "simple", e ); return Value( type, p ); }
inline std::shared_ptr<Solver> make( const Variant& v, double h, const Params& extra = Params() ) {
    auto s = ctm::Factory<Solver>::newInstance( v.solver ); Params p = v.params; for( auto& x : extra ) p[x.first] = x.second; if( h > 0 ) p["h_init"] = h; s->setParameters( p ); return s;
    }
inline bool adaptive( const std::shared_ptr<Solver>& s ) { return s->parameters().count( "disable_error_check" ) != 0; }
}
