// variants.h - the solvers, in the configurations that differ in how a step is made (needs the libraries alg ddir expl extr ros impl)
#pragma once
#include "oenv.h"
namespace h {
inline const std::vector<Variant>& variants() {
    static std::vector<Variant> v; if( v.empty() ) {
        v.push_back( variant( "euler", "euler" ) ); v.push_back( variant( "rk4", "rk4" ) );
        for( const char *n : {"dopri_45","dopri_56","dopri_78"} ) v.push_back( variant( n, n ) );
        v.push_back( variant( "dopri_45 high", "dopri_45", { {"mode",Value("high")} } ) ); v.push_back( variant( "dopri_45 fixed", "dopri_45", { {"disable_error_check",Value(true)} } ) );
        v.push_back( variant( "rosenbrock_w1", "rosenbrock_w1" ) ); v.push_back( variant( "rosenbrock_sw2_4", "rosenbrock_sw2_4" ) );
        v.push_back( variant( "gragg", "gragg" ) ); v.push_back( variant( "gragg smooth", "gragg", { {"smooth",Value(true)} } ) );
        v.push_back( variant( "extrapolator euler", "extrapolator", { {"reference_solver",Value("euler")}, {"step_sequence",Value("harmonic")}, {"max_stages",Value(3)} } ) );
        v.push_back( variant( "extrapolator gragg", "extrapolator", { {"reference_solver",Value("gragg")}, {"step_sequence",Value("romberg")}, {"max_stages",Value(2)}, {"symmetric",Value(true)}, {"disable_error_check",Value(true)} } ) );
        v.push_back( variant( "i_euler", "i_euler", { {"algsolver",newton()} } ) ); v.push_back( variant( "i_euler with predictor", "i_euler", { {"algsolver",newton()}, {"predictor",Value("euler")}, {"predictor_steps",Value(2)} } ) );
        v.push_back( variant( "i_euler trapezoidal", "i_euler", { {"algsolver",newton()}, {"alpha",Value(0.5)} } ) );
        }
    return v;
    }
inline bool fixedSize( const Variant& v ) { return v.solver == "euler" || v.solver == "rk4" || v.solver == "gragg" || v.solver == "i_euler" || v.solver == "rosenbrock_w1" || v.params.count("disable_error_check"); }
// the same and more: descent strategies, Jacobian providers, nested solvers
inline std::vector<Variant> allVariants() { auto v = variants(); for( const char *d : {"const","broyden","fake-broyden","lazy-fake-broyden","hart"} ) { Params p; p["ddir"] = Value( d ); v.push_back( variant( std::string("i_euler ") + d, "i_euler", { {"algsolver",newton(1e-10,p)} } ) ); } { Params p; p["jacobian"] = Value( "sparse" ); v.push_back( variant( "i_euler sparse", "i_euler", { {"algsolver",newton(1e-10,p)} } ) ); }
    v.push_back( variant( "extrapolator i_euler", "extrapolator", { {"reference_solver",Value( "i_euler", [] { Params p; p["algsolver"] = newton(); return p; }() )}, {"step_sequence",Value("harmonic")}, {"max_stages",Value(3)} } ) ); v.push_back( variant( "extrapolator rosenbrock", "extrapolator", { {"reference_solver",Value("rosenbrock_w1")}, {"step_sequence",Value("bulirsch")}, {"max_stages",Value(3)} } ) ); Params q; q["predictor"] = Value( "rosenbrock_sw2_4" ); q["algsolver"] = newton(); v.push_back( Variant{ "i_euler with adaptive predictor", "i_euler", q } ); return v; }
// a body thrown up and bouncing off the floor, and a further variable; the event changes the sign of the velocity
struct Bounce : FnRhs { Bounce() : FnRhs( 1, 1, []( double t, const D& x ) { return D{ -1-0.1*x[1], -0.5*x[2] + 0.1*std::cos(t) + 0.2*x[0] }; } ) {} unsigned zeroFuncCount() const { return 1; } std::vector<unsigned> zeroFuncFlags() const { return {5}; } void zeroFunctions( V& d, double, const V& x ) const { d.resize(1); d[0] = x.at(0); } void switchPhaseState( const int*, double, V& x ) { x[1] = -0.75*x.at(1); } };
}
