// O03: step size controller and error norm.
// FAST: -include @H/lexstub.h
// USES: ctl
#include "hutil.h"
#include <algorithm>
#include "ode_num_int/OdeStepSizeController.h"
#include "ode_num_int/ErrorNormCalculator.h"
namespace mc { const char *assumptions[] = {
    "settings are sensible: tolerance positive, insurance in (0,1], minimal growth 0 (off) or at least 1, maximal growth 0 (off) or at least 1, maximal reduction in [0,1)",
    "an error equal to the tolerance up to a relative 2e-4 may be accepted or rejected", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using h::VD; using h::V; using h::D;
typedef OptionalParameters::Parameters Params; typedef OptionalParameters::Value Value; typedef OdeStepSizeController<VD> Ctl;
struct Cfg { double tol = 1e-6, ins = 0.8, imin = 1.3, imax = 2, dec = 0.1, max = 0; };
std::shared_ptr<Ctl> make( const Cfg& c, bool defaults ) { auto r = Factory<Ctl>::newInstance( "simple" ); if( !defaults ) { Params p; p["tolerance"] = c.tol; p["insurance"] = c.ins; p["inc_min_factor"] = c.imin; p["inc_max_factor"] = c.imax; p["dec_max_factor"] = c.dec; p["max_threshold"] = c.max; r->setParameters( p ); } return r; }
std::string str( const Cfg& c ) { std::ostringstream s; s << "tol=" << c.tol << " insurance=" << c.ins << " inc_min=" << c.imin << " inc_max=" << c.imax << " dec_max=" << c.dec << " max=" << c.max; return s.str(); }
// the promises
void check( const Cfg& c, double hh, double err, double order, const Ctl::Result& r ) {
    std::ostringstream w; w.precision(17); w << str(c) << ", step " << hh << ", error " << err << ", order " << order << " -> " << r.newStepSize << (r.acceptStep ? " accepted" : " rejected") << (r.changeStepSize ? " changed" : ""); std::string W = w.str(); MC_LOG( W );
    bool border = std::isfinite(err) && std::fabs( err/c.tol - 1 ) < 2e-4;
    if( !border ) MC_CHECK( r.acceptStep == (err <= c.tol), "accept", W );
    double n = r.newStepSize; MC_CHECK( !std::isnan(n) && std::isfinite(n) && n >= 0, "finite", W );
    MC_CHECK( r.changeStepSize || n == hh, "flag", W + ": the step size differs but is not said to change" );
    if( err == 0 ) { MC_CHECK( n == hh, "zero-error", W ); return; }
    double ideal = hh * c.ins * std::pow( c.tol/err, 1/(order+1) );     // may be NaN or infinite
    if( r.acceptStep ) {
        MC_CHECK( c.max <= 0 || n <= std::max( c.max, hh )*(1+1e-14), "max", W + ": beyond the maximum step size" );
        MC_CHECK( c.imax <= 0 || n <= hh*c.imax*(1+1e-14), "growth", W + ": grows more than allowed" );
        MC_CHECK( n == hh || c.imin <= 0 || n >= hh*c.imin*(1-1e-14), "min-growth", W + ": changes by less than the minimal growth" );
        if( border ) return;
        // exactly the ideal step within the limits, and no change where growth would be too little
        double want = ideal; if( c.max > 0 && want > c.max ) want = c.max < hh ? hh : c.max;
        if( c.imin > 0 && want < hh*c.imin ) want = std::fabs( want/(hh*c.imin) - 1 ) < 1e-12 ? n : hh;
        if( c.imax > 0 && want > hh*c.imax ) want = hh*c.imax;
        if( std::isfinite(want) ) MC_CHECK( h::close( n, want, 1e-12 ), "accepted-size", W + ": expected " + std::to_string(want) );
        else MC_CHECK( n >= hh, "accepted-size", W );
        }
    else {
        MC_CHECK( r.changeStepSize && n < hh, "reduced", W + ": a rejected step is not reduced" );
        MC_CHECK( n >= hh*c.dec*(1-1e-14), "reduction", W + ": reduced more than allowed" );
        if( border ) return;
        double want = std::isnan(ideal) ? 0 : ideal; if( want < hh*c.dec ) want = hh*c.dec;
        MC_CHECK( h::close( n, want, 1e-12, 1e-320 ), "rejected-size", W + ": expected " + std::to_string(want) );
        }
    }
const std::vector<double>& errors() { static const std::vector<double> e = { 0, 5e-324, 1e-310, 1e-300, 1e-30, 1e-18, 1e-12, 1e-9, 1e-8, 5e-8, 1e-7, 2e-7, 5e-7, 8e-7, 9.9e-7, 1e-6, 1.01e-6, 1.5e-6, 3e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5, 0.9, 1, 1.1, 2, 10, 1e3, 1e6, 1e30, 1e150, 1e300, h::INF, h::NaN }; return e; }
Cfg pickCfg() { Cfg c; c.tol = mc::pick( std::vector<double>{1e-6,1e-12,1,1e-300} ); c.ins = mc::pick( std::vector<double>{0.8,1,0.25} ); c.imin = mc::pick( std::vector<double>{1.3,0,1} ); c.imax = mc::pick( std::vector<double>{2,0,5,1} ); c.dec = mc::pick( std::vector<double>{0.1,0,0.9} ); c.max = mc::pick( std::vector<double>{0,0.5,1e-5,100} ); return c; }

MC_SCENARIO( grid, "all combinations of 4 tolerances, 3 insurance factors, 3 minimal and 4 maximal growth factors, 3 reduction limits and 4 maximum step sizes; 37 errors from zero over the smallest denormal to infinity and NaN, 5 step sizes, 5 orders; among accepted and among rejected steps a larger error never gives a larger step" ) {
    mc::splitAt( 200 ); Cfg c = pickCfg(); auto s = make( c, false ); double order = mc::pick( std::vector<double>{1,2,4,7,8} );
    for( double hh : { 0.01, 1.0, 1e-9, 1e-15, 1e4 } ) {
        double prev = h::INF; bool prevAcc = true;
        for( double e : errors() ) { auto r = s->controlStepSize( hh, e, order ); mc::step(); check( c, hh, e, order, r );
            if( e > 0 && std::isfinite( hh*c.ins*std::pow(c.tol/e,1/(order+1)) ) ) { if( prevAcc != r.acceptStep ) prev = h::INF; MC_CHECK( r.newStepSize <= prev && (prevAcc || !r.acceptStep), "monotone", str(c) << ": error " << e << " gives step " << r.newStepSize << " but a smaller error gave " << prev ); prev = r.newStepSize; prevAcc = r.acceptStep; } }
        }
    mc::state( (uint64_t)mc::Hash().s( str(c) ).d(order) );
    }
MC_SCENARIO( defaults, "a new controller with its default settings on all errors, step sizes and orders" ) {
    Cfg c; auto s = make( c, true ); double e = errors()[mc::choose( errors().size() )], hh = mc::pick( std::vector<double>{0.01,1,1e-9,1e4} ), o = mc::pick( std::vector<double>{1,2,3,4,5,6,7,8} ); auto r = s->controlStepSize( hh, e, o ); mc::step(); check( c, hh, e, o, r ); mc::outcome( r.acceptStep ? r.changeStepSize ? "grow" : "keep" : "reject" );
    }
// histories: the controller has no memory, and a persistent error ends below any threshold
MC_SCENARIO( history, "all sequences of 3 (quick) / 4 (thorough) errors from 9 classes fed with the step sizes it gives: each answer is that of a fresh controller" ) {
    Cfg c; c.max = mc::flip() ? 0.05 : 0; auto s = make( c, false ); double hh = 0.01; int n = mc::tier(3,4);
    for( int i=0; i<n; ++i ) { double e = mc::pick( std::vector<double>{0,1e-12,1e-7,1e-6,2e-6,1e-3,1e9,h::INF,h::NaN} ); auto r = s->controlStepSize( hh, e, 4 ), f = make( c, false )->controlStepSize( hh, e, 4 ); mc::step(); check( c, hh, e, 4, r );
        MC_CHECK( r.newStepSize == f.newStepSize && r.acceptStep == f.acceptStep && r.changeStepSize == f.changeStepSize, "memory", "the answer depends on earlier calls" ); hh = r.newStepSize; }
    mc::state( (uint64_t)mc::Hash().d(hh) );
    }
MC_SCENARIO( persistent, "8 persistent bad errors, 3 reduction limits, 3 orders: the step size falls below 1e-16 within 3000 rejections" ) {
    Cfg c; c.dec = mc::pick( std::vector<double>{0.1,0,0.9} ); auto s = make( c, false ); double e = mc::pick( std::vector<double>{2e-6,1e-5,1,1e9,1e300,h::INF,h::NaN,-h::NaN} ), o = mc::pick( std::vector<double>{1,4,8} ), hh = 0.01; int i = 0;
    for( ; i<3000 && hh > 1e-16; ++i ) { auto r = s->controlStepSize( hh, e, o ); MC_CHECK( !r.acceptStep, "accept", "error " << e << " accepted" ); hh = r.newStepSize; mc::step(); }
    MC_CHECK( hh <= 1e-16, "persistent", "error " << e << " rejected " << i << " times and the step size is still " << hh ); mc::outcome( "ends" );
    }
MC_SCENARIO( observers, "every call of the controller is reported once to its observers with its arguments and result" ) {
    Cfg c; auto s = make( c, false ); int calls = 0; double a = 0, b = 0; bool acc = false, chg = false; auto hd = s->odeStepSizeControllerObservers.add( [&]( double o, double n, bool x, bool y ) { ++calls; a = o; b = n; acc = x; chg = y; } );
    for( int i=0; i<2; ++i ) { double e = errors()[mc::choose( errors().size() )]; auto r = s->controlStepSize( 0.25, e, 4 ); mc::step();
        MC_CHECK( calls == i+1 && a == 0.25 && b == r.newStepSize && acc == r.acceptStep && chg == r.changeStepSize, "observed", "after " << i+1 << " calls the observer was called " << calls << " times, last with " << a << ", " << b ); }
    }
// the error norm
MC_SCENARIO( norm, "all vectors of length 0 to 4 over 9 values including infinities and NaN: the norm is the largest magnitude, NaN if any element is, and observers see it" ) {
    auto e = Factory<ErrorNormCalculator<VD>>::newInstance( "inf" ); int n = mc::choose( 5 ); D d; double want = 0; bool nan = false;
    for( int i=0; i<n; ++i ) { double x = mc::pick( std::vector<double>{0,-1,1e-320,0.5,-3,1e300,h::INF,-h::INF,h::NaN} ); d.push_back(x); if( std::isnan(x) ) nan = true; else want = std::max( want, std::fabs(x) ); }
    if( nan ) want = h::NaN; int calls = 0; double seen = -1; auto hd = e->errorNormCalculatorObservers.add( [&]( const V& v, double x ) { ++calls; seen = x; } ); double got = e->errorNorm( h::mk(d) ); mc::step();
    MC_CHECK( h::same(got,want), "norm", "the norm of " << h::str(d) << " is " << got << " instead of " << want ); MC_CHECK( calls == 1 && h::same(seen,want), "norm-observer", "the observer saw " << seen );
    mc::state( h::hashOf(d) );
    }
}
