// O01: order of the explicit methods, decided on all rooted trees (elementary differentials).
// FAST: -include @H/lexstub.h
// USES: ctl expl extr
#include "hutil.h"
#include "trees.h"
#include <algorithm>
#include <map>
#include <set>
#include "ode_num_int/OdeSolver.h"
#include "ode_num_int/OdeStepSizeController.h"
#include "ode_num_int/ErrorNormCalculator.h"
#include "ode_num_int/OdeEventController.h"
namespace mc { const char *assumptions[] = {
    "Butcher's theorem: a Runge-Kutta or extrapolation step attains order p on all smooth systems exactly if it is exact on the tree systems with at most p nodes",
    "agreement is required to 2e-11 of the magnitude of the terms (coefficients are double precision)", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
typedef OptionalParameters::Parameters Params; typedef OptionalParameters::Value Value; typedef OdeSolver<VD> Solver;
// --- methods
struct Method { std::string name, mode, ref, seq; int stages; bool sym, smooth; int order, low; };
std::string str( const Method& m ) { std::ostringstream s; s << m.name; if( !m.mode.empty() ) s << " " << m.mode; if( !m.ref.empty() ) s << " of " << m.ref << ", " << m.seq << ", " << m.stages << " stages" << (m.sym ? ", symmetric" : ""); if( m.smooth ) s << " smooth"; return s.str(); }
const std::vector<Method>& methods() {
    static std::vector<Method> v; if( !v.empty() ) return v;
    v.push_back( {"euler","","","",0,false,false,1,0} ); v.push_back( {"rk4","","","",0,false,false,4,0} );
    v.push_back( {"dopri_45","high","","",0,false,false,5,4} ); v.push_back( {"dopri_45","low","","",0,false,false,4,4} );
    v.push_back( {"dopri_56","high","","",0,false,false,6,5} ); v.push_back( {"dopri_56","low","","",0,false,false,5,5} );
    v.push_back( {"dopri_78","high","","",0,false,false,8,7} ); v.push_back( {"dopri_78","low","","",0,false,false,7,7} );
    v.push_back( {"gragg","","","",0,false,false,2,0} ); v.push_back( {"gragg","","","",0,false,true,2,0} );
    for( const char *seq : {"romberg","bulirsch","harmonic"} ) {
        for( int k=1; k<=mc::tier(5,8); ++k ) v.push_back( {"extrapolator","","euler",seq,k,false,false,k,k-1} );
        for( int k=1; k<=4; ++k ) v.push_back( {"extrapolator","","gragg",seq,k,true,false,2*k,2*k-2} );
        for( int k=1; k<=mc::tier(4,6); ++k ) v.push_back( {"extrapolator","","gragg",seq,k,false,false,std::max(2,k),0} );
        for( int k=1; k<=mc::tier(3,6); ++k ) v.push_back( {"extrapolator","","rk4",seq,k,false,false,std::max(4,k),0} );
        }
    return v;
    }
std::shared_ptr<Solver> make( const Method& m, double h, bool errorCheck ) {
    auto s = Factory<Solver>::newInstance( m.name ); Params p = s->parameters(); p["h_init"] = h;
    if( !m.mode.empty() ) p["mode"] = m.mode;
    if( m.smooth ) p["smooth"] = true;
    if( !m.ref.empty() ) { p["reference_solver"] = m.ref; p["step_sequence"] = m.seq; p["max_stages"] = m.stages; p["symmetric"] = m.sym; }
    if( p.count("disable_error_check") ) { p["disable_error_check"] = !errorCheck || (!m.ref.empty() && m.stages<2); if( errorCheck ) { Params q; q["tolerance"] = 1e30; q["inc_max_factor"] = 1.0; p["stepsizectl"] = Value( "simple", q ); } }
    s->setParameters( p ); return s;
    }
D y0of( int n, int k ) { D y(n,0.0); static const double c[] = {0.5,-0.75,1.25,0.25,-0.5,1.5,-1,0.625}; if( k ) for( int i=0; i<n; ++i ) y[i] = c[i%8]; return y; }
void check( const Method& m, int n, const Tree& t, unsigned mask, int k, bool ec ) {
    double t0 = k ? -3 : 0, h = k ? 0.5 : 1; auto rhs = std::make_shared<TreeRhs>( t, mask, t0 );
    auto s = make( m, h, ec ); s->setOdeRhs( rhs ); D y0 = y0of( n, k ); s->setInitialState( t0, h::mk(y0) );
    for( int i=1; i<=2; ++i ) {
        s->doStep(); mc::step(); D got = h::rd( s->initialState() ), want = exact( t, mask, y0, i*h );
        MC_LOG( str(m) << ", tree " << canon(t) << " (" << mask << "), step " << i << ": " << h::str(got) << ", exact " << h::str(want) );
        double scale = 1; for( double w : want ) scale = std::max( scale, std::fabs(w) );
        MC_CHECK( s->initialTime() == t0 + i*h, "time", str(m) << " is at time " << s->initialTime() << " after " << i << " steps of " << h );
        MC_CHECK( h::close( got, want, 0, 2e-11*scale*(m.stages>5?100:1) ), "order", str(m) << " is not exact on tree " << canon(t) << " (time leaves " << mask << ") of order " << n << ": " << h::str(got) << " instead of " << h::str(want) );
        }
    mc::state( (uint64_t)mc::Hash().s( canon(t) ).u( mask ) );
    }
MC_SCENARIO( order, "all methods (Euler, RK4, three Dormand-Prince pairs in both modes, Gragg plain and smoothed, extrapolations of Euler, Gragg and RK4 with three sequences and all small stage counts), all rooted trees up to the nominal order (200 up to order 8) with any subset of the leaves replaced by time, zero and generic start, 2 steps, with and without error control" ) {
    auto m = methods()[mc::choose( methods().size() )]; int n = 1 + mc::choose( std::min( m.order, 8 ) );
    auto& t = trees(n)[mc::choose( trees(n).size() )]; std::vector<unsigned> masks = {0}; for( int i=1; i<n; ++i ) if( leaf(t,i) ) for( size_t k=masks.size(); k--; ) masks.push_back( masks[k] | 1u<<i );
    unsigned mask = masks[mc::choose( masks.size() )]; int k = mc::choose( 2 ); bool ec = mc::flip(); if( ec && (m.name=="euler"||m.name=="rk4"||m.name=="gragg") ) mc::prune();
    check( m, n, t, mask, k, ec ); mc::outcome( str(m) );
    }
MC_SCENARIO( advertised, "the order each method reports, before and after setting its options" ) {
    auto m = methods()[mc::choose( methods().size() )]; auto s = make( m, 0.5, mc::flip() ); mc::step();
    MC_CHECK( s->order() == m.order, "order-reported", str(m) << " reports order " << s->order() << " instead of " << m.order ); mc::outcome( str(m) );
    }
// the error estimate: zero (to rounding) on all trees up to the lower order, and not blind above it
MC_SCENARIO( estimate, "for every method with an error estimate: the estimate on every tree up to the lower order vanishes, on some tree of the next order it does not, on every tree up to order 8 it equals the difference of the two solutions" ) {
    auto m = methods()[mc::choose( methods().size() )]; if( m.low < 1 ) mc::prune(); double worst = 0, sees = 0;
    for( int n=1; n<=std::min(8,m.low+1); ++n ) for( auto& t : trees(n) ) {
        auto rhs = std::make_shared<TreeRhs>( t, 0, 0 ); double e = -1;
        auto s = make( m, 1, true ); s->setOdeRhs( rhs ); s->setInitialState( 0, V(n) ); auto hd = s->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { e = a.errorNorm(); } );
        s->doStep(); mc::step(); D x = h::rd( s->initialState() );
        if( n <= m.low ) { worst = std::max( worst, e ); MC_CHECK( e < 1e-10, "estimate-low", str(m) << ": the error estimate on tree " << canon(t) << " is " << e << " but both solutions are exact there" ); }
        else sees = std::max( sees, e );
        Method o = m; if( !m.mode.empty() ) o.mode = m.mode=="high" ? "low" : "high"; else continue;
        auto s2 = make( o, 1, true ); s2->setOdeRhs( rhs ); s2->setInitialState( 0, V(n) ); s2->doStep(); D y = h::rd( s2->initialState() ); double d = 0; for( int i=0; i<n; ++i ) d = std::max( d, std::fabs(x[i]-y[i]) );
        MC_CHECK( h::close( d, e, 1e-9, 1e-14 ), "estimate-diff", str(m) << ": the error estimate on tree " << canon(t) << " is " << e << " but the two solutions differ by " << d );
        }
    MC_LOG( str(m) << ": worst " << worst << ", seen " << sees );
    if( m.low < 8 ) MC_CHECK( sees > 1e-8, "estimate-blind", str(m) << ": the error estimate does not see errors of order " << m.low+1 );
    mc::outcome( str(m) );
    }
}
