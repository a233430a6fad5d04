// O10: failures during a step.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl extr ros impl
#include "oenv.h"
#include <cstring>
#include "variants.h"
#include "sys.h"
namespace mc { const char *assumptions[] = {
    "the reference is the same run without failures; attempts rejected before a failure count as made, so that the steps completed are the same ones",
    "implicit Euler steps after a failure are compared to the nonlinear tolerance, because the iteration may start from another Jacobian; all others bit by bit", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
struct Rec { double t; D x; double hh; int flags; };
struct Faulty : Bounce { std::function<void()> onZero; void zeroFunctions( V& d, double t, const V& x ) const { if( onZero ) onZero(); Bounce::zeroFunctions( d, t, x ); } };
std::shared_ptr<FnRhs> system( int k ) { if( k == 2 ) return std::make_shared<Faulty>(); return k == 0 ? Sys{1,1,0}.rhs() : Sys{0,2,1}.rhs(); }
D start( int k ) { return k == 0 ? Sys{1,1,0}.x0() : k == 1 ? Sys{0,2,1}.x0() : D{0.06,-0.3,0.5}; }
std::vector<Rec> run( const Variant& v, double hh, int k, int n, bool faults, int& failed, std::string& log ) {
    auto sv = make( v, hh ); auto r = system( k ); int done = 0; failed = 0; sv->setOdeRhs( r ); sv->setInitialState( 0.25, mk(start(k)) ); std::vector<Rec> out; Rec cur; auto ob = sv->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { cur.hh = a.stepSize(); cur.flags = a.stepAccepted()*4+a.stepTruncated()*2+a.stepSizeChanged(); } ); int evals = 0; bool active = true;
    if( faults ) { r->onEval = [&]( double, const D& ) { ++evals; if( active && mc::deviate(2,"rhs") ) { log += " rhs evaluation " + std::to_string(evals); throw Injected(); } }; if( k == 2 ) static_cast<Faulty&>(*r).onZero = [&]() { if( active && mc::deviate(2,"zero function") ) { log += " zero function after " + std::to_string(evals); throw Injected(); } }; }
    D x = start(k); double t = 0.25; for( int tries=0; done<n; ++tries ) { if( tries > 4*n ) mc::fail( "stuck", v.name + ": no progress" ); evals = 0; bool ok = false; try { sv->doStep(); ok = true; } catch( const Injected& ) { ++failed; log += " in step " + std::to_string(done) + ";"; } mc::step(); active = false; double t1 = sv->initialTime(); D x1 = rd( sv->initialState() ); active = true;
        if( ok ) { cur.t = t = t1; cur.x = x = x1; out.push_back( cur ); ++done; } else MC_CHECK( t1 == t && same( x1, x ), "state", v.name << ", system " << k << ", failing" << log << ": time " << t1 << ", state " << str(x1) << " instead of " << t << ", " << str(x) ); }
    if( !faults ) failed = 0; sv->odeSolverPostObservers.remove( ob ); return out;
    }
MC_SCENARIO( failures, "25 solver configurations, 3 systems (mixed, first order, with events), 2 step sizes (the larger making adaptive solvers repeat steps): up to 1 (quick) / 2 (thorough) exceptions at any evaluations of the right-hand side or of the zero functions during 5 steps" ) {
    mc::splitAt( 3000 ); mc::setDeviationBound( mc::tier(1,2) ); static const auto vs = allVariants(); const Variant& v = vs[mc::choose( vs.size(), "solver" )]; int k = mc::choose( 3, "system" ), failed; double hh = mc::choose( 2, "step" ) ? 0.6 : 0.05; std::string log; bool imp = v.solver == "i_euler" || v.name == "extrapolator i_euler"; if( imp && hh > 0.5 ) { mc::outcome( "small steps only" ); return; }
    auto ref = run( v, hh, k, 5, false, failed, log ), got = run( v, hh, k, 5, true, failed, log ); double tol = imp ? 1e-7 : 0;
    for( size_t i=0; i<ref.size(); ++i ) { bool eq = imp ? close( got[i].t, ref[i].t, 1e-7 ) && close( got[i].x, ref[i].x, tol, tol ) && got[i].flags == ref[i].flags : got[i].t == ref[i].t && same( got[i].x, ref[i].x ) && got[i].hh == ref[i].hh && got[i].flags == ref[i].flags; MC_CHECK( eq, "continues", v.name << ", system " << k << ", step size " << hh << ", failing" << log << ": step " << i << " of size " << got[i].hh << " ends at " << got[i].t << ", " << str(got[i].x) << " instead of " << ref[i].hh << ", " << ref[i].t << ", " << str(ref[i].x) ); }
    mc::outcome( std::to_string(failed) + " failures" );
    }
}
