// O09: a solver that is given a new initial state behaves like a new solver.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl extr ros impl
#include "oenv.h"
#include <cstring>
#include "variants.h"
#include "sys.h"
#include "ode_num_int/VectorReorderingMapping.h"
namespace mc { const char *assumptions[] = {
    "the new solver is built from the same options, given the same system, step size and initial state, and compared bit by bit: time, state, step sizes and flags reported to observers, and points at which the right-hand side is evaluated",
    "systems keep no state of their own", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
struct Setup { int k; std::shared_ptr<FnRhs> rhs() const { if( k == 2 ) return std::make_shared<Bounce>(); return sys().rhs(); } Sys sys() const { return k == 0 ? Sys{1,1,0} : k == 1 ? Sys{0,2,1} : Sys{0,2,0}; } D x0() const { if( k == 2 ) return D{0.06,-0.3,0.5}; return sys().x0(); } };
struct Trace { std::vector<double> v; void add( double x ) { v.push_back( x ); } void add( const D& x ) { for( double y : x ) v.push_back( y ); } };
// steps with everything observable recorded; an exception is recorded as well
Trace run( Solver& sv, FnRhs& r, int n, bool withEvals, bool must = false ) {
    Trace t; r.onEval = [&]( double tt, const D& x ) { if( withEvals ) { t.add( tt ); t.add( x ); } }; auto ob = sv.odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { t.add( a.stepSize() ); t.add( a.stepAccepted()*8+a.stepSizeChanged()*4+a.stepTruncated() ); t.add( a.errorNorm() ); t.add( a.izfTrunc() ); t.add( a.transitionType() ); } );
    for( int i=0; i<n; ++i ) { try { sv.doStep(); } catch( const std::exception& e ) { t.add( -77 ); if( must ) mc::fail( "new", std::string("a new solver fails: ") + e.what() ); } mc::step(); t.add( sv.initialTime() ); t.add( rd( sv.initialState() ) ); } r.onEval = nullptr; sv.odeSolverPostObservers.remove( ob ); return t; }
// options changed: w = 0 its own, 1 nested parts, 2 the reordering
int kinds( const Variant& v ) { return v.solver == "i_euler" ? 3 : v.solver == "extrapolator" ? 2 : 1; }
Params other( const Variant& v, int w ) { Params p; bool e = v.solver == "i_euler";
    if( w == 2 ) { p["reorder"] = Value( "reverse" ); return p; }
    if( w == 1 ) { if( e ) { p["algsolver"] = newton( 1e-6 ); if( v.params.count("predictor") ) p["predictor"] = Value( "rk4" ); } else p["reference_solver"] = Value( v.params.at("reference_solver").value<std::string>() == "rk4" ? "euler" : "rk4" ); return p; }
    if( e ) p["alpha"] = 0.75; else if( v.solver == "gragg" ) p["smooth"] = v.params.count("smooth") == 0; else if( v.solver == "extrapolator" ) p["max_stages"] = 4; else if( v.solver.substr(0,4) == "rose" ) p["d"] = 0.7; else if( v.solver.substr(0,5) == "dopri" ) p["disable_error_check"] = v.params.count("disable_error_check") == 0; p["h_min"] = 1e-9; return p; }
Params restore( const Variant& v, int mask = 1 ) { Params p; bool e = v.solver == "i_euler";
    if( mask & 1 ) { p["h_min"] = 1e-16; if( e ) p["alpha"] = v.params.count("alpha") ? 0.5 : 1.; else if( v.solver == "gragg" ) p["smooth"] = v.params.count("smooth") != 0; else if( v.solver == "extrapolator" ) p["max_stages"] = v.params.at("max_stages"); else if( v.solver.substr(0,4) == "rose" ) p["d"] = 1.; else if( v.solver.substr(0,5) == "dopri" ) p["disable_error_check"] = v.params.count("disable_error_check") != 0; }
    if( mask & 2 ) for( const char *n : {"reference_solver","algsolver","predictor"} ) if( v.params.count(n) ) p[n] = v.params.at(n);
    if( mask & 4 ) p["reorder"] = Value( "" ); return p; }
struct Reverse : VectorReorderingMapping<VD>, FactoryMixin< Reverse, VectorReorderingMapping<VD> > { void maybeInit() { if( !this->mapping() ) return; std::vector<unsigned> o; for( unsigned i=this->mapping()->inputSize(); i-->0; ) o.push_back( i ); setInputOrdering( o ); setOutputOrdering( o ); } };
Reverse::Registrator regReverse( "reverse" );
MC_SCENARIO( reuse, "25 solver configurations, every history of 2 (quick) / 3 (thorough) operations from 9 (two steps, steps that throw or yield NaN at the 1st, 2nd, 3rd or 6th evaluation, larger and smaller steps, other options, parts or order of variables, each of 3 other systems, one with events), 3 systems, 4 orders of setting system, step size and state, or the same system kept: 4 steps agree bit by bit with those of a new solver" ) {
    mc::splitAt( 500 ); static const auto vs = allVariants(); int iv = mc::choose( vs.size(), "solver" ); const Variant& v = vs[iv]; int N = mc::tier(2,3); Setup cur{ 2 - (int)mc::choose( mc::tier(2,3), "first system" ) }; const double h0 = 0.1; auto sv = make( v, h0 ); auto r = cur.rhs(); sv->setOdeRhs( r ); sv->setInitialState( 0.25, mk(cur.x0()) ); std::string what = v.name; int changed = 0;
    auto attempt = [&]( int n ) { for( int i=0; i<n; ++i ) { try { sv->doStep(); } catch( const std::exception& ) {} } mc::step(); };
    for( int i=0; i<N; ++i ) { int op = mc::choose( 9, "history" ); what += " " + std::to_string(op); switch( op ) { case 0: attempt( 2 ); break; case 1: { static const int at[] = {0,1,2,5}; int f = at[mc::choose(4,"fail")]; bool nan = mc::flip("nan"); what += (nan ? "n" : ".") + std::to_string(f); (nan ? r->nanAt : r->failAt) = r->evals+f; attempt( 1 ); r->failAt = r->nanAt = -1; break; } case 2: sv->setInitialStepSize( 0.37 ); attempt( 1 ); break; case 3: sv->setInitialStepSize( 0.004 ); attempt( 1 ); break; case 4: { int w = mc::choose( kinds(v), "options" ); what += "." + std::to_string(w); changed |= 1<<w; sv->setParameters( other(v,w) ); } attempt( 1 ); break;
        case 5: { D x = rd( sv->initialState() ); for( double& y : x ) y *= 0.5; sv->setInitialState( sv->initialTime()+1, mk(x), true ); attempt( 1 ); break; } default: cur.k = op-6; r = cur.rhs(); sv->setOdeRhs( r ); sv->setInitialState( -3, mk(cur.x0()) ); attempt( 2 ); } }
    int was = cur.k; cur.k = mc::choose( 3, "system" ); int order = mc::choose( cur.k == was ? 5 : 4, "order" ); if( order < 4 || changed ) sv->setParameters( restore( v, order < 4 ? changed|1 : changed ) ); if( order < 4 ) r = cur.rhs(); double hh = mc::thorough() && mc::flip() ? 0.02 : h0; D x = cur.x0();
    if( order == 4 ) { sv->setInitialState( 0.5, mk(x) ); sv->setInitialStepSize( hh ); } else if( order == 0 ) { sv->setOdeRhs( r ); sv->setInitialStepSize( hh ); sv->setInitialState( 0.5, mk(x) ); } else if( order == 1 ) { sv->setOdeRhs( r ); sv->setInitialState( 0.5, mk(x) ); sv->setInitialStepSize( hh ); } else if( order == 2 ) { sv->setInitialState( 0.5, mk(x) ); sv->setOdeRhs( r ); sv->setInitialStepSize( hh ); } else { sv->setInitialStepSize( hh ); sv->setInitialState( 0.5, mk(x) ); sv->setOdeRhs( r ); }
    auto f = make( v, hh, restore(v) ); auto rf = cur.rhs(); f->setOdeRhs( rf ); f->setInitialState( 0.5, mk(x) ); auto a = run( *sv, *r, 4, true ), b = run( *f, *rf, 4, true, true ); size_t k = 0; while( k < a.v.size() && k < b.v.size() && !std::memcmp( &a.v[k], &b.v[k], 8 ) ) ++k;
    MC_CHECK( k == a.v.size() && k == b.v.size(), "differs", what << ", system " << cur.k << ", order " << order << ": record " << k << " of " << b.v.size() << " (" << a.v.size() << "): " << (k < a.v.size() ? a.v[k] : 0) << " instead of " << (k < b.v.size() ? b.v[k] : 0) << "; final state " << str(rd(sv->initialState())) << " instead of " << str(rd(f->initialState())) ); mc::Hash q; for( double d : b.v ) q.d( d ); mc::state( (uint64_t)q ); mc::outcome( "system " + std::to_string(cur.k) );
    }
MC_SCENARIO( system, "the same solvers without step size adaptation: the system replaced by another of the same structure after 0 to 3 steps, with and without a step that fails before: the next 3 steps are those of a new solver started there" ) {
    static const auto vs = allVariants(); const Variant& v = vs[mc::choose( vs.size(), "solver" )]; if( !fixedSize(v) && v.solver != "rosenbrock_sw2_4" ) { mc::outcome( "adaptive" ); return; } Params ex; if( !fixedSize(v) ) ex["disable_error_check"] = true; int st = mc::choose( 3 ), n = mc::choose( 4 ); Sys a{ st == 0 ? 1u : 0u, st == 1 ? 2u : 1u, 0 }, b = a; b.kind = 1; bool fail = mc::flip("fail");
    auto sv = make( v, 0.02, ex ); auto r = a.rhs(), rb = b.rhs(); sv->setOdeRhs( r ); sv->setInitialState( 0.25, mk(a.x0()) ); for( int i=0; i<n; ++i ) { sv->doStep(); mc::step(); } if( fail ) { r->failAt = r->evals + mc::choose( 3 ); try { sv->doStep(); } catch( const std::exception& ) {} }
    sv->setOdeRhs( rb ); auto f = make( v, 0.02, ex ); auto rf = b.rhs(); f->setOdeRhs( rf ); f->setInitialState( sv->initialTime(), sv->initialState() ); bool ros = v.solver.substr(0,4) == "rose" || v.name == "extrapolator rosenbrock"; double tol = v.solver == "i_euler" || v.name == "extrapolator i_euler" ? 1e-7 : 1e-12;
    for( int i=0; i<3; ++i ) { sv->doStep(); f->doStep(); mc::step(); D x = rd( sv->initialState() ), y = rd( f->initialState() ); MC_CHECK( close( x, y, tol, tol ) && close( sv->initialTime(), f->initialTime(), 1e-14 ), "system", v.name << ": " << nameOf(b) << " set after " << n << " steps" << (fail ? " and a failure" : "") << ": " << str(x) << " instead of " << str(y) ); } (void)ros; mc::outcome( "ok" );
    }
MC_SCENARIO( resized, "the solvers that keep their step size and whose steps do not depend on earlier ones (euler, rk4, embedded pairs without error check, gragg): all sequences of 5 step sizes out of the same again, twice, half or 0.3 times the last, set before or after the state is set again softly (gragg: also without setting it): each step is that of a new solver of this size" ) {
    static const auto vs = allVariants(); const Variant& v = vs[mc::choose( vs.size(), "solver" )]; bool emb = v.solver.substr(0,5) == "dopri"; if( !(v.solver == "euler" || v.solver == "rk4" || v.name == "gragg" || v.name == "extrapolator gragg" || emb) ) return; int k = mc::choose( 2, "system" ); Setup s{k}; Params ex; if( emb ) ex["disable_error_check"] = true; double hh = 0.1; auto sv = make( v, hh, ex ); sv->setOdeRhs( s.rhs() ); sv->setInitialState( 0.25, mk(s.x0()) ); std::string what = v.name;
    for( int i=0; i<5; ++i ) { if( i ) { double f = mc::pick( std::vector<double>{1,2,0.5,0.3} ); hh *= f; what += " *" + std::to_string(f).substr(0,3); if( f != 1 ) { double t = sv->initialTime(); V x = sv->initialState(); int how = mc::choose( v.name == "gragg" ? 3 : 2, "how" ); what += how == 0 ? " before" : how == 1 ? " after" : ""; if( how == 0 ) sv->setInitialStepSize( hh ); if( how < 2 ) sv->setInitialState( t, x, true ); if( how ) sv->setInitialStepSize( hh ); } }
        auto f = make( v, hh, ex ); f->setOdeRhs( s.rhs() ); f->setInitialState( sv->initialTime(), sv->initialState() ); bool fresh = v.name != "gragg" || i == 0 || what.compare( what.size()-3, 3, "1.0" ) != 0; sv->doStep(); f->doStep(); mc::step(); MC_LOG( what << ": " << str(rd(sv->initialState())) ); if( !fresh ) continue; MC_CHECK( sv->initialTime() == f->initialTime() && same( rd(sv->initialState()), rd(f->initialState()) ), "resized", what << ": a step of " << hh << " ends at " << sv->initialTime() << ", " << str(rd(sv->initialState())) << " instead of " << f->initialTime() << ", " << str(rd(f->initialState())) ); }
    mc::outcome( v.name );
    }
MC_SCENARIO( softly, "25 solver configurations, a linear system with one kind of event, 0 to 4 (thorough 8) steps from one of 5 states, then one of 5 states (on either side of the surface, rising or falling, or on it) at an earlier, the same or a later time set softly, twice in a row: the next 3 steps end where those of a new solver end that begins with the same step size, with the same events" ) {
    static const auto vs = allVariants(); const Variant& v = vs[mc::choose( vs.size(), "solver" )]; static const std::vector<D> xs{ {0.06,-0.3,0.5}, {-0.2,-0.3,0.5}, {0.3,0.4,-1}, {-0.1,0.5,0.2}, {0,-0.5,0} }; double h0 = 0.05; auto r = std::make_shared<Bounce>(); auto sv = make( v, h0 ); sv->setOdeRhs( r ); sv->setInitialState( 0.25, mk( xs[mc::choose(5,"first state")] ) ); std::string what = v.name;
    double tol = v.solver == "i_euler" || v.name == "extrapolator i_euler" ? 1e-6 : v.solver.substr(0,4) == "rose" || v.name == "extrapolator rosenbrock" ? 1e-5 : 1e-12; int n = mc::choose( mc::tier(5,9), "steps" );
    for( int round=0; round<2; ++round ) {
        for( int i=0; i<(round ? 3 : n); ++i ) { sv->doStep(); mc::step(); }
        D x = xs[mc::choose( 5, "state" )]; double t = sv->initialTime() + mc::pick( std::vector<double>{0,-1,2.5} ), first = 0; what += " -> " + str(x); sv->setInitialState( t, mk(x), true );
        std::string a, b; auto o1 = sv->odeSolverPreObservers.add( [&]( double q, const Solver* ) { if( first == 0 ) first = q; } ), o2 = sv->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& q ) { if( q.stepTruncated() ) a += " event " + std::to_string( (int)q.izfTrunc() ) + "/" + std::to_string( q.transitionType() ); else if( q.stepAccepted() ) a += " step"; } );
        std::vector<D> got; std::vector<double> ts; for( int i=0; i<3; ++i ) { sv->doStep(); mc::step(); got.push_back( rd(sv->initialState()) ); ts.push_back( sv->initialTime() ); } sv->odeSolverPreObservers.remove( o1 ); sv->odeSolverPostObservers.remove( o2 );
        auto f = make( v, first ); f->setOdeRhs( std::make_shared<Bounce>() ); f->setInitialState( t, mk(x) ); f->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& q ) { if( q.stepTruncated() ) b += " event " + std::to_string( (int)q.izfTrunc() ) + "/" + std::to_string( q.transitionType() ); else if( q.stepAccepted() ) b += " step"; } );
        for( int i=0; i<3; ++i ) { f->doStep(); D w = rd( f->initialState() ); MC_LOG( what << ": " << ts[i] << " " << str(got[i]) ); MC_CHECK( close( ts[i], f->initialTime(), tol, tol ) && close( got[i], w, tol, tol ), "softly", what << ": step " << i << " ends at " << ts[i] << ", " << str(got[i]) << " (" << a << ") instead of " << f->initialTime() << ", " << str(w) << " (" << b << ")" ); }
        MC_CHECK( a == b, "events", what << ":" << a << " instead of" << b ); mc::outcome( a );
        }
    }
}
