// O11: observers of steps, evaluations and iterations.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl extr ros impl models
#include "oenv.h"
#include "variants.h"
#include "sys.h"
#include "ode_num_int/NewtonSolverInterface.h"
#include "ode_num_int/NewtonDescentDirection.h"
namespace mc { const char *assumptions[] = {
    "the reference is the same run without observers",
    "implicit Euler runs are compared to the nonlinear tolerance, because the iteration may start from another Jacobian after an interruption; all others bit by bit", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
struct Spied { virtual ~Spied() {} std::function<void(double,const D&)> before; std::function<void(const D&)> before2; };
struct PlainS : FnRhs, Spied { using FnRhs::FnRhs; void beforeStep( double t, const V& x ) const { if( before ) before( t, rd(x) ); } void beforeStep2( const V& f ) const { if( before2 ) before2( rd(f) ); } };
struct BounceS : Bounce, Spied { void beforeStep( double t, const V& x ) const { if( before ) before( t, rd(x) ); } void beforeStep2( const V& f ) const { if( before2 ) before2( rd(f) ); } };
std::shared_ptr<FnRhs> system( int k ) { if( k == 2 ) return std::make_shared<BounceS>(); Sys s = k == 0 ? Sys{1,1,0} : Sys{0,2,1}; return std::make_shared<PlainS>( s.n2, s.n1, [s]( double t, const D& x ) { return s.half(t,x); } ); }
D start( int k ) { return k == 0 ? Sys{1,1,0}.x0() : k == 1 ? Sys{0,2,1}.x0() : D{0.06,-0.3,0.5}; }
struct Env { std::shared_ptr<Solver> sv; std::shared_ptr<FnRhs> r; };
Env env( const Variant& v, double hh, int k, bool set ) { Env e; Params ex; e.sv = make( v, hh, ex ); e.r = system( k ); e.sv->setOdeRhs( e.r ); e.sv->setInitialState( 0.25, mk(start(k)) ); if( set ) { e.sv->setInitialStepSize( hh*0.75 ); } return e; }
bool imp( const Variant& v ) { return v.solver == "i_euler" || v.name == "extrapolator i_euler"; }
MC_SCENARIO( steps, "25 solver configurations, 3 systems (one with events), 3 step sizes, 4 histories (new, used, step size set after the state, failed before): 8 steps; every attempt is announced once with its size, time and state, and reported once with the outcome; the system is told of every attempt" ) {
    mc::splitAt( 100 ); static const auto vs = allVariants(); const Variant& v = vs[mc::choose( vs.size(), "solver" )]; int k = mc::choose( 3, "system" ); double hh = mc::pick( std::vector<double>{0.05,0.6,0.01} ); if( imp(v) && hh > 0.5 ) return;
    int hist = mc::choose( 4, "history" ); Env e = env( v, hh, k, hist == 2 ); Solver& sv = *e.sv; std::string what = v.name + ", system " + std::to_string(k) + ", step size " + std::to_string(hh) + ", history " + std::to_string(hist);
    if( hist == 1 || hist == 3 ) { if( hist == 3 ) e.r->failAt = 5; for( int i=0; i<3; ++i ) try { sv.doStep(); } catch( const Injected& ) {} e.r->failAt = -1; e.r = system( k ); sv.setOdeRhs( e.r ); sv.setInitialState( 0.25, mk(start(k)) ); }
    double lastT = 0, firstT = 0; D lastX, firstX; int open = 0, attempts = 0, told = 0, told2 = 0, accepted = 0, plain = 0; double hpre = 0, next = sv.initialStepSize(), t = 0.25, rejected = 0; D x = start(k);
    Spied& spy = dynamic_cast<Spied&>( *e.r ); bool nested = v.solver == "extrapolator" || v.name.find("predictor") != std::string::npos; bool adaptive = v.name == "i_euler with adaptive predictor"; int parts = !nested ? 0 : v.solver == "i_euler" ? 2 : v.name == "extrapolator gragg" ? 3 : 6; bool derivative = v.solver != "gragg" && v.solver != "i_euler" && !nested;
    auto o0 = sv.odeSolverPreObservers.add( [&]( double, const Solver* ) { ++plain; } );
    auto o1 = sv.odeSolverPreObservers.add( [&]( double hs, const Solver *s ) {
        MC_LOG( "before: size " << hs << " at " << s->initialTime() ); MC_CHECK( s == &sv, "solver", what ); MC_CHECK( !open, "pairs", what << ": an attempt is announced before the last one is reported" ); open = 1; ++attempts; hpre = hs; told = told2 = 0;
        if( next == -1 ) MC_CHECK( std::isfinite(hs) && hs > 0 && !(rejected && hs >= rejected), "new-size", what << ": size " << hs << " after a change" ); else MC_CHECK( hs == next, "announced-size", what << ": attempt " << attempts << " announced with size " << hs << " instead of " << next );
        MC_CHECK( s->initialTime() == t && same( rd(s->initialState()), x ), "announced-state", what << ": attempt announced at " << s->initialTime() << ", " << str(rd(s->initialState())) << " instead of " << t << ", " << str(x) ); } );
    spy.before = [&]( double tt, const D& xx ) { lastT = tt; lastX = xx; if( told == 0 ) { firstT = tt; firstX = xx; } MC_CHECK( open, "told", what << ": the system is told of an attempt outside of one" ); ++told; if( !nested && v.name != "gragg smooth" ) MC_CHECK( tt == t && same( xx, x ) , "told-state", what << ": the system is told of an attempt at " << tt << ", " << str(xx) << " instead of " << t << ", " << str(x) ); };
    spy.before2 = [&]( const D& f ) { ++told2; if( nested ) return; D g = e.r->f( t, x ), w( x.begin()+e.r->n2, x.begin()+2*e.r->n2 ); w.insert( w.end(), g.begin(), g.end() ); MC_CHECK( close( f, w, 1e-14, 1e-14 ), "told-value", what << ": the system is told the derivative " << str(f) << " instead of " << str(w) ); };
    auto o2 = sv.odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) {
        MC_CHECK( a.solver() == &sv, "solver", what ); MC_CHECK( open, "pairs", what << ": an attempt is reported that was not announced" ); open = 0; MC_CHECK( a.stepSize() == hpre, "reported-size", what << ": announced with size " << hpre << ", reported with " << a.stepSize() );
        MC_CHECK( adaptive ? told >= 1 : told == parts+1, "told-once", what << ": the system is told " << told << " times of an attempt" ); MC_CHECK( nested || told2 == (derivative ? 1 : 0), "told-once", what << ": the system is told its derivative " << told2 << " times" );
        if( nested ) { bool e = v.solver == "i_euler"; MC_CHECK( e ? lastT == t && same( lastX, x ) : firstT == t && same( firstX, x ), "told-state", what << ": the system is told of an attempt at " << (e ? lastT : firstT) << " instead of " << t ); }
        double t1 = sv.initialTime(); D x1 = rd( sv.initialState() ); MC_LOG( "after: size " << a.stepSize() << (a.stepAccepted() ? " accepted" : " rejected") << (a.stepTruncated() ? " truncated" : "") << (a.stepSizeChanged() ? " changed" : "") << " time " << t1 << " error " << a.errorNorm() );
        if( !a.stepAccepted() ) MC_CHECK( t1 == t && same( x1, x ) && !a.stepTruncated() && a.stepSizeChanged(), "rejected", what << ": a rejected attempt moves the solver" );
        else { ++accepted; if( a.stepTruncated() ) MC_CHECK( k == 2 && t1 >= t && t1 < t+a.stepSize()*(1+1e-12) && a.izfTrunc() == 0 && a.transitionType() == -1, "truncated", what << ": truncated from " << t << " + " << a.stepSize() << " to " << t1 << " by function " << a.izfTrunc() << ", type " << a.transitionType() ); else MC_CHECK( close( t1, t+a.stepSize(), 1e-14 ) && (int)a.izfTrunc() == -1 && a.transitionType() == 0, "advance", what << ": time " << t1 << " after a step of " << a.stepSize() << " from " << t ); }
        MC_CHECK( fixedSize(v) || v.params.count("disable_error_check") ? true : std::isfinite(a.errorNorm()) && a.errorNorm() >= 0, "error", what << ": error norm " << a.errorNorm() ); rejected = a.stepAccepted() ? 0 : a.stepSize(); t = t1; x = x1; next = a.stepSizeChanged() ? -1 : a.stepSize(); } );
    for( int i=0; i<8; ++i ) { accepted = 0; sv.doStep(); mc::step(); MC_CHECK( accepted == 1 && !open, "one-accepted", what << ": a completed step is reported as accepted " << accepted << " times" ); MC_CHECK( sv.initialTime() == t && same( rd(sv.initialState()), x ), "final-state", what << ": time and state after the step differ from those reported" ); }
    MC_CHECK( plain == attempts, "observers", what << ": " << plain << " calls of the second observer for " << attempts << " attempts" ); sv.odeSolverPreObservers.remove( o1 ); sv.odeSolverPostObservers.remove( o2 ); spy.before = nullptr; spy.before2 = nullptr; int a0 = attempts; sv.doStep(); MC_CHECK( attempts == a0 && plain > a0, "observers", what << ": a removed observer is called" ); sv.odeSolverPreObservers.remove( o0 );
    mc::outcome( attempts == 8 ? "no repetitions" : "repetitions" );
    }

struct Pt { double t; D x; }; 
std::vector<Pt> plainRun( const Variant& v, double hh, int k, int n ) { Env e = env( v, hh, k, false ); std::vector<Pt> r{ { e.sv->initialTime(), rd(e.sv->initialState()) } }; for( int i=0; i<n; ++i ) { e.sv->doStep(); r.push_back( { e.sv->initialTime(), rd(e.sv->initialState()) } ); } return r; }
MC_SCENARIO( interrupt, "25 configurations, 3 systems, 2 step sizes: the observer called as number n = 0..13 (before or after an attempt) throws, once or at the next call again; the run is continued and makes the steps of a run without observers; the step whose acceptance is reported is made" ) {
    mc::splitAt( 100 ); static const auto vs = allVariants(); const Variant& v = vs[mc::choose( vs.size(), "solver" )]; int k = mc::choose( 3, "system" ); double hh = mc::pick( std::vector<double>{0.05,0.6} ); if( imp(v) && hh > 0.5 ) return;
    int nth = mc::choose( mc::tier( 14, 30 ), "observer call" ); bool again = mc::flip( "again" ); const int N = 4; auto ref = plainRun( v, hh, k, N ); Env e = env( v, hh, k, false ); Solver& sv = *e.sv; std::string what = v.name + ", system " + std::to_string(k) + ", step size " + std::to_string(hh) + ", observer call " + std::to_string(nth) + (again ? " and the next" : "") + " fails";
    int calls = 0, made = 0, failures = 0; bool accepted = false; auto hit = [&] { int c = calls++; if( c == nth || (again && c == nth+1) ) { ++failures; throw Injected(); } };
    sv.odeSolverPreObservers.add( [&]( double, const Solver* ) { accepted = false; hit(); } ); sv.odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { accepted = a.stepAccepted(); hit(); } );
    bool im = imp( v ); 
    for( int tries=0; made<N; ++tries ) { if( tries > N+3 ) { mc::fail( "progress", what + ": no progress" ); return; } bool threw = false; try { sv.doStep(); } catch( const Injected& ) { threw = true; } mc::step(); if( !threw || accepted ) ++made;
        D x = rd( sv.initialState() ); MC_LOG( (threw ? "failed" : "step") << ", now " << sv.initialTime() << " " << str(x) ); MC_CHECK( close( sv.initialTime(), ref[made].t, im ? 1e-9 : 0 ) && (im ? close( x, ref[made].x, 1e-7, 1e-7 ) : same( x, ref[made].x )), "continued", what << ": after " << made << " steps at " << sv.initialTime() << ", " << str(x) << " instead of " << ref[made].t << ", " << str(ref[made].x) ); }
    mc::outcome( failures == 0 ? "no failure" : failures == 1 ? "one failure" : "two failures" );
    }
MC_SCENARIO( passive, "25 configurations, 3 systems, 2 step sizes: observers of steps, attempts, iterations, Jacobian refreshes and events that read the solver do not change the numbers" ) {
    mc::splitAt( 100 ); static const auto vs = allVariants(); const Variant& v = vs[mc::choose( vs.size(), "solver" )]; int k = mc::choose( 3, "system" ); double hh = mc::pick( std::vector<double>{0.05,0.6} ); if( imp(v) && hh > 0.5 ) return; auto ref = plainRun( v, hh, k, 6 ); Env e = env( v, hh, k, false ); Solver& sv = *e.sv; std::string what = v.name + ", system " + std::to_string(k) + ", step size " + std::to_string(hh); bool open = false; long jac = 0, its = 0;
    auto look = [&] { volatile double s = sv.initialTime(); for( double y : rd( sv.initialState() ) ) s = s + y; (void)sv.parameters(); (void)sv.order(); };
    sv.odeSolverPreObservers.add( [&]( double, const Solver* ) { look(); } ); sv.odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& ) { look(); } ); sv.jacobianRefreshObservers.add( [&]( bool b ) { MC_CHECK( b != open, "jacobian-pairs", what << ": Jacobian refresh " << (b ? "started" : "finished") << " twice" ); open = b; if( b ) ++jac; look(); } ); sv.iterationObservers.add( [&]( unsigned, const NewtonSolverInterface<VD>* ) { ++its; look(); return false; } ); e.r->odeRhsPreObservers.add( [&]( double, const V&, const Rhs* ) { look(); } ); e.r->odeRhsPostObservers.add( [&]( double, const V&, const V&, const Rhs* ) { look(); } );
    for( int i=0; i<6; ++i ) { sv.doStep(); mc::step(); MC_CHECK( !open, "jacobian-pairs", what << ": a Jacobian refresh is not reported as finished" ); MC_CHECK( sv.initialTime() == ref[i+1].t && same( rd(sv.initialState()), ref[i+1].x ), "numbers", what << ": observers change the numbers: " << sv.initialTime() << ", " << str(rd(sv.initialState())) << " instead of " << ref[i+1].t << ", " << str(ref[i+1].x) ); }
    MC_CHECK( (v.solver == "i_euler") == (its > 0), "iterations", what << ": " << its << " iterations reported" ); MC_CHECK( (v.solver == "i_euler" || v.solver.substr(0,4) == "rose") == (jac > 0), "jacobians", what << ": " << jac << " Jacobian refreshes reported" ); mc::outcome( its ? "iterations" : jac ? "Jacobian" : "explicit" );
    }
typedef NewtonSolverInterface<VD> Newton; typedef NewtonDescentDirection<VD> Ddir;
MC_SCENARIO( iterations, "implicit Euler, 6 descent strategies, 2 systems, all sequences of 3 of 7 replacements (none, strategy, iteration performer, Jacobian provider, Newton solver, the same Newton solver, own parameters applied again), observer stopping at iteration 0..2 or never: each iteration and each Jacobian refresh of the Newton solver in use is forwarded exactly once; stopping ends the step with an exception and leaves the state; after that steps are right" ) {
    mc::splitAt( 50 ); const char *dds[] = {"simple","const","broyden","fake-broyden","lazy-fake-broyden","hart"}; const char *dd = dds[mc::choose( 6, "strategy" )]; int k = mc::choose( 2, "system" ); Params p; p["ddir"] = Value( dd ); Variant v = variant( dd, "i_euler", { {"algsolver",newton(1e-11,p)} } ); auto ref = plainRun( v, 0.05, k, 5 ); Env e = env( v, 0.05, k, false ); Solver& sv = *e.sv; auto holder = dynamic_cast<NewtonSolverHolder<VD>*>( e.sv.get() ); std::string hist = dd;
    std::vector<unsigned> fwd; int stop = -1; bool open = false; int jf = 0; sv.iterationObservers.add( [&]( unsigned i, const Newton *n ) { MC_CHECK( n == holder->newtonSolver().get(), "which", hist << ": iterations of another Newton solver are reported" ); fwd.push_back( i ); return (int)fwd.size()-1 == stop; } );
    sv.jacobianRefreshObservers.add( [&]( bool b ) { MC_CHECK( b != open, "jacobian-pairs", hist << ": Jacobian refresh " << (b ? "started" : "finished") << " twice" ); open = b; if( b ) ++jf; } );
    int made = 0; for( int i=0; i<4; ++i ) {
        if( i ) { int a = mc::choose( 7, "replacement" ); auto n = holder->newtonSolver(); const char *nm[] = {"nothing","strategy","iteration performer","Jacobian provider","Newton solver","same Newton solver","own parameters"}; hist += std::string(", ") + nm[a];
            if( a == 1 ) n->setComponent( Factory<Ddir>::newInstance( dd ) ); else if( a == 2 ) { auto ip = Factory<NewtonIterationPerformer<VD>>::newInstance( "default" ); auto old = n->iterationPerformer(); ip->setErrorEstimator( old->errorEstimator() ); ip->setNewtonDescentDirection( old->newtonDescentDirection() ); ip->setNewtonLinearSearch( old->newtonLinearSearch() ); ip->setMapping( old->mapping() ); n->setComponent( ip ); } else if( a == 3 ) n->setComponent( Factory<JacobianProvider<VD>>::newInstance( "sparse" ) ); else if( a == 4 ) sv.setParameters( v.params ); else if( a == 5 ) holder->setNewtonSolver( n ); else if( a == 6 ) sv.setParameters( sv.parameters() ); }
        auto n = holder->newtonSolver(); std::vector<unsigned> own; int jo = 0; auto id = n->iterationObservers.add( [&]( unsigned it, const Newton* ) { own.push_back( it ); return false; } ); auto dir = n->iterationPerformer()->newtonDescentDirection(); auto jd = dir->jacobianRefreshObservers.add( [&]( bool b ) { if( b ) ++jo; } );
        fwd.clear(); jf = 0; if( i == 3 ) stop = mc::choose( 4, "stopped at" ) - 1; bool threw = false; try { sv.doStep(); ++made; } catch( const cxx::exception& ) { threw = true; } mc::step(); n->iterationObservers.remove( id ); dir->jacobianRefreshObservers.remove( jd );
        if( stop >= 0 ) { MC_CHECK( threw || (int)fwd.size() <= stop, "stop", hist << ": a step goes on although the observer of iteration " << stop << " asked to stop" ); if( threw ) MC_CHECK( (int)fwd.size() == stop+1, "stop", hist << ": asked to stop at iteration " << stop << ", " << fwd.size() << " iterations made" ); } else { MC_CHECK( !threw, "throws", hist << ": a step throws" ); std::vector<unsigned> w; for( unsigned j=0; j<own.size(); ++j ) w.push_back( j ); MC_CHECK( fwd == own && own == w && !own.empty(), "forwarded", hist << ": " << own.size() << " iterations, " << fwd.size() << " of them reported" ); MC_CHECK( jf == jo, "jacobians", hist << ": " << jo << " Jacobian refreshes, " << jf << " of them reported" ); }
        MC_CHECK( !open, "jacobian-pairs", hist << ": Jacobian refresh not finished" ); D x = rd( sv.initialState() ); MC_CHECK( close( sv.initialTime(), ref[made].t, 1e-14 ) && close( x, ref[made].x, 1e-7, 1e-7 ), "state", hist << ": after " << made << " steps at " << sv.initialTime() << ", " << str(x) << " instead of " << str(ref[made].x) ); mc::outcome( threw ? "stopped" : "completed" ); }
    if( made < 4 ) { stop = -1; sv.doStep(); ++made; D x = rd( sv.initialState() ); MC_CHECK( close( sv.initialTime(), ref[made].t, 1e-14 ) && close( x, ref[made].x, 1e-7, 1e-7 ), "state", hist << ": a step after one that was stopped gives " << str(x) << " instead of " << str(ref[made].x) ); }
    }

MC_SCENARIO( evaluations, "the 5 test models, 7 solvers, 3 steps: each evaluation of the right-hand side is reported before and after it, with its time, argument and value, to every observer in the order in which they were added; one is removed half-way" ) {
    const char *ms[] = {"oscillator","coupled_nl_osc","stiff_1d","sliding_point","bouncing_ball"}; const char *m = ms[mc::choose( 5, "model" )]; static const auto vs = variants(); const Variant& v = vs[mc::pick( std::vector<int>{0,1,2,7,8,9,13} )]; auto r = Factory<Rhs>::newInstance( m ); auto twin = Factory<Rhs>::newInstance( m ); auto sv = make( v, 0.001, Params() ); std::string what = std::string(m) + " with " + v.name; sv->setOdeRhs( r ); D x0( r->varCount() ); for( unsigned i=0; i<x0.size(); ++i ) x0[i] = 0.5+0.125*i; sv->setInitialState( 0.25, mk(x0) );
    std::vector<std::string> log; double t0 = 0; D xs; long n = 0;
    auto i1 = r->odeRhsPreObservers.add( [&]( double t, const V& x, const Rhs *s ) { MC_CHECK( s == r.get(), "which", what << ": another system reported" ); log.push_back( "pre1" ); t0 = t; xs = rd(x); } ); auto i2 = r->odeRhsPreObservers.add( [&]( double, const V&, const Rhs* ) { log.push_back( "pre2" ); } );
    auto i3 = r->odeRhsPostObservers.add( [&]( double t, const V& x, const V& f, const Rhs *s ) { ++n; log.push_back( "post1" ); MC_CHECK( s == r.get() && t == t0 && same( rd(x), xs ), "argument", what << ": evaluation announced for " << t0 << ", " << str(xs) << ", reported for " << t << ", " << str(rd(x)) ); MC_CHECK( same( rd(f), rd(twin->rhs( t, x )) ), "value", what << ": reported value " << str(rd(f)) ); } ); auto i4 = r->odeRhsPostObservers.add( [&]( double, const V&, const V&, const Rhs* ) { log.push_back( "post2" ); } ); (void)i2; (void)i4;
    for( int i=0; i<3; ++i ) { log.clear(); long n0 = n; if( i == 2 ) { r->odeRhsPreObservers.remove( i1 ); r->odeRhsPostObservers.remove( i3 ); } sv->doStep(); mc::step(); std::vector<std::string> unit = i == 2 ? std::vector<std::string>{"pre2","post2"} : std::vector<std::string>{"pre1","pre2","post1","post2"}; MC_CHECK( !log.empty() && log.size() % unit.size() == 0, "pairs", what << ": " << log.size() << " calls" ); for( unsigned j=0; j<log.size(); ++j ) MC_CHECK( log[j] == unit[j%unit.size()], "order", what << ": call " << j << " is " << log[j] ); if( i < 2 ) MC_CHECK( (size_t)(n-n0)*4 == log.size(), "pairs", what ); }
    mc::outcome( m );
    }
}
