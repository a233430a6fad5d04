// O02: acceptance and repetition of adaptive steps.
// FAST: -include @H/lexstub.h
// USES: ctl expl extr ros
#include "oenv.h"
namespace mc { const char *assumptions[] = {
    "a step of a given size with error checks disabled is the reference for the accepted step (its accuracy is decided by O01, O06 and O13); linearly implicit steps are compared to 1e-6 because their Jacobian is a difference quotient", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
const std::vector<Variant>& variants() {
    static std::vector<Variant> v; if( v.empty() ) {
        for( const char *n : {"dopri_45","dopri_56","dopri_78"} ) for( const char *m : {"low","high"} ) v.push_back( variant( std::string(n) + " " + m, n, { {"mode",Value(m)} } ) );
        v.push_back( variant( "extrapolator euler", "extrapolator", { {"reference_solver",Value("euler")}, {"step_sequence",Value("harmonic")}, {"max_stages",Value(3)} } ) );
        v.push_back( variant( "extrapolator gragg", "extrapolator", { {"reference_solver",Value("gragg")}, {"step_sequence",Value("romberg")}, {"max_stages",Value(3)}, {"symmetric",Value(true)} } ) );
        v.push_back( variant( "rosenbrock_sw2_4", "rosenbrock_sw2_4" ) );
        }
    return v;
    }
double lowOrder( const Variant& v ) { static const std::map<std::string,double> m = { {"dopri_45",4}, {"dopri_56",5}, {"dopri_78",7}, {"rosenbrock_sw2_4",2} }; auto i = m.find( v.solver ); return i != m.end() ? i->second : v.name == "extrapolator euler" ? 2 : 4; }
bool linear( const Variant& v ) { return v.solver.substr(0,4) == "rose"; }
std::shared_ptr<FnRhs> sys( const Variant& v ) {
    if( linear(v) ) return std::make_shared<FnRhs>( 1, 1, []( double t, const D& x ) { return D{ -9*x[0] - 3*x[1] + x[2], x[0] - 20*x[2] + t }; } );
    return std::make_shared<FnRhs>( 1, 1, []( double t, const D& x ) { return D{ -std::sin(x[0]) - 0.3*x[1]*x[2], x[0]*x[1] - x[2] + t }; } );
    }
double tol( const Variant& v ) { return linear(v) ? 1e-6 : 1e-13; }
// the state after one step of the given size, by a fresh solver without error control
D fixedStep( const Variant& v, double t, const D& x, double hh ) { Params p; p["disable_error_check"] = true; auto s = make( v, hh, p ); s->setOdeRhs( sys(v) ); s->setInitialState( t, mk(x) ); s->doStep(); return rd( s->initialState() ); }
// One adaptive run. 'answer' is the model of what the controller says for (step, error); the loop is followed call by call.
struct Run {
    const Variant& v; std::shared_ptr<Solver> s; double t; D x; double hh, hmin; int calls = 0, norms = 0; double lastNorm = 0; Ctl::Result last{0,false,false}; bool pending = false;
    std::vector<std::pair<double,Ctl::Result>> attempts;
    Run( const Variant& v_, double t0, double h0, double hmin_ ) : v(v_), t(t0), x{0.5,-0.25,1}, hh(h0), hmin(hmin_) {
        Params p; p["h_min"] = hmin; s = make( v, h0, p ); s->setOdeRhs( sys(v) ); s->setInitialState( t, mk(x) );
        }
    void called( double h_, double e, double o, const Ctl::Result& r ) {
        ++calls; MC_LOG( v.name << ": step " << h_ << " error " << e << " -> " << (r.acceptStep ? "accept" : "reject") << ", next " << r.newStepSize );
        MC_CHECK( h_ == hh, "attempt-size", v.name << ": attempt with step " << h_ << " where " << hh << " was chosen" );
        MC_CHECK( o == lowOrder(v), "order", v.name << ": the controller is told order " << o );
        MC_CHECK( same( e, lastNorm ) && norms == calls, "norm", v.name << ": the controller is given error " << e << ", the norm of this attempt is " << lastNorm );
        attempts.push_back( { h_, r } ); if( r.changeStepSize ) hh = r.newStepSize;
        }
    // one doStep; returns false if it ended with the expected exception
    bool step() {
        attempts.clear(); bool threw = false; std::string what; try { s->doStep(); } catch( const std::exception& e ) { threw = true; what = e.what(); } mc::step();
        MC_CHECK( !attempts.empty(), "no-control", v.name << ": the controller was not asked (" << what << ")" );
        for( size_t i=0; i<attempts.size(); ++i ) { auto& a = attempts[i]; bool tooSmall = a.second.changeStepSize && a.second.newStepSize <= hmin, lastOne = i+1 == attempts.size();
            MC_CHECK( lastOne || (!a.second.acceptStep && !tooSmall), "goes-on", v.name << ": attempts continue after " << (tooSmall ? "the step size fell below the minimum" : "an accepted one") );
            if( lastOne ) { MC_CHECK( a.second.acceptStep || tooSmall, "stops", v.name << ": the step ends after a rejected attempt" ); MC_CHECK( threw == tooSmall, "minimum", v.name << ": step size " << a.second.newStepSize << ", minimum " << hmin << (threw ? ": exception " + what : std::string(": no exception")) ); } }
        auto& a = attempts.back(); D got = rd( s->initialState() ); double T = s->initialTime();
        if( a.second.acceptStep && !(threw && T == t) ) {
            D want = fixedStep( v, t, x, a.first ); MC_CHECK( T == t + a.first, "time", v.name << ": time " << T << " after a step of " << a.first << " from " << t ); MC_CHECK( close( got, want, tol(v), tol(v) ), "state", v.name << ": a step of " << a.first << " from " << str(x) << " gives " << str(got) << " instead of " << str(want) );
            }
        else { MC_CHECK( T == t && same( got, x ), "unchanged", v.name << ": time " << T << " and state " << str(got) << " changed by rejected attempts" ); }
        t = T; x = got; return !threw;
        }
    void finish() { mc::Hash q; q.d(t); hash( q, x ); mc::state( (uint64_t)q ); }
    };
MC_SCENARIO( script, "9 adaptive solvers and modes; all sequences of 4 (quick) / 6 (thorough) controller answers from 6 (accept or reject, keep, grow, reduce, reduce to nothing), 3 minimum step sizes (one of them a size that is reached exactly), 2 start times; a controller may ask for the same step again" ) {
    mc::splitAt( 60 ); const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; int N = mc::tier(4,6); double hmin = mc::pick( std::vector<double>{ 0.012, 1e-16, 0.03125 } );
    Run r( v, mc::flip() ? -2 : 0, 0.125, hmin ); auto c = std::make_shared<SpyCtl>(); auto n = std::make_shared<SpyNorm>();
    n->f = [&]( const D& e ) { MC_CHECK( e.size() == 3, "error-size", v.name << ": error vector of size " << e.size() ); ++r.norms; return r.lastNorm = 0.125*r.norms; };
    c->f = [&]( double h_, double e, double o ) { Ctl::Result R( h_, true, false ); if( r.calls < N ) switch( mc::choose(6,"answer") ) { case 0: break; case 1: R = { h_*2, true, true }; break; case 2: R = { h_*0.5, true, true }; break; case 3: R = { h_*0.5, false, true }; break; case 4: R = { h_*0.1, false, true }; break; case 5: R = { h_*1e-20, false, true }; break; } r.called( h_, e, o, R ); return R; };
    setCtl( r.s, c ); setNorm( r.s, n ); int steps = 0; bool ok = true; while( ok && r.calls < N ) { ok = r.step(); ++steps; }
    if( ok ) ok = r.step();
    mc::outcome( ok ? "runs on" : "minimum reached" ); r.finish();
    }
MC_SCENARIO( norms, "the same solvers with the real controller (4 settings); all sequences of 4 (quick) / 5 (thorough) error norms from 0, within tolerance, slightly above, large, infinite and NaN" ) {
    mc::splitAt( 60 ); const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; int N = mc::tier(4,5), set = mc::choose( 4, "settings" );
    auto real = Factory<Ctl>::newInstance( "simple" ); Params p; if( set == 1 ) p["max_threshold"] = 0.15; if( set == 2 ) { p["tolerance"] = 1e-3; p["inc_max_factor"] = 0.; } if( set == 3 ) { p["dec_max_factor"] = 0.5; p["insurance"] = 1.; } real->setParameters( p ); double T = set == 2 ? 1e-3 : 1e-6;
    Run r( v, 0, 0.0625, 1e-16 ); auto n = std::make_shared<SpyNorm>(); auto c = std::make_shared<SpyCtl>();
    n->f = [&]( const D& ) { ++r.norms; return r.lastNorm = r.calls < N ? mc::pick( std::vector<double>{0,1e-4*T,0.9*T,1.5*T,10,INF,NaN} ) : T/2; };
    c->f = [&]( double h_, double e, double o ) { auto R = real->controlStepSize( h_, e, o ); MC_CHECK( R.acceptStep == (e <= T), "accept", "error " << e << (R.acceptStep ? " accepted" : " rejected") ); r.called( h_, e, o, R ); return R; };
    setCtl( r.s, c ); setNorm( r.s, n ); bool ok = true; while( ok && r.calls < N ) ok = r.step();
    MC_CHECK( ok, "minimum", v.name << ": fails with step size " << r.hh ); mc::outcome( std::to_string( r.norms - r.calls ) ); r.finish();
    }
// the parts as configured by options, the real norm of the real error
MC_SCENARIO( real, "the same solvers with their own norm and controller, tolerances 1e-2 to 1e-10, first steps 1 to 1e-6, 5 steps: every accepted step is the fixed step of its size and its estimate is within the tolerance (for embedded pairs, that of the two fixed steps)" ) {
    mc::splitAt( 30 ); const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; double T = mc::pick( std::vector<double>{1e-2,1e-4,1e-6,1e-8,1e-10} ), h0 = mc::pick( std::vector<double>{1,0.3,0.1,0.01,1e-3,1e-6} );
    Params q; q["tolerance"] = T; Params p; p["stepsizectl"] = Value( "simple", q ); auto s = make( v, h0, p ); s->setOdeRhs( sys(v) ); D x = {0.5,-0.25,1}; double t = 0.5; s->setInitialState( t, mk(x) );
    auto other = v; bool pair = v.params.count("mode") != 0; if( pair ) other.params["mode"] = v.name.find("low") != std::string::npos ? "high" : "low";
    double hh = 0; bool acc = false; double en = 0; int posts = 0; auto hd = s->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { acc = a.stepAccepted(); en = a.errorNorm(); ++posts; (void)hh;
        MC_CHECK( acc == (en <= T*(1+1e-4)) || std::fabs(en/T-1) < 1e-4, "accept", v.name << ": error " << en << ", tolerance " << T << (acc ? " accepted" : " rejected") ); } );
    for( int i=0; i<5; ++i ) { s->doStep(); mc::step(); double d = s->initialTime() - t; D got = rd( s->initialState() ), want = fixedStep( v, t, x, d ); MC_LOG( v.name << ": t " << t << " step " << d << " error " << en );
        MC_CHECK( acc && d > 0, "advance", v.name << ": no advance" ); MC_CHECK( close( got, want, linear(v) ? 1e-6 : 1e-9, linear(v) ? 1e-6 : 1e-9 ), "state", v.name << ": a step of " << d << " gives " << str(got) << " instead of " << str(want) );
        if( pair ) { D o = fixedStep( other, t, x, d ); double e = 0; for( int k=0; k<3; ++k ) e = std::max( e, std::fabs( o[k]-want[k] ) ); MC_CHECK( close( en, e, 1e-6, 1e-14 ), "estimate", v.name << ": error " << en << " but the two solutions differ by " << e ); }
        t = s->initialTime(); x = got; }
    mc::outcome( posts > 5 ? "rejections" : "none" ); mc::state( hashOf(x) );
    }
MC_SCENARIO( disabled, "error checks disabled, with scripted norms of any value, with and without forced error calculation: every step has the initial size, the controller is never asked, the norm only if forced" ) {
    const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; bool force = v.params.count("mode") && mc::flip(); double h0 = mc::pick( std::vector<double>{0.125,0.01,1} ), val = mc::pick( std::vector<double>{0,1,INF,NaN} );
    Params p; p["disable_error_check"] = true; if( force ) p["force_error_calc"] = true; auto s = make( v, h0, p ); s->setOdeRhs( sys(v) ); D x = {0.5,-0.25,1}; double t = -1; s->setInitialState( t, mk(x) );
    auto c = std::make_shared<SpyCtl>(); auto n = std::make_shared<SpyNorm>(); int cc = 0, nn = 0; double seen = -1; c->f = [&]( double h_, double, double ) { ++cc; return Ctl::Result( h_/2, false, true ); }; n->f = [&]( const D& ) { ++nn; return val; }; if( mc::flip() ) { setCtl( s, c ); setNorm( s, n ); } else if( !force ) { setCtl( s, nullptr ); setNorm( s, nullptr ); } else { setCtl( s, nullptr ); setNorm( s, n ); }
    auto hd = s->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { seen = a.errorNorm(); MC_CHECK( a.stepAccepted() && !a.stepSizeChanged(), "flags", v.name << ": step not accepted or changed" ); } );
    for( int i=1; i<=3; ++i ) { s->doStep(); mc::step(); D want = fixedStep( v, t, x, h0 ), got = rd( s->initialState() ); MC_CHECK( s->initialTime() == t + h0, "fixed", v.name << ": time " << s->initialTime() << " after a step of " << h0 << " from " << t ); MC_CHECK( close( got, want, tol(v), tol(v) ), "state", v.name << ": " << str(got) << " instead of " << str(want) );
        MC_CHECK( cc == 0 && nn == (force ? i : 0), "asked", v.name << ": controller asked " << cc << " times, norm " << nn << " times in " << i << " steps" ); MC_CHECK( !force || same( seen, val ), "seen", v.name << ": observers see error " << seen ); t = s->initialTime(); x = got; }
    }
MC_SCENARIO( missing, "an adaptive solver without controller or norm fails with an exception and stays where it is" ) {
    const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; auto s = make( v, 0.1 ); s->setOdeRhs( sys(v) ); D x = {0.5,-0.25,1}; s->setInitialState( 3, mk(x) ); int m = mc::choose( 3 ); if( m != 1 ) setCtl( s, nullptr ); if( m != 0 ) setNorm( s, nullptr );
    std::string w = whatOf( [&]() { s->doStep(); } ); mc::step(); MC_CHECK( !w.empty(), "missing", v.name << ": no exception" ); MC_CHECK( s->initialTime() == 3 && same( rd( s->initialState() ), x ), "unchanged", v.name << ": the state changed" );
    setCtl( s, Factory<Ctl>::newInstance("simple") ); setNorm( s, Factory<Norm>::newInstance("inf") ); s->doStep(); MC_CHECK( s->initialTime() > 3, "then", v.name << ": no step after the parts were set" );
    }
}
