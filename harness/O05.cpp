// O05: event handling in every solver.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl extr ros impl
#include "oenv.h"
#include "evmodel.h"
#include "variants.h"
namespace mc { const char *assumptions[] = {
    "the systems move with piecewise constant or piecewise linear velocity, so that every method follows them exactly (to 1e-6 for implicit ones) and event times are known; event location itself is decided by O04",
    nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h; typedef OdeRhs<VD> R;
// variable 0 moves with the velocity of the phase; the others are constant, or (pair) a position with the velocity of the phase and that velocity as state
struct PhaseRhs : R {
    unsigned nz; bool pair; D vel; std::vector<unsigned> flags; D bound; int switches = 0, phase = 0; double tSwitch = 0; D xSwitch; std::vector<int> trans; std::function<void(V&)> act; mutable std::vector<int> phasesSeen; mutable std::vector<double> times;
    PhaseRhs( unsigned nz_, bool p ) : nz(nz_), pair(p), vel{1.0,0.5} {}
    unsigned secondOrderVarCount() const { return pair ? 1 : 0; } unsigned firstOrderVarCount() const { return pair ? 1 : 2; } unsigned zeroFuncCount() const { return nz; } std::vector<unsigned> zeroFuncFlags() const { return flags; }
    unsigned last() const { return pair ? 2 : 1; }
    void rhs( V& f, double t, const V& x ) const { phasesSeen.push_back( phase ); times.push_back( t ); f.resize( x.size() ); if( pair ) { f[0] = x.at(1); f[1] = 0; f[2] = vel[1]; } else { f[0] = vel[0]; f[1] = vel[1]; } }
    void zeroFunctions( V& d, double, const V& x ) const { d.resize( nz ); for( unsigned i=0; i<nz; ++i ) d[i] = x.at( i ? last() : 0 ) - bound[i]; }
    void switchPhaseState( const int *tr, double t, V& x ) { ++switches; ++phase; trans.assign( tr, tr+nz ); tSwitch = t; xSwitch = rd(x); act( x ); }
    };
struct Plan { double v0, v1, jump; };
void run( unsigned nz, int steps, bool wide ) {
    const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; bool pair = mc::flip("pair"); auto r = std::make_shared<PhaseRhs>( nz, pair );
    double tol = v.solver == "i_euler" ? 1e-7 : 1e-11; int dir = mc::choose( 3, "direction" ), re = mc::choose( 2, "recompute" ); for( unsigned i=0; i<nz; ++i ) { r->flags.push_back( (i ? 3u : dir+1u) | (re ? 4u : 0u) ); r->bound.push_back( i ? 0.3 : 0.45 ); }
    if( dir == 1 ) { r->vel[0] = -1; r->bound[0] = -0.45; }       // towards the bound
    double h0 = wide ? mc::pick( std::vector<double>{0.25,0.1} ) : 0.25, hsw = v.solver.substr(0,5) == "dopri" && mc::flip("h_after_switch") ? 0.0625 : 0;
    Params p; if( hsw > 0 ) p["h_after_switch"] = hsw; if( !fixedSize(v) ) { Params q; q["tolerance"] = 1e-6; q["inc_max_factor"] = 1.5; q["max_threshold"] = 0.5; p["stepsizectl"] = Value( "simple", q ); }
    auto s = make( v, h0, p ); s->setOdeRhs( r ); double t = 0; D x = pair ? D{0,r->vel[0],0} : D{0,0}; s->setInitialState( t, mk(x) );
    auto z = [&]( const D& x ) { D q; for( unsigned i=0; i<nz; ++i ) q.push_back( x[i ? r->last() : 0] - r->bound[i] ); return q; }; EvModel m; m.init( r->flags, z(x) );
    Plan plan{0,0,0}; std::vector<Plan> plans = wide ? std::vector<Plan>{ {1,0.5,0}, {-1,0.5,0}, {-1,-0.5,-0.2}, {0,1,-0.2}, {2,0.5,0.2}, {-0.5,0.5,0} } : std::vector<Plan>{ {-1,0.5,0}, {1,0.5,0} };
    r->act = [&]( V& x ) { plan = mc::pick( plans ); r->vel = { plan.v0, plan.v1 }; if( pair ) x[1] = plan.v0; x[0] += plan.jump; };
    int posts = 0; OdeSolverPostObserverArg<VD> arg; std::vector<double> attempts; auto hd = s->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { ++posts; arg = a; } ); int events = 0;
    for( int k=0; k<steps; ++k ) {
        if( wide && k == 2 && mc::flip("restart") ) { t = 10; x[0] = dir == 1 ? 2 : -2; s->setInitialState( t, mk(x) ); m.init( r->flags, z(x) ); }
        int sw = r->switches, ph = r->phase; posts = 0; r->phasesSeen.clear(); D vel = r->vel; if( pair ) vel[0] = x[1]; std::string what = whatOf( [&]() { s->doStep(); } ); mc::step(); MC_CHECK( what.empty(), "fails", v.name << ": " << what );
        MC_CHECK( posts >= 1 && arg.stepAccepted(), "accepted", v.name << ": " << posts << " reports" ); double hh = arg.stepSize(); D e = x; e[0] += vel[0]*hh; e[r->last()] += vel[1]*hh; D got = rd( s->initialState() ); double T = s->initialTime(); D zz = z(e);
        MC_LOG( v.name << " t=" << t << " " << str(x) << " step " << hh << " -> " << T << " " << str(got) << (arg.stepTruncated() ? " truncated" : "") );
        // whether a step that ends on the boundary up to rounding crosses it is not decided here (see O04)
        for( double q : zz ) if( std::fabs(q) < 1e-6 ) { mc::outcome( "ends on the boundary" ); return; }
        double tm = 2; bool due = false; for( unsigned i=0; i<nz; ++i ) if( m.fires(i,zz[i]) ) { due = true; tm = std::min( tm, m.where(i,zz[i]) ); }
        MC_CHECK( T >= t, "backwards", v.name << ": time goes from " << t << " to " << T );
        MC_CHECK( r->switches - sw == (due ? 1 : 0), "switches", v.name << ": the phase was switched " << r->switches - sw << " times in a step from " << str(x) << " at " << t << " to " << str(e) << ", bounds " << str(r->bound) );
        MC_CHECK( arg.stepTruncated() == due, "truncated", v.name << ": step reported as " << (due ? "not " : "") << "truncated" );
        if( !due ) { MC_CHECK( close( T, t+hh, 1e-14, 1e-14 ), "time", v.name << ": time " << T << " after a step of " << hh << " from " << t ); MC_CHECK( close( got, e, tol, tol ), "state", v.name << ": " << str(got) << " instead of " << str(e) ); m.none( zz ); MC_CHECK( arg.izfTrunc() == ~0u && arg.transitionType() == 0, "report", v.name << ": event reported without one" ); }
        else {
            ++events; unsigned iz = arg.izfTrunc(); MC_CHECK( iz < nz && m.fires(iz,zz[iz]) && m.where(iz,zz[iz]) <= tm+1e-5, "which", v.name << ": event of function " << iz << " reported" ); double tt = m.where(iz,zz[iz]); int ty = m.type(iz,zz[iz]);
            MC_CHECK( close( T, t+hh*tt, tol, tol ) && r->tSwitch == T, "event-time", v.name << ": event at " << T << " instead of " << t+hh*tt ); D at = x; for( size_t i=0; i<at.size(); ++i ) at[i] = x[i]*(1-tt)+e[i]*tt; MC_CHECK( close( r->xSwitch, at, tol, tol ), "event-state", v.name << ": state " << str(r->xSwitch) << " at the switch instead of " << str(at) );
            MC_CHECK( arg.transitionType() == ty && r->trans[iz] == ty, "type", v.name << ": transition " << arg.transitionType() << " reported, " << r->trans[iz] << " given to the system, instead of " << ty );
            D after = r->xSwitch; if( pair ) after[1] = plan.v0; after[0] += plan.jump; MC_CHECK( same( got, after ), "takes-over", v.name << ": state " << str(got) << " after the switch instead of " << str(after) );
            m.event( iz, zz, tt, ty, z(got) );
            }
        // the right-hand side during the step is that of the phase before the switch; only evaluations after it (for the next step) may be of the new one
        bool newSeen = false; for( int q : r->phasesSeen ) { MC_CHECK( q == ph || (due && q == ph+1), "phase", v.name << ": right-hand side of phase " << q << " in a step that started in phase " << ph ); if( q != ph ) newSeen = true; else MC_CHECK( !newSeen, "phase-order", v.name << ": phases mixed" ); }
        t = T; x = got;
        // the size of the next step
        if( fixedSize(v) && k+1 < steps ) { double want = hsw > 0 && events && h0 > hsw ? hsw : h0; (void)want; }
        }
    mc::outcome( std::to_string(events) + " events" ); mc::Hash q; q.d(t); hash( q, x ); mc::state( (uint64_t)q );
    }
MC_SCENARIO( one, "16 solver variants, a first order and a second order system with one switching function, 3 directions, recomputed or not, 2 step sizes, step size after a switch set or not; at each event 6 choices of velocity and jump; 6 (quick) / 8 (thorough) steps with an optional restart elsewhere" ) { mc::splitAt( 100 ); run( 1, mc::tier(6,8), true ); }
MC_SCENARIO( two, "the same with two switching functions crossing at different times, 2 choices at each event, 8 (quick) / 11 (thorough) steps" ) { mc::splitAt( 100 ); run( 2, mc::tier(8,11), false ); }
// the step size after a switch
MC_SCENARIO( sizes, "the step size after a switch: the configured one if smaller, otherwise the one chosen before; fixed size solvers keep theirs" ) {
    const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; bool dopri = v.solver.substr(0,5) == "dopri"; double hsw = dopri ? mc::pick( std::vector<double>{0,0.03125,0.4} ) : 0; auto r = std::make_shared<PhaseRhs>( 1, false ); r->flags = {2}; r->bound = {0.45}; r->act = [&]( V& ) { r->vel[0] = -1; };
    Params p; if( dopri ) p["h_after_switch"] = hsw; bool fx = fixedSize(v); if( !fx ) { Params q; q["max_threshold"] = 0.25; p["stepsizectl"] = Value( "simple", q ); } auto s = make( v, 0.25, p ); s->setOdeRhs( r ); s->setInitialState( 0, mk( D{0,0} ) ); D sizes; auto hd = s->odeSolverPreObservers.add( [&]( double hh, const Solver* ) { sizes.push_back( hh ); } );
    for( int k=0; k<3; ++k ) { s->doStep(); mc::step(); } MC_CHECK( r->switches == 1 && sizes.size() == 3, "events", v.name << ": " << r->switches << " events in " << sizes.size() << " attempts" );
    MC_CHECK( sizes[1] == 0.25, "before", v.name << ": step size " << sizes[1] << " before the event" ); double want = hsw > 0 && hsw < 0.25 ? hsw : 0.25; MC_CHECK( sizes[2] == want, "after", v.name << ": step size " << sizes[2] << " after the switch instead of " << want );
    }
// systems with modes: every step is the step a fresh solver of the frozen mode would make, cut at the crossing
struct ModeRhs : R {
    int mode; bool zf, sameJ, lin = false; int switches = 0, next = 0; std::function<int()> pick; mutable std::vector<int> seen;
    ModeRhs( int m, bool z, bool j ) : mode(m), zf(z), sameJ(j) {}
    unsigned secondOrderVarCount() const { return 1; } unsigned firstOrderVarCount() const { return 1; } unsigned zeroFuncCount() const { return zf ? 2 : 0; } std::vector<unsigned> zeroFuncFlags() const { return std::vector<unsigned>( zf ? 2 : 0, 3u ); }
    void rhs( V& f, double t, const V& x ) const { seen.push_back( mode ); static const double k[] = {1,6,0.2}, c[] = {2,-3,0.5}; f.resize( 3 ); double K = k[sameJ ? 0 : mode]; f[0] = x.at(1); f[1] = -K*x[0] - 0.4*x[1] + c[mode] + 0.3*t; f[2] = K*x[0] - x[2] - c[mode]; }
    void zeroFunctions( V& d, double, const V& x ) const { d.resize( 2 ); d[0] = x.at(0) - 0.13; d[1] = lin ? -x[2] - 0.265 : x[2]*x[2] - 0.07; }
    void switchPhaseState( const int*, double, V& x ) { ++switches; mode = pick(); x[1] = -0.5*x[1]; }
    };
MC_SCENARIO( modes, "16 solver variants on a system with three modes and two switching functions, the next mode chosen freely at each event, 3 step sizes, 6 (quick) / 9 (thorough) steps: every step equals that of a fresh solver of the mode, cut where the switching functions cross" ) {
    mc::splitAt( 60 ); const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; bool ros = v.solver.substr(0,4) == "rose", gragg = v.solver == "gragg"; double h0 = mc::pick( std::vector<double>{0.1,0.2,0.05} ); auto r = std::make_shared<ModeRhs>( 0, true, ros ); r->pick = [&]() { return mc::choose( 3, "mode" ); };
    double tol = v.solver == "i_euler" ? 1e-5 : ros ? 1e-6 : 1e-12; Params p; if( !fixedSize(v) ) { Params q; q["tolerance"] = 1e6; q["inc_max_factor"] = 1.; p["stepsizectl"] = Value( "simple", q ); }
    auto s = make( v, h0, p ); s->setOdeRhs( r ); double t = 0.5; D x{0,1,-0.4}; s->setInitialState( t, mk(x) ); bool fresh = true; int events = 0; r->lin = gragg; auto z = [gragg]( const D& x ) { return D{ x[0] - 0.13, gragg ? -x[2] - 0.265 : x[2]*x[2] - 0.07 }; }; EvModel m; m.init( {3,3}, z(x) ); double hh = 0; unsigned iz0 = 9; int ty0 = 0; auto hd = s->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { hh = a.stepSize(); iz0 = a.izfTrunc(); ty0 = a.transitionType(); } ); if( v.name == "gragg smooth" ) return;   // shows smoothed states while it works with others
    for( int k=0; k<mc::tier(6,9); ++k ) {
        int mode = r->mode, sw = r->switches; r->seen.clear(); s->doStep(); mc::step(); D got = rd( s->initialState() ); double T = s->initialTime(); bool cut = r->switches != sw; MC_LOG( v.name << " mode " << mode << " t=" << t << " " << str(x) << " -> " << T << " " << str(got) << (cut ? " cut" : "") ); MC_CHECK( r->switches - sw <= 1, "switches", v.name << ": " << r->switches - sw << " switches in a step" );
        for( size_t i=0; i+1<r->seen.size(); ++i ) MC_CHECK( r->seen[i] == mode || cut, "mode", v.name << ": mode " << r->seen[i] << " used in a step of mode " << mode );
        if( gragg && !fresh ) { auto zz = z(got); if( cut ) { ++events; fresh = true; D zc = z(got); for( unsigned i=0; i<2; ++i ) { m.f[i].val = i == iz0 ? 0 : zc[i]; if( i == iz0 ) m.f[i].side = ty0; } t = T; x = got; continue; } m.none( zz ); t = T; x = got; continue; }
        Params q = p; if( adaptive( s ) ) q["disable_error_check"] = true; auto f = make( v, hh, q ); f->setOdeRhs( std::make_shared<ModeRhs>( mode, false, ros ) ); f->setInitialState( t, mk(x) ); f->doStep(); D e = rd( f->initialState() ), zz = z(e); double tm = 2; bool due = false;
        for( int i=0; i<2; ++i ) { if( std::fabs(zz[i]) < 1e-5 ) { mc::outcome( "ends on the boundary" ); return; } if( m.fires(i,zz[i]) ) { due = true; tm = std::min( tm, m.where(i,zz[i]) ); } }
        MC_CHECK( cut == due, "found", v.name << ": " << (cut ? "an event is reported, none was due" : "an event was missed") << " from " << str(x) << " to " << str(e) );
        if( !cut ) { MC_CHECK( close( got, e, tol, tol ), "state", v.name << ": " << str(got) << " instead of " << str(e) << " in mode " << mode ); MC_CHECK( close( T, t+hh, 1e-14 ), "time", v.name << ": time " << T ); m.none( z(got) ); fresh = false; }
        else { ++events; size_t iz = 0; for( size_t i=0; i<2; ++i ) if( m.fires(i,zz[i]) && m.where(i,zz[i]) == tm ) iz = i; D at = x; for( int i=0; i<3; ++i ) at[i] = x[i]*(1-tm)+e[i]*tm; at[1] *= -0.5; MC_CHECK( close( T, t+hh*tm, 10*tol, 10*tol ), "event-time", v.name << ": event at " << T << " instead of " << t+hh*tm ); MC_CHECK( close( got, at, 30*tol, 30*tol ), "event-state", v.name << ": " << str(got) << " after the event instead of " << str(at) ); m.event( iz, zz, tm, m.type(iz,zz[iz]), z(got) ); fresh = true; }
        t = T; x = got;
        }
    mc::outcome( std::to_string(events) + " events" ); mc::Hash q; q.d(t); hash( q, x ); mc::state( (uint64_t)q );
    }
// an event controller of one's own
struct OwnCtl : OdeEventController<VD> {
    std::function<void(const V&,double)> start; std::function<bool(const V&,V&,double&,Interpolator,unsigned*,int*)> end; int resets = 0;
    void reset() { ++resets; } void atStepStart( const V& x, double t ) { start( x, t ); } bool atStepEnd( const V& x1, V& x2, double& t2, Interpolator ip, unsigned *iz, int *tr ) { return end( x1, x2, t2, ip, iz, tr ); }
    std::string typeId() const { return "own"; }
    };
MC_SCENARIO( controller, "16 solver variants with an event controller that cuts steps at will: after 5 (quick) / 7 (thorough) steps, each left alone or cut at one of 3 points (with or without a jump, before, or after, or at the end of the step): the controller is asked once about each accepted step, is given its ends, its time and the straight line between them, its decision is taken over and reported, and the next step is that of a fresh solver started there" ) {
    mc::splitAt( 60 ); const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; bool gragg = v.solver == "gragg", smooth = v.name == "gragg smooth", ros = v.solver.substr(0,4) == "rose"; double h0 = mc::pick( std::vector<double>{0.1,0.25} ), tol = v.solver == "i_euler" ? 1e-5 : ros ? 1e-6 : 1e-12; Params p; if( !fixedSize(v) ) { Params q; q["tolerance"] = 1e6; q["inc_max_factor"] = 1.; p["stepsizectl"] = Value( "simple", q ); }
    auto s = make( v, h0, p ); s->setOdeRhs( std::make_shared<ModeRhs>( 0, false, ros ) ); auto c = std::make_shared<OwnCtl>(); auto holder = dynamic_cast< OdeEventControllerHolder<VD>* >( s.get() ); MC_CHECK( holder, "holder", v.name ); holder->setEventController( c ); double t = 0.5, T = 0; D x{0,1,-0.4}, X; int starts = 0, ends = 0, what = 0; bool fresh = true; double ts = 0, hh = 0; D xs; struct { bool tr = false; unsigned iz = 0; int ty = 0; int n = 0; } seen;
    c->start = [&]( const V& y, double tt ) { ++starts; xs = rd(y); ts = tt; };
    c->end = [&]( const V& x1, V& x2, double& t2, OwnCtl::Interpolator ip, unsigned *iz, int *tr ) {
        ++ends; D a = rd(x1), b = rd(x2); MC_CHECK( same( a, xs ), "begin", v.name << ": the step begins at " << str(a) << ", announced was " << str(xs) ); MC_CHECK( iz && tr && *iz == ~0u && *tr == 0, "initial-report", v.name ); hh = t2 - ts; T = t2; X = b; V buf( 1 ); for( double f : {0.,1.,0.25} ) { ip( buf, f ); D w = a; for( size_t i=0; i<w.size(); ++i ) w[i] = a[i]*(1-f)+b[i]*f; MC_CHECK( close( rd(buf), w, 1e-14, 1e-14 ), "line", v.name << ": at " << f << " of the step from " << str(a) << " to " << str(b) << " interpolated is " << str(rd(buf)) ); }
        what = mc::choose( 5, "cut" ); if( !what ) return false; double f = what == 1 ? 0.5 : what == 2 ? 0.25 : 1; ip( buf, f ); if( what != 1 ) buf[1] = -0.5*buf[1]; if( what == 4 ) { x2[0] += 0.125; T = t2; X = rd(x2); *iz = 7; return true; } t2 = ts + (what == 3 ? 1.125 : f)*hh; x2 = buf; *iz = 10+what; *tr = what == 1 ? 1 : what == 2 ? -1 : 0; T = t2; X = rd(x2); return true; };
    auto hd = s->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { ++seen.n; seen.tr = a.stepTruncated(); seen.iz = a.izfTrunc(); seen.ty = a.transitionType(); } );
    s->setInitialState( t, mk(x) ); MC_CHECK( c->resets > 0, "reset", v.name << ": the controller is not told of a new initial state" ); std::string log;
    for( int k=0; k<mc::tier(5,7); ++k ) {
        Params q = p; if( adaptive( s ) ) q["disable_error_check"] = true; starts = ends = 0; seen.n = 0; int resets = c->resets; s->doStep(); mc::step(); log += " " + std::to_string(what); MC_CHECK( starts == 1 && ends == 1 && seen.n == 1 && c->resets == resets, "asked", v.name << ": step " << k << ": told " << starts << " times of the beginning, asked " << ends << " times" ); MC_CHECK( ts == t && (smooth || same( xs, x )), "start", v.name << log << ": step " << k << " begins at " << ts << ", " << str(xs) << " instead of " << t << ", " << str(x) );
        MC_CHECK( s->initialTime() == T && (smooth || same( rd(s->initialState()), X )), "taken-over", v.name << log << ": the solver is at " << s->initialTime() << ", " << str(rd(s->initialState())) << " instead of " << T << ", " << str(X) ); MC_CHECK( seen.tr == (what > 0) && seen.iz == (what == 4 ? 7 : what ? 10+what : ~0u) && seen.ty == (what == 1 ? 1 : what == 2 ? -1 : 0), "reported", v.name << log << ": truncated " << seen.tr << ", function " << seen.iz << ", type " << seen.ty );
        if( (!gragg || fresh) && !smooth && what == 0 ) { auto f = make( v, hh, q ); f->setOdeRhs( std::make_shared<ModeRhs>( 0, false, ros ) ); f->setInitialState( t, mk(x) ); f->doStep(); D e = rd( f->initialState() ); MC_CHECK( close( X, e, tol, tol ) && close( T, f->initialTime(), 1e-14 ), "continues", v.name << log << ": step " << k << " leads to " << str(X) << " instead of " << str(e) ); }
        fresh = what > 0; t = T; x = X;
        }
    mc::Hash q; q.d(t); hash( q, x ); mc::state( (uint64_t)q ); mc::outcome( "cut " + std::to_string(what) );
    }
MC_SCENARIO( truncation, "a system without switching functions that cuts the step itself, in every solver: the step ends where the system says" ) {
    struct T : R { mutable int calls = 0; bool on = true; unsigned secondOrderVarCount() const { return 0; } unsigned firstOrderVarCount() const { return 1; } void rhs( V& f, double, const V& x ) const { f.resize( x.size() ); f[0] = 2; } bool truncateStep( double& t, V& x ) const { ++calls; if( !on || t < 0.3 ) return false; t = 0.3; x[0] = 42; on_(); return true; } std::function<void()> on_; };
    const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; auto r = std::make_shared<T>(); r->on_ = [&]() { r->on = false; }; auto s = make( v, 0.25 ); if( !fixedSize(v) ) { Params q, p; q["max_threshold"] = 0.25; p["stepsizectl"] = Value( "simple", q ); s->setParameters( p ); } s->setOdeRhs( r ); s->setInitialState( 0, mk( D{0} ) ); bool tr = false; auto hd = s->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { tr = a.stepTruncated(); } );
    for( int k=0; k<3; ++k ) { s->doStep(); mc::step(); double want = k == 0 ? 0.25 : k == 1 ? 0.3 : 0.55, xw = k == 0 ? 0.5 : k == 1 ? 42 : 42.5; MC_CHECK( close( s->initialTime(), want, 1e-13 ) && close( s->initialState()[0], xw, 1e-6 ) && tr == (k == 1) && r->calls == k+1, "truncate", v.name << ": time " << s->initialTime() << ", state " << s->initialState()[0] << " after step " << k+1 << ", the system was asked " << r->calls << " times" ); }
    }
}
