// O04: detection, location and typing of switching events.
// FAST: -include @H/lexstub.h
// USES: ctl
#include "oenv.h"
#include "evmodel.h"
namespace mc { const char *assumptions[] = {
    "switching function values are finite",
    "a crossing is located by linear interpolation of the switching function between the ends of the step; crossings closer than 1e-12 of the step may be taken in either order",
    "a function that does not ask to be recomputed after a switch continues from its interpolated value", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
typedef OdeRhs<VD> R;
// the switching functions are functions g of the state variables of the same number
struct EvRhs : R {
    unsigned n; std::vector<unsigned> flags; std::function<double(double)> g; int switches = 0; std::vector<int> trans; double tSwitch = 0; D xSwitch; std::function<void(V&,const std::vector<int>&)> act; bool trunc = false; mutable int truncCalls = 0;
    EvRhs( unsigned n_ ) : n(n_), flags(n_,(unsigned)R::BothDirections), g( []( double x ) { return x; } ) {}
    unsigned secondOrderVarCount() const { return 0; } unsigned firstOrderVarCount() const { return n; } unsigned zeroFuncCount() const { return flags.size(); }
    std::vector<unsigned> zeroFuncFlags() const { return flags; }
    void rhs( V& f, double, const V& x ) const { f.resize( x.size() ); for( unsigned i=0; i<n; ++i ) f[i] = 0; }
    void zeroFunctions( V& d, double, const V& x ) const { d.resize( flags.size() ); for( unsigned i=0; i<flags.size(); ++i ) d[i] = g( x.at(i) ); }
    void switchPhaseState( const int *tr, double t, V& x ) { ++switches; trans.assign( tr, tr+flags.size() ); tSwitch = t; xSwitch = rd(x); if( act ) act( x, trans ); }
    bool truncateStep( double& t, V& x ) const { ++truncCalls; if( trunc ) t -= 0.25; return trunc; }
    };
void run( unsigned nz, int steps, const std::vector<double>& alpha, bool extras ) {
    EvRhs *r = new EvRhs( nz ); std::shared_ptr<R> rp( r ); auto ec = Factory<Events>::newInstance( "linear" );
    for( auto& f : r->flags ) f = 1 + mc::choose( 3, "direction" );
    int recompute = mc::choose( 1 << nz, "recompute" ); for( unsigned i=0; i<nz; ++i ) if( recompute>>i & 1 ) r->flags[i] |= R::RecomputeAfterSwitch;
    bool cubic = extras && mc::flip("cubic"); if( cubic ) r->g = []( double x ) { return x*x*x; };
    int action = mc::choose( extras || (nz == 2) ? 4 : 2, "action" );     // what the switch does to the state: nothing, back to its side, other variables negated, all to zero
    r->act = [&]( V& x, const std::vector<int>& tr ) { for( unsigned i=0; i<nz; ++i ) if( action == 1 && tr[i] ) x[i] = -0.5*tr[i]; else if( action == 2 && !tr[i] ) x[i] = -x[i]; else if( action == 3 ) x[i] = 0; };
    ec->setOdeRhs( rp ); double t = extras ? mc::pick( std::vector<double>{0,-5} ) : -5, hh = 0.5; D x( nz ); for( double& a : x ) a = mc::pick( alpha );
    auto z = [&]( const D& x ) { D q; for( double a : x ) q.push_back( r->g(a) ); return q; }; EvModel m; m.init( r->flags, z(x) ); int events = 0;
    for( int s=0; s<steps; ++s ) {
        V x1 = mk(x); ec->atStepStart( x1, t ); if( extras && mc::flip("retry") ) ec->atStepStart( x1, t );
        D e( nz ); for( double& a : e ) a = mc::pick( alpha ); V x2 = mk(e); double t2 = t + hh; unsigned iz = 77; int ty = 77; int sw = r->switches;
        MC_LOG( "t " << t << ": " << str(x) << " -> " << str(e) );
        bool cut = ec->atStepEnd( x1, x2, t2, Events::Interpolator(), &iz, &ty ); mc::step();
        D v = z(e); std::vector<size_t> c; double tm = 2; for( size_t i=0; i<nz; ++i ) if( m.fires(i,v[i]) ) { c.push_back(i); tm = std::min( tm, m.where(i,v[i]) ); }
        MC_CHECK( cut == !c.empty(), "found", "from " << str(x) << " to " << str(e) << (cut ? ": an event is reported, none was due" : ": no event is reported, one was due") );
        MC_CHECK( same( rd(x1), x ), "start-changed", "the state at the start of the step was changed" );
        if( !cut ) { MC_CHECK( t2 == t + hh && same( rd(x2), e ) && r->switches == sw && iz == 77 && ty == 77, "untouched", "without an event the step was changed" ); m.none( v ); x = e; t = t2; continue; }
        ++events; MC_LOG( "   event of function " << iz << ", type " << ty << " at " << t2 );
        MC_CHECK( iz < nz && m.fires(iz,v[iz]), "which", "event reported for function " << iz ); double tt = m.where(iz,v[iz]);
        MC_CHECK( tt <= tm + 1e-12, "earliest", "event of function " << iz << " at " << tt << " of the step, the earliest is at " << tm );
        MC_CHECK( close( t2, t + hh*tt, 1e-13, 1e-14 ) && t2 >= t && t2 <= t+hh, "time", "event at " << t2 << " instead of " << t + hh*tt );
        MC_CHECK( r->switches == sw+1, "switch-count", "the phase was switched " << r->switches - sw << " times" );
        D at( nz ); for( unsigned i=0; i<nz; ++i ) at[i] = x[i]*(1-tt) + e[i]*tt; MC_CHECK( close( r->xSwitch, at, 1e-13, 1e-14 ) && r->tSwitch == t2, "state", "state " << str(r->xSwitch) << " at the switch instead of " << str(at) );
        int want = m.type(iz,v[iz]); MC_CHECK( ty == want, "type", "function " << iz << " goes to " << v[iz] << ", type " << ty << " reported" ); for( unsigned i=0; i<nz; ++i ) MC_CHECK( r->trans[i] == (i == iz ? want : 0), "transitions", "transition " << r->trans[i] << " of function " << i << " given to the system" );
        V after = mk( r->xSwitch ); if( r->act ) r->act( after, r->trans ); MC_CHECK( same( rd(x2), rd(after) ), "result", "the state chosen by the switch is not the result" );
        x = rd(x2); m.event( iz, v, tt, want, z(x) ); t = t2;
        }
    mc::outcome( std::to_string(events) + " events" ); mc::Hash q; q.d(t); hash( q, x ); for( auto& a : m.f ) q.u( a.side+5 ).d( a.val ); mc::state( (uint64_t)q );
    }
MC_SCENARIO( one, "one function, all directions, recomputed or interpolated, linear or cubic, 4 actions of the switch, 2 start times; all value sequences over -2, -1, 0, 1, 3 for 3 (quick) / 4 (thorough) steps with each step possibly started twice" ) { mc::splitAt( 200 ); run( 1, mc::tier(3,4), {0,1,-1,3,-2}, true ); }
MC_SCENARIO( longer, "one function, all directions, recomputed or interpolated; all value sequences over -1, 0, 1 and small for 6 (quick) / 8 (thorough) steps" ) { mc::splitAt( 200 ); run( 1, mc::tier(6,8), {0,1,-1,1e-9}, false ); }
MC_SCENARIO( two, "two functions, all directions, each recomputed or interpolated, 4 actions of the switch; all value sequences over -2, 0, 1, 3 for 2 (quick) / 3 (thorough) steps" ) { mc::splitAt( 200 ); run( 2, mc::tier(2,3), {0,1,-2,3}, false ); }
MC_SCENARIO( three, "three functions, all directions, each recomputed or interpolated; all value sequences over -1, 0, 1 (quick) and -2, -1, 0, 1 (thorough) for one step, then -1, 0, 1 for a second" ) { mc::splitAt( 200 ); if( mc::thorough() ) run( 3, 2, {1,-1,0}, false ); else run( 3, 1, {0,1,-1}, false ); }
MC_SCENARIO( fractions, "two functions crossing at all fractions k/12 and l/12 of the step, both directions, 3 start times and 4 step sizes" ) {
    int k = mc::choose(13), l = mc::choose(13); double t0 = mc::pick( std::vector<double>{0,-7.5,1e6} ), hh = mc::pick( std::vector<double>{1,0.1,1e-6,30} ); int d0 = mc::flip() ? 1 : -1, d1 = mc::flip() ? 1 : -1;
    EvRhs *r = new EvRhs( 2 ); std::shared_ptr<R> rp( r ); auto ec = Factory<Events>::newInstance( "linear" ); ec->setOdeRhs( rp ); V x1 = mk( D{ -d0*(double)k, -d1*(double)l } ), x2 = mk( D{ d0*(12.-k), d1*(12.-l) } ); D a = rd(x1), b = rd(x2); double t2 = t0+hh; unsigned iz = 9; int ty = 9; ec->atStepStart( x1, t0 );
    bool cut = ec->atStepEnd( x1, x2, t2, Events::Interpolator(), &iz, &ty ); mc::step(); int first = std::min( k, l ); MC_CHECK( cut, "found", "no event" ); MC_CHECK( iz == 0 ? k == first : iz == 1 && l == first, "which", "event of function " << iz << ", crossings at " << k << "/12 and " << l << "/12" );
    MC_CHECK( close( t2, t0 + hh*first/12, 1e-13, 1e-15 ), "time", "event at " << t2 << " instead of " << t0 + hh*first/12 ); MC_CHECK( ty == (iz ? d1 : d0), "type", "type " << ty ); D at{ a[0]+(b[0]-a[0])*first/12, a[1]+(b[1]-a[1])*first/12 }; MC_CHECK( close( rd(x2), at, 1e-13, 1e-13 ), "state", str(rd(x2)) << " instead of " << str(at) );
    }
MC_SCENARIO( resets, "the controller is reset or given another system with a different number of functions or other directions at any point of a history of 4 steps" ) {
    auto ec = Factory<Events>::newInstance( "linear" ); std::shared_ptr<EvRhs> r; EvModel m; D x; double t = 1; bool clean = true; unsigned gen = 0;
    auto fresh = [&]( unsigned n ) { r = std::make_shared<EvRhs>( n ); for( unsigned i=0; i<n; ++i ) r->flags[i] = 1 + (i+n+gen)%3; ++gen; ec->setOdeRhs( r ); ec->reset(); x.assign( n, 1.0 ); clean = true; }; fresh( 1 + mc::choose(2) );
    for( int s=0; s<4; ++s ) {
        switch( mc::choose(4) ) { case 0: case 1: break; case 2: ec->reset(); for( double& a : x ) a = mc::pick( std::vector<double>{1,-1,0} ); clean = true; break; case 3: fresh( mc::choose(3) ); break; }
        V x1 = mk(x), x2; ec->atStepStart( x1, t ); if( clean ) m.init( r->flags, x ); clean = false; D e = x; double to = mc::pick( std::vector<double>{-1,1} ); for( double& a : e ) a = to; x2 = mk(e); double t2 = t+1; unsigned iz = 9; int ty = 9; bool cut = ec->atStepEnd( x1, x2, t2, Events::Interpolator(), &iz, &ty ); mc::step();
        int due = -1; for( size_t i=0; i<m.f.size(); ++i ) if( m.fires(i,e[i]) && due < 0 ) due = i; MC_CHECK( cut == (due >= 0), "found", "event " << (cut ? "reported" : "missing") << " with " << r->flags.size() << " functions" );
        if( cut ) { double tt = m.where(iz,e[iz]); D at; for( size_t i=0; i<x.size(); ++i ) at.push_back( x[i]*(1-tt)+e[i]*tt ); m.event( iz, e, tt, m.type(iz,e[iz]), at ); } else m.none( e ); x = rd(x2); t = t2;
        }
    mc::outcome( "ok" );
    }
MC_SCENARIO( truncation, "systems without switching functions: their own step truncation decides, and missing result pointers are allowed with and without functions" ) {
    unsigned n = mc::choose(2); auto r = std::make_shared<EvRhs>( n ); r->trunc = mc::flip(); auto ec = Factory<Events>::newInstance( "linear" ); ec->setOdeRhs( r ); V x1 = mk( D(n,-1.0) ), x2 = mk( D(n,1.0) ); double t2 = 2; ec->atStepStart( x1, 1 ); bool cut = ec->atStepEnd( x1, x2, t2, Events::Interpolator() ); mc::step();
    if( n ) MC_CHECK( cut && t2 == 1.5, "cut", "no event" ); else MC_CHECK( cut == r->trunc && r->truncCalls == 1 && t2 == (r->trunc ? 1.75 : 2), "truncate", "the truncation of the system is not used" );
    }
}
