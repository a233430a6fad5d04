// O14: initial states, variable names and the built-in systems.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl extr ros impl models
#include "oenv.h"
#include "variants.h"
#include "ode_num_int/SpecifiedOdeInitState.h"
#include "ode_num_int/OdeVarNameGenerator.h"
#include <set>
namespace mc { const char *assumptions[] = {
    "masses and saturation speeds are positive, stiffness, gravity, friction and speeds not negative, recovery factors at most 1",
    "values of right-hand sides are compared to 1e-14 of the largest term", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
typedef OdeInitState<VD> Init;
MC_SCENARIO( initial, "all histories of 3 (quick) / 4 (thorough) settings of an initial state: size 0 to 4 or 12 or negative, values for any subset of the first three (and of the last one of 12), time, together or apart, as numbers or text: state, time and readback after each, and a copy made from the readback" ) {
    mc::splitAt( 200 ); auto s = Factory<Init>::newInstance( "specified" ); D x; double t = 0; std::string log;
    for( int i=0; i<mc::tier(3,4); ++i ) { Params p; int n = (int)x.size(); static const int sizes[] = {-2,0,1,2,3,4,12}; int z = mc::choose( 8, "size" ); bool text = i == 0 && mc::flip( "text" ); unsigned vals = mc::choose( i == 0 ? 8 : 4, "values" ); if( i && vals == 3 ) vals = 7; bool tm = i < 2 && mc::flip( "time" ); auto val = [&]( double v ) { return text ? Value( (std::ostringstream() << v).str() ) : Value( v ); };
        if( z ) { n = sizes[z-1]; p["size"] = text ? Value( std::to_string(n) ) : Value( n ); } for( int k=0; k<3; ++k ) if( vals & (1<<k) ) p["x"+std::to_string(k)] = val( 0.5+k+10*i ); if( n == 12 && vals&1 ) p["x11"] = val( 7.25+i ); if( tm ) p["time"] = val( 2.5-i );
        { std::ostringstream o; o << "; size " << (z ? std::to_string(n) : std::string("kept")) << " values " << vals << (tm ? " time" : ""); log += o.str(); }
        std::string e = whatOf( [&] { s->setParameters( p ); } ); mc::step(); if( n < 0 ) MC_CHECK( !e.empty(), "negative-size", log << ": accepted" ); else MC_CHECK( e.empty(), "refused", log << ": " << e );
        if( n >= 0 ) { x.resize( n, 0 ); for( int k=0; k<3 && k<n; ++k ) if( vals & (1<<k) ) x[k] = 0.5+k+10*i; if( n == 12 && vals&1 ) x[11] = 7.25+i; if( tm ) t = 2.5-i; }
        V got = s->initialState(); MC_CHECK( got.size() == x.size() && same( rd(got), x ) && s->initialTime() == t, "state", log << ": state " << str(rd(got)) << " at " << s->initialTime() << " instead of " << str(x) << " at " << t );
        Params q = s->parameters(); MC_CHECK( q.size() == x.size()+2 && q.count("size") && q.count("time"), "readback", log << ": " << q.size() << " parameters for a state of size " << x.size() ); auto c = Factory<Init>::newInstance( "specified" ); c->setParameters( q ); MC_CHECK( same( rd( c->initialState() ), x ) && c->initialTime() == t, "copy", log << ": a copy from the parameters has state " << str( rd( c->initialState() ) ) ); s->setParameters( q ); MC_CHECK( same( rd( s->initialState() ), x ) && s->initialTime() == t, "reapplied", log << ": parameters applied again give " << str( rd( s->initialState() ) ) ); got = V(); if( got.size() == 0 ) { V y = s->initialState(); if( y.size() ) { y[0] = 77; MC_CHECK( same( rd( s->initialState() ), x ), "shared", log << ": a returned state is shared" ); } } }
    mc::Hash q; hash( q, x ); q.d( t ); mc::state( (uint64_t)q );
    }
MC_SCENARIO( names, "every structure with up to 3 pairs and 0 to 12, 96 to 103 or 995 to 1003 further variables: ids and names of all variables" ) {
    unsigned n2 = mc::choose( 4 ), n1 = mc::choose( 13+8+9 ); n1 = n1 < 13 ? n1 : n1 < 21 ? 96+n1-13 : 995+n1-21; auto r = std::make_shared<FnRhs>( n2, n1, []( double, const D& x ) { return x; } ); unsigned n = r->varCount(); MC_CHECK( n == 2*n2+n1, "count", n << " variables" ); auto ids = r->varIds(); MC_CHECK( ids.size() == n, "ids", ids.size() << " variable ids of " << n << " variables" ); OdeVarNameGenerator<VD> g( *r ); std::set<std::string> seen; std::string last;
    for( unsigned i=0; i<n; ++i ) { std::string nm = g.varNameByIndex( i ); mc::step(); MC_CHECK( g.varIdByIndex(i) == ids[i] && g.varName( ids[i], i ) == nm, "name-by-id", "variable " << i << " of " << n << ": names differ" ); MC_CHECK( seen.insert( nm ).second, "unique", "variable " << i << " of " << n << ": the name " << nm << " is used twice" ); MC_CHECK( last < nm && (i == 0 || nm.size() == last.size()), "ordered", "variable " << i << " of " << n << ": " << nm << " after " << last ); std::string d = std::to_string( i ); MC_CHECK( nm.size() >= d.size() && nm.substr( nm.size()-d.size() ) == d, "index", "variable " << i << " is named " << nm ); last = nm; }
    mc::outcome( "ok" );
    }
// Published equations
std::shared_ptr<Rhs> sys( const char *n ) { return Factory<Rhs>::newInstance( n ); }
struct Terms { double s = 0, m = 0; Terms& operator+=( double v ) { s += v; m += std::fabs(v); return *this; } };
void compare( const std::string& what, const std::shared_ptr<Rhs>& r, double t, const D& x, const std::vector<Terms>& w ) {
    for( int k=0; k<2; ++k ) { V d( k ? 17 : 0 ); std::vector<std::string> ob; auto a = r->odeRhsPreObservers.add( [&]( double T, const V& X, const Rhs *R ) { ob.push_back( T == t && same( rd(X), x ) && R == r.get() ? "pre" : "wrong" ); } ), b = r->odeRhsPostObservers.add( [&]( double T, const V& X, const V& Y, const Rhs *R ) { ob.push_back( T == t && same( rd(X), x ) && &Y == &d && R == r.get() ? "post" : "wrong" ); } );
        r->rhs( d, t, mk(x) ); mc::step(); r->odeRhsPreObservers.remove( a ); r->odeRhsPostObservers.remove( b ); MC_CHECK( ob == (std::vector<std::string>{"pre","post"}), "observed", what << ": observers of the right-hand side" ); MC_CHECK( d.size() == w.size(), "size", what << ": " << d.size() << " entries" );
        for( size_t i=0; i<w.size(); ++i ) MC_CHECK( std::fabs( d[i]-w[i].s ) <= 1e-14*w[i].m, "equations", what << ", t = " << t << ", x = " << str(x) << ": entry " << i << " is " << d[i] << " instead of " << w[i].s ); MC_CHECK( same( rd( (*r)( t, mk(x) ) ), rd(d) ), "call", what << ": operator()" ); }
    mc::Hash q; for( auto& y : w ) q.d( y.s ); mc::state( (uint64_t)q );
    }
// sets the parameters, checks that they read back and that applying them once more changes nothing
void apply( const std::string& what, const std::shared_ptr<Rhs>& r, Params p ) { for( auto& x : p ) { Params one; one[x.first] = x.second; r->setParameters( one ); } for( int k=0; k<2; ++k ) { Params q = r->parameters(); for( auto& x : p ) MC_CHECK( q.count( x.first ) && q[x.first].value<std::string>() == x.second.value<std::string>(), "readback", what << ": " << x.first << " = " << x.second.value<std::string>() << " reads " << q[x.first].value<std::string>() ); r->setParameters( q ); } }
const std::vector<double> vals = {0.5,0,-1.25,3}, pars = {1,0,250}; double val( int n = 4 ) { return vals[mc::choose( n )]; } double par( int n = 3 ) { return pars[mc::choose( n )]; }
MC_SCENARIO( oscillator, "all combinations of 3 stiffnesses, 3 forces, 4 positions, 4 speeds and 2 times" ) { auto r = sys( "oscillator" ); double c = par(), f = par(), x = val(), v = val(), t = mc::choose(2)*0.7; Params p; p["c"] = c; p["f"] = f; apply( "oscillator", r, p ); MC_CHECK( r->secondOrderVarCount() == 1 && r->firstOrderVarCount() == 0 && r->zeroFuncCount() == 0, "structure", "oscillator" ); std::vector<Terms> w(2); w[0] += v; w[1] += f; w[1] += -c*x; compare( "oscillator", r, t, D{x,v}, w ); }
MC_SCENARIO( chain, "all combinations of 1 to 4 (quick) / 6 (thorough) oscillators, 3 linear and 3 cubic stiffnesses, 3 forces and 3 deflections of each, and of 0 and 10 oscillators: accelerations are the derivatives of the potential energy of the springs" ) {
    mc::splitAt( 100 ); static const int counts[] = {0,1,2,3,4,10,5,6}; int n = counts[mc::choose( mc::tier(6,8) )]; double c0 = par(), c2 = par(), f = par(); auto r = sys( "coupled_nl_osc" ); Params p; p["n"] = (unsigned)n; p["c0"] = c0; p["c2"] = c2; p["f"] = f; apply( "chain", r, p ); MC_CHECK( (int)r->secondOrderVarCount() == n && r->firstOrderVarCount() == 0 && (int)r->varCount() == 2*n, "structure", "chain of " << n ); D x( 2*n ); for( int i=0; i<n; ++i ) { x[i] = n <= 6 ? val(3) : 0.1*i*i-1; x[n+i] = 0.3*i-0.5; } std::vector<Terms> w( 2*n ); for( int i=0; i<n; ++i ) w[i] += x[n+i];
    for( int i=0; i<n; ++i ) { double d = i ? x[i]-x[i-1] : x[0], F = c0*d+c2*d*d*d, m = std::fabs(c0*d)+std::fabs(c2*d*d*d); w[n+i].s -= F; w[n+i].m += m; if( i ) { w[n+i-1].s += F; w[n+i-1].m += m; } } if( n ) w[2*n-1] += f; compare( "chain of " + std::to_string(n), r, 0.3, x, w ); }
MC_SCENARIO( stiff, "all combinations of 4 coefficients, 4 states and 4 times" ) { auto r = sys( "stiff_1d" ); double a = mc::pick( std::vector<double>{50,0,0.25,1e6} ), x = val(), t = mc::pick( std::vector<double>{0,1,-2,10} ); Params p; p["a"] = a; apply( "stiff", r, p ); MC_CHECK( r->secondOrderVarCount() == 0 && r->firstOrderVarCount() == 1, "structure", "stiff" ); std::vector<Terms> w(1); w[0] += -a*x; w[0] += a*std::cos(t); compare( "stiff", r, t, D{x}, w ); }
MC_SCENARIO( sliding, "all combinations of 3 friction laws and their default, 2 masses, 3 friction forces, 3 saturation speeds, 2 forces in each direction, 2 frequencies, 5 speeds in each direction and 2 times; friction opposes the velocity and vanishes at rest; unknown laws are rejected" ) {
    mc::splitAt( 100 ); auto r = sys( "sliding_point" ); int law = mc::choose( 4, "friction" ); static const char *laws[] = {"atan","tabular","linear"}; double m = mc::pick( std::vector<double>{1,4} ), f0 = par(), v0 = mc::pick( std::vector<double>{1,0.25,100} ), F1 = par(2), F2 = par(2), om = mc::pick( std::vector<double>{100,1} ), v1 = mc::pick( std::vector<double>{0,0.25,-1,3,1e-9} ), v2 = mc::pick( std::vector<double>{0,-0.25,1,-4,200} ), t = mc::choose(2)*0.7; Params p; if( law < 3 ) p["friction"] = std::string( laws[law] ); else law = 0; p["mass"] = m; p["f0"] = f0; p["v0"] = v0; p["F1"] = F1; p["F2"] = F2; p["omega"] = om; apply( "sliding", r, p );
    Params bad; bad["friction"] = std::string( mc::pick( std::vector<std::string>{"","Atan","0","tabular "} ) ); MC_CHECK( !whatOf( [&] { r->setParameters( bad ); } ).empty() && r->parameters()["friction"].value<std::string>() == laws[law], "unknown-law", "an unknown friction law is accepted" );
    double v = std::hypot( v1, v2 ), f = law == 0 ? f0*std::atan(v/v0)*2/std::acos(-1.0) : law == 1 ? f0*std::min( 1.0, v/v0 ) : f0*v/v0; std::vector<Terms> w(4); w[0] += v1; w[1] += v2; w[2] += F1/m; w[3] += F2*std::sin(om*t)/m; if( v > 0 ) { w[2] += -f*v1/v/m; w[3] += -f*v2/v/m; } compare( std::string("sliding, ")+laws[law], r, t, D{1,-2,v1,v2}, w ); MC_CHECK( r->secondOrderVarCount() == 2 && r->firstOrderVarCount() == 0, "structure", "sliding" ); }
MC_SCENARIO( ball, "all combinations of 3 gravities, 3 recovery factors, 3 sticking speeds, 4 heights and 6 speeds: free flight, the height as switching function watched downwards, reflection or sticking at the plane" ) {
    auto r = sys( "bouncing_ball" ); double g = mc::pick( std::vector<double>{9.8,1,0} ), k = mc::pick( std::vector<double>{0.9,0,1} ), st = mc::pick( std::vector<double>{1e-5,0.5,0} ), x = mc::pick( std::vector<double>{0,1,-1e-9,0.3} ), v = mc::pick( std::vector<double>{0,-2,-1e-6,-0.5,1,1e-7} ); Params p; p["gravity_acceleration"] = g; p["recovery_factor"] = k; p["stick_speed"] = st; apply( "ball", r, p ); MC_CHECK( r->secondOrderVarCount() == 1 && r->firstOrderVarCount() == 0 && r->zeroFuncCount() == 1 && r->zeroFuncFlags().size() == 1 && (r->zeroFuncFlags()[0]&3) == 1 && !r->describeZeroFunction(0).empty(), "structure", "ball" ); std::vector<Terms> w(2); w[0] += v; w[1] += -g; compare( "ball", r, 0.5, D{x,v}, w ); V z; r->zeroFunctions( z, 0.5, mk(D{x,v}) ); MC_CHECK( z.size() == 1 && z[0] == x, "height", "switching function " << str(rd(z)) );
    V y = mk( D{x,v} ); int tr[] = {-1}; bool stick = std::fabs(v) < st || v >= 0; r->switchPhaseState( tr, 0.5, y ); D n = rd(y); if( stick ) { MC_CHECK( n[0] == 0 && n[1] == 0, "stick", "a ball hitting the plane with speed " << v << " goes on with " << str(n) ); std::vector<Terms> o(2); compare( "ball at rest", r, 0.5, n, o ); } else { MC_CHECK( n[0] == x && n[1] == -k*v, "reflect", "a ball hitting the plane with speed " << v << " goes on with " << str(n) ); w[0] = Terms(); w[0] += n[1]; compare( "reflected ball", r, 0.5, n, w ); } mc::outcome( stick ? "sticks" : "reflected" ); }
// solvers that are exact for free flight
std::vector<Variant> exact() { std::vector<Variant> v; for( auto& x : variants() ) if( x.name != "euler" && x.name != "rosenbrock_w1" && x.name != "i_euler" && x.name != "i_euler with predictor" && x.name != "extrapolator euler" && x.solver != "rosenbrock_sw2_4" ) v.push_back( x ); return v; }
MC_SCENARIO( flight, "10 solvers exact for free flight, all combinations of 2 gravities, 4 recovery factors, 3 sticking speeds, 3 heights, 4 speeds and 2 step sizes: over 60 steps the ball stays above the plane, the energy never grows, is kept in flight and lost at impacts, and a ball at rest stays at rest" ) {
    mc::splitAt( 100 ); static auto vs = exact(); const Variant& v = vs[mc::choose( vs.size(), "solver" )]; double g = mc::pick( std::vector<double>{9.8,1} ), k = mc::pick( std::vector<double>{0.9,0.5,0,1} ), st = mc::pick( std::vector<double>{1e-5,0.2,0} ), x0 = mc::pick( std::vector<double>{1,0.01,0} ), v0 = mc::pick( std::vector<double>{0,-2,3,-0.01} ), hh = mc::pick( std::vector<double>{0.1,0.01} ); auto r = sys( "bouncing_ball" ); Params p; p["gravity_acceleration"] = g; p["recovery_factor"] = k; p["stick_speed"] = st; r->setParameters( p );
    auto s = make( v, hh ); s->setOdeRhs( r ); s->setInitialState( 0, mk(D{x0,v0}) ); bool cut = false; auto id = s->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { if( a.stepAccepted() ) cut = a.stepTruncated(); } ); auto energy = [&]( const D& x ) { return g*x[0]+x[1]*x[1]/2; }; D x{x0,v0}; double t = 0; bool rest = false; double tol = v.solver == "i_euler" ? 1e-7 : 1e-12, E0 = energy( x ); int hits = 0, atRest = 0;
    for( int i=0; i<60; ++i ) { s->doStep(); mc::step(); D y = rd( s->initialState() ); double T = s->initialTime(), e = energy(y), eo = energy(x); std::string at = v.name + ", step " + std::to_string(i) + ": " + str(x) + " to " + str(y) + (cut ? ", cut" : ""); MC_LOG( at ); MC_CHECK( T >= t, "time", at << ": time goes from " << t << " to " << T ); MC_CHECK( y[0] >= -tol*(1+E0), "below", at << ": below the plane" ); MC_CHECK( e <= eo + tol*(1+E0), "energy-grows", at << ": energy from " << eo << " to " << e ); if( !cut ) MC_CHECK( rest ? same( y, D{0,0} ) : std::fabs( e-eo ) <= tol*(1+E0), "energy-flight", at << ": energy from " << eo << " to " << e << (rest ? " at rest" : " in flight") );
        else { ++hits; if( rest ) ++atRest; MC_CHECK( atRest <= (k == 0 || st == 0 ? 1 : 0), "rest-event", at << ": an event at rest, time " << t << " to " << T ); MC_CHECK( e <= k*k*eo + tol*(1+E0), "energy-impact", at << ": energy from " << eo << " to " << e << " at an impact with recovery factor " << k ); if( same( y, D{0,0} ) ) rest = true; } x = y; t = T; }
    MC_CHECK( x0 > 0 || hits > 0 || v0 > 0, "no-event", v.name << ": the ball is never stopped by the plane" ); s->odeSolverPostObservers.remove( id ); mc::outcome( rest ? "comes to rest" : hits ? "bounces" : "flies" ); mc::Hash q; hash( q, x ); mc::state( (uint64_t)q );
    }
MC_SCENARIO( again, "25 solver configurations, a ball that has come to rest, or not, is started again from 4 states with the same solver, a new solver or another kind of solver: bit for bit the run of a new system" ) {
    mc::splitAt( 50 ); static auto vs = allVariants(); const Variant& v = vs[mc::choose( vs.size(), "solver" )]; bool landed = mc::flip( "landed" ); int how = mc::choose( 3, "how" ); D x = mc::pick( std::vector<D>{ D{1,0}, D{0,2}, D{0.5,-1}, D{0,-1} } ); auto start = [&] { auto r = sys( "bouncing_ball" ); Params p; p["recovery_factor"] = 0.5; p["stick_speed"] = 2; r->setParameters( p ); return r; }; auto used = start(), fresh = start(); auto a = make( v, 0.05 ); a->setOdeRhs( used ); a->setInitialState( 0, mk( landed ? D{0.01,0} : D{50,0} ) ); for( int i=0; i<(landed ? 60 : 2); ++i ) { a->doStep(); if( same( rd( a->initialState() ), D{0,0} ) ) break; } D e = rd( a->initialState() ); MC_CHECK( landed ? same( e, D{0,0} ) : e[0] > 1, "preparation", v.name << ": at first " << str(e) );
    auto other = variant( "rk4", "rk4" ); if( how ) { a = make( how == 1 ? v : other, 0.05 ); a->setOdeRhs( used ); } auto b = make( how == 2 ? other : v, 0.05 ); b->setOdeRhs( fresh ); a->setInitialState( 1, mk(x) ); b->setInitialState( 1, mk(x) ); bool broy = v.name.find( "broyden" ) != std::string::npos || v.name.find( "hart" ) != std::string::npos || v.name.find( "const" ) != std::string::npos;
    if( broy && how == 0 ) { mc::outcome( "keeps a Jacobian" ); return; } for( int i=0; i<30; ++i ) { a->doStep(); b->doStep(); mc::step(); D y = rd( a->initialState() ), w = rd( b->initialState() ); MC_CHECK( !(landed && !same( y, w ) && std::fabs( y[1]-x[1] ) <= 1e-9 && (std::fabs( y[0]-x[0] ) <= 1e-9 || std::fabs( y[0]-x[0]-x[1]*(a->initialTime()-1) ) <= 1e-9) && a->initialTime() > 1), "ball-that-landed-is-not-accelerated", v.name << ": started again from " << str(x) << ", a ball that had come to rest goes to " << str(y) << " without acceleration" ); MC_CHECK( same( y, w ) && a->initialTime() == b->initialTime(), "second-run", v.name << (how == 0 ? ", same solver" : how == 1 ? ", new solver" : ", other solver") << ", from " << str(x) << ": after step " << i << " " << str(y) << " at " << a->initialTime() << " instead of " << str(w) << " at " << b->initialTime() ); } mc::outcome( v.name ); }
}
