// O06: the linearly implicit (Rosenbrock) methods.
// FAST: -include @H/lexstub.h
// USES: alg ros
#include "oenv.h"
#include "trees.h"
#include "sys.h"
namespace mc { const char *assumptions[] = {
    "the methods use a difference quotient Jacobian taken at the initial state and kept until a new initial state is set; results are compared to 1e-5 with the equations solved with the exact Jacobian",
    "order: the local error, divided by the power of the step size that the order demands, must not grow as the step size goes from 1/16 to 1/256", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
// trimming as configured applies to the reduced Jacobians with respect to positions and to the other variables
M trim( const Sys& s, M J, int width ) { if( !width ) return J; unsigned n2 = s.n2, m = s.n2+s.n1; for( unsigned i=0; i<m; ++i ) { for( unsigned j=0; j<m; ++j ) if( std::abs((int)i-(int)j) >= width ) J[n2+i][n2+j] = 0; for( unsigned j=0; j<n2; ++j ) if( std::abs((int)i-(int)j) >= width ) J[n2+i][j] = 0; } return J; }
struct Result { D next, err; };
Result w1( const Sys& s, const M& J, double d, double t, const D& x, double hh ) { D k = solve( wmat(J,hh*d), s.full(t,x) ); return { axpy( x, hh, k ), D() }; }
Result sw( const Sys& s, const M& J, double d, double t, const D& x, double hh ) {
    M w = wmat(J,hh*d); D k1 = solve( w, s.full(t,x) ), k2 = solve( w, axpy( s.full( t+hh*2/3, axpy(x,hh*2/3,k1) ), -4*hh*d/3, mulv(J,k1) ) ); D y = axpy( axpy( x, hh/4, k1 ), 3*hh/4, k2 );
    D k3 = solve( w, s.full(t+hh,y) ), k4 = solve( w, axpy( axpy( s.full( t+hh*5/3, axpy(y,hh*2/3,k3) ), hh*d*2/3, mulv(J,k1) ), 6*hh*d, mulv(J,k2) ) ), e; for( size_t i=0; i<y.size(); ++i ) e.push_back( hh/8*(k1[i] - 5*k2[i] + 5*k3[i] - k4[i]) );
    return { y, e };
    }
Params base( double d, int width ) { Params p; p["d"] = d; if( width ) { Params q; q["width"] = width; p["jtrim"] = Value( "width", q ); } return p; }
MC_SCENARIO( stages, "both methods, 8 structures of up to two pairs and two first order variables, 3 systems each (nonlinear, linear, stiff), 4 values of d, 4 step sizes, Jacobian full or trimmed to width 1 or 2: three steps satisfy the stage equations with the Jacobian of the first point, and the error estimate is that of the method" ) {
    mc::splitAt( 100 ); bool two = mc::flip("sw2_4"); Sys s = pickSys(); double d = mc::pick( std::vector<double>{1,0.5,1-std::sqrt(0.5),2} ), hh = mc::pick( std::vector<double>{0.1,0.01,0.5,1e-4} ); int width = mc::choose( 3, "width" ); bool ec = two && mc::flip("error check");
    Params p = base( d, width ); if( two ) p["disable_error_check"] = !ec; if( ec ) { Params q; q["tolerance"] = 1e30; q["inc_max_factor"] = 1.; p["stepsizectl"] = Value( "simple", q ); }
    auto sv = make( variant( "", two ? "rosenbrock_sw2_4" : "rosenbrock_w1" ), hh, p ); sv->setOdeRhs( s.rhs() ); double t = 0.25; D x = s.x0(), err; sv->setInitialState( t, mk(x) ); M J = trim( s, s.J(x), width );
    if( ec ) { auto n = std::make_shared<SpyNorm>(); n->f = [&]( const D& e ) { err = e; return 1.0; }; setNorm( sv, n ); }
    for( int i=0; i<3; ++i ) { sv->doStep(); mc::step(); auto r = two ? sw( s, J, d, t, x, hh ) : w1( s, J, d, t, x, hh ); D got = rd( sv->initialState() ); double sc = 1; for( double v : r.next ) sc = std::max( sc, std::fabs(v) ); MC_LOG( str(got) );
        MC_CHECK( close( got, r.next, 1e-5, 1e-5*sc ), "stages", (two ? "sw2_4, " : "w1, ") << nameOf(s) << ", d " << d << ", step " << hh << ", width " << width << ": " << str(got) << " instead of " << str(r.next) ); if( ec ) { MC_CHECK( close( err, r.err, 1e-4, 1e-5*sc*hh ), "estimate", "error estimate " << str(err) << " instead of " << str(r.err) ); }
        MC_CHECK( close( sv->initialTime(), t+hh, 1e-15 ), "time", "time " << sv->initialTime() ); t = sv->initialTime(); x = got; }
    mc::Hash q; hash( q, x ); mc::state( (uint64_t)q );
    }
MC_SCENARIO( retries, "SW2(4), 8 structures, all sequences of 6 (quick) / 8 (thorough) controller answers from 5 (keep, double, half, repeat with half, repeat with 0.3): every step satisfies the stage equations for its size" ) {
    mc::splitAt( 100 ); Sys s = pickSys(); if( s.kind == 0 ) { mc::outcome( "other kinds" ); return; } int N = mc::tier(6,8), calls = 0; double d = 1; auto sv = make( variant( "", "rosenbrock_sw2_4" ), 0.125 ); sv->setOdeRhs( s.rhs() ); double t = 0; D x = s.x0(); sv->setInitialState( t, mk(x) ); M J = s.J(x); double last = 0; auto c = std::make_shared<SpyCtl>();
    c->f = [&]( double h_, double, double ) { last = h_; Ctl::Result r( h_, true, false ); if( calls++ < N ) switch( mc::choose(5) ) { case 1: r = { h_*2, true, true }; break; case 2: r = { h_/2, true, true }; break; case 3: r = { h_/2, false, true }; break; case 4: r = { h_*0.3, false, true }; break; } return r; }; setCtl( sv, c );
    while( calls < N ) { sv->doStep(); mc::step(); auto r = sw( s, J, d, t, x, last ); D got = rd( sv->initialState() ); double sc = 1; for( double v : r.next ) sc = std::max( sc, std::fabs(v) ); MC_LOG( "step " << last << ": " << str(got) ); MC_CHECK( close( got, r.next, 1e-5, 1e-5*sc ), "retry", nameOf(s) << ": a step of " << last << " gives " << str(got) << " instead of " << str(r.next) ); t = sv->initialTime(); x = got; }
    mc::outcome( "ok" );
    }
MC_SCENARIO( reuse, "250 steps of different sizes, then the same sizes again: factorisations are those of the size used; both methods" ) {
    bool two = mc::flip(); Sys s = pickSys(); if( s.kind == 0 ) return; auto sv = make( variant( "", two ? "rosenbrock_sw2_4" : "rosenbrock_w1" ), 0.1 ); if( two ) { Params p; p["disable_error_check"] = true; sv->setParameters( p ); } sv->setOdeRhs( s.rhs() ); double t = 0; D x = s.x0(); sv->setInitialState( t, mk(x) ); M J = s.J(x);
    for( int i=0; i<510; ++i ) { double hh = 0.01 + 0.0005*((i*37)%250); sv->setInitialStepSize( hh ); sv->doStep(); mc::step(); auto r = two ? sw( s, J, 1, t, x, hh ) : w1( s, J, 1, t, x, hh ); D got = rd( sv->initialState() ); double sc = 1; for( double v : r.next ) sc = std::max( sc, std::fabs(v) ); MC_CHECK( close( got, r.next, 1e-5, 1e-5*sc ), "reuse", nameOf(s) << ": step " << i << " of size " << hh << " gives " << str(got) << " instead of " << str(r.next) ); t = sv->initialTime(); x = got; if( sc > 1e6 ) { x = s.x0(); t = 0; sv->setInitialState( t, mk(x) ); } }
    mc::outcome( "ok" );
    }
MC_SCENARIO( order, "tree systems up to order 3 (autonomous and time dependent leaves): the local error of W1 is of the second and that of SW2(4) of the third power of the step size, whatever d, and the error estimate is minus the local error up to the fourth power" ) {
    bool two = mc::flip(); int n = 1 + mc::choose( 3 ); auto& ts = trees( n ); const Tree& t = ts[mc::choose( ts.size() )]; unsigned mask = 0; for( int i=1; i<n; ++i ) if( leaf(t,i) && mc::flip() ) mask |= 1u<<i; double d = mc::pick( std::vector<double>{1,1-std::sqrt(0.5),0.3,2} ); static const double c[] = {0.5,-0.75,1.25}; D y0( c, c+n );
    double r0 = 0, e0 = 0; for( int k=4; k<=8; ++k ) { double hh = std::ldexp( 1.0, -k ); Params p; p["d"] = d; if( two ) { Params q; q["tolerance"] = 1e30; p["stepsizectl"] = Value( "simple", q ); } auto sv = make( variant( "", two ? "rosenbrock_sw2_4" : "rosenbrock_w1" ), hh, p ); D est( n, 0.0 ); if( two ) { auto nn = std::make_shared<SpyNorm>(); nn->f = [&]( const D& e ) { est = e; return 1.0; }; setNorm( sv, nn ); }
        sv->setOdeRhs( std::make_shared<TreeRhs>( t, mask, -3 ) ); sv->setInitialState( -3, mk(y0) ); sv->doStep(); mc::step(); D got = rd( sv->initialState() ), want = exact( t, mask, y0, hh ); double e = 0, q = 0; for( int i=0; i<n; ++i ) { e = std::max( e, std::fabs( got[i]-want[i] ) ); q = std::max( q, std::fabs( got[i]-want[i]+est[i] ) ); }
        double r = e/std::pow( hh, two ? 3 : 2 ), er = q/std::pow( hh, 4 ); MC_LOG( "step " << hh << " error " << e << " scaled " << r << " estimate differs by " << q << " scaled " << er ); if( k == 4 ) { r0 = r; e0 = er; } 
        MC_CHECK( r <= 3*r0 + 1e-6, "order", (two ? "sw2_4" : "w1") << ", d " << d << ", tree " << canon(t) << ": the local error at step " << hh << " is " << e ); if( two ) MC_CHECK( er <= 3*e0 + 1e-3 + (k-4)*1e-3, "estimate", "d " << d << ", tree " << canon(t) << ": the error estimate differs from the local error by " << q << " at step " << hh ); }
    MC_CHECK( make( variant( "", two ? "rosenbrock_sw2_4" : "rosenbrock_w1" ), 1 )->order() == (two ? 2 : 1), "reported", "order reported" );
    }
MC_SCENARIO( stiff, "decay rates from 1e-3 to 1e9, step sizes 1e-4 to 10, alone, as overdamped pair and beside a slow variable: stiff components are damped, slow ones not lost" ) {
    bool two = mc::flip(); double lam = std::pow( 10.0, mc::choose(13) - 3 ), hh = mc::pick( std::vector<double>{1e-4,0.01,0.1,1,10} ); int shape = mc::choose( 3 );
    auto r = shape == 0 ? std::make_shared<FnRhs>( 0, 1, [=]( double, const D& x ) { return D{ -lam*x[0] }; } ) : shape == 1 ? std::make_shared<FnRhs>( 1, 0, [=]( double, const D& x ) { return D{ -lam*x[0] - 2*lam*x[1] }; } ) : std::make_shared<FnRhs>( 0, 2, [=]( double, const D& x ) { return D{ -lam*(x[0]-x[1]), -0.1*x[1] }; } );
    auto sv = make( variant( "", two ? "rosenbrock_sw2_4" : "rosenbrock_w1" ), hh ); if( two ) { Params p; p["disable_error_check"] = true; sv->setParameters( p ); } sv->setOdeRhs( r ); D x = shape == 0 ? D{1} : D{1,shape == 1 ? -0.25 : 0.5}; sv->setInitialState( 0, mk(x) );
    for( int i=0; i<30; ++i ) { sv->doStep(); mc::step(); } D y = rd( sv->initialState() ); double z = lam*hh; MC_LOG( str(y) );
    if( shape == 0 ) MC_CHECK( std::fabs(y[0]) <= 1 && (z < 1 || std::fabs(y[0]) < 1e-4), "damped", "rate " << lam << ", step " << hh << ": " << y[0] << " after 30 steps" );
    if( shape == 1 && lam >= 1 ) MC_CHECK( std::fabs(y[0]) <= 1.001 && (z < 1 || std::fabs(y[1]) < 1e-3*(1+1/hh) + std::fabs(y[0])), "damped", "rate " << lam << ", step " << hh << ": " << str(y) );
    if( shape == 2 ) { double a = 30*0.1*hh, want = 0.5*std::exp(-a); if( hh <= 0.1 ) MC_CHECK( close( y[1], want, 0.05, 1e-9 ), "slow", "rate " << lam << ", step " << hh << ": slow variable " << y[1] << " instead of " << want ); if( z > 10 ) MC_CHECK( std::fabs( y[0]-y[1] ) < 0.02, "follows", "rate " << lam << ", step " << hh << ": " << str(y) ); }
    }
MC_SCENARIO( defaults, "a new solver of each method is used with its default options and no step size set" ) {
    bool two = mc::flip(); Sys s = pickSys(); auto sv = Factory<Solver>::newInstance( two ? "rosenbrock_sw2_4" : "rosenbrock_w1" ); sv->setOdeRhs( s.rhs() ); D x = s.x0(); sv->setInitialState( 1, mk(x) ); M J = s.J(x); double hh = 0, first = 0; auto hd = sv->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { hh = a.stepSize(); if( first == 0 ) first = hh; } ); sv->doStep(); mc::step();
    MC_CHECK( first == 0.01, "default-size", "step size " << first ); auto r = two ? sw( s, J, 1, 1, x, hh ) : w1( s, J, 1, 1, x, hh ); MC_CHECK( hh > 0 && close( rd( sv->initialState() ), r.next, 1e-5, 1e-5 ), "default", "default step of size " << hh );
    }
}
