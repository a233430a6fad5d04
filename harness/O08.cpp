// O08: systems with position/velocity pairs and the same systems written out as first order ones.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl extr ros impl
#include "oenv.h"
#include "variants.h"
#include "ode_num_int/OdeRhsVectorMapping.h"
#include "ode_num_int/computeJacobian.h"
namespace mc { const char *assumptions[] = {
    "trajectories are compared to 1e-11 per step for explicit methods, and to the tolerance of the difference quotients (1e-6) or of the nonlinear iteration (1e-7) otherwise; systems are not stiff", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
// P physical pairs and F further variables in natural order (x1,v1,x2,v2,...,z1,...); the first k pairs are declared as such, the rest as first order variables
struct Model { unsigned P, F; int kind; unsigned n() const { return 2*P+F; }
    double c( unsigned i, unsigned j ) const { static const double t[] = {-0.7,0.4,0.15,-0.5,0.3,-0.2,0.35,-0.1,0.6,-0.9,0.25,-0.45,0.8}; return i == j ? -1.1 : t[(i*5+j*3+kind)%13]; }
    D f( double t, const D& x ) const { D g( n() ); for( unsigned i=0; i<P; ++i ) g[2*i] = x[2*i+1]; for( unsigned i=0; i<n(); ++i ) { if( i < 2*P && i%2 == 0 ) continue; double s = 0.3*std::sin( t*(i+1) ); for( unsigned j=0; j<n(); ++j ) s += c(i,j)*x[j]; if( kind == 1 ) s += 0.2*x[i]*x[(i+1)%n()]; if( kind == 2 ) s -= x[i]*x[i]*x[i] + (x[0] > 0.2 ? 0.1*x[0] : 0); g[i] = s; } return g; }
    D x0() const { static const double v[] = {0.5,-0.25,0.75,0.125,-0.6,0.3,0.2,-0.4,0.1,-0.15,0.35,-0.55,0.45,0.05}; return D( v, v+n() ); }
    // positions in the natural order of the entries of the state when k pairs are declared
    std::vector<unsigned> perm( unsigned k ) const { std::vector<unsigned> p; for( unsigned i=0; i<k; ++i ) p.push_back( 2*i ); for( unsigned i=0; i<k; ++i ) p.push_back( 2*i+1 ); for( unsigned i=2*k; i<n(); ++i ) p.push_back( i ); return p; } };
struct Rhs_ : OdeRhs<VD> { Model m; unsigned k; std::vector<unsigned> p; Rhs_( const Model& m_, unsigned k_ ) : m(m_), k(k_), p(m_.perm(k_)) {} unsigned secondOrderVarCount() const { return k; } unsigned firstOrderVarCount() const { return m.n()-2*k; }
    void rhs( V& d, double t, const V& x ) const { if( x.size() != m.n() ) mc::fail( "size", "state of size " + std::to_string(x.size()) ); this->odeRhsPreObservers( t, x, this ); D y = nat( rd(x) ), g = m.f( t, y ); d.resize( m.n() ); for( unsigned i=0; i<m.n(); ++i ) d[i] = g[p[i]]; this->odeRhsPostObservers( t, x, d, this ); }
    std::vector<unsigned> varIds() const { std::vector<unsigned> r; for( unsigned i : p ) r.push_back( 100+i ); return r; }
    D nat( const D& x ) const { D y( x.size() ); for( size_t i=0; i<x.size(); ++i ) y[p[i]] = x[i]; return y; } D loc( const D& y ) const { D x; for( unsigned i : p ) x.push_back( y[i] ); return x; } };
Model pickModel() { unsigned P = mc::choose( mc::tier(4,6), "pairs" ), F = mc::choose( mc::tier(4,5), "first order" ); if( !P && !F ) F = 1; return Model{ P, F, (int)mc::choose(3,"kind") }; }
MC_SCENARIO( declared, "16 solver configurations, up to 3 (quick) / 5 (thorough) pairs and 3 / 4 first order variables, 3 systems, 3 step sizes, every number of declared pairs: 10 steps of the same sizes and states as with nothing declared" ) {
    mc::splitAt( 100 ); const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; Model m = pickModel(); if( !m.P ) { mc::outcome( "nothing to declare" ); } unsigned k = m.P ? 1+mc::choose( m.P, "declared" ) : 0; double hh = mc::pick( std::vector<double>{0.05,0.003,0.2} );
    auto ra = std::make_shared<Rhs_>( m, 0 ), rb = std::make_shared<Rhs_>( m, k ); auto a = make( v, hh ), b = make( v, hh ); a->setOdeRhs( ra ); b->setOdeRhs( rb ); a->setInitialState( 0.5, mk( ra->loc(m.x0()) ) ); b->setInitialState( 0.5, mk( rb->loc(m.x0()) ) ); bool imp = v.solver == "i_euler", ros = v.solver.substr(0,4) == "rose"; double tol = imp ? 1e-7 : ros ? 1e-6 : 1e-11; std::vector<double> ha, hb; bool ad = !fixedSize( v );
    auto oa = a->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& x ) { ha.push_back( x.stepSize() ); } ), ob = b->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& x ) { hb.push_back( x.stepSize() ); } );
    for( int i=0; i<10; ++i ) { a->doStep(); b->doStep(); mc::step(); D ya = ra->nat( rd( a->initialState() ) ), yb = rb->nat( rd( b->initialState() ) ); MC_LOG( a->initialTime() << " " << str(ya) << " / " << b->initialTime() << " " << str(yb) ); double tt = ad ? (ros ? 1e-3 : 1e-6) : 1e-13; // adapted sizes follow error estimates, which are differences of nearly equal values
        MC_CHECK( close( a->initialTime(), b->initialTime(), tt ) && ha.size() == hb.size() && close( ha, hb, tt, 1e-15 ), "sizes", v.name << ": " << k << " of " << m.P << " pairs declared: steps " << str(hb) << " instead of " << str(ha) ); double u = tol + (ad ? 3*std::fabs( a->initialTime()-b->initialTime() ) : 0);
        MC_CHECK( close( ya, yb, u*(i+1), u*(i+1) ), "trajectory", v.name << ", step " << hh << ": " << k << " of " << m.P << " pairs declared, " << m.F << " further variables: after step " << i << " " << str(yb) << " instead of " << str(ya) ); }
    mc::Hash q; q.u( k ); hash( q, rd( b->initialState() ) ); mc::state( (uint64_t)q );
    }
MC_SCENARIO( parts, "explicit and implicit Euler and every explicit method on systems whose accelerations vanish: positions follow velocities exactly for every structure, and further variables do not enter" ) {
    const Variant& v = variants()[mc::choose( variants().size(), "solver" )]; unsigned n2 = mc::choose( 4 ), n1 = mc::choose( 4 ); if( !n2 && !n1 ) return; double hh = mc::pick( std::vector<double>{0.125,0.01,1} ); auto r = std::make_shared<FnRhs>( n2, n1, [=]( double, const D& ) { D g( n2+n1, 0.0 ); for( unsigned i=0; i<n1; ++i ) g[n2+i] = i+1; return g; } ); auto sv = make( v, hh ); sv->setOdeRhs( r ); D x; for( unsigned i=0; i<2*n2+n1; ++i ) x.push_back( i*0.5-1 ); sv->setInitialState( 1, mk(x) );
    for( int i=0; i<4; ++i ) { sv->doStep(); mc::step(); double e = sv->initialTime()-1; D y = rd( sv->initialState() ), w = x; for( unsigned j=0; j<n2; ++j ) w[j] += e*x[n2+j]; for( unsigned j=0; j<n1; ++j ) w[2*n2+j] += e*(j+1); double tol = v.solver == "i_euler" ? 1e-8 : 1e-9; MC_CHECK( close( y, w, tol, tol ), "motion", v.name << ", " << n2 << " pairs and " << n1 << " first order variables: " << str(y) << " instead of " << str(w) ); }
    mc::outcome( "ok" );
    }
MC_SCENARIO( mapping, "the right-hand side as a mapping: sizes, ids, values and Jacobian for every structure with up to 3 (quick) / 5 (thorough) pairs and 3 / 4 further variables and every number of declared pairs" ) {
    Model m = pickModel(); unsigned k = mc::choose( m.P+1 ); auto r = std::make_shared<Rhs_>( m, k ); double t = mc::pick( std::vector<double>{0,0.75,-2} ); auto mp = makeOdeRhsVectorMapping<VD>( r, t ); unsigned n = m.n(); MC_CHECK( r->varCount() == n && mp->inputSize() == n && mp->outputSize() == n && mp->time() == t, "sizes", "sizes " << mp->inputSize() << ", " << mp->outputSize() );
    auto ids = r->varIds(), ii = mp->inputIds(), oi = mp->outputIds(); MC_CHECK( ids.size() == n && ii == ids && oi == ids, "ids", "variable ids of a system with " << k << " pairs" );
    D x = r->loc( m.x0() ); V o; const VectorMapping<VD>& vm = *mp; vm.map( o, mk(x) ); D g = m.f( t, m.x0() ), want = r->loc( g ); MC_CHECK( close( rd(o), want, 1e-14, 1e-14 ), "values", str(rd(o)) << " instead of " << str(want) ); mp->setTime( t+1 ); vm.map( o, mk(x) ); MC_CHECK( close( rd(o), r->loc( m.f( t+1, m.x0() ) ), 1e-14, 1e-14 ), "time", "value at another time" ); mc::step(); mc::outcome( "ok" );
    }
}
