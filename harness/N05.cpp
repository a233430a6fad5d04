// N05: mapping adaptors, for all index sets and permutations.
#include "nenv.h"
#include <algorithm>
#include "ode_num_int/computeJacobian.h"
#include "ode_num_int/VectorNarrowingMapping.h"
#include "ode_num_int/VectorReorderingMapping.h"
#include "ode_num_int/DiagonalMapping.h"
#include "ode_num_int/MappingNormalizer.h"
using namespace h;
namespace mc { const char *assumptions[] = {
    "orderings are permutations; narrowing states have the size of the adapted mapping's input", nullptr }; }
namespace {
typedef std::vector<unsigned> U;
std::string su( const U& u ) { std::ostringstream o; o << "{"; for( unsigned x : u ) o << " " << x; o << " }"; return o.str(); }
struct F : FnMap {
    F( unsigned n, unsigned k ) : FnMap( n, k, [k]( const D& x ) { D f(k); for( unsigned i=0;i<k;++i ) { f[i] = 1000*(i+1); for( size_t j=0;j<x.size();++j ) f[i] += double(i+2)*double(1u<<(3*j))*x[j]; } return f; } ) {}
    U inputIds() const { U u; for( unsigned i=0;i<n;++i ) u.push_back( 10+i ); return u; }
    U outputIds() const { U u; for( unsigned i=0;i<k;++i ) u.push_back( 50+i ); return u; }
    };
U subset( unsigned n, const char *what ) { U u; int m = mc::choose( 1<<n, what ); for( unsigned i=0;i<n;++i ) if( m>>i&1 ) u.push_back(i); return u; }
U written( U u ) { switch( u.empty() ? 0 : mc::choose(3,"notation") ) { case 1: std::reverse( u.begin(), u.end() ); break; case 2: u.push_back( u[0] ); break; default: ; } return u; }
U perm( unsigned n ) { U left, p; for( unsigned i=0;i<n;++i ) left.push_back(i); while( !left.empty() ) { int k = mc::choose( (int)left.size(), "permutation" ); p.push_back( left[(size_t)k] ); left.erase( left.begin()+k ); } return p; }
template<class T> std::vector<T> keep( const std::vector<T>& x, const U& off ) { std::vector<T> r; for( unsigned i=0;i<x.size();++i ) if( std::find(off.begin(),off.end(),i)==off.end() ) r.push_back( x[i] ); return r; }
D point( unsigned n, double base ) { D x(n); for( unsigned i=0;i<n;++i ) x[i] = base + 0.25*i*i - 0.5*i; return x; }

void narrowing( unsigned n, unsigned k ) {
    auto f = std::make_shared<F>( n, k ); m::VectorNarrowingMapping<VD> nm; nm.setMapping( f );
    D state = point( n, -7 ); U in, out; int rounds = 1 + mc::choose( mc::tier(1,2) );
    for( int r=0;r<rounds;++r ) {
        in = subset( n, "disabled inputs" ); out = subset( k, "disabled outputs" ); U win = written( in ), wout = written( out );
        bool outFirst = mc::flip(); if( outFirst ) nm.setOutputNarrowing( wout ); nm.setInputNarrowing( win, mk(state) ); if( !outFirst ) nm.setOutputNarrowing( wout );
        MC_LOG( n << " inputs without " << su(win) << ", " << k << " outputs without " << su(wout) );
        }
    MC_CHECK( nm.disabledInputIndices() == in && nm.disabledOutputIndices() == out, "indices", "disabled indices read back as " << su(nm.disabledInputIndices()) << ", " << su(nm.disabledOutputIndices()) );
    MC_CHECK( same( rd(nm.stateForInputNarrowing()), state ), "state", "state read back differs" );
    MC_CHECK( nm.inputSize() == n-in.size() && nm.outputSize() == k-out.size(), "size", "sizes " << nm.inputSize() << ", " << nm.outputSize() );
    D full = point( n, 3 ), fullOut = point( k, 11 );
    D x = rd( nm.narrowInput( mk(full) ) ); MC_CHECK( same( x, keep(full,in) ), "narrow-input", "narrowed " << str(full) << " to " << str(x) );
    D fo = rd( nm.narrowOutput( mk(fullOut) ) ); MC_CHECK( same( fo, keep(fullOut,out) ), "narrow-output", "narrowed output " << str(fullOut) << " to " << str(fo) );
    D w = rd( nm.widenInput( mk(x) ) ), ww = full; for( unsigned i : in ) ww[i] = state[i]; MC_CHECK( same( w, ww ), "widen-input", "widened " << str(x) << " to " << str(w) << ", expected " << str(ww) );
    V t; nm.narrowInput( t, mk(w) ); MC_CHECK( same( rd(t), x ), "round-trip", "narrowing after widening gives " << str(rd(t)) );
    D want = keep( f->f( ww ), out ), got = rd( static_cast<Map&>(nm).map( mk(x) ) );
    MC_CHECK( same( got, want ), "map", "narrowed mapping gives " << str(got) << " at " << str(x) << ", expected " << str(want) );
    V dst( mc::flip() ? 0 : 5 ); nm.map( dst, mk(x) ); MC_CHECK( same( rd(dst), want ), "map", "narrowed mapping into a vector of another size gives " << str(rd(dst)) );
    MC_CHECK( nm.inputIds() == keep( f->inputIds(), in ) && nm.outputIds() == keep( f->outputIds(), out ), "ids", "ids " << su(nm.inputIds()) << ", " << su(nm.outputIds()) );
    for( unsigned bad : { n, n+1 } ) { U b = in; b.push_back( bad ); bool threw=false; try { nm.setInputNarrowing( b, mk(state) ); } catch( ctm::cxx::exception& ) { threw = true; } MC_CHECK( threw && nm.disabledInputIndices() == in, "bad-index", "input index " << bad << " accepted" ); }
    { U b = out; b.push_back( k ); bool threw=false; try { nm.setOutputNarrowing( b ); } catch( ctm::cxx::exception& ) { threw = true; } MC_CHECK( threw && nm.disabledOutputIndices() == out, "bad-index", "output index accepted" ); }
    mc::step(); mc::outcome( in.empty() ? out.empty() ? "identity" : "outputs" : out.empty() ? "inputs" : in == out ? "same indices" : "different indices" );
    mc::Hash hs; hash( hs, got ); hs.u(n).u(k); mc::state( hs );
    }
void reordering( unsigned n, unsigned k ) {
    auto f = std::make_shared<F>( n, k ); m::VectorReorderingMapping<VD> rm; rm.setMapping( f ); U p = perm(n), q = perm(k);
    rm.setInputOrdering( p ); rm.setOutputOrdering( q ); MC_LOG( "input order " << su(p) << ", output order " << su(q) );
    MC_CHECK( rm.inputOrdering() == p && rm.outputOrdering() == q && rm.inputSize() == n && rm.outputSize() == k, "settings", "settings read back differ" );
    D x = point( n, 2 ), xo(n); for( unsigned i=0;i<n;++i ) xo[i] = x[p[i]]; D y = f->f(x), yo(k); for( unsigned i=0;i<k;++i ) yo[i] = y[q[i]];
    MC_CHECK( same( rd(rm.orderInput(mk(x))), xo ), "order", "ordered input " << str(rd(rm.orderInput(mk(x)))) << ", expected " << str(xo) );
    MC_CHECK( same( rd(rm.unorderInput(mk(xo))), x ), "unorder", "unordering input gives " << str(rd(rm.unorderInput(mk(xo)))) );
    MC_CHECK( same( rd(rm.orderOutput(mk(y))), yo ), "order", "ordered output " << str(rd(rm.orderOutput(mk(y)))) );
    MC_CHECK( same( rd(rm.unorderOutput(mk(yo))), y ), "unorder", "unordering output gives " << str(rd(rm.unorderOutput(mk(yo)))) );
    V t; rm.orderInput( t, mk(x) ); V t2; rm.unorderInput( t2, t ); MC_CHECK( same(rd(t),xo) && same(rd(t2),x), "order", "in-place forms differ" ); rm.orderOutput( t, mk(y) ); rm.unorderOutput( t2, t ); MC_CHECK( same(rd(t),yo) && same(rd(t2),y), "order", "in-place forms differ" );
    D got = rd( static_cast<Map&>(rm).map( mk(xo) ) ); MC_CHECK( same( got, yo ), "map", "reordered mapping gives " << str(got) << " at " << str(xo) << ", expected " << str(yo) );
    U ii(n), oi(k); for( unsigned i=0;i<n;++i ) ii[i] = 10+p[i]; for( unsigned i=0;i<k;++i ) oi[i] = 50+q[i];
    MC_CHECK( rm.inputIds() == ii && rm.outputIds() == oi, "ids", "ids " << su(rm.inputIds()) << ", " << su(rm.outputIds()) );
    mc::step(); mc::outcome( "permutation" ); mc::Hash hs; hash( hs, got ); hs.u(n).u(k); mc::state( hs );
    }
} // anonymous
MC_SCENARIO( narrow, "all sizes 1..3 x 1..3 (thorough 1..4), all subsets of disabled inputs and outputs, indices written ascending, descending or with a duplicate, set in either order; thorough also a second setting" )
{
    unsigned n = 1u + (unsigned)mc::choose( mc::tier(3,4) ), k = 1u + (unsigned)mc::choose( 3 ); narrowing( n, k );
}
MC_SCENARIO( narrow4, "4 inputs and 4 outputs, all subsets" )
{
    narrowing( 4, 4 );
}
MC_SCENARIO( reorder, "all sizes 1..4 x 1..4 (thorough 5), all permutations of inputs and outputs" )
{
    int N = mc::tier(4,5); unsigned n = 1u + (unsigned)mc::choose( N ), k = 1u + (unsigned)mc::choose( N ); reordering( n, k );
}
MC_SCENARIO( compose, "reordering of a narrowing: 3x3 (all subsets and permutations)" )
{
    auto f = std::make_shared<F>( 3, 3 ); auto nm = std::make_shared< m::VectorNarrowingMapping<VD> >(); nm->setMapping( f ); D st = point(3,5); U in = subset(3,"in"), out = subset(3,"out");
    nm->setInputNarrowing( in, mk(st) ); nm->setOutputNarrowing( out ); m::VectorReorderingMapping<VD> rm; rm.setMapping( nm ); unsigned n = 3-(unsigned)in.size(), k = 3-(unsigned)out.size();
    U p = perm(n), q = perm(k); rm.setInputOrdering( p ); rm.setOutputOrdering( q );
    D z = point(n,1), x = st; { D u(n); for( unsigned i=0;i<n;++i ) u[p[i]] = z[i]; unsigned c=0; for( unsigned i=0;i<3;++i ) if( std::find(in.begin(),in.end(),i)==in.end() ) x[i] = u[c++]; }
    D y = keep( f->f(x), out ), w(k); for( unsigned i=0;i<k;++i ) w[i] = y[q[i]];
    D got = rd( static_cast<Map&>(rm).map( mk(z) ) ); MC_LOG( "without " << su(in) << "/" << su(out) << ", order " << su(p) << "/" << su(q) ); MC_CHECK( same(got,w), "map", "composition gives " << str(got) << ", expected " << str(w) );
    mc::step(); mc::outcome( "composition" ); mc::Hash hs; hash( hs, got ); mc::state( hs );
}
MC_SCENARIO( diagonal, "diagonal scaling and its inverse: up to 3 variables, every factor in {1,-2,0.25,1e-3,1e100}, points likewise" )
{
    static const std::vector<double> A = { 1, -2, 0.25, 1e-3, 1e100 }; unsigned n = 1u + (unsigned)mc::choose( 3 ); D d(n), x(n); for( auto& v : d ) v = mc::pick(A); for( unsigned i=0;i<n;++i ) x[i] = 3.5 - 2*double(i);
    m::DiagonalMapping<VD> dm( mk(d) ); MC_CHECK( dm.inputSize() == n && dm.outputSize() == n, "size", "sizes" );
    V y; dm.map( y, mk(x) ); V z; dm.unmap( z, y ); auto inv = dm.inv(); V u; inv.map( u, y ); V w; inv.unmap( w, mk(x) ); V z0( n ); z0 = static_cast<m::VectorBijectiveMapping<VD>&>(dm).unmap( mk(x) );
    for( unsigned i=0;i<n;++i ) {
        MC_CHECK( close( y[i], x[i]*d[i], 1e-15 ), "scale", "scaled " << x[i] << " by " << d[i] << " to " << y[i] );
        MC_CHECK( close( z[i], x[i], 1e-15 ) && close( u[i], x[i], 1e-15 ), "unscale", "scaling by " << d[i] << " and back takes " << x[i] << " to " << z[i] << " / " << u[i] );
        MC_CHECK( w[i] == y[i], "inverse", "inverse of the inverse" ); MC_CHECK( close( z0[i], x[i]/d[i], 1e-15 ), "unscale", "unscaled" );
        }
    MC_CHECK( inv.inputSize() == n && inv.outputSize() == n, "size", "sizes of the inverse" );
    mc::step(); mc::outcome( "scaled" ); mc::state( mc::Hash().d( y[0] ).u(n).d( y[n-1] ) );
}
MC_SCENARIO( normalizer, "normalisation of linear mappings with 1..3 variables, diagonal entries {4,-0.25,1e4,1e-4,0}: the normalised mapping is D f(D x) with unit diagonal Jacobian; a zero diagonal is rejected" )
{
    static const std::vector<double> A = { 4, -0.25, 1e4, 1e-4, 0 }; unsigned n = 1u + (unsigned)mc::choose( 3 ); D a(n); bool zero=false; for( auto& v : a ) { v = mc::pick(A); zero |= v==0; }
    auto f = [=]( const D& x ) { D y(n); for( unsigned i=0;i<n;++i ) y[i] = a[i]*x[i] + (n>1 ? 0.125*x[(i+1)%n] : 0) - double(i); return y; };
    auto mp = std::make_shared<FnMap>( n, f ); m::MappingNormalizer<VD> nz; nz.setMapping( mp ); D x0 = point(n,1); unsigned pre=0, post=0; const Map *seen = nullptr; D preX, postX, postY; nz.vectorMappingPreObservers.add( [&]( const V& x, const Map *m ) { ++pre; preX = rd(x); seen = m; } ); nz.vectorMappingPostObservers.add( [&]( const V& x, const V& y, const Map *m ) { ++post; postX = rd(x); postY = rd(y); if( m != seen ) seen = nullptr; } );
    bool threw=false; try { nz.normalize( mk(x0) ); } catch( ctm::cxx::exception& ) { threw = true; }
    MC_LOG( "diagonal " << str(a) ); MC_CHECK( threw == zero, "zero-diagonal", threw ? "regular mapping rejected" : "zero diagonal accepted" ); mc::step(); mc::outcome( threw ? "rejected" : "normalised" ); mc::state( mc::Hash().d(a[0]).d(a[n-1]).u(n) );
    if( threw ) return;
    MC_CHECK( nz.inputSize() == n && nz.outputSize() == n, "size", "sizes" );
    D d(n); for( unsigned i=0;i<n;++i ) { D e(n,0.0); e[i] = 1; V t = static_cast<Map&>(*nz.diagonalMapping()).map( mk(e) ); d[i] = t[i]; MC_CHECK( close( d[i]*d[i]*std::fabs(a[i]), 1, 1e-3 ), "normalisation", "scale factor " << d[i] << " for diagonal " << a[i] ); }
    D x = point(n,-2), s(n); for( unsigned i=0;i<n;++i ) s[i] = d[i]*x[i]; D want = f(s); for( unsigned i=0;i<n;++i ) want[i] *= d[i];
    D got = rd( static_cast<Map&>(nz).map( mk(x) ) ); for( unsigned i=0;i<n;++i ) MC_CHECK( close( got[i], want[i], 1e-12, 1e-12 ), "normalised-map", "normalised mapping gives " << str(got) << ", expected " << str(want) );
    MC_CHECK( pre == 1 && post == 1, "observers", "observers called " << pre << "/" << post << " times" );
    MC_CHECK( seen == &nz && same( preX, x ) && same( postX, x ) && same( postY, got ), "observed", "observers of the normalised mapping are given " << str(preX) << " / " << str(postX) << " -> " << str(postY) << " for " << str(x) << " -> " << str(got) );
}
MC_SCENARIO( solve_back, "solving a reordered and narrowed linear problem (3 variables, all permutations and disabled subsets of equal inputs and outputs) with the Newton solver and mapping back solves the original" )
{
    auto f = [=]( const D& x ) { return D{ 5*x[0]+x[1]-x[2]-1, x[0]-6*x[1]+2*x[2]+3, -x[0]+2*x[1]+7*x[2]-2 }; };
    auto mp = std::make_shared<FnMap>( 3, f ); U off = subset(3,"off"); if( off.size() == 3 ) mc::prune(); D st{ 0.5, -1, 2 };
    auto nm = std::make_shared< m::VectorNarrowingMapping<VD> >(); nm->setMapping( mp ); nm->setInputNarrowing( off, mk(st) ); nm->setOutputNarrowing( off );
    auto rm = std::make_shared< m::VectorReorderingMapping<VD> >(); rm->setMapping( nm ); U p = perm( 3-(unsigned)off.size() ); rm->setInputOrdering( p ); rm->setOutputOrdering( p );
    m::NewtonSolver<VD> ns; ns.setComponent( std::static_pointer_cast<Map>( rm ) ); ns.setInitialGuess( V( mk( D(p.size(),0.0) ) ) ); ns.iterationPerformer()->errorEstimator()->setRelativeTolerance( 1e9 );
    auto s = ns.run(); MC_LOG( "fixed " << su(off) << ", order " << su(p) ); MC_CHECK( s == m::NewtonSolver<VD>::Converged, "not-solved", "status " << s );
    D x = rd( nm->widenInput( rm->unorderInput( ns.currentSolution() ) ) ), r = f(x);
    for( unsigned i=0;i<3;++i ) if( std::find(off.begin(),off.end(),i)==off.end() ) MC_CHECK( std::fabs(r[i]) < 1e-5, "wrong-solution", "mapped back to " << str(x) << ", residual " << str(r) ); else MC_CHECK( x[i] == st[i], "wrong-solution", "held input changed" );
    mc::step(); mc::outcome( "solved" ); mc::Hash hs; hash( hs, x ); mc::state( hs );
}
MC_SCENARIO( large, "5..20 (thorough 40) inputs and outputs (equal or 3 more outputs): every kind of disabled set (none, all, first, last, middle, even, odd, all but one, a run of 4) on either side, reordering by identity, reversal, rotation by 1 and 4, swap of the ends, and both together" )
{
    unsigned n = 5u + (unsigned)mc::choose( mc::tier(16,36) ), k = mc::flip() ? n : n+3;
    auto fv = [=]( const D& x ) { D f(k); for( unsigned i=0;i<k;++i ) { f[i] = 1000*(i+1); for( size_t j=0;j<x.size();++j ) f[i] += double((i*7+j*5)%13+1)*x[j]; } return f; };
    auto set = []( unsigned n, int kind ) { U u; for( unsigned i=0;i<n;++i ) { bool in = kind==1 ? true : kind==2 ? i==0 : kind==3 ? i==n-1 : kind==4 ? i==n/2 : kind==5 ? i%2==0 : kind==6 ? i%2==1 : kind==7 ? i!=n/3 : kind==8 ? i>=n/2 && i<n/2+4 : false; if( in ) u.push_back(i); } return u; };
    auto ord = []( unsigned n, int kind ) { U u(n); for( unsigned i=0;i<n;++i ) u[i] = kind==1 ? n-1-i : kind==2 ? (i+1)%n : kind==3 ? (i+4)%n : kind==4 ? (i==0?n-1:i==n-1?0:i) : i; return u; };
    int ki = mc::choose(9), ko = mc::choose(9); U in = set(n,ki), out = set(k,ko); auto mp = std::make_shared<FnMap>( n, k, fv ); auto nm = std::make_shared< m::VectorNarrowingMapping<VD> >(); nm->setMapping( mp ); D st = point(n,5); nm->setInputNarrowing( in, mk(st) ); nm->setOutputNarrowing( out );
    unsigned a = n-(unsigned)in.size(), b = k-(unsigned)out.size(); MC_CHECK( nm->inputSize()==a && nm->outputSize()==b, "size", "sizes of a narrowed mapping" ); D full = point(n,3), ww = full; for( unsigned i : in ) ww[i] = st[i];
    D x = rd( nm->narrowInput( mk(full) ) ); MC_CHECK( same( x, keep(full,in) ), "narrow-input", "narrowed " << str(full) << " to " << str(x) ); D w = rd( nm->widenInput( mk(x) ) ); MC_CHECK( same( w, ww ), "widen-input", "widened " << str(x) << " to " << str(w) ); D fo = point(k,1); MC_CHECK( same( rd( nm->narrowOutput( mk(fo) ) ), keep(fo,out) ), "narrow-output", "narrowed output" );
    D y = keep( fv(ww), out ); MC_CHECK( same( rd( static_cast<Map&>(*nm).map( mk(x) ) ), y ), "map", n << " inputs without " << su(in) << ", " << k << " outputs without " << su(out) );
    m::VectorReorderingMapping<VD> rm; rm.setMapping( nm ); U p = ord(a,mc::choose(5)), q = ord(b,mc::choose(5)); rm.setInputOrdering( p ); rm.setOutputOrdering( q ); D xo(a), yo(b); for( unsigned i=0;i<a;++i ) xo[i] = x[p[i]]; for( unsigned i=0;i<b;++i ) yo[i] = y[q[i]];
    MC_LOG( n << " inputs without " << su(in) << " in order " << su(p) << ", " << k << " outputs without " << su(out) << " in order " << su(q) );
    MC_CHECK( same( rd( rm.orderInput( mk(x) ) ), xo ) && same( rd( rm.orderOutput( mk(y) ) ), yo ), "order", "ordered vectors differ" ); MC_CHECK( same( rd( rm.unorderInput( mk(xo) ) ), x ) && same( rd( rm.unorderOutput( mk(yo) ) ), y ), "unorder", "ordering and back" ); MC_CHECK( same( rd( static_cast<Map&>(rm).map( mk(xo) ) ), yo ), "map", "reordered and narrowed mapping" );
    m::DiagonalMapping<VD> dm( mk( point(n,0.375) ) ); V z, zz; dm.map( z, mk(full) ); auto iv = dm.inv(); iv.map( zz, z ); D pd = point(n,0.375); for( unsigned i=0;i<n;++i ) MC_CHECK( z[i] == pd[i]*full[i] && close( zz[i], full[i], 1e-15 ), "scale", "diagonal scaling of " << n << " variables" );
    mc::step(); mc::outcome( "large" ); mc::state( mc::Hash().u(n).u(k).u(ki).u(ko).u(p.empty()?0:p[0]).u(q.empty()?0:q[0]) );
}
