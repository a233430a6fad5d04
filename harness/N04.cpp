// N04: numerical Jacobians for all sparsity patterns.
#include "ddirs.h"
#include "ode_num_int/JacobianWidthBasedTrimmer.h"
#include "ode_num_int/JacobianThresholdBasedTrimmer.h"
#include "ode_num_int/SparseJacobianCalculator.h"
#include "ode_num_int/computeJacobian.h"
using namespace h;
namespace mc { const char *assumptions[] = {
    "differencing accuracy is judged on functions with coefficients of order one (tolerance 1e-4)",
    "the sparse provider keeps the pattern found at its first evaluation until a hard reset (hardResetMayHelp says so): its values are judged where the problem has no dependencies outside that pattern, its pattern always", nullptr }; }
namespace {
typedef m::sparse::SparseMatrixTemplate< m::sparse::SparseMatrixFastData<double> > Fast;
typedef std::map< std::pair<unsigned,unsigned>, double > E;
template<class S> E entries( const S& J ) { E e; for( auto& x : J ) { MC_CHECK( !e.count(x.first), "duplicate", "entry " << x.first.first << "," << x.first.second << " stored twice" ); e[x.first] = x.second; } return e; }
std::string str( const E& e ) { std::ostringstream o; o.precision(10); for( auto& x : e ) o << " (" << x.first.first << "," << x.first.second << ")=" << x.second; return o.str(); }
double coef( unsigned i, unsigned j ) { static const double c[] = { 2, -3, 0.5, 1.25, -0.75, 4, -1.5 }; return c[(i*3+j*2+i*j)%7]; }
// row i depends on column j iff bit i*n+j of the pattern is set; quadratic
D eval( unsigned k, unsigned n, unsigned pat, const D& x ) { D f(k); for( unsigned i=0;i<k;++i ) { f[i] = 0.5*i; for( unsigned j=0;j<n;++j ) if( pat>>(i*n+j)&1 ) f[i] += coef(i,j)*(x[j] + 0.25*x[j]*x[j]); } return f; }
double deriv( unsigned i, unsigned j, const D& x ) { return coef(i,j)*(1+0.5*x[j]); }
D pt( unsigned n, int which ) { D x(n); for( unsigned i=0;i<n;++i ) x[i] = which == 0 ? 0.0 : which == 1 ? 0.5*i-1.25 : 10.0-3*i; return x; }
unsigned pattern( unsigned bits ) { unsigned p = 0; for( unsigned b=0;b<bits;b+=8 ) p |= (unsigned)mc::choose( 1<<std::min(8u,bits-b), "pattern" )<<b; return p; }
void dense( unsigned n, unsigned pat ) {
    FnMap f( n, [=]( const D& x ) { return eval( n, n, pat, x ); } ); D x = pt( n, mc::choose(3) ); V xv = mk(x); MC_LOG( n << " variables, pattern " << std::hex << pat << std::dec << " at " << h::str(x) );
    auto J = m::computeJacobian( f, xv ); E e = entries( J ); mc::step();
    MC_CHECK( same( rd(xv), x ), "point-changed", "evaluation point changed to " << h::str(rd(xv)) ); MC_CHECK( f.evals <= n+1, "evaluations", f.evals << " evaluations for " << n << " columns" );
    MC_CHECK( J.size() == m::sparse::SparseMatrixCommonTypes::Index(n,n), "size", "size of the Jacobian" );
    for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) { bool in = pat>>(i*n+j)&1; auto it = e.find({i,j});
        MC_CHECK( in == (it != e.end()), in?"missing-entry":"extra-entry", "entry " << i << "," << j << (in?" is missing":" is stored") );
        if( in ) MC_CHECK( close( it->second, deriv(i,j,x), 1e-4, 1e-4 ), "wrong-entry", "entry " << i << "," << j << " is " << it->second << ", derivative " << deriv(i,j,x) ); }
    mc::outcome( e.empty() ? "zero" : "matrix" ); mc::Hash hs; for( auto& q : e ) hs.d(q.second); mc::state( hs );
    }
void grouped( unsigned k, unsigned n, unsigned pat ) {
    // a mapping that depends on a subset of the pattern (all of it, or all but the first entry)
    FnMap f( n, k, [=]( const D& x ) { return eval( k, n, pat, x ); } ); m::sparse::SparseMatrix<double> s( k, n ); unsigned cnt=0; for( unsigned i=0;i<k;++i ) for( unsigned j=0;j<n;++j ) if( pat>>(i*n+j)&1 ) { s.at(i,j) = 77; ++cnt; }
    if( cnt == 0 ) mc::prune();
    Fast J; J = s; MC_LOG( k << "x" << n << ", pattern " << std::hex << pat ); m::SparseJacobianCalculator<VD> c( &J ); MC_CHECK( c.mappingEvaluationsRequired() <= n+1, "evaluations", c.mappingEvaluationsRequired() << " evaluations announced for " << n << " columns" );
    for( int w=1;w<=2;++w ) {
        D x = pt( n, w ); V xv = mk(x); unsigned e0 = f.evals; c.calculate( f, xv, 1e-6 ); mc::step();
        MC_CHECK( f.evals-e0 == c.mappingEvaluationsRequired(), "evaluations", f.evals-e0 << " evaluations, announced " << c.mappingEvaluationsRequired() ); MC_CHECK( same( rd(xv), x ), "point-changed", "evaluation point changed" );
        E e = entries( J ); MC_CHECK( e.size() == cnt, "pattern", "pattern changed" ); D f0 = eval(k,n,pat,x);
        for( auto& q : e ) { unsigned i=q.first.first, j=q.first.second; MC_CHECK( pat>>(i*n+j)&1, "pattern", "pattern changed" ); D y(x); y[j] += 1e-6; double dv = (eval(k,n,pat,y)[i]-f0[i])/1e-6;
            MC_CHECK( q.second == dv, "sparse-differs", "entry " << i << "," << j << " is " << q.second << ", evaluated column by column " << dv ); }
        }
    // structurally optimal in the sense that a diagonal pattern needs one group
    mc::outcome( "group count " + std::to_string( c.mappingEvaluationsRequired()-1 ) ); mc::state( mc::Hash().u(pat).u(n).u(k) );
    }
struct TrimW { unsigned w; }; 
std::shared_ptr< m::JacobianTrimmer<VD> > widthTrimmer( unsigned w ) { auto t = std::make_shared< m::JacobianWidthBasedTrimmer<VD> >(); auto p = t->parameters(); p["width"] = w; t->setParameters( p ); return t; }
std::shared_ptr< m::JacobianTrimmer<VD> > thresholdTrimmer( double w ) { auto t = std::make_shared< m::JacobianThresholdBasedTrimmer<VD> >(); auto p = t->parameters(); p["threshold"] = w; t->setParameters( p ); return t; }
// nonlinear couplings: which entries are nonzero depends on the point
struct P { unsigned n; std::function<D(const D&)> f; };
P problems( int k ) { switch( k ) {
    case 0: return { 2, []( const D& x ) { return D{ x[0]*x[1]+x[0], x[1]*x[1]+2*x[1]*x[0]+x[1] }; } };
    case 1: return { 3, []( const D& x ) { return D{ 2*x[0], x[1]+x[2]*x[0], 3*x[2]-x[0] }; } };
    default: return { 1, []( const D& x ) { return D{ x[0]*x[0]+x[0] }; } }; } }
E full( const P& p, const D& x ) { E e; D f0 = p.f(x); for( unsigned j=0;j<p.n;++j ) { D y(x); y[j] += 1e-6; D g = p.f(y); for( unsigned i=0;i<p.n;++i ) if( g[i]-f0[i] != 0 ) e[{i,j}] = (g[i]-f0[i])/1e-6; } return e; }
void history( bool sparse, int depth ) {
    std::shared_ptr< m::JacobianProvider<VD> > jp; if( sparse ) jp = std::make_shared< m::SparseJacobianProvider<VD> >(); else jp = std::make_shared< m::DefaultJacobianProvider<VD> >();
    P p = problems( 0 ); auto setMap = [&] { auto f = p.f; jp->setMapping( std::make_shared<FnMap>( p.n, f ) ); }; setMap();
    int trim = 0; bool havePattern = false; E pattern; MC_LOG( (sparse?"sparse":"dense") << " provider" );
    MC_CHECK( jp->hardResetMayHelp() == sparse, "may-help", "hardResetMayHelp" );
    for( int s=0;s<depth;++s ) {
        int op = mc::choose( 7, "op" );
        if( op <= 2 ) {
            D x = op == 0 ? D(p.n,0.0) : pt( p.n, op ); V xv = mk(x); MC_LOG( "evaluate at " << h::str(x) ); jp->computeJacobian( xv ); mc::step();
            E e = full( p, x ), want; MC_CHECK( same( rd(xv), x ), "point-changed", "evaluation point changed" );
            if( trim == 1 ) { for( auto& q : e ) if( q.first.first == q.first.second ) want.insert( q ); havePattern = false; }
            else if( trim == 2 ) { double mx=0; for( auto& q : e ) mx = std::max(mx,std::fabs(q.second)); for( auto& q : e ) if( q.first.first == q.first.second || std::fabs(q.second) >= 0.5*mx ) want.insert( q ); havePattern = false; }
            else if( !sparse || !havePattern ) { want = e; havePattern = true; pattern = e; }
            else for( auto& q : pattern ) want[q.first] = e.count(q.first) ? e[q.first] : 0;
            E got = entries( jp->jacobian() ); bool inside = trim || !sparse; if( !inside ) { inside = true; for( auto& q : e ) inside &= want.count(q.first) != 0; }
            MC_CHECK( got.size() == want.size(), "entries", "Jacobian has entries" << str(got) << ", expected" << str(want) );
            for( auto& q : want ) { MC_CHECK( got.count(q.first), "entries", "Jacobian has entries" << str(got) << ", expected" << str(want) ); if( inside ) MC_CHECK( close( got[q.first], q.second, 1e-6, 1e-6 ), "values", "Jacobian" << str(got) << ", expected" << str(want) ); }
            mc::outcome( trim ? "trimmed" : want.size() == e.size() ? "full" : "kept pattern" ); mc::Hash hs; for( auto& q : got ) hs.d(q.second).u(q.first.first).u(q.first.second); mc::state( hs );
            }
        else if( op == 3 ) { jp->hardReset(); havePattern = false; MC_LOG( "hard reset" ); MC_CHECK( jp->jacobian().empty(), "hard-reset", "Jacobian kept after a hard reset" ); }
        else if( op == 4 ) { int t = mc::choose(3); if( t == trim ) mc::prune(); trim = t; jp->setJacobianTrimmer( t == 0 ? nullptr : t == 1 ? widthTrimmer(1) : thresholdTrimmer(0.5) ); MC_LOG( (t==0?"no trimmer":t==1?"diagonal trimmer":"threshold trimmer") ); }
        else { p = problems( 1 + (op-5) ); setMap(); jp->hardReset(); havePattern = false; MC_LOG( "another problem, hard reset" ); }
        }
    }
} // anonymous
MC_SCENARIO( dense_jacobian, "all sparsity patterns of 1..3 variables (thorough also 4), three points" )
{
    unsigned n = 1u + (unsigned)mc::choose( mc::tier(3,4) ); dense( n, pattern( n*n ) );
}
MC_SCENARIO( sparse_jacobian, "all non-empty patterns of all sizes 1..3 x 1..3 and 3x4, 4x3" )
{
    int which = mc::choose( 11 ); unsigned k = which < 9 ? 1u+(unsigned)which/3 : which == 9 ? 3 : 4, n = which < 9 ? 1u+(unsigned)which%3 : which == 9 ? 4 : 3;
    grouped( k, n, pattern( n*k ) );
}
MC_SCENARIO( sparse_4x4, "all 4x4 patterns" )
{
    grouped( 4, 4, pattern( 16 ) );
}
MC_SCENARIO( structured, "band, arrow and block patterns of order 5 (bit set combinations of 8 structural parts)" )
{
    const unsigned n=5; unsigned pat=0; int parts = mc::choose( 256 ); for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) {
        bool in = ((parts&1)&&i==j) || ((parts&2)&&i==j+1) || ((parts&4)&&j==i+1) || ((parts&8)&&i==0) || ((parts&16)&&j==0) || ((parts&32)&&i==n-1) || ((parts&64)&&j==n-1) || ((parts&128)&&(i/2==j/2)); if( in ) pat |= 1u<<(i*n+j); }
    grouped( n, n, pat );
}
MC_SCENARIO( providers, "dense and sparse provider: all histories of 4 (thorough 5) operations: evaluate at one of three points (where different entries vanish), hard reset, set or remove a trimmer, change the problem and its size" )
{
    history( mc::flip(), mc::tier(4,5) );
}
MC_SCENARIO( trimmers, "width 0..4 and thresholds {0,0.1,0.5,1,2} on all 3x3 patterns with entries of three magnitudes, any one of them possibly stored as zero" )
{
    unsigned pat = (unsigned)mc::choose( 512, "pattern" ); int zero = mc::choose( 10, "stored zero" ) - 1; m::sparse::SparseMatrix<double> J( 3, 3 ); E e; for( unsigned i=0;i<3;++i ) for( unsigned j=0;j<3;++j ) if( pat>>(i*3+j)&1 ) { static const double v[] = { 1, -0.5, 0.05 }; J.at(i,j) = e[{i,j}] = zero == int(i*3+j) ? 0 : v[(i+2*j+i*j)%3]*((i&1)?-1:1); }
    bool w = mc::flip(); int k = mc::choose(5); static const double T[] = { 0, 0.1, 0.5, 1, 2 }; auto t = w ? widthTrimmer( (unsigned)k ) : thresholdTrimmer( T[k] ); E got = entries( t->trimJacobian( J ) ), want; double mx=0; for( auto& q : e ) mx = std::max(mx,std::fabs(q.second));
    for( auto& q : e ) { int d = std::abs( (int)q.first.first-(int)q.first.second ); bool in = k == 0 || (w ? d < k : d == 0 || std::fabs(q.second) >= T[k]*mx); if( in ) want.insert( q ); }
    MC_LOG( (w?"width ":"threshold ") << (w?double(k):T[k]) << " on" << str(e) ); MC_CHECK( got == want, "trim", "kept" << str(got) << ", expected" << str(want) ); mc::step(); mc::outcome( got.size() == e.size() ? "all kept" : got.empty() ? "all removed" : "some kept" ); mc::state( mc::Hash().u(pat).u(got.size()).u((unsigned)k).u(w) );
}
namespace {
std::vector<char> bigPattern( unsigned k, unsigned n, int kind ) { std::vector<char> p( k*n ); for( unsigned i=0;i<k;++i ) for( unsigned j=0;j<n;++j ) {
    bool in = kind==0 ? i==j : kind==1 ? (i<=j+1 && j<=i+1) : kind==2 ? (i==j || i==0) : kind==3 ? (i==j || j==0 || j==n-1) : kind==4 ? i/3==j/3 : kind==5 ? (i*7+j*5)%4==0 || i==j : kind==6 ? (i<=j && j<=i+6) : kind==7 ? (i<=j+1 && j<=i+1) || (i+4==j) || (i==j+9) : kind==8 ? true : (i==0 && j==n-1) || (j==0 && i==k-1); p[i*n+j] = in; } return p; }
D bigEval( unsigned k, unsigned n, const std::vector<char>& p, const D& x ) { D f(k); for( unsigned i=0;i<k;++i ) { f[i] = 0.5*(i%4); for( unsigned j=0;j<n;++j ) if( p[i*n+j] ) f[i] += coef(i,j)*(x[j] + 0.25*x[j]*x[j]); } return f; }
}
MC_SCENARIO( large, "k x n mappings, n in {5,6,8,9,12,16,17,24} (thorough also 32, 33, 40), k in {n, n-2, n+3}, 10 patterns (diagonal, bands, arrows, blocks, scattered, full, corners), two points: dense evaluation, grouped evaluation over the pattern and over the pattern with further entries that are zero" )
{
    std::vector<unsigned> ns = { 5, 6, 8, 9, 12, 16, 17, 24 }; if( mc::thorough() ) for( unsigned q : { 32u, 33u, 40u } ) ns.push_back(q);
    unsigned n = mc::pick(ns); int dk = mc::choose(3); unsigned k = dk==0 ? n : dk==1 ? n-2 : n+3; int kind = mc::choose(10); bool more = mc::flip(); auto p = bigPattern(k,n,kind), q = p; MC_LOG( k << "x" << n << " pattern " << kind << (more?" with zeros":"") );
    if( more ) for( unsigned i=0;i<k;++i ) for( unsigned j=0;j<n;++j ) if( (i+2*j)%5 == 1 || (j==1 && i>2) ) q[i*n+j] = 1;
    FnMap f( n, k, [=]( const D& x ) { return bigEval( k, n, p, x ); } );
    auto ptb = [&]( int w ) { D x(n); for( unsigned i=0;i<n;++i ) x[i] = w ? 0.5*(i%5)-0.75 : 3.0-(i%7); return x; };
    if( k == n && !more ) { D x = ptb(1); V xv = mk(x); auto J = m::computeJacobian( f, xv ); E e = entries(J); MC_CHECK( same(rd(xv),x), "point-changed", "evaluation point changed" ); for( unsigned i=0;i<k;++i ) for( unsigned j=0;j<n;++j ) { bool st = e.count({i,j}) != 0; MC_CHECK( st == (p[i*n+j] != 0), p[i*n+j]?"missing-entry":"extra-entry", "entry " << i << "," << j << " of order " << n << " pattern " << kind ); if( st ) MC_CHECK( std::fabs( e[std::make_pair(i,j)]-deriv(i,j,x) ) <= 1e-4*(1+std::fabs(deriv(i,j,x))), "wrong-entry", "entry " << i << "," << j << " of order " << n << " is " << e[std::make_pair(i,j)] << ", derivative " << deriv(i,j,x) ); } }
    m::sparse::SparseMatrix<double> s( k, n ); unsigned cnt = 0; for( unsigned i=0;i<k;++i ) for( unsigned j=0;j<n;++j ) if( q[i*n+j] ) { s.at(i,j) = 7; ++cnt; }
    Fast J; J = s; m::SparseJacobianCalculator<VD> c( &J ); MC_CHECK( c.mappingEvaluationsRequired() <= n+1, "evaluations", c.mappingEvaluationsRequired() << " evaluations for " << n << " columns" );
    for( int w=0;w<2;++w ) {
        D x = ptb(w); V xv = mk(x); unsigned e0 = f.evals; c.calculate( f, xv, 1e-6 ); mc::step(); MC_CHECK( f.evals-e0 == c.mappingEvaluationsRequired(), "evaluations", f.evals-e0 << " evaluations, announced " << c.mappingEvaluationsRequired() ); MC_CHECK( same( rd(xv), x ), "point-changed", "evaluation point changed" );
        E e = entries(J); MC_CHECK( e.size() == cnt, "pattern", "pattern changed" ); D f0 = bigEval(k,n,p,x);
        for( unsigned j=0;j<n;++j ) { D y(x); y[j] += 1e-6; D g = bigEval(k,n,p,y); for( unsigned i=0;i<k;++i ) if( q[i*n+j] ) { double dv = (g[i]-f0[i])/1e-6; MC_CHECK( e.count({i,j}), "pattern", "entry " << i << "," << j << " lost" ); double v = e[std::make_pair(i,j)]; MC_CHECK( std::fabs( v-dv ) <= 1e-7*(1+std::fabs(dv)), "sparse-differs", k << "x" << n << " pattern " << kind << ": entry " << i << "," << j << " is " << v << ", evaluated column by column " << dv ); } }
        }
    mc::outcome( "pattern " + std::to_string(kind) ); mc::state( mc::Hash().u(n).u(k).u(kind).u(more) );
}
MC_SCENARIO( large_trimmers, "orders 4..20, full and band matrices with entries of many magnitudes: widths 0..n+1 and thresholds {0, 0.1, 0.5, 1, 2}" )
{
    unsigned n = 4u + (unsigned)mc::choose( 17 ); bool band = mc::flip(); m::sparse::SparseMatrix<double> J( n, n ); E e; for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) if( !band || (i<=j+2 && j<=i+4) ) { double v = (((i*5+j*3)%11)-5.0)*0.25; if( v ) { J.at(i,j) = v; e[{i,j}] = v; } }
    bool w = mc::flip(); int k = mc::choose( w ? (int)n+2 : 5 ); static const double T[] = { 0, 0.1, 0.5, 1, 2 }; auto t = w ? widthTrimmer( (unsigned)k ) : thresholdTrimmer( T[k] ); E got = entries( t->trimJacobian( J ) ), want; double mx=0; for( auto& q : e ) mx = std::max(mx,std::fabs(q.second));
    for( auto& q : e ) { int d = std::abs( (int)q.first.first-(int)q.first.second ); bool in = k == 0 || (w ? d < k : d == 0 || std::fabs(q.second) >= T[k]*mx); if( in ) want.insert( q ); }
    MC_LOG( "order " << n << (w?" width ":" threshold ") << (w?double(k):T[k]) ); MC_CHECK( got == want, "trim", "order " << n << (w?" width ":" threshold ") << (w?double(k):T[k]) << ": kept " << got.size() << " entries, expected " << want.size() ); mc::step(); mc::outcome( got.size() == e.size() ? "all kept" : "trimmed" ); mc::state( mc::Hash().u(n).u(k).u(w) );
}
