// A03: LU factorisation and solution for every sparsity pattern.
#include "lumodel.h"
#include "ode_num_int/LUFactorizer.h"
#include "ode_num_int/lu/util.h"
using namespace h;
namespace sp = ctm::math::sparse;
typedef ctm::math::LUFactorizer<double> LU;
typedef sp::SparseMatrix<double> SM;
typedef sp::SparseMatrixTemplate< sp::SparseMatrixFastData<double> > FM;
namespace mc { const char *assumptions[] = {
    "the order of the system is that of the highest stored row and column index",
    "matrices with a pivot below 1e-3 of the largest entry are not judged (no LU decomposition without pivoting to rely on)", nullptr }; }

namespace {
// Two value assignments: diagonally dominant, and one where pivots depend on fill-in
double value( int set, unsigned i, unsigned j ) {
    if( set == 0 ) return i==j ? 9.+i : 1.+((i*5+j*3)%4);
    if( set == 1 ) return i==j ? 1.+(i%2) : ((i*7+j*11)%5)-2.5;
    return i==j ? 0.5 : -3.+((i*3+j*5+1)%7);
    }
template<class Mx> void solveAll( const Mx& a, const Ent& e, const char *form, int ctor ) {
    bool acc = stencilOk(e), thrown = false; unsigned n = rowsOf(e);
    LU lu;
    try {
        if( ctor == 0 ) lu.setMatrix( a );
        else if( ctor == 1 ) lu = LU( a );
        else if( ctor == 2 ) lu = LU( a.begin(), a.end() );
        else lu.setMatrixFast( a );
        }
    catch( const std::exception& ) { thrown = true; }
    mc::step();
    MC_CHECK( thrown == !acc, "acceptance", (thrown?"rejected ":"accepted ") << form << " " << strE(e) );
    if( !acc ) { mc::outcome( "rejected" ); return; }
    MC_CHECK( lu.size() == n && !lu.empty(), "size", "size " << lu.size() << " of " << strE(e) );
    for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) { auto it = e.find(Pos(i,j)); double x = it==e.end()?0:it->second;
        MC_CHECK( same(lu.elementAt(i,j),x), "element-before", "element (" << i << "," << j << ") is " << lu.elementAt(i,j) << " before factorisation, expected " << x << " in " << strE(e) ); }
    DenseLU ref(e);
    if( !ref.ok ) { mc::outcome( "no-lu" ); return; }
    double tol = 1e-12*(1+ref.growth)*(1+ref.growth);
    double amax = 0; for( auto& x : e ) amax = std::max(amax,std::fabs(x.second));
    MC_CHECK( !lu.isFactorized(), "factorized-flag", "reports factorised before the first solve" );
    for( unsigned k=0;k<=n;++k ) {
        D b(n,0.); if( k<n ) b[k] = 1; else for( unsigned i=0;i<n;++i ) b[i] = 1.+i*0.5-(i==1)*4;
        D x = b; lu.solve( x.data() );
        D r(n,0.); for( auto& t : e ) r[t.first.first] += t.second*x[t.first.second];
        double xn = normOf(x);
        for( unsigned i=0;i<n;++i ) MC_CHECK( std::isfinite(x[i]) && std::fabs(r[i]-b[i]) <= tol*(1+amax*xn), "solve",
            form << " " << strE(e) << " solved for " << str(b) << " gives " << str(x) << " with A*x = " << str(r) << ", reference " << str(ref.solve(b)) );
        mc::step();
        }
    MC_CHECK( lu.isFactorized(), "factorized-flag", "does not report factorised after a solve" );
    auto back = ctm::math::luToMatrix( lu );
    MC_CHECK( back.size() == std::make_pair(n,n), "expand-size", "expanded size" );
    for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) { auto it = e.find(Pos(i,j)); double x = it==e.end()?0:it->second;
        MC_CHECK( std::fabs(back.get(i,j)-x) <= tol*amax, "expand", "expanding the factors of " << strE(e) << " gives " << back.get(i,j) << " at (" << i << "," << j << ")" );
        MC_CHECK( std::fabs(lu.elementAt(i,j)-x) <= tol*amax, "element-after", "element (" << i << "," << j << ") after factorisation of " << strE(e) << " is " << lu.elementAt(i,j) ); }
    mc::outcome( "solved" );
    }
void run( const Ent& e ) {
    mc::Hash hs; for( auto& x : e ) hs.u(x.first.first*16+x.first.second).d(x.second); mc::state( hs );
    MC_LOG( "factorise and solve " << strE(e) );
    unsigned n = std::max(rowsOf(e),colsOf(e));
    SM s(n,n); for( auto& x : e ) s.at(x.first) = x.second;
    solveAll( s, e, "editable", 0 );
    }
Ent pattern( unsigned n, int set, bool diag ) {
    Ent e;
    for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) if( (diag && i==j) || mc::flip() ) e[Pos(i,j)] = value(set,i,j);
    if( e.empty() ) mc::prune();
    return e;
    }
} // anonymous

MC_SCENARIO( patterns3, "all 2^(n*n) nonzero patterns of order n<=3, 3 value sets, all unit right-hand sides and one full, all ways to load (editable, compact, element list in reverse order)" )
{
    unsigned n = (unsigned)mc::choose(3)+1; int set = mc::choose(3); Ent e = pattern(n,set,false); int how = mc::choose(6);
    mc::Hash hs; for( auto& x : e ) hs.u(x.first.first*16+x.first.second).d(x.second); mc::state( hs );
    MC_LOG( "factorise and solve " << strE(e) << " way " << how );
    unsigned m = std::max(rowsOf(e),colsOf(e));
    SM s(m,m); for( auto& x : e ) s.at(x.first) = x.second;
    if( how == 4 ) { FM f; f = s; solveAll( f, e, "compact", 0 ); }
    else if( how == 5 ) { std::vector< std::pair<Pos,double> > v( e.rbegin(), e.rend() ); solveAll( v, e, "reversed", 0 ); }
    else solveAll( s, e, "editable", how );
}
MC_SCENARIO( patterns4, "all 2^16 nonzero patterns of order 4, 3 value sets" )
{
    int set = mc::choose(3); run( pattern(4,set,false) );
}
MC_SCENARIO( diagonal5, "all 2^20 off-diagonal patterns of order 5 with full diagonal (quick: rows 0,1 and columns 0..2 arbitrary, rest fixed sparse)" )
{
    int set = 1;
    if( mc::thorough() ) run( pattern(5,set,true) );
    else {
        Ent e; for( unsigned i=0;i<5;++i ) for( unsigned j=0;j<5;++j ) if( i==j || ((i<2 || j<3) && mc::flip()) ) e[Pos(i,j)] = value(set,i,j);
        run( e );
        }
}
MC_SCENARIO_T( patterns5, "all 2^25 nonzero patterns of order 5", 2 )
{
    mc::splitAt( 4000 ); run( pattern(5,1,false) );
}
MC_SCENARIO( structured, "orders 1..9: every combination of lower and upper bandwidth 0..n-1, of arrow heads (first/last row/column full) and of one extra entry anywhere" )
{
    unsigned n = (unsigned)mc::choose(9)+1; unsigned lb = (unsigned)mc::choose((int)n), ub = (unsigned)mc::choose((int)n);
    int arrow = mc::choose(16); unsigned ex = (unsigned)mc::choose((int)(n*n));
    Ent e; for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) {
        bool in = (i>=j ? i-j<=lb : j-i<=ub) || (arrow&1 && i==0) || (arrow&2 && j==0) || (arrow&4 && i==n-1) || (arrow&8 && j==n-1) || i*n+j==ex;
        if( in ) e[Pos(i,j)] = value(0,i,j) + (i==j ? 2*n : 0); }
    if( !mc::thorough() && n > 6 && (lb > 3 || ub > 3) ) mc::prune();
    run( e );
}
MC_SCENARIO( explicit_zeros, "order 3: every position absent, an explicit zero, or nonzero (3^9)" )
{
    Ent e; for( unsigned i=0;i<3;++i ) for( unsigned j=0;j<3;++j ) { int k = mc::choose(3); if( k ) e[Pos(i,j)] = k==1 ? 0. : value(1,i,j); }
    if( e.empty() ) mc::prune();
    run( e );
}
MC_SCENARIO( large, "orders 10..24, 32, 33 (thorough 10..40, 64): lower and upper bandwidths of 0, 1, 2, 7, n-1, all 16 arrow heads, with one extra entry at a corner, the middle or none" )
{
    std::vector<unsigned> ns; for( unsigned i=10; i<=(unsigned)mc::tier(24,40); ++i ) ns.push_back(i); if( mc::thorough() ) ns.push_back(64); else { ns.push_back(32); ns.push_back(33); }
    unsigned n = mc::pick(ns); const std::vector<unsigned> bw = { 0, 1, 2, 7, n-1 };
    unsigned lb = mc::pick(bw), ub = mc::pick(bw); int arrow = mc::choose(16), ex = mc::choose(4);
    if( arrow && lb+ub > 14 ) mc::prune();
    if( !mc::thorough() && n > 17 && (arrow & (arrow-1)) ) mc::prune();
    Ent e; for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) {
        bool in = (i>=j ? i-j<=lb : j-i<=ub) || (arrow&1 && i==0) || (arrow&2 && j==0) || (arrow&4 && i==n-1) || (arrow&8 && j==n-1) || (ex==1 && i==0 && j==n-1) || (ex==2 && i==n-1 && j==0) || (ex==3 && i==n/2 && j==1);
        if( in ) e[Pos(i,j)] = value(0,i,j) + (i==j ? 2*n : 0); }
    run( e );
}
