// A04: histories of one LUFactorizer object against the matrix it should currently hold.
#include "lumodel.h"
#include "ode_num_int/LUFactorizer.h"
#include "ode_num_int/lu/util.h"
#include <memory>
using namespace h;
typedef ctm::math::LUFactorizer<double> LU;
typedef std::vector< std::pair<Pos,double> > EL;
namespace mc { const char *assumptions[] = {
    "after a rejected load only a further load is judged",
    "the secant condition is judged for rows in which the step has a component the update may use",
    "proportional updates are judged where the new row is not zero", nullptr }; }
namespace {
struct Mat { const char *name; Ent e; };
std::vector<Mat> lib() {
    std::vector<Mat> L; auto add = [&]( const char *n, std::vector<std::vector<double>> a ) {
        Ent e; for( unsigned i=0;i<a.size();++i ) for( unsigned j=0;j<a[i].size();++j ) if( a[i][j] != 0 ) e[Pos(i,j)] = a[i][j]; L.push_back({n,e}); };
    add( "one", {{4}} );
    add( "diag2", {{2,0},{0,-3}} );
    add( "full2", {{3,1},{-1,4}} );
    add( "diag3", {{2,0,0},{0,5,0},{0,0,-4}} );
    add( "tri3", {{4,1,0},{2,5,1},{0,-1,6}} );
    add( "full3", {{5,1,2},{-1,6,1},{2,1,7}} );
    add( "full3b", {{-6,2,1},{1,-5,2},{1,-2,8}} );
    add( "arrow3", {{4,1,2},{1,5,0},{2,0,6}} );
    add( "upper3", {{3,0,1},{0,4,2},{0,0,5}} );
    add( "arrow4", {{6,1,0,1},{0,5,0,2},{1,0,4,0},{0,1,1,7}} );
    add( "band4", {{4,1,0,0},{1,4,1,0},{0,1,4,1},{0,0,1,4}} );
    add( "bad:nodiag", {{0,1,0},{1,2,0},{0,0,3}} );       // stencil does not cover the diagonal
    add( "bad:wide", {{1,0,2},{0,3,1}} );                 // not square
    return L;
    }
bool isBad( const Mat& m ) { return m.name[0]=='b' && m.name[1]=='a' && m.name[2]=='d'; }

struct Dense { unsigned n=0; std::vector<double> a; double& at( unsigned i, unsigned j ) { return a[i*n+j]; } double at( unsigned i, unsigned j ) const { return a[i*n+j]; } };
Dense dense( const Ent& e ) { Dense d; d.n = rowsOf(e); d.a.assign(d.n*d.n,0); for( auto& x : e ) d.at(x.first.first,x.first.second) = x.second; return d; }
Ent ents( const Dense& d ) { Ent e; for( unsigned i=0;i<d.n;++i ) for( unsigned j=0;j<d.n;++j ) if( d.at(i,j)!=0 || i==j ) e[Pos(i,j)] = d.at(i,j); return e; }
double amax( const Dense& d ) { double m=0; for( double x : d.a ) m = std::max(m,std::fabs(x)); return m; }
D mul( const Dense& m, const D& s ) { D r(m.n,0.); for( unsigned i=0;i<m.n;++i ) for( unsigned j=0;j<m.n;++j ) r[i] += m.at(i,j)*s[j]; return r; }

struct World {
    std::unique_ptr<LU> lu; Dense cur; Ent loaded; bool known=false; bool fresh=true, full=true; std::string hist;
    World() : lu(new LU) {}
    double tol() const { DenseLU r(ents(cur)); return r.ok ? 1e-12*(1+r.growth)*(1+r.growth) : -1; }
    Dense readBack() const { Dense d; d.n = lu->size(); d.a.resize(d.n*d.n); for( unsigned i=0;i<d.n;++i ) for( unsigned j=0;j<d.n;++j ) d.at(i,j) = lu->elementAt(i,j); return d; }
    void checkMatrix( const char *sig ) const {
        MC_CHECK( lu->size() == cur.n, "size", hist << ": order " << lu->size() << ", expected " << cur.n );
        double t = fresh ? 0 : std::max(tol(),1e-11)*amax(cur);
        Dense b = readBack();
        for( unsigned i=0;i<cur.n;++i ) for( unsigned j=0;j<cur.n;++j ) MC_CHECK( std::fabs(b.at(i,j)-cur.at(i,j)) <= t, sig, hist << ": element (" << i << "," << j << ") is " << b.at(i,j) << ", expected " << cur.at(i,j) );
        auto sm = ctm::math::luToMatrix( *lu );
        MC_CHECK( sm.size() == std::make_pair(cur.n,cur.n), sig, hist << ": size of the expanded matrix" );
        for( unsigned i=0;i<cur.n;++i ) for( unsigned j=0;j<cur.n;++j ) MC_CHECK( std::fabs(sm.get(i,j)-cur.at(i,j)) <= t, sig, hist << ": expanded matrix has " << sm.get(i,j) << " at (" << i << "," << j << "), expected " << cur.at(i,j) );
        }
    void load( const Mat& m, bool fast ) {
        hist += std::string(fast?" fast ":" load ")+m.name; bool thrown = false;
        EL v( m.e.begin(), m.e.end() );
        try { if( fast ) lu->setMatrixFast( v ); else lu->setMatrix( m.e ); } catch( const std::exception& ) { thrown = true; }
        // a refresh may also accept a matrix that merely fits into the storage profile it already has
        MC_CHECK( thrown == isBad(m) || (fast && !thrown && rowsOf(m.e) == colsOf(m.e)), "acceptance", hist << (thrown?": rejected":": accepted") );
        full = !fast;
        if( thrown ) { known = false; return; }
        known = true; fresh = true; loaded = m.e; cur = dense(m.e);
        MC_CHECK( !lu->isFactorized(), "factorized-flag", hist << ": still reports factorised after a load" );
        checkMatrix( "element-loaded" );
        }
    void solve( int k ) {
        hist += " solve"; double t = tol(); if( t < 0 ) mc::prune();
        D b(cur.n,0.); if( k < (int)cur.n ) b[k] = 1; else for( unsigned i=0;i<cur.n;++i ) b[i] = 2.5-i;
        D x = b; lu->solve( x.data() ); fresh = false;
        MC_CHECK( lu->isFactorized(), "factorized-flag", hist << ": not factorised after a solve" );
        D r = mul(cur,x); double a = amax(cur);
        for( unsigned i=0;i<cur.n;++i ) MC_CHECK( std::isfinite(x[i]) && std::fabs(r[i]-b[i]) <= t*(1+a*normOf(x)), "solve", hist << " for " << str(b) << " gives " << str(x) << " with A*x = " << str(r) << ", fresh solution " << str(DenseLU(ents(cur)).solve(b)) );
        // a fresh object given the current matrix, in the same profile
        EL v( loaded.begin(), loaded.end() ); for( auto& e : v ) e.second = 0; std::map<Pos,double> all; for( auto& e : v ) all[e.first] = 0;
        for( unsigned i=0;i<cur.n;++i ) for( unsigned j=0;j<cur.n;++j ) if( cur.at(i,j) != 0 ) all[Pos(i,j)] = cur.at(i,j);
        LU f( all ); D y = b; f.solve( y.data() );
        for( unsigned i=0;i<cur.n;++i ) MC_CHECK( std::fabs(x[i]-y[i]) <= 100*t*(1+a*normOf(x))*(1+normOf(x)), "fresh", hist << " gives " << str(x) << ", a fresh object " << str(y) );
        }
    void update( int kind, int sk, int yk ) {
        unsigned n = cur.n; if( tol() < 0 ) mc::prune();
        D s(n,0.), y; 
        if( n > 4 ) { if( sk < 3 ) s[sk==0?0:sk==1?n/2:n-1] = 2; else for( unsigned i=0;i<n;++i ) s[i] = sk==3 ? 1+0.25*(i%5) : i%2 ? -1 : 0.5; }
        else if( sk < (int)n ) s[sk] = 2; else if( sk == 4 ) { for( unsigned i=0;i<n;++i ) s[i] = 1+i; } else if( sk == 5 ) { for( unsigned i=0;i<n;++i ) s[i] = i%2 ? -1 : 0.5; } else if( sk == 6 ) ; else mc::prune();
        D ms = mul(cur,s); y = ms;
        if( yk == 1 ) for( unsigned i=0;i<n;++i ) y[i] = 0.75*y[i]+0.25*(i+1);
        else if( yk == 2 ) y[n-1] += 0.5; else if( yk == 3 ) y[0] *= 1.5;
        if( kind ) for( unsigned i=0;i<n;++i ) {      // rows lost to cancellation are not judged
            bool zero = true; for( unsigned j=0;j<n;++j ) if( cur.at(i,j)*s[j] != 0 ) zero = false;
            if( !zero && (std::fabs(ms[i]) < 1e-6 || std::fabs(y[i]) < 1e-6) ) mc::prune();
            }
        hist += kind ? " prop" : " hart"; hist += "("+str(s)+","+str(y)+")";
        Dense before = cur; bool thrown = false;
        // what the update may certainly use, row by row, from the pattern of the loaded matrix
        std::vector<unsigned> q(n,n); for( auto& e : loaded ) q[e.first.second] = std::min(q[e.first.second],e.first.first);
        try { if( kind ) lu->secantUpdateProportional( s.data(), y.data() ); else lu->secantUpdateHart( s.data(), y.data() ); } catch( const std::exception& ) { thrown = true; }
        bool was = fresh; fresh = false; (void)was;
        MC_CHECK( !thrown || kind == 1, "update-throws", hist << " throws" );
        Dense b = readBack();
        if( thrown ) {           // only possible where a row has nothing to scale
            bool some = false; for( unsigned i=0;i<n;++i ) { double c=0; for( unsigned j=0;j<n;++j ) c += b.at(i,j)*s[j]; if( std::fabs(c) < 1e-9 && std::fabs(y[i]) > 1e-12 ) some = true; }
            MC_CHECK( some, "update-throws", hist << " throws although every row can be scaled" );
            known = false; return;
            }
        double a = std::max(amax(before),amax(b)), t = 1e-11*(1+a)*(1+normOf(s)+normOf(y));
        for( double x : b.a ) MC_CHECK( std::isfinite(x), "update-nonfinite", hist << " gives a non-finite element" );
        D bs = mul(b,s);
        for( unsigned i=0;i<n;++i ) {
            bool can = false; for( unsigned j=i;j<n;++j ) if( i >= q[j] && s[j] != 0 ) can = true;
            if( kind == 1 || can ) MC_CHECK( std::fabs(bs[i]-y[i]) <= t, "secant", hist << ": row " << i << " of the updated matrix maps s to " << bs[i] << ", expected " << y[i] );
            }
        if( yk == 0 ) for( unsigned i=0;i<n*n;++i ) MC_CHECK( std::fabs(b.a[i]-before.a[i]) <= t, "needless-change", hist << ": the secant condition held, but element " << i/n << "," << i%n << " went from " << before.a[i] << " to " << b.a[i] );
        // elements outside the profile stay zero
        if( full ) {
        std::vector<unsigned> p(n,n); for( auto& e : loaded ) p[e.first.first] = std::min(p[e.first.first],e.first.second);
        for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) if( i>j ? j<p[i] : i<q[j] ) MC_CHECK( b.at(i,j) == 0, "profile", hist << ": element outside the profile" );
        }
        cur = b;
        if( tol() < 0 || DenseLU(ents(cur)).growth > 1e3 ) mc::prune();
        // the factors, used through a solve, are those of the matrix read back
        D x = y; lu->solve( x.data() ); D r = mul(cur,x);
        for( unsigned i=0;i<n;++i ) MC_CHECK( std::fabs(r[i]-y[i]) <= 1e-10*(1+amax(cur)*normOf(x)), "solve-updated", hist << ": solve with the updated factors gives residual " << r[i]-y[i] );
        mc::outcome( kind ? "updated proportionally" : "updated by Hart's formula" );
        }
    void log( size_t from ) const { MC_LOG( hist.substr(from) ); }
    };
void check( World& w ) {
    mc::step(); mc::Hash hs; hs.s(w.known?"k":"u").u(w.fresh); for( double x : w.cur.a ) hs.d(x); for( auto& x : w.loaded ) hs.u(x.first.first*64+x.first.second); mc::state( hs );
    }
} // anonymous

MC_SCENARIO( loads, "all histories of 3 (quick) or 5 (thorough) operations from {load, fast load of each of 13 matrices of order 1..4, solve for unit or full right-hand side, copy the object, assign to a used object}, then a full solve" )
{
    static const std::vector<Mat> L = lib(); World w; int depth = mc::tier(3,5);
    for( int k=0;k<depth;++k ) {
        size_t from = w.hist.size();
        int op = mc::choose( w.known ? 5 : 2 );
        if( op < 2 ) w.load( L[(size_t)mc::choose((int)L.size())], op==1 );
        else if( op == 2 ) w.solve( mc::choose(2) ? 9 : (int)w.cur.n-1 );
        else if( op == 3 ) { w.hist += " copy"; std::unique_ptr<LU> c( new LU(*w.lu) ); D x(w.cur.n,1.); w.lu->solve( x.data() ); w.lu = std::move(c); w.checkMatrix( "element-copied" ); }
        else { w.hist += " assign"; std::unique_ptr<LU> c( new LU(L[5].e) ); D x(3,1.); c->solve( x.data() ); *c = *w.lu; w.lu->setMatrix( L[9].e ); w.lu = std::move(c); w.checkMatrix( "element-copied" ); }
        w.log( from ); check( w );
        }
    if( w.known ) { size_t from = w.hist.size(); w.solve( 9 ); w.checkMatrix( "element-solved" ); w.log( from ); mc::outcome( "solved" ); } else mc::outcome( "ends with a rejected load" );
}
MC_SCENARIO( updates, "each valid matrix, freshly loaded, refreshed over another pattern, or already factorised; then 2 (quick) or 3 (thorough) secant updates (both formulas, 7 steps, 4 differences) with optional refresh in between, then a solve" )
{
    static const std::vector<Mat> L = lib(); World w;
    const Mat& m = L[(size_t)mc::choose((int)L.size()-2)];
    int how = mc::choose( 3 );
    if( how == 1 ) { w.load( L[5], false ); w.load( m, true ); } else w.load( m, false );
    if( how == 2 ) w.solve( 9 );
    int depth = mc::tier(2,3);
    for( int k=0;k<depth && w.known;++k ) {
        size_t from = w.hist.size();
        w.update( mc::choose(2), mc::choose(7), mc::choose(4) ); w.log( from ); check( w );
        if( w.known ) { int b = mc::choose( 3 ); if( b == 1 ) w.solve( 9 ); else if( b == 2 ) { w.load( m, true ); } }
        }
    if( w.known ) w.solve( 9 );
}
MC_SCENARIO( orders, "orders 5..20 (thorough 33), 5 structures (diagonal, tridiagonal, band, arrow, full): loaded anew or over another order; then 2 operations from {secant update by each formula with 5 steps and 4 differences, refresh, solve, copy, load of an order less by one}, then a solve" )
{
    unsigned n = (unsigned)mc::choose(mc::tier(16,29))+5; int kind = mc::choose(5);
    auto make = []( unsigned n, int kind ) { Ent e; for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) { unsigned d = i>j ? i-j : j-i;
        if( i==j ) e[Pos(i,j)] = 3.*n+i; else if( kind==1 ? d==1 : kind==2 ? (j>i?d<=3:d<=2) : kind==3 ? (i==n-1||j==n-1) : kind==4 ) e[Pos(i,j)] = 1.+((i*5+j*3)%4); } return e; };
    Mat m{ "structured", make(n,kind) }, less{ "smaller", make(n-1,(kind+1)%5) };
    World w; w.hist = "order "+std::to_string(n)+" structure "+std::to_string(kind);
    if( mc::flip() ) { w.load( Mat{ "larger", make(n+1,4) }, false ); w.solve( 99 ); }
    w.load( m, false );
    for( int k=0;k<2 && w.known;++k ) {
        size_t from = w.hist.size();
        switch( mc::choose(5) ) {
            case 0: if( k && !mc::thorough() && n > 9 ) mc::prune(); w.update( mc::choose(2), mc::choose(5), mc::choose(4) ); break;
            case 1: w.load( m, true ); break;
            case 2: w.solve( 99 ); break;
            case 3: { w.hist += " copy"; std::unique_ptr<LU> c( new LU(*w.lu) ); D x(w.cur.n,1.); w.lu->solve( x.data() ); w.lu = std::move(c); w.checkMatrix( "element-copied" ); } break;
            case 4: w.load( less, false ); break;
            }
        w.log( from ); check( w );
        }
    if( w.known ) { w.solve( 99 ); w.checkMatrix( "element-solved" ); }
    mc::outcome( "order>4" );
}
