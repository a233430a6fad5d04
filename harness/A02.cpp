// A02: sparse matrices in editable and compact form, views and products, against a dense model.
// FLAGS: -O0
#include "hutil.h"
#include "ode_num_int/SparseMatrixTemplate.h"
#include <map>
#include <memory>
#include <type_traits>
using namespace h;
namespace sp = ctm::math::sparse;
namespace mc { const char *assumptions[] = {
    "in-place += and -= of a re-indexing view (block, transposition) of the target itself are outside the property; assignment is inside",
    "operations a form does not implement (row access, resizing and removal on the compact form) may fail with an exception", nullptr }; }

namespace {
typedef sp::SparseMatrix<double> SM;
typedef sp::SparseMatrixTemplate< sp::SparseMatrixFastData<double> > FM;
typedef sp::SparseMatrixCommonTypes::Index Ix;

// Dense reference model with presence mask
struct M {
    unsigned r=0, c=0; std::map<Ix,double> e;
    M() {} M( unsigned r_, unsigned c_ ) : r(r_), c(c_) {}
    double get( unsigned i, unsigned j ) const { auto it = e.find(Ix(i,j)); return it==e.end() ? 0 : it->second; }
    };
M transposed( const M& m ) { M t(m.c,m.r); for( auto& x : m.e ) t.e[Ix(x.first.second,x.first.first)] = x.second; return t; }
M scaled( const M& m, double s ) { M t(m.r,m.c); for( auto& x : m.e ) t.e[x.first] = x.second*s; return t; }
M block( const M& m, unsigned fr, unsigned fc, unsigned nr, unsigned nc ) {
    M t(nr,nc); for( auto& x : m.e ) { unsigned i=x.first.first, j=x.first.second; if( i>=fr && i<fr+nr && j>=fc && j<fc+nc ) t.e[Ix(i-fr,j-fc)] = x.second; } return t; }
std::string str( const M& m ) { std::ostringstream o; o << m.r << "x" << m.c << "{"; for( auto& x : m.e ) o << " (" << x.first.first << "," << x.first.second << ")=" << x.second; o << " }"; return o.str(); }
uint64_t hsh( const M& m ) { mc::Hash h; h.u(m.r).u(m.c); for( auto& x : m.e ) h.u(x.first.first).u(x.first.second).d(x.second); return h; }

template<class X> M readM( const X& x ) {
    M m( x.size().first, x.size().second );
    for( auto v : x ) {
        Ix i = v.first; double d = v.second;
        MC_CHECK( m.e.count(i)==0, "iteration-duplicate", "position (" << i.first << "," << i.second << ") visited twice" );
        m.e[i] = d;
        }
    return m;
    }
bool eq( const M& a, const M& b ) { if( a.r!=b.r || a.c!=b.c || a.e.size()!=b.e.size() ) return false; for( auto& x : a.e ) { auto it = b.e.find(x.first); if( it==b.e.end() || !same(it->second,x.second) ) return false; } return true; }
// equality of values, ignoring explicit zeros
bool eqv( const M& a, const M& b ) { if( a.r!=b.r || a.c!=b.c ) return false; for( unsigned i=0; i<a.r; ++i ) for( unsigned j=0; j<a.c; ++j ) if( !close(a.get(i,j),b.get(i,j),1e-14) ) return false; return true; }

template<class X> void lookups( X& x, const M& m, const std::string& w ) {
    MC_CHECK( x.size() == Ix(m.r,m.c), "size", w << " has size " << x.size().first << "x" << x.size().second << ", expected " << m.r << "x" << m.c );
    const X& c = x;
    for( unsigned i=0; i<m.r; ++i ) for( unsigned j=0; j<m.c; ++j ) {
        double e = m.get(i,j); bool has = m.e.count(Ix(i,j)) != 0;
        MC_CHECK( same(c.get(Ix(i,j)),e), "get", w << " at (" << i << "," << j << ") is " << c.get(Ix(i,j)) << ", expected " << e << " in " << str(m) );
        MC_CHECK( same(c.get(i,j),e), "get2", w << " get(" << i << "," << j << ") is " << c.get(i,j) << ", expected " << e << " in " << str(m) );
        MC_CHECK( same(c[Ix(i,j)],e), "subscript", w << " [" << i << "," << j << "] is " << c[Ix(i,j)] << ", expected " << e );
        MC_CHECK( c.hasIndex(Ix(i,j)) == has, "hasIndex", w << " hasIndex(" << i << "," << j << ") expected " << has );
        auto cg = c.checkedGet(Ix(i,j));
        MC_CHECK( cg.second == has && same(cg.first,e), "checkedGet", w << " checkedGet(" << i << "," << j << ") = " << cg.first << "," << cg.second );
        mc::step();
        }
    MC_CHECK( c.count() == m.e.size() && c.empty() == m.e.empty(), "count", w << " count " << c.count() << ", expected " << m.e.size() );
    }

template<class X> void norms( X& x, const M& m, const std::string& w ) {
    double one=0, inf=0, sq=0; bool nonfin=false; for( auto& v : m.e ) { one += std::fabs(v.second); inf = std::max(inf,std::fabs(v.second)); sq += v.second*v.second; nonfin |= !std::isfinite(v.second); }
    if( nonfin ) { MC_CHECK( !std::isfinite(x.infNorm()) && !std::isfinite(x.oneNorm()) && !std::isfinite(x.euclideanNorm()), "norm-nonfinite", w << " of " << str(m) << " has a finite norm: " << x.infNorm() << " " << x.oneNorm() << " " << x.euclideanNorm() ); }
    else MC_CHECK( x.infNorm()==inf && close(x.oneNorm(),one,1e-14) && close(x.euclideanNormSquare(),sq,1e-14) && close(x.euclideanNorm(),std::sqrt(sq),1e-14), "norm", w << " norms " << x.infNorm() << " " << x.oneNorm() << " " << x.euclideanNorm() << " of " << str(m) );
    }

template<class X> void vectors( X& x, const M& m, const std::string& w ) {
    for( unsigned k=0; k<=m.c; ++k ) {       // all unit vectors and one full vector
        D v(m.c,0.), e(m.r,0.); if( k<m.c ) v[k] = 1; else for( unsigned j=0; j<m.c; ++j ) v[j] = j+2.;
        for( auto& t : m.e ) e[t.first.first] += t.second*v[t.first.second];
        V vv = mk(v); D g = rd( x*vv );
        MC_CHECK( close(g,e,1e-14), "matrix-vector", w << " * " << h::str(v) << " = " << h::str(g) << ", expected " << h::str(e) << " for " << str(m) );
        mc::step();
        }
    for( unsigned k=0; k<=m.r; ++k ) {
        D v(m.r,0.), e(m.c,0.); if( k<m.r ) v[k] = 1; else for( unsigned j=0; j<m.r; ++j ) v[j] = j+2.;
        for( auto& t : m.e ) e[t.first.second] += t.second*v[t.first.first];
        V vv = mk(v); D g = rd( vv*x );
        MC_CHECK( close(g,e,1e-14), "vector-matrix", h::str(v) << " * " << w << " = " << h::str(g) << ", expected " << h::str(e) << " for " << str(m) );
        mc::step();
        }
    }

template<class X> void conversions( X& x, const M& m, const std::string& w ) {
    { SM s(x); lookups( s, m, "editable copy of "+w ); MC_CHECK( eq(readM(s),m), "copy-to-editable", w ); }
    { SM s(1,1); s.at(0,0) = 5; s = x; lookups( s, m, "editable assigned from "+w ); }
    { FM f; f = x; lookups( f, m, "compact assigned from "+w ); MC_CHECK( eq(readM(f),m), "copy-to-compact", w ); }
    { FM f( x ); lookups( f, m, "compact copy of "+w ); }
    { auto c = x.clone(); lookups( c, m, "clone of "+w ); MC_CHECK( eq(readM(c),m), "clone", w ); }
    }

M mulM( const M& a, const M& b ) { M p(a.r,b.c); for( unsigned i=0; i<a.r; ++i ) for( unsigned j=0; j<b.c; ++j ) { double s=0; for( unsigned k=0; k<a.c; ++k ) s += a.get(i,k)*b.get(k,j); if( s ) p.e[Ix(i,j)] = s; } return p; }
// A fixed set of second operands of the given shape
std::vector<M> others( unsigned r, unsigned c ) { std::vector<M> v; M full(r,c), diag(r,c), low(r,c); for( unsigned i=0;i<r;++i ) for( unsigned j=0;j<c;++j ) { full.e[Ix(i,j)] = (i+1.)*(j+2)-3.5; if( i==j ) diag.e[Ix(i,j)] = 2.+i; if( i>j ) low.e[Ix(i,j)] = 1.-j; } v.push_back(full); v.push_back(low); v.push_back(diag); return v; }
SM mkS( const M& m ) { SM s(m.r,m.c); for( auto& x : m.e ) s.at(x.first) = x.second; return s; }

// products with x on the right (any view), and on the left where row access exists
template<class X> void productsRight( X& x, const M& m, const std::string& w ) {
    for( unsigned r=1; r<=3; ++r ) for( auto& o : others(r,m.r) ) { SM s = mkS(o); M e = mulM(o,m); auto p = s*x; MC_CHECK( eqv(readM(p),e), "product-right", str(o) << " * " << w << " = " << str(readM(p)) << ", expected " << str(e) ); mc::step(); }
    }
template<class X> void productsLeft( X& x, const M& m, const std::string& w ) {
    for( unsigned c=1; c<=3; ++c ) for( auto& o : others(m.c,c) ) { SM s = mkS(o); M e = mulM(m,o); auto p = x*s; MC_CHECK( eqv(readM(p),e), "product-left", w << " * " << str(o) << " = " << str(readM(p)) << ", expected " << str(e) ); FM f; f = s; auto q = x*f; MC_CHECK( eqv(readM(q),e), "product-left-compact", w << " * compact " << str(o) << " = " << str(readM(q)) ); mc::step(); }
    }

template<class X> void sums( X& x, const M& m, const std::string& w ) {
    for( auto& o : others(m.r,m.c) ) for( int minus=0; minus<2; ++minus ) {
        SM s = mkS(o); if( minus ) s -= x; else s += x;
        M e(m.r,m.c); for( unsigned i=0;i<m.r;++i ) for( unsigned j=0;j<m.c;++j ) { double d = o.get(i,j) + (minus?-1:1)*m.get(i,j); if( d ) e.e[Ix(i,j)] = d; }
        MC_CHECK( eqv(readM(s),e), "sum", str(o) << (minus?" - ":" + ") << w << " = " << str(readM(s)) << ", expected " << str(e) ); mc::step();
        }
    }

template<class X> void readAll( X& x, const M& m, const std::string& w, int part ) {
    MC_LOG( "read " << w << " = " << str(m) << " part " << part );
    M it = readM(x); MC_CHECK( eq(it,m), "iteration", "iterating " << w << " gives " << str(it) << ", expected " << str(m) );
    { const X& c = x; M ci = readM(c); MC_CHECK( eq(ci,m), "const-iteration", "iterating " << w << " gives " << str(ci) ); 
      M cc(m.r,m.c); for( auto i = c.cbegin(), e = c.cend(); i != e; ++i ) cc.e[i->first] = i->second; MC_CHECK( eq(cc,m), "citeration", "cbegin/cend of " << w << " gives " << str(cc) ); }
    if( part == 0 ) { lookups( x, m, w ); norms( x, m, w ); vectors( x, m, w ); }
    else if( part == 1 ) conversions( x, m, w );
    else { productsRight( x, m, w ); sums( x, m, w ); }
    mc::state( mc::Hash().u(hsh(m)).s(w) );
    }

struct Win { unsigned fr, fc, nr, nc; };
Win chooseWin( const M& m ) { Win w; w.fr = (unsigned)mc::choose((int)m.r+1); w.nr = (unsigned)mc::choose((int)(m.r-w.fr)+1); w.fc = (unsigned)mc::choose((int)m.c+1); w.nc = (unsigned)mc::choose((int)(m.c-w.fc)+1); return w; }
std::string str( const Win& w ) { std::ostringstream o; o << ".block(" << w.fr << "," << w.fc << "," << w.nr << "," << w.nc << ")"; return o.str(); }

// All compositions of up to N views. F::operator()(view, model, name)
template<int N> struct Views {
    template<class X, class F> static void go( X& x, const M& m, const std::string& w, F& f ) {
        switch( mc::choose(4,"view") ) {
            case 0: f( x, m, w ); break;
            case 1: { auto y = x.transposed(); Views<N-1>::go( y, transposed(m), w+".transposed()", f ); } break;
            case 2: { auto y = x.scaled(-2); Views<N-1>::go( y, scaled(m,-2), w+".scaled(-2)", f ); } break;
            case 3: { Win b = chooseWin(m); auto y = x.block( b.fr, b.fc, b.nr, b.nc ); Views<N-1>::go( y, block(m,b.fr,b.fc,b.nr,b.nc), w+str(b), f ); } break;
            }
        }
    };
template<> struct Views<0> { template<class X, class F> static void go( X& x, const M& m, const std::string& w, F& f ) { f( x, m, w ); } };

M choosePattern( unsigned r, unsigned c ) {
    M m(r,c); unsigned n = 0;
    for( unsigned i=0;i<r;++i ) for( unsigned j=0;j<c;++j, ++n ) if( mc::flip("nonzero") ) m.e[Ix(i,j)] = 2.*n+1;
    return m;
    }
void chooseShape( unsigned& r, unsigned& c ) {
    static const std::vector<Ix> q = { Ix(1,1), Ix(1,2), Ix(2,1), Ix(2,2), Ix(2,3), Ix(3,2) }, t = { Ix(1,3), Ix(3,1), Ix(3,3), Ix(2,4), Ix(1,1), Ix(1,2), Ix(2,1), Ix(2,2), Ix(2,3), Ix(3,2) };
    Ix i = mc::pick( mc::thorough() ? t : q ); r = i.first; c = i.second;
    }
struct ReadF { int part; template<class X> void operator()( X& x, const M& m, const std::string& w ) { readAll( x, m, w, part ); mc::outcome( w.substr(0,w.find('(')) ); } };

} // anonymous

MC_SCENARIO( views_editable, "all patterns of shapes up to 2x3/3x2 (thorough 3x3, 2x4), all compositions of up to 2 views (transposition, scaling, every block window): lookups, iteration, norms, vector products" )
{
    unsigned r,c; chooseShape(r,c); M m = choosePattern(r,c); SM s = mkS(m); ReadF f{0}; Views<2>::go( s, m, "A", f );
}
MC_SCENARIO( views_compact, "the same over the compact form" )
{
    unsigned r,c; chooseShape(r,c); M m = choosePattern(r,c); SM s = mkS(m); FM a; a = s; ReadF f{0}; Views<2>::go( a, m, "F", f );
}
MC_SCENARIO( conversion_editable, "all patterns of shapes up to 2x3/3x2, compositions of up to 2 views: copies, conversions between forms" )
{
    unsigned r,c; chooseShape(r,c); M m = choosePattern(r,c); SM s = mkS(m); ReadF f{1}; if( mc::thorough() && r*c <= 6 ) Views<2>::go( s, m, "A", f ); else Views<1>::go( s, m, "A", f );
}
MC_SCENARIO( conversion_compact, "the same over the compact form" )
{
    unsigned r,c; chooseShape(r,c); M m = choosePattern(r,c); SM s = mkS(m); FM a; a = s; ReadF f{1}; if( mc::thorough() && r*c <= 6 ) Views<2>::go( a, m, "F", f ); else Views<1>::go( a, m, "F", f );
}
MC_SCENARIO( products, "all patterns of shapes up to 2x3/3x2, single views: products with and sums to matrices of all shapes up to 3, both sides" )
{
    unsigned r,c; chooseShape(r,c); M m = choosePattern(r,c); SM s = mkS(m); 
    switch( mc::choose(5) ) {
        case 0: { ReadF f{2}; Views<1>::go( s, m, "A", f ); } break;
        case 1: { FM a; a = s; ReadF f{2}; Views<1>::go( a, m, "F", f ); } break;
        case 2: productsLeft( s, m, "A" ); break;
        case 3: { auto y = s.scaled(-2); productsLeft( y, scaled(m,-2), "A.scaled(-2)" ); } break;
        case 4: { Win b = chooseWin(m); auto y = s.block(b.fr,b.fc,b.nr,b.nc); productsLeft( y, block(m,b.fr,b.fc,b.nr,b.nc), "A"+str(b) ); } break;
        }
    mc::state( hsh(m) );
}

// Writing through views: element writes, += and assignment to blocks reach exactly their window.
namespace {
struct WriteF {
    SM *s; FM *f; M base; std::vector<std::pair<int,Win>> path;
    // source position of (i,j) of the view
    Ix back( unsigned i, unsigned j ) const { Ix x(i,j); for( auto k=path.rbegin(); k!=path.rend(); ++k ) { if( k->first==0 ) x = Ix(x.second,x.first); else x = Ix(x.first+k->second.fr, x.second+k->second.fc); } return x; }
    };
template<int N, class X> void writeGo( X& x, const M& m, WriteF& w, const std::string& name );
template<class X> void writeOps( X& x, const M& m, WriteF& w, const std::string& name ) {
    M e = w.base; bool fast = w.f != nullptr;
    auto check = [&]( const char *op ) {
        M g = fast ? readM(*w.f) : readM(*w.s);
        MC_CHECK( eq(g,e), std::string("write-")+op, op << " through " << name << " of " << str(w.base) << " gives " << str(g) << ", expected " << str(e) );
        if( fast ) lookups( *w.f, e, "F" ); else lookups( *w.s, e, "A" );
        mc::step(); mc::state( hsh(g) );
        };
    if( m.r==0 || m.c==0 ) mc::prune();
    switch( mc::choose(4) ) {
        case 0: case 1: {
            bool two = mc::flip(); unsigned i = (unsigned)mc::choose((int)m.r), j = (unsigned)mc::choose((int)m.c); Ix b = w.back(i,j); bool has = w.base.e.count(b) != 0;
            MC_LOG( name << ".at(" << i << "," << j << ") = 9 on " << str(w.base) );
            bool t = false; try { if( two ) x.at(i,j) = 9; else x.at(Ix(i,j)) = 9; } catch( const std::exception& ) { t = true; }
            MC_CHECK( t == (fast && !has), "write-exception", "writing " << name << " at (" << i << "," << j << ") of " << str(w.base) << (t?" failed":" did not fail") );
            if( !t ) e.e[b] = 9;
            check( "element" ); mc::outcome( t ? "rejected" : "written" );
            } break;
        case 2: {   // += with a matrix covering the present entries
            SM o(m.r,m.c); for( unsigned i=0;i<m.r;++i ) for( unsigned j=0;j<m.c;++j ) if( !fast || m.e.count(Ix(i,j)) ) { o.at(i,j) = 100.+10*i+j; e.e[w.back(i,j)] += 100.+10*i+j; }
            MC_LOG( name << " += full matrix, on " << str(w.base) );
            x += o; check( "add" ); mc::outcome( "added" );
            } break;
        case 3: {
            if( fast ) mc::prune();
            unsigned i = (unsigned)mc::choose((int)m.r), j = (unsigned)mc::choose((int)m.c);
            MC_LOG( name << ".removeAt(" << i << "," << j << ") on " << str(w.base) );
            x.removeAt( Ix(i,j) ); e.e.erase( w.back(i,j) ); check( "remove" ); mc::outcome( "removed" );
            } break;
        }
    }
template<int N> struct WG { template<class X> static void go( X& x, const M& m, WriteF& w, const std::string& name ) {
    switch( mc::choose(3) ) {
        case 0: writeOps( x, m, w, name ); break;
        case 1: { auto y = x.transposed(); w.path.push_back(std::make_pair(0,Win())); WG<N-1>::go( y, transposed(m), w, name+".transposed()" ); } break;
        case 2: { Win b = chooseWin(m); auto y = x.block(b.fr,b.fc,b.nr,b.nc); w.path.push_back(std::make_pair(1,b)); WG<N-1>::go( y, block(m,b.fr,b.fc,b.nr,b.nc), w, name+str(b) ); } break;
        }
    } };
template<> struct WG<0> { template<class X> static void go( X& x, const M& m, WriteF& w, const std::string& name ) { writeOps( x, m, w, name ); } };
}
MC_SCENARIO( writes, "element writes, in-place addition and removal through all compositions of up to 2 transposition/block views, both forms, all patterns of shapes up to 2x3/3x2" )
{
    unsigned r,c; chooseShape(r,c); M m = choosePattern(r,c); SM s = mkS(m); FM f; f = s;
    WriteF w; w.base = m; w.s = &s; w.f = nullptr;
    if( mc::flip() ) { w.f = &f; WG<2>::go( f, m, w, "F" ); } else WG<2>::go( s, m, w, "A" );
}

// Histories on one editable and one compact matrix.
namespace {
struct Hist { SM s; FM f; M ms, mf; };
void histCheck( Hist& x, const char *op ) {
    MC_CHECK( eq(readM(x.s),x.ms), std::string("history-editable-")+op, "after " << op << " the editable matrix is " << str(readM(x.s)) << ", expected " << str(x.ms) );
    MC_CHECK( eq(readM(x.f),x.mf), std::string("history-compact-")+op, "after " << op << " the compact matrix is " << str(readM(x.f)) << ", expected " << str(x.mf) );
    lookups( x.s, x.ms, "A" ); lookups( x.f, x.mf, "F" );
    mc::state( mc::Hash().u(hsh(x.ms)).u(hsh(x.mf)) ); mc::step();
    }
void addTo( M& a, const M& b, double k ) { for( auto& x : b.e ) a.e[x.first] += k*x.second; }
bool subset( const M& b, const M& a ) { for( auto& x : b.e ) if( !a.e.count(x.first) ) return false; return true; }
void histOp( Hist& x ) {
    const char *nm = "";
    int op = mc::choose(23); if( op < 2 && (!x.ms.r || !x.ms.c) ) mc::prune();
    switch( op ) {
        case 0: { unsigned i = (unsigned)mc::choose((int)x.ms.r), j = (unsigned)mc::choose((int)x.ms.c); nm = "A.at=5"; x.s.at(i,j) = 5; x.ms.e[Ix(i,j)] = 5; MC_LOG( "A.at(" << i << "," << j << ")=5" ); } break;
        case 1: { unsigned i = (unsigned)mc::choose((int)x.ms.r), j = (unsigned)mc::choose((int)x.ms.c); nm = "A.removeAt"; x.s.removeAt(Ix(i,j)); x.ms.e.erase(Ix(i,j)); MC_LOG( "A.removeAt(" << i << "," << j << ")" ); } break;
        case 2: nm = "F=A"; x.f = x.s; x.mf = x.ms; break;
        case 3: nm = "A=F"; x.s = x.f; x.ms = x.mf; break;
        case 4: nm = "A=A.transposed()"; x.s = x.s.transposed(); x.ms = transposed(x.ms); break;
        case 5: nm = "F=F.transposed()"; x.f = x.f.transposed(); x.mf = transposed(x.mf); break;
        case 6: nm = "A=A.scaled(2)"; x.s = x.s.scaled(2); x.ms = scaled(x.ms,2); break;
        case 7: nm = "F=F.scaled(2)"; x.f = x.f.scaled(2); x.mf = scaled(x.mf,2); break;
        case 8: { if( !x.ms.r || !x.ms.c ) mc::prune(); nm = "A=A.block(tail)"; unsigned fr = x.ms.r>1, fc = x.ms.c>1; x.s = x.s.block(fr,fc,x.ms.r-fr,x.ms.c-fc); x.ms = block(x.ms,fr,fc,x.ms.r-fr,x.ms.c-fc); } break;
        case 9: { if( !x.mf.r || !x.mf.c ) mc::prune(); nm = "F=F.block(tail)"; unsigned fr = x.mf.r>1, fc = x.mf.c>1; x.f = x.f.block(fr,fc,x.mf.r-fr,x.mf.c-fc); x.mf = block(x.mf,fr,fc,x.mf.r-fr,x.mf.c-fc); } break;
        case 10: { nm = "A.resize"; unsigned r = (unsigned)mc::choose(3)+1, c = (unsigned)mc::choose(3)+1; x.s.resize(r,c); M n = block(x.ms,0,0,r,c); x.ms = n; MC_LOG( "A.resize(" << r << "," << c << ")" ); } break;
        case 11: nm = "A.makeZero"; x.s.makeZero(); for( auto& v : x.ms.e ) v.second = 0; break;
        case 12: nm = "F.makeZero"; x.f.makeZero(); for( auto& v : x.mf.e ) v.second = 0; break;
        case 13: { if( x.ms.r != x.ms.c ) mc::prune(); nm = "A.addScaledIdentity(3)"; x.s.addScaledIdentity(3); for( unsigned i=0;i<x.ms.r;++i ) x.ms.e[Ix(i,i)] += 3; } break;
        case 14: { if( x.ms.r != x.mf.r || x.ms.c != x.mf.c ) mc::prune(); nm = "A+=F"; x.s += x.f; addTo(x.ms,x.mf,1); } break;
        case 15: { if( x.ms.r != x.mf.r || x.ms.c != x.mf.c || !subset(x.ms,x.mf) ) mc::prune(); nm = "F-=A"; x.f -= x.s; addTo(x.mf,x.ms,-1); } break;
        case 16: { if( x.ms.r != x.ms.c || x.mf.r != x.ms.r || x.mf.c != x.ms.r ) mc::prune(); nm = "A*=F"; x.s *= x.f; x.ms = mulM(x.ms,x.mf); } break;
        case 17: { if( !x.ms.r || !x.ms.c ) mc::prune(); nm = "A.block(head)=1x1"; SM o(1,1); o.at(0,0) = 7; x.s.block(0,0,1,1) = o; x.ms.e[Ix(0,0)] = 7; } break;
        case 18: { if( !x.ms.r || !x.ms.c ) mc::prune(); nm = "A.block(row0).clear()"; x.s.block(0,0,1,x.ms.c).clear(); for( unsigned j=0;j<x.ms.c;++j ) x.ms.e.erase(Ix(0,j)); } break;
        case 19: { nm = "A.block(tail)=F or A.resizeFromData"; if( x.mf.r<=x.ms.r && x.mf.c<=x.ms.c && x.mf.r && x.mf.c ) { unsigned fr=x.ms.r-x.mf.r, fc=x.ms.c-x.mf.c; x.s.block(fr,fc,x.mf.r,x.mf.c) = x.f; for( unsigned i=0;i<x.mf.r;++i ) for( unsigned j=0;j<x.mf.c;++j ) x.ms.e.erase(Ix(i+fr,j+fc)); for( auto& v : x.mf.e ) x.ms.e[Ix(v.first.first+fr,v.first.second+fc)] = v.second; }
                  else { x.s.resizeFromData(); unsigned r=0,c=0; for( auto& v : x.ms.e ) { r = std::max(r,v.first.first+1); c = std::max(c,v.first.second+1); } x.ms.r=r; x.ms.c=c; } } break;
        case 20: { if( !x.ms.r || !x.ms.c ) mc::prune(); nm = "A.block(col0)=A.block(col0).scaled(2)"; auto src = x.s.block(0,0,x.ms.r,1); x.s.block(0,0,x.ms.r,1) = src.scaled(2); for( auto& v : x.ms.e ) if( v.first.second==0 ) v.second *= 2; } break;
        case 21: { if( x.ms.c<2 || !x.ms.r ) mc::prune(); nm = "A.block(left)=A.block(right)"; unsigned n = x.ms.c-1; M b = block(x.ms,0,1,x.ms.r,n); x.s.block(0,0,x.ms.r,n) = x.s.block(0,1,x.ms.r,n); for( unsigned i=0;i<x.ms.r;++i ) for( unsigned j=0;j<n;++j ) x.ms.e.erase(Ix(i,j)); for( auto& v : b.e ) x.ms.e[v.first] = v.second; } break;
        case 22: { if( x.ms.r != x.ms.c || !x.ms.r ) mc::prune(); nm = "A.block(all)=A.transposed()"; M b = transposed(x.ms); x.s.block(0,0,x.ms.r,x.ms.c) = x.s.transposed(); x.ms = b; } break;
        }
    MC_LOG( nm ); mc::outcome( nm );
    histCheck( x, nm );
    }
void histInit( Hist& x, unsigned n, unsigned pat ) {
    x.ms = M(n,n); unsigned k=0; for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j,++k ) if( pat>>k & 1 ) x.ms.e[Ix(i,j)] = k+1.;
    x.s = mkS(x.ms); x.mf = M(n,n); x.mf.e[Ix(0,n-1)] = -1; x.mf.e[Ix(n-1,0)] = 4; SM t = mkS(x.mf); x.f = t;
    }
}
MC_SCENARIO( histories, "all sequences of 3 operations (thorough: 4 on one pattern) out of 23 kinds (edits, conversions, self-assignment from views, resizing, in-place arithmetic, block writes) from 2x2 patterns" )
{
    Hist x; bool four = mc::thorough() && mc::flip();
    histInit( x, 2, four ? 0xB : mc::pick( std::vector<unsigned>{ 0xF, 0x2, 0x9, 0 } ) );
    for( int i=0; i<(four?4:3); ++i ) histOp( x );
}

MC_SCENARIO( rectangular_histories, "all sequences of 2 operations from all patterns of a 2x3 matrix" )
{
    Hist x; x.ms = choosePattern(2,3); x.s = mkS(x.ms); x.mf = M(2,3); x.mf.e[Ix(1,2)] = 4; x.mf.e[Ix(0,1)] = -3; SM t = mkS(x.mf); x.f = t;
    for( int i=0; i<2; ++i ) histOp( x );
}

MC_SCENARIO( nonfinite, "norms of all 2x2 patterns with entries from {absent, 1, -3, NaN, inf}, both forms, single views" )
{
    M m(2,2); for( unsigned i=0;i<2;++i ) for( unsigned j=0;j<2;++j ) { int k = mc::choose(5); static const double v[] = { 0, 1, -3, NaN, INF }; if( k ) m.e[Ix(i,j)] = v[k]; }
    SM s = mkS(m); FM f; f = s; bool fast = mc::flip(); int view = mc::choose(3);
    MC_LOG( "norms of " << str(m) );
    auto go = [&]( auto& x ) { if( view==0 ) norms(x,m,"A"); else if( view==1 ) { auto y = x.transposed(); norms(y,transposed(m),"A'"); } else { auto y = x.scaled(-2); norms(y,scaled(m,-2),"-2A"); } };
    if( fast ) go(f); else go(s);
    bool fin = std::isfinite(s.oneNorm());
    { M z = m; for( auto& v : z.e ) v.second = 0; s.makeZero(); f.makeZero(); MC_CHECK( eq(readM(s),z) && eq(readM(f),z), "make-zero", "zeroing the elements of " << str(m) << " gives " << str(readM(s)) << " and " << str(readM(f)) ); }
    mc::step(); mc::state( hsh(m) ); mc::outcome( fin ? "finite" : "nonfinite" );
}

MC_SCENARIO( special, "identity factories of sizes 0..4, and out-of-pattern compact access" )
{
    unsigned n = (unsigned)mc::choose(5); double k = mc::flip() ? 2.5 : 1;
    auto i = k==1 ? SM::identity(n) : SM::scaledIdentity(n,k);
    M m(n,n); for( unsigned q=0;q<n;++q ) m.e[Ix(q,q)] = k;
    MC_LOG( "identity " << n << " scale " << k );
    lookups( i, m, "identity" ); vectors( i, m, "identity" );
    std::ostringstream o; o << i; std::istringstream in( o.str() );
    for( unsigned r=0;r<n;++r ) for( unsigned c=0;c<n;++c ) { double d; in >> d; MC_CHECK( in && d==m.get(r,c), "text", "printed identity reads " << o.str() ); }
    mc::step(); mc::state( hsh(m) ); mc::outcome( "identity" );
}

namespace {
// structured matrices of any size
M structured( unsigned r, unsigned c, int kind ) {
    M m(r,c);
    for( unsigned i=0;i<r;++i ) for( unsigned j=0;j<c;++j ) {
        bool in = kind==0 ? true : kind==1 ? i==j : kind==2 ? (i<=j+1 && j<=i+2) : kind==3 ? i==r/2 : kind==4 ? j==c-1 : kind==5 ? (i*7+j*3)%5==0 : false;
        if( in ) m.e[Ix(i,j)] = ((i*5+j*11)%17)*0.5-3.75;
        }
    return m;
    }
std::vector<unsigned> dims() { return mc::thorough() ? std::vector<unsigned>{ 1, 2, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100 } : std::vector<unsigned>{ 1, 4, 7, 8, 9, 16, 17, 33 }; }
}
MC_SCENARIO( sizes, "shapes r x c with r,c in {1,4,7,8,9,16,17,33} (thorough up to 100), 6 structures and the empty pattern, both forms, plain, scaled, transposed and as a block: lookups, iteration, norms, vector products, conversions, products and sums with 3 kinds of operands" )
{
    auto d = dims(); unsigned r = mc::pick(d), c = mc::pick(d); int kind = mc::choose(7), view = mc::choose(4); bool fast = mc::flip();
    M m = structured(r,c,kind); SM s = mkS(m); FM f; if( fast ) f = s;
    std::ostringstream w; w << (fast?"F":"A") << " " << r << "x" << c << " structure " << kind; MC_LOG( w.str() << " view " << view );
    auto all = [&]( auto& x, const M& e, const std::string& n ) {
        M it = readM(x); MC_CHECK( eq(it,e), "iteration", "iterating " << n << " gives " << it.e.size() << " elements, expected " << e.e.size() );
        lookups( x, e, n ); norms( x, e, n ); conversions( x, e, n );
        // one full vector on each side
        for( int side=0; side<2; ++side ) {
            D v( side?e.r:e.c, 0. ), g, ex( side?e.c:e.r, 0. ); for( size_t i=0;i<v.size();++i ) v[i] = ((i*3)%7)-2.5;
            for( auto& t : e.e ) ex[side?t.first.second:t.first.first] += t.second*v[side?t.first.first:t.first.second];
            V vv = mk(v); if( side ) g = rd( vv*x ); else g = rd( x*vv );
            MC_CHECK( close(g,ex,1e-12), side?"vector-matrix":"matrix-vector", "product of " << n << " with a vector" );
            }
        for( int k : { 2, 5 } ) {
            M o = structured( 3, e.r, k ); SM so = mkS(o); auto p = so*x; MC_CHECK( eqv(readM(p),mulM(o,e)), "product-right", "3x" << e.r << " matrix times " << n );
            M q = structured( e.r, e.c, k ); SM sq = mkS(q), sum = sq; sum += x; M es = q; for( auto& t : e.e ) es.e[t.first] += t.second; MC_CHECK( eqv(readM(sum),es), "sum", "sum with " << n );
            sq -= x; M ed = q; for( auto& t : e.e ) ed.e[t.first] -= t.second; MC_CHECK( eqv(readM(sq),ed), "sum", "difference with " << n );
            }
        };
    if( view == 0 ) all( s, m, w.str() );
    if( fast ) switch( view ) {
        case 0: all( f, m, w.str() ); break;
        case 1: { auto y = f.transposed(); all( y, transposed(m), w.str()+" transposed" ); } break;
        case 2: { auto y = f.scaled(-2); all( y, scaled(m,-2), w.str()+" scaled" ); } break;
        default: { auto y = f.block(r/3,c/4,r-r/3,c-c/4-(c>2)); all( y, block(m,r/3,c/4,r-r/3,c-c/4-(c>2)), w.str()+" block" ); } }
    else switch( view ) {
        case 0: { for( unsigned cc : { 1u, 9u } ) for( int k : { 0, 5 } ) { M o = structured(c,cc,k); SM so = mkS(o); auto p = s*so; MC_CHECK( eqv(readM(p),mulM(m,o)), "product-left", w.str() << " times " << c << "x" << cc ); } } break;
        case 1: { auto y = s.transposed(); all( y, transposed(m), w.str()+" transposed" ); } break;
        case 2: { auto y = s.scaled(-2); all( y, scaled(m,-2), w.str()+" scaled" ); } break;
        default: { auto y = s.block(r/3,c/4,r-r/3,c-c/4-(c>2)); all( y, block(m,r/3,c/4,r-r/3,c-c/4-(c>2)), w.str()+" block" ); } }
    mc::step(); mc::state( mc::Hash().u(hsh(m)).u(view).u(fast) ); mc::outcome( r==c ? "square" : r<c ? "wide" : "tall" );
}
MC_SCENARIO( square_sizes, "orders 1..20 (thorough 40): A=A.transposed(), A*=A, A.block=A.scaled, addScaledIdentity, resizing up and down by 1, both forms" )
{
    unsigned n = (unsigned)mc::choose(mc::tier(20,40))+1; int kind = mc::choose(6), op = mc::choose(7); M m = structured(n,n,kind), e; SM s = mkS(m); FM f; f = s; bool fast = false;
    MC_LOG( "order " << n << " structure " << kind << " operation " << op );
    switch( op ) {
        case 0: s = s.transposed(); e = transposed(m); break;
        case 1: f = f.transposed(); e = transposed(m); fast = true; break;
        case 2: s *= s; e = mulM(m,m); break;
        case 3: s.addScaledIdentity(2.5); e = m; for( unsigned i=0;i<n;++i ) e.e[Ix(i,i)] += 2.5; break;
        case 4: s.resize(n+1,n+1); e = m; e.r = e.c = n+1; break;
        case 5: s.resize(n-1,n); e = block(m,0,0,n-1,n); break;
        case 6: s.block(0,0,n,n/2+1) = s.block(0,n-n/2-1,n,n/2+1).scaled(3); { unsigned k = n/2+1; M b = block(m,0,n-k,n,k); e = m; for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<k;++j ) e.e.erase(Ix(i,j)); for( auto& v : b.e ) e.e[v.first] = 3*v.second; } break;
        }
    M g = fast ? readM(f) : readM(s);
    MC_CHECK( eqv(g,e), "square", "operation " << op << " on order " << n << " structure " << kind << " gives " << str(g) << ", expected " << str(e) );
    mc::step(); mc::state( mc::Hash().u(hsh(m)).u(op) ); mc::outcome( std::string("operation ")+char('0'+op) );
}
MC_SCENARIO( text, "every 0/1/-2.5/1e-3 assignment to shapes up to 2x3 (and columns of different width): the printed table and the printed assignment statements give the matrix back, both forms and transposed" )
{
    unsigned r = (unsigned)mc::choose(3), c = (unsigned)mc::choose(4); M m(r,c);
    for( unsigned i=0;i<r;++i ) for( unsigned j=0;j<c;++j ) { static const double v[] = { 0, 1, -2.5, 1e-3 }; int k = mc::choose(4); if( k ) m.e[Ix(i,j)] = v[k]; }
    SM s = mkS(m); FM f; f = s; int form = mc::choose(3);
    auto go = [&]( const auto& x, const M& e ) {
        std::ostringstream o; o << x; std::istringstream in( o.str() ); std::string line; unsigned lines = 0; size_t len = 0;
        while( std::getline(in,line) ) { std::istringstream l(line); for( unsigned j=0;j<e.c;++j ) { double d = NaN; l >> d; MC_CHECK( lines<e.r && d==e.get(lines,j), "text", str(e) << " is printed as\n" << o.str() ); }
            std::string rest; MC_CHECK( !(l >> rest), "text", str(e) << " is printed as\n" << o.str() ); if( lines ) MC_CHECK( line.size()==len, "text-align", str(e) << " is printed as\n" << o.str() ); len = line.size(); ++lines; }
        MC_CHECK( lines == e.r, "text", str(e) << " is printed as\n" << o.str() );
        std::ostringstream q; ctm::math::sparse::printScilabMatrix( q, x, "Mx" ); std::istringstream qi( q.str() ); M g; bool head = false;
        while( std::getline(qi,line) ) {
            unsigned a, b; double d;
            if( !head ) { MC_CHECK( std::sscanf(line.c_str(),"Mx = zeros(%u, %u);",&a,&b)==2, "statements", q.str() ); g = M(a,b); head = true; }
            else { MC_CHECK( std::sscanf(line.c_str(),"Mx(%u, %u) = %lf;",&a,&b,&d)==3 && a>=1 && b>=1, "statements", q.str() ); g.e[Ix(a-1,b-1)] = d; }
            }
        MC_CHECK( head && eq(g,e), "statements", str(e) << " is printed as\n" << q.str() );
        mc::step();
        };
    MC_LOG( "print " << str(m) << " form " << form );
    if( form==0 ) go( s, m ); else if( form==1 ) go( f, m ); else go( s.transposed(), transposed(m) );
    mc::state( hsh(m) ); mc::outcome( form==0?"editable":form==1?"compact":"view" );
}
