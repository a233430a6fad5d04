// A01: dense vector expressions, views and norms against plain arrays.
#include "hutil.h"
#include <memory>
using namespace h;
namespace mc { const char *assumptions[] = {
    "assignments between different, overlapping windows of one vector are outside the property (element order is unspecified there)",
    "operand sizes match where the operation requires it (violations are caught by debug assertions, outside the property)", nullptr }; }

namespace {

const int NV = 2;
struct World { std::unique_ptr<V> v[NV]; D m[NV]; int rich = 2; };   // rich: 2 all views, 1 no views of views and single scalings only, 0 minimal

// A window of a vector: whole vector, block, or block of a block.
struct Win { int kind, vec; size_t from, size, outer; };
Win chooseWin( World& w, int vec, bool whole = true ) {
    size_t n = w.m[vec].size();
    Win r{ 0, vec, 0, n, 0 };
    r.kind = mc::choose( (w.rich==2 ? 4 : w.rich==1 ? 3 : 2) - (whole ? 0 : 1) ) + (whole ? 0 : 1);         // 0 whole 1 block 2 const block 3 block of block
    if( r.kind ) {
        r.from = (size_t)mc::choose( (int)n+1 );
        r.size = w.rich ? (size_t)mc::choose( (int)(n-r.from)+1 ) : n-r.from;
        if( r.kind == 3 ) r.outer = r.from ? (size_t)mc::choose((int)std::min<size_t>(r.from,2)+1) : 0;   // outer block starts 'outer' before from
        }
    return r;
    }
// Calls f with the readable view of the window.
template<class F> void withView( World& w, const Win& s, F f ) {
    V& v = *w.v[s.vec];
    switch( s.kind ) {
        case 0: f( v ); break;
        case 1: { auto b = v.block( s.from, s.size ); f( b ); } break;
        case 2: { const V& c = v; auto b = c.block( s.from, s.size ); f( b ); } break;
        default: { auto o = v.block( s.from-s.outer, v.size()-(s.from-s.outer) ); auto b = o.block( s.outer, s.size ); f( b ); }
        }
    }
// Writable windows only
template<class F> void withDst( World& w, const Win& s, F f ) {
    V& v = *w.v[s.vec];
    if( s.kind == 0 ) f( v );
    else if( s.kind == 3 ) { auto o = v.block( s.from-s.outer, v.size()-(s.from-s.outer) ); auto b = o.block( s.outer, s.size ); f( b ); }
    else { auto b = v.block( s.from, s.size ); f( b ); }
    }
D model( World& w, const Win& s ) { return D( w.m[s.vec].begin()+(long)s.from, w.m[s.vec].begin()+(long)(s.from+s.size) ); }
std::string str( const Win& s ) { std::ostringstream o; o << "v" << s.vec << "<" << "wbcB"[s.kind] << s.from << "+" << s.size << ">"; return o.str(); }
bool overlapShifted( const Win& a, const Win& b ) { return a.vec==b.vec && a.from != b.from && a.size && b.size && a.from < b.from+b.size && b.from < a.from+a.size; }

void check( World& w, const char *op ) {
    mc::Hash hs;
    for( int i=0; i<NV; ++i ) {
        D r = rd( *w.v[i] );
        MC_CHECK( same(r,w.m[i]), std::string("state-after-")+op, "vector v" << i << " is " << h::str(r) << ", expected " << h::str(w.m[i]) );
        // iteration, const access and operator[] agree
        D it; const V& c = *w.v[i]; for( double x : c ) it.push_back(x);
        MC_CHECK( same(it,w.m[i]), "iteration", "iteration over v" << i << " gives " << h::str(it) << " expected " << h::str(w.m[i]) );
        MC_CHECK( c.empty() == w.m[i].empty() && c.size() == w.m[i].size(), "size", "size " << c.size() );
        hash(hs,r);
        }
    mc::state( hs ); mc::step();
    }

template<class X> void readChecks( const X& x, const D& m, const std::string& what ) {
    double one=0, inf=0, sq=0; bool nonfin = false, nan = false;
    for( double e : m ) { one += std::fabs(e); inf = std::max(inf,std::fabs(e)); sq += e*e; nonfin |= !std::isfinite(e); nan |= std::isnan(e); }
    if( nonfin ) {
        MC_CHECK( !std::isfinite(x.infNorm()), "infNorm-nonfinite", "infNorm of " << what << "=" << h::str(m) << " is " << x.infNorm() );
        MC_CHECK( !std::isfinite(x.oneNorm()), "oneNorm-nonfinite", "oneNorm of " << what << "=" << h::str(m) << " is " << x.oneNorm() );
        MC_CHECK( !std::isfinite(x.euclideanNorm()), "euclideanNorm-nonfinite", "euclideanNorm of " << what << "=" << h::str(m) << " is " << x.euclideanNorm() );
        }
    else {
        MC_CHECK( x.infNorm() == inf, "infNorm", "infNorm of " << what << "=" << h::str(m) << " is " << x.infNorm() << ", expected " << inf );
        MC_CHECK( close(x.oneNorm(),one,1e-14), "oneNorm", "oneNorm of " << what << "=" << h::str(m) << " is " << x.oneNorm() << ", expected " << one );
        MC_CHECK( close(x.euclideanNormSquare(),sq,1e-14), "euclideanNormSquare", "euclideanNormSquare of " << what << "=" << h::str(m) << " is " << x.euclideanNormSquare() << ", expected " << sq );
        MC_CHECK( close(x.euclideanNorm(),std::sqrt(sq),1e-14), "euclideanNorm", "euclideanNorm of " << what << "=" << h::str(m) << " is " << x.euclideanNorm() );
        }
    MC_CHECK( same(rd(x),m), "read", what << " reads " << h::str(rd(x)) << ", expected " << h::str(m) );
    D it; for( auto i = x.begin(), e = x.end(); i != e; ++i ) it.push_back(*i);
    MC_CHECK( same(it,m), "iterate", what << " iterates " << h::str(it) << ", expected " << h::str(m) );
    it.clear(); for( auto i = x.cbegin(), e = x.cend(); i != e; ++i ) it.push_back(*i);
    MC_CHECK( same(it,m), "citerate", what << " iterates " << h::str(it) << ", expected " << h::str(m) );
    MC_CHECK( same(rd(x.clone()),m), "clone", what << " clones as " << h::str(rd(x.clone())) );
    D br; for( size_t i=0; i<m.size(); ++i ) br.push_back( x[(unsigned)i] );
    MC_CHECK( same(br,m), "subscript", what << " subscripts " << h::str(br) << ", expected " << h::str(m) );
    }

const std::vector<double> FAC = { 2, -1, 0, 0.5 };

// Calls f(view, modelOfView) for a source window, plain or scaled (once or twice)
template<class F> void withSource( World& w, const Win& s, int scal, double c, F f ) {
    D m = model(w,s);
    withView( w, s, [&]( auto& v ) {
        if( scal == 0 ) f( v, m );
        else if( scal == 1 ) { for( double& x : m ) x *= c; auto sv = v.scaled(c); f( sv, m ); }
        else { for( double& x : m ) x = x*c*-2; auto sv = v.scaled(c); auto sv2 = sv.scaled(-2); f( sv2, m ); }
        } );
    }

void oneOp( World& w, bool last ) {
    // alphabet, simplest first
    int op = mc::choose( 12, "op" );
    switch( op ) {
        case 0: case 1: case 2: {        // dst = / += / -= source view
            int dv = mc::choose(NV); Win d = chooseWin( w, dv );
            if( d.kind == 2 ) mc::prune();
            int sv = mc::choose(NV); Win s = chooseWin( w, sv );
            if( op != 0 || d.kind != 0 ) if( s.size != d.size ) mc::prune();
            int scal = mc::choose(w.rich+1); double c = scal ? (w.rich==2 ? mc::pick(FAC) : 2) : 1;
            if( overlapShifted(d,s) && !(op==0 && d.kind==0) ) mc::prune();
            if( op==0 && d.kind==0 && d.vec==s.vec && scal && s.size != d.size && s.from != 0 ) { /* v = v.block(k,..).scaled(c) */ }
            MC_LOG( str(d) << (op==0?" = ":op==1?" += ":" -= ") << str(s) << " scaled x" << scal << " by " << c );
            D res;
            withSource( w, s, scal, c, [&]( auto& src, const D& m ) {
                res = m;
                withDst( w, d, [&]( auto& dst ) {
                    if( op==0 ) dst = src; else if( op==1 ) dst += src; else dst -= src;
                    } );
                } );
            if( op==0 && d.kind==0 ) w.m[d.vec] = res;
            else for( size_t i=0; i<d.size; ++i ) { double& x = w.m[d.vec][d.from+i]; if( op==0 ) x = res[i]; else if( op==1 ) x += res[i]; else x -= res[i]; }
            check( w, op==0?"assign":op==1?"add":"subtract" );
            } break;
        case 3: {                        // dst = a + b / a - b, with a, b views; dst may be either
            int av = mc::choose(NV), bv = mc::choose(NV), dv = mc::choose(NV); bool minus = mc::flip();
            Win a = chooseWin(w,av), b = chooseWin(w,bv); if( a.size != b.size ) mc::prune();
            int scal = mc::choose(2); double c = scal ? -1 : 1;
            MC_LOG( "v" << dv << " = " << str(a) << (minus?" - ":" + ") << str(b) << (scal?".scaled(-1)":"") );
            D ma = model(w,a), mb = model(w,b), r(a.size);
            for( size_t i=0; i<r.size(); ++i ) r[i] = minus ? ma[i] - c*mb[i] : ma[i] + c*mb[i];
            withView( w, a, [&]( auto& x ) { withSource( w, b, scal, c, [&]( auto& y, const D& ) { if( minus ) *w.v[dv] = x - y; else *w.v[dv] = x + y; } ); } );
            w.m[dv] = r;
            check( w, "sum" );
            } break;
        case 4: {                        // dst *= c
            int dv = mc::choose(NV); Win d = chooseWin( w, dv ); if( d.kind == 2 ) mc::prune();
            double c = w.rich ? mc::pick(FAC) : 2;
            MC_LOG( str(d) << " *= " << c );
            withDst( w, d, [&]( auto& x ) { x *= c; } );
            for( size_t i=0; i<d.size; ++i ) w.m[d.vec][d.from+i] *= c;
            check( w, "scale" );
            } break;
        case 5: {                        // clear
            int dv = mc::choose(NV); Win d = chooseWin( w, dv ); if( d.kind == 2 ) mc::prune();
            MC_LOG( str(d) << ".clear()" );
            withDst( w, d, [&]( auto& x ) { x.clear(); } );
            for( size_t i=0; i<d.size; ++i ) w.m[d.vec][d.from+i] = 0;
            check( w, "clear" );
            } break;
        case 6: {                        // resize: leading entries kept, rest zero
            int dv = mc::choose(NV); unsigned n = (unsigned)mc::choose(5);
            MC_LOG( "v" << dv << ".resize(" << n << ")" );
            w.v[dv]->resize(n); w.m[dv].resize(n,0.);
            check( w, "resize" );
            } break;
        case 7: {                        // element write
            int dv = mc::choose(NV); Win d = chooseWin( w, dv ); if( d.kind == 2 || d.size == 0 ) mc::prune();
            unsigned i = (unsigned)mc::choose((int)d.size); int how = mc::choose(3);
            MC_LOG( str(d) << " element " << i << " = 7 (" << how << ")" );
            withDst( w, d, [&]( auto& x ) { if( how==0 ) x[i] = 7; else if( how==1 ) x.at(i) = 7; else { auto it = x.begin(); for( unsigned k=0; k<i; ++k ) ++it; *it = 7; } } );
            w.m[d.vec][d.from+i] = 7;
            check( w, "write" );
            } break;
        case 8: {                        // copies are independent: replace a vector by a copy of a view, then write to the original
            int dv = mc::choose(NV), sv = mc::choose(NV); Win s = chooseWin(w,sv); int how = mc::choose(3);
            MC_LOG( "v" << dv << " = copy of " << str(s) << " (" << how << ")" );
            D m = model(w,s);
            std::unique_ptr<V> n;
            withView( w, s, [&]( auto& x ) { if( how==0 ) n.reset( new V(x) ); else if( how==1 ) n.reset( new V(x.clone()) ); else { V t(x); n.reset( new V( std::move(t) ) ); } } );
            if( dv != sv && w.v[sv]->size() ) { (*w.v[sv])[0] += 1; w.m[sv][0] += 1; }
            w.v[dv] = std::move(n); w.m[dv] = m;
            check( w, "copy" );
            } break;
        case 9: {                        // read-only queries on a (scaled) view: norms, iteration, dot
            int sv = mc::choose(NV); Win s = chooseWin(w,sv); int scal = mc::choose(w.rich+1); double c = scal ? (w.rich==2 ? mc::pick(FAC) : 2) : 1;
            MC_LOG( "read " << str(s) << " scaled x" << scal << " by " << c );
            withSource( w, s, scal, c, [&]( auto& x, const D& m ) { readChecks( x, m, str(s) ); } );
            int ov = mc::choose(NV); Win b = chooseWin(w,ov);
            if( b.size == s.size ) {
                D ma = model(w,s), mb = model(w,b); double e = 0; for( size_t i=0; i<ma.size(); ++i ) e += ma[i]*mb[i];
                double g = 0; withView( w, s, [&]( auto& x ) { withView( w, b, [&]( auto& y ) { g = x.dot(y); } ); } );
                MC_CHECK( close(g,e,1e-14), "dot", h::str(ma) << " . " << h::str(mb) << " = " << g << ", expected " << e );
                D mx(ma.size()); for( size_t i=0; i<ma.size(); ++i ) mx[i] = std::max(ma[i],mb[i]);
                D gx; withView( w, s, [&]( auto& x ) { withView( w, b, [&]( auto& y ) { auto cx = x.clone(), cy = y.clone(); gx = rd( std::max(cx,cy) ); } ); } );
                bool anynan = false; for( size_t i=0; i<ma.size(); ++i ) anynan |= std::isnan(ma[i]) || std::isnan(mb[i]);
                MC_CHECK( anynan || same(gx,mx), "max", "max(" << h::str(ma) << "," << h::str(mb) << ") = " << h::str(gx) );
                }
            D ma = model(w,s), fa(ma), sq(ma); for( double& x : fa ) x = std::fabs(x); for( size_t i=0; i<sq.size(); ++i ) sq[i] = std::sqrt(fa[i]);
            withView( w, s, [&]( auto& x ) {
                MC_CHECK( same(rd(std::fabs(x)),fa), "fabs", "fabs(" << h::str(ma) << ")=" << h::str(rd(std::fabs(x))) );
                auto f = std::fabs(x);
                MC_CHECK( same(rd(std::sqrt(f)),sq), "sqrt", "sqrt(" << h::str(fa) << ")=" << h::str(rd(std::sqrt(f))) );
                } );
            check( w, "read" );
            } break;
        case 10: {                       // swap
            MC_LOG( "swap(v0,v1)" );
            w.v[0]->swap( *w.v[1] ); std::swap( w.m[0], w.m[1] );
            check( w, "swap" );
            } break;
        case 11: {                       // out of range reads of a vector are rejected, not served
            int dv = mc::choose(NV); unsigned n = (unsigned)w.m[dv].size(); bool cst = mc::flip();
            MC_LOG( "v" << dv << ".at(" << n << ")" );
            bool t = false; try { if( cst ) { const V& c = *w.v[dv]; volatile double x = c.at(n); (void)x; } else w.v[dv]->at(n) = 1; } catch( const std::exception& ) { t = true; }
            MC_CHECK( t, "out-of-range", "reading past the end of v" << dv << " was not rejected" );
            check( w, "at" );
            } break;
        }
    mc::outcome( "op" + std::to_string(op) );
    (void)last;
    }

void init( World& w, int a, int b ) {
    static const std::vector<D> base = { {}, {3}, {1,-2}, {1,-2,3}, {0.5,4,-1,2} };
    w.m[0] = base[(size_t)a]; w.m[1] = base[(size_t)b]; for( double& x : w.m[1] ) x = x*0.5+1;
    for( int i=0; i<NV; ++i ) w.v[i].reset( new V( mk(w.m[i]) ) );
    }

} // anonymous

MC_SCENARIO( single, "every single operation over two vectors of all sizes 0..4, all windows, views of views and scalings" )
{
    World w; int a = mc::choose(5), b = mc::choose(5); init( w, a, b );
    oneOp( w, true );
}

MC_SCENARIO( special_values, "reads, norms and dot of all vectors of length 0..3 (thorough 4) over {0,-0,1,-2,1e-320,1e308,inf,-inf,NaN}, every window, plain and scaled" )
{
    static const std::vector<double> A = { 0, 1, -2, NaN, INF, -INF, -0.0, 1e-320, 1e150 };
    size_t n = (size_t)mc::choose( mc::tier(4,5) );
    World w; w.m[0].resize(n); for( double& x : w.m[0] ) x = mc::pick(A); w.m[1] = {1};
    for( int i=0; i<NV; ++i ) w.v[i].reset( new V( mk(w.m[i]) ) );
    Win s{ 1, 0, 0, n, 0 }; s.from = (size_t)mc::choose((int)n+1); s.size = (size_t)mc::choose((int)(n-s.from)+1); s.kind = mc::choose(3);
    if( s.kind == 0 ) { s.from = 0; s.size = n; }
    int scal = mc::choose(2);
    MC_LOG( "norms of " << str(w.m[0]) << " window " << str(s) << " scaled " << scal );
    withSource( w, s, scal, -2, [&]( auto& x, const D& m ) { readChecks( x, m, str(s) ); } );
    D m = model(w,s); bool nonfin = false; for( double x : m ) nonfin |= !std::isfinite(x);
    mc::outcome( nonfin ? "nonfinite" : "finite" );
    check( w, "norms" );
}

MC_SCENARIO( special_arith, "in-place and out-of-place sum, difference and scaling of all pairs of vectors of length 2 over special values (one entry fixed in quick), with each other and with themselves, whole or through a block view, scale factors {0,-0,1,-1,inf,NaN}" )
{
    static const std::vector<double> A = { 0, 1.5, -2, NaN, INF, -INF, -0.0, 1e-320, 1e308 };
    static const std::vector<double> C = { 0, -0.0, 1, -1, INF, NaN };
    D a{ mc::pick(A), mc::thorough() ? mc::pick(A) : 3. }, b{ mc::pick(A), mc::thorough() ? mc::pick(A) : -1. };
    int op = mc::choose(8); bool self = mc::flip(), view = mc::flip(); double c = op==2 || op>=5 ? mc::pick(C) : 1;
    V v = mk(a), w = mk(b); const D o = self ? a : b; D e = a;
    MC_LOG( "op " << op << " on " << str(a) << " with " << (self?"itself":str(b)) << " factor " << c << (view?" through a view":"") );
    for( size_t i=0;i<2;++i ) switch( op ) { case 0: case 3: e[i] = a[i]+o[i]; break; case 1: case 4: e[i] = a[i]-o[i]; break; case 2: e[i] = a[i]*c; break; case 5: e[i] = a[i]+o[i]*c; break; case 6: e[i] = a[i]-o[i]*c; break; default: e[i] = o[i]*c; }
    V& y = self ? v : w;
    auto doit = [&]( auto& x ) { switch( op ) {
        case 0: x += y; break; case 1: x -= y; break; case 2: x *= c; break; case 3: x = x + y; break; case 4: x = x - y; break;
        case 5: x += y.scaled(c); break; case 6: x -= y.scaled(c); break; default: x = y.scaled(c); } };
    if( view ) { auto x = v.block(0,2); doit( x ); } else doit( v );
    mc::step(); mc::Hash hs; for( double x : e ) hs.d(x); mc::state( hs ); mc::outcome( std::isfinite(e[0])?"finite":"nonfinite" );
    for( size_t i=0;i<2;++i ) MC_CHECK( same( v[i], e[i] ), "special", "entry " << i << " is " << v[i] << ", expected " << e[i] << " after op " << op << " on " << str(a) << " with " << (self?"itself":str(b)) << " factor " << c );
    if( !self ) for( size_t i=0;i<2;++i ) MC_CHECK( same( w[i], b[i] ), "operand-changed", "operand entry " << i << " became " << w[i] );
}

MC_SCENARIO( text, "textual form of vectors of length 0..6 with every half limit 0..4" )
{
    int n = mc::choose(7); int lim = mc::choose(6); unsigned L = lim==5 ? ~0u : (unsigned)lim;
    D d; for( int i=0; i<n; ++i ) d.push_back( i*1.5-1 );
    V v = mk(d);
    std::vector<std::string> parts; bool cut = lim != 5 && n > 2*lim;
    auto num = []( double x ) { std::ostringstream s; s << x; return s.str(); };
    if( cut ) { for( int i=0; i<lim; ++i ) parts.push_back(num(d[(size_t)i])); parts.push_back("..."); for( int i=n-lim; i<n; ++i ) parts.push_back(num(d[(size_t)i])); }
    else for( double x : d ) parts.push_back(num(x));
    std::string e = "["; for( size_t i=0; i<parts.size(); ++i ) e += (i?", ":"") + parts[i]; e += "]";
    std::string g = v.toString( L );
    MC_LOG( "toString(" << L << ") of " << n << " -> " << g );
    if( lim != 0 ) MC_CHECK( g == e, "toString", "toString(" << L << ") of " << h::str(d) << " is " << g << ", expected " << e );
    mc::state( g ); mc::step(); mc::outcome( cut ? "abbreviated" : "full" );
}

MC_SCENARIO( histories2, "all sequences of 2 operations over two vectors of sizes 2 and 0/2, windows reaching to the end, plain views" )
{
    World w; w.rich = 0; init( w, 2, mc::choose(2)*2 );
    oneOp( w, false );
    oneOp( w, true );
}

MC_SCENARIO_T( histories3, "all sequences of 3 operations over two vectors of size 2, windows reaching to the end, plain views", 2 )
{
    World w; w.rich = 0; mc::splitAt( 5000 ); init( w, 2, 2 );
    oneOp( w, false );
    oneOp( w, false );
    oneOp( w, true );
}

MC_SCENARIO_T( histories2_rich, "all sequences of 2 operations over two vectors of sizes 2 and 3, all windows, const views, one scaling", 2 )
{
    World w; w.rich = 1; mc::splitAt( 5000 ); init( w, 2, 3 );
    oneOp( w, false );
    oneOp( w, true );
}

// Every operation at every length: values are distinct small dyadic numbers, so that every sum is exact
MC_SCENARIO( lengths, "every length 0..40 and 63..65, 127..129, 255..257 (thorough 0..300 and 511..513, 1023..1025): every kind of operation on whole vectors, block views of 3 kinds, scalings, and lengths shrunk and grown; entries exact" )
{
    std::vector<int> ns; for( int i=0; i<=mc::tier(40,300); ++i ) ns.push_back(i); for( int i : {63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025} ) if( i > ns.back() && (mc::thorough() || i < 300) ) ns.push_back(i);
    size_t n = (size_t)ns[(size_t)mc::choose( (int)ns.size() )]; D a(n), b(n); for( size_t i=0;i<n;++i ) { a[i] = 1 + (double)((i*37)%64)/4; b[i] = -3 + (double)((i*53)%128)/8; }
    size_t f = 0, m = n; switch( mc::choose(4) ) { case 0: break; case 1: if( n < 1 ) mc::prune(); f = 1; m = n-1; break; case 2: if( n < 1 ) mc::prune(); m = n-1; break; default: f = n/3; m = n/2; }
    V va = mk(a), vb = mk(b); auto ba = va.block( f, m ), bb = vb.block( f, m ); const V& ca = va; auto cb = ca.block( f, m );
    MC_LOG( "length " << n << ", part from " << f << " of length " << m );
    auto chk = [&]( const D& got, const std::function<double(size_t)>& w, const char *sig ) { MC_CHECK( got.size() == m, sig, sig << " of length " << m << " has length " << got.size() ); for( size_t i=0;i<m;++i ) MC_CHECK( got[i] == w(f+i), sig, sig << " of length " << m << ": entry " << i << " is " << got[i] << ", expected " << w(f+i) ); mc::step(); };
    auto plain = []( const auto& x ) { D r; for( size_t i=0;i<x.size();++i ) r.push_back( x[(unsigned)i] ); return r; };
    auto iter = []( const auto& x ) { D r; for( double y : x ) r.push_back( y ); return r; };
    chk( plain(ba), [&]( size_t i ) { return a[i]; }, "read" ); chk( iter(ba), [&]( size_t i ) { return a[i]; }, "iterate" ); chk( iter(cb), [&]( size_t i ) { return a[i]; }, "iterate-const" );
    chk( rd( ba.clone() ), [&]( size_t i ) { return a[i]; }, "clone" );
    chk( rd( ba+bb ), [&]( size_t i ) { return a[i]+b[i]; }, "sum" ); chk( rd( ba-bb ), [&]( size_t i ) { return a[i]-b[i]; }, "difference" ); chk( iter( ba.scaled(-2) ), [&]( size_t i ) { return -2*a[i]; }, "scaled" ); chk( rd( V( ba.scaled(0.5) ) ), [&]( size_t i ) { return 0.5*a[i]; }, "scaled-copy" );
    double dot=0, one=0, inf=0, sq=0; for( size_t i=f;i<f+m;++i ) { dot += a[i]*b[i]; one += std::fabs(b[i]); inf = std::max( inf, std::fabs(b[i]) ); sq += b[i]*b[i]; }
    MC_CHECK( ba.dot(bb) == dot && bb.dot(ba) == dot, "dot", "dot product at length " << m << " is " << ba.dot(bb) << ", expected " << dot );
    MC_CHECK( bb.oneNorm() == one && bb.infNorm() == inf && bb.euclideanNormSquare() == sq && close( bb.euclideanNorm(), std::sqrt(sq), 1e-14 ), "norms", "norms at length " << m << " are " << bb.oneNorm() << " " << bb.infNorm() << " " << bb.euclideanNormSquare() << ", expected " << one << " " << inf << " " << sq );
    for( size_t k=0;k<m;k+=std::max<size_t>(1,m/7) ) { V u(m); u[(unsigned)k] = NaN; MC_CHECK( !std::isfinite(u.infNorm()) && !std::isfinite(u.oneNorm()) && !std::isfinite(u.euclideanNorm()) && !std::isfinite(u.dot(ba)), "norm-nonfinite", "a NaN at entry " << k << " of " << m << " is lost in a norm" ); u.clear(); u[(unsigned)k] = -7; MC_CHECK( u.infNorm() == 7 && u.oneNorm() == 7 && u.euclideanNormSquare() == 49 && u.dot(ba) == -7*a[f+k], "norms", "norms of -7 at entry " << k << " of " << m ); }
    { auto r = ctm::math::vectorMemberwiseBinaryOp( ba, bb, []( double x, double y ) { return x*y; } ); chk( rd(r), [&]( size_t i ) { return a[i]*b[i]; }, "memberwise" ); auto q = ctm::math::vectorMemberwiseUnaryOp( ba, []( double x ) { return x+1; } ); chk( rd(q), [&]( size_t i ) { return a[i]+1; }, "memberwise-unary" ); }
    // in place; what lies outside the part stays
    auto inPlace = [&]( const char *sig, const std::function<void(V&)>& op, const std::function<double(size_t)>& w ) { V x = mk(a); op( x ); for( size_t i=0;i<n;++i ) { double e = i>=f && i<f+m ? w(i) : a[i]; MC_CHECK( x[(unsigned)i] == e, sig, sig << " on entries " << f << ".." << f+m << " of " << n << ": entry " << i << " is " << x[(unsigned)i] << ", expected " << e ); } mc::step(); };
    inPlace( "in-place-sum", [&]( V& x ) { auto p = x.block(f,m); p += bb; }, [&]( size_t i ) { return a[i]+b[i]; } );
    inPlace( "in-place-difference", [&]( V& x ) { auto p = x.block(f,m); p -= bb.scaled(2); }, [&]( size_t i ) { return a[i]-2*b[i]; } );
    inPlace( "in-place-scaling", [&]( V& x ) { auto p = x.block(f,m); p *= -4; }, [&]( size_t i ) { return -4*a[i]; } );
    inPlace( "assign-part", [&]( V& x ) { auto p = x.block(f,m); p = bb; }, [&]( size_t i ) { return b[i]; } );
    inPlace( "assign-scaled", [&]( V& x ) { auto p = x.block(f,m); p = bb.scaled(3); }, [&]( size_t i ) { return 3*b[i]; } );
    inPlace( "assign-itself", [&]( V& x ) { auto p = x.block(f,m); p = p.scaled(2); }, [&]( size_t i ) { return 2*a[i]; } );
    inPlace( "clear-part", [&]( V& x ) { auto p = x.block(f,m); p.clear(); }, [&]( size_t ) { return 0.; } );
    // whole vectors taking over another length, and resized
    V z( 5 ); z = ba; chk( rd(z), [&]( size_t i ) { return a[i]; }, "assign-longer" ); V s( ba ); chk( rd(s), [&]( size_t i ) { return a[i]; }, "copy" ); { V own = mk(a); own = own.block(f,m); chk( rd(own), [&]( size_t i ) { return a[i]; }, "assign-own-part" ); }
    for( size_t k : { n/2, n+1, 2*n+3 } ) { V x = mk(a); x.resize( (unsigned)k ); MC_CHECK( x.size() == k, "resize", "length after resize" ); for( size_t i=0;i<k;++i ) MC_CHECK( x[(unsigned)i] == (i<n ? a[i] : 0), "resize", "resized from " << n << " to " << k << ": entry " << i << " is " << x[(unsigned)i] ); mc::step(); }
    { std::string e = "["; for( size_t i=f;i<f+m;++i ) { std::ostringstream o; o << a[i]; e += (i>f?", ":"") + o.str(); } MC_CHECK( ba.toString() == e+"]", "toString", "text of a vector of length " << m << ": " << ba.toString() ); }
    for( size_t i=0;i<n;++i ) MC_CHECK( va[(unsigned)i] == a[i] && vb[(unsigned)i] == b[i], "operand-changed", "entry " << i << " of an operand of length " << n << " has changed" );
    mc::state( mc::Hash().u(n).u(f).u(m) ); mc::outcome( n==m ? "whole" : "part" );
}
