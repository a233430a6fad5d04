// U03: basic building blocks: values that start at zero, storage cells per type, exceptions, temporaries behind a pointer, simple fields.
// FAST: -include @H/lexstub.h
// USES: u03b
#include "u03.h"
#include <limits>
#include <map>
#include <set>
#include "ode_num_int/infra/cxx_zeroinit.h"
#include "ode_num_int/infra/cxx_exception.h"
#include "ode_num_int/infra/cxx_mock_ptr.h"
#include "ode_num_int/infra/def_getset.h"
#include "u03types.inc"
namespace mc { const char *assumptions[] = {
    "operations that are undefined for the plain type (overflow of signed integers, division by zero, pointers outside their array) are not made", nullptr }; }
namespace {
using namespace ctm::cxx;
typedef long double LD;
template<class X> bool fits( LD v ) { return std::is_floating_point<X>::value || sizeof(X) < sizeof(int) || std::is_unsigned<X>::value || (v >= (LD)std::numeric_limits<X>::min() && v <= (LD)std::numeric_limits<X>::max()); }
template<class X> bool eq( X a, X b ) { return a == b || (a != a && b != b); }
#define SAME(sig,got,want) MC_CHECK( eq<X>( (got), (want) ), sig, nm << ": " << sig << " of " << +a << " and " << +b << " gives " << +(X)(got) << ", with the plain type " << +(X)(want) )
template<class X> typename std::enable_if<std::is_integral<X>::value>::type bitOps( const char *nm, X a, X b ) {
    typedef zero_init<X> Z;
    { Z z(a); X p = a; X r = (z &= b), q = (p &= b); SAME( "and", r, q ); SAME( "and", z, p ); }
    { Z z(a); X p = a; X r = (z |= b), q = (p |= b); SAME( "or", r, q ); SAME( "or", z, p ); }
    if( b != 0 && !(std::is_signed<X>::value && b == (X)-1 && a == std::numeric_limits<X>::min()) ) { Z z(a); X p = a; X r = (z %= b), q = (p %= b); SAME( "remainder", r, q ); SAME( "remainder", z, p ); }
    }
template<class X> typename std::enable_if<!std::is_integral<X>::value>::type bitOps( const char*, X, X ) {}
template<class X> void ops( const char *nm, X a, X b ) {
    typedef zero_init<X> Z; mc::step();
    { Z z; SAME( "default", z, X() ); Z u(a); SAME( "value", u, a ); Z c(u); SAME( "copy", c, a ); Z d = b; d = u; SAME( "assignment", d, a ); SAME( "assignment", u, a ); X r = (d = b); SAME( "assignment", r, b ); SAME( "assignment", d, b ); d = d; SAME( "assignment", d, b ); 
      Z *h = new Z; SAME( "default", *h, X() ); delete h; Z arr[3]; for( auto& x : arr ) SAME( "default", x, X() ); struct M { zero_init<X> m; } m; SAME( "default", m.m, X() ); }
    { Z z(a); const Z k(b); MC_CHECK( (z == k) == (a == b) && (z < k) == (a < b) && (z != b) == (a != b), "compare", nm << ": comparison of " << +a << " and " << +b ); }
    if( fits<X>( (LD)a + b ) ) { Z z(a); X p = a; X r = (z += b), q = (p += b); SAME( "sum", r, q ); SAME( "sum", z, p ); }
    if( fits<X>( (LD)a - b ) ) { Z z(a); X p = a; X r = (z -= b), q = (p -= b); SAME( "difference", r, q ); SAME( "difference", z, p ); }
    if( fits<X>( (LD)a * b ) ) { Z z(a); X p = a; X r = (z *= b), q = (p *= b); SAME( "product", r, q ); SAME( "product", z, p ); }
    if( (b != 0 || std::is_floating_point<X>::value) && !(std::is_signed<X>::value && b == (X)-1 && a == std::numeric_limits<X>::lowest()) ) { Z z(a); X p = a; X r = (z /= b), q = (p /= b); SAME( "quotient", r, q ); SAME( "quotient", z, p ); }
    if( fits<X>( (LD)a + 1 ) ) { Z z(a); X p = a; X r = ++z, q = ++p; SAME( "increment", r, q ); SAME( "increment", z, p ); Z z2(a); X p2 = a; r = z2++; q = p2++; SAME( "increment-after", r, q ); SAME( "increment-after", z2, p2 ); }
    if( fits<X>( (LD)a - 1 ) ) { Z z(a); X p = a; X r = --z, q = --p; SAME( "decrement", r, q ); SAME( "decrement", z, p ); Z z2(a); X p2 = a; r = z2--; q = p2--; SAME( "decrement-after", r, q ); SAME( "decrement-after", z2, p2 ); }
    // the modifying operators give the value itself, which can be modified further
    if( fits<X>( (LD)a + 1 ) && a != std::numeric_limits<X>::max() ) { Z z(a); X& r = (z += (X)1); r = b; SAME( "reference", z, b ); X& r2 = (z = a); r2 = b; SAME( "reference", z, b ); Z y(a); X& r3 = ++y; r3 = b; SAME( "reference", y, b ); }
    bitOps<X>( nm, a, b );
    mc::outcome( nm );
    }
template<class X> std::vector<X> corner() { typedef std::numeric_limits<X> L; std::vector<X> r = { 0, 1, 2, 3, 7, 10, 100, L::max(), (X)(L::max()-1), (X)(L::max()/2), L::lowest(), (X)(L::lowest()+1) }; if( L::is_signed ) for( X x : { (X)-1, (X)-2, (X)-7, (X)-100 } ) r.push_back(x);
    if( std::is_floating_point<X>::value ) for( X x : { (X)0.5, (X)0.1, (X)-0.0, L::min(), L::denorm_min(), L::epsilon(), L::infinity(), -L::infinity(), L::quiet_NaN() } ) r.push_back(x); return r; }
template<class X> void corners( const char *nm ) { auto v = corner<X>(); X a = mc::pick(v), b = mc::pick(v); ops<X>( nm, a, b ); }
MC_SCENARIO( zero_values, "all pairs of values of char and unsigned char, all pairs of 12 to 25 border values of int, unsigned, long, unsigned long, float, double (with infinity and NaN), and of bool: construction, copy, assignment, comparison and every modifying operator compared with the plain type" ) {
    switch( mc::choose( 9 ) ) {
        case 0: { int a = mc::choose(256); for( int b=0; b<256; ++b ) ops<char>( "char", (char)(a-128), (char)(b-128) ); break; }
        case 1: { int a = mc::choose(256); for( int b=0; b<256; ++b ) ops<unsigned char>( "unsigned char", (unsigned char)a, (unsigned char)b ); break; }
        case 2: corners<int>("int"); break; case 3: corners<unsigned>("unsigned"); break; case 4: corners<long>("long"); break; case 5: corners<unsigned long>("unsigned long"); break; case 6: corners<float>("float"); break; case 7: corners<double>("double"); break;
        default: { typedef bool X; const char *nm = "bool"; bool a = mc::flip(), b = mc::flip(); bool0 z; SAME( "default", z, false ); bool0 u(a), c(u); SAME( "copy", c, a ); z = b; SAME( "assignment", z, b ); z = u; SAME( "assignment", z, a ); X r = (u |= b); SAME( "or", u, a||b ); SAME( "or", r, a||b ); bool0 w(a); r = (w &= b); SAME( "and", w, a&&b ); SAME( "and", r, a&&b ); MC_CHECK( (bool0() ? 1 : 2) == 2, "condition", "false counts as true" ); mc::outcome( nm ); }
        }
    }
MC_SCENARIO( zero_pointers, "all sequences of 4 (quick) / 6 (thorough) operations on a pointer into an array of 6: assignment of elements and null, moves by 0..3, increments and decrements, copies, compared with a plain pointer" ) {
    struct E { int v; }; static E arr[7]; for( int i=0; i<7; ++i ) arr[i].v = 10+i;
    zero_init_ptr<E> z; E *p = nullptr; MC_CHECK( (E*)z == nullptr, "default", "a default pointer is not null" );
    for( int d=0, n=mc::tier(4,6); d<n; ++d ) {
        int op = mc::choose( 8 ); E *r = nullptr, *q = nullptr; long pos = p ? p-arr : -1;
        switch( op ) {
            case 0: { int i = mc::choose(4); r = (z = arr+2*i); q = (p = arr+2*i); break; }
            case 1: r = (z = nullptr); q = (p = nullptr); break;
            case 2: { int k = mc::choose(4); if( pos<0 || pos+k > 6 ) mc::prune(); r = (z += k); q = (p += k); break; }
            case 3: { int k = mc::choose(4); if( pos<0 || pos-k < 0 ) mc::prune(); r = (z -= k); q = (p -= k); break; }
            case 4: if( pos<0 || pos>5 ) mc::prune(); if( mc::flip() ) { r = z++; q = p++; } else { r = ++z; q = ++p; } break;
            case 5: if( pos<1 ) mc::prune(); if( mc::flip() ) { r = z--; q = p--; } else { r = --z; q = --p; } break;
            case 6: { zero_init_ptr<E> c(z); MC_CHECK( (E*)c == p, "copy", "a copy points elsewhere" ); z = c; r = z; q = p; break; }
            default: { if( pos<0 ) mc::prune(); r = z; q = p; MC_CHECK( z->v == p->v && (*z).v == p->v && z[0].v == p->v, "access", "another element is accessed" ); }
            }
        mc::step(); MC_CHECK( r == q && (E*)z == p, "pointer", "the pointer points to element " << ((E*)z-arr) << ", a plain one to " << (p-arr) );
        MC_CHECK( (z == p) && !(z != p) && (!z == !p), "compare", "comparison with the plain pointer fails" ); mc::state( mc::Hash().u( (unsigned)(p ? p-arr+1 : 0) ).u( d ) );
        }
    }
// --- cells
struct Both { u03::Cells *c[2]; Both() { static PrivateCells mine; c[0] = &mine; c[1] = &u03::other(); } };
MC_SCENARIO( cells, "6 storage cells of types private to each of two source files, with the same names in both: all sequences of 4 (quick) / 5 (thorough) writes and all reads after each, compared with 12 separate variables whose addresses never change" ) {
    Both w; std::map<std::pair<int,int>,std::string> model; std::set<void*> addr; void *first[2][6];
    for( int f=0; f<2; ++f ) for( int i=0; i<6; ++i ) { first[f][i] = w.c[f]->address(i); MC_CHECK( addr.insert( first[f][i] ).second, "shared-cell", "cell " << i << " of source file " << f << " is also that of other types" ); }
    for( int f=0; f<2; ++f ) for( int i=0; i<6; ++i ) { w.c[f]->set( i, 0 ); model[{f,i}] = w.c[f]->get(i); }
    for( int d=0, n=mc::tier(4,5); d<n; ++d ) {
        int f = mc::choose(2), i = mc::choose(6), x = 1+d; w.c[f]->set( i, x ); model[{f,i}] = i==0||i==1||i==4 ? std::to_string(x) : std::string( 20, (char)('a'+x) ); mc::step();
        for( int g=0; g<2; ++g ) for( int j=0; j<6; ++j ) { auto& want = model[std::make_pair(g,j)]; MC_CHECK( w.c[g]->get(j) == want, "cell-value", "cell " << j << " of source file " << g << " reads '" << w.c[g]->get(j) << "' instead of '" << want << "'" ); MC_CHECK( w.c[g]->address(j) == first[g][j], "cell-moved", "cell " << j << " has moved" ); }
        }
    mc::Hash h; for( auto& x : model ) h.s( x.second ); mc::state( h );
    }
MC_SCENARIO( first_access, "every cell of 9 pairs of types seen for the first time in every order of 4 of them: it holds the default value (zero, empty), and later accesses reach the same object" ) {
    static int serial = 0; struct Acc { std::function<std::pair<bool,void*>()> f; };
    struct T1 {}; struct T2 {}; struct N { int a = 5; };
    std::vector<std::function<std::pair<bool,void*>()>> acc = {
        [] { auto& x = PerTypeStorage::value<T1,std::string>(); return std::make_pair( x.empty(), (void*)&x ); }, [] { auto& x = PerTypeStorage::value<T2,std::string>(); return std::make_pair( x.empty(), (void*)&x ); },
        [] { auto& x = PerTypeStorage::value<T1,std::vector<int>>(); return std::make_pair( x.empty(), (void*)&x ); }, [] { auto& x = PerTypeStorage::value<T1,N>(); return std::make_pair( x.a == 5, (void*)&x ); }, [] { auto& x = PerTypeStorage::value<N,N>(); return std::make_pair( x.a == 5, (void*)&x ); },
        [] { auto& x = PerTypeStorage::value<T1*,int0>(); return std::make_pair( x == 0, (void*)&x ); }, [] { auto& x = PerTypeStorage::value<T1,int0>(); return std::make_pair( x == 0, (void*)&x ); },
        [] { auto& x = PerTypeStorage::value<int0,int0>(); return std::make_pair( x == 0, (void*)&x ); }, [] { auto& x = PerTypeStorage::value<std::vector<T1>,double0>(); return std::make_pair( x == 0, (void*)&x ); } };
    std::map<int,void*> at; (void)serial;
    for( int d=0; d<4; ++d ) { int i = mc::choose( (int)acc.size() ); auto r = acc[i](); mc::step(); MC_CHECK( r.first, "default", "cell " << i << " does not hold the default value" );
        for( auto& x : at ) MC_CHECK( (x.second == r.second) == (x.first == i), "shared-cell", "cells " << i << " and " << x.first << (x.first == i ? " are different objects" : " are the same object") ); at[i] = r.second; }
    mc::Hash h; for( auto& x : at ) h.u( x.first ); mc::state( h );
    }
// a type keeps its name also if another source file has a private type of the same name
MC_SCENARIO( private_types, "all orders of registering up to 4 types private to two source files, two per file with the same names in both, under different names: each object tells its own name, and each name makes an object of its own type" ) {
    static int serial = 0; struct R { int file, kind; std::string name; }; std::vector<R> all = { {0,1,""},{0,2,""},{1,1,""},{1,2,""} }, done; int n = 1 + mc::choose(4);
    for( int d=0; d<n; ++d ) {
        int i = mc::choose( (int)all.size() ); R r = all[i]; all.erase( all.begin()+i ); r.name = "u03-" + std::to_string( ++serial ) + "-" + std::to_string( r.file ) + std::to_string( r.kind );
        if( r.file ) u03::otherRegister( r.kind, r.name ); else doRegister( r.kind, r.name ); done.push_back(r); mc::step();
        for( auto& x : done ) {
            auto m = x.file ? u03::otherMake( x.kind ) : doMake( x.kind );
            MC_CHECK( m.id == x.name && m.viaGetter == x.name, "name", "the type registered as " << x.name << " calls itself " << m.id );
            auto o = Factory<I>::newInstance( x.name ); int k0 = doKind(*o), k1 = u03::otherKind(*o);
            MC_CHECK( k0 == (x.file ? 0 : x.kind) && k1 == (x.file ? x.kind : 0), "made", "the name " << x.name << " makes an object of another type" );
            MC_CHECK( TypeIdGetter<I>::typeId(o) == x.name, "name", "the object made under the name " << x.name << " calls itself " << TypeIdGetter<I>::typeId(o) );
            }
        }
    mc::outcome( std::to_string(n) );
    }
// --- exceptions
CTM_DECL_EXCEPTION( level1, ctm::cxx::exception )
CTM_DECL_EXCEPTION( level2, level1 )
CTM_DECL_EXCEPTION( other1, ctm::cxx::exception )
template<class E> std::string caught( const std::string& text, int how, int handler, bool& right ) {
    auto raise = [&] { switch( how ) { case 0: throw E( text ); case 1: { E e( text ); E f( e ); throw f; } case 2: { E e( text ), f; f = e; throw f; } default: try { throw E( text ); } catch( std::exception& ) { throw; } } };
    right = true;
    try { switch( handler ) {
        case 0: try { raise(); } catch( std::exception& e ) { return e.what(); }
        case 1: try { raise(); } catch( ctm::cxx::exception& e ) { return e.what(); }
        case 2: try { raise(); } catch( ctm::cxx::exception e ) { return e.what(); }
        case 3: try { raise(); } catch( other1& ) { right = std::is_same<E,other1>::value; return text; } catch( level1& e ) { right = std::is_base_of<level1,E>::value; return e.what(); } catch( ctm::cxx::exception& e ) { right = std::is_same<E,ctm::cxx::exception>::value; return e.what(); }
        default: { std::exception_ptr p; try { raise(); } catch( ... ) { p = std::current_exception(); } try { std::rethrow_exception( p ); } catch( E& e ) { return e.what(); } }
        } } catch( ... ) { right = false; }
    return "";
    }
MC_SCENARIO( exceptions, "4 exception types of 3 levels x 5 texts (empty, short, long, with line breaks, made of a temporary) x thrown directly, as a copy, as an assigned one, rethrown x 5 handlers: the text arrives, at the right handler" ) {
    std::vector<std::string> texts = { "", "short", std::string( 500, 'x' ), "two\nlines\t%s", std::string("a") + "b" }; std::string t = mc::pick( texts ); int how = mc::choose(4), hd = mc::choose(5); bool right = false; std::string got;
    switch( mc::choose(4) ) { case 0: got = caught<ctm::cxx::exception>( t, how, hd, right ); break; case 1: got = caught<level1>( t, how, hd, right ); break; case 2: got = caught<level2>( t, how, hd, right ); break; default: got = caught<other1>( t, how, hd, right ); }
    mc::step(); MC_CHECK( right, "handler", "the exception was caught by the wrong handler" ); MC_CHECK( got == t, "text", "the exception says '" << got << "' instead of '" << t << "'" );
    ctm::cxx::exception none; MC_CHECK( std::string( none.what() ).empty(), "text", "an exception without text says something" );
    }
// --- a value behind a pointer, simple fields
struct Conf { CTM_DECL_THIS_CLASS_ALIAS( Conf ) CTM_DECL_SIMPLE_CLASS_FIELD( int, count, setCount, 4 ) CTM_DECL_SIMPLE_CLASS_FIELD( std::string, name, setName, "none" ) CTM_DECL_SIMPLE_CLASS_FIELD( double, step, setStep, 0.5 ) };
MC_SCENARIO( fields, "an object with three simple fields: all sequences of 4 (quick) / 6 (thorough) settings, chained or not, and copies" ) {
    Conf c; int n = 4; std::string s = "none"; double x = 0.5; Conf copy = c; int cn = n; std::string cs = s; double cx = x;
    for( int d=0, k=mc::tier(4,6); d<k; ++d ) {
        switch( mc::choose(6) ) { case 0: n = 10+d; MC_CHECK( &c.setCount(n) == &c, "chain", "a setter does not give its object" ); break; case 1: s = "name" + std::to_string(d); c.setName(s); break; case 2: x = d; c.setStep(x); break;
            case 3: n = 1; s = "all"; x = 2; c.setCount(1).setName("all").setStep(2); break; case 4: copy = c; cn = n; cs = s; cx = x; break; default: c = copy; n = cn; s = cs; x = cx; }
        mc::step(); MC_CHECK( c.count() == n && c.name() == s && c.step() == x && copy.count() == cn && copy.name() == cs && copy.step() == cx, "field", "a field reads another value than was set" );
        }
    mc::state( mc::Hash().u( (unsigned)n ).s( s ) );
    }
MC_SCENARIO( mock_pointers, "a value behind a pointer: all sequences of 4 out of writing through it (3 ways), copying, reading through a constant, converting to a plain pointer" ) {
    struct P { int a; std::string b; }; P src{ 1, "one" }; mock_ptr<P> p( src ), q( P{ 0, "" } ); P m = src, mq{ 0, "" };
    for( int d=0; d<4; ++d ) {
        switch( mc::choose(7) ) { case 0: p->a = m.a = 5+d; break; case 1: (*p).b = m.b = "two" + std::to_string(d); break; case 2: *p = m = P{ d, "new" }; break; case 3: q = p; mq = m; break; case 4: { mock_ptr<P> c( p ); c->a = 99; break; } case 5: std::swap( p, q ); std::swap( m, mq ); break; default: src.a = 77; }
        const auto& cp = p; mc::step();
        MC_CHECK( p->a == m.a && p->b == m.b && cp->a == m.a && (*cp).b == m.b && (*q).a == mq.a && q->b == mq.b, "mock", "the value behind the pointer is not what was written" );
        MC_CHECK( &*p == p.operator->() && &*cp == &*p, "mock", "different objects are reached" );
        const P *plain = cp; P *plain2 = p; MC_CHECK( plain == &*p && plain2 == &*p, "mock-plain", "the plain pointer leads elsewhere" );
        }
    mc::state( mc::Hash().u( (unsigned)m.a ).s( m.b ).u( (unsigned)mq.a ) );
    }
}
