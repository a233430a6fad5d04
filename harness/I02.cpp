// I02: option values, texts, paths and copies of option sets.
// FLAGS: -O2
#include "hutil.h"
#include <cstring>
#include <cstdlib>
#include <memory>
#include "ode_num_int/infra/OptionalParameters.h"
namespace mc { const char *assumptions[] = {
    "option texts contain no NUL characters; \"-0\" as an unsigned number and nonzero numbers below the smallest double are left open", nullptr }; }
namespace {
using ctm::OptionalParameters;
typedef OptionalParameters::Value Value;
typedef OptionalParameters::Parameters Params;
// hand-written recognisers: [sign] digits ; [sign] (digits [. [digits]] | . digits) [e [sign] digits]
bool dig( char c ) { return c >= '0' && c <= '9'; }
bool isInt( const std::string& s ) { size_t i = !s.empty() && (s[0]=='+'||s[0]=='-'); size_t n = 0; for( ; i<s.size(); ++i, ++n ) if( !dig(s[i]) ) return false; return n > 0; }
bool isNum( const std::string& s ) {
    size_t i = !s.empty() && (s[0]=='+'||s[0]=='-'), n = 0;
    for( ; i<s.size() && dig(s[i]); ++i ) ++n;
    if( i<s.size() && s[i]=='.' ) for( ++i; i<s.size() && dig(s[i]); ++i ) ++n;
    if( n == 0 ) return false;
    if( i<s.size() && (s[i]=='e'||s[i]=='E') ) { ++i; if( i<s.size() && (s[i]=='+'||s[i]=='-') ) ++i; size_t k = 0; for( ; i<s.size() && dig(s[i]); ++i ) ++k; if( k == 0 ) return false; }
    return i == s.size();
    }
// exact integer value with saturation far outside all ranges
long long intOf( const std::string& s ) { bool neg = s[0]=='-'; long long v = 0; for( char c : s ) if( dig(c) ) { v = v*10 + (c-'0'); if( v > 1000000000000000LL ) v = 1000000000000000LL; } return neg ? -v : v; }

bool underflows( const std::string& s, double d ) { if( !isNum(s) || d != 0 ) return false; for( char c : s ) { if( c=='e'||c=='E' ) break; if( c>='1'&&c<='9' ) return true; } return false; }

// Loads an option of type T from text into a variable that already holds something.
template<class T> void load( const std::string& text, bool acceptable, T expected, const char *type ) {
    T dst = T(1), was = dst; Params p; p["x"] = text; bool threw = false, found = false;
    try { found = OptionalParameters::maybeLoadParameter( p, "x", dst ); } catch( const std::exception& ) { threw = true; }
    MC_LOG( type << " from '" << text << "': " << (threw ? "rejected" : "accepted") );
    MC_CHECK( threw == !acceptable, "accept", "'" << text << "' as " << type << " was " << (threw?"rejected":"accepted") << (threw?"":" as ") << (threw?std::string():std::to_string(dst)) );
    if( threw ) MC_CHECK( dst == was, "unchanged", "the option changed although '" << text << "' was rejected" );
    else MC_CHECK( found && std::memcmp(&dst,&expected,sizeof(T)) == 0, "value", "'" << text << "' as " << type << " is " << dst << ", expected " << expected );
    if( text.size() < 4 ) { bool threw2 = false; try { T t = p["x"]; (void)t; } catch( const std::exception& ) { threw2 = true; } MC_CHECK( threw2 == threw, "accept", "implicit conversion of '" << text << "' differs" ); }
    MC_CHECK( p["x"].value<std::string>() == text, "text", "the text changed" );
    mc::step(); mc::outcome( std::string(type) + (threw ? " rejected" : " accepted") );
    }
void allTypes( const std::string& s ) {
    bool in = isInt( s ); long long v = in ? intOf( s ) : 0;
    load<int>( s, in && v >= -2147483648LL && v <= 2147483647LL, (int)v, "int" );
    if( !(in && v == 0 && s[0] == '-') ) load<unsigned>( s, in && v >= 0 && v <= 4294967295LL, (unsigned)v, "unsigned" );
    double d = isNum(s) ? std::strtod( s.c_str(), nullptr ) : 0; if( !underflows( s, d ) ) load<double>( s, isNum(s) && std::isfinite(d), d, "double" );
    bool t = s=="1"||s=="true", f = s=="0"||s=="false"; load<bool>( s, t||f, t, "bool" );
    mc::Hash hs; hs.s( s ); mc::state( hs );
    }
} // anonymous

MC_SCENARIO( texts, "all texts of up to 4 (thorough 6) characters out of '0','7','+','-','.','e','E',' ','x' loaded as int, unsigned, double and bool" )
{
    static const char a[] = "07+-.eE x"; int n = mc::choose( mc::tier(4,6)+1, "length" ); std::string s; for( int i=0;i<n;++i ) s += a[mc::choose(9)]; allTypes( s );
}
MC_SCENARIO( boundaries, "all integers within 3 of 0, +-2^31, +-2^32, +-2^53, +-2^63, +-2^64, written with and without sign, leading zeros, and as real numbers; exponents around the limits of double; words" )
{
    std::vector<std::string> words = { "true", "false", "True", "TRUE", "yes", "no", "inf", "nan", "infinity", "0x10", "1,5", "1e308", "1e309", "-1e309", "1e400", "1e-400", "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "1e-310", "2.2250738585072014e-308", "1e-323", "1e99999", "00000000000000000000000000000001", "0.00000000000000000000000000000000000000001", "123456789012345678901234567890", "1.e5", ".5e-3", "1 ", " 1", "1\n", "\t1", "1.5.2", "--1", "+-1", "e5", ".", "1e", "1e+", "1d5", "1f", "5u", "truefalse", "10", "01", "00", "+1", "-1" };
    if( mc::flip("words") ) { allTypes( mc::pick( words ) ); return; }
    static const char *pw[] = { "0", "2147483648", "4294967296", "9007199254740992", "9223372036854775808", "18446744073709551616" };
    std::string base = pw[mc::choose(6)]; int k = mc::choose(7) - 3; std::string s;
    { __int128 v = 0; for( char c : base ) v = v*10 + (c-'0'); v += k; if( v < 0 ) v = -v; do { s.insert( s.begin(), char('0'+int(v%10)) ); v /= 10; } while( v ); }
    switch( mc::choose(5) ) { case 1: s = "-" + s; break; case 2: s = "+" + s; break; case 3: s = "000" + s; break; case 4: s = s + ".0"; break; default: ; }
    allTypes( s );
}
namespace {
template<class T> void roundTrip( T x, const char *type ) {
    Value v( x ); std::string text = v.value<std::string>(); T y; try { y = v.value<T>(); } catch( const std::exception& e ) { std::ostringstream o; o.precision(17); o << x; mc::fail( "round-trip", std::string(type)+" "+o.str()+" cannot be read back: "+e.what() ); }
    MC_LOG( type << " " << x << " is written as " << text );
    MC_CHECK( std::memcmp(&x,&y,sizeof(T)) == 0, "round-trip", type << " " << x << " reads back as " << y << " (text " << text << ")" );
    Value w( text ); Value c( w ); Value z; z = c; MC_CHECK( z.value<std::string>() == text, "text-round-trip", "text " << text << " of " << type << " " << x << " changes by copying" );
    std::ostringstream o; o << v; MC_CHECK( o.str() == text, "print", "printed as " << o.str() ); mc::step(); mc::outcome( type ); mc::Hash hs; hs.s( text ); mc::state( hs );
    }
}
MC_SCENARIO( doubles, "every binary exponent of double (-1074..1023) with 6 (thorough 64) mantissa patterns (powers, neighbours, alternating, all ones, single bits, spread digits), both signs; and n*10^k, n=1..99, k=-20..20" )
{
    bool neg = mc::flip("sign"); double x;
    if( mc::flip("binary") ) {
        int e = mc::choose( 2098 ) - 1074, pat = mc::choose( mc::tier(6,64) ); uint64_t m = 0; const uint64_t full = (1ull<<52)-1;
        switch( pat ) { case 0: break; case 1: m = 1; break; case 2: m = full; break; case 3: m = full-1; break; case 4: m = 0x5555555555555ull; break; case 5: m = 0xAAAAAAAAAAAAAull; break; case 6: m = 1ull<<51; break; case 7: m = (1ull<<51)+1; break; case 8: m = 0x999999999999Aull; break; case 9: m = 0x3333333333333ull; break; case 10: m = 0x123456789ABCDull; break;
            default: m = (0x9E3779B97F4A7C15ull * (uint64_t)(pat+1)) >> 12; }
        x = std::ldexp( std::ldexp( (double)m, -52 ) + 1, e );
        }
    else { double p = 1; int k = mc::choose(41) - 20; char b[32]; snprintf( b, sizeof b, "%de%d", 1+mc::choose(99), k ); (void)p; x = std::strtod( b, nullptr ); }
    if( neg ) x = -x; roundTrip( x, "double" );
}
MC_SCENARIO( integers, "int, unsigned: powers of two and ten and their neighbours over the whole range; bool; zero of either sign" )
{
    switch( mc::choose(4) ) {
        case 0: { int b = mc::choose(32), d = mc::choose(5)-2; long long v = (1ll<<b) + d; if( mc::flip() ) v = -v; if( v < -2147483648LL || v > 2147483647LL ) mc::prune(); roundTrip( (int)v, "int" ); break; }
        case 1: { int b = mc::choose(33), d = mc::choose(5)-2; long long v = (1ll<<b) + d; if( v < 0 || v > 4294967295LL ) mc::prune(); roundTrip( (unsigned)v, "unsigned" ); break; }
        case 2: { long long v = 1; int k = mc::choose(10); for( int i=0;i<k;++i ) v *= 10; v += mc::choose(3)-1; roundTrip( (int)(mc::flip()?v:-v), "int" ); break; }
        default: if( mc::flip() ) roundTrip( mc::flip() ? 0.0 : -0.0, "double" ); else roundTrip( mc::flip(), "bool" );
        }
}
MC_SCENARIO( reassignment, "all sequences of 3 (thorough 4) assignments of int, unsigned, double, bool, text and C text values to one option, also by copying another option; after each it is read in every type" )
{
    Value v; std::string text; int n = mc::tier(3,4);
    MC_CHECK( v.value<std::string>().empty() && !v.nestedParameters(), "initial", "a new option is not empty" );
    for( int i=0;i<n;++i ) {
        switch( mc::choose( 8 ) ) {
            case 0: v = -3; text = "-3"; break;
            case 1: v = 3000000000u; text = "3000000000"; break;
            case 2: v = 0.5; text = "0.5"; break;
            case 3: v = true; text = "true"; break;
            case 4: v = std::string("romberg"); text = "romberg"; break;
            case 5: v = "0"; text = "0"; break;
            case 6: { Value w( "x", Params{ { "k", Value(1) } } ); v = w; text = "x"; break; }
            default: { Value w( v ); v = w; }
            }
        MC_CHECK( v.value<std::string>() == text, "last-value", "option is '" << v.value<std::string>() << "', last assigned '" << text << "'" );
        if( i == n-1 ) allTypes( text ); std::string s = v; MC_CHECK( s == text, "last-value", "implicit text differs" );
        bool nested = v.nestedParameters() != nullptr; MC_CHECK( nested == (text == "x") && (!nested || v.safeNestedParameters().at("k").value<int>() == 1), "nested", "nested parameters after assigning '" << text << "'" );
        MC_CHECK( v.safeNestedParameters().size() == (nested?1u:0u), "nested", "wrong number of nested parameters" );
        }
    mc::outcome( "assigned" );
}
namespace {
// model of a tree of options
struct Node { std::string text; bool group = false; std::map<std::string,Node> kids; };
Params build( const std::map<std::string,Node>& kids ) { Params p; for( auto& k : kids ) p[k.first] = k.second.group ? Value( k.second.text, build( k.second.kids ) ) : Value( k.second.text ); return p; }
bool equal( const Params& p, const std::map<std::string,Node>& kids ) {
    if( p.size() != kids.size() ) return false;
    for( auto& k : kids ) { auto it = p.find( k.first ); if( it == p.end() || it->second.value<std::string>() != k.second.text ) return false; auto n = it->second.nestedParameters(); if( (n!=nullptr) != k.second.group || (n && !equal( *n, k.second.kids )) ) return false; }
    return true;
    }
Node leaf( const std::string& t ) { Node n; n.text = t; return n; }
Node group( const std::string& t, std::map<std::string,Node> kids ) { Node n; n.text = t; n.group = true; n.kids = std::move(kids); return n; }
std::map<std::string,Node> tree() { return { { "a", group( "A", { { "a", leaf("aa") }, { "b", group( "B", { { "a", leaf("aba") }, { "bb", leaf("abbb") } } ) } } ) }, { "b", leaf("b") }, { "ab", group( "E", {} ) } }; }
Node *find( std::map<std::string,Node>& root, const std::vector<std::string>& path ) { std::map<std::string,Node> *m = &root; Node *n = nullptr; for( size_t i=0;i<path.size();++i ) { if( i && !n->group ) return nullptr; auto it = m->find( path[i] ); if( it == m->end() ) return nullptr; n = &it->second; m = &n->kids; } return n; }
bool split( const std::string& s, std::vector<std::string>& out ) { out.clear(); std::string cur; for( char c : s ) if( c == '.' ) { if( cur.empty() ) return false; out.push_back( cur ); cur.clear(); } else cur += c; if( cur.empty() ) return false; out.push_back( cur ); return true; }
}
MC_SCENARIO( paths, "a tree of options three levels deep; all texts of up to 7 (thorough 9) characters out of 'a','b','.' as dotted paths of values and groups" )
{
    auto m = tree(); Params p = build( m ); int n = mc::choose( mc::tier(7,9)+1, "length" ); std::string s; for( int i=0;i<n;++i ) s += "ab."[mc::choose(3)];
    std::vector<std::string> path; bool wellFormed = split( s, path ); Node *want = wellFormed ? find( m, path ) : nullptr;
    std::string got; bool threw = false; try { got = OptionalParameters::value( p, s ).value<std::string>(); } catch( const ctm::cxx::exception& ) { threw = true; }
    MC_LOG( "path '" << s << "': " << (threw ? "rejected" : got) );
    MC_CHECK( threw == !want, "path", "path '" << s << "' " << (threw ? "rejected" : "denotes '" + got + "'") << ", expected " << (want ? "'"+want->text+"'" : std::string("rejection")) );
    if( want ) MC_CHECK( got == want->text, "path", "path '" << s << "' denotes '" << got << "', expected '" << want->text << "'" );
    if( wellFormed ) { bool t2 = false; std::string g2; try { g2 = OptionalParameters::value( p, path ).value<std::string>(); } catch( const ctm::cxx::exception& ) { t2 = true; } MC_CHECK( t2 == threw && g2 == got, "path", "list form of path '" << s << "' differs" ); }
    bool wantGroup = s.empty() || (want && want->group); bool threwG = false; try { Params& g = OptionalParameters::parameters( p, s ); if( wantGroup ) MC_CHECK( equal( g, s.empty() ? m : want->kids ), "group", "group at '" << s << "' differs" ); } catch( const ctm::cxx::exception& ) { threwG = true; }
    MC_CHECK( threwG == !wantGroup, "group", "group path '" << s << "' was " << (threwG?"rejected":"accepted") );
    MC_CHECK( equal( p, m ), "lookup-changes", "looking up '" << s << "' changed the options" );
    mc::step(); mc::outcome( !wellFormed ? "malformed" : want ? want->group ? "group" : "leaf" : "absent" ); mc::Hash hs; hs.s( s ); mc::state( hs );
}
MC_SCENARIO( copies, "two option sets from one tree: all sequences of 3 (thorough 4) operations out of assigning a value or a group at any of 5 paths in either set, copying one set to the other, copying a subgroup within a set or out of it, assigning an option to itself" )
{
    std::map<std::string,Node> ma = tree(), mb = ma; Params a = build( ma ), b = a; int next = 0; static const char *paths[] = { "a", "a.a", "a.b", "a.b.a", "b" };
    for( int d=0; d<mc::tier(3,4); ++d ) {
        bool onB = mc::flip("set"); Params& p = onB ? b : a; auto& m = onB ? mb : ma; std::vector<std::string> path;
        switch( mc::choose( 5, "operation" ) ) {
            case 0: { std::string s = paths[mc::choose(5)]; split( s, path ); Node *n = find( m, path ); if( !n ) mc::prune(); std::string t = "v" + std::to_string(next++); OptionalParameters::value( p, s ) = t; *n = leaf(t); MC_LOG( (onB?"b.":"a.") << s << " = " << t ); break; }
            case 1: { std::string s = paths[mc::choose(5)]; split( s, path ); Node *n = find( m, path ); if( !n ) mc::prune(); Node g = group( "g"+std::to_string(next++), { { "a", leaf("ga") }, { "b", group( "gb", { { "a", leaf("gba") } } ) } } ); OptionalParameters::value( p, s ) = Value( g.text, build( g.kids ) ); *n = g; MC_LOG( (onB?"b.":"a.") << s << " = group" ); break; }
            case 2: if( mc::flip() ) { p = onB ? a : b; } else { Params t( onB ? a : b ); p.swap( t ); } m = onB ? Params().empty() ? ma : ma : mb; MC_LOG( (onB?"b = a":"a = b") ); break;
            case 3: { std::string s = mc::flip() ? "a" : "a.b"; split( s, path ); Node *n = find( m, path ); if( !n || !n->group ) mc::prune(); Params copy = mc::flip() ? OptionalParameters::value( p, s ).safeNestedParameters() : Params( OptionalParameters::parameters( p, s ) ); auto was = n->kids; OptionalParameters::value( p, s + ".a" ) = "changed"; n->kids["a"] = leaf("changed"); auto b2 = n->kids.find("b"); if( b2 != n->kids.end() && b2->second.group ) { OptionalParameters::value( p, s + ".b.a" ) = "deep"; b2->second.kids["a"] = leaf("deep"); } MC_CHECK( equal( copy, was ), "copy-shares", "a copy of the group '" << s << "' changed when the original was assigned" ); break; }
            default: { std::string s = paths[mc::choose(5)]; split( s, path ); Node *n = find( m, path ); if( !n ) mc::prune(); Value& v = OptionalParameters::value( p, s ); if( n->group && n->kids.count("b") && mc::flip() ) { v = OptionalParameters::value( *v.nestedParameters(), "b" ); Node k = n->kids["b"]; *n = k; MC_LOG( (onB?"b.":"a.") << s << " replaced by its own part" ); } else { v = v; } }
            }
        MC_CHECK( equal( a, ma ), "copy-shares", "set a differs from what was assigned to it" );
        MC_CHECK( equal( b, mb ), "copy-shares", "set b differs from what was assigned to it" );
        mc::step();
        }
    mc::outcome( "history" ); mc::Hash hs; std::function<void(const std::map<std::string,Node>&)> w = [&]( const std::map<std::string,Node>& k ) { for( auto& e : k ) { hs.s( e.first ).s( e.second.text ); w( e.second.kids ); } hs.u( k.size() ); }; w( ma ); w( mb ); mc::state( hs );
}
namespace {
// a small family of components with nested options
struct Iface : ctm::Factory<Iface>, OptionalParameters { virtual ~Iface() {} };
struct Leaf : Iface, ctm::FactoryMixin<Leaf,Iface> { int k = 4; double x = 0.25; Params parameters() const { Params p; p["k"] = k; p["x"] = x; return p; } void setParameters( const Params& p ) { maybeLoadParameter( p, "k", k ); maybeLoadParameter( p, "x", x ); } };
struct Other : Iface, ctm::FactoryMixin<Other,Iface> {};
struct Box : Iface, ctm::FactoryMixin<Box,Iface> { std::shared_ptr<Iface> in; bool flag = false; Box() : in( std::make_shared<Leaf>() ) {} Params parameters() const { Params p; p["in"] = in; p["flag"] = flag; return p; } void setParameters( const Params& p ) { maybeLoadParameter( p, "in", in ); maybeLoadParameter( p, "flag", flag ); } };
Leaf::Registrator rl( "leaf" ); Other::Registrator ro( "other" ); Box::Registrator rb( "box" );
}
MC_SCENARIO( objects, "components as options: leaf, other, box nested up to 3 deep or none, with all settings of their options; written to a value and read back; unknown names" )
{
    std::function<std::shared_ptr<Iface>(int)> make = [&]( int depth ) -> std::shared_ptr<Iface> {
        switch( mc::choose( depth ? 4 : 3, "component" ) ) { case 0: return nullptr; case 1: return std::make_shared<Other>(); case 2: { auto l = std::make_shared<Leaf>(); if( mc::flip() ) { l->k = -9; l->x = 0.1; } return l; } default: { auto b = std::make_shared<Box>(); b->flag = mc::flip(); b->in = make( depth-1 ); return b; } } };
    std::function<bool(Iface*,Iface*)> eq = [&]( Iface *a, Iface *b ) { if( !a || !b ) return a == b; if( typeid(*a) != typeid(*b) || a == b ) return false; if( auto la = dynamic_cast<Leaf*>(a) ) { auto lb = dynamic_cast<Leaf*>(b); return la->k == lb->k && la->x == lb->x; } if( auto ba = dynamic_cast<Box*>(a) ) { auto bb = dynamic_cast<Box*>(b); return ba->flag == bb->flag && eq( ba->in.get(), bb->in.get() ); } return true; };
    auto o = make( 3 ); Value v( o ); auto back = v.value<std::shared_ptr<Iface>>();
    MC_CHECK( eq( o.get(), back.get() ), "object-round-trip", "component '" << v << "' is not recreated from its option" );
    MC_CHECK( v.value<std::string>() == (!o ? "" : dynamic_cast<Other*>(o.get()) ? "other" : dynamic_cast<Leaf*>(o.get()) ? "leaf" : "box"), "object-name", "component is named '" << v << "'" );
    MC_CHECK( (v.nestedParameters()!=nullptr) == (o!=nullptr), "object-nested", "nested options" );
    auto types = v.typeRegistryGetter()(); MC_CHECK( types == (std::vector<std::string>{ "box", "leaf", "other" }), "object-types", types.size() << " types listed" );
    MC_CHECK( !Value(1).typeRegistryGetter(), "object-types", "a number lists types" );
    std::shared_ptr<Iface> keep = o; Params p; p["x"] = mc::flip() ? "nothing" : "Leaf"; bool threw = false; try { OptionalParameters::maybeLoadParameter( p, "x", keep ); } catch( const ctm::cxx::exception& ) { threw = true; } MC_CHECK( threw && keep == o, "object-unknown", "unknown component accepted" );
    MC_CHECK( !OptionalParameters::maybeLoadParameter( p, "y", keep ) && keep == o, "absent", "absent option loaded" );
    mc::step(); mc::outcome( o ? "object" : "none" ); mc::Hash hs; hs.s( v.value<std::string>() ); mc::state( hs );
}
