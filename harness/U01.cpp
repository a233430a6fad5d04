// U01: recognisers, formatting of time spans, rounding and modular helpers, cubic interpolation.
// FLAGS: -O2
#include "hutil.h"
#include "ode_num_int/infra/cxx_assert.h"
#include "ode_num_int/util/lex_idnum.h"
#include "ode_num_int/util/m_inline.h"
#include "ode_num_int/util/sys_time.h"
#include "ode_num_int/util/cxx_str_fmt_num.h"
#include "ode_num_int/util/foreachindex.h"
using namespace h;
namespace mc { const char *assumptions[] = { "texts are sequences of characters 1..127; rounding and modular helpers get finite arguments whose result is representable", nullptr }; }
namespace {
bool dig( char c ) { return c >= '0' && c <= '9'; }
bool al( char c ) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
bool isId( const std::string& s ) { if( s.empty() || !al(s[0]) ) return false; for( char c : s ) if( !al(c) && !dig(c) ) return false; return true; }
bool isInt( const std::string& s ) { size_t i = !s.empty() && (s[0]=='+'||s[0]=='-'), n = 0; for( ; i<s.size(); ++i, ++n ) if( !dig(s[i]) ) return false; return n > 0; }
bool isHex( const std::string& s ) { for( char c : s ) if( !dig(c) && !(c>='a'&&c<='f') && !(c>='A'&&c<='F') ) return false; return !s.empty(); }
bool isNum( const std::string& s ) {
    size_t i = !s.empty() && (s[0]=='+'||s[0]=='-'), n = 0;
    for( ; i<s.size() && dig(s[i]); ++i ) ++n;
    if( i<s.size() && s[i]=='.' ) for( ++i; i<s.size() && dig(s[i]); ++i ) ++n;
    if( n == 0 ) return false;
    if( i<s.size() && (s[i]=='e'||s[i]=='E') ) { ++i; if( i<s.size() && (s[i]=='+'||s[i]=='-') ) ++i; size_t k = 0; for( ; i<s.size() && dig(s[i]); ++i ) ++k; if( k == 0 ) return false; }
    return i == s.size();
    }
void recognise( const std::string& s ) {
    bool a = ctm::lang::IsIdentifier( s.c_str() ), b = ctm::lang::IsIntegerNumber( s.c_str() ), c = ctm::lang::IsNumber( s.c_str() ), d = ctm::lang::IsHexIntegerNumber( s.c_str() );
    MC_LOG( "'" << s << "': identifier " << a << ", integer " << b << ", number " << c << ", hex " << d );
    MC_CHECK( a == isId(s), "identifier", "'" << s << "' is " << (a?"":"not ") << "taken for an identifier" );
    MC_CHECK( b == isInt(s), "integer", "'" << s << "' is " << (b?"":"not ") << "taken for an integer" );
    MC_CHECK( c == isNum(s), "number", "'" << s << "' is " << (c?"":"not ") << "taken for a number" );
    MC_CHECK( d == isHex(s), "hex", "'" << s << "' is " << (d?"":"not ") << "taken for a hexadecimal number" );
    mc::step(); mc::outcome( a ? "identifier" : b ? "integer" : c ? "number" : d ? "hex" : "none" ); mc::Hash hs; hs.s( s ); mc::state( hs );
    }
}
MC_SCENARIO( characters, "all texts of one and two characters 1..127 (two: first one of 12 representatives, or second one of them)" )
{
    static const char rep[] = "aZ_0+-. eEf$"; std::string s; switch( mc::choose(3) ) { case 0: s = char(1+mc::choose(127)); break; case 1: s = rep[mc::choose(12)]; s += char(1+mc::choose(127)); break; default: s = char(1+mc::choose(127)); s += rep[mc::choose(12)]; }
    recognise( s );
}
MC_SCENARIO( number_texts, "all texts of up to 5 (thorough 7) characters out of '0','9','+','-','.','e'" )
{
    int n = mc::choose( mc::tier(5,7)+1 ); std::string s; for( int i=0;i<n;++i ) s += "09+-.e"[mc::choose(6)]; recognise( s );
}
MC_SCENARIO( word_texts, "all texts of up to 4 (thorough 6) characters out of 'a','G','_','5','[','-'" )
{
    int n = mc::choose( mc::tier(4,6)+1 ); std::string s; for( int i=0;i<n;++i ) s += "aG_5[-"[mc::choose(6)]; recognise( s );
}
MC_SCENARIO( time_spans, "all time spans up to 25 hours in seconds (hours 0..24 x minutes x seconds), long spans, and milliseconds 0..999 at minute and hour boundaries" )
{
    unsigned long hr = (unsigned long)mc::choose(26); if( hr == 25 ) hr = mc::pick( std::vector<unsigned long>{ 99, 100, 8760, 100000, 1000000 } );
    unsigned long mi = (unsigned long)mc::choose(60), se; char want[64]; std::string got;
    if( mc::flip("msec") ) { se = mc::flip() ? 0 : 59; unsigned long ms = (unsigned long)(mc::thorough() ? mc::choose(1000) : mc::pick( std::vector<int>{ 0, 1, 9, 10, 99, 100, 500, 999 } )); snprintf( want, sizeof want, "%lu:%02lu:%02lu.%03lu", hr, mi, se, ms ); got = ctm::sys::FormatTimeSpanMsec( ((hr*60+mi)*60+se)*1000+ms ); }
    else { se = (unsigned long)mc::choose(60); snprintf( want, sizeof want, "%lu:%02lu:%02lu", hr, mi, se ); got = ctm::sys::FormatTimeSpanSec( (hr*60+mi)*60+se ); }
    MC_LOG( got ); MC_CHECK( got == want, "time-span", "printed " << got << ", expected " << want ); mc::step(); mc::outcome( "time" ); mc::Hash hs; hs.s( got ); mc::state( hs );
}
MC_SCENARIO( integer_helpers, "modp for all moduli 1..9 and large ones and all integers within 40 of 0 and of the limits of int; FormatInt; roundi for all quarters within +-5, neighbours of all halves, and the limits" )
{
    switch( mc::choose(3) ) {
        case 0: { static const unsigned mods[] = { 1,2,3,4,5,6,7,8,9,10,64,1000003,2147483647u,2147483648u,4294967295u }; unsigned mo = mods[mc::choose(15)]; int base = mc::choose(3); long long x = (base==0 ? 0 : base==1 ? 2147483647LL-40 : -2147483648LL+40) + mc::choose(81)-40;
            long long w = x % (long long)mo; if( w < 0 ) w += mo; unsigned g = ctm::math::modp( (int)x, mo ); MC_LOG( x << " mod " << mo << " = " << g ); MC_CHECK( g == w, "modp", x << " mod " << mo << " is " << g << ", expected " << w ); MC_CHECK( ctm::cxx::FormatInt((int)x) == std::to_string(x), "format", "FormatInt" ); mc::state( mc::Hash().u(mo).u((uint64_t)x) ); mc::outcome( "modp" ); break; }
        case 1: { double x = (mc::choose(41)-20)*0.25; static const double big[] = { 2147483646.5, -2147483647.5, 1e9, -1e9, 2147483647.0, -2147483647.0, 0.49999999999999994, 1.4999999999999998, 2.4999999999999996 }; if( mc::flip() ) x = mc::pick( std::vector<double>( big, big+9 ) ) * (1-2*mc::choose(2)); int nb = mc::choose(3); if( nb ) x = std::nextafter( x, nb==1 ? 1e300 : -1e300 ); if( x >= 2147483647.5 || x <= -2147483648.5 ) mc::prune();
            double g = ctm::math::roundi( x ); MC_LOG( "round " << x << " = " << g ); MC_CHECK( std::fabs(g-x) <= 0.5, "roundi", x << " rounded to " << g ); MC_CHECK( ctm::math::Sgn(x) == (x<0?-1:1), "sgn", "sign of " << x ); mc::state( mc::Hash().d(x) ); mc::outcome( "roundi" ); break; }
        default: { D v = { -INF, -3, -0.0, 0.0, 0.5, 7, INF }; double a = mc::pick(v), b = mc::pick(v); MC_CHECK( ctm::math::Min(a,b) == std::min(a,b) && ctm::math::Max(a,b) == std::max(a,b), "minmax", a << ", " << b ); if( std::isfinite(a) ) MC_CHECK( ctm::math::sqr(a) == a*a, "sqr", a ); mc::state( mc::Hash().d(a).d(b) ); mc::outcome( "minmax" ); }
        }
    mc::step();
}
MC_SCENARIO( periodic, "modd for periods 1, 0.1, 360, 2pi, biases 0, -0.5, 100, -180, and all multiples k/8 (k=-200..200) of the period and their neighbours" )
{
    double period = mc::pick( D{ 1, 0.1, 360, 6.283185307179586 } ), bias = mc::pick( D{ 0, -0.5, 100, -180 } ), x = bias + period*(mc::choose(401)-200)/8; int nb = mc::choose(5); x = nb==0 ? x : nb==1 ? std::nextafter(x,1e300) : nb==2 ? std::nextafter(x,-1e300) : nb==3 ? x-1e-18 : x*0 - 1e-18;
    double g = ctm::math::modd( x, period, bias ); MC_LOG( x << " modulo " << period << " from " << bias << " = " << g );
    MC_CHECK( g >= bias && g < bias+period, "modd-range", x << " modulo " << period << " from " << bias << " is " << g );
    double k = (x-g)/period; double scale = std::fabs(x)+std::fabs(bias)+period; MC_CHECK( std::fabs( k-std::round(k) )*period <= 1e-14*scale*4, "modd", "not a whole number of periods: " << x << " -> " << g ); mc::step(); mc::outcome( "modd" ); mc::state( mc::Hash().d(x).d(period) );
}
MC_SCENARIO( cubic, "cubic interpolation with all values and slopes out of {-2,0,1,3} at both ends, at 9 points, lengths 0.5, 1, 4, against the cubic through them" )
{
    namespace c = ctm::math::cubic; D v = { -2, 0, 1, 3 }; double f0 = mc::pick(v), d0 = mc::pick(v), f1 = mc::pick(v), d1 = mc::pick(v), L = mc::pick( D{ 0.5, 1, 4 } ), t = mc::choose(9)/8.0, x = t*L;
    // the cubic on [0,L] with values f0, f1 and slopes d0, d1
    double b = d0, cc = (3*(f1-f0)/L - 2*d0 - d1)/L, dd = (d0 + d1 - 2*(f1-f0)/L)/(L*L); double P = f0+x*(b+x*(cc+x*dd)), P1 = b+x*(2*cc+3*dd*x), P2 = 2*cc+6*dd*x, P3 = 6*dd;
    double s = 1e-12*(1+std::fabs(P3)+std::fabs(P2)+std::fabs(P1)+std::fabs(P)+20/(L*L));
    MC_CHECK( std::fabs( f0*c::f00(x,L)+f1*c::f01(x,L)+d0*c::f10(x,L)+d1*c::f11(x,L) - P ) <= s, "cubic", "value at " << x );
    MC_CHECK( std::fabs( f0*c::df00(x,L)+f1*c::df01(x,L)+d0*c::df10(x,L)+d1*c::df11(x,L) - P1 ) <= s, "cubic", "slope at " << x );
    MC_CHECK( std::fabs( f0*c::d2f00(x,L)+f1*c::d2f01(x,L)+d0*c::d2f10(x,L)+d1*c::d2f11(x,L) - P2 ) <= s, "cubic", "second derivative at " << x );
    if( L == 1 ) { MC_CHECK( std::fabs( c::CalcCubicPolynom(f0,d0,f1,d1,t) - P ) <= s && std::fabs( c::CalcCubicPolynomD(f0,d0,f1,d1,t) - P1 ) <= s && std::fabs( c::CalcCubicPolynomD2(f0,d0,f1,d1,t) - P2 ) <= s && std::fabs( c::CalcCubicPolynomD3(f0,d0,f1,d1,t) - P3 ) <= s, "cubic", "polynomial at " << t ); }
    mc::step(); mc::outcome( "cubic" ); mc::state( mc::Hash().d(P).d(P1).d(x) );
}
MC_SCENARIO( indices, "foreachIndex over containers of 0..6 elements" )
{
    int n = mc::choose(7); std::vector<int> v; for( int i=0;i<n;++i ) v.push_back( i*i ); std::vector<std::pair<int,unsigned>> got; ctm::foreachIndex( v, [&]( int x, unsigned i ) { got.push_back( { x, i } ); } );
    bool ok = got.size() == v.size(); for( size_t i=0; ok && i<got.size(); ++i ) ok = got[i].first == v[i] && got[i].second == i; MC_CHECK( ok, "foreach", "elements or indices differ" ); mc::step(); mc::outcome( "indices" ); mc::state( mc::Hash().u((unsigned)n) );
}
