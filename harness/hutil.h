// hutil.h - helpers shared by the harnesses
#pragma once
#include "mc.h"
#include <cmath>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include "ode_num_int/VectorTemplate.h"

namespace h {
typedef ctm::math::VectorData<double> VD;
typedef ctm::math::VectorTemplate<VD> V;
typedef std::vector<double> D;                       // the reference model of a vector

const double INF = std::numeric_limits<double>::infinity();
const double NaN = std::numeric_limits<double>::quiet_NaN();

inline std::string str( const D& d ) { std::ostringstream s; s.precision(17); s << '['; for( size_t i=0; i<d.size(); ++i ) s << (i?", ":"") << d[i]; s << ']'; return s.str(); }
inline V mk( const D& d ) { V v( d.size() ); for( size_t i=0; i<d.size(); ++i ) v[(unsigned)i] = d[i]; return v; }
template<class X> D rd( const X& v ) { D d( v.size() ); for( size_t i=0; i<d.size(); ++i ) d[i] = v.at((unsigned)i); return d; }
inline bool same( double a, double b ) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same( const D& a, const D& b ) { if( a.size() != b.size() ) return false; for( size_t i=0; i<a.size(); ++i ) if( !same(a[i],b[i]) ) return false; return true; }
inline bool close( double a, double b, double rel, double abs_ = 0 ) {
    if( same(a,b) ) return true;
    if( !std::isfinite(a) || !std::isfinite(b) ) return false;
    return std::fabs(a-b) <= rel*std::max(std::fabs(a),std::fabs(b)) + abs_;
    }
inline bool close( const D& a, const D& b, double rel, double abs_ = 0 ) { if( a.size() != b.size() ) return false; for( size_t i=0; i<a.size(); ++i ) if( !close(a[i],b[i],rel,abs_) ) return false; return true; }
inline void hash( mc::Hash& h, const D& d ) { h.u(d.size()); for( double x : d ) h.d(x); }
inline uint64_t hashOf( const D& d ) { mc::Hash h; hash(h,d); return h; }
template<class E, class F> bool throws( F f ) { try { f(); } catch( const E& ) { return true; } return false; }
template<class F> std::string whatOf( F f ) { try { f(); } catch( const std::exception& e ) { return e.what() && *e.what() ? e.what() : "(exception)"; } return std::string(); }
}
