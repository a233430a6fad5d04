// evmodel.h - what event detection has to report
#pragma once
#include "hutil.h"
namespace h {
inline int sgn( double x ) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
// The model: each function has a side (the sign it counts as) and a value
struct EvModel {
    struct F { int side; double val; unsigned flags; bool fired = false; bool both() const { return (flags&3) == 3; } bool re() const { return flags & 4; } };
    std::vector<F> f;
    void init( const std::vector<unsigned>& flags, const D& z ) { f.clear(); for( size_t i=0; i<z.size(); ++i ) { F a; a.side = sgn(z[i]); a.val = z[i]; a.flags = flags[i]; f.push_back( a ); } }
    bool fires( size_t i, double v ) const { const F& a = f[i]; if( a.both() ) return sgn(v) != a.side; int away = (a.flags&3) == 1u ? -1 : 1; return (a.side == -away && sgn(v) != -away) || (a.side == 0 && sgn(v) == away); }
    double where( size_t i, double v ) const { double t = f[i].val/(f[i].val - v); return f[i].val == 0 || t < 0 ? 0 : t > 1 ? 1 : t; }
    void none( const D& v ) { for( size_t i=0; i<f.size(); ++i ) { f[i].val = v[i]; f[i].fired = false; if( sgn(v[i]) ) f[i].side = sgn(v[i]); } }
    int type( size_t i, double v ) const { return sgn(v) ? sgn(v) : -f[i].side; }
    // z: values after the switch
    void event( size_t k, const D& v, double t, int type, const D& z ) {
        for( size_t i=0; i<f.size(); ++i ) { F& a = f[i]; bool again = a.side == 0 && a.fired; // has fired here before
            if( a.re() ) { a.val = z[i]; a.side = sgn(z[i]); } else a.val = a.val*(1-t) + v[i]*t;
            if( i == k && !(a.re() && (a.both() || a.side == -type)) ) { a.val = 0; a.side = a.both() || again ? type : 0; a.fired = true; }
            if( a.side != 0 ) a.fired = false; }
        }
    };
}
