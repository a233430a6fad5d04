// lumodel.h - dense reference for LU factorisation without pivoting
#pragma once
#include "hutil.h"
#include <map>
namespace h {
typedef std::pair<unsigned,unsigned> Pos;
typedef std::map<Pos,double> Ent;                 // stored entries of a sparse matrix (may include explicit zeros)
inline unsigned rowsOf( const Ent& e ) { unsigned n=0; for( auto& x : e ) n = std::max(n,x.first.first+1); return n; }
inline unsigned colsOf( const Ent& e ) { unsigned n=0; for( auto& x : e ) n = std::max(n,x.first.second+1); return n; }
// Can a profile (skyline) store the LU factors: square, every row and column reaches the diagonal
inline bool stencilOk( const Ent& e ) {
    unsigned n = rowsOf(e); if( n != colsOf(e) ) return false;
    std::vector<unsigned> p(n,n), q(n,n);
    for( auto& x : e ) { p[x.first.first] = std::min(p[x.first.first],x.first.second); q[x.first.second] = std::min(q[x.first.second],x.first.first); }
    for( unsigned i=0;i<n;++i ) if( p[i]>i || q[i]>i ) return false;
    return true;
    }
struct DenseLU {
    unsigned n; std::vector<long double> a; bool ok; double growth;
    explicit DenseLU( const Ent& e ) : n(rowsOf(e)), a(n*n,0), ok(true), growth(0) {
        long double amax = 0;
        for( auto& x : e ) { a[x.first.first*n+x.first.second] = x.second; amax = std::max<long double>(amax,std::fabs(x.second)); }
        for( unsigned k=0;k<n && ok;++k ) {
            if( !(amax > 0) || std::fabs((double)a[k*n+k]) < 1e-3*(double)amax ) { ok = false; break; }
            for( unsigned i=k+1;i<n;++i ) { long double l = a[i*n+k] /= a[k*n+k]; if( l != 0 ) for( unsigned j=k+1;j<n;++j ) a[i*n+j] -= l*a[k*n+j]; }
            }
        if( ok ) for( auto x : a ) growth = std::max(growth,(double)(std::fabs((double)x)/amax));
        }
    D solve( const D& b ) const {
        std::vector<long double> x(b.begin(),b.end());
        for( unsigned i=0;i<n;++i ) for( unsigned k=0;k<i;++k ) x[i] -= a[i*n+k]*x[k];
        for( unsigned i=n; i-->0; ) { for( unsigned k=i+1;k<n;++k ) x[i] -= a[i*n+k]*x[k]; x[i] /= a[i*n+i]; }
        return D(x.begin(),x.end());
        }
    };
inline std::string strE( const Ent& e ) { std::ostringstream o; o.precision(17); o << "{"; for( auto& x : e ) o << " (" << x.first.first << "," << x.first.second << ")=" << x.second; o << " }"; return o.str(); }
inline double normOf( const D& d ) { double m=0; for( double x : d ) m = std::max(m,std::fabs(x)); return m; }
}
