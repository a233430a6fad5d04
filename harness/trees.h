// trees.h - tree systems: one per elementary differential, with exact polynomial solutions
#pragma once
#include "hutil.h"
#include <algorithm>
#include <map>
#include <set>
#include "ode_num_int/OdeSolver.h"
namespace h {
// --- rooted trees as parent arrays
typedef std::vector<int> Tree;
inline std::string canon( const Tree& t, int i = 0 ) { std::vector<std::string> k; for( size_t j=i+1; j<t.size(); ++j ) if( t[j]==i ) k.push_back( canon(t,j) ); std::sort( k.begin(), k.end() ); std::string s = "["; for( auto& x : k ) s += x; return s + "]"; }
inline void gen( Tree& t, int n, std::set<std::string>& seen, std::vector<Tree>& out ) { if( (int)t.size()==n ) { if( seen.insert( canon(t) ).second ) out.push_back(t); return; } for( int p=0; p<(int)t.size(); ++p ) { t.push_back(p); gen( t, n, seen, out ); t.pop_back(); } }
inline const std::vector<Tree>& trees( int n ) { static std::map<int,std::vector<Tree>> m; auto& v = m[n]; if( v.empty() ) { std::set<std::string> s; Tree t(1,-1); gen( t, n, s, v ); } return v; }
inline bool leaf( const Tree& t, int i ) { for( int p : t ) if( p==i ) return false; return true; }
// y_i' = product of y_j over the children j of i; leaves marked in 'tmask' are replaced by the time since t0, + 'lin' of the first child (a sum instead of a product is the same set of trees)
struct TreeRhs : ctm::math::OdeRhs<VD> {
    Tree t; unsigned tmask; double t0; mutable int evals = 0;
    TreeRhs( const Tree& t, unsigned m, double t0 ) : t(t), tmask(m), t0(t0) {}
    unsigned secondOrderVarCount() const { return 0; } unsigned firstOrderVarCount() const { return t.size(); }
    V initialState() const { return V(t.size()); }
    void rhs( V& f, double time, const V& x ) const { ++evals; f.resize(t.size()); for( unsigned i=0; i<t.size(); ++i ) { double p = 1; for( unsigned j=i+1; j<t.size(); ++j ) if( t[j]==(int)i ) p *= (tmask>>j & 1) ? time - t0 : x[j]; f[i] = p; } }
    };
// exact solution: polynomials
typedef std::vector<long double> Poly;
inline Poly mul( const Poly& a, const Poly& b ) { Poly r( a.size()+b.size()-1, 0.0L ); for( size_t i=0; i<a.size(); ++i ) for( size_t j=0; j<b.size(); ++j ) r[i+j] += a[i]*b[j]; return r; }
inline long double eval( const Poly& p, long double x ) { long double r = 0; for( size_t i=p.size(); i--; ) r = r*x + p[i]; return r; }
inline D exact( const Tree& t, unsigned tmask, const D& y0, double tau ) {
    int n = t.size(); std::vector<Poly> y(n);
    for( int i=n-1; i>=0; --i ) { Poly f(1,1.0L); for( int j=i+1; j<n; ++j ) if( t[j]==i ) f = mul( f, (tmask>>j & 1) ? Poly{0.0L,1.0L} : y[j] ); y[i].resize( f.size()+1 ); y[i][0] = y0[i]; for( size_t k=0; k<f.size(); ++k ) y[i][k+1] = f[k]/(k+1); }
    D r(n); for( int i=0; i<n; ++i ) r[i] = (double)eval( y[i], tau ); return r;
    }
}
