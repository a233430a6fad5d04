// sys.h - a family of test systems of every structure, with Jacobians, and small dense linear algebra
#pragma once
#include "oenv.h"
namespace h {
typedef std::vector<D> M;
inline D solve( M a, D b ) { int n = b.size(); for( int i=0; i<n; ++i ) { int p = i; for( int r=i; r<n; ++r ) if( std::fabs(a[r][i]) > std::fabs(a[p][i]) ) p = r; std::swap( a[i], a[p] ); std::swap( b[i], b[p] ); for( int r=i+1; r<n; ++r ) { double f = a[r][i]/a[i][i]; for( int c=i; c<n; ++c ) a[r][c] -= f*a[i][c]; b[r] -= f*b[i]; } } for( int i=n; i--; ) { for( int c=i+1; c<n; ++c ) b[i] -= a[i][c]*b[c]; b[i] /= a[i][i]; } return b; }
inline D mulv( const M& a, const D& x ) { D r( a.size(), 0.0 ); for( size_t i=0; i<r.size(); ++i ) for( size_t j=0; j<x.size(); ++j ) r[i] += a[i][j]*x[j]; return r; }
inline D axpy( const D& x, double s, const D& y ) { D r = x; for( size_t i=0; i<r.size(); ++i ) r[i] += s*y[i]; return r; }
inline M wmat( const M& J, double hd ) { M w = J; for( size_t i=0; i<w.size(); ++i ) for( size_t j=0; j<w.size(); ++j ) w[i][j] = (i==j) - hd*J[i][j]; return w; }
// a system of given structure: generic coefficients, a quadratic term and a time dependent one
struct Sys { unsigned n2, n1; int kind; unsigned n() const { return 2*n2+n1; }
    double c( unsigned i, unsigned j ) const { static const double t[] = {-3,1.25,0.5,-2,0.75,-1.5,2.25,-0.25,1,-4,0.6,-1.1,1.7}; return i == j % (n2+n1) && kind ? -8.0*(kind == 2 ? 40 : 1) : t[(i*7+j*3+kind)%13]; }
    double q() const { return kind == 0 ? 0.3 : 0; }
    D full( double t, const D& x ) const { D g; for( unsigned i=0; i<n2; ++i ) g.push_back( x[n2+i] ); for( unsigned i=0; i<n2+n1; ++i ) { double s = 0.4*t*(i+1); for( unsigned j=0; j<n(); ++j ) s += c(i,j)*x[j]; s += q()*x[(i+1)%n()]*x[i%n()]; g.push_back(s); } return g; }
    D half( double t, const D& x ) const { D g = full(t,x); return D( g.begin()+n2, g.end() ); }
    M J( const D& x ) const { M m( n(), D(n(),0.0) ); for( unsigned i=0; i<n2; ++i ) m[i][n2+i] = 1; for( unsigned i=0; i<n2+n1; ++i ) { for( unsigned j=0; j<n(); ++j ) m[n2+i][j] = c(i,j); m[n2+i][(i+1)%n()] += q()*x[i%n()]; m[n2+i][i%n()] += q()*x[(i+1)%n()]; } return m; }
    std::shared_ptr<FnRhs> rhs() const { Sys s = *this; return std::make_shared<FnRhs>( n2, n1, [s]( double t, const D& x ) { return s.half(t,x); } ); }
    D x0() const { static const double v[] = {0.5,-0.25,1,0.75,-1,0.3}; return D( v, v+n() ); } };
inline std::string nameOf( const Sys& s ) { return std::to_string(s.n2) + " pairs and " + std::to_string(s.n1) + " first order variables, kind " + std::to_string(s.kind); }
inline Sys pickSys() { static const unsigned t[8][2] = { {0,1},{1,0},{1,1},{0,2},{2,0},{1,2},{2,1},{2,2} }; int k = mc::choose( 8, "structure" ); return Sys{ t[k][0], t[k][1], (int)mc::choose( 3, "kind" ) }; }
}
