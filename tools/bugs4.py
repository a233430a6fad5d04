# Planted bugs: side by side, and more
E="include/ode_num_int/ode/"
A="include/ode_num_int/alg/"
bug("o16-work-vector-kept", "O16", [(E+"ExplicitRKHelper.h", "                copy( o.buf, x1 );\n                for( decltype(stages) i=0; i<stage; ++i, ++a )\n                    if( *a != zero )\n                        o.buf += o.k[i].scaled( h * *a );\n                rhs->rhs( o.k[stage], t1 + h * c.c[stage-1], o.buf );", "                static V buf;\n                buf.resize( x1.size() );\n                copy( buf, x1 );\n                for( decltype(stages) i=0; i<stage; ++i, ++a )\n                    if( *a != zero )\n                        buf += o.k[i].scaled( h * *a );\n                rhs->rhs( o.k[stage], t1 + h * c.c[stage-1], buf );\n                copy( o.buf, buf );")],
  "a system whose right-hand side runs a solver of its own before it reads the state, in a stage after the first", "the inner calculation overwrites the state the outer one is evaluated at",
  OD+'''int main() { auto f = []( V& d, double, const V& x ) { d[0] = -x[0]; }; auto inner = std::make_shared<Sys>( 0, 1, f ); auto with = std::make_shared<Sys>( 0, 1, [&]( V& d, double, const V& x ) { auto s = mk( "rk4", inner, 0.5, 0, vec({3}) ); s->doStep(); d[0] = -x[0]; } ); auto a = mk( "rk4", inner, 0.1, 0, vec({1}) ), b = mk( "rk4", with, 0.1, 0, vec({1}) ); a->doStep(); b->doStep(); EXPECT( a->initialState()[0] == b->initialState()[0] ); return 0; }
''')
bug("o16-jacobian-base-value-kept", "O16", [(A+"computeJacobian.h", "    V x(n), f0(n), f(n);\n", "    static V x, f0, f;      // keep the memory for the next time\n    x.resize( n );\n    f0.resize( n );\n    f.resize( n );\n")],
  "a mapping whose evaluation computes the Jacobian of another mapping", "the differences are taken from the values of the other mapping",
  FN+'''#include "ode_num_int/computeJacobian.h"
int main() { auto g = std::make_shared<Fn>( 1, []( const V& x ) { V y(1); y[0] = 5*x[0]+7; return y; } ); V p(1); p[0] = 1; auto f = std::make_shared<Fn>( 1, [&]( const V& x ) { double z = x[0]; auto J = computeJacobian( *g, p ); V y(1); y[0] = 3*z; return y; } ); V q(1); q[0] = 2; auto J = computeJacobian( *f, q ); EXPECT( std::fabs( J.at( 0, 0 ) - 3 ) < 1e-6 ); return 0; }
''')
