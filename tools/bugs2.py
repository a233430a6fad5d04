# Planted bugs: nonlinear solvers
A="include/ode_num_int/alg/"
FN='''#include <functional>
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/NewtonSolver.h"
using namespace ctm::math; typedef VectorData<double> VD; typedef VectorTemplate<VD> V;
struct Fn : VectorMapping<VD> { unsigned n; std::function<V(const V&)> f; Fn( unsigned n_, std::function<V(const V&)> f_ ) : n(n_), f(f_) {} unsigned inputSize() const { return n; } unsigned outputSize() const { return n; } using VectorMapping<VD>::map; void map( V& d, const V& x ) const { d = f(x); } };
'''
FN=FN.replace('#include "ode_num_int/OdeNumIntClassesRegistrator.h"\n','')
bug("n01-scaled-error", "N01", [(A+"SimpleErrorEstimator.h", "            m_absError = residual.infNorm();\n", "            m_absError = residual.infNorm();\n            if( xnorm > 1 )\n                m_absError /= xnorm;\n")],
  "an iterate larger than one with a residual slightly above the tolerance", "the absolute tolerance becomes relative to the solution, so a residual above the tolerance passes as converged",
  FN+'''int main() { auto f = std::make_shared<Fn>( 1, []( const V& x ) { V y(1); y[0] = x[0] > 1000.5 ? 5e-6 : 1; return y; } );
  SimpleErrorEstimator<VD> e; V x(1), r(1); x[0] = 1000; e.reset( x ); r[0] = 5e-6; e.setCurrentSolution( x, r ); EXPECT( e.currentStatus() != ErrorEstimator<VD>::Converged ); EXPECT( e.absoluteError() == 5e-6 ); return 0; }
''')
bug("n02-restart-index", "N02", [(A+"NewtonSolver.h", "                iterationNumberBias += iterationNumber;\n", "                iterationNumberBias += m_iterationCountLimit;\n")] if False else [(A+"NewtonSolver.h", "            itperf->reset( false );\n            auto hardResetTried = false;\n            auto x0 = currentSolution();\n", "            itperf->reset( false );\n            auto hardResetTried = false;\n            const auto& x0 = currentSolution();\n")],
  "a first attempt that fails after it has moved, with a strategy that can restart", "the restart begins where the failed attempt ended instead of at the initial guess",
  FN+'''#include "ode_num_int/lu/util.h"
#include "ode_num_int/ConstJacobianNewtonDescentDirection.h"
int main() { std::vector<double> visited; auto f = std::make_shared<Fn>( 1, [&]( const V& x ) { visited.push_back( x[0] ); V y(1); y[0] = x[0] < 0.5 ? 2*x[0]-2 : std::fabs(x[0]-3) + 0.5; return y; } );
  NewtonSolver<VD> s; s.setComponent( std::shared_ptr< NewtonDescentDirection<VD> >( std::make_shared< ConstJacobianNewtonDescentDirection<VD> >() ) ); s.setComponent( std::shared_ptr< JacobianProvider<VD> >( std::make_shared< DefaultJacobianProvider<VD> >() ) ); s.setComponent( std::shared_ptr< VectorMapping<VD> >( f ) );
  s.setIterationCountLimit( 4 ); V x(1); x[0] = 0; s.setInitialGuess( x ); std::vector<double> at; s.iterationObservers.add( [&]( unsigned, const NewtonSolverInterface<VD>* p ) { at.push_back( p->currentSolution()[0] ); return false; } );
  unsigned zero = 0; s.iterationPerformer()->newtonDescentDirection()->jacobianRefreshObservers.add( [&]( bool st ) { if( st && !visited.empty() ) ++zero; } );
  auto st = s.run(); EXPECT( st != NewtonSolver<VD>::Converged ); unsigned n0 = 0; for( double v : visited ) if( v == 0 ) ++n0; EXPECT( zero == 2 ); EXPECT( n0 >= 4 ); return 0; }
''')
bug("n03-hart-keeps-step", "N03", [(A+"JacobianHartUpdateNewtonDescentDirection.h", "                m_lu = decltype(m_lu)();\n                }\n            m_havePrev = false;\n", "                m_lu = decltype(m_lu)();\n                m_havePrev = false;\n                }\n")],
  "a second solve with a soft reset from another point", "the first direction of the new run is updated with a step across runs",
  FN+'''#include "ode_num_int/JacobianHartUpdateNewtonDescentDirection.h"
int main() { auto f = std::make_shared<Fn>( 1, []( const V& x ) { V y(1); y[0] = x[0]*x[0]; return y; } ); JacobianHartUpdateNewtonDescentDirection<VD> dd; NewtonDescentDirection<VD>& d = dd; d.setMapping( f ); d.setJacobianProvider( std::make_shared< DefaultJacobianProvider<VD> >() );
  d.reset( true ); V x(1); x[0] = 1; V a = d.computeDescentDirection( x, (*f)(x), 0 ); EXPECT( std::fabs(a[0]+0.5) < 1e-4 );
  d.reset( false ); x[0] = 3; V b = d.computeDescentDirection( x, (*f)(x), 0 ); EXPECT( std::fabs(b[0]+4.5) < 1e-3 ); return 0; }
''')
bug("n04-third-column", "N04", [(A+"SparseJacobianCalculator.h", "                        multicolData.push_back( C2R( col2, colRows[col2] ) );\n                        addRows( affectedRows, col2 );\n", "                        multicolData.push_back( C2R( col2, colRows[col2] ) );\n")],
  "three columns, the first disjoint from the other two, which share a row", "two columns that share a row are perturbed together, so their entries are mixed",
  FN+'''#include "ode_num_int/SparseJacobianCalculator.h"
int main() { auto f = std::make_shared<Fn>( 3, []( const V& x ) { V y(3); y[0] = 2*x[0]; y[1] = 3*x[1]+5*x[2]; y[2] = 7*x[2]; return y; } ); sparse::SparseMatrixD s(3,3); s.at(0,0)=1; s.at(1,1)=1; s.at(1,2)=1; s.at(2,2)=1;
  sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<double> > J; J = s; V x(3); computeSparseJacobian<VD>( J, *f, x, 1e-6 ); for( auto& e : J ) { double w = e.first.first==0 ? 2 : e.first.first==2 ? 7 : e.first.second==1 ? 3 : 5; EXPECT( std::fabs(e.second-w) < 1e-4 ); } return 0; }
''')
bug("n05-output-order", "N05", [(A+"VectorReorderingMapping.h", "            orderOutput( dst, dstu );\n", "            unorderOutput( dst, dstu );\n")],
  "an output ordering that is not its own inverse", "outputs of a reordered mapping come in the inverse order",
  FN+'''#include "ode_num_int/VectorReorderingMapping.h"
int main() { auto f = std::make_shared<Fn>( 3, []( const V& x ) { V y(3); y[0]=1; y[1]=2; y[2]=3; return y; } ); VectorReorderingMapping<VD> r; r.setMapping( f ); std::vector<unsigned> p{1,2,0}; r.setInputOrdering( p ); r.setOutputOrdering( p ); V x(3), y; r.map( y, x ); EXPECT( y[0]==2 && y[1]==3 && y[2]==1 ); return 0; }
''')
bug("n06-opposite-residual", "N06", [(A+"SimpleNewtonLinearSearch.h", '''                        f_f0Best = f_f0;
                        alphaBest = alpha;
                        if( residual )
                            *residual = f;
                        }
                    if( f_f0Best < eta )
                        break;
                    }
                if( itrunc''', '''                        if( residual   &&   f_f0Best == 1 )
                            *residual = f;
                        f_f0Best = f_f0;
                        alphaBest = alpha;
                        }
                    if( f_f0Best < eta )
                        break;
                    }
                if( itrunc''')],
  "a search that succeeds in the opposite direction with a later, better trial", "the residual handed back belongs to an earlier trial than the accepted one",
  FN+'''int main() { auto f = std::make_shared<Fn>( 1, []( const V& x ) { V y(1); y[0] = x[0] > 0 ? 10 : x[0] == -1 ? 0.98 : x[0] == -0.5 ? 0.5 : 1; return y; } ); SimpleNewtonLinearSearch<VD> s; s.setMapping( f ); V d(1), x(1), f0(1), r(1); d[0]=1; x[0]=0; f0[0]=1;
  double a = s.lineSearch( d, x, f0, &r ); EXPECT( a == -0.5 ); EXPECT( r[0] == 0.5 ); return 0; }
''')
