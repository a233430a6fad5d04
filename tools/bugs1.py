# Planted bugs: linear algebra
VT="include/ode_num_int/la/VectorTemplate.h"; SM="include/ode_num_int/la/SparseMatrixTemplate.h"; LU="include/ode_num_int/lu/LUFactorizer.h"
bug("a01-scale-zero", "A01", [(VT, '''            for( size_type i=0, n=this->size(); i<n; ++i )
                this->at( i ) *= that;
            return *this;''', '''            if( that == value_type() ) {
                this->clear();
                return *this;
                }
            for( size_type i=0, n=this->size(); i<n; ++i )
                this->at( i ) *= that;
            return *this;''')],
  "a non-finite entry multiplied in place by zero", "v *= 0 turns NaN and infinite entries into 0, so a broken vector looks fine",
  '''#include "ode_num_int/la/VectorTemplate.h"
using namespace ctm::math;
int main() { Vector<double> v(3); v[0]=1; v[1]=std::numeric_limits<double>::infinity(); v[2]=std::nan(""); v *= 0.;
  EXPECT( v[0] == 0 ); EXPECT( v[1] != v[1] ); EXPECT( v[2] != v[2] ); return 0; }
''', libs=False)
bug("a01-block-sum", "A01", [(VT, '''            std::fill( begin(), end(), value_type() );
            }''', '''            std::fill( m_source.begin() + m_from, m_source.begin() + ( m_from + m_size - ( m_from > 0 && m_size > 2? 1: 0 ) ), value_type() );
            }''')],
  "clearing a block of at least three entries that does not start at the front of its vector", "the last entry of the block keeps its value",
  '''#include "ode_num_int/la/VectorTemplate.h"
using namespace ctm::math;
int main() { Vector<double> v(5); for( int i=0;i<5;++i ) v[i]=i+1; v.block(1,3).clear();
  EXPECT( v[0] == 1 ); EXPECT( v[1] == 0 ); EXPECT( v[2] == 0 ); EXPECT( v[3] == 0 ); EXPECT( v[4] == 5 ); return 0; }
''', libs=False)
bug("a02-resize-keeps", "A02", [(SM, "if( it->first.first < size.first   &&   it->first.second < size.second )\n                    ++it;", "if( it->first.first < size.first   &&   ( it->first.second < size.second || it->first.first == it->first.second ) )\n                    ++it;")],
  "shrinking the columns of a matrix below its rows while it has diagonal elements beyond the new width", "elements outside the new size survive and reappear in iteration and products",
  '''#include "ode_num_int/la/SparseMatrixTemplate.h"
using namespace ctm::math;
int main() { sparse::SparseMatrixD m(3,3); m.at(0,0)=1; m.at(2,2)=5; m.resize(3,2); EXPECT( m.count() == 1 ); m.resize(3,3); EXPECT( m.get(2,2) == 0 ); return 0; }
''', libs=False)
bug("a02-transposed-factor", "A02", [(SM, "return m_source.checkedGet( transposedIndex( index ) );", "return m_source.checkedGet( index );")],
  "a transposed view as the right factor of a matrix product", "A*B^T is computed as A*B where the positions exist in B",
  '''#include "ode_num_int/la/SparseMatrixTemplate.h"
using namespace ctm::math;
int main() { sparse::SparseMatrixD a(2,2), b(2,2); a.at(0,0)=1; a.at(0,1)=2; a.at(1,1)=3; b.at(0,1)=5; b.at(1,1)=1; auto c = a * b.transposed();
  EXPECT( c.get(0,0) == 10 ); EXPECT( c.get(1,0) == 15 ); EXPECT( c.get(0,1) == 2 ); EXPECT( c.get(1,1) == 3 ); return 0; }
''', libs=False)
bug("a03-asymmetric-profile", "A03", [(LU, "                    auto k = maxpq( i, c );\n", "                    auto k = std::min( c, std::max( maxpq( i, c ), m_q[i] ) );\n")],
  "a matrix whose column profile starts later than its row profile, with fill-in there", "elimination drops products, so the factorisation solves a different system",
  '''#include "ode_num_int/LUFactorizer.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"
using namespace ctm::math;
int main() { sparse::SparseMatrixD m(3,3); m.at(0,0)=4; m.at(0,1)=1; m.at(1,0)=2; m.at(1,1)=5; m.at(2,0)=1; m.at(2,1)=3; m.at(2,2)=7;
  LUFactorizer<double> lu( m ); double x[3]={1,2,3}; lu.solve( x );
  EXPECT( std::fabs(4*x[0]+x[1]-1) < 1e-12 ); EXPECT( std::fabs(2*x[0]+5*x[1]-2) < 1e-12 ); EXPECT( std::fabs(x[0]+3*x[1]+7*x[2]-3) < 1e-12 ); return 0; }
''')
bug("a04-refresh-keeps-lower", "A04", [(LU, "            std::fill( m_l.begin(), m_l.end(), 0 );\n", "            if( !m_factorized )\n                std::fill( m_l.begin(), m_l.end(), 0 );\n")],
  "refreshing a factorised matrix with one that has fewer elements below the diagonal", "multipliers of the previous factorisation remain in the refreshed matrix",
  '''#include "ode_num_int/LUFactorizer.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"
using namespace ctm::math;
int main() { sparse::SparseMatrixD m(2,2); m.at(0,0)=4; m.at(0,1)=1; m.at(1,0)=2; m.at(1,1)=5; LUFactorizer<double> lu( m ); double x[2]={1,2}; lu.solve( x );
  sparse::SparseMatrixD k(2,2); k.at(0,0)=4; k.at(0,1)=1; k.at(1,1)=5; lu.setMatrixFast( k ); double y[2]={5,10}; lu.solve( y );
  EXPECT( std::fabs(y[1]-2) < 1e-12 ); EXPECT( std::fabs(4*y[0]+y[1]-5) < 1e-12 ); return 0; }
''')
bug("a04-hart-satisfied-row", "A04", [(LU, '''                    for( unsigned int k=i; k<=umaxcol; ++k )
                        if( i >= m_q[k] )
                            ri += U(i,k) * s[k];
                    }
                else {
                    // Update L, U; compute r[i]
                    auto factor = beta/aa;''', '''                    for( unsigned int k=i; k<umaxcol; ++k )
                        if( i >= m_q[k] )
                            ri += U(i,k) * s[k];
                    }
                else {
                    // Update L, U; compute r[i]
                    auto factor = beta/aa;''')],
  "a secant update in which one row already satisfies the condition exactly and a later row depends on it", "later rows are updated with a wrong intermediate value, so the secant condition fails for them",
  '''#include "ode_num_int/LUFactorizer.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"
using namespace ctm::math;
int main() { sparse::SparseMatrixD m(2,2); m.at(0,0)=4; m.at(0,1)=1; m.at(1,0)=2; m.at(1,1)=5; LUFactorizer<double> lu( m ); double s[2]={1,1}, y[2]={5,9};
  lu.secantUpdateHart( s, y );
  for( int i=0;i<2;++i ) EXPECT( std::fabs( lu.elementAt(i,0)*s[0]+lu.elementAt(i,1)*s[1]-y[i] ) < 1e-12 ); return 0; }
''')
