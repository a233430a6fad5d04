// nenv.h - scripted environment for the nonlinear solvers
#pragma once
#include "hutil.h"
#include <map>
#include <memory>
#include "ode_num_int/NewtonSolver.h"
namespace h {
namespace m = ctm::math;
typedef m::VectorMapping<VD> Map;
// A mapping given by a C++ function; counts evaluations
struct FnMap : Map {
    unsigned n, k; std::function<D(const D&)> f; mutable unsigned evals = 0; mutable std::vector<D> points;
    FnMap( unsigned n_, std::function<D(const D&)> f_ ) : n(n_), k(n_), f(f_) {}
    FnMap( unsigned n_, unsigned k_, std::function<D(const D&)> f_ ) : n(n_), k(k_), f(f_) {}
    unsigned inputSize() const { return n; }
    unsigned outputSize() const { return k; }
    using Map::map;
    void map( V& dst, const V& x ) const { ++evals; points.push_back( rd(x) ); dst = mk( f( rd(x) ) ); }
    };
// A mapping whose values are chosen by the explorer the first time a point is evaluated, and remembered:
// exploring all answers is exploring all functions, as far as they are observed.
struct OracleMap : Map {
    unsigned n; std::vector<double> alphabet; mutable std::map<D,D> memo; mutable unsigned evals = 0; mutable std::vector<D> points; bool mayThrow = false, deviating = false;
    OracleMap( unsigned n_, std::vector<double> a ) : n(n_), alphabet(a) {}
    unsigned inputSize() const { return n; }
    unsigned outputSize() const { return n; }
    using Map::map;
    static bool finite( const D& x ) { for( double v : x ) if( !std::isfinite(v) ) return false; return true; }
    bool known( const D& x ) const { return memo.count(x) != 0; }
    D value( const D& x ) const {
        if( !finite(x) ) return D(n,NaN);
        auto it = memo.find(x);
        if( it == memo.end() ) { D v(n); for( double& y : v ) y = alphabet[(size_t)(deviating ? mc::deviate((int)alphabet.size(),"residual") : mc::choose((int)alphabet.size(),"residual"))]; it = memo.emplace(x,v).first; MC_LOG( "f(" << str(x) << ") := " << str(v) ); }
        return it->second;
        }
    void map( V& dst, const V& x ) const { ++evals; points.push_back( rd(x) ); if( mayThrow && mc::deviate(2) ) { MC_LOG( "f throws" ); throw std::runtime_error("scripted failure"); } dst = mk( value( rd(x) ) ); }
    };
inline double infNorm( const D& d ) { double r=0; for( double x : d ) { if( std::isnan(x) ) return x; r = std::max(r,std::fabs(x)); } return r; }
inline double norm2( const D& d ) { double r=0; for( double x : d ) r += x*x; return r; }
}
