// O15: error statistics, global error estimation, and the error estimator of nonlinear solvers.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl extr ros impl
#include "oenv.h"
#include "variants.h"
#include "ode_num_int/RichardsonErrorCalculator.h"
#include "ode_num_int/SimpleErrorEstimator.h"
#include <memory>
#include <cstring>
#include <new>
namespace mc { const char *assumptions[] = {
    "sums are compared to 1e-13 of the sum of magnitudes, mean square deviations to 1e-7 of the largest error (they are differences of nearly equal numbers)",
    "a run that reaches its end up to rounding may make one step more or less", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
const std::vector<double> values = {0,1,-2,0.5,1e-3,-1e6,INF,NaN};
// series of errors, entry by entry
struct Model { double mx, sum, sq; long n; bool nan, inf; };
Model model( const std::vector<double>& v ) { Model m{0,0,0,(long)v.size(),false,false}; for( double x : v ) { double a = std::fabs(x); if( std::isnan(a) ) m.nan = true; if( std::isinf(a) ) m.inf = true; m.mx = std::max( m.mx, a ); m.sum += a; m.sq += a*a; } return m; }
void check( const std::string& what, const Model& m, double mx, double sum, double sq, double mean, double dev, long n ) {
    MC_CHECK( n == m.n, "count", what << ": " << n << " samples instead of " << m.n ); if( m.nan || m.inf ) { MC_CHECK( m.nan ? std::isnan(mx) : std::isinf(mx), "not-finite-max", what << ": largest error " << mx ); MC_CHECK( !std::isfinite(sum) && !std::isfinite(sq) && (n == 0 || (!std::isfinite(mean) && !std::isfinite(dev))), "not-finite", what << ": sum " << sum << ", sum of squares " << sq << ", mean " << mean << ", deviation " << dev ); return; }
    MC_CHECK( mx == m.mx, "max", what << ": largest error " << mx << " instead of " << m.mx ); MC_CHECK( close( sum, m.sum, 1e-13 ) && close( sq, m.sq, 1e-13 ), "sums", what << ": sums " << sum << ", " << sq << " instead of " << m.sum << ", " << m.sq ); if( n ) { double mu = m.sum/n; MC_CHECK( close( mean, mu, 1e-13 ), "mean", what << ": mean " << mean << " instead of " << mu ); double d = std::sqrt( std::max( 0.0, m.sq/n-mu*mu ) ); MC_CHECK( close( dev, d, 1e-7, 1e-7*m.mx ), "deviation", what << ": mean square deviation " << dev << " instead of " << d ); } }
template<class S> void checkS( const std::string& what, const std::vector<double>& v, const S& s ) { check( what, model(v), s.errorMaxValue(), s.errorSum(), s.errorSquareSum(), v.empty() ? 0 : s.errorMeanValue(), v.empty() ? 0 : s.errorMeanSqareDev(), s.sampleCount() ); }
std::string strv( const std::vector<double>& v ) { return str( v ); }
MC_SCENARIO( numbers, "all series of up to 4 (quick) / 5 (thorough) errors out of 8 values (with infinity and NaN), made in one piece or of two parts in any order, by adding, combining, copying or from the sums; from new statistics with or without a given zero" ) {
    mc::splitAt( 500 ); int n = mc::choose( mc::tier(5,6), "length" ); std::vector<double> v; for( int i=0; i<n; ++i ) v.push_back( values[mc::choose( values.size() )] ); int cut = mc::choose( n+1, "cut" ), how = mc::choose( 5, "how" ); typedef ErrorStats<double> S; alignas(S) unsigned char raw[sizeof(S)]; std::memset( raw, 0x7f, sizeof raw ); S *a = mc::flip( "default" ) ? new(raw) S : new(raw) S( 0.0 ); S b( 0.0 ); for( int i=0; i<cut; ++i ) a->addSample( v[i] ); for( int i=cut; i<n; ++i ) b.addSample( v[i] ); S r( 0.0 );
    switch( how ) { case 0: r = *a; r += b; break; case 1: r = b + *a; break; case 2: { S c( *a ); c += b; r = c; MC_CHECK( (int)a->sampleCount() == cut, "copy", "a copy of statistics is changed with the original" ); break; } case 3: r = *a; for( int i=cut; i<n; ++i ) r.addSample( v[i] ); break; case 4: r = S( b.errorMaxValue(), b.errorSum(), b.errorSquareSum(), b.sampleCount() ) + *a; break; } mc::step(); checkS( strv(v) + " cut at " + std::to_string(cut), v, r ); checkS( "second part of " + strv(v), std::vector<double>( v.begin()+cut, v.end() ), b ); mc::Hash q; hash( q, v ); mc::state( (uint64_t)q );
    }
MC_SCENARIO( vectors, "all series of up to 3 errors with two entries out of 8 values (one entry tells the other nothing), in one piece or of two parts" ) {
    mc::splitAt( 500 ); int n = mc::choose( 4 ); std::vector<double> u, w; for( int i=0; i<n; ++i ) { u.push_back( values[mc::choose( 8 )] ); w.push_back( values[mc::choose( i < 2 ? 8 : 3 )] ); } int cut = mc::choose( n+1 ); typedef ErrorStats<V> S; S a{ V(2) }, b{ V(2) }; for( int i=0; i<n; ++i ) (i < cut ? a : b).addSample( mk( D{u[i],w[i]} ) ); S r = mc::flip() ? a+b : (b += a, b); mc::step(); V mx = r.errorMaxValue(), sm = r.errorSum(), sq = r.errorSquareSum(), mean(2), dev(2); if( n ) { mean = r.errorMeanValue(); dev = r.errorMeanSqareDev(); } check( strv(u) + ", first entries", model(u), mx[0], sm[0], sq[0], mean[0], dev[0], r.sampleCount() ); check( strv(w) + ", second entries", model(w), mx[1], sm[1], sq[1], mean[1], dev[1], r.sampleCount() ); mc::outcome( "ok" );
    }
// A method whose local error is exactly C*h^(p+1) in every entry: quadrature of polynomials plus the error
struct Power : Solver { int p = 1; D C; double t = 0; D x; int order() const { return p; } double initialTime() const { return t; } V initialState() const { return mk( x ); } std::string typeId() const { return "scripted"; } void setInitialState( double T, const V& X, bool ) { t = T; x = rd( X ); }
    static double F( double t ) { return t*t*t-2*t; } void doStep() { double s = initialStepSize(); for( size_t i=0; i<x.size(); ++i ) x[i] += F(t+s)-F(t) + C[i]*std::pow( s, p+1 ); t += s; this->odeSolverPostObservers( OdeSolverPostObserverArg<VD>( s, true, false, false, 0, ~0u, 0, this ) ); } };
struct Seen { double t, h; D e; };
void checkSeries( const std::string& what, const ErrorStats<V>& st, const std::vector<Seen>& seen, size_t n ) { for( size_t i=0; i<n; ++i ) { std::vector<double> v; for( auto& s : seen ) v.push_back( s.e[i] ); check( what, model(v), st.errorMaxValue()[i], st.errorSum()[i], st.errorSquareSum()[i], v.empty() ? 0 : st.errorMeanValue()[i], v.empty() ? 0 : st.errorMeanSqareDev()[i], st.sampleCount() ); } }
MC_SCENARIO( pure, "methods of order 1 to 9 whose local error is a pure power of the step size, 4 coefficients, 3 step sizes, 4 durations, 3 initial times: the estimate is the true error of a step" ) {
    auto s = std::make_shared<Power>(); s->p = 1+mc::choose( 9 ); double c = mc::pick( std::vector<double>{1,-3,0,1e-3} ), hh = mc::pick( std::vector<double>{0.5,0.1,0.03} ), T = mc::pick( std::vector<double>{1,0.37,0.01,0} ), t0 = mc::pick( std::vector<double>{0,-2,10} ); s->C = D{c,-2*c}; s->setInitialState( t0, mk(D{0.5,-1}), false ); RichardsonErrorCalculator<VD> r; r.setOdeSolver( s ); std::vector<Seen> seen; r.stepObservers.add( [&]( double t, double h, const V& e ) { seen.push_back( { t, h, rd(e) } ); } ); auto st = r.calculateError( T, hh ); mc::step(); double k = T/hh; size_t lo = std::max( 1.0, std::ceil( k-1e-9 ) ), hi = std::max( 1.0, std::floor( k+1e-9 )+1 ); std::string what = "order " + std::to_string(s->p) + ", step " + std::to_string(hh) + ", duration " + std::to_string(T); MC_CHECK( seen.size() >= lo && seen.size() <= std::max( lo, hi ), "steps", what << ": " << seen.size() << " steps" ); double e = -c*std::pow( hh, s->p+1 );
    for( size_t i=0; i<seen.size(); ++i ) { MC_CHECK( close( seen[i].t, t0+i*hh, 1e-13, 1e-13 ) && seen[i].h == hh, "step-time", what << ": step " << i << " is reported at " << seen[i].t << " with size " << seen[i].h ); double tol = 1e-14*(10+std::fabs(Power::F(seen[i].t+hh))); MC_CHECK( close( seen[i].e, D{e,-2*e}, 1e-12, tol*8 ), "true-error", what << ": error estimate " << str(seen[i].e) << " instead of " << str(D{e,-2*e}) ); } checkSeries( what, st, seen, 2 ); mc::outcome( std::to_string( seen.size() ) + " steps" );
    }
// every solver on smooth and switching systems, against the same steps made by hand
struct Relay : Rhs { int n = 1, flags; double v = 1; int switches = 0; Relay( int f ) : flags(f) {} unsigned secondOrderVarCount() const { return 0; } unsigned firstOrderVarCount() const { return 2; } unsigned zeroFuncCount() const { return flags ? 1 : 0; } std::vector<unsigned> zeroFuncFlags() const { return std::vector<unsigned>( flags ? 1 : 0, (unsigned)flags ); } using Rhs::rhs; void rhs( V& d, double t, const V& x ) const { this->odeRhsPreObservers( t, x, this ); d.resize( 2 ); d[0] = 3*v*std::cos(8*t-2) - 0.05*x.at(0); d[1] = -x.at(1)*v + x.at(0)*x.at(0); this->odeRhsPostObservers( t, x, d, this ); } void zeroFunctions( V& d, double, const V& x ) const { d.resize( 1 ); d[0] = x.at(0)-0.26; } void switchPhaseState( const int* tr, double, V& x ) { ++switches; v = v == 1 ? 0.8 : 1; if( flags&4 ) x[0] = 0.26 + 0.05*tr[0]; } };
MC_SCENARIO( solvers, "19 solver configurations of fixed step size or with error control (switched off by the calculation), 5 kinds of switching (none, both directions, upwards, recomputed after a jump, downwards), 2 step sizes: the solution goes on as in a run with half the steps, samples are taken exactly where no event is, the error is Richardson's of the full step from the same state and phase" ) {
    mc::splitAt( 50 ); static std::vector<Variant> vs; if( vs.empty() ) for( auto& v : allVariants() ) { if( v.name.find( "const" ) == std::string::npos && v.name.find( "broyden" ) == std::string::npos && v.name.find( "hart" ) == std::string::npos && v.name.find( "adaptive" ) == std::string::npos ) vs.push_back( v ); } const Variant& v = vs[mc::choose( vs.size(), "solver" )]; int kind = mc::choose( 5, "kind" ); static const int fl[] = {0,3,2,7,1}; double hh = mc::pick( std::vector<double>{0.1,0.04} ), T = 1; auto sys = std::make_shared<Relay>( fl[kind] ), sys2 = std::make_shared<Relay>( fl[kind] ); D x0{0,0.5}; auto s = make( v, hh ), own = make( v, 0.5*hh ); if( adaptive( own ) ) { Params p; p["disable_error_check"] = true; own->setParameters( p ); } s->setOdeRhs( sys ); own->setOdeRhs( sys2 ); s->setInitialState( 0.25, mk(x0) ); own->setInitialState( 0.25, mk(x0) );
    RichardsonErrorCalculator<VD> r; r.setOdeSolver( s ); std::vector<Seen> seen, want; r.stepObservers.add( [&]( double t, double h, const V& e ) { seen.push_back( { t, h, rd(e) } ); } ); std::vector<double> cuts, wantCuts; auto id = s->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { if( a.stepTruncated() ) cuts.push_back( s->initialTime() ); } ); bool cut = false; auto id2 = own->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { if( a.stepTruncated() ) { cut = true; wantCuts.push_back( own->initialTime() ); } } );
    auto st = r.calculateError( T, hh ); mc::step(); double t = 0.25; D x = x0; int p = own->order(); double f = std::pow( 2, p )/(std::pow( 2, p )-1); bool lin = v.solver == "i_euler" || v.solver.substr(0,4) == "rose" || v.name.find( "i_euler" ) != std::string::npos || v.name.find( "rosenbrock" ) != std::string::npos; double tol = lin ? 1e-6 : 1e-12; size_t steps = 0;
    do { auto c = make( v, hh ); if( adaptive( c ) ) { Params q; q["disable_error_check"] = true; c->setParameters( q ); } auto cs = std::make_shared<Relay>( 0 ); cs->v = sys2->v; c->setOdeRhs( cs ); c->setInitialState( t, mk(x) ); if( v.name.find( "rosenbrock" ) != std::string::npos ) { c->setInitialState( 0.25, mk(x0) ); cs->v = 1; c->doStep(); cs->v = sys2->v; c->setInitialStepSize( hh ); c->setInitialState( t, mk(x), true ); } c->doStep(); D full = rd( c->initialState() ); cut = false; if( v.solver == "gragg" ) { OdeSolverEventSuspender<VD> q( *own ); own->setInitialState( t, mk(x), true ); } /* makes no use of earlier steps in the calculation */ own->doStep(); own->doStep(); D y = rd( own->initialState() ); if( !cut ) want.push_back( { t, hh, D{f*(y[0]-full[0]),f*(y[1]-full[1])} } ); x = y; t = own->initialTime(); ++steps; } while( t < 0.25+T && steps < 100 );
    std::string what = v.name + ", switching " + std::to_string(kind) + ", step " + std::to_string(hh); if( want.size() == seen.size()+1 && std::fabs( want.back().t-0.25-T ) < 1e-9 ) want.pop_back(); if( seen.size() == want.size()+1 && std::fabs( seen.back().t-0.25-T ) < 1e-9 ) seen.pop_back(); else checkSeries( what, st, seen, 2 );
    MC_CHECK( steps < 100, "no-progress", what << ": the reference run makes no progress" ); MC_CHECK( kind == 0 || !wantCuts.empty(), "no-switch", what << ": the system never switches" ); MC_CHECK( cuts.size() == wantCuts.size() && close( cuts, wantCuts, tol, tol ), "switches", what << ": switches at " << str(cuts) << " instead of " << str(wantCuts) ); MC_CHECK( sys->switches == sys2->switches, "switch-count", what << ": the system switched " << sys->switches << " instead of " << sys2->switches << " times" ); MC_CHECK( seen.size() == want.size(), "samples", what << ": " << seen.size() << " samples instead of " << want.size() );
    for( size_t i=0; i<seen.size(); ++i ) { MC_CHECK( close( seen[i].t, want[i].t, tol, tol ) && seen[i].h == hh, "sample-time", what << ": sample " << i << " at " << seen[i].t << " instead of " << want[i].t ); MC_CHECK( close( seen[i].e, want[i].e, tol, tol*(lin?2:1) ), "sample", what << ": sample " << i << " at " << seen[i].t << " is " << str(seen[i].e) << " instead of " << str(want[i].e) ); } s->odeSolverPostObservers.remove( id ); own->odeSolverPostObservers.remove( id2 ); MC_CHECK( s->odeSolverPostObservers.empty(), "observers-left", what << ": the calculation stays attached to the solver" ); mc::outcome( std::to_string(wantCuts.size()) + " switches" );
    }
MC_SCENARIO( refused, "no solver, step sizes that make no progress (zero, negative, NaN), a system that fails at any evaluation: an exception; nothing stays attached and the next calculation works" ) {
    int what = mc::choose( 5 ); auto s = make( variant( "rk4", "rk4" ), 0.1 ); auto r = std::make_shared<FnRhs>( 0, 1, []( double t, const D& x ) { return D{ std::cos(t)-x[0] }; } ); s->setOdeRhs( r ); s->setInitialState( 0, mk(D{1}) ); RichardsonErrorCalculator<VD> c; if( what ) c.setOdeSolver( s ); double hh = what == 1 ? 0 : what == 2 ? -0.1 : what == 3 ? NaN : 0.1; if( what == 4 ) r->failAt = mc::choose( 30 ); long n = 0; r->onEval = [&]( double, const D& ) { if( ++n > 5000 ) mc::fail( "endless", "step " + std::to_string(hh) + ": the calculation does not end" ); }; std::string e = whatOf( [&] { c.calculateError( 0.5, hh ); } ); mc::step(); MC_CHECK( !e.empty(), "accepted", "case " << what << " is accepted" ); MC_CHECK( s->odeSolverPostObservers.empty(), "attached", "case " << what << ": the failed calculation stays attached" );
    r->failAt = -1; r->onEval = nullptr; c.setOdeSolver( s ); s->setInitialState( 0, mk(D{1}) ); auto st = c.calculateError( 0.5, 0.125 ); auto s2 = make( variant( "rk4", "rk4" ), 0.1 ); s2->setOdeRhs( r ); s2->setInitialState( 0, mk(D{1}) ); RichardsonErrorCalculator<VD> c2; c2.setOdeSolver( s2 ); auto st2 = c2.calculateError( 0.5, 0.125 ); MC_CHECK( st.sampleCount() == 4 && st2.sampleCount() == 4 && st.errorMaxValue()[0] == st2.errorMaxValue()[0] && st.errorSum()[0] == st2.errorSum()[0], "afterwards", "case " << what << ": the next calculation differs" ); mc::outcome( "refused " + std::to_string(what) );
    }
// the decision of nonlinear solvers
MC_SCENARIO( estimator, "all histories of 2 (quick) / 3 (thorough) iterations with changes of the solution and residuals out of 7 values including infinity and NaN, 3 absolute and 3 relative tolerances, 3 limits of each: errors and status after each" ) {
    mc::splitAt( 300 ); typedef ErrorEstimator<VD> E; SimpleErrorEstimator<VD> s; double at = mc::pick( std::vector<double>{1e-6,0,0.5} ), rt = mc::pick( std::vector<double>{1e-6,0.5,1e300} ), am = mc::pick( std::vector<double>{1e20,0,2} ), rm = mc::pick( std::vector<double>{10,0,1} ); Params p; p["abs_tol"] = at; p["rel_tol"] = rt; p["abs_max_threshold"] = am; p["rel_max_threshold"] = rm; s.setParameters( p ); D x = mc::pick( std::vector<D>{ D{0,0}, D{1,-2} } ); s.reset( mk(x) ); int obs = 0; s.errorObservers.add( [&]( const V&, const V&, const E *e ) { if( e == &s ) ++obs; } ); static const double rv[] = {0,1e-7,0.5,3,INF,NaN,-1e30}, dv[] = {0,1e-7,-0.25,30,INF,NaN,1}; auto norm = []( const D& d ) { double m = 0; for( double y : d ) if( std::isnan(y) ) return NaN; else m = std::max( m, std::fabs(y) ); return m; };
    for( int i=0; i<mc::tier(2,3); ++i ) { double r = rv[mc::choose( 7 )], d = dv[mc::choose( 7 )]; D y{ x[0], x[1]+d }, res{ 1e-9, r }, dx{ 0, y[1]-x[1] }; s.setCurrentSolution( mk(y), mk(res) ); mc::step(); double ae = norm( res ), xn = norm( x ), re = xn > 0 ? norm( dx )/xn : std::isnan(xn) ? NaN : 0; std::ostringstream w; w << "solution " << str(x) << " to " << str(y) << ", residual " << str(res) << ", tolerances " << at << ", " << rt; auto st = s.currentStatus(); MC_CHECK( obs == i+1, "observed", w.str() << ": observers called " << obs << " times" );
        bool fin = std::isfinite(ae); MC_CHECK( same( s.absoluteError(), ae ), "absolute", w.str() << ": absolute error " << s.absoluteError() << " instead of " << ae ); if( !std::isnan(xn) && std::isfinite(xn) ) MC_CHECK( std::isfinite(re) ? close( s.relativeError(), re, 1e-14 ) : !std::isfinite( s.relativeError() ), "relative", w.str() << ": relative error " << s.relativeError() << " instead of " << re ); bool conv = fin && ae <= at && (re <= rt || std::isnan(xn) || std::isinf(xn)); if( !conv || !fin || !std::isfinite(re) ) MC_CHECK( conv || st != E::Converged, "converged", w.str() << ": converged" ); if( fin && std::isfinite(re) && std::isfinite(xn) ) { bool div = (am > 0 && ae >= am) || (rm > 0 && re >= rm); auto want = conv ? E::Converged : div ? E::Diverged : E::ContinueIterations; MC_CHECK( st == want, "status", w.str() << ": status " << st << " instead of " << want ); } MC_CHECK( !s.currentStatusMessage().empty(), "message", "no message" ); x = y; } s.reset( mk(D{1,1}) ); MC_CHECK( s.absoluteError() == 0 && s.relativeError() == 0, "reset", "errors after a reset" ); mc::outcome( "ok" );
    }
}
