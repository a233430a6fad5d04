// N01: a nonlinear solve reports convergence only at a point with a small residual.
#include "ddirs.h"
using namespace h;
namespace mc { const char *assumptions[] = {
    "the residual is a function of the point, except where the problem is changed between runs",
    "an exception thrown by a solve counts as reported failure", nullptr }; }
namespace {
typedef m::NewtonSolver<VD> NS; 
struct JP : m::JacobianProvider<VD> {
    unsigned n; std::vector<D> alphabet; FastSparseMatrix J; unsigned hard=0, computed=0;
    JP( unsigned n_, std::vector<D> a ) : n(n_), alphabet(a) {}
    void hardReset() { J = FastSparseMatrix(); ++hard; }
    bool hardResetMayHelp() const { return false; }
    void computeJacobian( const V& ) { const D& a = alphabet[(size_t)mc::deviate((int)alphabet.size(),"jacobian")]; m::sparse::SparseMatrix<double> s( n, n ); for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) s.at(i,j) = a[i*n+j]; J = s; ++computed; MC_LOG( "  J := " << str(a) ); }
    FastSparseMatrix& jacobian() { return J; }
    std::string typeName() const { return "scripted"; }
    };
const char *name( NS::Status s ) { return s==NS::Converged?"converged":s==NS::Diverged?"diverged":s==NS::Terminated?"terminated":"limit exceeded"; }

// Scripted problem: the explorer chooses the residual wherever it is evaluated, and every Jacobian
void scripted( unsigned n, int dd, unsigned limit, unsigned truncs, std::vector<double> values, std::vector<D> jac, std::vector<D> starts, int nruns, int dev ) {
    mc::setDeviationBound( dev );
    auto map = std::make_shared<OracleMap>( n, values ); map->deviating = true;
    NS ns; auto it = ns.iterationPerformer(); auto d = ddir( dd ); ns.setComponent( d );
    ns.setComponent( std::static_pointer_cast< m::JacobianProvider<VD> >( std::make_shared<JP>( n, jac ) ) );
    ns.setComponent( std::static_pointer_cast<Map>( map ) ); ns.setIterationCountLimit( limit );
    std::dynamic_pointer_cast< m::SimpleNewtonLinearSearch<VD> >( it->newtonLinearSearch() )->setMaxStepTruncations( truncs );
    auto ee = it->errorEstimator(); ee->setRelativeTolerance( 1e9 ); double tol = 1e-6;
    MC_LOG( ddName(dd) << ", limit " << limit << ", " << truncs << " truncations" );
    for( int r=0;r<nruns;++r ) {
        int how = r == 0 ? 1 + mc::choose(1) : mc::choose(4,"reuse");     // 0 again, 1 new guess (hard), 2 new guess (soft), 3 changed problem, same point
        if( r > 0 && (how == 3 || mc::flip()) ) { map->memo.clear(); MC_LOG( "problem changed" ); }
        if( how == 1 || how == 2 ) { const D& x = mc::pick(starts); MC_LOG( "start at " << str(x) << (how==1?", hard reset":"") ); ns.setInitialGuess( mk(x), how == 1 ); }
        else MC_LOG( "run again" );
        NS::Status st; bool threw = false;
        try { st = ns.run(); } catch( std::exception& e ) { threw = true; MC_LOG( "exception: " << e.what() ); mc::outcome( "exception" ); }
        mc::step(); if( threw ) continue;
        D x = rd( ns.currentSolution() ); MC_LOG( "-> " << name(st) << " at " << str(x) );
        mc::outcome( name(st) ); mc::Hash hs; hs.u((unsigned)st); hash( hs, x ); hs.u(map->memo.size()); mc::state( hs );
        if( st != NS::Converged ) continue;
        MC_CHECK( map->finite(x), "nonfinite-solution", "converged at " << str(x) );
        MC_CHECK( map->known(x), "unevaluated", "converged at " << str(x) << ", where the present problem was never evaluated" );
        double res = infNorm( map->value(x) );
        MC_CHECK( std::isfinite(res) && res <= tol, "large-residual", "converged at " << str(x) << " with residual " << str(map->value(x)) );
        D f = rd( it->currentResidual() );
        MC_CHECK( same(f,map->value(x)), "stale-residual", "residual reported at the solution is " << str(f) << ", true one " << str(map->value(x)) );
        }
    }
// Real problems with numerical Jacobians
struct Problem { const char *name; unsigned n; std::function<D(const D&,double)> f; bool linear; };
const std::vector<Problem>& problems() { static const std::vector<Problem> P = {
    { "linear 1", 1, []( const D& x, double p ) { return D{ 3*x[0]-p }; }, true },
    { "linear 2", 2, []( const D& x, double p ) { return D{ 2*x[0]+x[1]-p, x[0]-3*x[1]+1 }; }, true },
    { "triangular 3", 3, []( const D& x, double p ) { return D{ x[0]-p, 2*x[1]+x[0], 4*x[2]-x[1]+1 }; }, true },
    { "square", 1, []( const D& x, double p ) { return D{ x[0]*x[0]-p }; }, false },
    { "no root", 1, []( const D& x, double p ) { return D{ x[0]*x[0]+p }; }, false },
    { "log", 1, []( const D& x, double p ) { return D{ std::log(x[0])-p }; }, false },
    { "exp", 1, []( const D& x, double p ) { return D{ std::exp(x[0])-p }; }, false },
    { "flat", 1, []( const D& x, double p ) { return D{ std::atan(x[0]-p) }; }, false },
    { "root of sqrt", 1, []( const D& x, double p ) { return D{ std::sqrt(x[0])-p }; }, false },
    { "circle and line", 2, []( const D& x, double p ) { return D{ x[0]*x[0]+x[1]*x[1]-p, x[0]-x[1] }; }, false },
    { "product", 2, []( const D& x, double p ) { return D{ x[0]*x[1]-p, x[0]-1 }; }, false },
    { "pole", 1, []( const D& x, double p ) { return D{ 1/x[0]-p }; }, false },
    }; return P; }
void real( const Problem& p, int dd, int prov, int nruns ) {
    double par = 1; auto map = std::make_shared<FnMap>( p.n, [&]( const D& x ) { return p.f(x,par); } );
    NS ns; auto it = ns.iterationPerformer(); ns.setComponent( ddir( dd ) );
    if( prov ) ns.setComponent( std::static_pointer_cast< m::JacobianProvider<VD> >( std::make_shared< m::SparseJacobianProvider<VD> >() ) );
    else ns.setComponent( std::static_pointer_cast< m::JacobianProvider<VD> >( std::make_shared< m::DefaultJacobianProvider<VD> >() ) );
    ns.setComponent( std::static_pointer_cast<Map>( map ) );
    ns.setIterationCountLimit( (unsigned)mc::pick( std::vector<int>{ 30, 3 } ) );
    it->errorEstimator()->setRelativeTolerance( 1e9 );
    if( mc::flip() ) it->errorEstimator()->setAbsoluteTolerance( 1e-3 );
    double tol = it->errorEstimator()->absoluteTolerance();
    MC_LOG( p.name << ", " << ddName(dd) << (prov?", sparse Jacobian":"") );
    static const std::vector<double> P = { 1, 4, -2, 0 }, S = { 0, 1, -3, 20 };
    for( int r=0;r<nruns;++r ) {
        par = r == 0 ? 1 : mc::pick(P);
        int how = r == 0 ? 0 : mc::choose(3,"reuse");
        if( how < 2 ) { D x( p.n, mc::pick(S) ); if( p.n > 1 ) x[1] += 0.5; MC_LOG( "parameter " << par << ", start at " << str(x) ); ns.setInitialGuess( mk(x), how == 0 ); }
        else MC_LOG( "parameter " << par << ", run again" );
        NS::Status st; bool threw = false;
        try { st = ns.run(); } catch( std::exception& e ) { threw = true; MC_LOG( "exception: " << e.what() ); mc::outcome( "exception" ); }
        mc::step(); if( threw ) { MC_CHECK( !p.linear, "linear-failed", "solving a regular linear problem threw" ); continue; }
        D x = rd( ns.currentSolution() ); MC_LOG( "-> " << name(st) << " at " << str(x) ); mc::outcome( name(st) ); mc::Hash hs; hs.u((unsigned)st); hash( hs, x ); mc::state( hs );
        if( st == NS::Converged ) {
            D f = p.f(x,par); double res = infNorm( f );
            MC_CHECK( std::isfinite(res) && res <= tol, "large-residual", "converged at " << str(x) << " with residual " << str(f) );
            }
        else MC_CHECK( !p.linear || dd != 0 || ns.iterationCountLimit() < 30, "linear-failed", "a regular linear problem was not solved: " << name(st) << " at " << str(x) );
        }
    }
} // anonymous
MC_SCENARIO( scripted1, "one variable; all strategies; two runs of at most 2 iterations with restart, one step truncation; residuals {1,0,-0.9,NaN}, Jacobians {1,-2,0}, with at most 3 (thorough 5) answers other than the first ones; reuse with/without new guess (hard or soft) and changed problem" )
{
    scripted( 1, mc::choose(6), 2, 1, { 1, 0, -0.9, NaN }, { {1}, {-2}, {0} }, { {0.5} }, 2, mc::tier(3,5) );
}
MC_SCENARIO( scripted1b, "one variable; all strategies; one run of up to 3 (thorough 4) iterations with two truncations, residuals {1,1e-7,0.95,inf}, Jacobians {1,-2,0,inf}, at most 4 (thorough 6) answers other than the first ones" )
{
    scripted( 1, mc::choose(6), (unsigned)mc::tier(3,4), 2, { 1, 1e-7, 0.95, INF }, { {1}, {-2}, {0}, {INF} }, { {0}, {0.5} }, 1, mc::tier(4,6) );
}
MC_SCENARIO( scripted2, "two variables; all strategies; one run of two iterations with one truncation, residual components {1,0,-0.9,NaN}, Jacobians diagonal, full and singular, at most 4 (thorough 6) answers other than the first ones" )
{
    scripted( 2, mc::choose(6), 2, 1, { 1, 0, -0.9, NaN }, { {1,0,0,2}, {1,1,1,-1}, {1,1,1,1} }, { {0.5,-0.5} }, 1, mc::tier(4,6) );
}
MC_SCENARIO( scripted_long, "one variable; all strategies; three runs with one iteration per attempt, residuals {1,0,-0.5}, Jacobians {1,-2}, all reuse modes, at most 2 (thorough 4) answers other than the first ones" )
{
    scripted( 1, mc::choose(6), 1, 1, { 1, 0, -0.5 }, { {1}, {-2} }, { {0.5} }, 3, mc::tier(2,4) );
}
MC_SCENARIO( real_problems, "12 real problems (linear, nonlinear, without root, with poles and undefined regions), all strategies, dense and sparse numerical Jacobians, two tolerances, iteration limits 3 and 30, two runs with all start points, parameters and reuse modes (thorough: three runs)" )
{
    auto& P = problems(); int k = mc::choose( (int)P.size() );
    real( P[(size_t)k], mc::choose(6), mc::choose(2), mc::tier(2,3) );
}
MC_SCENARIO( estimator, "the error estimator: all sequences of two points from {0,1,-3,1e-9,NaN,inf}^1 and residuals {0,1e-7,1e-6,1e-5,1e30,NaN,-inf}, tolerances {1e-6,1e-2,0} and thresholds {default,off}: converged exactly if the residual and the relative step are within their tolerances" )
{
    static const std::vector<double> X = { 0, 1, -3, 1e-9, 1.0000001, NaN, INF }, F = { 0, 1e-7, 1e-6, 1e-5, 1e30, NaN, -INF }, T = { 1e-6, 1e-2, 0 };
    typedef m::ErrorEstimator<VD> EE; m::SimpleErrorEstimator<VD> e; double at = mc::pick(T), rt = mc::pick(T); e.setAbsoluteTolerance( at ); e.setRelativeTolerance( rt );
    bool off = mc::flip(); if( off ) { e.setAbsoluteMaxThreshold( 0 ); e.setRelativeMaxThreshold( 0 ); }
    unsigned obs = 0; e.errorObservers.add( [&]( const V&, const V&, const EE* p ) { ++obs; MC_CHECK( p == &e, "observer", "wrong estimator" ); } );
    D x{ mc::pick(X), 0.5 }; e.reset( mk(x) );
    for( unsigned i=1;i<=2;++i ) {
        D y{ mc::pick(X), 0.5 }, f{ 1e-9, mc::pick(F) }; e.setCurrentSolution( mk(y), mk(f) );
        double ae = infNorm(f), xn = infNorm(x), re = std::fabs(y[0]-x[0]) / xn; bool nanStep = std::isnan(re);
        auto st = e.currentStatus(); MC_LOG( str(x) << " -> " << str(y) << ", residual " << str(f) << ": status " << st );
        MC_CHECK( obs == i, "observer", "observer called " << obs << " times" );
        bool conv = ae <= at && re <= rt;
        if( !nanStep || !(ae <= at) ) MC_CHECK( (st == EE::Converged) == conv, "estimator-status", "status " << st << " with error " << ae << " (tolerance " << at << ") and relative step " << re << " (tolerance " << rt << ")" );
        if( !conv && off && !nanStep ) MC_CHECK( st == EE::ContinueIterations, "estimator-status", "diverged although the thresholds are off" );
        if( !conv && !off && !nanStep && !std::isnan(ae) ) MC_CHECK( (st == EE::Diverged) == (ae >= 1e20 || re >= 10), "estimator-status", "status " << st << " with error " << ae << " and relative step " << re );
        MC_CHECK( same(e.absoluteError(),ae), "estimator-error", "absolute error " << e.absoluteError() << ", expected " << ae );
        x = y; mc::step(); mc::outcome( st==EE::Converged?"converged":st==EE::Diverged?"diverged":"continue" );
        }
    mc::Hash hs; hs.u((unsigned)e.currentStatus()).d(e.absoluteError()).d(e.relativeError()); mc::state( hs );
}
