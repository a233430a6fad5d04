// N06: line search and the iteration around it, for all residual answers.
#include "nenv.h"
using namespace h;
namespace mc { const char *assumptions[] = {
    "'worse' is judged by the Euclidean norm of the residual, which the search minimises", nullptr }; }
namespace {
struct Trial { double alpha; D x, f; };
// The mapping answers relative to the residual at the starting point
struct Ans { const char *name; double factor; };
std::vector<Ans> answers() { return { {"zero",0}, {"half",0.5}, {"slightly smaller",0.95}, {"equal",1}, {"double",2}, {"inf",INF}, {"nan",NaN}, {"opposite",-0.5} }; }

void searchCase( int maxTrunc, const D& x0, const D& f0, const D& dir, size_t alphabet ) {
    static const std::vector<Ans> A = answers();
    std::vector<Trial> trials; std::vector<D> mapped;
    unsigned n = (unsigned)x0.size();
    auto map = std::make_shared<FnMap>( n, [&]( const D& x ) { const Ans& a = A[(size_t)mc::choose((int)alphabet,"answer")]; D f(f0); for( double& v : f ) v = a.factor == 0 ? 0 : v*a.factor; mapped.push_back(f); MC_LOG( "  f(" << str(x) << ") is " << a.name << ": " << str(f) ); return f; } );
    m::SimpleNewtonLinearSearch<VD> ls; ls.setMapping( map ); if( maxTrunc >= 0 ) ls.setMaxStepTruncations( (unsigned)maxTrunc ); else maxTrunc = (int)ls.maxStepTruncations();
    unsigned seen = 0;
    ls.lineSearchObservers.add( [&]( unsigned it, double alpha, const V& d, const V& x, const V& g, const V& f ) {
        MC_CHECK( it == seen, "observer", "trial index " << it << ", expected " << seen ); ++seen;
        MC_CHECK( same(rd(d),dir) && same(rd(x),x0) && same(rd(g),f0), "observer", "observer arguments" );
        trials.push_back( {alpha, map->points.back(), rd(f)} ); } );
    D r0( n, 123.25 ); V res = mk(r0); bool wantRes = mc::flip();
    double alpha = ls.lineSearch( mk(dir), mk(x0), mk(f0), wantRes ? &res : nullptr );
    mc::step();
    MC_CHECK( map->evals <= 2u*(unsigned)maxTrunc, "too-many-trials", map->evals << " trials with a limit of " << maxTrunc << " truncations in each direction" );
    MC_CHECK( trials.size() == map->evals, "observer", "observers saw " << trials.size() << " of " << map->evals << " trials" );
    double n0 = norm2(f0); int best = -1; double bestN = n0;
    for( size_t i=0;i<trials.size();++i ) {
        MC_CHECK( std::isfinite(trials[i].alpha) && trials[i].alpha != 0 && std::fabs(trials[i].alpha) <= 1, "alpha", "trial step ratio " << trials[i].alpha );
        for( unsigned k=0;k<n;++k ) MC_CHECK( same(trials[i].x[k], x0[k]+dir[k]*trials[i].alpha), "trial-point", "trial " << i << " with step ratio " << trials[i].alpha << " evaluated at " << str(trials[i].x) );
        MC_CHECK( same(trials[i].f,mapped[i]), "trial-residual", "observer got another residual" );
        for( size_t j=0;j<i;++j ) MC_CHECK( trials[j].alpha != trials[i].alpha, "repeated-trial", "trial " << i << " repeats the step ratio of trial " << j );
        double t = norm2(trials[i].f); if( t < bestN ) { bestN = t; best = (int)i; }
        }
    if( best < 0 ) {
        MC_CHECK( alpha == 0, "false-success", "step ratio " << alpha << " returned although no trial reduced the residual" );
        if( maxTrunc > 0 ) MC_CHECK( map->evals == 2u*(unsigned)maxTrunc, "gave-up-early", "gave up after " << map->evals << " trials, limit " << maxTrunc << " in each direction" );
        if( wantRes ) MC_CHECK( same(rd(res),r0), "residual-touched", "residual overwritten with " << str(rd(res)) << " although the search failed" );
        mc::outcome( "failure" );
        }
    else {
        MC_CHECK( alpha == trials[(size_t)best].alpha, "not-the-best", "returns step ratio " << alpha << ", best trial is " << trials[(size_t)best].alpha );
        if( wantRes ) MC_CHECK( same(rd(res),trials[(size_t)best].f), "residual-mismatch", "returns residual " << str(rd(res)) << ", that of the accepted trial is " << str(trials[(size_t)best].f) );
        mc::outcome( alpha < 0 ? "success in the opposite direction" : alpha == 1 ? "full step" : "truncated step" );
        }
    mc::Hash hs; hs.d(alpha).u((unsigned)maxTrunc); for( auto& t : trials ) for( double x : t.f ) hs.d(x); mc::state( hs );
    }
// Direction chosen by the explorer
struct Dir : m::NewtonDescentDirection<VD> {
    unsigned n; std::vector<double> alphabet; std::vector<D> given; std::vector<D> seenX, seenF; unsigned resets=0, hards=0;
    Dir( unsigned n_, std::vector<double> a ) : n(n_), alphabet(a) {}
    void reset( bool hard ) { ++resets; if( hard ) ++hards; }
    bool hardResetMayHelp() const { return false; }
    using m::NewtonDescentDirection<VD>::computeDescentDirection;
    void computeDescentDirection( V& dir, const V& x0, const V& f0, unsigned ) { D d(n); for( double& x : d ) x = mc::pick(alphabet); given.push_back(d); seenX.push_back(rd(x0)); seenF.push_back(rd(f0)); MC_LOG( "direction " << str(d) ); dir = mk(d); }
    std::string typeName() const { return "scripted"; }
    };
void iterate( unsigned n, int truncs, int its, std::vector<double> values, std::vector<double> dirs ) {
    auto map = std::make_shared<OracleMap>( n, values );
    auto p = std::make_shared< m::NewtonIterationPerformerImpl<VD> >(); auto dd = std::make_shared<Dir>( n, dirs ); auto ls = std::make_shared< m::SimpleNewtonLinearSearch<VD> >(); ls->setMaxStepTruncations( (unsigned)truncs );
    auto ee = std::make_shared< m::SimpleErrorEstimator<VD> >(); ee->setRelativeTolerance( 1e9 );
    p->setMapping( map ); dd->setMapping( map ); ls->setMapping( map ); p->setErrorEstimator( ee ); p->setNewtonDescentDirection( dd ); p->setNewtonLinearSearch( ls );
    D x( n, 0.5 ); p->setInitialGuess( mk(x), true );
    for( int i=0;i<its;++i ) {
        D xb = rd(p->currentSolution()); D fb = map->value(xb); size_t t0 = map->points.size();
        auto st = p->iteration( (unsigned)i ); mc::step();
        D xa = rd(p->currentSolution()), fa = rd(p->currentResidual()); double al = p->currentStepRatio();
        MC_CHECK( same(dd->seenX.back(),xb) && same(dd->seenF.back(),fb), "direction-arguments", "direction requested with residual " << str(dd->seenF.back()) << " at " << str(dd->seenX.back()) << ", current point " << str(xb) << " has residual " << str(fb) );
        bool evaluated = false; for( size_t k=t0;k<map->points.size();++k ) evaluated |= same(map->points[k],xa);
        MC_CHECK( same(xa,xb) || evaluated, "unevaluated-point", "moved from " << str(xb) << " to " << str(xa) << " which was never evaluated" );
        MC_CHECK( OracleMap::finite(xa), "nonfinite-point", "moved from " << str(xb) << " to " << str(xa) );
        MC_CHECK( same(fa,map->value(xa)), "stale-residual", "residual after the iteration is " << str(fa) << ", the residual at " << str(xa) << " is " << str(map->value(xa)) );
        double na = norm2(fa), nb = norm2(fb);
        MC_CHECK( same(xa,xb) || na < nb || std::isnan(nb), "worse-point", "moved from residual " << str(fb) << " to residual " << str(fa) );
        MC_CHECK( (al == 0) == same(xa,xb) || !OracleMap::finite(dd->given.back()) || infNorm(dd->given.back()) == 0, "step-ratio", "step ratio " << al << " but moved from " << str(xb) << " to " << str(xa) );
        bool conv = infNorm(fa) <= 1e-6;
        MC_CHECK( (st == m::ErrorEstimator<VD>::Converged) == conv, "status", "status " << (int)st << " with residual " << str(fa) );
        if( al == 0 && !conv ) MC_CHECK( st == m::ErrorEstimator<VD>::Diverged, "status", "no progress, but status " << (int)st );
        mc::outcome( st == m::ErrorEstimator<VD>::Converged ? "converged" : st == m::ErrorEstimator<VD>::Diverged ? "diverged" : "continue" );
        mc::Hash hs; hash( hs, xa ); hash( hs, fa ); hs.u((unsigned)st); mc::state( hs );
        if( st != m::ErrorEstimator<VD>::ContinueIterations ) break;
        }
    }
} // anonymous
MC_SCENARIO( search1, "one variable: starting residuals {1,-3,0,1e-170,1e170,inf,nan}, directions {1,-0.25,0,inf,nan}, truncation limits 0..2 (thorough 3), every trial answered with zero, half, 0.95, equal, double, infinite, NaN or opposite residual" )
{
    static const std::vector<double> F = { 1, -3, 0, 1e-170, 1e170, INF, NaN }, DR = { 1, -0.25, 0, INF, NaN };
    D f0{ mc::pick(F) }, dir{ mc::pick(DR) }; int tr = mc::choose( mc::tier(3,4) );
    MC_LOG( "line search from f0=" << str(f0) << " along " << str(dir) << ", limit " << tr );
    if( tr == 3 && f0[0] != 1 ) mc::prune();
    searchCase( tr, {0.5}, f0, dir, 8 );
}
MC_SCENARIO( search2, "two variables: truncation limits 1..2, residuals and directions from a small set" )
{
    static const std::vector<D> F = { {1,-2}, {0,1e-9}, {NaN,0}, {1e200,1} }, DR = { {1,1}, {-2,0.5} };
    D f0 = mc::pick(F), dir = mc::pick(DR); int tr = 1 + mc::choose(2);
    searchCase( tr, {0.25,-1}, f0, dir, 8 );
}
MC_SCENARIO( default_limit, "the default truncation limit (10 per direction): all answer sequences over {0.5, 0.95, 1} with at most 3 (quick) or 5 (thorough) answers other than 'equal'" )
{
    mc::setDeviationBound( mc::tier(3,5) ); D f0{ 2 }, x0{ 1 }, dir{ -1 };
    std::vector<double> alphas; std::vector<double> norms;
    auto map = std::make_shared<FnMap>( 1, [&]( const D& x ) { static const double f[] = { 1, 0.95, 0.92, 1.5, 0.5 }; double v = f[mc::deviate(5,"answer")]*2; alphas.push_back( (x[0]-x0[0])/dir[0] ); norms.push_back( v ); return D{v}; } );
    m::SimpleNewtonLinearSearch<VD> ls; ls.setMapping( map ); unsigned lim = ls.maxStepTruncations(); V res = mk({7});
    double alpha = ls.lineSearch( mk(dir), mk(x0), mk(f0), &res ); mc::step();
    MC_CHECK( map->evals <= 2*lim, "too-many-trials", map->evals << " trials with a limit of " << lim );
    int best = -1; double bn = 2; for( size_t i=0;i<norms.size();++i ) if( norms[i] < bn ) { bn = norms[i]; best = (int)i; }
    if( best < 0 ) MC_CHECK( alpha == 0 && res[0] == 7, "false-success", "step ratio " << alpha << " without a better trial" );
    else MC_CHECK( alpha == alphas[(size_t)best] && res[0] == norms[(size_t)best], "not-the-best", "returns " << alpha << " with residual " << res[0] << ", best trial " << alphas[(size_t)best] << " has " << norms[(size_t)best] );
    for( size_t i=0;i<alphas.size();++i ) for( size_t j=0;j<i;++j ) MC_CHECK( alphas[i] != alphas[j], "repeated-trial", "step ratio " << alphas[i] << " tried twice" );
    mc::outcome( alpha==0?"failure":alpha<0?"opposite":"forward" ); mc::Hash hs; hs.d(alpha).u(norms.size()); mc::state( hs );
}
MC_SCENARIO( iteration1, "one variable, up to 3 iterations (thorough 4), one truncation, directions {1,-0.5,0,inf}, all functions with values {0,1,-0.9,2,NaN} on the points visited" )
{
    iterate( 1, 1, mc::tier(3,4), { 1, 0, -0.9, 2, NaN }, { 1, -0.5, 0, INF } );
}
MC_SCENARIO( iteration1b, "one variable, 2 iterations, two truncations, directions {1,-0.5,NaN}, all functions with values {1e-7,1,0.95,2,inf}" )
{
    iterate( 1, 2, 2, { 1, 1e-7, 0.95, INF }, mc::thorough() ? std::vector<double>{ 1, -0.5, NaN } : std::vector<double>{ 1, NaN } );
}
MC_SCENARIO( iteration2, "two variables, 2 iterations, one truncation, directions with components {1,-0.5}, all functions with components {0,1,-0.9} (thorough also 2)" )
{
    iterate( 2, 1, 2, mc::thorough() ? std::vector<double>{ 1, 0, -0.9, 2 } : std::vector<double>{ 1, 0, -0.9 }, { 1, -0.5 } );
}
