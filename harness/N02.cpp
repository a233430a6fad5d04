// N02: the iteration loop of NewtonSolver against a reference model, for all answers of its components.
#include "nenv.h"
using namespace h;
namespace mc { const char *assumptions[] = {
    "'attempt' means a sequence of iterations from the initial guess; a run consists of one attempt, or of two if the strategy says that a restart with fresh data may help", nullptr }; }
namespace {
typedef m::ErrorEstimator<VD> EE; typedef m::NewtonSolver<VD> NS;
struct Ev { enum Kind { iteration, success, failure, hardReset, observer } kind; unsigned n; double x; };
struct Script {
    std::vector<EE::Status> status;   // per iteration performed
    std::vector<Ev> log; bool throws = false, restartHelps = false, adjusts = false, observerStops = false;
    unsigned adjustCalls = 0; std::vector<bool> adjusted, stopped;
    };
struct ItPerf : m::NewtonIterationPerformer<VD> {
    Script& s; V x, f; double r = 1; bool exhaust;
    ItPerf( Script& s_, unsigned dim ) : s(s_), x(dim), f(dim) { f[0] = 1; }
    void setInitialGuess( const V& g, bool hard ) { x = g; reset( hard ); }
    void reset( bool hard ) { if( hard ) s.log.push_back( {Ev::hardReset,0,x[0]} ); }
    EE::Status iteration( unsigned n ) {
        s.log.push_back( {Ev::iteration,n,x[0]} ); x[0] += 1;
        int c = mc::choose( s.throws ? 4 : 3, "iteration" );
        static const EE::Status st[] = { EE::ContinueIterations, EE::Converged, EE::Diverged };
        if( c == 3 ) { MC_LOG( "iteration " << n << " throws" ); throw std::runtime_error( "scripted" ); }
        MC_LOG( "iteration " << n << " answers " << (c==0?"continue":c==1?"converged":"diverged") );
        s.status.push_back( st[c] ); return st[c];
        }
    const V& currentSolution() const { return x; }
    const V& currentResidual() const { return f; }
    double currentStepRatio() const { return r; }
    std::string typeName() const { return "scripted"; }
    };
struct DDir : m::NewtonDescentDirection<VD> {
    Script& s; explicit DDir( Script& s_ ) : s(s_) {}
    void reset( bool hard ) { if( hard ) s.log.push_back( {Ev::hardReset,0,-1} ); }
    bool hardResetMayHelp() const { return s.restartHelps; }
    using m::NewtonDescentDirection<VD>::computeDescentDirection;
    void computeDescentDirection( V& dir, const V& x0, const V&, unsigned ) { dir = x0; }
    void reportSuccess( bool ok ) { s.log.push_back( {ok?Ev::success:Ev::failure,0,0} ); MC_LOG( "reported " << (ok?"success":"failure") ); }
    std::string typeName() const { return "scripted"; }
    };
struct Reg : m::NewtonRegularizationStrategy<VD> {
    Script& s; explicit Reg( Script& s_ ) : s(s_) {}
    double regularizationParameter() const { return 0; }
    void setRegularizationParameter( double ) {}
    bool adjustRegularizationParameter() { bool a = mc::flip(); s.adjusted.push_back( a ); MC_LOG( "regularization " << (a?"adjusted":"left") ); return a; }
    std::string typeName() const { return "scripted"; }
    };
const char *name( NS::Status s ) { return s==NS::Converged?"converged":s==NS::Diverged?"diverged":s==NS::Terminated?"terminated":"limit exceeded"; }
struct Expect { NS::Status status; std::vector<int> reports; unsigned iterations, attempts; };

void runs( unsigned limit, bool throws, bool reg, bool obs, int nruns, unsigned dim = 1 ) {
    Script s; s.throws = throws;
    NS ns; auto it = std::make_shared<ItPerf>( s, dim ); it->setNewtonDescentDirection( std::make_shared<DDir>( s ) ); ns.setIterationPerformer( it );
    it->setErrorEstimator( std::make_shared< m::SimpleErrorEstimator<VD> >() );
    if( reg ) ns.setRegularizationStrategy( std::make_shared<Reg>( s ) );
    ns.setIterationCountLimit( limit ); MC_CHECK( ns.iterationCountLimit() == limit, "limit", "limit not stored" );
    ns.iterationObservers.add( [&]( unsigned n, const m::NewtonSolverInterface<VD> *p ) -> bool {
        s.log.push_back( {Ev::observer,n,p->currentSolution()[0]} );
        bool stop = obs && mc::flip(); s.stopped.push_back( stop ); if( stop ) MC_LOG( "observer stops at " << n ); return stop; } );
    for( int run=0;run<nruns;++run ) {
        s.status.clear(); s.log.clear(); s.adjusted.clear(); s.stopped.clear(); s.restartHelps = mc::flip();
        MC_LOG( "run " << run << ", limit " << limit << ", restart " << (s.restartHelps?"helps":"does not help") );
        double x0 = 100*(run+1);
        if( run == 0 || mc::flip() ) ns.setInitialGuess( mk(D(dim,x0)), mc::flip() ); else x0 = rd(ns.currentSolution())[0];
        s.log.clear();
        NS::Status st = NS::Converged; bool threw = false;
        try { st = ns.run(); } catch( std::exception& e ) { threw = true; if( std::string(e.what()) != "scripted" ) mc::fail( "exception", e.what() ); }
        mc::step(); if( !threw ) MC_LOG( "-> " << name(st) );
        // reference model, driven by the answers given
        size_t si=0, ai=0, oi=0, li=0; unsigned bias=0; std::string want; std::vector<int> reports; double x = x0; bool done=false, wantThrow=false; NS::Status wst = NS::Converged;
        auto next = [&]() -> const Ev* { return li < s.log.size() ? &s.log[li] : nullptr; };
        std::vector<int> got; for( auto& e : s.log ) if( e.kind==Ev::success ) got.push_back(1); else if( e.kind==Ev::failure ) got.push_back(0);
        std::vector<Ev> seq; for( auto& e : s.log ) if( e.kind==Ev::iteration || e.kind==Ev::observer || (e.kind==Ev::hardReset && e.x >= 0) ) seq.push_back( e );
        (void)next;
        auto expectEv = [&]( Ev::Kind k, unsigned n, double xv ) {
            static const char *nm[] = { "iteration", "", "", "restart", "observer call" };
            MC_CHECK( li < seq.size(), k==Ev::hardReset?"restart":"early-stop", "expected " << nm[k] << " " << n << ", but the run ended" );
            const Ev& e = seq[li++];
            MC_CHECK( e.kind == k, "sequence", "expected " << nm[k] << " " << n << ", got " << nm[e.kind] << " " << e.n );
            MC_CHECK( e.n == n || k==Ev::hardReset, "index", nm[k] << " has index " << e.n << ", expected " << n );
            MC_CHECK( e.x == xv, k==Ev::hardReset?"restart-point":"current-solution", nm[k] << " " << n << " at x=" << e.x << ", expected " << xv ); };
        for( int attempt=0; attempt<2 && !done; ++attempt ) {
            NS::Status fail = NS::IterationCountLimitExceeded; unsigned k=0;
            for( ; k<limit; ++k ) {
                expectEv( Ev::iteration, k, x );
                if( si >= s.status.size() ) { wantThrow = done = true; break; }
                auto a = s.status[si++]; x += 1;
                expectEv( Ev::observer, k+bias, x );
                if( s.stopped[oi++] ) { wst = NS::Terminated; done = true; break; }
                bool adj = false; if( reg ) { MC_CHECK( ai < s.adjusted.size(), "regularization", "regularization strategy was not asked after iteration " << k ); adj = s.adjusted[ai++]; }
                if( a == EE::Converged && !adj ) { wst = NS::Converged; done = true; reports.push_back(1); break; }
                if( a == EE::Diverged && !adj ) { fail = NS::Diverged; ++k; break; }
                }
            if( done ) break;
            reports.push_back( 0 );
            if( attempt == 0 && s.restartHelps ) { bias += k; x = x0; expectEv( Ev::hardReset, 0, x0 ); }
            else { wst = fail; done = true; }
            }
        MC_CHECK( li == seq.size(), "too-many", "the run went on after it should have ended as " << (wantThrow?"exception":name(wst)) );
        MC_CHECK( threw == wantThrow, "exception", (threw?"exception where ":"no exception where ") << "none/one expected" );
        MC_CHECK( ai == s.adjusted.size(), "regularization", "regularization strategy asked " << s.adjusted.size() << " times" );
        if( !threw ) MC_CHECK( st == wst, "status", "run returned '" << name(st) << "', expected '" << name(wst) << "'" );
        { std::ostringstream g, w; for( int q : got ) g << (q?"success ":"failure "); for( int q : reports ) w << (q?"success ":"failure ");
          MC_CHECK( got == reports, "reports", "reported to the strategy: " << g.str() << ", expected: " << w.str() ); }
        if( !threw ) MC_CHECK( ns.currentSolution()[0] == x, "current-solution", "solution after the run is " << ns.currentSolution()[0] << ", last iterate " << x );
        mc::outcome( threw ? "exception" : name(st) );
        mc::Hash hs; hs.u((unsigned)st).u(si).u(ai).u(limit); for( auto q : s.status ) hs.u((unsigned)q); for( int q : got ) hs.u((unsigned)q); mc::state( hs );
        }
}
} // anonymous
MC_SCENARIO( one_run, "one run, 1, 3 or 20 variables, iteration limits 0..6 (thorough 8), restart helps or not, every sequence of iteration answers {continue, converged, diverged, exception}, no observer stop, no regularization" )
{
    unsigned dim = mc::pick( std::vector<unsigned>{ 1, 3, 20 } ); runs( (unsigned)mc::choose( mc::tier(7,9) ), true, false, false, 1, dim );
}
MC_SCENARIO( stopping, "one run, limits 1..3 (thorough 4), every sequence of iteration answers, the observer stops at any call, the regularization strategy absent or adjusting or not after any iteration" )
{
    unsigned l = 1u + (unsigned)mc::choose( mc::tier(3,4) ); runs( l, false, mc::flip(), true, 1 );
}
MC_SCENARIO( regularized, "one run, limits 1..3 (thorough 4), every sequence of iteration answers and regularization adjustments" )
{
    runs( 1u + (unsigned)mc::choose( mc::tier(3,4) ), false, true, false, 1 );
}
MC_SCENARIO( two_runs, "two runs of the same solver (1 or 5 variables) with or without a new initial guess, limits 1..2, every sequence of iteration answers and exceptions; thorough: three runs" )
{
    unsigned dim = mc::flip() ? 5 : 1; runs( 1u + (unsigned)mc::choose( 2 ), true, false, false, mc::tier(2,3), dim );
}
MC_SCENARIO( messages, "the status texts of all statuses differ" )
{
    typedef m::NewtonSolverInterface<VD> I; I::Status a = (I::Status)mc::choose(4), b = (I::Status)mc::choose(4);
    MC_CHECK( (I::statusText(a) == I::statusText(b)) == (a == b), "status-text", "texts of status " << a << " and " << b << ": " << I::statusText(a) );
    mc::state( mc::Hash().s( I::statusText(a) ).u(b) ); mc::outcome( "text" );
}
