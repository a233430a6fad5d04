// U02: timers, timing statistics and tick calibration under a scripted clock.
// FLAGS: -include U02clock.h
#include "hutil.h"
#include <memory>
#include "ode_num_int/OpaqueTickCounter.h"
#include "ode_num_int/TimingStats.h"
#include "ode_num_int/TimerCalibrator.h"
#include "ode_num_int/infra/cxx_exception.h"
#include "ode_num_int/infra/cxx_assert.h"
#include "ode_num_int/util/sys_time.h"
#include "ode_num_int/LUFactorizer.h"
#include "ddirs.h"
namespace mc { const char *assumptions[] = {
    "the processor's tick counter and the system clock are replaced by scripted clocks; the clock never shows the reserved value ~0", "a timer is started before it is stopped and not started twice", nullptr }; }
namespace {
typedef unsigned long long T;
T tsc = 0; int tscReads = 0; std::function<T()> onRead; T msecNow = 0; int msecReads = 0;
struct Boom {};
}
extern "C" unsigned long long mc_fake_tsc( void ) { ++tscReads; if( onRead ) tsc += onRead(); return tsc; }
extern "C" int mc_fake_clock_gettime( int, struct timespec *ts ) { ++msecReads; ts->tv_sec = (time_t)(msecNow/1000); ts->tv_nsec = (long)(msecNow%1000)*1000000 + 999999; return 0; }
namespace {
using ctm::sys::TimingStats; using ctm::sys::ScopedTimeMeasurer; using ctm::sys::TimerCalibrator;
const std::vector<T> gaps = { 0, 1, 7, 1ull<<40 };
int gapSet = 4;
void reset() { static const T starts[] = { 0, 1000, ~0ull - 20 }; tsc = starts[mc::choose(3,"clock start")]; tscReads = 0; onRead = nullptr; msecNow = 5000; msecReads = 0; }
void advance() { tsc += gaps[(size_t)(gapSet == 2 ? 1+mc::choose(2) : mc::choose(4,"time passes"))]; if( tsc == ~0ull ) ++tsc; }
struct Model { T time = 0; unsigned count = 0; };
void check( const TimingStats& s, const Model& m, const char *what ) {
    MC_CHECK( s.count() == m.count, "count", what << ": " << s.count() << " intervals counted of " << m.count );
    MC_CHECK( s.time() == m.time, "sum", what << ": total " << s.time() << ", expected " << m.time );
    MC_CHECK( s.averageTime() == (m.count ? m.time/m.count : 0), "average", what << ": average " << s.averageTime() );
    }
}
MC_SCENARIO( tick_timer, "a timer: all sequences of 4 (thorough 6) operations out of start, stop, lap with 4 time gaps, from 3 clock readings including just before wrap-around" )
{
    reset(); gapSet = 4; bool running = mc::flip("started by constructor"); T since = tsc; OpaqueTickCounter t( running ); int n = mc::tier(4,6);
    for( int i=0;i<n;++i ) { advance(); int op = mc::choose( running ? 2 : 1 ); T got;
        if( !running ) { t.Start(); running = true; since = tsc; }
        else { got = op ? t.Lap() : t.Stop(); MC_LOG( (op?"lap ":"stop ") << got ); MC_CHECK( got == tsc-since, op?"lap":"stop", "interval " << got << " measured, " << tsc-since << " passed" ); if( op ) since = tsc; else running = false; mc::outcome( op?"lap":"stop" ); }
        mc::step(); mc::state( mc::Hash().u(running).u(tsc-since) ); }
}
MC_SCENARIO( statistics, "three statistics: all sequences of 4 (thorough 5) operations out of adding an interval, merging one into another or into itself, sum of two, copy, reset" )
{
    TimingStats s[3]; Model m[3]; int n = mc::tier(4,5);
    for( int i=0;i<n;++i ) { int a = mc::choose(3), b;
        switch( mc::choose(5) ) {
            case 0: { T d = mc::pick( std::vector<T>{ 0, 3, 1ull<<50 } ); s[a].add( d ); m[a].time += d; ++m[a].count; break; }
            case 1: b = mc::choose(3); { TimingStats& r = (s[a] += s[b]); MC_CHECK( &r == &s[a], "merge", "merge returns another object" ); Model mb = m[b]; m[a].time += mb.time; m[a].count += mb.count; } break;
            case 2: b = mc::choose(3); s[2] = s[a] + s[b]; { Model t; t.time = m[a].time + m[b].time; t.count = m[a].count + m[b].count; m[2] = t; } break;
            case 3: b = mc::choose(3); s[a] = s[b]; m[a] = m[b]; break;
            default: s[a] = TimingStats(); m[a] = Model();
            }
        for( int k=0;k<3;++k ) check( s[k], m[k], "statistics" ); mc::step(); }
    mc::outcome( "history" ); mc::Hash hs; for( int k=0;k<3;++k ) hs.u( m[k].time ).u( m[k].count ); mc::state( hs );
}
namespace {
// nested scopes measured into two statistics; any of them may end by an exception
void scopes( TimingStats *s, Model *m, int depth, int& budget ) {
    int n = budget ? mc::choose( 3, "inner scopes" ) : 0;
    for( int i=0;i<n && budget;++i ) {
        --budget; int which = mc::choose(2,"statistics"); bool boom = mc::flip("exception"), caught = false; T start, stop = 0; advance();
        try {
            start = tsc; struct Rec { T& stop; ~Rec() { stop = tsc; } } rec{ stop };
            ScopedTimeMeasurer tm( s[which] ); advance(); if( depth ) scopes( s, m, depth-1, budget ); if( boom ) throw Boom(); 
            }
        catch( const Boom& ) { caught = true; }
        m[which].time += stop - start; ++m[which].count; (void)caught; MC_LOG( "scope of statistics " << which << (boom?" ended by an exception":"") );
        check( s[0], m[0], "nested scopes" ); check( s[1], m[1], "nested scopes" ); mc::step();
        }
    }
}
MC_SCENARIO( scoped, "scoped measurements into two statistics: all trees of up to 3 (thorough 4) scopes, nested or in sequence, each ended normally or by an exception, with 2 (thorough 4) time gaps" )
{
    reset(); gapSet = mc::tier(2,4); TimingStats s[2]; Model m[2]; int budget = mc::tier(3,4); scopes( s, m, 2, budget ); check( s[0], m[0], "end" ); check( s[1], m[1], "end" ); mc::outcome( "scopes" ); mc::state( mc::Hash().u(m[0].time).u(m[0].count).u(m[1].time).u(m[1].count) );
}
MC_SCENARIO( calibration, "calibration over all tick spans out of 1, 1000, 3*10^9, 2^40 and clock spans 0..3, 98..102, 1000, 10^7 ms; intervals converted and formatted in both styles" )
{
    reset(); static const T ticks[] = { 1, 1000, 3000000000ull, 1ull<<40 }; static const T ms[] = { 0, 1, 2, 3, 98, 99, 100, 101, 102, 1000, 10000000 }; T dt = ticks[mc::choose(4)], dm = ms[mc::choose(11)];
    TimerCalibrator tc; MC_CHECK( !tc.stopped() && !tc.toMsecAvailable(), "calibration-state", "calibrated before it is stopped" ); tsc += dt; if( tsc == ~0ull ) { ++tsc; ++dt; } msecNow += dm; tc.stop(); tsc += 12345; msecNow += 777;
    bool avail = dm >= 100; MC_CHECK( tc.stopped() && tc.toMsecAvailable() == avail, "calibration-state", "after " << dm << " ms available is " << tc.toMsecAvailable() );
    T x = mc::pick( std::vector<T>{ 0, 1, 1000, 123456789, 1ull<<45 } ); double want = (double)x*(double)dm/(double)dt, got = -1; bool threw = false; try { got = tc.toMsec( x ); } catch( const ctm::cxx::exception& ) { threw = true; }
    MC_LOG( x << " ticks = " << got << " ms" ); MC_CHECK( threw == !avail, "calibration-short", "conversion after " << dm << " ms " << (threw?"failed":"succeeded") ); if( avail ) MC_CHECK( h::close( got, want, 1e-14 ), "conversion", x << " ticks are " << got << " ms, expected " << want );
    std::ostringstream w, l; w << want << " msec"; l << x << " ticks"; std::string shortForm = avail ? w.str() : l.str(), longForm = avail ? l.str() + " = " + w.str() : l.str();
    MC_CHECK( tc.formatTimeInterval( x ) == shortForm, "format", "printed '" << tc.formatTimeInterval(x) << "'" ); MC_CHECK( tc.formatTimeInterval( x, false ) == longForm, "format", "printed '" << tc.formatTimeInterval(x,false) << "'" );
    mc::step(); mc::outcome( avail ? "calibrated" : "too short" ); mc::state( mc::Hash().u(dt).u(dm).u(x) );
}
MC_SCENARIO( msec_clock, "millisecond clock at all combinations of 5 seconds and 6 sub-second readings" )
{
    T s = mc::pick( std::vector<T>{ 0, 1, 59, 86400, 4000000 } ), m = mc::pick( std::vector<T>{ 0, 1, 9, 10, 500, 999 } ); msecNow = s*1000+m; T g = ctm::sys::GetClockTimeMsec(); MC_CHECK( g == s*1000+m, "clock", "clock reads " << g << ", expected " << s*1000+m ); mc::step(); mc::outcome( "clock" ); mc::state( mc::Hash().u(g) );
}
MC_SCENARIO( factorizer_counts, "an LU factorisation object: all sequences of 4 (thorough 5) operations out of load, load of a non-square matrix, refresh, solve, two kinds of update, clear statistics, with one tick passing per clock reading" )
{
    tsc = 1000; tscReads = 0; onRead = [] { return T(1); }; typedef std::vector<std::pair<std::pair<unsigned,unsigned>,double>> M; M A = { {{0,0},4}, {{0,1},1}, {{1,0},1}, {{1,1},3} }, bad = { {{0,0},4}, {{0,1},1}, {{1,0},1}, {{1,1},3}, {{2,0},1} };
    ctm::math::LUFactorizer<double> lu; Model fact, solve, set, fast, upd; bool loaded = false, factorized = false; int n = mc::tier(4,5); double s[2] = { 1, 2 }, y[2] = { 6.5, 7 };
    auto add = []( Model& m ) { ++m.count; };
    for( int i=0;i<n;++i ) {
        switch( mc::choose( loaded ? 7 : 2 ) ) {
            case 0: lu.setMatrix( A ); loaded = true; factorized = false; add( set ); break;
            case 1: { bool threw = false; try { lu.setMatrix( bad ); } catch( const ctm::cxx::exception& ) { threw = true; } if( !threw ) mc::broken( "non-square matrix accepted" ); loaded = factorized = false; add( set ); break; }
            case 2: lu.setMatrixFast( A ); factorized = false; add( fast ); break;
            case 3: { double b[2] = { 1, 2 }; lu.solve( b ); if( !factorized ) add( fact ); factorized = true; add( solve ); break; }
            case 4: lu.secantUpdateHart( s, y ); if( !factorized ) add( fact ); factorized = true; add( upd ); break;
            case 5: lu.secantUpdateProportional( s, y ); if( !factorized ) add( fact ); factorized = true; add( upd ); break;
            default: lu.clearTimingStats(); fact = solve = set = fast = upd = Model();
            }
        auto t = lu.timingStats(), sum = t + t; ctm::math::LUFactorizerTimingStats acc; acc += t;
        struct { const char *name; Model m; TimingStats t, s, a; } rows[] = { { "factorise", fact, t.factorizeTiming, sum.factorizeTiming, acc.factorizeTiming }, { "solve", solve, t.solveTiming, sum.solveTiming, acc.solveTiming }, { "load", set, t.setMatrixTiming, sum.setMatrixTiming, acc.setMatrixTiming }, { "refresh", fast, t.setMatrixFastTiming, sum.setMatrixFastTiming, acc.setMatrixFastTiming }, { "update", upd, t.updateTiming, sum.updateTiming, acc.updateTiming } };
        for( auto& r : rows ) { MC_CHECK( r.t.count() == r.m.count, "lu-count", r.name << " counted " << r.t.count() << " times, performed " << r.m.count ); MC_CHECK( r.t.time() >= r.t.count() && r.t.time() < 1000, "lu-time", r.name << " took " << r.t.time() << " in " << r.t.count() ); MC_CHECK( r.s.count() == 2*r.m.count && r.s.time() == 2*r.t.time() && r.a.count() == r.m.count && r.a.time() == r.t.time(), "lu-merge", "merged statistics of " << r.name << " differ" ); }
        mc::step();
        }
    onRead = nullptr; mc::outcome( "factoriser" ); mc::state( mc::Hash().u(fact.count).u(solve.count).u(set.count).u(fast.count).u(upd.count) );
}
MC_SCENARIO( direction_counts, "6 descent strategies, 2 mappings: all sequences of 4 (thorough 6) operations out of a direction at iteration 0 or 1 from one of 2 points, reset, hard reset, success reported, statistics taken over and cleared: the statistics count every linear system solved and every factorisation made once" )
{
    using namespace h; tsc = 1000; tscReads = 0; onRead = [] { return T(1); }; int k = mc::choose( NDDIR, "strategy" ); bool full = mc::flip( "full" );
    FnMap f( 2, [=]( const D& x ) { return D{ 3*x[0] + (full ? x[1] : 0.) - 1, x[1]*x[1]*0.25 + 2*x[1] + (full ? 0.5*x[0] : 0.) }; } ); static const D pts[] = { {1,2}, {-1,0.5} };
    auto d = ddir( k ); auto jp = std::make_shared< m::SparseJacobianProvider<VD> >(); auto fp = std::shared_ptr<Map>( &f, []( Map* ) {} ); d->setMapping( fp ); d->setJacobianProvider( jp );
    unsigned made = 0, loads = 0, before = 0; bool any = false; std::string what = ddName( k ); int n = mc::tier(4,6);
    for( int i=0; i<n; ++i ) {
        int op = mc::choose( 6, "operation" ); switch( op ) {
            case 0: case 1: { D x = pts[mc::choose(2,"point")]; V dir; d->computeDescentDirection( dir, mk(x), mk(f.f(x)), any ? op : 0 ); any = true; ++made; what += op ? " next" : " first"; break; }
            case 2: d->reset( false ); what += " reset"; break;
            case 3: d->reset( true ); any = false; what += " hard"; break;
            case 4: d->reportSuccess( mc::flip("success") ); what += " report"; break;
            case 5: d->luTimingStats = ctm::math::LUFactorizerTimingStats(); made = loads = 0; before = 0; what += " clear"; break;
            }
        auto& t = d->luTimingStats; loads = t.setMatrixTiming.count() + t.setMatrixFastTiming.count(); MC_LOG( what << ": solves " << t.solveTiming.count() << " loads " << loads << " factorisations " << t.factorizeTiming.count() << " updates " << t.updateTiming.count() );
        MC_CHECK( t.solveTiming.count() == made, "direction-solves", what << ": " << t.solveTiming.count() << " solutions of linear systems counted, " << made << " made" );
        MC_CHECK( t.factorizeTiming.count() <= made && t.factorizeTiming.count() >= before && t.factorizeTiming.count() <= before+1, "direction-factorisations", what << ": " << t.factorizeTiming.count() << " factorisations counted, " << before << " before" );
        if( k == SIMPLE || k == BROYDEN ) MC_CHECK( t.factorizeTiming.count() == made && loads == made, "direction-factorisations", what << ": " << t.factorizeTiming.count() << " factorisations and " << loads << " loads in " << made << " directions" );
        MC_CHECK( t.updateTiming.count() <= (k == HART ? made : 0), "direction-updates", what << ": " << t.updateTiming.count() << " updates" ); before = t.factorizeTiming.count();
        mc::step();
        }
    onRead = nullptr; mc::outcome( ddName( k ) ); mc::state( mc::Hash().u(k).u(made).u(before).u(loads) );
}
