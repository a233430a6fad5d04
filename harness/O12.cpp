// O12: configured runs and their reports.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl extr ros impl models out
#include "oenv.h"
#include "ode_num_int/NewtonSolverInterface.h"
#include "ode_num_int/OdeSolverConfiguration.h"
#include "ode_num_int/OdeVarNameGenerator.h"
#include "ode_num_int/OdeSolverOutputClassesRegistrator.h"
#include <fstream>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>
namespace mc { const char *assumptions[] = {
    "numbers in reports are compared to the precision they are printed with: 16 digits in files, 6 on the console",
    "a row whose time since the last row equals the interval to within 1e-9 of it may be written or not",
    "times in the statistics are not compared, their counts are", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
typedef OdeSolverConfiguration<VD> Cfg; typedef OdeSolverComponents<VD> Parts;
// a system with one second order variable and three of the first order; fails at a chosen evaluation
int failEval = -1; long evalNo = 0;
struct Mixed : Rhs, FactoryMixin<Mixed,Rhs> { unsigned secondOrderVarCount() const { return 1; } unsigned firstOrderVarCount() const { return 3; } using Rhs::rhs; void rhs( V& d, double t, const V& x ) const { this->odeRhsPreObservers( t, x, this ); if( evalNo++ == failEval ) throw Injected(); d.resize( 5 ); d[0] = x.at(1); d[1] = -4*x.at(0) - 0.5*x.at(1) + x.at(2); d[2] = -x.at(2) + std::cos(t); d[3] = 0.25*x.at(2) - x.at(3); d[4] = -2*x.at(4); this->odeRhsPostObservers( t, x, d, this ); } };
Mixed::Registrator regMixed( "mixed" );
struct Att { double t0, t, h, err; bool acc, trunc, chg; unsigned iz; int tt; D x; unsigned its; };
struct Rec { std::vector<Att> a; unsigned its = 0; long rhs = 0, rhsJ = 0, jac = 0; bool open = false; double t0 = 0; D x0; int ids[5]; };
void attach( Rec& r, const Parts& p ) { auto s = p.solver().get(); r.t0 = s->initialTime(); r.x0 = rd( s->initialState() );
    r.ids[0] = s->odeSolverPostObservers.add( [&r,s]( const OdeSolverPostObserverArg<VD>& a ) { Att b; b.t0 = r.a.empty() ? r.t0 : r.a.back().t; b.t = s->initialTime(); b.h = a.stepSize(); b.err = a.errorNorm(); b.acc = a.stepAccepted(); b.trunc = a.stepTruncated(); b.chg = a.stepSizeChanged(); b.iz = a.izfTrunc(); b.tt = a.transitionType(); b.x = rd( s->initialState() ); b.its = r.its; r.its = 0; r.a.push_back( b ); } );
    r.ids[1] = s->iterationObservers.add( [&r]( unsigned, const NewtonSolverInterface<VD>* ) { ++r.its; return false; } ); r.ids[2] = s->jacobianRefreshObservers.add( [&r]( bool b ) { r.open = b; if( b ) ++r.jac; } ); r.ids[3] = p.odeRhs()->odeRhsPostObservers.add( [&r]( double, const V&, const V&, const Rhs* ) { ++r.rhs; if( r.open ) ++r.rhsJ; } ); }
void detach( Rec& r, const Parts& p ) { auto s = p.solver(); s->odeSolverPostObservers.remove( r.ids[0] ); s->iterationObservers.remove( r.ids[1] ); s->jacobianRefreshObservers.remove( r.ids[2] ); p.odeRhs()->odeRhsPostObservers.remove( r.ids[3] ); }
bool attached( const Parts& p ) { auto s = p.solver(); auto r = p.odeRhs(); return !s->odeSolverPreObservers.empty() || !s->odeSolverPostObservers.empty() || !s->iterationObservers.empty() || !s->jacobianRefreshObservers.empty() || !r->odeRhsPreObservers.empty() || !r->odeRhsPostObservers.empty(); }
typedef std::vector<std::string> Lines;
Lines lines( const std::string& t ) { Lines r; std::istringstream s( t ); std::string l; while( std::getline( s, l ) ) r.push_back( l ); return r; }
Lines fields( const std::string& l, char sep = '\t' ) { Lines r; std::string w; std::istringstream s( l ); while( std::getline( s, w, sep ) ) r.push_back( w ); return r; }
std::string slurp( const std::string& f ) { std::ifstream s( f.c_str() ); std::ostringstream o; o << s.rdbuf(); return o.str(); }
struct Scratch { std::string dir; Scratch() { dir = std::string( getenv("MC_SCRATCH") ) + "/" + std::to_string( getpid() ); mkdir( dir.c_str(), 0700 ); } ~Scratch() { for( const char *n : {"s","c","f"} ) unlink( (dir+"/"+n).c_str() ); rmdir( dir.c_str() ); } std::string operator()( const char *n ) const { return dir + "/" + n; } };
// whether a row must, must not or may be written a time dt after the last
int due( double dt, double T ) { return T <= 0 ? 1 : dt >= T*(1+1e-9)+1e-12 ? 1 : dt <= T*(1-1e-9)-1e-12 ? -1 : 0; }
double num( const std::string& s ) { char *e; double v = std::strtod( s.c_str(), &e ); return *e || s.empty() ? NaN : v; }
bool numIs( const std::string& s, double v, double tol ) { return close( num(s), v, tol, 1e-300 ) || (!std::isfinite(v) && !std::isfinite(num(s))); }
std::vector<unsigned> shown( const Rhs& r, unsigned lim ) { std::vector<unsigned> v; unsigned n2 = r.secondOrderVarCount(), n = r.varCount(), b[4] = {0,n2,2*n2,n}; for( int g=0; g<3; ++g ) for( unsigned i=b[g]; i<b[g+1]; ++i ) if( b[g+1]-b[g] <= 2*lim || i-b[g] < lim || b[g+1]-i <= lim ) v.push_back( i ); return v; }
void checkRows( const std::string& what, const Lines& L, const Rec& r, const Rhs& sys, unsigned lim, double T, double tol ) {
    auto idx = shown( sys, lim ); unsigned n2 = sys.secondOrderVarCount(); std::string head = "time"; for( unsigned i : idx ) head += "\t" + (n2 == 0 || i < n2 ? "x"+std::to_string(i) : i < 2*n2 ? "v"+std::to_string(i-n2) : "z"+std::to_string(i-2*n2));
    MC_CHECK( !L.empty() && L[0] == head, "header", what << ": header '" << (L.empty() ? std::string() : L[0]) << "' instead of '" << head << "'" ); size_t at = 1; double last = r.t0;
    auto isRow = [&]( double t, const D& x ) { if( at >= L.size() ) return false; auto f = fields( L[at] ); if( f.size() != idx.size()+1 || !numIs( f[0], t, tol ) ) return false; for( size_t i=0; i<idx.size(); ++i ) if( !numIs( f[i+1], x[idx[i]], tol ) ) return false; return true; };
    MC_CHECK( isRow( r.t0, r.x0 ), "initial-row", what << ": the initial state is not written: " << (at < L.size() ? L[at] : std::string()) ); ++at;
    for( auto& a : r.a ) if( a.acc ) { int d = due( a.t-last, T ); bool is = d > 0 || (d == 0 && isRow( a.t, a.x )); if( d > 0 ) MC_CHECK( isRow( a.t, a.x ), "row", what << ": at time " << a.t << ", " << a.t-last << " after the last row, the next row is '" << (at < L.size() ? L[at] : std::string()) << "' for state " << str(a.x) ); if( is ) { ++at; last = a.t; } }
    MC_CHECK( at == L.size(), "extra-rows", what << ": " << L.size()-at << " further rows, from '" << (at < L.size() ? L[at] : std::string()) << "'" );
    }
void checkColumns( const std::string& what, const Lines& L, const Rec& r, const Rhs& sys, unsigned maxSteps, double T, double tol ) {
    unsigned n = sys.varCount(); MC_CHECK( L.size() == n+2, "columns", what << ": " << L.size() << " rows for " << n << " variables" ); std::vector<Lines> f; for( auto& l : L ) f.push_back( fields( l ) ); size_t cols = f[0].size(); for( auto& x : f ) MC_CHECK( x.size() == cols, "columns", what << ": rows of different length" );
    MC_CHECK( f[0][0] == "index" && f[0][1] == "name" && f[1][0] == "-1" && f[1][1] == "time", "column-head", what << ": head '" << L[0] << "', '" << L[1] << "'" ); std::set<std::string> names; for( unsigned i=0; i<n; ++i ) { MC_CHECK( f[i+2][0] == std::to_string(i), "index", what << ": row " << i << " has index " << f[i+2][0] ); MC_CHECK( names.insert( f[i+2][1] ).second, "names", what << ": the name " << f[i+2][1] << " is used twice" ); }
    size_t at = 2; double last = r.t0; auto isCol = [&]( double t, const D& x ) { if( at >= cols || f[0][at] != "n"+std::to_string(at-2) || !numIs( f[1][at], t, tol ) ) return false; for( unsigned i=0; i<n; ++i ) if( !numIs( f[i+2][at], x[i], tol ) ) return false; return true; };
    if( maxSteps > 0 ) { MC_CHECK( isCol( r.t0, r.x0 ), "initial-column", what << ": the initial state is not written" ); ++at; }
    for( auto& a : r.a ) if( a.acc && at-2 < maxSteps ) { int d = due( a.t-last, T ); if( d > 0 ) MC_CHECK( isCol( a.t, a.x ), "column", what << ": column for time " << a.t << " is missing or wrong" ); if( d > 0 || (d == 0 && isCol( a.t, a.x )) ) { ++at; last = a.t; } } MC_CHECK( at == cols, "extra-columns", what << ": " << cols-at << " further columns" );
    }
void checkGeneral( const std::string& what, const Lines& L, const Rec& r, const Rhs& sys, double T, double tol ) {
    size_t at = 0; double last = -1e300; for( size_t k=0; k<r.a.size(); ++k ) { auto& a = r.a[k]; for( unsigned i=0; i<a.its; ++i ) { std::string p = "  Newton it. " + std::to_string(i+1) + ","; MC_CHECK( at < L.size() && L[at].substr( 0, p.size() ) == p, "iteration-line", what << ": line '" << (at < L.size() ? L[at] : std::string()) << "' instead of '" << p << "...'" ); ++at; }
        std::string p = "step " + std::to_string(k+1) + ", time = "; int d = a.trunc ? 1 : due( a.t-last, T ); bool is = at < L.size() && L[at].substr( 0, p.size() ) == p; if( d > 0 ) MC_CHECK( is, "step-line", what << ": attempt " << k+1 << " is not reported" ); if( d < 0 ) MC_CHECK( !is, "step-line", what << ": attempt " << k+1 << " is reported too early" ); if( !is ) continue;
        auto f = fields( L[at++], ',' ); auto val = [&]( size_t i, const char *nm ) { std::string q = std::string(" ") + nm + " = "; return i < f.size() && f[i].substr(0,q.size()) == q ? f[i].substr( q.size() ) : std::string(); }; MC_CHECK( f.size() >= 5 && numIs( val(1,"time"), a.t, tol ) && numIs( val(2,"h"), a.h, tol ) && numIs( val(3,"err"), a.err, tol ) && f[4] == (a.acc ? " accepted" : " rejected"), "step-values", what << ": line '" << L[at-1] << "'" );
        std::string rest; for( size_t i=5; i<f.size(); ++i ) rest += "," + f[i]; std::string w = a.chg ? ", step size changed" : ""; if( a.trunc ) { w += ", step truncated"; if( a.iz != ~0u ) w += " due to " + sys.describeZeroFunction( a.iz ) + " " + (a.tt > 0 ? '+' : a.tt < 0 ? '-' : '?'); } MC_CHECK( rest == w, "step-flags", what << ": line '" << L[at-1] << "'" ); last = a.t; }
    MC_CHECK( at == L.size(), "extra-lines", what << ": " << L.size()-at << " further lines" );
    }
double after( const Lines& L, const std::string& key, size_t *n = nullptr ) { double v = NaN; size_t c = 0; for( auto& l : L ) if( l.substr( 0, key.size() ) == key ) { v = std::strtod( l.c_str()+key.size(), nullptr ); ++c; } if( n ) *n = c; return v; }
void checkStats( const std::string& what, const Lines& L, const Rec& r, double tol ) {
    double n = r.a.size(), rej = 0, chg = 0, tr = 0, sum = 0; for( auto& a : r.a ) { if( !a.acc ) ++rej; else sum += a.h; if( a.chg ) ++chg; if( a.trunc ) ++tr; } auto eq = [&]( const char *key, double v, double tl ) { size_t c; double x = after( L, key, &c ); MC_CHECK( c == 1 && close( x, v, tl ), "statistics", what << ": '" << key << "' " << x << " (" << c << " lines) instead of " << v ); };
    eq( "Total steps: ", n, 0 ); eq( "Rejected steps: ", rej, 0 ); eq( "Step changes: ", chg, 0 ); eq( "Truncated steps: ", tr, 0 ); eq( "Average step size: ", sum/(n-rej), tol ); eq( "Total number of ODE RHS evaluations: ", r.rhs, 0 ); eq( "Number of ODE RHS evaluations to refresh Jacobian: ", r.rhsJ, 0 );
    for( auto& l : L ) { for( auto& p : { std::make_pair("Rejected",rej), std::make_pair("Step changes",chg), std::make_pair("Truncated",tr) } ) if( l.find( p.first ) == 0 ) { size_t b = l.find( '(' ), e = l.find( '%' ); MC_CHECK( b != std::string::npos && e != std::string::npos && numIs( l.substr(b+1,e-b-1), 100*p.second/n, tol ), "percent", what << ": '" << l << "'" ); } if( l.find( "Total number of" ) == 0 ) { std::ostringstream w; w << " = " << r.rhs-r.rhsJ << " + " << r.rhsJ; MC_CHECK( l.size() >= w.str().size() && l.substr( l.size()-w.str().size() ) == w.str(), "statistics", what << ": '" << l << "'" ); }
        for( auto& p : { std::make_pair("TIMING: Jacobian:",r.jac), std::make_pair("TIMING: ODE RHS:",r.rhs) } ) if( l.find( p.first ) == 0 ) { size_t c = l.find( "count = " ); MC_CHECK( c != std::string::npos && num( l.substr(c+8) ) == p.second, "timing-count", what << ": '" << l << "' instead of count " << p.second ); } }
    size_t c; after( L, "TIMING: Jacobian:", &c ); MC_CHECK( c == (r.jac > 0), "statistics", what << ": " << r.jac << " Jacobian refreshes, " << c << " lines about them" );
    }
const char *solvers[] = {"rk4","euler","dopri_45","dopri_56","dopri_78","rosenbrock_w1","rosenbrock_sw2_4","gragg","extrapolator","i_euler"}; const char *models[] = {"oscillator","bouncing_ball","stiff_1d","sliding_point","coupled_nl_osc","mixed"};
D x0of( const std::string& m ) { return m == "oscillator" ? D{0.5,-0.25} : m == "bouncing_ball" ? D{0.05,-0.5} : m == "stiff_1d" ? D{0.5} : m == "sliding_point" ? D{0.1,0.2,0.5,-0.5} : m == "mixed" ? D{0.5,-0.25,1,2,-0.125} : D{0.1,0.2,0.3,-0.1,0.05,0.15,0.25,1,0,-1,0.5,0.25,0.125,0.0625}; }
// parameters may be set one by one, which takes long, or at once
bool oneByOne = false;
struct Node { std::string text; std::map<std::string,Node> sub; Value value() const { if( sub.empty() ) return Value( text ); Params q; for( auto& x : sub ) q[x.first] = x.second.value(); return Value( text, q ); } };
struct Set { Cfg& c; Node root; explicit Set( Cfg& c_ ) : c(c_) {} void operator()( const std::string& path, const Value& v ) { if( oneByOne ) { c.setValue( path, v ); return; } Node *n = &root; size_t b = 0, e; while( (e = path.find( '.', b )) != std::string::npos ) { n = &n->sub[path.substr(b,e-b)]; b = e+1; } n->sub[path.substr(b)].text = v.value<std::string>(); } void done() { if( oneByOne ) return; Params p; for( auto& x : root.sub ) p[x.first] = x.second.value(); c.ComponentConfiguration::parameterProvider()->setParameters( p ); } };
void setSolver( Set& c, const std::string& p, const std::string& sv, double hh ) {
    c( p, sv ); c( p+".h_init", hh ); if( sv == "extrapolator" ) { c( p+".step_sequence", "harmonic" ); c( p+".reference_solver", "euler" ); c( p+".max_stages", 3 ); } if( sv == "i_euler" ) { c( p+".algsolver", "newton" ); c( p+".algsolver.err", "simple" ); c( p+".algsolver.err.rel_max_threshold", 0. ); c( p+".algsolver.err.abs_tol", 1e-9 ); c( p+".algsolver.err.rel_tol", 1e-9 ); }
    }
void setup( Set& c, const std::string& sv, const std::string& m, double hh ) {
    c( "rhs", m ); if( m == "oscillator" ) { c( "rhs.c", 25. ); c( "rhs.f", 2. ); } if( m == "coupled_nl_osc" ) { c( "rhs.n", 7 ); c( "rhs.c0", 10. ); c( "rhs.c2", 5. ); c( "rhs.f", 3. ); } if( m == "stiff_1d" ) c( "rhs.a", 3. ); if( m == "sliding_point" ) c( "rhs.omega", 3. );
    setSolver( c, "solver", sv, hh );
    }
struct Choice { int stats, con, file; bool conFile; unsigned lim, max; };
void outputs( Set& c, const Choice& o, const Scratch& s ) {
    if( o.stats ) { c( "output_stats", "stats_full" ); if( o.stats == 2 ) c( "output_stats.file_name", s("s") ); } if( o.con ) { c( "output_con", o.con == 1 ? "con_general" : "con_solution" ); if( o.conFile ) c( "output_con.file_name", s("c") ); if( o.con == 2 ) c( "output_con.size_half_lim", (int)o.lim ); }
    if( o.file ) { c( "output_file", o.file == 1 ? "con_solution" : "con_solution_columnwise" ); c( "output_file.file_name", s("f") ); if( o.file == 2 ) c( "output_file.max_steps", (int)o.max ); }
    }
void checkOutputs( const std::string& what, const Choice& o, const Scratch& s, const std::string& con, const Rec& r, const Rhs& sys, double T ) {
    Lines L = lines( con ), st; if( o.stats == 1 ) { size_t i = 0; while( i < L.size() && L[i].find( "Total time: " ) != 0 ) ++i; st.assign( L.begin()+i, L.end() ); L.resize( i ); checkStats( what + ", statistics", st, r, 2e-5 ); } if( o.stats == 2 ) checkStats( what + ", statistics file", lines( slurp( s("s") ) ), r, 1e-14 );
    Lines C = o.conFile ? lines( slurp( s("c") ) ) : L; if( o.conFile || !o.con ) MC_CHECK( L.empty(), "console", what << ": '" << L[0] << "' on the console" ); double tol = o.conFile ? 1e-14 : 2e-5; if( o.con == 1 ) checkGeneral( what + ", con_general", C, r, sys, T, tol ); if( o.con == 2 ) checkRows( what + ", con_solution", C, r, sys, o.lim, T, tol );
    if( o.file == 1 ) checkRows( what + ", con_solution file", lines( slurp( s("f") ) ), r, sys, 5, T, 1e-14 ); if( o.file == 2 ) checkColumns( what + ", columns", lines( slurp( s("f") ) ), r, sys, o.max, T, 1e-14 );
    }
Choice choice( bool full ) { Choice o; o.stats = full ? mc::choose( 3, "statistics" ) : 2; o.con = full ? mc::choose( 3, "console output" ) : 1+mc::choose( 2, "console output" ); o.file = full ? mc::choose( 3, "file output" ) : 1+mc::choose( 2, "file output" ); o.conFile = o.con && (full ? mc::flip( "to a file" ) : true); o.lim = 2; o.max = 6; return o; }
void checkRun( const std::string& what, const Rec& r, double dur ) { double end = r.t0+dur; MC_CHECK( !r.a.empty() && r.a.back().acc, "steps", what << ": no steps made" ); bool any = false; for( size_t i=0; i<r.a.size(); any |= r.a[i++].acc ) MC_CHECK( !any || r.a[i].t0 < end, "runs-on", what << ": attempt " << i+1 << " is made at " << r.a[i].t0 << " after the end " << end ); MC_CHECK( r.a.back().t >= end, "stops-early", what << ": the run ends at " << r.a.back().t << " before " << end ); }
void oneRun( Cfg& c, const Choice& o, const Scratch& s, const std::string& what, const D& x0, double t0, double dur, double T ) {
    auto p = c.apply( std::set<unsigned>(), t0, mk(x0) ); MC_CHECK( p.solver()->initialTime() == t0 && same( rd(p.solver()->initialState()), x0 ), "initial-state", what << ": starts at " << p.solver()->initialTime() << ", " << str(rd(p.solver()->initialState())) ); MC_CHECK( c.parameterProvider()->odeSolverDuration() == dur && c.parameterProvider()->odeSolverOutputTiming() == T, "settings", what ); Rec r; attach( r, p ); std::string con; { mc::CoutCapture cap; solveOde( &c, &p ); con = cap.text(); } mc::step(); detach( r, p ); MC_CHECK( !attached( p ), "attached", what << ": observers remain after the run" ); MC_LOG( r.a.size() << " attempts to " << r.a.back().t << ", " << con.size() << " characters of console output" ); checkRun( what, r, dur ); checkOutputs( what, o, s, con, r, *p.odeRhs(), T ); int rej = 0, tr = 0; for( auto& a : r.a ) { rej += !a.acc; tr += a.trunc; } mc::outcome( rej ? "rejections" : tr ? "events" : "plain" );
    }
MC_SCENARIO( runs, "10 solvers, 6 systems, 4 step sizes, 4 initial times, 6 durations from 0, output every step, statistics and an output of each kind in files: the run ends with the first step that reaches the end time, and each report agrees with the steps made" ) {
    mc::splitAt( 60 ); const char *sv = solvers[mc::choose( 10, "solver" )]; const char *m = models[mc::choose( 6, "system" )]; double hh = mc::pick( std::vector<double>{0.1,0.03,0.25,0.007} ), t0 = mc::pick( std::vector<double>{0,-1.75,0.1,1e3} ), dur = mc::pick( std::vector<double>{0,0.05,0.1,0.3,0.21,1e-9} ); bool k = mc::flip( "columns" ); Choice o; o.stats = 2; o.con = k ? 1 : 2; o.conFile = true; o.file = k ? 2 : 1; o.lim = 2; o.max = 6; Scratch s; Cfg c; { Set q( c ); setup( q, sv, m, hh ); outputs( q, o, s ); q( "time", dur ); q.done(); }
    std::ostringstream w; w << sv << " on " << m << ", step size " << hh << ", from " << t0 << " for " << dur; oneRun( c, o, s, w.str(), x0of(m), t0, dur, 0 );
    }
MC_SCENARIO( reports, "3 systems, 5 solvers, 3 step sizes, 8 output intervals, all combinations of outputs on console and in files; run twice with the same configuration: rows at the requested interval, statistics of the last run" ) {
    mc::splitAt( 100 ); const char *m = mc::pick( std::vector<const char*>{"bouncing_ball","coupled_nl_osc","mixed"} ); const char *sv = mc::pick( std::vector<const char*>{"rk4","dopri_45","rosenbrock_sw2_4","i_euler","extrapolator"} ); double hh = mc::pick( std::vector<double>{0.1,0.03} ), T = mc::pick( std::vector<double>{0,0.1,0.05,0.25,0.03,0.09,10,-1} ); Choice o = choice( true ); Scratch s; Cfg c; { Set q( c ); setup( q, sv, m, hh ); outputs( q, o, s ); q( "time", 0.5 ); q( "output_timing", T ); q.done(); } std::ostringstream w; w << sv << " on " << m << ", step size " << hh << ", output every " << T;
    oneRun( c, o, s, w.str(), x0of(m), 0.5, 0.5, T ); if( *m == 'b' ) c.setValue( "rhs", m ); D x1 = x0of(m); x1[0] += 0.05; oneRun( c, o, s, w.str() + ", second run", x1, -2, 0.5, T );
    }
MC_SCENARIO( sizes, "systems of 1..13 oscillators, size_half_lim 0..7, max_steps 0..5, 2 intervals: columns and headers" ) {
    mc::splitAt( 40 ); int n = 1+mc::choose( 13, "oscillators" ); Choice o; o.stats = 0; o.con = 2; o.conFile = true; o.file = 2; o.lim = mc::choose( 8, "size_half_lim" ); o.max = mc::choose( 6, "max_steps" ); double T = mc::pick( std::vector<double>{0,0.04} ); Scratch s; Cfg c; { Set q( c ); q( "rhs", "coupled_nl_osc" ); q( "rhs.n", n ); q( "solver", "rk4" ); q( "solver.h_init", 0.01 ); outputs( q, o, s ); q( "time", 0.08 ); q( "output_timing", T ); q.done(); } D x( 2*n ); for( int i=0; i<2*n; ++i ) x[i] = 0.01*i-0.05; std::ostringstream w; w << n << " oscillators, size_half_lim " << o.lim << ", max_steps " << o.max << ", interval " << T; oneRun( c, o, s, w.str(), x, 0, 0.08, T );
    }
MC_SCENARIO( failures, "5 solvers, combinations of outputs; a run of 0.3 whose evaluation number 0..40 fails: the exception is passed on, nothing stays attached to solver and system, the reports describe the steps made; a second run with the same or another solver is reported properly" ) {
    mc::splitAt( 100 ); const char *sv = mc::pick( std::vector<const char*>{"rk4","dopri_45","rosenbrock_sw2_4","i_euler","extrapolator"} ); Choice o = choice( true ); int at = mc::choose( 14, "failing evaluation" )*3; bool other = mc::flip( "another solver" ); Scratch s; Cfg c; { Set q( c ); setup( q, sv, "mixed", 0.1 ); outputs( q, o, s ); q( "time", 0.3 ); q.done(); } std::ostringstream w; w << sv << ", evaluation " << at << " fails"; D x0 = x0of( "mixed" );
    { auto p = c.apply( std::set<unsigned>(), 0, mk(x0) ); Rec r; attach( r, p ); failEval = at; evalNo = 0; bool threw = false; std::string con; { mc::CoutCapture cap; try { solveOde( &c, &p ); } catch( const Injected& ) { threw = true; } con = cap.text(); } failEval = -1; mc::step(); MC_CHECK( threw == (evalNo > at), "passed-on", w.str() << ": the failure is not passed on" ); detach( r, p ); MC_CHECK( !attached( p ), "attached", w.str() << ": observers remain attached after the run" ); mc::outcome( threw ? "failed" : "completed" );
      bool any = false; for( auto& a : r.a ) any |= a.acc; if( any && r.its == 0 && !r.open ) checkOutputs( w.str() + ", reports of the failed run", o, s, con, r, *p.odeRhs(), 0 ); }
    if( other ) c.setValue( "solver", "rk4" ); oneRun( c, o, s, w.str() + (other ? ", second run with rk4" : ", second run"), x0, 1, 0.3, 0 );
    }
MC_SCENARIO( rejects, "configurations with a missing or unsuitable part: no solver, no system, states of wrong size given as an argument or as init_state, unknown types, a file that cannot be opened in each output slot: an exception, after which the corrected configuration runs" ) {
    int k = mc::choose( 11, "fault" ); const char *sv = solvers[mc::choose( 10, "solver" )]; Scratch s; Cfg c; Choice o; o.stats = 2; o.con = 1; o.conFile = true; o.file = 2; o.lim = 2; o.max = 6; { Set q( c ); setup( q, sv, "mixed", 0.1 ); outputs( q, o, s ); q( "time", 0.2 ); q.done(); } D x0 = x0of("mixed"), x = x0; std::string bad = "/nonexistent/dir/file"; const char *nm[] = {"no solver","no system","system missing, initial state given","state too short","state too long","empty state","init_state too short","unknown solver","statistics file","console output file","output file"}; std::string what = std::string(nm[k]) + ", " + sv;
    std::string e = whatOf( [&] { if( k == 0 ) c.setValue( "solver", "" ); if( k == 1 || k == 2 ) c.setValue( "rhs", "" ); if( k == 2 || k == 6 ) { c.setValue( "init_state", "specified" ); c.setValue( "init_state.size", 4 ); } if( k == 3 ) x.resize( 4 ); if( k == 4 ) x.resize( 6 ); if( k == 5 ) x.clear(); if( k == 7 ) c.setValue( "solver", "no_such_solver" ); if( k == 8 ) c.setValue( "output_stats.file_name", bad ); if( k == 9 ) c.setValue( "output_con.file_name", bad ); if( k == 10 ) c.setValue( "output_file.file_name", bad ); mc::CoutCapture cap; auto p = c.apply( std::set<unsigned>(), 0, mk(x) ); solveOde( &c, &p ); } );
    MC_LOG( e ); MC_CHECK( !e.empty(), "accepted", what << " is accepted" ); mc::step(); if( k >= 8 ) { auto p = c.apply( std::set<unsigned>(), 0, mk(x0) ); MC_CHECK( !attached( p ), "attached", what << ": observers remain attached" ); }
    if( k == 1 || k == 2 ) c.setValue( "rhs", "mixed" ); if( k == 0 ) { Set q( c ); setup( q, sv, "mixed", 0.1 ); q.done(); } if( k == 2 || k == 6 ) c.setValue( "init_state", "" ); if( k >= 8 ) { Set q( c ); outputs( q, o, s ); q.done(); } oneRun( c, o, s, what + ", corrected", x0, 0, 0.2, 0 );
    }
MC_SCENARIO( reference, "10 solvers, each also as reference solver (or none), 6 systems, initial state as an argument or as init_state: the reference solver is given the system, the state and the time, makes the steps of a solver of its own, and the run of the solver makes none with it" ) {
    const char *sv = solvers[mc::choose( 10, "solver" )]; int k = mc::choose( 11, "reference" ); const char *m = models[mc::choose( 6, "system" )]; bool init = mc::flip( "init_state" ); D x0 = x0of( m ); int n = x0.size(); Cfg c; { Set q( c ); setup( q, sv, m, 0.01 ); q( "time", 0.03 ); if( k < 10 ) setSolver( q, "reference_solver", solvers[k], 0.02 ); if( init ) { q( "init_state", "specified" ); q( "init_state.size", n ); q( "init_state.time", 2.5 ); for( int i=0; i<n; ++i ) q( "init_state.x" + std::to_string(i), x0[i] ); } q.done(); }
    auto p = c.apply( std::set<unsigned>(), init ? -1 : 2.5, mk( init ? D{7} : x0 ) ); std::string what = std::string(sv) + " with reference " + (k < 10 ? solvers[k] : "none") + " on " + m; auto r = p.refSolver(); MC_CHECK( !r == (k == 10), "present", what ); MC_CHECK( p.odeRhs() && p.solver()->odeRhs() == p.odeRhs() && p.odeRhs() == c.parameterProvider()->odeRhs(), "system", what << ": the solver has another system" ); MC_CHECK( !p.narrow() && !p.reordered() && !p.normalized() && p.disabledVars().empty(), "transformed", what << ": the system is said to be transformed" ); mc::step(); if( !r ) { mc::outcome( "none" ); return; }
    MC_CHECK( r != p.solver() && r->odeRhs() == p.odeRhs() && r->initialTime() == 2.5 && same( rd(r->initialState()), x0 ), "initial-state", what << ": the reference solver starts at " << r->initialTime() << ", " << str(rd(r->initialState())) );
    if( mc::flip( "solver runs first" ) && *m != 'b' ) { mc::CoutCapture cap; solveOde( &c, &p ); MC_CHECK( r->initialTime() == 2.5 && same( rd(r->initialState()), x0 ), "moved", what << ": the run moves the reference solver" ); }
    Cfg c2; { Set q( c2 ); setup( q, solvers[k], m, 0.02 ); q.done(); } auto p2 = c2.apply( std::set<unsigned>(), 2.5, mk(x0) ); for( int i=0; i<2; ++i ) { r->doStep(); p2.solver()->doStep(); MC_CHECK( r->initialTime() == p2.solver()->initialTime() && same( rd(r->initialState()), rd(p2.solver()->initialState()) ), "steps", what << ": step " << i << " leads to " << r->initialTime() << ", " << str(rd(r->initialState())) << " instead of " << p2.solver()->initialTime() << ", " << str(rd(p2.solver()->initialState())) ); } mc::outcome( "steps" );
    }
MC_SCENARIO( initial, "init_state of every size 0..14 for the 6 systems (or given as an argument), 10 solvers: the run starts from it at its time; other sizes are rejected" ) {
    const char *sv = solvers[mc::choose( 10, "solver" )]; const char *m = models[mc::choose( 6, "system" )]; int n = mc::choose( 15, "size" ); D x0 = x0of( m ); Cfg c; { Set q( c ); setup( q, sv, m, 0.01 ); q( "init_state", "specified" ); q( "init_state.size", n ); q( "init_state.time", 2.5 ); for( int i=0; i<n; ++i ) if( i%3 != 1 ) q( "init_state.x" + std::to_string(i), 0.25*i-0.5 ); q.done(); } std::string what = std::string(sv) + " on " + m + ", init_state of size " + std::to_string(n);
    if( n != (int)x0.size() ) { MC_CHECK( throws<cxx::exception>( [&] { c.apply( std::set<unsigned>(), 0, mk(x0) ); } ), "accepted", what << " is accepted" ); mc::outcome( "rejected" ); return; }
    auto p = c.apply( std::set<unsigned>(), 0, mk(D{1}) ); D w( n ); for( int i=0; i<n; ++i ) w[i] = i%3 != 1 ? 0.25*i-0.5 : 0; MC_CHECK( p.solver()->initialTime() == 2.5 && same( rd(p.solver()->initialState()), w ), "init-state", what << ": starts at " << p.solver()->initialTime() << ", " << str(rd(p.solver()->initialState())) ); mc::step(); mc::outcome( "accepted" );
    }
}
