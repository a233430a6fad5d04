// O16: calculations carried on side by side do not influence each other.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl extr ros impl out
#include "oenv.h"
#include "../mc/coro.h"
#include "ode_num_int/NewtonSolverInterface.h"
#include "ode_num_int/OdeSolverConfiguration.h"
#include "ode_num_int/OdeSolverOutputClassesRegistrator.h"
#include "ode_num_int/RichardsonErrorCalculator.h"
#include "ode_num_int/SparseJacobianProvider.h"
#include "ode_num_int/computeJacobian.h"
#include "nenv.h"
#include "variants.h"
#include <cstring>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
namespace mc { const char *assumptions[] = {
    "tasks give way to each other where code of the user is called: evaluations of systems and mappings, switching functions, switches, observers; between these points a task is not interrupted",
    "times in statistics are not compared", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
typedef std::vector<double> Log; Log *out = nullptr;      // where the running task records what it sees
struct Record { Log log; };
std::map<mc::Task*,Log*> logs;
void rec( double v ) { auto it = logs.find( mc::Task::running() ); if( it != logs.end() ) it->second->push_back( v ); }
void rec( const D& x ) { rec( (double)x.size() ); for( double v : x ) rec( v ); }
void rec( const std::string& s ) { mc::Hash q; q.s( s ); rec( (double)( (uint64_t)q>>12 ) ); }
void pause() { mc::Task::yield(); }
// a body that bounces off a moving floor, driven by a first order variable; or two first order variables
struct Side : Rhs, FactoryMixin<Side,Rhs> {
    int kind = 0; double a = 1; int phase = 0, every = 1; mutable int calls = 0; void wait() const { if( ++calls%every == 0 ) pause(); }
    unsigned secondOrderVarCount() const { return kind ? 0 : 1; } unsigned firstOrderVarCount() const { return kind ? 2 : 1; } unsigned zeroFuncCount() const { return kind == 2 ? 0 : 1; } std::vector<unsigned> zeroFuncFlags() const { return std::vector<unsigned>( zeroFuncCount(), 5u ); }
    using Rhs::rhs;
    void rhs( V& d, double t, const V& x ) const {
        this->odeRhsPreObservers( t, x, this ); D X = rd(x); rec( t ); rec( X ); wait(); rec( rd(x) ); d.resize( X.size() );
        if( kind ) { d[0] = -a*X[0] + 0.5*X[1]*X[1] + std::cos(t); d[1] = X[0] - 2*a*X[1] + 0.1*phase; } else { d[0] = X[1]; d[1] = -a - 0.1*X[1] - 0.2*phase; d[2] = -0.5*X[2] + 0.1*std::cos(t) + 0.2*X[0]; }
        this->odeRhsPostObservers( t, x, d, this );
        }
    void zeroFunctions( V& d, double t, const V& x ) const { rec( t ); D X = rd(x); rec( X ); wait(); rec( rd(x) ); d.resize( 1 ); d[0] = X[0] - (kind ? 0.48 : 0); }
    void switchPhaseState( const int *tr, double t, V& x ) { rec( t ); rec( (double)tr[0] ); D X = rd(x); pause(); rec( tr[0] ); rec( rd(x) ); ++phase; if( kind ) x[1] += 0.25; else x[1] = -0.75*X[1]; }
    D x0() const { return kind ? D{0.5,-0.25} : D{0.04,-0.5,1}; }
    };
Side::Registrator regSide( "side" );
std::shared_ptr<Side> shared;
struct Work { std::string name; std::function<void()> run; };
void solve( const Variant& v, int kind, double a, double hh, int steps, int every ) {
    auto r = kind == 2 ? shared : std::make_shared<Side>(); r->every = every; r->kind = kind; r->a = a; auto s = make( v, hh ); s->setOdeRhs( r ); s->odeSolverPostObservers.add( []( const OdeSolverPostObserverArg<VD>& x ) { rec( x.stepSize() ); rec( x.errorNorm() ); rec( x.stepAccepted() ); rec( x.stepTruncated() ); rec( x.stepTruncated() ? x.transitionType() : 0 ); pause(); rec( rd( x.solver()->initialState() ) ); } ); s->setInitialState( 0.25*a, mk( r->x0() ) );
    for( int i=0; i<steps; ++i ) { s->doStep(); rec( s->initialTime() ); rec( rd( s->initialState() ) ); }
    }
void newtonWork( const std::string& dd, double a ) {
    Params p; if( !dd.empty() ) p["ddir"] = Value( dd ); Params q = newton( 1e-8, p ).nestedParameters() ? *newton( 1e-8, p ).nestedParameters() : Params(); auto ns = Factory< NewtonSolverInterface<VD> >::newInstance( "newton" ); ns->setParameters( q ); auto map = std::make_shared<FnMap>( 2, [a]( const D& x ) { rec( x ); pause(); return D{ x[0]*x[0]*0.2 + x[0] + 0.3*x[1] - a, x[1] + 0.4*x[0]*x[1] - 0.3 }; } ); ns->setComponent( std::shared_ptr< VectorMapping<VD> >( map ) ); ns->setInitialGuess( mk( D{0.2*a,0.1} ) ); auto st = ns->run(); rec( (double)st ); rec( rd( ns->currentSolution() ) );
    }
std::string slurp( const std::string& f ) { std::ifstream s( f.c_str() ); std::ostringstream o; o << s.rdbuf(); return o.str(); }
struct Scratch { std::string dir; Scratch() { static int n = 0; dir = std::string( getenv("MC_SCRATCH") ) + "/" + std::to_string( getpid() ) + "." + std::to_string( n++ ); mkdir( dir.c_str(), 0700 ); } ~Scratch() { for( const char *n : {"c","f"} ) unlink( (dir+"/"+n).c_str() ); rmdir( dir.c_str() ); } std::string operator()( const char *n ) const { return dir+"/"+n; } };
void configured( const char *solver, int kind, double a ) {
    Scratch f; { OdeSolverConfiguration<VD> c; c.setValue( "rhs", "side" ); c.setValue( "solver", solver ); c.setValue( "solver.h_init", 0.1 ); c.setValue( "output_con", "con_general" ); c.setValue( "output_con.file_name", f("c") ); c.setValue( "output_file", kind ? "con_solution" : "con_solution_columnwise" ); c.setValue( "output_file.file_name", f("f") ); c.setValue( "time", 0.15 ); auto r = std::dynamic_pointer_cast<Side>( c.parameterProvider()->odeRhs() ); r->kind = kind; r->a = a; auto p = c.apply( std::set<unsigned>(), 1, mk( r->x0() ) ); pause(); solveOde( &c, &p ); rec( p.solver()->initialTime() ); rec( rd( p.solver()->initialState() ) ); }
    rec( slurp( f("c") ) ); rec( slurp( f("f") ) );
    }
void richardson( const char *solver, int kind, double a ) {
    auto r = kind == 2 ? shared : std::make_shared<Side>(); r->kind = kind; r->a = a; auto s = make( variant( solver, solver ), 0.1 ); s->setOdeRhs( r ); s->setInitialState( 0, mk( r->x0() ) ); RichardsonErrorCalculator<VD> c; c.setOdeSolver( s ); c.stepObservers.add( []( double t, double hh, const V& e ) { rec( t ); rec( hh ); D x = rd(e); rec( x ); pause(); rec( rd(e) ); } ); auto st = c.calculateError( 0.1, 0.1 ); rec( (double)st.sampleCount() ); rec( rd( st.errorMaxValue() ) ); rec( rd( st.errorSum() ) );
    }
void jacobians( double a ) {
    auto f = std::make_shared<FnMap>( 3, [a]( const D& x ) { rec( x ); pause(); return D{ a*x[0]*x[1], x[1]-a, x[2]*x[2]+x[0] }; } ); V x = mk( D{1,2,3*a} ); for( int k=0; k<2; ++k ) { std::shared_ptr< JacobianProvider<VD> > jp; if( k ) jp = std::make_shared< SparseJacobianProvider<VD> >(); else jp = std::make_shared< DefaultJacobianProvider<VD> >(); jp->setMapping( f ); for( int i=0; i<2; ++i ) { jp->computeJacobian( x ); V y; y.resize( 3 ); auto J = jp->jacobian(); for( auto& e : J ) { rec( (double)e.first.first ); rec( (double)e.first.second ); rec( e.second ); } x[0] += 0.5; } }
    }
std::vector<Work> works( int which ) {      // which: the system and numbers of the task
    int kind = which; double a = which == 1 ? 1.5 : 1; std::vector<Work> w; for( auto& v : allVariants() ) { bool heavy = v.name.find( "i_euler" ) != std::string::npos && v.solver == "extrapolator"; w.push_back( { v.name, [=]() { solve( v, kind, a, 0.1, heavy ? 1 : 2, heavy ? 10 : 1 ); } } ); }
    w.push_back( { "Richardson euler", [=]() { richardson( "euler", kind, a ); } } ); if( which == 2 ) return w;
    for( const char *d : {"simple","broyden","fake-broyden","lazy-fake-broyden","hart","const"} ) w.push_back( { std::string("newton ")+d, [=]() { newtonWork( d, a ); } } );
    w.push_back( { "configured rk4", [=]() { configured( "rk4", kind, a ); } } ); w.push_back( { "configured dopri_45", [=]() { configured( "dopri_45", kind, a ); } } ); w.push_back( { "Jacobians", [=]() { jacobians( a ); } } );
    return w;
    }
const std::vector<Work>& worksOf( int k ) { static std::vector<Work> w[3]; if( w[k].empty() ) w[k] = works( k ); return w[k]; }
struct Alone { Log log; unsigned yields; std::string error; };
const Alone& alone( int k, int i ) { static std::map<std::pair<int,int>,Alone> m; auto it = m.find( {k,i} ); if( it != m.end() ) return it->second; Alone a; shared = std::make_shared<Side>(); mc::Task t( worksOf(k)[i].run ); logs.clear(); logs[&t] = &a.log; while( !t.done() ) t.resume(); a.yields = t.yields(); a.error = t.error(); logs.clear(); return m[{k,i}] = a; }
void check( const std::string& what, const Log& got, const Alone& w, const std::string& err ) {
    size_t k = 0; while( k < got.size() && k < w.log.size() && !std::memcmp( &got[k], &w.log[k], 8 ) ) ++k; MC_CHECK( k == got.size() && k == w.log.size() && err == w.error, "differs", what << ": record " << k << " of " << w.log.size() << " (" << got.size() << ") is " << (k < got.size() ? got[k] : 0) << " instead of " << (k < w.log.size() ? w.log[k] : 0) << (err.empty() ? "" : "; exception: ") << err );
    }
void together( int ka, int i, int kb, int j ) {
    const Alone& A = alone( ka, i ), &B = alone( kb, j ); MC_CHECK( A.error.empty() && B.error.empty() && !A.log.empty() && A.yields && B.yields, "alone", worksOf(ka)[i].name << " and " << worksOf(kb)[j].name << ": " << A.error << B.error ); shared = std::make_shared<Side>();
    mc::Task t[2] = { mc::Task( worksOf(ka)[i].run ), mc::Task( worksOf(kb)[j].run ) }; Log l[2]; logs.clear(); logs[&t[0]] = &l[0]; logs[&t[1]] = &l[1]; int cur = 0, left = mc::tier(1,2) + (i == j); std::string sched;
    while( !t[0].done() || !t[1].done() ) { if( t[cur].done() ) cur = 1-cur; t[cur].resume(); mc::step(); if( t[cur].done() || t[1-cur].done() || !left ) continue; if( mc::choose( 2, "switch" ) ) { sched += (sched.empty() ? "" : ", ") + std::string( cur ? "second after " : "first after " ) + std::to_string( t[cur].yields() ); cur = 1-cur; --left; } }
    logs.clear(); std::string what = worksOf(ka)[i].name + " and " + worksOf(kb)[j].name + (kb == 1 ? " on another system" : kb == 2 ? " on the same system" : "") + ", switch from " + sched; check( what + ", the first", l[0], A, t[0].error() ); check( what + ", the second", l[1], B, t[1].error() ); mc::outcome( worksOf(ka)[i].name );
    }
MC_SCENARIO( pairs, "all ordered pairs of 36 calculations (26 solver configurations, 6 nonlinear solvers, 2 configured runs, Richardson's error, Jacobians) on two systems of the same kind (quick: a calculation with itself only) or of different ones; all schedules with up to 2 (thorough: a calculation with itself 3; quick: with another 1) switches at any evaluation, switching function, switch or observer (every tenth of them for the extrapolation of implicit steps) before one has finished: each sees, bit for bit, what it sees when alone" ) {
    mc::splitAt( 3000 ); int n = worksOf(0).size(), i = mc::choose( n, "first" ), j = mc::choose( n, "second" ), kj = mc::thorough() || i == j ? mc::choose( 2, "other system" ) : 1; together( 0, i, kj, j );
    }
MC_SCENARIO( shared_system, "all ordered pairs of 27 calculations (26 solver configurations, Richardson's error) that use one and the same system without events; all schedules with up to 1 (quick) / 2 (thorough) switches, for a calculation with itself 2 / 3: each sees, bit for bit, what it sees when alone" ) {
    mc::splitAt( 1500 ); int n = worksOf(2).size(), i = mc::choose( n, "first" ), j = mc::choose( n, "second" ); together( 2, i, 2, j );
    }
}
