// O07: the implicit Euler step.
// FAST: -include @H/lexstub.h
// USES: alg ddir impl expl ros extr
#include "oenv.h"
#include "sys.h"
#include "ode_num_int/OdeStepMappingEuler.h"
#include "ode_num_int/VectorReorderingMapping.h"
namespace mc { const char *assumptions[] = {
    "nonlinear solvers are asked for a tolerance of 1e-10; the equation of a step is then required to hold to 1e-7 of the size of the state",
    "a strategy that keeps an old Jacobian may fail to converge after the step size has changed; the failure must then be reported and leave the state alone", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
struct Order : VectorReorderingMapping<VD> { int k; Order( int k_ ) : k(k_) {} void maybeInit() { if( !this->mapping() ) return; unsigned n = this->mapping()->inputSize(); std::vector<unsigned> o; for( unsigned i=0; i<n; ++i ) o.push_back( k == 1 ? n-1-i : (i+1)%n ); setInputOrdering( o ); setOutputOrdering( o ); } };
struct Reverse : Order, FactoryMixin< Reverse, VectorReorderingMapping<VD> > { Reverse() : Order(1) {} };
struct Rotate : Order, FactoryMixin< Rotate, VectorReorderingMapping<VD> > { Rotate() : Order(2) {} };
Reverse::Registrator reg1( "reverse" ); Rotate::Registrator reg2( "rotate" );
// the residual of the equation of a step, relative to the size of the state
double residual( const std::function<D(double,const D&)>& full, unsigned n2, double t, const D& x, double hh, double al, const D& y ) {
    D f0 = full( t, x ), f1 = full( t+hh, y ); double r = 0, sc = 1; for( size_t i=0; i<x.size(); ++i ) { sc = std::max( sc, std::fabs(x[i])+std::fabs(hh*f0[i])*(1-al)+std::fabs(y[i]) ); double q = y[i]-x[i]-hh*((i < n2 ? x[n2+i] : f0[i])*(1-al) + (i < n2 ? y[n2+i] : f1[i])*al); if( !(std::fabs(q) <= r) ) r = std::fabs(q); } return r/sc;
    }
const char *dds[] = { "simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart" };

struct Set { int dd = 0, jac = 0, pred = 0, psteps = 1, reo = 0; double al = 1; int maxit = 0; };
const char *preds[] = { "", "euler", "rk4", "dopri_45", "rosenbrock_w1", "gragg", "i_euler" };
double infn( const D& x ) { double r = 0; for( double v : x ) r = std::max( r, std::fabs(v) ); return r; }
std::string nameOf( const Set& c ) { std::ostringstream s; s << "alpha " << c.al << ", ddir " << dds[c.dd] << (c.jac ? ", sparse Jacobian" : "") << ", predictor " << (c.pred ? preds[c.pred] : "none") << " (" << c.psteps << "), order " << c.reo; return s.str(); }
std::shared_ptr<Solver> solver( const Set& c, double hh ) {
    Params n; n["ddir"] = Value( dds[c.dd] ); if( c.jac ) n["jacobian"] = Value( "sparse" ); if( c.maxit ) n["max_iterations"] = c.maxit; Params p; p["algsolver"] = newton( 1e-10, n ); p["alpha"] = c.al;
    if( c.pred ) { Params q; if( c.pred == 6 ) q["algsolver"] = newton(); p["predictor"] = Value( preds[c.pred], q ); p["predictor_steps"] = c.psteps; } if( c.reo ) p["reorder"] = Value( c.reo == 1 ? "reverse" : "rotate" ); return make( variant( "", "i_euler" ), hh, p );
    }
Set pickSet( bool fail ) { Set c; c.dd = mc::deviate( 6, "ddir" ); c.jac = mc::deviate( 2, "jacobian" ); c.pred = mc::deviate( 7, "predictor" ); int ps[] = {1,0,2,3}; if( c.pred ) c.psteps = ps[mc::deviate( 4, "steps" )]; c.reo = mc::deviate( 3, "reorder" ); double a[] = {1,0.5,0,0.25}; c.al = a[mc::deviate( 4, "alpha" )]; if( fail ) c.maxit = mc::deviate( 3, "limit" )*2; return c; }
// makes a step, decides whether it solved the equation or failed properly; returns whether it succeeded
bool step( Solver& sv, const Sys& s, double al, double hh, const std::string& what ) {
    double t = sv.initialTime(); D x = rd( sv.initialState() ); std::string msg; sv.setInitialStepSize( hh );
    try { sv.doStep(); } catch( const std::exception& e ) { msg = e.what(); } mc::step(); D y = rd( sv.initialState() ); MC_LOG( "step " << hh << " at " << t << ": " << (msg.empty() ? str(y) : msg) );
    if( !msg.empty() ) { MC_CHECK( same( y, x ) && sv.initialTime() == t, "state", what << ": after a failed step time and state are " << sv.initialTime() << ", " << str(y) << " instead of " << t << ", " << str(x) ); return false; }
    MC_CHECK( sv.initialTime() == t+hh, "time", what << ": time " << sv.initialTime() << " after a step of " << hh << " from " << t ); double q = residual( [&]( double tt, const D& xx ) { return s.full(tt,xx); }, s.n2, t, x, hh, al, y ); MC_CHECK( q < 1e-7, "equation", what << ": after a step of " << hh << " from " << str(x) << " the state " << str(y) << " violates the equation by " << q ); return true;
    }
MC_SCENARIO( equation, "8 structures, 3 systems, step sizes 0.1 1e-3 0.5 3 then doubled; at most 2 (quick) / 3 (thorough) departures from the defaults among 6 descent strategies, 2 Jacobian providers, 6 predictors with 0-3 steps, 2 reorderings, 4 weights: five steps solve the equation" ) {
    mc::splitAt( 200 ); mc::setDeviationBound( mc::tier(2,3) ); Sys s = pickSys(); double hh = mc::pick( std::vector<double>{0.1,1e-3,0.5,3} ); Set c = pickSet( false ); auto sv = solver( c, hh ); sv->setOdeRhs( s.rhs() ); D x = s.x0(); sv->setInitialState( 0.25, mk(x) ); std::string what = nameOf(s) + ", " + nameOf(c); int ok = 0;
    for( int i=0; i<5; ++i ) { double k = i > 2 ? 2*hh : hh; if( infn( rd( sv->initialState() ) ) > 10 ) break; if( !step( *sv, s, c.al, k, what ) ) { MC_CHECK( !(c.dd == 0 && (s.kind || k <= 0.1) && (!c.pred || (s.kind < 2 && k <= 0.1))), "solved", what << ": a step of " << k << " failed" ); MC_CHECK( !(i == 0 && hh <= 0.1 && c.dd < 5 && (!c.pred || s.kind < 2)), "solved", what << ": the first step, of " << k << ", failed" ); break; } ++ok; }
    mc::outcome( std::to_string(ok) + " steps" );
    }
MC_SCENARIO( failure, "3 structures, 2 systems, at most 1 (quick) / 2 (thorough) departures as above, with iteration limits of 2 and 4, large steps and a right-hand side undefined in a part of the space: sequences of 4 attempts with sizes 2, 0.1 and 1e-3; failed attempts leave time and state alone and do not spoil the next one" ) {
    mc::splitAt( 200 ); mc::setDeviationBound( mc::tier(1,2) ); int N = 4; static const unsigned st[3][2] = { {0,1},{1,1},{0,2} }; int k = mc::choose(3); Sys s{ st[k][0], st[k][1], (int)mc::choose(2) }; bool hole = mc::flip("hole"); Set c = pickSet( true ); double lim = 1.1; auto r = s.rhs(); if( hole ) r->f = [=]( double t, const D& x ) { D g = s.half(t,x); for( double v : x ) if( std::fabs(v) > lim ) return D( g.size(), NaN ); return g; };
    auto sv = solver( c, 0.1 ); sv->setOdeRhs( r ); D x = s.x0(); sv->setInitialState( 0.25, mk(x) ); std::string what = nameOf(s) + ", " + nameOf(c) + (c.maxit ? ", limit " + std::to_string(c.maxit) : "") + (hole ? ", hole" : ""); bool failed = false; std::string o;
    for( int i=0; i<N; ++i ) { double sz[] = {2,0.1,1e-3}; double hh = sz[mc::choose(3,"size")]; double t = sv->initialTime(); D y = rd( sv->initialState() ); bool ok = step( *sv, s, c.al, hh, what ); o += ok ? '+' : '-';
        if( !ok && failed ) { auto f = solver( c, hh ); f->setOdeRhs( r ); f->setInitialState( t, mk(y) ); bool fine = true; try { f->doStep(); } catch( const std::exception& ) { fine = false; } MC_CHECK( !fine, "spoilt", what << ": after a failure a step of " << hh << " from " << str(y) << " fails that a new solver can make" ); }
        failed = !ok; }
    mc::outcome( o );
    }
MC_SCENARIO( guess, "1-4 steps of the explicit Euler method as predictor: the first residual is computed at the predicted state; no predictor: at the current one; with and without reordering" ) {
    Sys s = pickSys(); int n = mc::choose( 5, "steps" ); Set c; c.reo = mc::choose( 3 ); c.pred = n ? 1 : 0; c.psteps = n; double hh = mc::pick( std::vector<double>{0.1,0.02} ); auto sv = solver( c, hh ); auto r = s.rhs(); sv->setOdeRhs( r ); sv->setInitialState( 0.25, mk(s.x0()) ); std::vector<std::pair<double,D>> ev; r->onEval = [&]( double t, const D& x ) { ev.push_back( {t,x} ); }; sv->doStep(); mc::step();
    double t = 0.25; D x = s.x0(); for( int i=0; i<n; ++i ) { MC_CHECK( (int)ev.size() > i && close( ev[i].first, t, 1e-12 ) && close( ev[i].second, x, 1e-12, 1e-12 ), "predictor", nameOf(s) << ": evaluation " << i << " of the predictor" ); x = axpy( x, hh/n, s.full(t,x) ); t += hh/n; }
    for( unsigned i=0; i<s.n2; ++i ) x[i] = s.x0()[i] + hh*x[s.n2+i]; unsigned i = n; while( i < ev.size() && ev[i].first == 0.25 ) ++i; MC_CHECK( i < ev.size() && i < (unsigned)n+3 && close( ev[i].first, 0.25+hh, 1e-12 ) && close( ev[i].second, x, 1e-12, 1e-12 ), "guess", nameOf(s) << ", " << n << " predictor steps, order " << c.reo << ": the first evaluation at the end of the step is at " << (i < ev.size() ? str(ev[i].second) : "-") << " instead of " << str(x) ); mc::outcome( std::to_string(n) );
    }
MC_SCENARIO( mapping, "the step mapping: all sequences of 4 (quick) / 6 (thorough) calls among: other state, other time, other step size, other weight, other system, evaluate; every evaluation is the residual for the current settings" ) {
    mc::splitAt( 100 ); int N = mc::tier(4,6); OdeStepMappingEuler<VD> m; static const unsigned st[4][2] = { {1,1},{0,2},{2,0},{0,1} }; int k = mc::choose(4); Sys s{ st[k][0], st[k][1], 0 }; double t = 0.25, hh = 0.125, al = 0.5; D x = s.x0(); m.setOdeRhs( s.rhs() ); m.setInitialState( t, mk(x) ); m.setTimeStep( hh ); m.setImplicitnessParameter( al );
    for( int i=0; i<=N; ++i ) { int op = i == N ? 5 : mc::choose( 6, "op" ); switch( op ) { case 0: for( double& v : x ) v = v*0.75+0.125; m.setInitialState( t, mk(x) ); break; case 1: t += 0.5; m.setInitialState( t, mk(x) ); break; case 2: hh *= 0.75; m.setTimeStep( hh ); break; case 3: { al = al == 0.5 ? 0.25 : al == 0.25 ? 1 : al == 1 ? 0 : 0.5; if( mc::flip() ) m.setImplicitnessParameter( al ); else { Params p; p["alpha"] = al; p["h"] = hh; m.setParameters( p ); } break; } case 4: s.kind = (s.kind+1)%3; m.setOdeRhs( s.rhs() ); break;
        case 5: { D z; for( unsigned j=0; j<s.n2+s.n1; ++j ) z.push_back( x[s.n2+j] + 0.3*(j+1) ); V o; m.map( o, mk(z) ); D f0 = s.full(t,x), y = x, want; for( unsigned j=0; j<s.n2; ++j ) y[j] = x[j] + hh*((1-al)*x[s.n2+j] + al*z[j]); std::copy( z.begin(), z.end(), y.begin()+s.n2 ); D f1 = s.full(t+hh,y); for( unsigned j=0; j<z.size(); ++j ) want.push_back( z[j]-x[s.n2+j]-hh*((1-al)*f0[s.n2+j]+al*f1[s.n2+j]) );
            MC_CHECK( close( rd(o), want, 1e-12, 1e-12 ), "map", nameOf(s) << ", alpha " << al << ", step " << hh << ": " << str(rd(o)) << " instead of " << str(want) ); MC_CHECK( close( rd( m.computeOdeState( mk(z) ) ), y, 1e-12, 1e-12 ) && same( rd( m.computeEqnState( mk(y) ) ), z ) && same( rd( m.eqnInitialState() ), D( x.begin()+s.n2, x.end() ) ), "states", nameOf(s) ); MC_CHECK( m.inputSize() == z.size() && m.outputSize() == z.size() && m.initialTime() == t && m.timeStep() == hh, "values", nameOf(s) ); } } mc::step(); }
    mc::Hash q; q.d(t).d(hh).d(al); hash( q, x ); mc::state( (uint64_t)q );
    }
}
