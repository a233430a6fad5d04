// I04: names of components, the registries behind them, and the links between the parts of a solver.
// FLAGS: -O0
// FAST: -include @H/lexstub.h
// USES: full
#include "hutil.h"
#include <algorithm>
#include <map>
#include <set>
#include "ode_num_int/OdeSolverConfiguration.h"
#include "ode_num_int/OdeEventController.h"
#include "ode_num_int/OdeStepSizeController.h"
#include "ode_num_int/ErrorNormCalculator.h"
#include "ode_num_int/NewtonSolverInterface.h"
#include "ode_num_int/ExtrapolatorStepSequence.h"
#include "ode_num_int/OdeInitState.h"
#include "ode_num_int/OdeStepMapping.h"
void registerAll();
namespace mc { const char *assumptions[] = {
    "no name is registered twice under the same interface (an assertion forbids it)",
    "a class is registered under one name at a time", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using h::VD; using h::V; using h::D;
typedef OptionalParameters OP; typedef OP::Parameters Params; typedef OP::Value Value;
typedef std::vector<std::string> L;
struct Once { Once() { static bool done = false; if( !done ) { done = true; registerAll(); } } };

// --- an interface seen through its factory
struct Obj { std::shared_ptr<void> p; std::string id; OP *op; };
struct Kind { const char *name; L expect; std::function<L()> types; std::function<bool(const std::string&)> has; std::function<Obj(const std::string&)> make; std::function<std::string(const Value&)> viaValue; };
template<class I> Kind k( const char *n, L e ) { return { n, e, [] { return Factory<I>::registeredTypes(); }, []( const std::string& t ) { return Factory<I>::isTypeRegistered(t); },
    []( const std::string& t ) { auto o = Factory<I>::newInstance(t); return Obj{ o, TypeIdGetter<I>::typeId(o), dynamic_cast<OP*>( o.get() ) }; },
    []( const Value& v ) { std::shared_ptr<I> o = v; return TypeIdGetter<I>::typeId(o); } }; }
const std::vector<Kind>& kinds() {
    static const std::vector<Kind> v = {
        k<OdeSolver<VD>>( "solver", {"dopri_45","dopri_56","dopri_78","euler","extrapolator","gragg","i_euler","rk4","rosenbrock_sw2_4","rosenbrock_w1"} ),
        k<OdeRhs<VD>>( "rhs", {"bouncing_ball","coupled_nl_osc","oscillator","sliding_point","stiff_1d"} ),
        k<OdeEventController<VD>>( "eventctl", {"linear"} ), k<ErrorNormCalculator<VD>>( "enorm", {"inf"} ), k<OdeStepSizeController<VD>>( "stepsizectl", {"simple"} ),
        k<NewtonSolverInterface<VD>>( "algsolver", {"newton"} ), k<NewtonIterationPerformer<VD>>( "itperf", {"default"} ),
        k<NewtonDescentDirection<VD>>( "ddir", {"broyden","const","fake-broyden","hart","lazy-fake-broyden","simple"} ),
        k<JacobianProvider<VD>>( "jacobian", {"default","sparse"} ), k<JacobianTrimmer<VD>>( "jtrim", {"threshold","width"} ), k<NewtonLinearSearch<VD>>( "linsearch", {"simple"} ), k<ErrorEstimator<VD>>( "err", {"simple"} ),
        k<NewtonRegularizationStrategy<VD>>( "regularizer", {} ), k<OdeStepMapping<VD>>( "stepmapping", {"euler"} ), k<OdeInitState<VD>>( "init_state", {"specified"} ),
        k<OdeSolverOutputOption<VD>>( "output", {"con_general","con_solution","con_solution_columnwise","stats_full"} ),
        k<ExtrapolatorStepSequence>( "step_sequence", {"bulirsch","harmonic","romberg"} ) };
    return v;
    }
std::string flat( const Params& ps, const std::string& pre = "" ) { std::string s; for( auto& x : ps ) { s += pre + x.first + "=" + x.second.value<std::string>() + ";"; if( x.second.nestedParameters() ) s += flat( *x.second.nestedParameters(), pre + x.first + "." ); } return s; }
std::string join( const L& l ) { std::string s; for( auto& x : l ) s += x + " "; return s; }
void snapshot( std::map<std::string,L>& m ) { for( auto& x : kinds() ) m[x.name] = x.types(); }

MC_SCENARIO( names, "all 17 interfaces, all names: the list is exactly the published one, every name creates, reports itself, also through an option value; every pair of instances (second of any name of the interface) is distinct and independent in its settings" ) {
    Once o; auto& K = kinds()[mc::choose( kinds().size() )]; L t = K.types(); mc::step();
    MC_LOG( K.name << ": " << join(t) );
    L s = t; std::sort( s.begin(), s.end() ); MC_CHECK( s == K.expect, "list", K.name << " offers [" << join(t) << "] instead of [" << join(K.expect) << "]" );
    if( t.empty() ) { mc::outcome("none"); return; }
    auto n = t[mc::choose( t.size() )];
    MC_CHECK( K.has(n), "has", n << " is listed but said not to be registered" );
    Obj a = K.make(n); MC_CHECK( a.p, "null", n << " creates nothing" ); MC_CHECK( a.id == n, "id", "an object created as " << n << " reports " << a.id );
    MC_CHECK( K.viaValue( Value(n) ) == n, "via-value", "option value " << n << " gives an object that reports another name" );
    MC_CHECK( K.viaValue( Value("") ) == "", "via-value", "an empty option value gives an object" );
    auto n2 = t[mc::choose( t.size() )]; Obj b = K.make(n2);
    MC_CHECK( a.p != b.p && a.id == n && b.id == n2, "fresh", "objects " << n << " and " << n2 << " are not separate" );
    if( a.op && b.op ) {
        std::string before = flat( b.op->parameters() ), deflt = flat( a.op->parameters() );
        Params p = a.op->parameters(); std::vector<std::string> num; for( auto& x : p ) { auto s = x.second.value<std::string>(); if( !x.second.typeRegistryGetter() && !s.empty() && isdigit(s[0]) ) num.push_back( x.first ); }
        if( !num.empty() ) { auto q = num[mc::choose( num.size() )]; Params one; one[q] = Value("3"); a.op->setParameters( one ); mc::step();
            MC_CHECK( a.op->parameters().at(q).value<std::string>() == "3", "set", "option " << q << " of " << n << " does not take a value" );
            MC_CHECK( flat( b.op->parameters() ) == before, "independent", "setting " << q << " of one " << n << " changed another object" );
            MC_CHECK( flat( K.make(n).op->parameters() ) == deflt, "default", "setting " << q << " of a " << n << " changed the defaults of new ones" ); }
        }
    mc::outcome( std::string(K.name) + "/" + n );
    }
MC_SCENARIO( unknown, "all 17 interfaces x unknown names derived from every name of every interface (extended, truncated, padded, case changed, names of other interfaces, empty): an exception, and all lists stay as they were" ) {
    Once o; auto& K = kinds()[mc::choose( kinds().size() )]; auto& K2 = kinds()[mc::choose( kinds().size() )];
    L names = K2.expect; names.push_back( "nosuch" ); auto n = names[mc::choose( names.size() )];
    L var = { n, n+"x", n.substr(0,n.size()-1), " "+n, n+" ", n+".", "", "*" }; std::string up = n; for( char& c : up ) c = toupper(c); var.push_back( up );
    auto w = var[mc::choose( var.size() )];
    std::map<std::string,L> s0, s1; snapshot( s0 );
    bool known = std::find( K.expect.begin(), K.expect.end(), w ) != K.expect.end();
    bool thrown = false; Obj r{}; try { r = K.make(w); } catch( const cxx::exception& e ) { thrown = true; MC_LOG( e.what() ); MC_CHECK( w.empty() || std::string(e.what()).find(w) != std::string::npos, "message", "the message does not name " << w ); }
    MC_CHECK( K.has(w) == known, "has", w << " of " << K.name << ": registered is " << K.has(w) ); mc::step();
    MC_CHECK( thrown != known, "unknown", w << " of " << K.name << (known ? " cannot be created" : " is created although unknown") );
    if( !w.empty() ) { bool t2 = !h::whatOf( [&] { K.viaValue( Value(w) ); } ).empty(); MC_CHECK( t2 != known, "unknown-value", "option value " << w << " for " << K.name ); }
    snapshot( s1 ); MC_CHECK( s0 == s1, "lists", "asking for " << w << " changed the lists of names" );
    mc::outcome( known ? "known" : "unknown" );
    }
// registering further kinds, own interfaces
struct IA : Factory<IA> { virtual int id() const = 0; virtual ~IA() {} };
struct IB : Factory<IB> { virtual int id() const = 0; virtual ~IB() {} };
struct A1 : IA, FactoryMixin<A1,IA> { int n = 0; int id() const { return 1; } };
struct A2 : IA, FactoryMixin<A2,IA> { int id() const { return 2; } };
struct B1 : IB, FactoryMixin<B1,IB> { int id() const { return 3; } };
struct AB : IA, IB, FactoryMixin<AB,IA> { int id() const { return 4; } };
template<class T> struct TA : IA, FactoryMixin<TA<T>,IA> { int id() const { return 5 + sizeof(T); } };
int serial = 0;
MC_SCENARIO( registering, "all sequences of up to 4 (quick) / 5 (thorough) registrations of 7 kinds (two interfaces, template instances, generators) under fresh names, after each one all names of the sequence created, listed and identified, and all library names still listed" ) {
    Once o; std::map<std::string,L> s0, s1; snapshot( s0 ); ++serial; std::string pre = "t" + std::to_string(serial) + "_";
    std::map<std::string,int> ma, mb; std::map<int,std::string> nameOf; int N = mc::tier(4,5); L a0 = Factory<IA>::registeredTypes(), b0 = Factory<IB>::registeredTypes();
    for( int i=0; i<N; ++i ) {
        int c = mc::choose( 8 ); if( c == 7 ) break; std::string n = pre + "zyxwv"[i];
        switch( c ) {
            case 0: { A1::Registrator r( n ); ma[n] = 1; nameOf[1] = n; } break;
            case 1: { A2::Registrator r( n ); ma[n] = 2; nameOf[2] = n; } break;
            case 2: { B1::Registrator r( n ); mb[n] = 3; nameOf[3] = n; } break;
            case 3: { AB::Registrator r( n ); ma[n] = 4; nameOf[4] = n; } break;
            case 4: { TA<char>::Registrator r( n ); ma[n] = 6; nameOf[6] = n; } break;
            case 5: { TA<double>::Registrator r( n ); ma[n] = 13; nameOf[13] = n; } break;
            case 6: Factory<IB>::registerType( n, [] { return std::make_shared<B1>(); } ); mb[n] = 3; break;
            }
        mc::step();
        L la = a0, lb = b0; for( auto& x : ma ) la.push_back( x.first ); for( auto& x : mb ) lb.push_back( x.first );
        L ga = Factory<IA>::registeredTypes(), gb = Factory<IB>::registeredTypes(); for( L *l : {&la,&lb,&ga,&gb} ) std::sort( l->begin(), l->end() );
        MC_CHECK( la == ga && lb == gb, "registered", "after registering " << n << " the lists are wrong" );
        for( auto& x : ma ) { auto p = Factory<IA>::newInstance( x.first ), q = Factory<IA>::newInstance( x.first ); MC_CHECK( p && q && p != q && p->id() == x.second, "created", x.first << " creates the wrong kind of object" ); if( nameOf[x.second] == x.first ) MC_CHECK( TypeIdGetter<IA>::typeId(p) == x.first, "identified", x.first << " reports " << TypeIdGetter<IA>::typeId(p) ); MC_CHECK( !Factory<IB>::isTypeRegistered( x.first ), "separate", x.first << " appears in the other interface" ); }
        for( auto& x : mb ) { auto p = Factory<IB>::newInstance( x.first ); MC_CHECK( p && p->id() == x.second, "created", x.first << " creates the wrong kind of object" ); if( nameOf.count(x.second) && nameOf[x.second] == x.first ) MC_CHECK( TypeIdGetter<IB>::typeId(p) == x.first, "identified", x.first << " reports " << TypeIdGetter<IB>::typeId(p) ); MC_CHECK( !Factory<IA>::isTypeRegistered( x.first ), "separate", x.first << " appears in the other interface" ); }
        }
    snapshot( s1 ); MC_CHECK( s0 == s1, "lists", "registering changed other lists" );
    }
// --- the parts of a Newton solver stay linked
struct Map : VectorMapping<VD> { double a; explicit Map( double a ) : a(a) {} unsigned inputSize() const { return 2; } unsigned outputSize() const { return 2; }
    void map( V& f, const V& x ) const { f.resize(2); f[0] = x[0] - a; f[1] = 2*x[1] - x[0] - a; } };   // root (a,a)
template<class I> std::shared_ptr<I> mk( const char *t ) { return Factory<I>::newInstance(t); }
MC_SCENARIO( newton, "all sequences of 3 (quick) / 4 (thorough) replacements of parts of a Newton solver (iteration performer, 2 mappings, 6 descent directions, 2 Jacobian providers, line search, error estimator, trimmer), as objects and as named options: afterwards every part sees the current mapping, the parts are those last set, and the solver finds the root of the current mapping" ) {
    Once o; auto s = mk<NewtonSolverInterface<VD>>( "newton" ); double a = 3; auto m0 = std::make_shared<Map>( a ); std::shared_ptr<VectorMapping<VD>> m = m0; s->setComponent( m );
    std::string ddir = "simple", jac = "default", trim;
    int N = mc::tier(3,4);
    for( int i=0; i<N; ++i ) {
        int c = mc::choose( 15 ); if( c == 14 ) break; bool opt = false; Params p; mc::step();
        static const char *dd[] = {"simple","broyden","fake-broyden","lazy-fake-broyden","hart","const"};
        if( c < 7 ) opt = mc::flip();
        switch( c ) {
            case 0: if( opt ) p["itperf"] = Value("default"); else s->setComponent( mk<NewtonIterationPerformer<VD>>("default") ); break;
            case 1: ddir = "broyden"; if( opt ) p["ddir"] = Value(ddir); else s->setComponent( mk<NewtonDescentDirection<VD>>(ddir.c_str()) ); break;
            case 2: jac = "sparse"; trim = ""; if( opt ) p["jacobian"] = Value(jac); else s->setComponent( mk<JacobianProvider<VD>>(jac.c_str()) ); break;
            case 3: jac = "default"; trim = ""; if( opt ) p["jacobian"] = Value(jac); else s->setComponent( mk<JacobianProvider<VD>>(jac.c_str()) ); break;
            case 4: if( opt ) p["linsearch"] = Value("simple"); else s->setComponent( mk<NewtonLinearSearch<VD>>("simple") ); break;
            case 5: if( opt ) p["err"] = Value("simple"); else s->setComponent( mk<ErrorEstimator<VD>>("simple") ); break;
            case 6: trim = "width"; if( opt ) p["jtrim"] = Value(trim); else s->setComponent( mk<JacobianTrimmer<VD>>(trim.c_str()) ); break;
            case 7: case 8: a = c-6; m = std::make_shared<Map>( a ); s->setComponent( m ); break;
            default: ddir = dd[c-9]; if( c-9 == 1 ) ddir = dd[5]; s->setComponent( mk<NewtonDescentDirection<VD>>(ddir.c_str()) );
            }
        if( opt ) s->setParameters( p );
        MC_LOG( "replacement " << c << (opt ? " by option" : "") << "; a=" << a << " ddir=" << ddir << " jacobian=" << jac << " jtrim=" << trim );
        }
    auto it = s->iterationPerformer(); MC_CHECK( it, "parts", "no iteration performer" );
    auto d = it->newtonDescentDirection(); auto ls = it->newtonLinearSearch(); auto ee = it->errorEstimator();
    MC_CHECK( d && ls && ee, "parts", "a part is missing" );
    auto j = d->jacobianProvider(); MC_CHECK( j, "parts", "the Jacobian provider is missing" );
    MC_CHECK( TypeIdGetter<NewtonDescentDirection<VD>>::typeId(d) == ddir && TypeIdGetter<JacobianProvider<VD>>::typeId(j) == jac && TypeIdGetter<JacobianTrimmer<VD>>::typeId( j->jacobianTrimmer() ) == trim, "parts-kind", "the parts are not those set" );
    MC_CHECK( it->mapping() == m && d->mapping() == m && ls->mapping() == m && j->mapping() == m, "links", "a part of the Newton solver does not see the current mapping" );
    auto ps = s->parameters(); MC_CHECK( ps.at("ddir").value<std::string>() == ddir && ps.at("jacobian").value<std::string>() == jac && ps.at("jtrim").value<std::string>() == trim, "options", "the options do not name the current parts" );
    if( trim.empty() ) { s->setInitialGuess( h::mk({0.5,0.25}) ); auto st = s->run(); D x = h::rd( s->currentSolution() ); MC_LOG( "solution " << h::str(x) );
        MC_CHECK( st == NewtonSolverInterface<VD>::Converged && h::close( x, D{a,a}, 1e-3 ), "root", "the solver does not find the root of the current mapping: " << h::str(x) ); }
    mc::state( (uint64_t)mc::Hash().d(a).s(ddir+jac+trim) ); mc::outcome( ddir + "/" + jac + "/" + trim );
    }
// --- the parts of an ODE solver see the solver's system
struct Sys : OdeRhs<VD> { unsigned secondOrderVarCount() const { return 0; } unsigned firstOrderVarCount() const { return 1; }
    V initialState() const { return h::mk({1}); }
    void rhs( V& f, double, const V& x ) const { f.resize(1); f[0] = -x[0]; } };
MC_SCENARIO( links, "all solvers, all sequences of 4 assignments of the system (3, one of them none), event controller, error norm, step size controller, algebraic solver and reference solver: each part present sees the solver's current system" ) {
    Once o; auto name = kinds()[0].expect[mc::choose( 10 )]; auto s = mk<OdeSolver<VD>>( name.c_str() ); static auto r1 = std::make_shared<Sys>(), r2 = std::make_shared<Sys>();
    auto *eh = dynamic_cast<OdeEventControllerHolder<VD>*>( s.get() ); auto *nh = dynamic_cast<ErrorNormCalculatorHolder<VD>*>( s.get() );
    std::shared_ptr<OdeRhs<VD>> cur; std::shared_ptr<OdeEventController<VD>> oldE; 
    for( int i=0; i<4; ++i ) {
        int c = mc::choose( 6 ); mc::step();
        if( c < 3 ) { cur = c==0 ? nullptr : c==1 ? r1 : r2; s->setOdeRhs( cur ); }
        else if( c == 3 ) { if( !eh ) mc::prune(); eh->setEventController( mk<OdeEventController<VD>>("linear") ); }
        else if( c == 4 ) { if( !nh ) mc::prune(); nh->setErrorNormCalculator( mk<ErrorNormCalculator<VD>>("inf") ); }
        else { Params p; if( name == "extrapolator" ) p["reference_solver"] = Value("euler"); else if( name == "i_euler" ) p["algsolver"] = Value("newton"); else p["eventctl"] = Value("linear"); s->setParameters( p ); }
        MC_LOG( name << " action " << c );
        MC_CHECK( s->odeRhs() == cur, "rhs", name << " has lost its system" );
        if( eh && eh->eventController() ) MC_CHECK( eh->eventController()->odeRhs() == cur, "event", name << ": the event controller sees another system" );
        if( nh && nh->errorNormCalculator() ) MC_CHECK( nh->errorNormCalculator()->odeRhs() == cur, "enorm", name << ": the error norm sees another system" );
        if( cur ) { auto ps = s->parameters(); }
        }
    // and it works
    if( cur ) { std::string w = h::whatOf( [&] { s->setInitialState( 0, h::mk({1}) ); s->setInitialStepSize( 0.0078125 ); s->doStep(); } ); double t = s->initialTime(); MC_LOG( w );
        if( name != "extrapolator" ) MC_CHECK( w.empty() && t > 0, "step", name << " does not make a step: " << w ); }
    mc::outcome( name );
    }
}
