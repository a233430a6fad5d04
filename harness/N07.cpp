// N07: a nonlinear solver can be put together in any order.
// All histories of setting parts of a Newton solver up to a depth, in all the ways the library has for it.
// FAST: -include @H/lexstub.h
// USES: alg ddir
#include "ddirs.h"
#include "ode_num_int/JacobianThresholdBasedTrimmer.h"
using namespace h;
using namespace ctm; using namespace ctm::math;
namespace mc { const char *assumptions[] = {
    "parts are given to a solver that has an iteration performer (without one there is nothing to hold them)",
    "an iteration performer brings the problem and the parts it has itself; what it does not have stays as it was",
    "the regularization strategy is a stand-in (the library has none of its own)", nullptr }; }
namespace {
typedef OptionalParameters::Parameters Params; typedef OptionalParameters::Value Value;
typedef NewtonSolver<VD> NS;
typedef NewtonIterationPerformer<VD> P; typedef ErrorEstimator<VD> E; typedef NewtonDescentDirection<VD> DD; typedef JacobianProvider<VD> J; typedef JacobianTrimmer<VD> T; typedef NewtonLinearSearch<VD> L; typedef NewtonRegularizationStrategy<VD> R;
struct Reg : R, FactoryMixin<Reg,R> { double p = 0; double regularizationParameter() const { return p; } void setRegularizationParameter( double x ) { p = x; } bool adjustRegularizationParameter() { return false; } }; Reg::Registrator regReg( "stand-in" );
// An iteration performer, a descent direction and a Jacobian provider that come with parts of their own
struct FullD : JacobianFakeBroydenUpdateNewtonDescentDirection<VD> { FullD() { this->setJacobianProvider( std::make_shared< SparseJacobianProvider<VD> >() ); } std::string typeId() const { return "own-ddir"; } };
struct FullP : NewtonIterationPerformerImpl<VD> { std::string typeId() const { return "own-itperf"; } FullP() { this->setErrorEstimator( std::make_shared< SimpleErrorEstimator<VD> >() ); this->setNewtonDescentDirection( std::make_shared<FullD>() ); } };
struct FullJ : DefaultJacobianProvider<VD> { std::string typeId() const { return "own-jacobian"; } FullJ() { this->setJacobianTrimmer( std::make_shared< JacobianThresholdBasedTrimmer<VD> >() ); } };
bool registered = [] { Factory<P>::registerType( "own-itperf", [] { return std::make_shared<FullP>(); } ); Factory<DD>::registerType( "own-ddir", [] { return std::make_shared<FullD>(); } ); Factory<J>::registerType( "own-jacobian", [] { return std::make_shared<FullJ>(); } ); return true; }();
template<class X> std::shared_ptr<X> up( std::shared_ptr<X> x ) { return x; }
// What the solver is expected to have at a place: a certain object, or a new one of a certain type (settled when it is seen)
template<class X> struct Slot { std::shared_ptr<X> obj; bool fresh = false; std::string type; void is( const std::shared_ptr<X>& o ) { obj = o; fresh = false; } void isNew( const std::string& t ) { if( t.empty() ) is( nullptr ); else { fresh = true; type = t; } } };
struct Slots { Slot<P> p; std::shared_ptr<Map> m; Slot<E> e; Slot<DD> d; Slot<J> j; Slot<T> t; Slot<L> l; Slot<R> r; unsigned limit; };
Slots slots( const NS& ns ) { Slots s; s.p.obj = ns.iterationPerformer(); s.m = s.p.obj->mapping(); s.e.obj = s.p.obj->errorEstimator(); s.d.obj = s.p.obj->newtonDescentDirection(); if( s.d.obj ) s.j.obj = s.d.obj->jacobianProvider(); if( s.j.obj ) s.t.obj = s.j.obj->jacobianTrimmer(); s.l.obj = s.p.obj->newtonLinearSearch(); s.r.obj = ns.regularizationStrategy(); s.limit = ns.iterationCountLimit(); return s; }
template<class X> void settle( Slot<X>& w, const Slot<X>& s, const char *what, const std::string& hist, const Params& p ) {
    if( w.fresh ) { MC_CHECK( s.obj && s.obj != w.obj && typeid(*s.obj) == typeid(*Factory<X>::newInstance( w.type )), std::string(what)+"-type", hist << ": the part " << what << " is not a new one of type " << w.type ); w.is( s.obj ); }
    MC_CHECK( s.obj == w.obj, what, hist << ": the part " << what << " is " << (s.obj ? "not the one expected" : "lost") );
    std::string shown = p.at( what ).value<std::string>(), id = TypeIdGetter<X>::typeId( w.obj );
    MC_CHECK( shown == id, std::string(what)+"-shown", hist << ": the parameter " << what << " shows " << shown << " instead of " << id );
    }
void check( const NS& ns, Slots& w, const std::string& hist ) {
    Slots s = slots( ns ); Params p = ns.parameters();
    settle( w.p, s.p, "itperf", hist, p ); settle( w.e, s.e, "err", hist, p ); settle( w.d, s.d, "ddir", hist, p ); settle( w.j, s.j, "jacobian", hist, p ); settle( w.t, s.t, "jtrim", hist, p ); settle( w.l, s.l, "linsearch", hist, p ); settle( w.r, s.r, "regularizer", hist, p );
    MC_CHECK( s.limit == w.limit && p.at("max_iterations").value<unsigned>() == w.limit, "limit", hist << ": the iteration limit is " << s.limit << " instead of " << w.limit );
    MC_CHECK( s.m == w.m, "problem", hist << ": the iteration performer works on another problem" );
    MC_CHECK( s.d.obj->mapping() == w.m, "link-direction", hist << ": the descent direction works on another problem than the iterations" );
    MC_CHECK( s.l.obj->mapping() == w.m, "link-search", hist << ": the line search works on another problem than the iterations" );
    MC_CHECK( s.j.obj->mapping() == w.m, "link-jacobian", hist << ": the Jacobian provider works on another problem than the iterations" );
    MC_CHECK( !s.t.obj || s.t.obj->mapping() == w.m, "link-trimmer", hist << ": the Jacobian trimmer works on another problem than the iterations" );
    if( s.r.obj ) {
        MC_CHECK( s.r.obj->errorEstimator() == w.e.obj, "link-regularizer-estimator", hist << ": the regularization strategy asks another error estimator than the iterations" );
        MC_CHECK( s.r.obj->newtonDescentDirection() == w.d.obj, "link-regularizer-direction", hist << ": the regularization strategy works with another descent direction than the iterations" );
        }
    mc::step();
    }
struct Kit {
    std::vector< std::shared_ptr<P> > p; std::vector< std::shared_ptr<E> > e; std::vector< std::shared_ptr<DD> > d; std::vector< std::shared_ptr<J> > j; std::vector< std::shared_ptr<T> > t; std::vector< std::shared_ptr<L> > l; std::vector< std::shared_ptr<R> > r; std::vector< std::shared_ptr<FnMap> > m; std::vector<D> root;
    Kit( NS& ns ) {
        m = { std::make_shared<FnMap>( 1, []( const D& x ) { return D{ 2*x[0]-6 }; } ), std::make_shared<FnMap>( 2, []( const D& x ) { return D{ x[0]+x[1]-5, x[0]-2*x[1]+1 }; } ) }; root = { D{3}, D{3,2} };
        ns.setComponent( up<Map>( m[0] ) ); Slots s = slots( ns );
        p = { s.p.obj, std::make_shared< NewtonIterationPerformerImpl<VD> >(), std::make_shared<FullP>() };
        e = { s.e.obj, std::make_shared< SimpleErrorEstimator<VD> >() };
        d = { s.d.obj, ddir( BROYDEN ), p[2]->newtonDescentDirection() };
        j = { s.j.obj, std::make_shared<FullJ>() };
        t = { std::make_shared< JacobianThresholdBasedTrimmer<VD> >(), nullptr };
        l = { s.l.obj, std::make_shared< SimpleNewtonLinearSearch<VD> >() };
        r = { std::make_shared<Reg>(), nullptr };
        }
    };
enum { COMPONENT, OPTION, ALL, NWAYS };
// A part is given to the solver as an object, by its name, or by its name among all parameters of the solver.
void give( NS& ns, const char *name, const std::string& type, int way ) { Params p; if( way == ALL ) p = ns.parameters(); p[name] = Value( type ); ns.setParameters( p ); }
template<class X> std::string id( const Slot<X>& s ) { return TypeIdGetter<X>::typeId( s.obj ); }
// all parts are made anew, with the types they have, except the one with index a
void allAnew( Slots& w, const Slots& o, int a, const std::string& type ) {
    w.p.is( o.p.obj ); w.e.is( o.e.obj ); w.d.is( o.d.obj ); w.j.is( o.j.obj ); w.t.is( o.t.obj ); w.l.is( o.l.obj ); w.r.is( o.r.obj );
    w.p.isNew( a==0 ? type : id(o.p) ); w.e.isNew( a==1 ? type : id(o.e) ); w.d.isNew( a==2 ? type : id(o.d) ); w.j.isNew( a==3 ? type : id(o.j) ); w.t.isNew( a==4 ? type : id(o.t) ); w.l.isNew( a==5 ? type : id(o.l) ); w.r.isNew( a==6 ? type : id(o.r) );
    }
void op( NS& ns, Kit& k, Slots& w, std::string& hist ) {
    int a = mc::choose( 9, "part" );
    static const char *nm[] = { "itperf","err","ddir","jacobian","jtrim","linsearch","regularizer","problem","limit" };
    static const char *types[7][3] = { { "default","own-itperf","" }, { "simple","" }, { "simple","broyden","own-ddir" }, { "sparse","own-jacobian" }, { "threshold","" }, { "simple" }, { "stand-in","" } };
    static const int nobj[] = {3,2,3,2,2,2,2,2,2}, ntypes[] = {2,1,3,2,2,1,2};
    int way = a < 7 ? mc::choose( NWAYS, "way" ) : 0; static const char *ways[] = { "", "by name ", "among all parameters " };
    int i = mc::choose( way ? ntypes[a] : nobj[a], "which" ); std::string type = way ? types[a][i] : "";
    hist += std::string(", ") + nm[a] + " " + ways[way] + (way ? type : std::to_string(i)); MC_LOG( nm[a] << " " << ways[way] << (way ? type : std::to_string(i)) ); Slots o = w;
    if( way ) {
        give( ns, nm[a], type, way );
        if( way == ALL ) allAnew( w, o, a, type );
        else switch( a ) {
            case 0: w.p.isNew( type ); if( i == 1 ) { w.e.isNew( "simple" ); w.d.isNew( "own-ddir" ); w.j.isNew( "sparse" ); w.t.is( nullptr ); } break;
            case 1: w.e.isNew( type ); break;
            case 2: w.d.isNew( type ); if( i == 2 ) { w.j.isNew( "sparse" ); w.t.is( nullptr ); } break;
            case 3: w.j.isNew( type ); if( i == 1 ) w.t.isNew( "threshold" ); else w.t.is( nullptr ); break;
            case 4: w.t.isNew( type ); break;
            case 5: w.l.isNew( type ); break;
            default: w.r.isNew( type ); }
        }
    else switch( a ) {
        case 0: { auto x = k.p[i]; auto pm = x->mapping(); auto pe = x->errorEstimator(); auto pd = x->newtonDescentDirection(); auto pl = x->newtonLinearSearch(); ns.setComponent( x );
            w.p.is( x ); if( pm ) w.m = pm; if( pe ) w.e.is( pe ); if( pl ) w.l.is( pl ); if( pd ) { w.d.is( pd ); w.j.is( pd->jacobianProvider() ); w.t.is( w.j.obj->jacobianTrimmer() ); } } break;
        case 1: ns.setComponent( k.e[i] ); w.e.is( k.e[i] ); break;
        case 2: { auto own = k.d[i]->jacobianProvider(); ns.setComponent( k.d[i] ); w.d.is( k.d[i] ); if( own ) { w.j.is( own ); w.t.is( own->jacobianTrimmer() ); } } break;
        case 3: { auto own = k.j[i]->jacobianTrimmer(); ns.setComponent( k.j[i] ); w.j.is( k.j[i] ); w.t.is( own ); } break;
        case 4: ns.setComponent( k.t[i] ); w.t.is( k.t[i] ); break;
        case 5: ns.setComponent( k.l[i] ); w.l.is( k.l[i] ); break;
        case 6: ns.setComponent( k.r[i] ); w.r.is( k.r[i] ); break;
        case 7: ns.setComponent( up<Map>( k.m[i] ) ); w.m = k.m[i]; break;
        default: { unsigned n = i ? 40 : 25; if( mc::flip() ) ns.setIterationCountLimit( n ); else { Params p; p["max_iterations"] = Value( n ); ns.setParameters( p ); } w.limit = n; } }
    mc::outcome( std::string(nm[a]) + " " + ways[way] );
    }
void solve( NS& ns, Kit& k, const std::string& hist ) {
    unsigned which = ns.iterationPerformer()->mapping() == k.m[1]; for( auto& m : k.m ) m->evals = 0;
    ns.setInitialGuess( mk( D( which+1, 1. ) ) ); auto st = ns.run(); D x = rd( ns.currentSolution() );
    MC_CHECK( st == NS::Converged && close( x, k.root[which], 1e-5 ), "solution", hist << ": solving a linear problem with root " << str(k.root[which]) << " gives " << str(x) << ", status " << (int)st );
    MC_CHECK( k.m[1-which]->evals == 0 && k.m[which]->evals > 0, "evaluated", hist << ": another problem than the one set is evaluated" );
    mc::step();
    }
void history( int n, bool runs ) {
    NS ns; Kit k( ns ); Slots w = slots( ns ); std::string hist = "solver"; check( ns, w, hist );
    for( int i=0; i<n; ++i ) { op( ns, k, w, hist ); check( ns, w, hist ); if( runs ) solve( ns, k, hist ); }
    if( !runs ) solve( ns, k, hist );
    mc::Hash h; h.s( id(w.p) ).s( id(w.e) ).s( id(w.d) ).s( id(w.j) ).s( id(w.t) ).s( id(w.l) ).s( id(w.r) ).u( w.m == k.m[0] ); mc::state( h );
    }
}
MC_SCENARIO( histories, "all histories of 3 (thorough 4) settings of a part of a Newton solver: 7 kinds of parts (2 or 3 candidates each, with and without parts of their own, used before or not) as component, as single option or among all options, 2 problems, iteration limit; then a solve" ) { history( mc::tier(3,4), false ); }
MC_SCENARIO( solving, "all histories of 2 (thorough 3) such settings with a solve after each of them" ) { history( mc::tier(2,3), true ); }
