// cfgmodel.h - the options of a configuration as a tree of texts, and what setting one does
#pragma once
#include "hutil.h"
#include <map>
#include <set>
#include "ode_num_int/OdeSolverConfiguration.h"
#include "ode_num_int/OdeEventController.h"
#include "ode_num_int/OdeStepSizeController.h"
#include "ode_num_int/ErrorNormCalculator.h"
#include "ode_num_int/NewtonSolverInterface.h"
#include "ode_num_int/ExtrapolatorStepSequence.h"
#include "ode_num_int/OdeInitState.h"
namespace {
using namespace ctm; using namespace ctm::math; using h::VD; using h::V; using h::D;
typedef OptionalParameters OP; typedef OP::Parameters Params; typedef OP::Value Value;

// --- the model: a tree of texts
struct Node { std::string text; bool comp = false; std::map<std::string,Node> kids; };
typedef std::map<std::string,Node> Tree;
bool isComp( const Value& v ) { return (bool)v.typeRegistryGetter(); }
Tree treeOf( const Params& ps ) { Tree t; for( auto& x : ps ) { Node n; n.text = x.second.value<std::string>(); n.comp = isComp(x.second); if( x.second.nestedParameters() ) n.kids = treeOf( *x.second.nestedParameters() ); t[x.first] = n; } return t; }
void flat( const Tree& t, const std::string& pre, std::map<std::string,std::string>& out ) { for( auto& x : t ) { out[pre+x.first] = x.second.text; flat( x.second.kids, pre+x.first+".", out ); } }
std::map<std::string,std::string> flat( const Tree& t ) { std::map<std::string,std::string> m; flat( t, "", m ); return m; }
Params paramsOf( const Tree& t ) { Params p; for( auto& x : t ) p[x.first] = x.second.comp ? Value( x.second.text, paramsOf( x.second.kids ) ) : Value( x.second.text ); return p; }

enum Kind { REAL, UINT, INT, BOOL, TEXT, MODE, FRIC, COMP, UNKNOWN };
Kind kindOf( const std::string& name ) {
    static const std::map<std::string,Kind> k = {
        {"h_init",REAL},{"h_min",REAL},{"h_after_switch",REAL},{"dec_max_factor",REAL},{"inc_max_factor",REAL},{"inc_min_factor",REAL},{"insurance",REAL},{"max_threshold",REAL},{"tolerance",REAL},
        {"abs_max_threshold",REAL},{"abs_tol",REAL},{"rel_max_threshold",REAL},{"rel_tol",REAL},{"alpha",REAL},{"d",REAL},{"gravity_acceleration",REAL},{"recovery_factor",REAL},{"stick_speed",REAL},
        {"c0",REAL},{"c2",REAL},{"f",REAL},{"c",REAL},{"F1",REAL},{"F2",REAL},{"f0",REAL},{"mass",REAL},{"omega",REAL},{"v0",REAL},{"a",REAL},{"time",REAL},{"output_timing",REAL},{"lower_coeff",REAL},{"upper_coeff",REAL},{"threshold",REAL},{"max_angle",REAL},
        {"max_stages",UINT},{"predictor_steps",UINT},{"n",UINT},{"max_iterations",UINT},{"size_half_lim",UINT},{"max_steps",UINT},{"size",INT},
        {"disable_error_check",BOOL},{"force_error_calc",BOOL},{"symmetric",BOOL},{"smooth",BOOL},
        {"file_name",TEXT},{"simout_basename",TEXT},{"mode",MODE},{"friction",FRIC} };
    auto it = k.find(name); if( it != k.end() ) return it->second;
    return UNKNOWN;
    }
template<class I> std::pair<bool,Tree> fresh( const std::string& t ) {
    if( t.empty() ) return { true, Tree() };
    for( auto& x : Factory<I>::registeredTypes() ) if( x == t ) { auto o = Factory<I>::newInstance(t); auto op = dynamic_cast<OP*>( o.get() ); return { true, op ? treeOf( op->parameters() ) : Tree() }; }
    return { false, Tree() };
    }
// the parts a name can stand for
struct CompKind { std::function<std::pair<bool,Tree>(const std::string&)> make; std::function<std::vector<std::string>()> types; };
template<class I> CompKind ck() { return { fresh<I>, [] { return Factory<I>::registeredTypes(); } }; }
const std::map<std::string,CompKind>& comps() {
    static const std::map<std::string,CompKind> m = {
        {"rhs",ck<OdeRhs<VD>>()},{"solver",ck<OdeSolver<VD>>()},{"reference_solver",ck<OdeSolver<VD>>()},{"predictor",ck<OdeSolver<VD>>()},
        {"output_stats",ck<OdeSolverOutputOption<VD>>()},{"output_con",ck<OdeSolverOutputOption<VD>>()},{"output_file",ck<OdeSolverOutputOption<VD>>()},{"init_state",ck<OdeInitState<VD>>()},
        {"eventctl",ck<OdeEventController<VD>>()},{"enorm",ck<ErrorNormCalculator<VD>>()},{"stepsizectl",ck<OdeStepSizeController<VD>>()},{"algsolver",ck<NewtonSolverInterface<VD>>()},
        {"ddir",ck<NewtonDescentDirection<VD>>()},{"err",ck<ErrorEstimator<VD>>()},{"itperf",ck<NewtonIterationPerformer<VD>>()},{"jacobian",ck<JacobianProvider<VD>>()},{"jtrim",ck<JacobianTrimmer<VD>>()},
        {"linsearch",ck<NewtonLinearSearch<VD>>()},{"regularizer",ck<NewtonRegularizationStrategy<VD>>()},{"reorder",ck<VectorReorderingMapping<VD>>()},{"step_sequence",ck<ExtrapolatorStepSequence>()} };
    return m;
    }
bool mandatory( const std::string& n ) { return n=="itperf" || n=="ddir" || n=="jacobian" || n=="linsearch" || n=="err" || n=="algsolver"; }

std::vector<std::string> split( const std::string& p ) { std::vector<std::string> r(1); for( char c : p ) if( c=='.' ) r.push_back(""); else r.back() += c; return r; }
Node *find( Tree& t, const std::string& path, Tree **parent = nullptr ) {
    Tree *cur = &t; Node *n = nullptr;
    for( auto& s : split(path) ) { if( parent ) *parent = cur; auto it = cur->find(s); if( it == cur->end() ) return nullptr; n = &it->second; cur = &n->kids; }
    return n;
    }
std::string last( const std::string& p ) { return split(p).back(); }
std::string canon( double x ) { return Value(x).value<std::string>(); }
bool num( const std::string& s, double& x ) { if( s.empty() ) return false; char *e; x = strtod( s.c_str(), &e ); return *e == 0 && std::isfinite(x) && s.find_first_of("xXnN ") == std::string::npos; }
bool integer( const std::string& s, long long& x ) { if( s.empty() ) return false; char *e; x = strtoll( s.c_str(), &e, 10 ); return *e == 0; }
// what setting an option does; false: rejected
bool modelSet( Tree& t, const std::string& path, const std::string& v ) {
    if( path.empty() ) return false;
    Tree *parent = nullptr;
    Node *n = find( t, path, &parent ); if( !n ) return false;
    std::string name = last(path);
    if( n->comp ) { auto r = comps().at(name).make(v); if( !r.first ) return false; n->text = v; n->kids = r.second; return true; }
    double x; long long k;
    switch( name.size()>1 && name[0]=='x' && isdigit(name[1]) ? REAL : kindOf(name) ) {
        case REAL: if( !num(v,x) ) return false; n->text = canon(x); return true;
        case UINT: if( !integer(v,k) || k<0 || k>0xffffffffLL ) return false; n->text = std::to_string(k); return true;
        case INT:  if( !integer(v,k) || k<0 || k>0x7fffffffLL ) return false;
            {   // the size of an initial state: variables come and go at the end, new ones are zero
                long long k0 = atoll( n->text.c_str() ); n->text = std::to_string(k);
                for( long long i=k; i<k0; ++i ) parent->erase( "x"+std::to_string(i) );
                for( long long i=k0; i<k; ++i ) (*parent)["x"+std::to_string(i)].text = "0"; }
            return true;
        case BOOL: if( v=="1" || v=="true" ) n->text = "true"; else if( v=="0" || v=="false" ) n->text = "false"; else return false; return true;
        case TEXT: n->text = v; return true;
        case MODE: if( v!="low" && v!="high" ) return false; n->text = v; return true;
        case FRIC: if( v!="atan" && v!="tabular" && v!="linear" ) return false; n->text = v; return true;
        default: mc::broken( "no model for option " + path ); return false;
        }
    }
typedef OdeSolverConfiguration<VD> Cfg;
void compare( Cfg& c, const Tree& t, const char *sig ) {
    auto want = flat(t); auto got = flat( treeOf( c.parameters() ) );
    for( auto& x : want ) { MC_CHECK( got.count(x.first), sig, "option " + x.first + " has disappeared (expected value '" + x.second + "')" ); MC_CHECK( got[x.first] == x.second, sig, "option " + x.first + " is '" + got[x.first] + "' but should be '" + x.second + "'" ); }
    for( auto& x : got ) MC_CHECK( want.count(x.first), sig, "unexpected option " + x.first + " = '" + x.second + "'" );
    // reading single options and groups by their path
    for( auto& x : want ) MC_CHECK( c.value(x.first).value<std::string>() == x.second && c.value( split(x.first) ).value<std::string>() == x.second, "read-path", "reading option " + x.first + " by its path gives another value" );
    }
// the parts in use are those the options name
void parts( Cfg& c, const Tree& t ) {
    auto p = c.parameterProvider();
    auto want = [&]( const char *n ) { return t.at(n).text; };
    MC_CHECK( TypeIdGetter<OdeSolver<VD>>::typeId( p->solver() ) == want("solver"), "part", "the solver in use is not the one named" );
    MC_CHECK( TypeIdGetter<OdeSolver<VD>>::typeId( p->refSolver() ) == want("reference_solver"), "part", "the reference solver in use is not the one named" );
    MC_CHECK( TypeIdGetter<OdeRhs<VD>>::typeId( p->odeRhs() ) == want("rhs"), "part", "the right-hand side in use is not the one named" );
    MC_CHECK( TypeIdGetter<OdeSolverOutputOption<VD>>::typeId( p->statisticsOutput() ) == want("output_stats") && TypeIdGetter<OdeSolverOutputOption<VD>>::typeId( p->stepConsoleOutput() ) == want("output_con") && TypeIdGetter<OdeSolverOutputOption<VD>>::typeId( p->stepFileOutput() ) == want("output_file"), "part", "the outputs in use are not those named" );
    MC_CHECK( TypeIdGetter<OdeInitState<VD>>::typeId( p->initState() ) == want("init_state"), "part", "the initial state in use is not the one named" );
    MC_CHECK( canon( p->odeSolverDuration() ) == want("time") && canon( p->odeSolverOutputTiming() ) == want("output_timing") && p->simoutCustomBaseName() == want("simout_basename"), "part", "duration, output interval or base name in use differ from the options" );
    }
struct Sys { Cfg c; Tree t; Sys() { t = treeOf( c.parameters() ); } 
    void set( const std::string& path, const std::string& v, bool look = true ) {
        mc::step();
        Tree u = t; bool ok = modelSet( u, path, v );
        std::string w = h::whatOf( [&] { c.setValue( path, Value(v) ); } );
        MC_LOG( path << " = '" << v << "' -> " << (w.empty() ? "accepted" : w) );
        if( ok ) { MC_CHECK( w.empty(), "rejected-valid", "setting " + path + " = '" + v + "' is valid but rejected: " + w ); t = u; }
        else MC_CHECK( !w.empty(), "accepted-invalid", "setting " + path + " = '" + v + "' should be rejected" );
        if( look ) compare( c, t, ok ? "after-set" : "after-rejected" );
        }
    uint64_t key() { mc::Hash k; for( auto& x : flat(t) ) { k.s(x.first); k.s(x.second); } return k; }
    };
std::vector<std::string> values( const std::string& name, bool comp, bool full ) {
    if( comp ) { auto v = comps().at(name).types(); if( !full && v.size() > 3 ) v.resize(3); if( !mandatory(name) ) v.push_back(""); v.push_back("nosuch"); return v; }
    switch( name.size()>1 && name[0]=='x' && isdigit(name[1]) ? REAL : kindOf(name) ) {
        case REAL: return full ? std::vector<std::string>{"0.5","1e-3","0.12345678901234567","abc","","1e999"} : std::vector<std::string>{"0.25","abc"};
        case UINT: return full ? std::vector<std::string>{"3","7","4294967295","4294967296","-1","1.5",""} : std::vector<std::string>{"5","-1"};
        case INT: return full ? std::vector<std::string>{"0","1","3","-1","two"} : std::vector<std::string>{"2","-1"};
        case BOOL: return full ? std::vector<std::string>{"true","0","1","false","maybe",""} : std::vector<std::string>{"true","maybe"};
        case TEXT: return {"out.txt",""};
        case MODE: return {"high","low","middle"};
        case FRIC: return {"linear","tabular","atan","none"};
        default: return {};
        }
    }
struct Act { std::string path, v; };
std::vector<Act> actions( const Tree& t, bool full, const std::string& under = "" ) {
    std::vector<Act> r; auto f = flat(t);
    Tree u = t;
    for( auto& x : f ) if( under.empty() || x.first.compare( 0, under.size(), under ) == 0 ) { Node *n = find( u, x.first ); for( auto& v : values( last(x.first), n->comp, full ) ) r.push_back( {x.first,v} ); }
    for( const char *p : { "", "nosuch", "solver.nosuch", "solver.h_init.x", ".", "solver.", "time.x" } ) r.push_back( {p,"1"} );
    return r;
    }
std::vector<std::string> solvers() { return { "euler","rk4","dopri_45","dopri_56","dopri_78","rosenbrock_w1","rosenbrock_sw2_4","gragg","extrapolator","i_euler" }; }

}
