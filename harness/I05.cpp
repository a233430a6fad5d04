// I05: help on the options of a configuration.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl ros extr impl out models
#include "cfgmodel.h"
namespace mc { const char *assumptions[] = {
    "the wording of help texts is not judged: only that they are there, belong to the part in use, and list what can be chosen",
    "settings that are rejected are only made in the scenario 'rejected'", nullptr }; }
namespace {
const std::string None = "No help is available";
std::vector<std::string> lines( const std::string& s ) { std::vector<std::string> r(1); for( char c : s ) if( c=='\n' ) r.push_back(""); else r.back() += c; return r; }
// the choices at the end of the help on a part: (name, marked as the current one)
typedef std::vector<std::pair<std::string,bool>> Choices;
bool choices( const std::string& help, Choices& out ) {
    auto ls = lines(help); out.clear();
    if( ls.back() == "There are no implementations available." ) return true;
    size_t i = ls.size(); while( i > 0 && ls[i-1] != "The following implementations are available:" ) --i;
    if( i == 0 ) return false;
    for( ; i<ls.size(); ++i ) { if( ls[i].compare(0,2,"* ") && ls[i].compare(0,2,"  ") ) return false; out.push_back( { ls[i].substr(2), ls[i][0]=='*' } ); }
    return !out.empty();
    }
// what the type itself says
struct TypeHelp { std::string onType; Params onParams; };
template<class I> TypeHelp th( const std::string& t ) { TypeHelp r; if( t.empty() ) return r; auto o = Factory<I>::newInstance(t); if( auto op = dynamic_cast<OP*>( o.get() ) ) { r.onType = op->helpOnType(); r.onParams = op->helpOnParameters(); } return r; }
TypeHelp typeHelp( const std::string& n, const std::string& t ) {
    if( n=="rhs" ) return th<OdeRhs<VD>>(t); if( n=="solver" || n=="reference_solver" || n=="predictor" ) return th<OdeSolver<VD>>(t);
    if( n.compare(0,7,"output_")==0 ) return th<OdeSolverOutputOption<VD>>(t); if( n=="init_state" ) return th<OdeInitState<VD>>(t);
    if( n=="eventctl" ) return th<OdeEventController<VD>>(t); if( n=="enorm" ) return th<ErrorNormCalculator<VD>>(t); if( n=="stepsizectl" ) return th<OdeStepSizeController<VD>>(t);
    if( n=="algsolver" ) return th<NewtonSolverInterface<VD>>(t); if( n=="ddir" ) return th<NewtonDescentDirection<VD>>(t); if( n=="err" ) return th<ErrorEstimator<VD>>(t); if( n=="itperf" ) return th<NewtonIterationPerformer<VD>>(t);
    if( n=="jacobian" ) return th<JacobianProvider<VD>>(t); if( n=="jtrim" ) return th<JacobianTrimmer<VD>>(t); if( n=="linsearch" ) return th<NewtonLinearSearch<VD>>(t); if( n=="regularizer" ) return th<NewtonRegularizationStrategy<VD>>(t);
    if( n=="reorder" ) return th<VectorReorderingMapping<VD>>(t); if( n=="step_sequence" ) return th<ExtrapolatorStepSequence>(t);
    mc::broken( "unknown part " + n ); return TypeHelp();
    }
// parts every solver offers, and options every solver has
bool common( const std::string& n ) { return n=="h_init" || n=="h_min" || n=="eventctl" || n=="enorm" || n=="stepsizectl"; }
const Value *at( const Params& ps, const std::string& n ) { auto it = ps.find(n); return it == ps.end() ? nullptr : &it->second; }
void walk( Cfg& c, const Params& ps, const std::string& pre, const Params *own, uint64_t& covered ) {
    for( auto& x : ps ) {
        std::string p = pre + x.first, cur = x.second.value<std::string>(); bool comp = isComp( x.second );
        std::string help = c.helpOnValue( p ), help2 = c.helpOnValue( split(p) );
        MC_CHECK( help == help2, "two-paths", "help on " + p + " depends on how the path is given" );
        MC_CHECK( !help.empty(), "empty", "help on " + p + " is empty" );
        if( help == None ) { 
            MC_CHECK( !comp, "part-without-help", "no help on the part " + p + ": what can be chosen is not said" );
            MC_CHECK( !common( x.first ), "common-without-help", "no help on the option " + p + " that all solvers have" );
            MC_CHECK( !own || !at(*own,x.first) || at(*own,x.first)->value<std::string>().empty(), "lost", "the help on " + p + " given by the part in use is not shown" );
            continue;
            }
        covered++;
        if( comp ) {
            Choices ch; MC_CHECK( choices( help, ch ), "no-choices", "help on the part " + p + " does not end with the list of choices: " + help );
            auto types = x.second.typeRegistryGetter()();
            std::vector<std::string> got; for( auto& y : ch ) got.push_back( y.first );
            MC_CHECK( got == types, "choices", "help on " + p + " lists " + std::to_string(got.size()) + " choices, not the " + std::to_string(types.size()) + " that can be set: " + help );
            for( auto& y : ch ) MC_CHECK( y.second == (y.first == cur), "marked", "help on " + p + ": choice " + y.first + (y.second ? " is marked" : " is not marked") + " as current, but " + (cur.empty() ? "nothing" : cur) + " is in use" );
            TypeHelp t = typeHelp( x.first, cur );
            size_t at = help.find( "Information on current type(" );
            if( t.onType.empty() ) MC_CHECK( at == std::string::npos, "type-info", "help on " + p + " describes a type, but " + cur + " has no description" );
            else MC_CHECK( at != std::string::npos && help.compare( at, 28+cur.size()+2+t.onType.size(), "Information on current type(" + cur + ")\n" + t.onType ) == 0, "type-info", "help on " + p + " does not describe the current type " + cur + ": " + help );
            if( x.second.nestedParameters() ) walk( c, *x.second.nestedParameters(), p + ".", &t.onParams, covered );
            else MC_CHECK( t.onParams.empty(), "help-without-options", p + " has no options but there is help on some" );
            }
        else if( own ) { auto *h = at( *own, x.first ); MC_CHECK( h && h->value<std::string>() == help, "other-help", "help on " + p + " is not what its part says: " + help ); }
        }
    }
// help exists only on options that exist
void only( const Params& help, const Params& ps, const std::string& pre ) {
    for( auto& x : help ) {
        auto *v = at( ps, x.first ); MC_CHECK( v, "help-on-nothing", "there is help on " + pre + x.first + ", which is not an option" );
        if( x.second.nestedParameters() && !x.second.nestedParameters()->empty() ) { MC_CHECK( v->nestedParameters(), "help-on-nothing", "there is help on options of " + pre + x.first + ", which has none" ); only( *x.second.nestedParameters(), *v->nestedParameters(), pre + x.first + "." ); }
        }
    }
uint64_t look( Sys& s ) {
    mc::step(); auto before = flat( treeOf( s.c.parameters() ) ); uint64_t n = 0;
    walk( s.c, s.c.parameters(), "", nullptr, n );
    auto pp = s.c.ComponentConfiguration::parameterProvider(); only( pp->helpOnParameters(), pp->parameters(), "" );
    MC_CHECK( flat( treeOf( s.c.parameters() ) ) == before, "changed", "asking for help has changed the options" );
    compare( s.c, s.t, "changed" );
    return n;
    }
// one-step settings of the tree, valid ones only
std::vector<Act> valid( const Tree& t, bool full, const std::string& under ) { std::vector<Act> r; for( auto& a : actions( t, full, under ) ) { Tree u = t; if( modelSet( u, a.path, a.v ) ) r.push_back(a); } return r; }
void start( Sys& s ) {
    int g = mc::choose( 4 );
    if( g == 0 ) s.set( "solver", mc::pick( solvers() ), false );
    else if( g == 1 ) s.set( "rhs", mc::pick( Factory<OdeRhs<VD>>::registeredTypes() ), false );
    else if( g == 2 ) s.set( mc::pick( std::vector<std::string>{"output_stats","output_con","output_file"} ), mc::pick( Factory<OdeSolverOutputOption<VD>>::registeredTypes() ), false );
    else if( mc::flip() ) { s.set( "init_state", "specified", false ); s.set( "init_state.size", "2", false ); } else s.set( "reference_solver", mc::pick( solvers() ), false );
    }
MC_SCENARIO( current, "each solver, system, output, initial state and reference solver configured, then every valid value of every option below set (including nothing, for parts); help on all options compared with what the parts in use say, before and after" ) {
    Sys s; start(s); look(s);
    std::vector<Act> as; for( auto& a : valid( s.t, true, "" ) ) { Node *n = find( s.t, a.path ); if( n->comp || mc::thorough() ) as.push_back(a); }
    auto a = as[mc::choose( as.size() )]; s.set( a.path, a.v, false ); uint64_t n = look(s);
    mc::state( s.key() ); mc::outcome( n > 20 ? "many" : "some" );
    }
MC_SCENARIO( sequences, "for each solver: every sequence of 2 (quick) / 3 (thorough) replacements of its parts and of itself, help asked after each, or only at the end" ) {
    Sys s; s.set( "solver", mc::pick( solvers() ), false ); bool each = mc::flip();
    for( int i=0, n=mc::tier(2,3); i<n; ++i ) {
        std::vector<Act> as; for( auto& a : valid( s.t, false, "solver" ) ) { if( find( s.t, a.path )->comp ) as.push_back(a); }
        auto a = as[mc::choose( as.size() )]; s.set( a.path, a.v, false ); if( each ) look(s);
        }
    look(s); mc::state( s.key() );
    }
MC_SCENARIO( rejected, "for each solver: every invalid setting of its options and parts and 7 malformed paths between two requests for help, which give the same" ) {
    Sys s; s.set( "solver", mc::pick( solvers() ), false );
    std::vector<Act> as; for( auto& a : actions( s.t, true, "solver" ) ) { Tree u = s.t; if( !modelSet( u, a.path, a.v ) ) as.push_back(a); }
    auto a = as[mc::choose( as.size() )];
    std::map<std::string,std::string> h1, h2; for( auto& x : flat(s.t) ) h1[x.first] = s.c.helpOnValue( x.first );
    s.set( a.path, a.v, false );
    for( auto& x : flat(s.t) ) h2[x.first] = s.c.helpOnValue( x.first );
    MC_CHECK( h1 == h2, "after-rejected", "help has changed after a rejected setting" );
    look(s);
    }
MC_SCENARIO( unknown, "for each solver: every path of 1 to 3 items out of option names, types, other names and the empty item that is not the path of an option: there is no help on it, and nothing is thrown or changed" ) {
    Sys s; s.set( "solver", mc::pick( solvers() ), false );
    static const std::vector<std::string> items = { "", "solver", "rhs", "h_init", "eventctl", "linear", "time", "nosuch", "value", "Solver", "solver " };
    std::vector<std::string> path; int n = 1 + mc::choose(3); for( int i=0; i<n; ++i ) path.push_back( mc::pick(items) );
    std::string text; for( auto& x : path ) text += (&x == &path[0] ? "" : ".") + x;
    if( flat(s.t).count(text) ) mc::prune();
    std::string r1, r2, r3; std::string w = h::whatOf( [&] { r1 = s.c.helpOnValue( text ); r2 = s.c.helpOnValue( path ); r3 = s.c.helpOnValue( std::vector<std::string>() ); } );
    MC_LOG( "help on '" << text << "': " << r1 << w );
    MC_CHECK( w.empty(), "throws", "asking for help on '" + text + "' throws: " + w );
    MC_CHECK( r1 == None && r2 == None && r3 == None, "help-on-nothing", "there is help on '" + text + "': " + r1 );
    compare( s.c, s.t, "changed" );
    }
// parts that are put in by the program
struct MyRhs : OdeRhs<VD> { unsigned secondOrderVarCount() const { return 0; } unsigned firstOrderVarCount() const { return 1; } V initialState() const { return V(1); } void rhs( V& f, double, const V& ) const { f = V(1); } };

MC_SCENARIO( direct, "help texts of a part held by a program, for each value of: nothing, each registered type, a type without registration; with and without an introduction" ) {
    auto types = Factory<OdeRhs<VD>>::registeredTypes(); std::shared_ptr<OdeRhs<VD>> p; std::string cur; int i = mc::choose( types.size()+2 ); if( i == 1 ) p = std::make_shared<MyRhs>(); else if( i > 1 ) { cur = types[i-2]; p = Factory<OdeRhs<VD>>::newInstance( cur ); }
    std::string intro = mc::pick( std::vector<std::string>{"","An introduction","Two\nlines"} );
    Value v = OP::appendNestedHelp( p, intro ); std::string text = v.value<std::string>();
    Choices ch; MC_CHECK( choices( text, ch ), "no-choices", "no list of choices: " + text );
    std::vector<std::string> got; for( auto& y : ch ) { got.push_back( y.first ); MC_CHECK( y.second == (!cur.empty() && y.first == cur), "marked", "wrong mark at " + y.first ); }
    MC_CHECK( got == types, "choices", "the choices listed are not those registered: " + text );
    MC_CHECK( text.compare( 0, intro.size(), intro ) == 0, "intro", "the introduction is missing: " + text );
    auto *op = dynamic_cast<OP*>( p.get() ); Params want = op ? op->helpOnParameters() : Params();
    const Params *np = v.nestedParameters(); MC_CHECK( (np ? np->size() : 0) == want.size(), "nested", "help on the options of the part is missing" );
    for( auto& x : want ) MC_CHECK( at(*np,x.first) && at(*np,x.first)->value<std::string>() == x.second.value<std::string>(), "nested", "help on option " + x.first + " of the part is missing" );
    mc::outcome( cur );
    }
}
