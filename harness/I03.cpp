// I03: setting options of a simulation configuration, and of the solvers and their parts.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl ros extr impl out models
#include "hutil.h"
#include "cfgmodel.h"
namespace mc { const char *assumptions[] = {
    "the mandatory parts of a Newton solver (itperf, ddir, jacobian, linsearch, err) are emptied only in the scenario 'empty'",
    "vector sizes of the specified initial state are at most 4", nullptr }; }
namespace {
// every option of everything, every candidate value
MC_SCENARIO( single, "for each of the 10 solvers, 5 systems, 4 outputs and initial states configured into a configuration: every option of the tree set to every candidate value (valid, invalid, empty), and 7 malformed or unknown paths; all options compared with the model after every setting" ) {
    Sys s; int g = mc::choose( 4 );
    if( g == 0 ) { auto x = mc::pick( solvers() ); s.set( "solver", x ); }
    else if( g == 1 ) s.set( "rhs", mc::pick( Factory<OdeRhs<VD>>::registeredTypes() ) );
    else if( g == 2 ) s.set( mc::pick( std::vector<std::string>{"output_stats","output_con","output_file"} ), mc::pick( Factory<OdeSolverOutputOption<VD>>::registeredTypes() ) );
    else { s.set( "init_state", "specified" ); s.set( "init_state.size", "2" ); }
    auto as = actions( s.t, true, g==0 ? "solver" : g==1 ? "rhs" : g==2 ? "output" : "" );
    auto a = as[mc::choose( as.size() )];
    s.set( a.path, a.v ); parts( s.c, s.t ); mc::state( s.key() );
    }
// every pair of settings: the second one after an accepted or rejected first one
MC_SCENARIO( pairs, "for each solver: every ordered pair of settings of its options and parts (one or two values each: valid and invalid) and of the duration, all options compared with the model" ) {
    Sys s; auto x = mc::pick( solvers() ); if( x != "rk4" ) s.set( "solver", x, false );
    for( int i=0; i<2; ++i ) {
        auto as = actions( s.t, false, "solver." ); for( const char *v : {"0.5","x"} ) as.push_back( {"time",v} );
        for( const char *v : {"euler","nosuch"} ) as.push_back( {"solver",v} );
        auto a = as[mc::choose( as.size() )]; s.set( a.path, a.v, i==1 || mc::thorough() );
        }
    parts( s.c, s.t ); mc::state( s.key() );
    }
MC_SCENARIO( top, "every sequence of 3 (quick) / 4 (thorough) settings of the top-level options and initial state (2-4 values each), compared with the model after each" ) {
    Sys s; std::vector<Act> as = { {"rhs","oscillator"},{"rhs","nosuch"},{"rhs",""},{"rhs.c","7"},{"rhs.f","zero"},{"solver",""},{"solver","euler"},{"solver.h_init","0.5"},{"time","2"},{"time","x"},{"output_stats","stats_full"},{"output_stats.file_name","a"},{"output_con","con_solution"},{"init_state","specified"},{"init_state.size","2"},{"init_state.size","1"},{"init_state.x1","4"},{"init_state.size","-1"},{"init_state",""},{"reference_solver","dopri_45"},{"reference_solver.mode","high"},{"reference_solver.mode","no"} };
    int n = mc::tier(3,4); for( int i=0; i<n; ++i ) { auto a = mc::pick(as); s.set( a.path, a.v ); }
    parts( s.c, s.t ); mc::state( s.key() );
    }
MC_SCENARIO_T( triples, "for each solver: every sequence of 3 settings of its options and parts (one or two values each), all options compared with the model at the end", 2 ) {
    Sys s; auto x = mc::pick( solvers() ); if( x != "rk4" ) s.set( "solver", x, false );
    for( int i=0; i<3; ++i ) { auto as = actions( s.t, false, "solver." ); if( as.size() > 60 ) as.resize(60); auto a = as[mc::choose( as.size() )]; s.set( a.path, a.v, i==2 ); }
   
    }
// a part that was replaced takes its options with it
MC_SCENARIO( replaced, "for each part option of each solver and each pair of its types: set an option of the first type, switch to the second and back, and to the same type again; all options compared with the model, two configurations at a time" ) {
    Sys s, other; auto x = mc::pick( solvers() ); s.set( "solver", x, false );
    std::vector<std::string> cs; for( auto& p : flat(s.t) ) if( p.first.find('.') != std::string::npos || p.first == "solver" || p.first == "rhs" ) { if( find(s.t,p.first)->comp && p.first.find("init_state") ) cs.push_back( p.first ); }
    auto p = cs[mc::choose( cs.size() )]; if( (p == "solver" || p == "rhs") && x != "rk4" ) mc::prune(); auto types = comps().at( last(p) ).types(); if( types.empty() ) mc::prune();
    auto t1 = mc::pick( types ); auto t2 = mc::pick( types );
    s.set( p, t1, false );
    auto kids = find( s.t, p )->kids; std::vector<Act> as = {{"",""}}; for( auto& k : kids ) { auto v = values( k.first, k.second.comp, false ); if( !v.empty() ) as.push_back( {p+"."+k.first,v[0]} ); }
    auto a = as[mc::choose( as.size() )]; if( !a.path.empty() ) s.set( a.path, a.v );
    s.set( p, t2 ); s.set( p, t1 );
    compare( other.c, other.t, "other-configuration" );
    }
// configuring in steps and in one go gives the same behaviour, bit for bit
D run( Cfg& c, int steps, std::string& err ) {
    D r; auto p = c.parameterProvider(); unsigned n = p->odeRhs()->varCount(); V x0(n); for( unsigned i=0; i<n; ++i ) x0[i] = 0.25 + 0.125*i;
    err = h::whatOf( [&] { auto k = c.apply( std::set<unsigned>(), 0.5, x0 ); auto s = k.solver(); for( int i=0; i<steps; ++i ) { s->doStep(); r.push_back( s->initialTime() ); for( double v : h::rd( s->initialState() ) ) r.push_back( v ); } } );
    return r;
    }
MC_SCENARIO( behaviour, "for each solver on 2 systems: every pair of valid settings of its options and parts applied one by one; the trajectory of 3 steps compared bit for bit with a configuration that gets all values at once, and with one that additionally made rejected settings" ) {
    Sys s; std::string rhs = mc::pick( std::vector<std::string>{"oscillator","stiff_1d"} ); s.set( "rhs", rhs, false );
    auto x = mc::pick( solvers() ); s.set( "solver", x, false );
    if( x == "extrapolator" ) { s.set( "solver.reference_solver", "euler", false ); s.set( "solver.step_sequence", "romberg", false ); }
    std::vector<Act> all = actions( s.t, false, "solver." ), as; for( auto& a : all ) { Tree u = s.t; if( a.path.find('.') == std::string::npos ) continue; if( !modelSet( u, a.path, a.v ) ) continue; 
        if( a.v.empty() || last(a.path)=="h_min" || last(a.path)=="predictor_steps" || last(a.path)=="max_iterations" || last(a.path)=="max_stages" ) continue; as.push_back(a); }
    as.push_back( {"solver.h_init","0.0078125"} );
    bool bad = mc::flip();
    int i = mc::choose( as.size() ), j = mc::choose( as.size() ); if( bad && j != (i+1) % (int)as.size() ) mc::prune();
    if( bad ) { s.set( as[i].path, "?", false ); s.set( "solver", "nosuch", false ); }
    s.set( as[i].path, as[i].v, false );
    if( bad ) s.set( as[i].path, "?", false );
    { Tree u = s.t; if( modelSet( u, as[j].path, as[j].v ) ) s.set( as[j].path, as[j].v, false ); }
    Cfg once; std::const_pointer_cast<OP>( std::shared_ptr<const OP>( static_cast<ComponentConfiguration&>(once).parameterProvider() ) )->setParameters( paramsOf( s.t ) );
    std::string e1, e2; D a = run( s.c, 3, e1 ), b = run( once, 3, e2 );
    MC_LOG( "steps: " << h::str(a) << " " << e1 << "\nonce:  " << h::str(b) << " " << e2 );
    MC_CHECK( h::same(a,b) && e1 == e2, "behaviour", "the solver configured in steps behaves differently: " + h::str(a) + " " + e1 + " instead of " + h::str(b) + " " + e2 );
    mc::state( h::hashOf(a) ); mc::outcome( e1.empty() ? "ran" : "error" );
    }
// mandatory parts may be left out without a crash; a run then fails with an exception
MC_SCENARIO( empty, "for each solver, each part option (and each pair of them) set to nothing, read back, and 2 steps made: either they work or an exception says what is missing; then the part is put back" ) {
    Sys s; s.set( "rhs", "oscillator", false ); auto x = mc::pick( solvers() ); s.set( "solver", x, false );
    std::vector<std::string> cs; for( auto& p : flat(s.t) ) if( p.first.compare(0,7,"solver.")==0 && find(s.t,p.first)->comp ) cs.push_back( p.first );
    cs.push_back( "solver" ); cs.push_back( "rhs" );
    int i = mc::choose( cs.size() ), j = mc::choose( cs.size() ); if( j < i ) mc::prune();
    std::string old = s.c.value( cs[i] ).value<std::string>();
    for( int k : { i, j } ) {
        std::string w = h::whatOf( [&] { s.c.setValue( cs[k], Value("") ); } ); MC_LOG( cs[k] << " = '' " << w );
        if( w.empty() ) MC_CHECK( s.c.value( cs[k] ).value<std::string>().empty(), "empty", cs[k] + " was set to nothing but reads '" + s.c.value( cs[k] ).value<std::string>() + "'" );
        else if( k == i ) MC_CHECK( s.c.value( cs[k] ).value<std::string>() == old, "empty-rejected", cs[k] + " was rejected but has changed" );
        }
    std::string w = h::whatOf( [&] { V x0(2); x0[0] = 1; auto k = s.c.apply( std::set<unsigned>(), 0, x0 ); for( int i=0; i<2; ++i ) { if( !k.solver()->odeRhs() ) break; k.solver()->doStep(); } } );
    MC_LOG( "run: " << w );
    mc::outcome( w.empty() ? "ran" : w.substr(0,60) );
    }
}
