// O13: extrapolation.
// FAST: -include @H/lexstub.h
// USES: alg ddir expl extr ros impl
#include "oenv.h"
#include <array>
#include "ode_num_int/OdeSolverExtrapolator.h"
namespace mc { const char *assumptions[] = {
    "extrapolated values are compared to 8 times the rounding error of the weighted sum they stand for, taken in extended precision",
    "the numbers of steps of a sequence are different and positive", nullptr }; }
namespace {
using namespace ctm; using namespace ctm::math; using namespace h;
typedef OdeSolverExtrapolator<VD> Ex; typedef long double L;
std::vector<int> numbers( const std::string& s, int k ) { std::vector<int> r; for( int i=0; i<k; ++i ) { int n; if( s == "romberg" ) n = 1<<i; else if( s == "harmonic" ) n = i+1; else if( s == "bulirsch" ) n = i == 0 ? 1 : i%2 ? 1<<((i+1)/2) : 3<<(i/2-1); else if( s == "even" ) n = 2*(i+1); else { static const int c[] = {3,5,4,2,7,1,9,6,11,8,10,13}; n = c[i%12] + 13*(i/12); } r.push_back( n ); } return r; }
// users' own sequences: even numbers, and numbers in no order
struct Seq : ExtrapolatorStepSequence { std::string nm; int i = 0; explicit Seq( const char *n ) : nm(n) {} void reset() { i = 0; } int next() { auto v = numbers( nm, ++i ); return v.back(); } std::string typeId() const { return nm; } };
std::shared_ptr<ExtrapolatorStepSequence> sequence( const std::string& s ) { return s == "even" || s == "own" ? std::shared_ptr<ExtrapolatorStepSequence>( new Seq( s == "even" ? "even" : "own" ) ) : Factory<ExtrapolatorStepSequence>::newInstance( s ); }
const std::vector<std::string> seqs = { "romberg", "bulirsch", "harmonic", "even", "own" };
// A solver whose result after k steps of size s from (t,x) is x[i] + k*s*v[i] + e[i]*s^m[i]
struct Ref : Solver { double t = 0, t0 = 0, s = 0; D x, x0, v, e; std::vector<int> m; int k = 0, ord = 1; double drift = 0; std::vector<std::pair<int,double>> stages; bool bad = false; double wantT = 0; D wantX;
    int order() const { return ord; } double initialTime() const { return t; } V initialState() const { return mk( x ); } std::string typeId() const { return "scripted"; }
    void setInitialState( double T, const V& X, bool ) { t = t0 = T; x = x0 = rd( X ); k = 0; if( T != wantT || !same( x, wantX ) ) bad = true; stages.push_back( {0,0.} ); }
    void doStep() { if( k == 0 ) s = initialStepSize(); if( stages.empty() ) stages.push_back( {0,0.} ); ++k; stages.back().first = k; stages.back().second = s; t = t0 + k*s*(1+drift); for( size_t i=0; i<x.size(); ++i ) x[i] = x0[i] + k*s*v[i] + e[i]*std::pow( s, m[i] ); }
    void want( double T, const D& X ) { wantT = T; wantX = X; stages.clear(); bad = false; } };
// weights of the polynomial extrapolation of stages a, ..., b-1 to step size zero
std::vector<L> weights( const std::vector<int>& n, int a, int b, bool sym ) { std::vector<L> w; for( int k=a; k<b; ++k ) { L p = 1; for( int i=a; i<b; ++i ) if( i != k ) { L xi = 1.0L/n[i], xk = 1.0L/n[k]; if( sym ) { xi *= xi; xk *= xk; } p *= xi/(xi-xk); } w.push_back( p ); } return w; }
void combine( D& val, D& tol, const std::vector<D>& T, const std::vector<int>& n, int a, int b, bool sym ) { auto w = weights( n, a, b, sym ); size_t N = T[0].size(); val.assign( N, 0 ); tol.assign( N, 0 ); for( size_t i=0; i<N; ++i ) { L s = 0, u = 0; for( int k=a; k<b; ++k ) { s += w[k-a]*T[k][i]; u += fabsl( w[k-a]*T[k][i] ); } val[i] = (double)s; tol[i] = (double)(u*8*(b-a)*2.3e-16L); } }
bool within( const D& a, const D& b, const D& tol ) { if( a.size() != b.size() ) return false; for( size_t i=0; i<a.size(); ++i ) if( !(std::fabs(a[i]-b[i]) <= tol[i]) ) return false; return true; }
struct Rig { std::shared_ptr<Ex> s; std::shared_ptr<Ref> ref; std::shared_ptr<SpyCtl> ctl; std::shared_ptr<SpyNorm> norm; std::vector<D> errs; std::vector<std::array<double,3>> asked; int rejects = 0; double newH = 0;
    Rig( const std::string& seq, int stages, bool sym, bool noErr, double hh ) { s.reset( new Ex ); ref.reset( new Ref ); ctl.reset( new SpyCtl ); norm.reset( new SpyNorm ); Params p; p["symmetric"] = sym; p["disable_error_check"] = noErr; p["max_stages"] = (unsigned)stages; p["h_init"] = hh; s->setParameters( p ); s->setReferenceSolver( ref ); s->setStepSequence( sequence( seq ) ); s->setOdeStepSizeController( ctl ); s->setErrorNormCalculator( norm );
        norm->f = [this]( const D& e ) { errs.push_back( e ); return 0.5; }; ctl->f = [this]( double h, double e, double o ) { asked.push_back( {{h,e,o}} ); Ctl::Result r( h, true, false ); if( rejects > 0 ) { --rejects; r = Ctl::Result( newH, false, true ); } return r; }; } };
// what one successful doStep must have done: attempts with the step sizes hs, the last one accepted
void judge( const std::string& what, Rig& r, const std::string& seq, int stages, bool sym, bool noErr, double t0, const D& x0, const std::vector<double>& hs ) {
    auto n = numbers( seq, stages ); MC_CHECK( !r.ref->bad, "restart", what << ": a stage does not start from the initial state of the step" ); MC_CHECK( r.ref->stages.size() == hs.size()*stages, "stages", what << ": " << r.ref->stages.size() << " stages in " << hs.size() << " attempts with " << stages << " stages" );
    size_t N = x0.size(); D v = r.ref->v, e = r.ref->e; auto& m = r.ref->m;
    for( size_t a=0; a<hs.size(); ++a ) { std::vector<D> T; for( int k=0; k<stages; ++k ) { auto& st = r.ref->stages[a*stages+k]; MC_CHECK( st.first == n[k], "steps", what << ": stage " << k << " makes " << st.first << " steps instead of " << n[k] ); MC_CHECK( close( st.second, hs[a]/n[k], 4e-16 ), "substep", what << ": stage " << k << " makes steps of " << st.second << " instead of " << hs[a]/n[k] ); D x( N ); for( size_t i=0; i<N; ++i ) x[i] = x0[i] + n[k]*st.second*v[i] + e[i]*std::pow( st.second, m[i] ); T.push_back( x ); }
        D full, tol; combine( full, tol, T, n, 0, stages, sym ); D got = rd( r.s->initialState() );
        if( a+1 == hs.size() ) { MC_CHECK( within( got, full, tol ), "extrapolation", what << ": " << str(got) << " instead of " << str(full) << " (tolerance " << str(tol) << ")" ); MC_CHECK( close( r.s->initialTime(), t0+hs[a], 4e-16, 4e-16*std::fabs(t0) ), "time", what << ": time " << r.s->initialTime() );
            // the promise itself: eliminated terms do not appear
            for( size_t i=0; i<N; ++i ) { int q = m[i]; bool gone = sym ? q%2 == 0 && q >= 2 && q <= 2*(stages-1) : q >= 1 && q <= stages-1; if( gone ) { double w = x0[i]+hs[a]*v[i]; MC_CHECK( std::fabs( got[i]-w ) <= tol[i]+1e-15*std::fabs(w), "eliminated", what << ": an error term h^" << q << " is left: " << got[i] << " instead of " << w ); } } }
        if( !noErr ) { MC_CHECK( a < r.errs.size() && a < r.asked.size(), "error", what << ": no error is estimated" ); D low, tl; combine( low, tl, T, n, 1, stages, sym ); D w( N ); for( size_t i=0; i<N; ++i ) { w[i] = full[i]-low[i]; tl[i] += tol[i]; } MC_CHECK( within( r.errs[a], w, tl ), "error", what << ": error estimate " << str(r.errs[a]) << " instead of " << str(w) );
            MC_CHECK( r.asked[a][0] == hs[a] && r.asked[a][1] == 0.5 && r.asked[a][2] == std::max( r.ref->ord, (stages-1)*(sym?2:1) ), "control", what << ": the controller is asked for " << r.asked[a][0] << ", " << r.asked[a][1] << ", order " << r.asked[a][2] ); } }
    MC_CHECK( noErr ? r.errs.empty() && r.asked.empty() : r.errs.size() == hs.size() && r.asked.size() == hs.size(), "error-count", what << ": " << r.errs.size() << " error estimates, " << r.asked.size() << " questions to the controller" ); }
MC_SCENARIO( monomials, "5 step sequences, 1 to 8 (quick) / 10 (thorough) stages (fewer where a stage has more than 600 steps), symmetric or not, error control on or off, every error term h^m up to 2 powers past the last eliminated, 3 step sizes, 3 initial times: 2 steps, one with a rejected attempt" ) {
    mc::splitAt( 300 ); std::string seq = seqs[mc::choose( seqs.size(), "sequence" )]; int stages = 1+mc::choose( mc::tier(8,10), "stages" ); bool sym = mc::flip( "symmetric" ), noErr = mc::flip( "no error check" ); if( stages == 1 && !noErr ) { mc::outcome( "no error estimate" ); return; } int last = sym ? 2*(stages-1) : stages-1, q = mc::choose( last+3, "power" ); double hh = mc::pick( std::vector<double>{0.5,1./3,1e-3}, "step" ), t0 = mc::pick( std::vector<double>{0,-3,1000} );
    Rig r( seq, stages, sym, noErr, hh ); auto rhs = std::make_shared<FnRhs>( 0, 3, []( double, const D& ) { return D( 3, 0.0 ); } ); r.s->setOdeRhs( rhs ); double sc = std::pow( hh, -q ); r.ref->v = D{0.75,-2,0}; r.ref->e = D{0.3*sc,-0.1*sc/hh,0.7}; r.ref->m = {q,q+1,0}; r.ref->ord = 1+mc::choose(3,"order"); D x0{1,-0.5,0}; r.ref->want( t0, x0 ); r.s->setInitialState( t0, mk(x0) );
    std::string what = seq + ", " + std::to_string(stages) + " stages" + (sym ? ", symmetric" : "") + ", error term h^" + std::to_string(q); MC_CHECK( r.s->order() == std::max( r.ref->ord, stages*(sym?2:1) ), "order", what << ": order " << r.s->order() << " with a method of order " << r.ref->ord );
    for( int i=0; i<2; ++i ) { double t = r.s->initialTime(); D x = rd( r.s->initialState() ); r.ref->want( t, x ); r.errs.clear(); r.asked.clear(); std::vector<double> hs{hh}; if( i == 1 && !noErr ) { r.rejects = 1; r.newH = hh*0.375; hs.push_back( r.newH ); } r.s->doStep(); mc::step(); judge( what, r, seq, stages, sym, noErr, t, x, hs ); }
    mc::Hash z; z.u( stages ); z.u( q ); hash( z, rd( r.s->initialState() ) ); mc::state( (uint64_t)z );
    }
MC_SCENARIO( changes, "all histories of 3 (quick) / 4 (thorough) steps before each of which the number of stages (1 to 5), the sequence, the symmetry, the error check or the state is changed, or nothing" ) {
    mc::splitAt( 100 ); std::string seq = seqs[mc::choose( seqs.size() )]; int stages = mc::pick( std::vector<int>{3,1,5} ); bool sym = false, noErr = stages == 1; double hh = 0.25; Rig r( seq, stages, sym, noErr, hh ); auto rhs = std::make_shared<FnRhs>( 0, 2, []( double, const D& ) { return D( 2, 0.0 ); } ); r.s->setOdeRhs( rhs ); r.ref->v = D{0.75,-2}; r.ref->e = D{0.3,-0.1}; r.ref->m = {1,5}; D x0{1,-0.5}; r.ref->want( 0.5, x0 ); r.s->setInitialState( 0.5, mk(x0) ); double t = 0.5; D x = x0; std::string what = seq + " " + std::to_string(stages);
    for( int i=0; i<mc::tier(3,4); ++i ) {
        int ch = mc::choose( 11, "change" ); switch( ch ) { case 0: break; case 1: case 2: case 3: case 4: case 5: { int c[] = {1,2,3,4,5}; int s = c[ch-1]; if( s == stages ) return; stages = s; if( mc::flip() ) r.s->setMaxStages( s ); else { Params p; p["max_stages"] = (unsigned)s; r.s->setParameters( p ); } what += ", stages " + std::to_string(s); break; }
            case 6: { std::string s = seqs[mc::choose( seqs.size() )]; if( s == seq ) return; seq = s; r.s->setStepSequence( sequence( seq ) ); what += ", " + s; break; } case 7: { sym = !sym; Params p; p["symmetric"] = sym; r.s->setParameters( p ); what += sym ? ", symmetric" : ", not symmetric"; break; } case 8: noErr = !noErr; what += ", error check"; { Params p; p["disable_error_check"] = noErr; r.s->setParameters( p ); } break;
            case 9: case 10: { bool soft = ch == 9; t = 2; x = D{0.25,3}; r.ref->want( t, x ); r.s->setInitialState( t, mk(x), soft ); what += soft ? ", soft state" : ", state"; break; } }
        if( stages == 1 && !noErr ) { mc::outcome( "no error estimate" ); return; } r.ref->want( t, x ); r.errs.clear(); r.asked.clear(); r.s->doStep(); mc::step(); judge( what, r, seq, stages, sym, noErr, t, x, {hh} ); MC_CHECK( r.s->order() == std::max( 1, stages*(sym?2:1) ), "order", what << ": order " << r.s->order() ); t = r.s->initialTime(); x = rd( r.s->initialState() ); }
    mc::Hash z; z.u( stages ); hash( z, x ); mc::state( (uint64_t)z );
    }
MC_SCENARIO( sequences, "the three named sequences, up to 24 numbers, started again after any number of them" ) {
    std::string seq = seqs[mc::choose( 3 )]; auto s = sequence( seq ); int a = mc::choose( 24 ), b = 1+mc::choose( 24 ); auto w = numbers( seq, 24 ); for( int i=0; i<a; ++i ) { int g = s->next(); MC_CHECK( g == w[i], "sequence", seq << ": number " << i << " is " << g << " instead of " << w[i] ); } s->reset(); for( int i=0; i<b; ++i ) { int g = s->next(); MC_CHECK( g == w[i], "sequence-reset", seq << ": after " << a << " numbers and a reset, number " << i << " is " << g << " instead of " << w[i] ); } mc::step(); mc::outcome( seq ); }
// every solver as the reference: against the same stages made by hand
MC_SCENARIO( solvers, "10 reference solvers, 5 sequences, 1 to 5 stages (quick) / 7 (thorough), symmetric or not, 2 structures of systems, 2 step sizes: 2 steps equal the weighted stages of a solver used by itself" ) {
    mc::splitAt( 100 ); static std::vector<Variant> refs; if( refs.empty() ) { refs = { variant( "euler", "euler" ), variant( "rk4", "rk4" ), variant( "gragg", "gragg" ), variant( "gragg smooth", "gragg", { {"smooth",Value(true)} } ), variant( "rosenbrock_w1", "rosenbrock_w1" ), variant( "i_euler", "i_euler", { {"algsolver",newton(1e-13)} } ), variant( "trapezoidal", "i_euler", { {"algsolver",newton(1e-13)}, {"alpha",Value(0.5)} } ), variant( "i_euler predictor", "i_euler", { {"algsolver",newton(1e-13)}, {"predictor",Value("euler")} } ), variant( "dopri_45 fixed", "dopri_45", { {"disable_error_check",Value(true)} } ) }; Params p; p["reference_solver"] = Value( "euler" ); p["step_sequence"] = Value( "harmonic" ); p["max_stages"] = Value( 2u ); p["disable_error_check"] = Value( true ); refs.push_back( Variant{ "extrapolator", "extrapolator", p } ); }
    const Variant& v = refs[mc::choose( refs.size(), "reference" )]; std::string seq = seqs[mc::choose( seqs.size(), "sequence" )]; int stages = 1+mc::choose( mc::tier(5,7), "stages" ); bool sym = mc::flip(); unsigned n2 = mc::choose(2); double hh = mc::pick( std::vector<double>{0.125,0.01} ); auto mkRhs = [&] { return std::make_shared<FnRhs>( n2, 3-2*n2, [=]( double t, const D& x ) { D g{ -x[0]+0.5*x[1]*x[1], -0.5*x[1]+x[2]+std::sin(t), 0.25*x[0]*x[2]-x[2] }; if( n2 ) return D{ g[1], g[2] }; return g; } ); };
    Rig r( seq, stages, sym, true, hh ); auto ref = make( v, hh ); r.s->setReferenceSolver( ref ); r.s->setOdeRhs( mkRhs() ); D x{1,-0.5,0.25}; double t = 0.25; r.s->setInitialState( t, mk(x) ); auto own = make( v, hh ); own->setOdeRhs( mkRhs() ); own->setInitialState( t, mk(x) );
    auto n = numbers( seq, stages ); for( int i=0; i<2; ++i ) { std::vector<D> T; for( int k=0; k<stages; ++k ) { own->setInitialState( t, mk(x), true ); own->setInitialStepSize( hh/n[k] ); for( int j=0; j<n[k]; ++j ) own->doStep(); T.push_back( rd( own->initialState() ) ); } D w, tol; combine( w, tol, T, n, 0, stages, sym ); r.s->doStep(); mc::step(); D got = rd( r.s->initialState() ); MC_CHECK( within( got, w, tol ), "stages-by-hand", v.name << ", " << seq << ", " << stages << " stages: " << str(got) << " instead of " << str(w) ); MC_CHECK( close( r.s->initialTime(), t+hh, 4e-16 ), "time", v.name << ": time " << r.s->initialTime() ); t = r.s->initialTime(); x = got; }
    mc::Hash z; hash( z, x ); mc::state( (uint64_t)z ); mc::outcome( v.name );
    }
MC_SCENARIO( rejected, "settings that make no step possible: no stages, one stage with error check, no reference solver, no sequence, a reference solver that does not cover the step (any drift, or adaptive with rejected or changed steps): an exception, time and state stay, and the corrected solver works" ) {
    int what = mc::choose( 6 ); bool noErr = mc::flip(), after = mc::flip( "after a step" ); Rig r( "harmonic", 3, false, noErr, 0.25 ); auto sys = std::make_shared<FnRhs>( 0, 2, []( double, const D& x ) { return D{ -50*x[0], x[0]-x[1] }; } ); r.s->setOdeRhs( sys ); r.ref->v = D{1,-1}; r.ref->e = D{0.5,0.25}; r.ref->m = {1,2}; D x{1,0}; r.s->setInitialState( 0.5, mk(x) ); if( after ) r.s->doStep(); double t = r.s->initialTime(); x = rd( r.s->initialState() ); if( mc::flip( "hard" ) ) r.s->setInitialState( t, mk(x) );
    switch( what ) { case 0: r.s->setMaxStages( 0 ); break; case 1: r.s->setMaxStages( 1 ); break; case 2: r.s->setReferenceSolver( nullptr ); break; case 3: r.s->setStepSequence( nullptr ); break; case 4: r.ref->drift = mc::pick( std::vector<double>{0.5,-0.5,1e-3,INF,NaN} ); break; case 5: { auto a = ctm::Factory<Solver>::newInstance( "dopri_45" ); auto c = std::make_shared<SpyCtl>(); bool rej = mc::flip(); double f = mc::pick( std::vector<double>{0.5,2} ); auto first = std::make_shared<int>( 0 ); c->f = [=]( double h, double, double ) { if( ++*first == 2 ) { return Ctl::Result( h*f, !rej, true ); } return Ctl::Result( h, true, false ); }; setCtl( a, c ); r.s->setReferenceSolver( a ); a->setInitialState( t, mk(x) ); break; } }
    std::string got = whatOf( [&] { r.s->doStep(); } ); MC_LOG( what << " " << got << " " << r.s->initialTime() << " " << str( rd( r.s->initialState() ) ) ); mc::step();
    if( what == 1 && noErr ) { MC_CHECK( got.empty(), "one-stage", "one stage without error check: " << got ); mc::outcome( "one stage" ); return; }
    MC_CHECK( !got.empty(), "accepted", "case " << what << ": a step was made, to time " << r.s->initialTime() << ", state " << str( rd( r.s->initialState() ) ) ); MC_CHECK( r.s->initialTime() == t && same( rd( r.s->initialState() ), x ), "state-kept", "case " << what << ": time " << r.s->initialTime() << ", state " << str( rd( r.s->initialState() ) ) << " after a failed step from " << str(x) );
    r.ref->drift = 0; r.s->setMaxStages( 3 ); r.s->setReferenceSolver( r.ref ); r.s->setStepSequence( sequence( "harmonic" ) ); r.ref->want( t, x ); r.errs.clear(); r.asked.clear(); r.s->doStep(); judge( "corrected", r, "harmonic", 3, false, noErr, t, x, {0.25} ); mc::outcome( "rejected " + std::to_string(what) );
    }
}
