// N03: descent strategies against a dense model, for all histories of directions, resets and reports.
#include "ddirs.h"
using namespace h;
namespace mc { const char *assumptions[] = {
    "strategies are used the way the solver does: iterations of an attempt are numbered from 0, a soft or hard reset precedes them, the outcome is reported after them",
    "directions are compared where the promised matrix is far from singular; agreement is to 1e-8 relative", nullptr }; }
namespace {
// dense n x n matrix with a sparsity mask
struct M { unsigned n = 0; D a; std::vector<char> mask; M() {} explicit M( unsigned n_ ) : n(n_), a(n_*n_,0.0), mask(n_*n_,0) {}
    double& at( unsigned i, unsigned j ) { return a[i*n+j]; } double at( unsigned i, unsigned j ) const { return a[i*n+j]; } };
D mul( const M& A, const D& x ) { D y(A.n,0.0); for( unsigned i=0;i<A.n;++i ) for( unsigned j=0;j<A.n;++j ) y[i] += A.at(i,j)*x[j]; return y; }
double lead( const M& A ) {     // smallest pivot of the elimination without exchange, relative
    M B(A); double p = INF; for( unsigned k=0;k<B.n;++k ) { p = std::min(p,std::fabs(B.at(k,k))); if( B.at(k,k)==0 ) return 0; for( unsigned i=k+1;i<B.n;++i ) { double q = B.at(i,k)/B.at(k,k); for( unsigned j=k;j<B.n;++j ) B.at(i,j) -= q*B.at(k,j); } }
    double mx=0; for( double x : A.a ) mx = std::max(mx,std::fabs(x)); return std::isfinite(p) ? p/mx : 0; }
typedef m::sparse::SparseMatrixTemplate< m::sparse::SparseMatrixFastData<double> > Fast;
struct Provider : m::JacobianProvider<VD> {
    unsigned n; std::vector<M> base; Fast J; std::vector<M> given; std::vector<D> at; bool free_ = true;
    explicit Provider( unsigned n_, std::vector<M> b ) : n(n_), base(b) {}
    void hardReset() { J = Fast(); }
    void computeJacobian( const V& x0 ) {
        M a = mc::pick(base); for( unsigned k=0;k<n*n;++k ) if( a.mask[k] ) a.a[k] += 0.125*double(given.size()%7);     // every evaluation is different
        m::sparse::SparseMatrix<double> s( n, n ); for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) if( a.mask[i*n+j] ) s.at(i,j) = a.at(i,j);
        J = s; given.push_back(a); at.push_back( rd(x0) ); MC_LOG( "  Jacobian evaluated: " << str(a.a) ); }
    Fast& jacobian() { return J; }
    std::string typeName() const { return "scripted"; }
    };
D problem( const D& x ) { D f(x.size()); for( size_t i=0;i<f.size();++i ) f[i] = 3*x[i] + 0.25*x[i]*x[i] + 0.5*x[(i+1)%x.size()] - 1 + 0.125*double(i); return f; }
M numeric( std::function<D(const D&)> f, const D& x ) { unsigned n=(unsigned)x.size(); M J(n); D f0=f(x); for( unsigned j=0;j<n;++j ) { D y(x); y[j] += 1e-6; D g=f(y); for( unsigned i=0;i<n;++i ) { double d = g[i]-f0[i]; if( d != 0 ) { J.at(i,j) = d/1e-6; J.mask[i*n+j] = 1; } } } return J; }

struct Model {
    int kind; unsigned n, lazy; bool have=false; M J, dJ; bool havePrev=false; D xp, fp; int action=2; unsigned lastIt=0; bool known=true; // action 0 leave, 1 update, 2 recompute
    bool needs( unsigned it ) const { return kind==SIMPLE || (kind==LAZY ? it==0 && (!have || action==2) : !have); }
    void evaluated( const M& j ) { J = j; have = true; known = true; dJ = M(n); dJ.mask = j.mask; }
    void secant( M& T, const M& plus, const D& x, const D& f, bool dense ) {
        D dx(n), y(n); double q=0; for( unsigned i=0;i<n;++i ) { dx[i]=x[i]-xp[i]; q += dx[i]*dx[i]; } if( q==0 ) return;
        D jd = mul(J,dx), pd = mul(plus,dx); for( unsigned i=0;i<n;++i ) y[i] = (f[i]-fp[i]-jd[i]-pd[i])/q;
        for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) if( dense || T.mask[i*n+j] ) T.at(i,j) += y[i]*dx[j];
        }
    // to be called after evaluated(), if needed
    void direction( const D& x, const D& f, unsigned it, bool fresh ) {
        lastIt = it;
        if( !fresh && havePrev ) {
            if( kind==BROYDEN ) { secant( J, M(n), x, f, true ); J.mask.assign( n*n, 1 ); }
            else if( kind==FAKE ) secant( J, M(n), x, f, false );
            else if( kind==LAZY ) secant( dJ, dJ, x, f, false );
            else if( kind==HART ) known = false;        // taken from the observer
            }
        if( kind==LAZY && it==0 && action==1 ) { for( unsigned k=0;k<n*n;++k ) { J.a[k] += dJ.a[k]; dJ.a[k] = 0; } }
        xp = x; fp = f; havePrev = true;
        }
    void reset( bool hard ) { if( hard ) { have = false; action = 2; } havePrev = false; }
    void report( bool ok ) { action = !ok ? 2 : lastIt+1 <= lazy ? 0 : 1; }
    };
void history( int kind, unsigned n, int runs, int maxIts, std::vector<M> bases, int provKind, unsigned lazy, bool soft = false ) {
    auto d = ddir( kind ); std::shared_ptr<Provider> sp; std::shared_ptr< m::JacobianProvider<VD> > jp;
    auto map = std::make_shared<FnMap>( n, problem );
    if( provKind == 0 ) { sp = std::make_shared<Provider>( n, bases ); jp = sp; } else if( provKind == 1 ) jp = std::make_shared< m::DefaultJacobianProvider<VD> >(); else jp = std::make_shared< m::SparseJacobianProvider<VD> >();
    d->setMapping( map ); d->setJacobianProvider( jp );
    if( kind == LAZY ) { ctm::OptionalParameters::Parameters p = d->parameters(); p["lazy_iterations"] = lazy; d->setParameters( p ); }
    unsigned ref0=0, ref1=0, pre=0, post=0; Fast *Jobs = nullptr; M seenJ; unsigned jobs=0; (void)Jobs;
    d->jacobianRefreshObservers.add( [&]( bool s ) { if( s ) { MC_CHECK( ref0==ref1, "refresh-observer", "unbalanced" ); ++ref0; } else ++ref1; } );
    d->ddirPreObservers.add( [&] { ++pre; } ); D dobs; d->ddirPostObservers.add( [&]( const V& v ) { ++post; dobs = rd(v); } );
    d->jacobianObservers.add( [&]( const Fast& J, const V&, const V& ) { ++jobs; seenJ = M(n); for( auto& e : J ) { seenJ.at(e.first.first,e.first.second) = e.second; seenJ.mask[e.first.first*n+e.first.second] = 1; } } );
    Model md; md.kind = kind; md.n = n; md.lazy = lazy;
    MC_LOG( ddName(kind) << (provKind==0?"":provKind==1?", default provider":", sparse provider") );
    D x( n, 0.25 );
    for( int r=0;r<runs;++r ) {
        bool hard = r == 0 || (!soft && mc::flip()); d->reset( hard ); md.reset( hard ); MC_LOG( (hard?"hard":"soft") << " reset" );
        if( r > 0 && hard ) d->reset( false ), md.reset( false );      // as run() does after setInitialGuess()
        int its = 1 + mc::choose( maxIts );
        for( int k=0;k<its;++k ) {
            static const std::vector<D> ST = { {0,0,0}, {0.5,-0.25,0.125}, {0,1,0}, {-0.5,0.25,1} };
            if( r || k ) { const D& s = mc::pick(ST,"move"); for( unsigned i=0;i<n;++i ) x[i] += s[i%3]*(i<3?1:i%2?-0.5:1.5); }
            D f = problem(x); MC_LOG( "direction at " << str(x) << ", residual " << str(f) << ", iteration " << k );
            D sStep, yStep; bool hasPrev = md.havePrev; if( hasPrev ) { sStep = x; yStep = f; for( unsigned i=0;i<n;++i ) { sStep[i] -= md.xp[i]; yStep[i] -= md.fp[i]; } }
            size_t g0 = sp ? sp->given.size() : 0; unsigned e0 = map->evals, r0 = ref0, p0 = pre, q0 = post, j0 = jobs;
            bool need = md.needs( (unsigned)k ); V dv;
            try { d->computeDescentDirection( dv, mk(x), mk(f), (unsigned)k ); }
            catch( std::exception& e ) { mc::fail( "exception", std::string("direction failed: ")+e.what() ); }
            mc::step();
            bool did = sp ? sp->given.size() != g0 : map->evals != e0;
            if( sp ) MC_CHECK( sp->given.size() <= g0+1, "evaluations", "Jacobian evaluated " << sp->given.size()-g0 << " times" );
            MC_CHECK( did == need, did?"needless-evaluation":"stale-jacobian", (did?"Jacobian evaluated although the strategy promises to keep it":"Jacobian not evaluated although the strategy promises a fresh one") );
            MC_CHECK( ref0 == r0 + (did?1u:0u) && ref1 == ref0, "refresh-observer", "refresh observers called " << ref0-r0 << " times, Jacobian " << (did?"evaluated":"kept") );
            MC_CHECK( pre == p0+1 && post == q0+1 && jobs == j0+1, "observers", "direction observers called " << pre-p0 << "/" << post-q0 << "/" << jobs-j0 << " times" );
            if( need ) { if( sp ) { md.evaluated( sp->given.back() ); MC_CHECK( same(sp->at.back(),x), "jacobian-point", "Jacobian evaluated at " << str(sp->at.back()) ); } else md.evaluated( numeric( problem, x ) ); }
            md.direction( x, f, (unsigned)k, need );
            if( !md.known ) {           // Hart: the matrix is read off the factors; it must satisfy the secant condition
                md.J = seenJ; bool generic = hasPrev; for( double v : sStep ) generic &= v != 0;
                if( generic && !need && lead(seenJ) > 1e-3 ) { D js = mul(seenJ,sStep); for( unsigned i=0;i<n;++i ) MC_CHECK( close(js[i],yStep[i],1e-8,1e-8), "secant", "after a step " << str(sStep) << " with residual change " << str(yStep) << " the updated matrix gives " << str(js) ); mc::outcome( "secant update" ); }
                md.known = true;
                }
            double tolJ = sp ? 1e-9 : 1e-4;
            for( unsigned i=0;i<n*n;++i ) MC_CHECK( close(seenJ.a[i],md.J.a[i],tolJ,tolJ), "matrix", "observed matrix " << str(seenJ.a) << ", promised " << str(md.J.a) );
            D dir = rd(dv); MC_CHECK( same(dir,dobs), "observers", "observer saw another direction" );
            if( lead(md.J) > 1e-3 ) {
                D jd = mul( md.J, dir ); double sc = infNorm(f)+1; double tol = sp ? 1e-8 : 1e-3;
                for( unsigned i=0;i<n;++i ) MC_CHECK( std::isfinite(dir[i]) && std::fabs(jd[i]+f[i]) <= tol*sc, "direction", "direction " << str(dir) << " for residual " << str(f) << ", but J*direction = " << str(jd) << " with promised J " << str(md.J.a) );
                mc::outcome( need ? "fresh Jacobian" : "kept Jacobian" );
                } else mc::outcome( "singular" );
            mc::Hash hs; hash( hs, dir ); hs.u((unsigned)md.action); mc::state( hs );
            }
        bool ok = kind == LAZY ? mc::flip() : (r&1)==0; d->reportSuccess( ok ); md.report( ok ); MC_LOG( "reported " << (ok?"success":"failure") );
        // the solver asks only strategies for a restart that keep something
        MC_CHECK( d->hardResetMayHelp() == (kind != SIMPLE || provKind == 2), "may-help", "hardResetMayHelp is " << d->hardResetMayHelp() );
        }
    }
M mat( unsigned n, D a ) { M r(n); r.a = a; for( size_t i=0;i<a.size();++i ) { r.mask[i] = a[i] != 0; if( a[i] == 99 ) { r.a[i] = 0; r.mask[i] = 1; } } return r; }
} // anonymous
MC_SCENARIO( two_variables, "2 variables, every strategy; two attempts (thorough three) of 1..2 directions each, soft or hard reset between, moves {0, three others}, every evaluated Jacobian dense, diagonal or triangular and different from all earlier ones; reports success or failure, lazy threshold 0 and 10" )
{
    int k = mc::choose( NDDIR ); unsigned lazy = k==LAZY && mc::flip() ? 0 : 10;
    history( k, 2, mc::tier(2,3), 2, { mat(2,{2,1,-1,3}), mat(2,{2,0,0,3}), mat(2,{2,0,1,3}) }, 0, lazy );
}
MC_SCENARIO( long_attempt, "2 variables, every strategy that keeps a matrix; one attempt of up to 4 (thorough 5) directions with all moves, dense or diagonal Jacobian" )
{
    int k = 1 + mc::choose( NDDIR-1 ); history( k, 2, 1, mc::tier(4,5), { mat(2,{2,1,-1,3}), mat(2,{3,0,0,2}) }, 0, 10 );
}
MC_SCENARIO( lazy, "the lazy strategy; two attempts of up to 3 directions, thresholds 0..2 (thorough 3), dense Jacobian, thorough also diagonal" )
{
    unsigned lz = (unsigned)mc::choose( mc::tier(3,4) ); std::vector<M> b = { mat(2,{2,1,-1,3}) }; if( mc::thorough() ) b.push_back( mat(2,{3,0,0,2}) );
    history( LAZY, 2, 2, 3, b, 0, lz );
}
MC_SCENARIO( three_variables, "3 variables, every strategy; two attempts of up to 2 directions, band and arrow Jacobians" )
{
    int k = mc::choose( NDDIR ); history( k, 3, 2, 2, { mat(3,{3,1,0, 1,3,1, 0,1,3}), mat(3,{3,0,1, 0,3,1, 1,1,4}) }, 0, mc::flip()?0:10 );
}
MC_SCENARIO( real_providers, "2 and 3 variables, every strategy with the dense and the sparse numerical Jacobian of a nonlinear problem; two attempts (thorough three) of up to 2 directions, all moves and resets" )
{
    int k = mc::choose( NDDIR ); unsigned n = 2u + (unsigned)mc::choose(2); history( k, n, mc::tier(2,3), 2, {}, 1 + mc::choose(2), k==LAZY && mc::flip() ? 0 : 10 );
}
MC_SCENARIO( lazy_attempts, "the lazy strategy; three attempts (thorough four) of up to 2 directions, soft resets only, thresholds 0 and 1, all moves, dense or diagonal Jacobian" )
{
    unsigned lz = (unsigned)mc::choose( 2 ); history( LAZY, 2, mc::tier(3,4), 2, mc::flip() ? std::vector<M>{ mat(2,{2,1,-1,3}) } : std::vector<M>{ mat(2,{3,0,0,2}) }, 0, lz, true );
}
MC_SCENARIO( sizes, "4..17 variables, every strategy, scripted (band, arrow or diagonal) or numerical Jacobians; two attempts of up to 2 directions, all moves" )
{
    int k = mc::choose( NDDIR ); unsigned n = mc::pick( mc::thorough() ? std::vector<unsigned>{ 4, 5, 6, 7, 8, 9, 12, 16, 17, 33 } : std::vector<unsigned>{ 4, 6, 8, 9, 12, 16, 17 } ); int p = mc::choose( 5 );
    M b(n); for( unsigned i=0;i<n;++i ) for( unsigned j=0;j<n;++j ) { bool in = i==j || (p==0 ? i==j+1 || j==i+1 || j==i+3 : p==1 ? i==n-1 || j==n-1 : false); if( in ) { b.mask[i*n+j] = 1; b.at(i,j) = i==j ? 3+0.125*(i%5)+(i==n-1 ? 2.0*n : 0) : 1-0.5*((i+j)%3); } }
    history( k, n, 2, 2, { b }, p < 3 ? 0 : p-2, k==LAZY && mc::flip() ? 0 : 10, true );
}
