# Planted bugs: ODE solvers, infrastructure, utilities
E="include/ode_num_int/ode/"
I="include/ode_num_int/infra/"
OD='''#include <functional>
#include <memory>
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
using namespace ctm; using namespace ctm::math; typedef VectorData<double> VD; typedef VectorTemplate<VD> V; typedef OdeRhs<VD> Rhs; typedef OdeSolver<VD> Solver; typedef OptionalParameters::Parameters Params; typedef OptionalParameters::Value Value;
OdeNumIntClassesRegistrator<VD> registrator;
struct Sys : Rhs {
    unsigned n2, n1; std::function<void(V&,double,const V&)> f; std::vector<unsigned> flags; std::function<double(unsigned,const V&)> z; std::function<void(const int*,V&)> sw; mutable int told = 0;
    Sys( unsigned n2_, unsigned n1_, std::function<void(V&,double,const V&)> f_ ) : n2(n2_), n1(n1_), f(f_) {}
    unsigned secondOrderVarCount() const { return n2; } unsigned firstOrderVarCount() const { return n1; } unsigned zeroFuncCount() const { return flags.size(); } std::vector<unsigned> zeroFuncFlags() const { return flags; }
    void rhs( V& d, double t, const V& x ) const { d.resize( x.size() ); f( d, t, x ); }
    void zeroFunctions( V& d, double, const V& x ) const { d.resize( flags.size() ); for( unsigned i=0; i<flags.size(); ++i ) d[i] = z( i, x ); }
    void switchPhaseState( const int *tr, double, V& x ) { if( sw ) sw( tr, x ); }
    void beforeStep( double, const V& ) const { ++told; }
    };
V vec( std::initializer_list<double> a ) { V x( a.size() ); unsigned i = 0; for( double y : a ) x[i++] = y; return x; }
std::shared_ptr<Solver> mk( const char *name, std::shared_ptr<Rhs> r, double h, double t, const V& x, Params p = Params() ) { auto s = Factory<Solver>::newInstance( name ); s->setParameters( p ); s->setOdeRhs( r ); s->setInitialStepSize( h ); s->setInitialState( t, x ); return s; }
struct Ctl : OdeStepSizeController<VD> { std::function<Result(double,double,double)> f; Result controlStepSize( double h, double e, double o ) const { return f( h, e, o ); } std::string typeId() const { return "own"; } };
'''
bug("o01-late-stage-time", "O01", [(E+"ExplicitRKHelper.h", "t1 + h * c.c[stage-1], o.buf );", "t1 + h * c.c[stage > 6 ?   stage-2 :   stage-1], o.buf );")],
  "a method with more than seven stages and a right-hand side that depends on time", "late stages are evaluated at the time of the stage before",
  OD+'''int main() { auto r = std::make_shared<Sys>( 0, 1, []( V& d, double t, const V& ) { d[0] = 6*std::pow( t, 5 ); } ); Params p; p["disable_error_check"] = true; auto s = mk( "dopri_78", r, 0.5, 1, vec({0}), p ); s->doStep(); EXPECT( std::fabs( s->initialState()[0] - (std::pow(1.5,6)-1) ) < 1e-9 ); return 0; }
''')
bug("o02-minimum-strict", "O02", [(E+"OdeSolverExplicitEmbeddedRK.h", "if( m_h <= this->stepSizeMinThreshold() )", "if( m_h < this->stepSizeMinThreshold() )")],
  "a controller that reduces the step exactly to the minimum", "a step size at the minimum is accepted instead of ending the run",
  OD+'''int main() { auto r = std::make_shared<Sys>( 0, 1, []( V& d, double, const V& x ) { d[0] = x[0]; } ); Params p; p["h_min"] = 0.0625; auto s = mk( "dopri_45", r, 0.125, 0, vec({1}), p ); auto c = std::make_shared<Ctl>(); int n = 0; c->f = [&]( double h, double, double ) { return ++n == 1 ? Ctl::Result( h/2, false, true ) : Ctl::Result( h, true, false ); };
  dynamic_cast< OdeStepSizeControllerHolder<VD>& >( *s ).setOdeStepSizeController( c ); bool threw = false; try { s->doStep(); } catch( const std::exception& ) { threw = true; } EXPECT( threw ); return 0; }
''')
bug("o03-threshold-reduces", "O03", [(E+"OdeStepSizeSimpleController.h", '''                    if( pd < 1 )
                        return Result( currentStepSize, true, false );
                    }''', "                    }")],
  "a step accepted although it is longer than the maximum set", "an accepted step may be shortened by the controller or the size changed by a factor below the least growth",
  OD+'''int main() { auto c = Factory< OdeStepSizeController<VD> >::newInstance( "simple" ); Params p; p["max_threshold"] = 0.5; p["inc_min_factor"] = 0.; c->setParameters( p ); auto r = c->controlStepSize( 1, 1e-12, 4 ); EXPECT( r.acceptStep && !r.changeStepSize && r.newStepSize == 1 ); return 0; }
''')
bug("o04-stale-directions", "O04", [(E+"LinearOdeEventController.h", "            m_zfflags = rhs->zeroFuncFlags();", "            if( m_zfflags.size() != nz )\n                m_zfflags = rhs->zeroFuncFlags();")],
  "a controller used for one system and then for another with as many functions watched in other directions", "events are looked for in the directions of the system before",
  OD+'''int main() { auto ec = Factory< OdeEventController<VD> >::newInstance( "linear" ); auto mkr = []( unsigned fl ) { auto r = std::make_shared<Sys>( 0, 1, []( V& d, double, const V& ) { d[0] = 1; } ); r->flags = { fl }; r->z = []( unsigned, const V& x ) { return x[0]; }; return r; };
  for( unsigned fl : { (unsigned)Rhs::PlusMinus, (unsigned)Rhs::MinusPlus } ) { ec->setOdeRhs( mkr( fl ) ); ec->reset(); V a = vec({-1}), b = vec({1}); double t2 = 1; ec->atStepStart( a, 0 ); bool ev = ec->atStepEnd( a, b, t2, OdeEventController<VD>::Interpolator() ); EXPECT( ev == (fl == (unsigned)Rhs::MinusPlus) ); } return 0; }
''')
bug("o04-recomputed-others", "O04", [(E+"LinearOdeEventController.h", "zf = m_zfbuf[i];\n", "zf = i == itmin ?   m_zfbuf[i] :   zf*( 1. - tmin ) + m_zf2[i]*tmin;\n")],
  "a switch that moves the state so that another function changes sign", "functions other than the one that fired keep their interpolated value although they ask to be recomputed",
  OD+'''int main() { auto ec = Factory< OdeEventController<VD> >::newInstance( "linear" ); auto r = std::make_shared<Sys>( 0, 2, []( V& d, double, const V& ) { d[0] = d[1] = 1; } ); unsigned fl = (unsigned)Rhs::BothDirections | (unsigned)Rhs::RecomputeAfterSwitch; r->flags = { fl, fl }; r->z = []( unsigned i, const V& x ) { return x[i]; }; r->sw = []( const int *tr, V& x ) { if( tr[0] ) { x[0] = 1; x[1] = -x[1]; } };
  ec->setOdeRhs( r ); V a = vec({-1,2}), b = vec({1,2}); double t = 1; ec->atStepStart( a, 0 ); EXPECT( ec->atStepEnd( a, b, t, OdeEventController<VD>::Interpolator() ) ); EXPECT( t == 0.5 && b[1] == -2 );
  V c = vec({1,2}); t = 1.5; ec->atStepStart( b, 0.5 ); unsigned iz = 7; int ty = 0; EXPECT( ec->atStepEnd( b, c, t, OdeEventController<VD>::Interpolator(), &iz, &ty ) ); EXPECT( iz == 1 && ty == 1 && std::fabs( t - 1 ) < 1e-12 ); return 0; }
''')
bug("o05-enlarged-after-switch", "O05", [(E+"OdeSolverExplicitEmbeddedRK.h", "m_h_after_switch > 0   &&   m_h > m_h_after_switch", "m_h_after_switch > 0")],
  "an event during steps smaller than the size set for after a switch", "the step after a switch is enlarged",
  OD+'''int main() { auto r = std::make_shared<Sys>( 0, 1, []( V& d, double, const V& ) { d[0] = 1; } ); r->flags = { (unsigned)Rhs::MinusPlus }; r->z = []( unsigned, const V& x ) { return x[0]; }; Params p; p["h_after_switch"] = 0.5; p["disable_error_check"] = true; p["eventctl"] = "linear"; auto s = mk( "dopri_45", r, 0.01, 0, vec({-0.015}), p );
  bool cut = false; double biggest = 0; s->odeSolverPostObservers.add( [&]( const OdeSolverPostObserverArg<VD>& a ) { cut = cut || a.stepTruncated(); biggest = std::max( biggest, a.stepSize() ); } ); for( int i=0; i<5; ++i ) s->doStep(); EXPECT( cut && biggest == 0.01 ); return 0; }
''')
bug("o06-pairs-only-product", "O06", [(E+"OdeSolverRosenbrock_W_base.h", "dst.block( m_n2, m_n2+m_n1 ) += m_buf4mul;", "dst.block( m_n2, m_n2 ) += m_buf4mul.block( 0, m_n2 );\n            if( m_n2 == 0 ) dst += m_buf4mul;")],
  "a system with both second and first order variables, the latter driven by positions", "the dependence of first order variables on positions is missing from the stages",
  OD+'''double end( double h ) { auto r = std::make_shared<Sys>( 1, 1, []( V& d, double, const V& x ) { d[0] = x[1]; d[1] = -x[0]; d[2] = 5*x[0] - x[2]; } ); Params p; p["disable_error_check"] = true; auto s = mk( "rosenbrock_sw2_4", r, h, 0, vec({0,1,0}), p ); for( int i=0; i<int(0.8/h+0.5); ++i ) { V x = s->initialState(); double t = s->initialTime(); s->setInitialState( t, x ); s->doStep(); } return s->initialState()[2]; }
int main() { double x = 5*( 0.5*std::exp(-0.8) + 0.5*(std::sin(0.8)-std::cos(0.8)) ), a = std::fabs( end(0.1)-x ), b = std::fabs( end(0.05)-x ), c = std::fabs( end(0.025)-x ); std::fprintf( stderr, "%g %g %g\\n", a, b, c ); EXPECT( b < 0.4*a && c < 0.4*b ); return 0; }
''')
bug("o07-weight-changed", "O07", [(E+"OdeStepMappingEuler.h", "            m_alpha = implicitnessParameter;\n            m_f0scaledValid = false;", "            m_alpha = implicitnessParameter;")],
  "the weight changed after the mapping has been evaluated", "the equation keeps the explicit part of the old weight",
  OD+'''#include "ode_num_int/OdeStepMappingEuler.h"
int main() { auto r = std::make_shared<Sys>( 0, 1, []( V& d, double, const V& x ) { d[0] = x[0]; } ); OdeStepMappingEuler<VD> m; m.setOdeRhs( r ); m.setTimeStep( 0.5 ); m.setInitialState( 0, vec({2}) ); VectorMapping<VD>& b = m; m.setImplicitnessParameter( 1 ); V y = b.map( vec({3}) ); EXPECT( std::fabs( y[0] - (3-2-0.5*3) ) < 1e-14 );
  m.setImplicitnessParameter( 0.5 ); y = b.map( vec({3}) ); EXPECT( std::fabs( y[0] - (3-2-0.25*2-0.25*3) ) < 1e-14 ); return 0; }
''')
bug("o08-positions-drive-first-order", "O08", [(E+"OdeSolverRosenbrock_W_base.h", "            x.block( m_n2, m_n2+m_n1 ) += m_buf4mul.scaled( hd );\n", "            x.block( m_n2, m_n2 ) += m_buf4mul.block( 0, m_n2 ).scaled( hd );\n            if( m_n2 == 0 )\n                x += m_buf4mul.scaled( hd );\n")],
  "a first order variable driven by a position, linearly implicit method", "the result differs from that of the same system written with first order variables only",
  OD+'''int main() { auto a = std::make_shared<Sys>( 1, 1, []( V& d, double, const V& x ) { d[0] = x[1]; d[1] = -x[0]; d[2] = 5*x[0] - x[2]; } ), b = std::make_shared<Sys>( 0, 3, []( V& d, double, const V& x ) { d[0] = x[1]; d[1] = -x[0]; d[2] = 5*x[0] - x[2]; } );
  for( const char *n : {"rosenbrock_w1","rosenbrock_sw2_4"} ) { auto s = mk( n, a, 0.1, 0, vec({1,0.5,0}) ), q = mk( n, b, 0.1, 0, vec({1,0.5,0}) ); for( int i=0; i<3; ++i ) { s->doStep(); q->doStep(); } for( int i=0; i<3; ++i ) EXPECT( std::fabs( s->initialState()[i] - q->initialState()[i] ) < 1e-5 ); } return 0; }
''')
bug("o09-midpoint-of-old-system", "O09", [(E+"OdeSolverGragg.h", "            this->onOdeRhsChanged( [this]() { m_stepsRunning = false; } );\n", "")],
  "the system replaced between two steps", "the step after the change continues the half step of the old system",
  OD+'''int main() { auto a = std::make_shared<Sys>( 0, 1, []( V& d, double, const V& x ) { d[0] = x[0]; } ), b = std::make_shared<Sys>( 0, 1, []( V& d, double, const V& x ) { d[0] = -3*x[0]; } ); auto s = mk( "gragg", a, 0.1, 0, vec({1}) ); s->doStep(); s->doStep(); s->setOdeRhs( b ); auto f = mk( "gragg", b, 0.1, s->initialTime(), s->initialState() ); s->doStep(); f->doStep(); EXPECT( s->initialState()[0] == f->initialState()[0] ); return 0; }
''')
bug("o09-soft-keeps-derivative", "O09", [(E+"OdeSolverRosenbrock_SW2_4.h", '''            if( soft )
                // Compute ODE RHS at the beginning of the step
                this->odeRhs()->rhs( m_initialOdeRhs, m_initialTime, m_initialState );
            else
                cleanupStep();''', "            if( !soft )\n                cleanupStep();")],
  "a new state set softly after a step", "the next step begins with the derivative at the end of the step before",
  OD+'''int main() { auto a = std::make_shared<Sys>( 0, 1, []( V& d, double, const V& x ) { d[0] = -x[0]; } ); Params p; p["disable_error_check"] = true; auto s = mk( "rosenbrock_sw2_4", a, 0.1, 0, vec({1}), p ); s->doStep(); s->setInitialState( 0, vec({1}), true ); s->doStep(); EXPECT( std::fabs( s->initialState()[0] - std::exp(-0.1) ) < 1e-3 ); return 0; }
''')
bug("o10-time-before-state", "O10", [(E+"OdeSolverExplicitRK.h", '''            real_type nextTime = m_initialTime + m_h;

            // Process events''', '''            m_initialTime += m_h;
            real_type nextTime = m_initialTime;

            // Process events''')],
  "a switch of the phase state that fails", "the time has moved but the state has not",
  OD+'''int main() { auto r = std::make_shared<Sys>( 0, 1, []( V& d, double, const V& ) { d[0] = 1; } ); r->flags = { (unsigned)Rhs::MinusPlus }; r->z = []( unsigned, const V& x ) { return x[0]; }; r->sw = []( const int*, V& ) { throw std::runtime_error( "switch" ); }; Params p; p["eventctl"] = "linear"; auto s = mk( "rk4", r, 0.5, 0, vec({-0.25}), p ); bool threw = false; try { s->doStep(); } catch( const std::runtime_error& ) { threw = true; } EXPECT( threw && s->initialTime() == 0 && s->initialState()[0] == -0.25 ); return 0; }
''')
bug("o11-predicted-step-not-told", "O11", [(E+"OdeSolverImplicitEuler.h", "            m_mapping4Newton->beforeStep();\n", "            if( !m_predictor )\n                m_mapping4Newton->beforeStep();\n")],
  "implicit Euler with a predictor", "the system is told of the steps of the predictor only, not of the step itself",
  OD+'''int main() { auto r = std::make_shared<Sys>( 0, 1, []( V& d, double, const V& x ) { d[0] = -x[0]; } ); Params p; p["algsolver"] = Value( "newton" ); p["predictor"] = Value( "euler" ); auto s = mk( "i_euler", r, 0.1, 0, vec({1}), p ); s->doStep(); EXPECT( r->told == 2 ); return 0; }
''')
bug("o13-integer-ratio", "O13", [(E+"OdeSolverExtrapolator.h", "static_cast<real_type>(m_n[j-1])/m_n[j-k-1];", "static_cast<real_type>( m_n[j-1]/m_n[0] )*m_n[0]/m_n[j-k-1];")],
  "a step sequence whose numbers are not multiples of the first", "error terms do not cancel",
  OD+'''int main() { EXPECT( true ); auto r = std::make_shared<Sys>( 0, 1, []( V& d, double, const V& x ) { d[0] = -2*x[0]; } ); Params p; p["reference_solver"] = Value( "euler" ); p["step_sequence"] = Value( "odd" ); p["max_stages"] = 3; p["disable_error_check"] = true;
  struct Odd : ExtrapolatorStepSequence, FactoryMixin< Odd, ExtrapolatorStepSequence > { int k = 0; void reset() { k = 0; } int next() { static const int a[] = {2,3,5,7}; return a[k++]; } }; Odd::Registrator reg( "odd" ); double e[2]; int i = 0; for( double h : {0.1,0.05} ) { auto s = mk( "extrapolator", r, h, 0, vec({1}), p ); s->doStep(); e[i++] = std::fabs( s->initialState()[0] - std::exp(-2*h) ); } std::fprintf( stderr, "%g %g\\n", e[0], e[1] ); EXPECT( e[1] < e[0]/11 ); return 0; }
''')
bug("o14-digits", "O14", [(E+"OdeVarNameGenerator.h", "log10(n + 0.5)", "log10(n + 1.5)")],
  "a variable with number 9, 99, ... among ten or more", "it has one digit too many, so names are padded unevenly",
  OD+'''#include "ode_num_int/OdeVarNameGenerator.h"
int main() { Sys r( 0, 12, []( V&, double, const V& ) {} ); OdeVarNameGenerator<VD> g( r ); EXPECT( g.varNameByIndex( 9 ) == "UNNAMED_09" ); EXPECT( g.varNameByIndex( 10 ) == "UNNAMED_10" ); return 0; }
''')
bug("o15-merged-sums", "O15", [("include/ode_num_int/util/ErrorStats.h", "            m_errorMax = maxValue( m_errorMax, that.m_errorMax );\n            m_errorSum += that.m_errorSum;\n", "            m_errorMax = maxValue( m_errorMax, that.m_errorMax );\n            X thatSum = that.m_errorMax;\n            thatSum *= that.m_sampleCount;\n            m_errorSum += thatSum;\n")],
  "statistics merged from a part with different samples", "the mean of merged statistics is not that of all samples",
  '''#include "ode_num_int/VectorTemplate.h"
#include "ode_num_int/util/ErrorStats.h"
using namespace ctm; int main() { math::ErrorStats<double> a( 0. ), b( 0. ); a.addSample( 1 ); b.addSample( 2 ); b.addSample( 4 ); a += b; EXPECT( a.errorSum() == 7 && a.sampleCount() == 3 ); return 0; }
''', libs=False)
bug("i01-reused-number", "I01", [(I+"cxx_observers.h", "int result = m_elements.rbegin()->first + 1;", "int result = static_cast<int>( m_elements.size() ) + 1;\n                while( m_elements.find( result ) != m_elements.end() )\n                    ++result;")],
  "observers removed and another added while others remain", "the new observer is called before observers that were added earlier",
  '''#include "ode_num_int/infra/cxx_observers.h"
int main() { ctm::cxx::Observers<int> o; std::string log; int a = o.add( [&]( int ) { log += 'a'; } ), b = o.add( [&]( int ) { log += 'b'; } ); o.add( [&]( int ) { log += 'c'; } ); o( 1 ); EXPECT( log == "abc" ); o.remove( a ); o.remove( b ); o.add( [&]( int ) { log += 'd'; } ); log.clear(); o( 1 ); EXPECT( log == "cd" ); return 0; }
''', libs=False)
bug("i02-integer-range", "I02", [(I+"OptionalParameters.h", "dst = std::stoi( m_value );", "dst = static_cast<int>( std::stoll( m_value ) );")],
  "a text with a number beyond the range of int", "the number wraps around instead of being rejected",
  '''#include "ode_num_int/OptionalParameters.h"
using ctm::OptionalParameters; int main() { OptionalParameters::Value v( std::string( "4294967297" ) ); bool threw = false; try { v.value<int>(); } catch( const std::exception& ) { threw = true; } EXPECT( threw ); return 0; }
''')
bug("i04-name-prefix", "I04", [(I+"Factory.h", "auto it = r.find( typeId );\n            if( it == r.end() )", "auto it = r.lower_bound( typeId );\n            if( it == r.end()   ||   it->first.compare( 0, typeId.size(), typeId ) != 0 )")],
  "a name that is the beginning of a registered one", "an unknown name creates some other component",
  OD+'''int main() { bool threw = false; try { Factory<Solver>::newInstance( "dopri_7" ); } catch( const std::exception& ) { threw = true; } EXPECT( threw ); return 0; }
''')
bug("u01-unfinished-exponent", "U01", [("include/ode_num_int/util/lex_idnum.h", "([eE][+-]?[0-9]+)?$", "([eE][+-]?[0-9]*)?$")],
  "a number with an exponent sign but no exponent", "it is taken for a number",
  '''#include "ode_num_int/util/lex_idnum.h"
int main() { EXPECT( ctm::lang::IsNumber( "1e5" ) ); EXPECT( !ctm::lang::IsNumber( "1e" ) ); EXPECT( !ctm::lang::IsNumber( "2.5e+" ) ); return 0; }
''', libs=False)
