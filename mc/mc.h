// mc.h - a small stateless model checker for sequential C++ code.
//
// A scenario is a closed driver (a function) that calls mc::choose(n) wherever the environment or the
// user of the library has a choice: which operation comes next, which argument, which answer a callback
// gives. The explorer runs the scenario once per complete choice sequence, in depth-first order, until
// every sequence within the scenario's bounds has been executed on the real code. Nothing is sampled.
//
// Each execution checks the real code against a reference model with MC_CHECK / mc::fail. Executions run
// in worker processes (one process per shard of the choice tree); crashes, sanitizer reports, failed ASSERTs
// and hangs of the code under test are violations of the running execution. Every violation is replayed
// in a fresh process before it is reported.
#pragma once
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

// --- choices -------------------------------------------------------------------------------------
// Returns a number in [0,n); all values are explored. n must be a function of earlier choices only.
int choose( int n, const char *what = "choice" );
// Like choose, but any non-zero answer is a deviation from the default; at most deviationBound()
// deviations are made on a path. The set of executions is exhaustive within that bound.
int deviate( int n, const char *what = "deviation" );
void setDeviationBound( int k );
template<class T> const T& pick( const std::vector<T>& v, const char *what = "pick" ) { return v[(size_t)choose((int)v.size(), what)]; }
inline bool flip( const char *what = "flip" ) { return choose(2, what) != 0; }
// Work sharding: the choice tree is distributed over the workers once the number of alternatives seen on
// a path reaches this product (default 400). Call first in a scenario with few but long executions.
void splitAt( double product );
// Abandon the current execution (e.g. an infeasible combination of choices). Counted separately.
[[noreturn]] void prune();

// --- tier ------------------------------------------------------------------------------------------
bool thorough();
template<class T> T tier( T q, T t ) { return thorough() ? t : q; }

// --- observation -----------------------------------------------------------------------------------
void step( int n = 1 );                          // a transition of the real code was executed and compared
void state( uint64_t hash );                     // a distinct state of code+model was reached
void state( const std::string& canonical );
void outcome( const std::string& what );         // distinct observable outcome class (vacuity monitor)
bool logging();                                  // true when a trace is being recorded (replay, samples)
void logLine( const std::string& s );
#define MC_LOG(expr) do { if( ::mc::logging() ) { std::ostringstream mc_os_; mc_os_.precision(17); mc_os_ << expr; ::mc::logLine(mc_os_.str()); } } while(0)

// --- verdicts --------------------------------------------------------------------------------------
// 'sig' identifies the failing site/input for the known-findings file: keep it specific.
[[noreturn]] void fail( const std::string& sig, const std::string& msg );
#define MC_CHECK(cond, sig, expr) do { if( !(cond) ) { std::ostringstream mc_os_; mc_os_.precision(17); mc_os_ << #cond << " : " << expr; ::mc::fail(sig, mc_os_.str()); } } while(0)
// Harness error (not a verdict about the code under test).
[[noreturn]] void broken( const std::string& msg );

// --- hashing ---------------------------------------------------------------------------------------
struct Hash {
    uint64_t h = 1469598103934665603ull;
    Hash& u( uint64_t v ) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 1099511628211ull; return *this; }
    Hash& d( double v );
    Hash& s( const std::string& v );
    operator uint64_t() const { return h; }
    };

// --- scenarios ----------------------------------------------------------------------------------------
struct Scenario {
    std::string name;
    std::string bounds;                          // human readable statement of alphabet and bounds
    std::function<void()> fn;
    int tiers;                                   // 1 quick, 2 thorough, 3 both
    double hang_s;                               // wall seconds after which an execution is a suspected hang
    };
struct Reg { Reg( const char *name, const char *bounds, void (*fn)(), int tiers = 3, double hang_s = 20 ); };
#define MC_SCENARIO_T(id, bounds, tiers) static void id(); static ::mc::Reg mc_reg_##id( #id, bounds, &id, tiers ); static void id()
#define MC_SCENARIO(id, bounds) MC_SCENARIO_T(id, bounds, 3)

// Set once by the harness file.
extern const char *assumptions[];                // null terminated

// --- stream capture: the code under test prints to std::cout/cerr in places -------------------------
struct CoutCapture {
    CoutCapture(); ~CoutCapture();
    std::string text() const;
    private: struct P; P *p;
    };

} // end namespace mc
