// mc.cpp - explorer, worker/parent processes, replay, evidence. See mc.h.
#include "mc.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <ftw.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options();
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=99:max_malloc_fill_size=1048576:malloc_fill_byte=255:"
           "hard_rss_limit_mb=3500:quarantine_size_mb=16:allocator_may_return_null=0:detect_stack_use_after_return=0:"
           "handle_abort=0:print_legend=0:print_full_thread_history=0";
}
#endif

namespace mc {

namespace {

const int MAXD = 20000;

struct Shm {
    volatile int scen;
    volatile int depth;
    volatile uint64_t beat;        // bumped after each execution
    volatile int done;
    short choices[MAXD];
    short arity[MAXD];
    char sig[512];
    char msg[4096];
    };

struct SkipEx {};
struct PruneEx {};
struct FailEx {};

struct Ctx {
    Shm *shm = nullptr;
    int pos = 0;
    int replayLen = 0;             // choices up to here are prescribed
    int devBound = 0, devUsed = 0;
    bool aborted = false;          // Skip or Prune in progress
    bool skipped = false, pruned = false;
    bool failed = false;
    std::string sig, msg;
    bool logging = false;
    std::vector<std::string> log;
    uint64_t obs = 0;              // hash over observations of this execution
    // sharding
    int W = 1, w = 0;
    bool sharding = false;
    double splitThreshold = 400; double prod = 1; uint64_t ph = 0; bool splitDone = false; bool owned = true;
    bool countStates = true;
    // statistics of the current scenario
    uint64_t transitions = 0, execs = 0, pruneds = 0;
    std::unordered_set<uint64_t> states;
    bool statesCapped = false;
    std::map<std::string,uint64_t> outcomes; std::vector<std::string> execOutcomes;
    uint64_t trans_exec = 0;
    int maxDepth = 0;
    };
Ctx g;
bool g_thorough = false;

std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }

void doFail( const std::string& sig, const std::string& msg ) {
    if( !g.failed ) { g.failed = true; g.sig = sig; g.msg = msg; }
    throw FailEx();
    }

} // anonymous

Reg::Reg( const char *name, const char *bounds, void (*fn)(), int tiers, double hang_s ) {
    scenarios().push_back( Scenario{ name, bounds, fn, tiers, hang_s } );
    }

double now() { return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count(); }

Hash& Hash::d( double v ) {
    uint64_t x; if( std::isnan(v) ) x = 0x7ff8000000000000ull; else { if( v == 0 ) v = 0; memcpy(&x,&v,8); }
    return u(x);
    }
Hash& Hash::s( const std::string& v ) { for( unsigned char c : v ) { h ^= c; h *= 1099511628211ull; } return u(v.size()); }

int choose( int n, const char *what ) {
    if( g.aborted || g.failed ) return 0;
    if( n <= 0 || n > 32767 ) broken( std::string("choose with an impossible number of alternatives: ") + what );
    if( n == 1 ) return 0;
    int c;
    Shm *s = g.shm;
    if( g.pos < g.replayLen ) {
        if( s->arity[g.pos] != n )
            doFail( "nondeterminism", "the same choices led to different behaviour: expected " + std::to_string(s->arity[g.pos])
                    + " alternatives, got " + std::to_string(n) + " at " + what );
        c = s->choices[g.pos];
        }
    else {
        if( g.pos >= MAXD ) doFail( "unbounded-execution", "execution exceeds the horizon of choice points" );
        c = 0; s->choices[g.pos] = 0; s->arity[g.pos] = (short)n;
        s->depth = g.pos+1;
        }
    ++g.pos;
    if( g.pos > g.maxDepth ) g.maxDepth = g.pos;
    if( g.logging ) { /* choices are implied by the op log */ }
    if( g.sharding && !g.splitDone ) {
        g.prod *= n; g.ph = (g.ph*1000003u) ^ (uint64_t)(c+1);
        if( g.prod >= g.splitThreshold ) {
            g.splitDone = true;
            uint64_t h = g.ph*0x9e3779b97f4a7c15ull; h ^= h>>32;
            if( int(h % (uint64_t)g.W) != g.w ) { g.aborted = g.skipped = true; g.replayLen = 0; s->depth = g.pos; throw SkipEx(); }
            }
        }
    return c;
    }

void setDeviationBound( int k ) { g.devBound = k; }
int deviate( int n, const char *what ) {
    if( g.devUsed >= g.devBound ) return 0;
    int c = choose( n, what );
    if( c ) ++g.devUsed;
    return c;
    }
void prune() { g.aborted = g.pruned = true; throw PruneEx(); }
bool thorough() { return g_thorough; }
void step( int n ) { if( !g.aborted ) g.trans_exec += n; }
void state( uint64_t h ) {
    g.obs = (g.obs ^ h)*1099511628211ull + 12345;
    if( g.countStates ) { if( g.states.size() < 3000000 ) g.states.insert(h); else g.statesCapped = true; }
    }
void state( const std::string& c ) { state( Hash().s(c) ); }
void outcome( const std::string& w ) { g.obs = (g.obs ^ Hash().s(w))*1099511628211ull; if( g.countStates ) g.execOutcomes.push_back( w ); }
bool logging() { return g.logging; }
FILE *g_logf = nullptr;            // replay: streamed, so that the log survives a crash
void logLine( const std::string& s ) {
    if( g_logf ) { if( g.log.size() < 4000 ) { fprintf(g_logf,"%s\n",s.c_str()); fflush(g_logf); g.log.push_back(std::string()); } return; }
    if( g.log.size() < 4000 ) g.log.push_back(s);
    }
void splitAt( double p ) { g.splitThreshold = p; }
void fail( const std::string& sig, const std::string& msg ) { doFail(sig,msg); abort(); }
void broken( const std::string& msg ) { fprintf(stderr, "HARNESS-ERROR: %s\n", msg.c_str()); fflush(stderr); _exit(70); }

struct CoutCapture::P { std::ostringstream os; std::streambuf *old; };
CoutCapture::CoutCapture() : p(new P) { p->old = std::cout.rdbuf( p->os.rdbuf() ); }
CoutCapture::~CoutCapture() { std::cout.rdbuf( p->old ); delete p; }
std::string CoutCapture::text() const { return p->os.str(); }

namespace {

// Runs one execution; the choices [0,replayLen) in shm are prescribed.
void execute( const Scenario& sc ) {
    g.pos = 0; g.aborted = g.skipped = g.pruned = g.failed = false; g.sig.clear(); g.msg.clear();
    g.devBound = 0; g.devUsed = 0; g.obs = 0; g.prod = 1; g.ph = 0; g.splitDone = false; g.splitThreshold = 400; g.trans_exec = 0;
    g.log.clear();
    try { sc.fn(); }
    catch( const SkipEx& ) {}
    catch( const PruneEx& ) {}
    catch( const FailEx& ) {}
    catch( const std::exception& e ) { if( !g.aborted && !g.failed ) { g.failed = true; g.sig = "unexpected-exception"; g.msg = std::string("unexpected exception: ") + e.what(); } }
    catch( ... ) { if( !g.aborted && !g.failed ) { g.failed = true; g.sig = "unexpected-exception"; g.msg = "unexpected exception of unknown type"; } }
    if( !g.aborted && !g.failed && g.pos < g.replayLen ) {
        g.failed = true; g.sig = "nondeterminism"; g.msg = "a replayed prefix ended early";
        }
    }

// Known findings: lines "property=<id> sig=<sig> ..." ; scope is scenario-qualified: sig is "<scenario>/<sig>"
std::map<std::string,std::string> g_known;
void loadKnown( const std::string& file, const std::string& prop ) {
    std::ifstream f(file);
    std::string line;
    while( std::getline(f,line) ) {
        if( line.empty() || line[0]=='#' || line.compare(0,6,"fixed:")==0 ) continue;
        if( line.find("property="+prop+" ") == std::string::npos ) continue;
        auto p = line.find("sig="); if( p == std::string::npos ) continue;
        auto e = line.find(' ',p); if( e == std::string::npos ) e = line.size();
        std::string what = e < line.size() ? line.substr(e+1) : "";
        g_known[line.substr(p+4,e-p-4)] = what;
        }
    }

std::string jsonEsc( const std::string& s ) {
    std::string r;
    for( unsigned char c : s ) {
        if( c=='"' || c=='\\' ) { r += '\\'; r += c; }
        else if( c < 32 || c >= 127 ) { char b[8]; snprintf(b,8,"\\u%04x",c); r += b; }
        else r += c;
        }
    return r;
    }

struct Opts {
    std::string prop, level = "model_checking", outDir, evidence, known;
    int W = 8; double cap = 600; int seed = 1;
    };
Opts o;
std::string self;

std::vector<int> selected() {
    std::vector<int> r; auto& S = scenarios();
    const char *only = getenv("MC_ONLY");
    for( size_t i=0; i<S.size(); ++i )
        if( (S[i].tiers & (g_thorough ? 2 : 1)) && (!only || S[i].name.find(only) != std::string::npos) ) r.push_back((int)i);
    return r;
    }

bool advance( Shm *s ) {
    int d = s->depth;
    while( d > 0 && s->choices[d-1]+1 >= s->arity[d-1] ) --d;
    s->depth = d;
    if( d == 0 ) return false;
    ++s->choices[d-1];
    return true;
    }

std::string wfile( int w, const char *ext ) { return o.outDir + "/w" + std::to_string(w) + ext; }

std::string shmName( int w ) { return o.outDir + "/w" + std::to_string(w) + ".shm"; }
Shm *mapShm( const std::string& f, bool create ) {
    int fd = open( f.c_str(), O_RDWR | (create ? O_CREAT|O_TRUNC : 0), 0600 );
    if( fd < 0 ) { perror(f.c_str()); _exit(70); }
    if( create && ftruncate(fd,sizeof(Shm)) ) { perror("ftruncate"); _exit(70); }
    void *p = mmap( nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0 );
    close(fd);
    if( p == MAP_FAILED ) { perror("mmap"); _exit(70); }
    return (Shm*)p;
    }

void setStr( char *dst, size_t n, const std::string& s ) { strncpy(dst,s.c_str(),n-1); dst[n-1]=0; }

// Worker process: explores shard w of every selected scenario from 'startSel' on. If resume is set, the
// path in shm has been explored already and exploration continues after it.
int worker( int w, int startSel, bool resume ) {
    Shm *s = mapShm( shmName(w), false );
    g.shm = s; g.W = o.W; g.w = w; g.sharding = o.W > 1;
    auto sel = selected();
    std::ofstream out( wfile(w,".out"), std::ios::app );
    double t0 = now();
    bool capped = false;
    for( size_t k = (size_t)startSel; k < sel.size(); ++k ) {
        const Scenario& sc = scenarios()[(size_t)sel[k]];
        s->scen = (int)k;
        g.transitions = g.execs = g.pruneds = 0; g.states.clear(); g.outcomes.clear(); g.statesCapped = false; g.maxDepth = 0;
        bool more = true;
        if( resume && k == (size_t)startSel ) more = advance(s); else s->depth = 0;
        double ts = now();
        uint64_t runs = 0;
        std::vector<std::string> samples;
        double scap = o.cap;
        while( more ) {
            g.replayLen = s->depth;
            g.logging = false; g.countStates = true; g.execOutcomes.clear();
            execute( sc );
            ++runs;
            if( g.failed ) {
                std::string qs = sc.name + "/" + g.sig;
                auto it = g_known.find(qs);
                if( it != g_known.end() ) { out << "known\t" << qs << "\n"; out.flush(); ++g.execs; g.transitions += g.trans_exec; }
                else { setStr(s->sig,sizeof s->sig,qs); setStr(s->msg,sizeof s->msg,g.msg); out.flush(); _exit(77); }
                }
            else if( g.skipped ) {}
            else if( g.pruned ) { ++g.pruneds; }
            else {
                bool owned = !g.sharding || g.splitDone || int((g.ph*0x9e3779b97f4a7c15ull>>33) % (uint64_t)o.W) == w;
                if( owned ) {
                    ++g.execs; g.transitions += g.trans_exec; for( auto& oc : g.execOutcomes ) ++g.outcomes[oc];
                    // determinism monitor (and samples): some executions run twice, back to back
                    if( (g.execs & (g.execs-1)) == 0 ) {
                        uint64_t obs = g.obs; uint64_t te = g.trans_exec; int d = g.pos;
                        g.replayLen = d; g.countStates = false; g.logging = g.execs >= 16 || g.execs == 1;
                        execute( sc );
                        if( g.failed || g.obs != obs || g.trans_exec != te || g.pos != d ) {
                            setStr( s->sig, sizeof s->sig, sc.name + "/" + (g.failed ? g.sig : std::string("history-dependence")) );
                            setStr( s->msg, sizeof s->msg, g.failed ? g.msg + " (on immediate repetition of a passing execution)" : std::string("an identical execution gave different results when repeated in the same process") );
                            out.flush(); _exit(78);
                            }
                        if( samples.size() < 2 ) {
                            std::string t; size_t n = 0;
                            for( auto& l : g.log ) { if( n++ == 14 ) { t += " ; ..."; break; } t += (t.empty()?"":" ; ") + l; }
                            if( t.size() > 900 ) t = t.substr(0,900) + "...";
                            if( !t.empty() ) samples.push_back(t);
                            }
                        }
                    }
                }
            s->beat = s->beat + 1;
            if( (runs & 15) == 0 && now()-t0 > scap ) { capped = true; break; }
            more = advance(s);
            }
        out << "scen\t" << sc.name << "\t" << g.execs << "\t" << g.transitions << "\t" << g.pruneds << "\t" << g.maxDepth << "\t" << (capped?1:0) << "\t" << (g.statesCapped?1:0) << "\t" << (now()-ts) << "\n";
        for( auto& oc : g.outcomes ) out << "outc\t" << sc.name << "\t" << oc.second << "\t" << oc.first << "\n";
        for( auto& sm : samples ) out << "samp\t" << sc.name << "\t" << sm << "\n";
        std::ofstream st( wfile(w,".states"), std::ios::app|std::ios::binary );
        uint64_t hdr[2] = { (uint64_t)sel[k], g.states.size() };
        st.write( (char*)hdr, sizeof hdr );
        std::vector<uint64_t> v( g.states.begin(), g.states.end() );
        if( !v.empty() ) st.write( (char*)v.data(), (std::streamsize)(v.size()*8) );
        out.flush();
        if( capped ) break;
        }
    s->done = 1;
    _exit(0);
    }

// Single-execution replay (fresh process). Exit 0 pass, 77 fail (sig/msg in shm), other = crash.
int replayOne( const std::string& shmf ) {
    Shm *s = mapShm( shmf, false );
    g.shm = s; g.sharding = false; g.countStates = true; g.logging = true;
    auto sel = selected();
    // scen is an index into all scenarios here
    const Scenario& sc = scenarios()[(size_t)s->scen];
    g.replayLen = s->depth;
    g_logf = fopen( (shmf + ".log").c_str(), "w" );
    execute( sc );
    if( g_logf ) fclose(g_logf);
    if( g.failed ) { setStr(s->sig,sizeof s->sig, sc.name + "/" + g.sig); setStr(s->msg,sizeof s->msg,g.msg); _exit(77); }
    _exit(0);
    }

pid_t spawn( const std::vector<std::string>& args, const std::string& err ) {
    pid_t p = fork();
    if( p == 0 ) {
        int n = open("/dev/null",O_WRONLY); dup2(n,1); close(n);
        int e = open(err.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); dup2(e,2); close(e);
        struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE,&rl);
        std::vector<char*> a; a.push_back((char*)self.c_str());
        for( auto& x : args ) a.push_back((char*)x.c_str());
        a.push_back(nullptr);
        execv( self.c_str(), a.data() );
        _exit(71);
        }
    return p;
    }

std::string crashSummary( const std::string& errFile, int status ) {
    std::ifstream f(errFile); std::string line, r; int stack = 0;
    while( std::getline(f,line) ) {
        if( line.find("ERROR: AddressSanitizer")!=std::string::npos || line.find("runtime error:")!=std::string::npos
            || line.find("Assertion")!=std::string::npos || line.find("terminate called")!=std::string::npos || line.find("what():")!=std::string::npos
            || line.find("AddressSanitizer:")!=std::string::npos || line.find("hard rss limit")!=std::string::npos ) { if( r.size() < 900 ) r += line + " | "; }
        else if( stack < 6 && line.find("    #")==0 ) { r += line.substr(4,220) + " | "; ++stack; }
        }
    std::ostringstream os;
    if( WIFSIGNALED(status) ) os << "killed by signal " << WTERMSIG(status); else os << "exit status " << WEXITSTATUS(status);
    return os.str() + ": " + r;
    }

// Returns: 0 pass, 1 failed (sig/msg filled), 2 hang, 3 harness error
int replayProcess( int scenAll, const std::vector<short>& ch, const std::vector<short>& ar, double limit, std::string& sig, std::string& msg, std::vector<std::string>& log ) {
    std::string f = o.outDir + "/replay.shm";
    { Shm *s = mapShm(f,true); s->scen = scenAll; s->depth = (int)ch.size();
      for( size_t i=0; i<ch.size(); ++i ) { s->choices[i]=ch[i]; s->arity[i]=ar[i]; } munmap(s,sizeof(Shm)); }
    unlink( (f+".log").c_str() );
    std::string err = o.outDir + "/replay.err";
    std::vector<std::string> args = { "--replay-one", f };
    pid_t p = spawn( args, err );
    double t0 = now(); int st = 0; bool hang = false;
    while( waitpid(p,&st,WNOHANG) == 0 ) {
        if( now()-t0 > limit ) { kill(p,SIGKILL); waitpid(p,&st,0); hang = true; break; }
        usleep(3000);
        }
    log.clear();
    { std::ifstream lg(f+".log"); std::string l; while( std::getline(lg,l) ) log.push_back(l); }
    const std::string& sn = scenarios()[(size_t)scenAll].name;
    if( hang ) { std::ostringstream os; os << "execution did not finish within " << limit << " s"; sig = sn + "/hang"; msg = os.str(); return 2; }
    if( WIFEXITED(st) && WEXITSTATUS(st)==0 ) return 0;
    if( WIFEXITED(st) && WEXITSTATUS(st)==77 ) { Shm *s = mapShm(f,false); sig = s->sig; msg = s->msg; munmap(s,sizeof(Shm)); return 1; }
    if( WIFEXITED(st) && (WEXITSTATUS(st)==70 || WEXITSTATUS(st)==71) ) { std::ifstream e(err); std::string l; std::getline(e,l); msg = l; return 3; }
    // crash: identify the path in the signature
    std::ostringstream os; os << sn << "/crash:"; for( auto c : ch ) os << c << ".";
    std::string full = os.str(); if( full.size() > 200 ) full = full.substr(0,180) + "#" + std::to_string(Hash().s(full).h);
    sig = full; msg = crashSummary(err,st); return 1;
    }

void writeReplay( const std::string& file, int scenAll, const std::vector<short>& ch, const std::vector<short>& ar, const std::string& sig, const std::string& msg, const std::vector<std::string>& log, const std::string& mode ) {
    std::ofstream f(file);
    f << "# replay with: /verif/check " << o.prop << " --replay " << file << "\n";
    f << "property " << o.prop << "\ntier " << (g_thorough?"thorough":"quick") << "\nmode " << mode << "\nscenario " << scenarios()[(size_t)scenAll].name << "\n";
    f << "signature " << sig << "\nmessage " << msg << "\nchoices"; for( auto c : ch ) f << " " << c; f << "\narities"; for( auto c : ar ) f << " " << c; f << "\n";
    f << "trace:\n"; for( auto& l : log ) f << "  " << l << "\n";
    }

int replayFile( const std::string& file ) {
    std::ifstream f(file); std::string line, scen; std::vector<short> ch, ar; std::string tier;
    while( std::getline(f,line) ) {
        std::istringstream is(line); std::string k; is >> k;
        if( k=="scenario" ) is >> scen;
        if( k=="choices" ) { int c; while( is >> c ) ch.push_back((short)c); }
        if( k=="arities" ) { int c; while( is >> c ) ar.push_back((short)c); }
        }
    int idx = -1; for( size_t i=0; i<scenarios().size(); ++i ) if( scenarios()[i].name==scen ) idx = (int)i;
    if( idx < 0 ) { fprintf(stderr,"unknown scenario %s\n",scen.c_str()); return 2; }
    std::string sig,msg; std::vector<std::string> log;
    int r = replayProcess( idx, ch, ar, 300, sig, msg, log );
    for( auto& l : log ) printf("  %s\n",l.c_str());
    if( r==0 ) { printf("replay: passes\n"); return 0; }
    printf("replay: %s\n  %s\n", sig.c_str(), msg.c_str());
    if( r==3 ) return 2;
    printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), file.c_str());
    return 1;
    }

struct ScenStat { uint64_t execs=0, trans=0, pruned=0; int depth=0; bool capped=false, stCapped=false; double t=0; std::map<std::string,uint64_t> outc; std::vector<std::string> samples; std::unordered_set<uint64_t> states; };

void collect( std::map<std::string,ScenStat>& st, std::set<std::string>& known ) {
    for( int w=0; w<o.W; ++w ) {
        std::ifstream f( wfile(w,".out") ); std::string line;
        while( std::getline(f,line) ) {
            std::vector<std::string> v; size_t p = 0, q;
            while( (q = line.find('\t',p)) != std::string::npos ) { v.push_back(line.substr(p,q-p)); p = q+1; }
            v.push_back( line.substr(p) );
            if( v[0]=="known" ) known.insert(v[1]);
            else if( v[0]=="scen" && v.size()>=9 ) { auto& s = st[v[1]]; s.execs += std::stoull(v[2]); s.trans += std::stoull(v[3]); s.pruned += std::stoull(v[4]); s.depth = std::max(s.depth,std::stoi(v[5])); s.capped |= v[6]=="1"; s.stCapped |= v[7]=="1"; s.t = std::max(s.t,atof(v[8].c_str())); }
            else if( v[0]=="outc" && v.size()>=4 ) st[v[1]].outc[v[3]] += std::stoull(v[2]);
            else if( v[0]=="samp" && v.size()>=3 ) { auto& s = st[v[1]].samples; if( s.size() < 2 ) s.push_back(v[2]); }
            }
        std::ifstream b( wfile(w,".states"), std::ios::binary );
        uint64_t hdr[2];
        while( b.read((char*)hdr,sizeof hdr) ) {
            std::vector<uint64_t> v(hdr[1]); if( !v.empty() && !b.read((char*)v.data(),(std::streamsize)(v.size()*8)) ) break;
            st[scenarios()[hdr[0]].name].states.insert(v.begin(),v.end());
            }
        }
    }

void evidence( double wall, int violations, std::set<std::string>& known, const std::string& vtext ) {
    std::map<std::string,ScenStat> st; collect(st,known);
    uint64_t ns=0, nt=0, ne=0, np=0, no=0; bool exh = violations==0;
    for( auto& s : st ) { ns += s.second.states.size(); nt += s.second.trans; ne += s.second.execs; np += s.second.pruned; no += s.second.outc.size(); if( s.second.capped ) exh = false; }
    std::ofstream f(o.evidence);
    f << "{\n \"property\": \"" << o.prop << "\", \"tier\": \"" << (g_thorough?"thorough":"quick") << "\", \"seed\": " << o.seed << ", \"level\": \"" << o.level << "\",\n \"coverage\": {\n";
    f << "  \"states\": " << ns << ", \"transitions\": " << nt << ", \"traces_validated_against_impl\": " << ne << ", \"exhaustive\": " << (exh?"true":"false") << ",\n";
    f << "  \"pruned_paths\": " << np << ", \"distinct_outcome_classes\": " << no << ",\n";
    f << "  \"rule\": \"every choice sequence of each scenario within its stated bounds is executed on the real code and compared with the reference model at every step; states are distinct hashes of the observed state of code and model, transitions are operations of the real code executed and compared, a trace is one complete choice sequence\",\n";
    f << "  \"scenarios\": [\n";
    bool first = true;
    for( int i : selected() ) {
        auto& sc = scenarios()[(size_t)i]; auto& s = st[sc.name];
        if( !first ) f << ",\n"; first = false;
        f << "   {\"name\": \"" << jsonEsc(sc.name) << "\", \"bounds\": \"" << jsonEsc(sc.bounds) << "\", \"executions\": " << s.execs << ", \"transitions\": " << s.trans << ", \"states\": " << s.states.size() << ", \"pruned\": " << s.pruned
          << ", \"max_choice_depth\": " << s.depth << ", \"completed\": " << (s.capped?"false":"true") << ", \"states_capped\": " << (s.stCapped?"true":"false") << ", \"wall_s\": " << s.t << ", \"outcomes\": {";
        bool f2 = true; int n = 0; for( auto& oc : s.outc ) { if( n++ == 40 ) break; if( !f2 ) f << ", "; f2 = false; f << "\"" << jsonEsc(oc.first) << "\": " << oc.second; }
        f << "}}";
        }
    f << "\n  ],\n  \"samples\": [";
    first = true;
    for( auto& s : st ) for( auto& x : s.second.samples ) { if( !first ) f << ","; first = false; f << "\n   \"" << jsonEsc(s.first + ": " + x) << "\""; }
    if( first ) f << "\"" << "no trace lines were recorded" << "\"";
    f << "\n  ],\n  \"known_findings_hit\": [";
    first = true; for( auto& k : known ) { if( !first ) f << ", "; first = false; f << "\"" << jsonEsc(k) << "\""; }
    f << "]";
    if( !vtext.empty() ) f << ",\n  \"violation\": \"" << jsonEsc(vtext) << "\"";
    f << "\n },\n \"assumptions\": [";
    first = true; for( const char **a = assumptions; *a; ++a ) { if( !first ) f << ", "; first = false; f << "\"" << jsonEsc(*a) << "\""; }
    f << "],\n \"wall_s\": " << wall << ", \"violations\": " << violations << "\n}\n";
    f.close();
    printf("%s %s: %llu executions, %llu transitions, %llu states, %llu outcome classes, %s, %.1f s\n", o.prop.c_str(), g_thorough?"thorough":"quick",
        (unsigned long long)ne, (unsigned long long)nt, (unsigned long long)ns, (unsigned long long)no, exh?"exhaustive within bounds":"NOT exhaustive", wall);
    for( auto& s : st ) {
        printf("  %-34s exec %-9llu trans %-10llu states %-8llu depth %-4d outc %-4zu %5.1fs%s\n", s.first.c_str(), (unsigned long long)s.second.execs, (unsigned long long)s.second.trans, (unsigned long long)s.second.states.size(), s.second.depth, s.second.outc.size(), s.second.t, s.second.capped?" CAPPED":"");
        if( getenv("MC_VERBOSE") ) for( auto& oc : s.second.outc ) printf("      %8llu  %s\n", (unsigned long long)oc.second, oc.first.c_str());
        }
    }

int parent() {
    double t0 = now();
    auto sel = selected();
    std::vector<pid_t> pid((size_t)o.W); std::vector<Shm*> shm((size_t)o.W);
    std::vector<uint64_t> beat((size_t)o.W,0); std::vector<double> tb((size_t)o.W,now());
    std::set<std::string> known;
    auto start = [&]( int w, int k, bool resume ) {
        pid[(size_t)w] = spawn( { "--worker", std::to_string(w), std::to_string(k), resume?"1":"0" }, wfile(w,".err") );
        tb[(size_t)w] = now();
        };
    for( int w=0; w<o.W; ++w ) {
        unlink(wfile(w,".out").c_str()); unlink(wfile(w,".states").c_str());
        shm[(size_t)w] = mapShm( shmName(w), true );
        start(w,0,false);
        }
    int alive = o.W;
    auto killAll = [&]{ for( int w=0; w<o.W; ++w ) if( pid[(size_t)w] > 0 ) { kill(pid[(size_t)w],SIGKILL); int st; waitpid(pid[(size_t)w],&st,0); pid[(size_t)w] = 0; } };
    while( alive > 0 ) {
        int st; bool any = false;
        for( int w=0; w<o.W; ++w ) {
            if( pid[(size_t)w] <= 0 ) continue;
            Shm *s = shm[(size_t)w];
            pid_t r = waitpid( pid[(size_t)w], &st, WNOHANG );
            bool hang = false;
            if( r == 0 ) {
                if( s->beat != beat[(size_t)w] ) { beat[(size_t)w] = s->beat; tb[(size_t)w] = now(); continue; }
                int k = s->scen; double lim = k < (int)sel.size() ? scenarios()[(size_t)sel[(size_t)k]].hang_s : 20;
                if( now()-tb[(size_t)w] < lim ) continue;
                kill( pid[(size_t)w], SIGKILL ); waitpid( pid[(size_t)w], &st, 0 ); hang = true;
                }
            any = true;
            pid[(size_t)w] = 0;
            if( !hang && WIFEXITED(st) && WEXITSTATUS(st)==0 && s->done ) { --alive; continue; }
            if( WIFEXITED(st) && (WEXITSTATUS(st)==70 || WEXITSTATUS(st)==71) ) {
                std::ifstream e(wfile(w,".err")); std::string l; std::getline(e,l); fprintf(stderr,"%s\n",l.c_str());
                killAll(); return 2;
                }
            // candidate violation
            int k = s->scen; int all = sel[(size_t)k];
            std::vector<short> ch(s->choices,s->choices+s->depth), ar(s->arity,s->arity+s->depth);
            std::string wsig = (WIFEXITED(st) && (WEXITSTATUS(st)==77||WEXITSTATUS(st)==78)) ? s->sig : "", wmsg = wsig.empty() ? (hang ? "suspected hang" : crashSummary(wfile(w,".err"),st)) : s->msg;
            std::string sig, msg; std::vector<std::string> log;
            int rr = replayProcess( all, ch, ar, hang ? 6*scenarios()[(size_t)all].hang_s : 300, sig, msg, log );
            std::string mode = "single";
            if( rr == 3 ) { fprintf(stderr,"harness error while replaying: %s\n",msg.c_str()); killAll(); return 2; }
            if( rr == 0 ) {
                if( hang ) { // slow machine: continue after this execution
                    fprintf(stderr,"note: execution flagged as slow finished on replay; continuing\n");
                    start(w,k,true); continue;
                    }
                // not reproducible alone: does the whole shard reproduce it? (state leaking between executions)
                killAll();
                unlink(wfile(w,".out").c_str()); unlink(wfile(w,".states").c_str());
                memset((void*)s,0,sizeof(Shm));
                pid_t p = spawn( { "--worker", std::to_string(w), "0", "0" }, wfile(w,".err") );
                int st2; waitpid(p,&st2,0);
                bool same = (WIFEXITED(st2)?WEXITSTATUS(st2):-WTERMSIG(st2)) == (WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st)) && s->scen==k && s->depth==(int)ch.size() && std::equal(ch.begin(),ch.end(),s->choices);
                if( !same ) { fprintf(stderr,"HARNESS-ERROR: irreproducible failure: %s %s\n",wsig.c_str(),wmsg.c_str()); return 2; }
                mode = "shard " + std::to_string(w) + "/" + std::to_string(o.W);
                sig = wsig.empty() ? scenarios()[(size_t)all].name + "/crash-after-history" : wsig; msg = wmsg + " (only after the preceding executions of the shard in the same process)";
                }
            if( g_known.count(sig) && mode=="single" ) { std::ofstream out(wfile(w,".out"),std::ios::app); out << "known\t" << sig << "\n"; out.close(); start(w,k,true); continue; }
            killAll();
            std::string rf = o.outDir + "/violation.replay";
            writeReplay( rf, all, ch, ar, sig, msg, log, mode );
            printf("property %s violated in scenario %s\n  %s\n  %s\n", o.prop.c_str(), scenarios()[(size_t)all].name.c_str(), sig.c_str(), msg.c_str());
            size_t n = 0; for( auto& l : log ) { if( n++ == 60 ) { printf("    ...\n"); break; } printf("    %s\n",l.c_str()); }
            evidence( now()-t0, 1, known, sig + " " + msg );
            for( auto& kf : known ) printf("KNOWN-FINDING: property=%s %s %s\n", o.prop.c_str(), kf.c_str(), g_known[kf].c_str());
            printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), rf.c_str());
            return 1;
            }
        if( !any ) usleep(5000);
        }
    evidence( now()-t0, 0, known, "" );
    for( auto& kf : known ) printf("KNOWN-FINDING: property=%s %s %s\n", o.prop.c_str(), kf.c_str(), g_known[kf].c_str());
    return 0;
    }

} // anonymous
} // namespace mc

int main( int argc, char **argv ) {
    using namespace mc;
    char buf[4096]; ssize_t n = readlink("/proc/self/exe",buf,sizeof buf-1); if( n < 0 ) return 2; buf[n]=0; self = buf;
    auto env = []( const char *k, const char *d ) { const char *v = getenv(k); return std::string( v && *v ? v : d ); };
    o.prop = env("MC_PROPERTY","X00"); o.outDir = env("MC_OUT","/tmp"); o.evidence = env("MC_EVIDENCE","/tmp/evidence.json"); o.known = env("MC_KNOWN","/nonexistent");
    o.W = atoi(env("MC_WORKERS","8").c_str()); o.cap = atof(env("MC_CAP_S","600").c_str()); o.seed = atoi(env("VERIF_SEED","1").c_str());
    g_thorough = env("MC_TIER","quick") == "thorough";
    loadKnown( o.known, o.prop );
    if( argc >= 5 && !strcmp(argv[1],"--worker") ) return worker( atoi(argv[2]), atoi(argv[3]), argv[4][0]=='1' );
    if( argc >= 3 && !strcmp(argv[1],"--replay-one") ) return replayOne( argv[2] );
    // a directory for whatever the executions write; it goes when the check ends
    char dir[] = "/tmp/mc.XXXXXX"; if( !mkdtemp( dir ) ) return 2;
    setenv( "MC_SCRATCH", dir, 1 );
    int rc = argc >= 3 && !strcmp(argv[1],"--replay") ? replayFile( argv[2] ) : parent();
    nftw( dir, []( const char *p, const struct stat *, int, struct FTW * ) { return remove( p ); }, 16, FTW_DEPTH | FTW_PHYS );
    return rc;
    }
