// I01: observer lists, scoped owners and notified properties, for all bounded histories.
// FLAGS: -U_DEBUG
// (assertions off: removing an unknown handle is documented to do nothing but assert in debug builds)
#include "hutil.h"
#include <memory>
#include <algorithm>
#include "ode_num_int/infra/cxx_observers.h"
#include "ode_num_int/infra/def_prop_class.h"
namespace mc { const char *assumptions[] = {
    "a list outlives the scoped owners of its entries",
    "an observer does not remove itself while it is running (removing others, adding, throwing and notifying other lists are covered)",
    "whether an observer added during a notification is already called by that notification is left open", nullptr }; }
namespace {
using namespace ctm::cxx;
struct Boom { int who; };
typedef std::vector<int> L;
std::string sl( const L& l ) { std::ostringstream s; s << "["; for( int x : l ) s << " " << x; s << " ]"; return s.str(); }

// What an observer does when called, besides recording the call.
enum Act { Plain, AddsOne, RemovesOther, Throws, Clears };
struct Entry { int id; int name; Act act; int target; };      // model of a registered observer

// One list under test with its model. List is Observers<std::string,int&> or TerminatingObservers<...>
template<class List> struct World {
    List list;
    std::vector<Entry> model;
    int nextName = 0;
    L calls; std::vector<std::string> argsSeen; int *refSeen = nullptr;
    std::vector<int> addedDuring;
    typedef typename List::cb_type cb;
    bool answer( int name ) const { return answers >> (name % 3) & 1; }
    int answers = 0;

    template<class R> struct Ret { static R of( bool b ) { return b; } };
    cb makeCb( int name, Act act, int target ) {
        World *w = this;
        return [w,name,act,target]( std::string s, int& r ) { return w->called( name, act, target, s, r ), typename cb::result_type( retOf( w->answer(name), (typename cb::result_type*)nullptr ) ); };
        }
    static bool retOf( bool b, bool* ) { return b; }
    static void retOf( bool, void* ) {}
    void called( int name, Act act, int target, std::string& s, int& r ) {
        calls.push_back( name ); argsSeen.push_back( s ); refSeen = &r; s = "overwritten"; ++r;
        switch( act ) {
            case Throws: throw Boom{ name };
            case AddsOne: if( addedDuring.empty() ) { int nm = nextName++; addedDuring.push_back( nm ); int id = list.add( makeCb( nm, Plain, 0 ) ); checkFresh( id ); model.push_back( Entry{ id, nm, Plain, 0 } ); } break;
            case RemovesOther: for( size_t i=0;i<model.size();++i ) if( model[i].name == target && target != name ) { list.remove( model[i].id ); model.erase( model.begin()+(long)i ); break; } break;
            default: ;
            }
        }
    void checkFresh( int id ) { for( auto& e : model ) MC_CHECK( e.id != id, "shared-handle", "handle " << id << " is given to two live observers" ); MC_CHECK( id >= 0, "handle", "handle " << id ); }
    int add( Act act, int target ) { int nm = nextName++; int id = list.add( makeCb( nm, act, target ) ); checkFresh( id ); model.push_back( Entry{ id, nm, act, target } ); return id; }
    void drop( int id ) { for( size_t i=0;i<model.size();++i ) if( model[i].id == id ) { model.erase( model.begin()+(long)i ); return; } }
    void checkEmpty() { MC_CHECK( list.empty() == model.empty(), "empty", "empty() is " << list.empty() << " with " << model.size() << " observers" );
        size_t n = 0; for( auto it = list.begin(); it != list.end(); ++it, ++n ) MC_CHECK( n < model.size() && it->first == model[n].id, "iteration", "entry " << n << " has handle " << it->first ); MC_CHECK( n == model.size(), "iteration", n << " entries listed of " << model.size() ); }

    template<class F> void notify( F call ) {
        calls.clear(); argsSeen.clear(); addedDuring.clear();
        std::vector<Entry> before = model; int count = 0; bool threw = false; bool result = false;
        try { result = call( std::string("payload, long enough to live on the heap"), count ); } catch( const Boom& ) { threw = true; }
        // expected: walk the observers registered at the start, skipping those removed meanwhile
        L want; bool wantThrow = false, any = false; std::vector<int> gone; bool addDone = false;
        for( auto& e : before ) {
            if( std::find( gone.begin(), gone.end(), e.name ) != gone.end() ) continue;
            want.push_back( e.name ); any = any || answer( e.name );
            if( e.act == RemovesOther && e.target != e.name ) gone.push_back( e.target );
            if( e.act == AddsOne ) addDone = true;
            if( e.act == Throws ) { wantThrow = true; break; }
            }
        L got = calls; bool addedCalled = false;
        if( addDone && !wantThrow && !got.empty() && got.back() == addedDuring[0] && got.size() == want.size()+1 ) { got.pop_back(); addedCalled = true; any = any || answer( addedDuring[0] ); }
        MC_LOG( "notify: " << sl(calls) << (threw ? " threw" : "") );
        MC_CHECK( got == want && threw == wantThrow, "calls", "called " << sl(calls) << (threw?" and threw":"") << ", registered and due: " << sl(want) << (wantThrow?" with the last one throwing":"") );
        for( auto& s : argsSeen ) MC_CHECK( s == "payload, long enough to live on the heap", "arguments", "an observer received '" << s << "'" );
        MC_CHECK( count == (int)calls.size() && (calls.empty() || refSeen == &count), "reference-argument", "the reference argument was passed on " << count << " times for " << calls.size() << " calls" );
        if( !threw ) checkResult( result, any, (typename cb::result_type*)nullptr );
        (void)addedCalled;
        mc::step(); mc::outcome( threw ? "exception" : addDone ? "added during notification" : !gone.empty() ? "removed during notification" : want.empty() ? "no observers" : "plain" );
        }
    void checkResult( bool result, bool any, bool* ) { MC_CHECK( result == any, "terminating", "terminating observers answered " << any << " in total, result is " << result ); }
    void checkResult( bool, bool, void* ) {}
    };
typedef Observers<std::string,int&> OL;
typedef TerminatingObservers<std::string,int&> TL;
bool invoke( const OL& l, std::string s, int& r ) { l( s, r ); return false; }
bool invoke( const TL& l, std::string s, int& r ) { return l( s, r ); }

template<class List> void history( int depth ) {
    typedef ScopedIdentifiedElement<typename List::cb_type> Owner;
    World<List> w; w.answers = std::is_same<List,TL>::value ? mc::choose( 4, "answers" ) : 0;
    struct Owned { std::unique_ptr<Owner> o; int id; };
    std::vector<Owned> owners; std::vector<int> dead; std::vector<std::unique_ptr<Owner>> ended;  // owners that have finished or handed over, and still exist
    for( int d=0; d<depth; ++d ) {
        int op = mc::choose( 10, "operation" );
        switch( op ) {
            case 0: case 1: case 2: case 3: { Act a = op==0 ? Plain : op==1 ? AddsOne : op==2 ? Throws : RemovesOther; int target = 0;
                if( a == RemovesOther ) target = mc::choose( w.nextName+2, "whom" );           // earlier, itself (no-op) or a later one
                int id = w.add( a, target ); MC_LOG( "add observer " << w.nextName-1 << (a==AddsOne?" (adds one)":a==Throws?" (throws)":a==RemovesOther?" (removes "+std::to_string(target)+")":"") << " -> handle " << id ); break; }
            case 4: { std::vector<int> free; for( auto& e : w.model ) { bool owned = false; for( auto& o : owners ) if( o.id == e.id ) owned = true; if( !owned ) free.push_back( e.id ); }
                if( free.empty() ) mc::prune(); int id = free[(size_t)mc::choose( (int)free.size(), "which" )]; MC_LOG( "remove handle " << id ); w.list.remove( id ); w.drop( id ); dead.push_back( id ); break; }
            case 5: { int nm = w.nextName++; size_t before = w.model.size(); std::unique_ptr<Owner> o;
                if( mc::flip("maker") ) o.reset( new Owner( makeScopedIdentifiedElement( static_cast<IdentifiedElements<typename List::cb_type>&>(w.list), w.makeCb(nm,Plain,0) ) ) ); else o.reset( new Owner( w.list, w.makeCb(nm,Plain,0) ) );
                int id = -1; size_t n = 0; for( auto& e : w.list ) { ++n; id = e.first; } MC_CHECK( n == before+1, "owner-adds", "owner added " << n-before << " entries" ); w.checkFresh( id );
                w.model.push_back( Entry{ id, nm, Plain, 0 } ); owners.push_back( Owned{ std::move(o), id } ); MC_LOG( "scoped observer " << nm << " -> handle " << id ); break; }
            case 6: { if( owners.empty() ) mc::prune(); size_t i = (size_t)mc::choose( (int)owners.size(), "owner" ); int how = mc::choose(4,"how"); MC_LOG( "scoped owner of handle " << owners[i].id << (how==0?" destroyed":how==1?" finished":how==2?" finished twice":" moved into another") );
                if( how == 3 ) { std::unique_ptr<Owner> moved( new Owner( std::move(*owners[i].o) ) ); int old = mc::choose(3,"old owner"); if( old == 0 ) owners[i].o.reset(); else { if( old == 1 ) owners[i].o->finish(); ended.push_back( std::move(owners[i].o) ); } owners[i].o = std::move(moved); break; }
                if( how >= 1 ) { owners[i].o->finish(); w.drop( owners[i].id ); if( how == 2 ) owners[i].o->finish(); w.checkEmpty(); ended.push_back( std::move(owners[i].o) ); } else { owners[i].o.reset(); w.drop( owners[i].id ); }
                owners.erase( owners.begin()+(long)i ); break; }
            case 7: { // unknown handles are ignored (a handle may be reused once its observer is gone)
                int how = mc::choose( 2, "unknown handle" ); int id = how == 0 ? 1000 : dead.empty() ? -7 : dead.back(); for( auto& e : w.model ) if( e.id == id ) mc::prune();
                MC_LOG( "remove unknown handle " << id ); w.list.remove( id ); break; }
            case 8: if( !owners.empty() ) mc::prune(); MC_LOG( "clear" ); w.list.clear(); w.model.clear(); break;
            default: {
                // an owner whose observer was removed by another observer must not be left behind: such removals only hit plain handles
                for( auto& o : owners ) for( auto& e : w.model ) if( e.act == RemovesOther ) for( auto& t : w.model ) if( t.id == o.id && t.name == e.target ) mc::prune();
                auto& l = w.list; w.notify( [&l]( std::string s, int& r ) { return invoke( l, s, r ); } ); }
            }
        w.checkEmpty();
        mc::Hash hs; for( auto& e : w.model ) hs.u( (unsigned)e.id ).u( e.act ).u( (unsigned)e.target ); hs.u( owners.size() ); mc::state( hs );
        }
    for( auto& o : owners ) for( auto& e : w.model ) if( e.act == RemovesOther ) for( auto& t : w.model ) if( t.id == o.id && t.name == e.target ) mc::prune();
    if( !ended.empty() ) MC_LOG( "finished owners are destroyed" );
    ended.clear(); w.checkEmpty();
    auto& l = w.list; w.notify( [&l]( std::string s, int& r ) { return invoke( l, s, r ); } );
    }
} // anonymous

MC_SCENARIO( plain_list, "all histories of up to 5 (thorough 6) operations out of: add an observer (plain, adding another when called, throwing, removing any other one when called), remove by handle, scoped owner (made two ways, destroyed, finished, finished twice, moved), unknown handle, clear, notify; then notify" )
{
    history<OL>( mc::tier(5,6) );
}
MC_SCENARIO( terminating_list, "the same for observers returning a flag, with all answers, up to 4 (thorough 5) operations" )
{
    history<TL>( mc::tier(4,5) );
}
MC_SCENARIO( copies_and_forwarding, "two lists and a copy: all sequences of 5 (thorough 6) operations out of adding to and removing from each, copying one to the other, forwarding one to the other, notifying either" )
{
    typedef Observers<std::string,int&> O; O a, b; struct E { int id, name; bool fwd; }; std::vector<E> ma, mb; L calls; int next = 0; bool linked = false;
    for( int d=0; d<mc::tier(5,6); ++d ) {
        int op = mc::choose( 8, "operation" ); bool onB = op & 1; O& l = onB ? b : a; auto& ml = onB ? mb : ma;
        switch( op/2 ) {
            case 0: { int nm = next++; int id = l.add( [&calls,nm]( std::string, int& ) { calls.push_back( nm ); } ); for( auto& e : ml ) MC_CHECK( e.id != id, "shared-handle", "handle " << id << " twice" ); ml.push_back( E{ id, nm, false } ); MC_LOG( "add " << nm << " to " << (onB?"b":"a") ); break; }
            case 1: { if( ml.empty() ) mc::prune(); size_t i = (size_t)mc::choose( (int)ml.size() ); if( ml[i].fwd ) linked = false; MC_LOG( "remove handle " << ml[i].id << " from " << (onB?"b":"a") ); l.remove( ml[i].id ); ml.erase( ml.begin()+(long)i ); break; }
            case 2: if( onB ) { if( linked ) mc::prune(); b = a; mb = ma; MC_LOG( "b = a" ); } else { if( linked ) mc::prune(); int id = forwardObservers( a, b ); ma.push_back( E{ id, -1, true } ); linked = true; MC_LOG( "forward a to b" ); } break;
            default: { calls.clear(); int r = 0; l( "x", r ); L want; for( auto& e : ml ) if( !e.fwd ) want.push_back( e.name ); else for( auto& f : mb ) want.push_back( f.name ); MC_LOG( "notify " << (onB?"b":"a") << ": " << sl(calls) ); MC_CHECK( calls == want, "calls", "called " << sl(calls) << ", expected " << sl(want) ); mc::step(); mc::outcome( linked ? "forwarded" : "plain" ); }
            }
        }
    for( int k=0;k<2;++k ) { calls.clear(); int r = 0; (k ? b : a)( "x", r ); L want; for( auto& e : k ? mb : ma ) if( !e.fwd ) want.push_back( e.name ); else for( auto& f : mb ) want.push_back( f.name ); MC_CHECK( calls == want, "calls", "called " << sl(calls) << ", expected " << sl(want) ); }
    mc::Hash hs; for( auto& e : ma ) hs.u( (unsigned)e.name+7 ); for( auto& e : mb ) hs.u( (unsigned)e.name+77 ); mc::state( hs );
}
MC_SCENARIO( forwarding_answers, "terminating lists forwarded over 1..3 levels, all answers of up to 3 observers per level" )
{
    int n = 1 + mc::choose(3); typedef TerminatingObservers<int> T; std::vector<T> ls( (size_t)n ); bool any = false; int calls = 0, total = 0;
    for( int i=0;i<n;++i ) { int k = mc::choose(4); for( int j=0;j<k;++j ) { bool b = mc::flip(); any = any || b; ++total; ls[(size_t)i].add( [b,&calls]( int x ) { calls += x; return b; } ); } if( i+1 < n ) forwardObservers( ls[(size_t)i], ls[(size_t)i+1] ); }
    bool r = ls[0]( 1 ); MC_CHECK( r == any && calls == total, "forwarded-answer", "result " << r << " with " << calls << " calls, expected " << any << " and " << total ); mc::step(); mc::outcome( any ? "true" : "false" ); mc::state( mc::Hash().u((unsigned)total).u(r) );
}
namespace {
CTM_DEF_NOTIFIED_PROP_CLASS( WithName, std::string, const std::string&, name, setName, onName, offName )
CTM_DEF_NOTIFIED_PROP_CLASS( WithCount, int, int, count, setCount, onCount, offCount )
CTM_DEF_PROP_CLASS( WithTitle, std::string, const std::string&, title, setTitle )
CTM_DEF_PROP_REF_CLASS( WithRef, std::shared_ptr<int>, ref, cref )
struct Obj : WithName, WithCount, WithTitle, WithRef { Obj() : WithName("first"), WithCount(5), WithTitle("t"), WithRef(std::make_shared<int>(3)) {} };
}
MC_SCENARIO( properties, "an object with two observable and two plain properties: all sequences of 4 (thorough 6) operations out of setting each (also to the present value, also from itself), adding an observer in four ways, removing one" )
{
    Obj o; std::string name = "first", title = "t"; int count = 5; struct Rec { int who; std::string val; bool hasVal; std::string seen; };
    struct E { int id, who; bool withVal; }; std::vector<E> on, oc; std::vector<Rec> calls; int next = 0;
    MC_CHECK( o.name() == name && o.nameConstRef() == name && o.count() == 5 && o.title() == "t" && *o.ref() == 3 && *o.cref() == 3, "initial", "initial values differ" );
    for( int d=0; d<mc::tier(4,6); ++d ) {
        switch( mc::choose( 10, "operation" ) ) {
            case 0: case 1: case 2: { calls.clear(); int v = mc::choose(3); static const std::string vals[] = { "one", "first" }; if( v==2 ) o.setName( o.name() ); else { o.setName( vals[v] ); name = vals[v]; } MC_LOG( "set name " << name );
                MC_CHECK( calls.size() == on.size(), "property-calls", calls.size() << " change observers called of " << on.size() ); for( size_t i=0;i<on.size();++i ) MC_CHECK( calls[i].who == on[i].who && calls[i].seen == name && calls[i].hasVal == on[i].withVal && (!calls[i].hasVal || calls[i].val == name), "property-value", "observer saw '" << calls[i].seen << "', was given '" << calls[i].val << "', expected '" << name << "'" ); mc::step(); mc::outcome( on.empty() ? "unobserved" : "observed" ); break; }
            case 3: { calls.clear(); count = count == 5 ? 6 : 5; o.setCount( count ); MC_CHECK( calls.size() == oc.size(), "property-calls", calls.size() << " change observers called of " << oc.size() ); for( size_t i=0;i<oc.size();++i ) MC_CHECK( calls[i].who == oc[i].who && calls[i].val == std::to_string(count) && calls[i].seen == calls[i].val, "property-value", "observer was given " << calls[i].val ); mc::step(); break; }
            case 4: o.setTitle( title = title == "t" ? "u" : "t" ); break;
            case 5: { int w = next++; auto f0 = [&calls,&o,w]() { calls.push_back( Rec{ w, "", false, o.name() } ); }; int id = mc::flip() ? o.onName( f0 ) : o.onName_0( f0 ); on.push_back( E{ id, w, false } ); MC_LOG( "observer " << w << " of the name" ); break; }
            case 6: { int w = next++; auto f1 = [&calls,&o,w]( const std::string& s ) { calls.push_back( Rec{ w, s, true, o.name() } ); }; int id = mc::flip() ? o.onName( f1 ) : o.onName_1( f1 ); on.push_back( E{ id, w, true } ); MC_LOG( "observer " << w << " of the name with value" ); break; }
            case 7: { int w = next++; int id = o.onCount( [&calls,&o,w]( int s ) { calls.push_back( Rec{ w, std::to_string(s), true, std::to_string(o.count()) } ); } ); oc.push_back( E{ id, w, true } ); break; }
            case 8: { if( on.empty() ) mc::prune(); size_t i = (size_t)mc::choose( (int)on.size() ); o.offName( on[i].id ); on.erase( on.begin()+(long)i ); break; }
            default: { if( oc.empty() ) mc::prune(); size_t i = (size_t)mc::choose( (int)oc.size() ); o.offCount( oc[i].id ); oc.erase( oc.begin()+(long)i ); }
            }
        MC_CHECK( o.name() == name && o.nameConstRef() == name && o.count() == count && o.countConstRef() == count && o.title() == title && o.titleConstRef() == title, "property-read", "name '" << o.name() << "', count " << o.count() << ", title '" << o.title() << "'" );
        mc::Hash hs; hs.s( name ).s( title ).u( (unsigned)count ); for( auto& e : on ) hs.u( (unsigned)e.id ).u( e.withVal ); for( auto& e : oc ) hs.u( 99u+(unsigned)e.id ); mc::state( hs );
        }
}
