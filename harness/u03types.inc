// types private to a source file; included by two of them
namespace {
using namespace ctm;
struct A {}; struct B {}; struct V { long pad = 77; std::string s; }; template<class T> struct W {};
template<class C,class X> struct Cell { static void *at() { return &PerTypeStorage::value<C,X>(); } };
std::string text( int x ) { return std::to_string(x); } std::string text( const std::string& x ) { return x; } std::string text( const V& x ) { return x.pad == 77 ? x.s : "spoilt"; }
void put( int& d, int x ) { d = x; } void put( std::string& d, int x ) { d = std::string( 20, (char)('a'+x) ); } void put( V& d, int x ) { d.s = std::string( 20, (char)('a'+x) ); }
template<class F> auto cell( int i, F f ) { switch(i) {
    case 0: return f( PerTypeStorage::value<A,int>() ); case 1: return f( PerTypeStorage::value<B,int>() ); case 2: return f( PerTypeStorage::value<A,std::string>() );
    case 3: return f( PerTypeStorage::value<A,V>() ); case 4: return f( PerTypeStorage::value<W<A>,int>() ); default: return f( PerTypeStorage::value<int,V>() ); } }
struct PrivateCells : u03::Cells {
    void *address( int i ) { return cell( i, []( auto& x ) -> void* { return &x; } ); }
    std::string get( int i ) { return cell( i, []( auto& x ) { return text(x); } ); }
    void set( int i, int v ) { cell( i, [v]( auto& x ) { put(x,v); } ); }
    };
template<int K> struct Rhs : math::OdeRhs<h::VD>, FactoryMixin<Rhs<K>,math::OdeRhs<h::VD>> { unsigned secondOrderVarCount() const { return 0; } unsigned firstOrderVarCount() const { return 1; } h::V initialState() const { return h::V(1); } void rhs( h::V& f, double, const h::V& ) const { f = h::V(1); } };
typedef math::OdeRhs<h::VD> I;
void doRegister( int kind, const std::string& name ) { if( kind == 1 ) Rhs<1>::Registrator r( name ); else Rhs<2>::Registrator r( name ); }
u03::Made doMake( int kind ) { auto id = []( auto o ) { std::shared_ptr<I> i = o; return u03::Made{ o->typeId(), TypeIdGetter<I>::typeId(i), "" }; }; return kind == 1 ? id( std::make_shared<Rhs<1>>() ) : id( std::make_shared<Rhs<2>>() ); }
int doKind( const I& o ) { return dynamic_cast<const Rhs<1>*>(&o) ? 1 : dynamic_cast<const Rhs<2>*>(&o) ? 2 : 0; }
}
