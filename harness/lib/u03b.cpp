// second source file of U03
#include "u03.h"
#include <map>
#include "../u03types.inc"
namespace u03 {
Cells& other() { static PrivateCells c; return c; }
void otherRegister( int kind, const std::string& name ) { doRegister( kind, name ); }
Made otherMake( int kind ) { return doMake( kind ); }
int otherKind( const ctm::math::OdeRhs<h::VD>& o ) { return doKind(o); }
}
