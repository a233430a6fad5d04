// u03.h - what the two source files of U03 know of each other
#pragma once
#include <string>
#include <memory>
#include "ode_num_int/OdeRhs.h"
#include "ode_num_int/PerTypeStorage.h"
#include "hutil.h"
namespace u03 {
// access to the cells of the types private to another source file, which have the same names here and there
struct Cells { virtual ~Cells() {} virtual void *address( int i ) = 0; virtual std::string get( int i ) = 0; virtual void set( int i, int x ) = 0; };
Cells& other();
struct Made { std::string id, viaGetter, viaMixin; };
void otherRegister( int kind, const std::string& name );     // registers a private type
Made otherMake( int kind );                                  // makes one directly and says how it is called
int otherKind( const ctm::math::OdeRhs<h::VD>& o );          // which private type of the other file it is (0: none)
}
