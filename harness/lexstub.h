// lexstub.h - stands in for util/lex_idnum.h where number recognition is not the subject (that is I02's and
// U01's): the same recognisers written by hand, so that <regex> is neither compiled nor run.
#ifndef _UTIL_LEX_IDNUM_H_AB0B81B0_CF3E_424f_9766_BA04D388199F_
#define _UTIL_LEX_IDNUM_H_AB0B81B0_CF3E_424f_9766_BA04D388199F_
#include <cctype>
#include <string>
namespace ctm { namespace lang {
inline bool IsIdentifier( const char *s ) { if( !(isalpha(*s)||*s=='_') ) return false; for( ; *s; ++s ) if( !(isalnum(*s)||*s=='_') ) return false; return true; }
inline bool IsIntegerNumber( const char *s ) { if( *s=='+'||*s=='-' ) ++s; if( !isdigit(*s) ) return false; for( ; *s; ++s ) if( !isdigit(*s) ) return false; return true; }
inline bool IsHexIntegerNumber( const char *s ) { if( s[0]!='0' || (s[1]!='x'&&s[1]!='X') || !s[2] ) return false; for( s+=2; *s; ++s ) if( !isxdigit(*s) ) return false; return true; }
inline bool IsNumber( const char *s ) {
    int n = 0; if( *s=='+'||*s=='-' ) ++s;
    for( ; isdigit(*s); ++s ) ++n;
    if( *s=='.' ) for( ++s; isdigit(*s); ++s ) ++n;
    if( !n ) return false;
    if( *s=='e'||*s=='E' ) { ++s; if( *s=='+'||*s=='-' ) ++s; if( !isdigit(*s) ) return false; while( isdigit(*s) ) ++s; }
    return !*s;
    }
} }
#endif
