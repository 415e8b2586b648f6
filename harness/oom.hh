#pragma once
// sym_alloc_fail(n): the n-th next operator new (0 = the next one) throws std::bad_alloc; n < 0: none does.
// In the engine it is a fault of the allocation model, in the replay these replacements of the operators.
#include "sym.h"
#include <new>
extern "C" { void sym_alloc_fail( int n ); int sym_alloc_fired(); }
#ifndef GC_SYMBOLIC
#include <cstdlib>
static long af_left = -1; static int af_fired = 0;
extern "C" { void sym_alloc_fail( int n ) { af_left = n; af_fired = 0; } int sym_alloc_fired() { return af_fired; } }
__attribute__((noinline)) void * operator new( size_t n ) { if ( af_left >= 0 && af_left-- == 0 ) { af_fired = 1; throw std::bad_alloc(); } void * p = malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); return p; }
__attribute__((noinline)) void operator delete( void * p ) noexcept { free( p ); }
__attribute__((noinline)) void operator delete( void * p, size_t ) noexcept { free( p ); }
void * operator new[]( size_t n ) { return operator new( n ); }
void operator delete[]( void * p ) noexcept { free( p ); }
void operator delete[]( void * p, size_t ) noexcept { free( p ); }
#endif
