#pragma once
#include "engine.hpp"
#include <cstring>
namespace mc {
// ---- scheduler internals used by the libc interposers
enum class W : uint8_t { None, Mutex, Join, Pred, Timer, Settle };
void blockOn( W kind, const char* what, const void* obj, std::function<bool()> pred,
			  int64_t deadline, bool& timedOut );
void mutexLock( void* m, bool recursive, bool isPoint = true );
bool mutexTryLock( void* m, bool recursive );
void mutexUnlock( void* m );
int mutexDepth( void* m ); // recursion depth if owned by self else 0
void mutexForget( void* m );
int threadCreate( std::function<void()> fn, const char* name );
void vcRelease( const void* o );
void vcAcquire( const void* o );
void libraryRange( uintptr_t lo, uintptr_t hi );
uintptr_t libBase();
bool fromLibrary( const void* pc );
std::string where( const void* pc );
// fault choice: 0 = no fault, else index+1 into the error list
int faultChoice( const char* call, int n );
} // namespace mc
