#include "engine.hpp"
#include "internal.hpp"
#include <algorithm>
#include <cerrno>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <cstring>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

namespace mc {

bool g_sim = false;
int g_host = 0;
KernelCfg K;

// =====================================================================================
// library image: writable data is snapshotted after load and restored before each execution
// =====================================================================================
static uintptr_t g_libLo = 0, g_libHi = 0;	 // whole image
// thread-local variables of the library: one copy per fiber, swapped in
extern "C" void* __tls_get_addr( size_t* );
static char* g_tls = nullptr;
static std::vector<char> g_tlsInit;
static uintptr_t g_dataLo = 0, g_dataHi = 0; // writable part
static std::vector<char> g_dataSnap;
static std::string g_libPath;
static uintptr_t g_libBase = 0;

static int phdrCb( struct dl_phdr_info* info, size_t, void* ) {
	if ( !info->dlpi_name || !strstr( info->dlpi_name, "libefsw_" ) )
		return 0;
	g_libPath = info->dlpi_name;
	g_libBase = info->dlpi_addr;
	uintptr_t relroLo = 0, relroHi = 0;
	for ( int i = 0; i < info->dlpi_phnum; i++ ) {
		auto& p = info->dlpi_phdr[i];
		if ( p.p_type == PT_GNU_RELRO ) {
			relroLo = info->dlpi_addr + p.p_vaddr;
			relroHi = relroLo + p.p_memsz;
		}
	}
	for ( int i = 0; i < info->dlpi_phnum; i++ ) {
		auto& p = info->dlpi_phdr[i];
		if ( p.p_type == PT_TLS ) {
			size_t mod[2] = { info->dlpi_tls_modid, 0 };
			g_tls = (char*)__tls_get_addr( mod );
			g_tlsInit.assign( p.p_memsz, 0 );
			memcpy( g_tlsInit.data(), (char*)info->dlpi_addr + p.p_vaddr, p.p_filesz );
		}
		if ( p.p_type != PT_LOAD )
			continue;
		uintptr_t lo = info->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
		if ( !g_libLo || lo < g_libLo )
			g_libLo = lo;
		g_libHi = std::max( g_libHi, hi );
		if ( p.p_flags & PF_W ) {
			g_dataLo = lo;
			g_dataHi = hi;
		}
	}
	if ( relroHi > g_dataLo ) { // the relro part is read-only by now
		uintptr_t pg = ( relroHi + 4095 ) & ~4095ul;
		g_dataLo = std::max( g_dataLo, std::min( pg, g_dataHi ) );
		g_dataLo &= ~7ul;
	}
	return 0;
}

static void snapshotLibrary() {
	dl_iterate_phdr( phdrCb, nullptr );
	if ( !g_libLo ) {
		fprintf( stderr, "libefsw_*.so not loaded\n" );
		_exit( 2 );
	}
	g_dataSnap.assign( (char*)g_dataLo, (char*)g_dataHi );
}
static void restoreLibrary() {
	if ( !g_dataSnap.empty() )
		memcpy( (void*)g_dataLo, g_dataSnap.data(), g_dataSnap.size() );
}
uintptr_t libBase() { return g_libLo; }
bool fromLibrary( const void* pc ) { return (uintptr_t)pc >= g_libLo && (uintptr_t)pc < g_libHi; }

// function names from the library's full symbol table (its template code is not exported)
struct Sym {
	uintptr_t lo, hi;
	std::string name;
};
static std::vector<Sym>* g_syms;
static void loadSyms() {
	g_syms = new std::vector<Sym>();
	int fd = (int)syscall( SYS_open, g_libPath.c_str(), O_RDONLY );
	if ( fd < 0 )
		return;
	struct stat st;
	if ( syscall( SYS_fstat, fd, &st ) == 0 ) {
		char* m = (char*)mmap( nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0 );
		if ( m != MAP_FAILED ) {
			ElfW( Ehdr )* eh = (ElfW( Ehdr )*)m;
			ElfW( Shdr )* sh = (ElfW( Shdr )*)( m + eh->e_shoff );
			for ( int i = 0; i < eh->e_shnum; i++ )
				if ( sh[i].sh_type == SHT_SYMTAB ) {
					ElfW( Sym )* sy = (ElfW( Sym )*)( m + sh[i].sh_offset );
					const char* str = m + sh[sh[i].sh_link].sh_offset;
					for ( size_t k = 0; k < sh[i].sh_size / sizeof *sy; k++ )
						if ( ( sy[k].st_info & 15 ) == STT_FUNC && sy[k].st_size )
							g_syms->push_back( { g_libBase + sy[k].st_value,
												 g_libBase + sy[k].st_value + sy[k].st_size,
												 str + sy[k].st_name } );
				}
			munmap( m, st.st_size );
		}
	}
	syscall( SYS_close, fd );
}
std::string where( const void* pc ) {
	if ( !g_syms )
		loadSyms();
	uintptr_t a = (uintptr_t)pc - 1;
	for ( auto& s : *g_syms )
		if ( a >= s.lo && a < s.hi ) {
			int st = 0;
			char* d = abi::__cxa_demangle( s.name.c_str(), nullptr, nullptr, &st );
			std::string r = st == 0 ? d : s.name;
			free( d );
			for ( const char* lng : { "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >" } )
				for ( size_t k; ( k = r.find( lng ) ) != std::string::npos; )
					r.replace( k, strlen( lng ), "std::string" );
			return r;
		}
	char b[64];
	snprintf( b, sizeof b, "lib+0x%lx", (unsigned long)( (uintptr_t)pc - g_libLo ) );
	return b;
}

// =====================================================================================
// arena
// =====================================================================================
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t ARENA_SZ = 128ull << 20;
static uint8_t* g_shadow;
static size_t g_bump = 0;
static bool g_reuse = false;
struct Block {
	uint32_t off;  // user offset in arena
	uint32_t size; // user size
	uint32_t cap;
	bool live;
	const void* pc;
};
static std::vector<Block> g_blocks;
static std::unordered_map<uint32_t, std::vector<uint32_t>> g_freeList; // cap -> block idx

bool inArena( const void* p ) {
	return (uintptr_t)p >= ARENA && (uintptr_t)p < ARENA + ARENA_SZ;
}
void setReuseAddresses( bool on ) { g_reuse = on; }

struct Cell {
	uint32_t gen, epoch, pc;
	uint8_t tid, off, size, flags; // flags 1=write 2=atomic
};
static Cell* g_cells;		// arena granules * 4
static Cell* g_dataCells;	// library data granules * 4
static uint32_t g_gen = 0;

static void arenaInit() {
	void* p = mmap( (void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
					MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0 );
	if ( p == MAP_FAILED )
		_exit( 2 );
	g_shadow = (uint8_t*)mmap( nullptr, ARENA_SZ >> 4, PROT_READ | PROT_WRITE,
							   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	g_cells = (Cell*)mmap( nullptr, ( ARENA_SZ >> 3 ) * 4 * sizeof( Cell ), PROT_READ | PROT_WRITE,
						   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	g_dataCells =
		(Cell*)mmap( nullptr, ( ( ( g_dataHi - g_dataLo ) >> 3 ) + 1 ) * 4 * sizeof( Cell ),
					 PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
}

static void arenaReset() {
	memset( g_shadow, 0, ( g_bump >> 4 ) + 16 );
	g_bump = 64;
	g_blocks.clear();
	g_freeList.clear();
	++g_gen;
}

static void setShadow( const Block& b, bool live ) {
	uint8_t* s = g_shadow + ( b.off >> 4 );
	size_t full = b.size >> 4, rest = b.size & 15;
	if ( live ) {
		memset( s, 1, full );
		if ( rest )
			s[full] = 0x10 + rest;
	} else
		memset( s, 2, full + ( rest ? 1 : 0 ) );
}

void* arenaAllocPc( size_t n, const void* pc ) {
	if ( n == 0 )
		n = 1;
	size_t cap = ( n + 15 ) & ~15ul;
	if ( g_reuse ) {
		auto it = g_freeList.find( (uint32_t)cap );
		if ( it != g_freeList.end() && !it->second.empty() ) {
			uint32_t idx = it->second.back();
			it->second.pop_back();
			Block& b = g_blocks[idx];
			b.live = true;
			b.size = n;
			b.pc = pc;
			setShadow( b, true );
			size_t g0 = b.off >> 3, g1 = ( b.off + cap ) >> 3;
			if ( g1 - g0 > 4096 )
				g1 = g0 + 4096;
			memset( (void*)( g_cells + g0 * 4 ), 0, ( g1 - g0 ) * 4 * sizeof( Cell ) );
			return (void*)( ARENA + b.off );
		}
	}
	size_t off = g_bump + 16;
	if ( off + cap + 16 > ARENA_SZ )
		violation( "memory: the library allocated more than the model's arena (unbounded growth?)" );
	*(uint64_t*)( ARENA + g_bump ) = 0xB10C000000000000ull | g_blocks.size();
	g_bump = off + cap + 16;
	Block b{ (uint32_t)off, (uint32_t)n, (uint32_t)cap, true, pc };
	setShadow( b, true );
	g_blocks.push_back( b );
	memset( (void*)( ARENA + off ), 0xBE, std::min<size_t>( cap, 4096 ) );
	return (void*)( ARENA + off );
}
void* arenaAlloc( size_t n ) { return arenaAllocPc( n, __builtin_return_address( 0 ) ); }

static void accessRange( uintptr_t a, size_t n, bool w, const void* pc );

void arenaFree( void* p ) {
	if ( !p )
		return;
	uintptr_t off = (uintptr_t)p - ARENA;
	uint64_t h = off >= 16 ? *(uint64_t*)( ARENA + off - 16 ) : 0;
	uint32_t idx = (uint32_t)h;
	if ( ( h >> 48 ) != 0xB10C || idx >= g_blocks.size() || g_blocks[idx].off != off )
		violation( "memory: free of a pointer that is not an allocated block" );
	Block& b = g_blocks[idx];
	if ( !b.live )
		violation( "memory: double free (block of " + std::to_string( b.size ) +
				   " bytes allocated in " + where( b.pc ) + ")" );
	accessRange( (uintptr_t)p, std::min<size_t>( b.size, 256 ), true,
				 __builtin_return_address( 0 ) );
	b.live = false;
	setShadow( b, false );
	if ( g_reuse )
		g_freeList[b.cap].push_back( idx );
}

size_t liveBytes() {
	size_t n = 0;
	for ( auto& b : g_blocks )
		if ( b.live )
			n += b.size;
	return n;
}

static void scanTls( const std::function<void( uintptr_t, uintptr_t )>& scan );
size_t leakedBytes( std::string* detail ) {
	Host h;
	std::vector<char> mark( g_blocks.size(), 0 );
	std::vector<uint32_t> todo;
	auto scan = [&]( uintptr_t lo, uintptr_t hi ) {
		for ( uintptr_t a = ( lo + 7 ) & ~7ul; a + 8 <= hi; a += 8 ) {
			uintptr_t v = *(uintptr_t*)a;
			if ( v < ARENA || v >= ARENA + g_bump )
				continue;
			uint32_t off = (uint32_t)( v - ARENA );
			auto it = std::upper_bound( g_blocks.begin(), g_blocks.end(), off,
										[]( uint32_t o, const Block& b ) { return o < b.off; } );
			if ( it == g_blocks.begin() )
				continue;
			--it;
			if ( it->live && off < it->off + std::max( it->size, 1u ) ) {
				uint32_t i = it - g_blocks.begin();
				if ( !mark[i] ) {
					mark[i] = 1;
					todo.push_back( i );
				}
			}
		}
	};
	scan( g_dataLo, g_dataHi );
	scanTls( scan );
	while ( !todo.empty() ) {
		uint32_t i = todo.back();
		todo.pop_back();
		scan( ARENA + g_blocks[i].off, ARENA + g_blocks[i].off + g_blocks[i].size );
	}
	size_t n = 0;
	for ( size_t i = 0; i < g_blocks.size(); i++ )
		if ( g_blocks[i].live && !mark[i] ) {
			n += g_blocks[i].size;
			if ( detail && detail->size() < 400 )
				*detail += " [" + std::to_string( g_blocks[i].size ) + " bytes allocated in " +
						   where( g_blocks[i].pc ) + "]";
		}
	return n;
}

void syncReset(); // libc.cpp
// =====================================================================================
// fibers and scheduler
// =====================================================================================
static const int MAXF = 12;
static const size_t STACK = 1 << 20;
static const size_t STACKFILL = 48 << 10;
struct Fiber {
	void* sp = nullptr;
	char* stack = nullptr;
	bool used = false, done = false;
	std::string name;
	std::function<void()> fn;
	W wait = W::None;
	const char* what = "start";
	const void* obj = nullptr;
	std::function<bool()> pred;
	int64_t deadline = -1;
	int settleTarget = 0;
	bool timedOut = false;
	void* eh[2] = { nullptr, nullptr };
	std::vector<char> tls;
	std::vector<std::pair<void ( * )( void* ), void*>> tlsDtors;
	uint32_t vc[MAXF];
};
static Fiber g_f[MAXF];
static int g_nf = 0, g_cur = -1;
static void* g_engineSp = nullptr;
static int64_t g_now = 0;
static int g_idle = 0;
static uint64_t g_steps = 0;

struct Mx {
	void* m;
	int owner;
	int count;
	uint32_t vc[MAXF];
};
static std::vector<Mx> g_mx;
struct SyncVar {
	const void* o;
	uint32_t vc[MAXF];
};
static std::vector<SyncVar> g_sv;

extern "C" void mc_swap( void** save, void* to );
asm( R"(
.text
.globl mc_swap
.type mc_swap,@function
mc_swap:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mc_swap,.-mc_swap
)" );

static void* ehGlobals() { return (void*)abi::__cxa_get_globals(); }

// ---------------- choices
struct ChoiceRec {
	uint16_t n, alt;
	std::vector<uint8_t> costs; // per alternative (index 0 unused)
	uint8_t ucost;				// uniform cost when costs is empty
	CK kind;
};
struct Dev {
	uint16_t pos, alt, n;
};
static const int MAXDEV = 40;
struct Task {
	uint16_t scen;
	uint8_t ndev;
	uint8_t cost;
	Dev dev[MAXDEV];
};
static Task g_task;
static int g_nextDev = 0;
static std::vector<ChoiceRec> g_choices;
static bool g_narrate = false;
static std::vector<std::string> g_notes;
static std::vector<std::string> g_obs;
static uint64_t g_obsHash = 0;

enum class End { Running, Ok, Violation, Abandoned };
static End g_end;
static std::string g_msg;

bool narrating() { return g_narrate; }
void note( const std::string& s ) {
	if ( !g_narrate )
		return;
	Host h;
	g_notes.push_back( "[" + ( g_cur >= 0 ? g_f[g_cur].name : std::string( "engine" ) ) + "] " + s );
}
static uint64_t hmix( uint64_t h, uint64_t v ) {
	h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 );
	h *= 0xff51afd7ed558ccdull;
	return h ^ ( h >> 33 );
}
static uint64_t hstr( const std::string& s ) {
	uint64_t h = 1469598103934665603ull;
	for ( unsigned char c : s )
		h = ( h ^ c ) * 1099511628211ull;
	return h;
}
void observe( const std::string& line ) {
	Host h;
	g_obs.push_back( line );
	g_obsHash = hmix( g_obsHash, hstr( line ) );
	if ( g_narrate )
		note( "EVENT " + line );
}
const std::vector<std::string>& observations() { return g_obs; }

static void toEngine() {
	void* dummy;
	g_sim = false;
	void* save;
	(void)dummy;
	mc_swap( &save, g_engineSp );
	__builtin_unreachable();
}
void violation( const std::string& msg ) {
	++g_host;
	g_end = End::Violation;
	g_msg = msg;
	if ( g_cur < 0 ) {
		fprintf( stderr, "violation outside an execution: %s\n", msg.c_str() );
		_exit( 2 );
	}
	if ( g_narrate )
		g_notes.push_back( "[" + g_f[g_cur].name + "] VIOLATION " + msg );
	toEngine();
	__builtin_unreachable();
}
void abandon() {
	++g_host;
	g_end = End::Abandoned;
	toEngine();
	__builtin_unreachable();
}

[[noreturn]] static void divergence( const char* what, int n, int alt ) {
	fprintf( stderr, "ENGINE ERROR: replay diverged at choice %zu (%s): n=%d alt=%d\n",
			 g_choices.size(), what, n, alt );
	g_msg = "replay divergence";
	_exit( 98 );
}
static int chooseV( int n, const uint8_t* costs, uint8_t ucost, CK kind, const char* what ) {
	if ( n <= 1 )
		return 0;
	Host h;
	int alt = 0;
	size_t pos = g_choices.size();
	if ( g_nextDev < g_task.ndev && g_task.dev[g_nextDev].pos == pos ) {
		const Dev& d = g_task.dev[g_nextDev++];
		if ( d.n != n || d.alt >= n )
			divergence( what, n, d.alt );
		alt = d.alt;
	}
	if ( pos > 60000 && (uint64_t)pos > K.maxSteps )
		violation( "hang: more than 60000 choice points in one execution" );
	ChoiceRec r;
	r.n = n;
	r.alt = alt;
	r.ucost = ucost;
	r.kind = kind;
	if ( costs )
		r.costs.assign( costs, costs + n );
	g_choices.push_back( std::move( r ) );
	return alt;
}
int choose( int n, int cost, CK kind, const char* what ) {
	return chooseV( n, nullptr, (uint8_t)cost, kind, what );
}
static std::string g_lastFault;
const char* lastFault() { return g_lastFault.c_str(); }
int faultChoice( const char* call, int n ) {
	if ( K.faultCost < 0 )
		return 0;
	Host h;
	if ( !K.faultCalls.count( call ) )
		return 0;
	int r = choose( n + 1, K.faultCost, CK::Fault, call );
	if ( r ) {
		g_lastFault = call;
		note( std::string( "FAULT in " ) + call );
	}
	return r;
}

// ---------------- shared state table
struct Shared;
static Shared* S;
static void recordState( uint64_t h );

int self() { return g_cur; }
bool threadDone( int t ) { return g_f[t].done; }
int liveThreads() {
	int n = 0;
	for ( int i = 0; i < g_nf; i++ )
		if ( !g_f[i].done )
			n++;
	return n;
}
int64_t nowNs() { return g_now; }
void advanceClock( int64_t ns ) { g_now += ns; }

static Mx* findMx( void* m ) {
	for ( auto& x : g_mx )
		if ( x.m == m )
			return &x;
	return nullptr;
}
static Mx& getMx( void* m ) {
	if ( Mx* x = findMx( m ) )
		return *x;
	Host h;
	Mx x;
	x.m = m;
	x.owner = -1;
	x.count = 0;
	memset( x.vc, 0, sizeof x.vc );
	g_mx.push_back( x );
	return g_mx.back();
}
static void vcJoin( uint32_t* a, const uint32_t* b ) {
	for ( int i = 0; i < MAXF; i++ )
		if ( b[i] > a[i] )
			a[i] = b[i];
}
static uint32_t* svFind( const void* o ) {
	for ( auto& s : g_sv )
		if ( s.o == o )
			return s.vc;
	Host h;
	SyncVar s;
	s.o = o;
	memset( s.vc, 0, sizeof s.vc );
	g_sv.push_back( s );
	return g_sv.back().vc;
}
void vcRelease( const void* o ) {
	if ( g_cur < 0 )
		return;
	vcJoin( svFind( o ), g_f[g_cur].vc );
	g_f[g_cur].vc[g_cur]++;
}
void vcAcquire( const void* o ) {
	if ( g_cur < 0 )
		return;
	vcJoin( g_f[g_cur].vc, svFind( o ) );
}
void hbRelease( const void* o ) { vcRelease( o ); }
void hbAcquire( const void* o ) { vcAcquire( o ); }

static bool enabledW( Fiber& f ) { // blocked fiber whose wait is satisfied
	switch ( f.wait ) {
		case W::None:
			return true;
		case W::Mutex: {
			Mx* m = findMx( (void*)f.obj );
			return !m || m->owner < 0;
		}
		case W::Join:
			return g_f[(intptr_t)f.obj].done;
		case W::Pred:
			return ( f.pred && f.pred() ) || ( f.deadline >= 0 && f.deadline <= g_now );
		case W::Timer:
			return f.deadline <= g_now;
		case W::Settle:
			return false;
	}
	return false;
}

static void switchTo( int t ) {
	if ( t == g_cur )
		return;
	if ( g_narrate ) {
		g_notes.push_back( "    -- switch to " + g_f[t].name );
	}
	void** eh = (void**)ehGlobals();
	int from = g_cur;
	g_f[from].eh[0] = eh[0];
	g_f[from].eh[1] = eh[1];
	eh[0] = g_f[t].eh[0];
	eh[1] = g_f[t].eh[1];
	if ( g_tls ) {
		memcpy( g_f[from].tls.data(), g_tls, g_f[from].tls.size() );
		memcpy( g_tls, g_f[t].tls.data(), g_f[t].tls.size() );
	}
	g_cur = t;
	int err = errno;
	mc_swap( &g_f[from].sp, g_f[t].sp );
	errno = err;
}

static void stateHash() {
	uint64_t h = kernelHash();
	h = hmix( h, g_obsHash );
	h = hmix( h, g_task.scen );
	for ( int i = 0; i < g_nf; i++ ) {
		Fiber& f = g_f[i];
		h = hmix( h, (uint64_t)f.done << 8 | (uint64_t)f.wait );
		h = hmix( h, (uint64_t)(uintptr_t)f.what );
		h = hmix( h, (uint64_t)(uintptr_t)f.obj );
	}
	for ( auto& m : g_mx )
		h = hmix( h, (uint64_t)(uintptr_t)m.m * 31 + m.owner * 7 + m.count );
	h = hmix( h, g_cur );
	recordState( h );
}

static std::string waitList() {
	std::string s;
	for ( int i = 0; i < g_nf; i++ )
		if ( !g_f[i].done ) {
			s += " " + g_f[i].name + ":" + g_f[i].what;
			if ( g_f[i].wait == W::Mutex ) {
				Mx* m = findMx( (void*)g_f[i].obj );
				if ( m && m->owner >= 0 )
					s += "(held by " + g_f[m->owner].name + ")";
			}
		}
	return s;
}

// self is blocked (or done): pick who runs
static void scheduleBlocked() {
	for ( ;; ) {
		Host h;
		int cand[MAXF * 2];
		uint8_t cost[MAXF * 2];
		int n = 0;
		for ( int i = 0; i < g_nf; i++ )
			if ( !g_f[i].done && g_f[i].wait != W::Settle && enabledW( g_f[i] ) ) {
				cost[n] = K.oneSchedule && n;
				cand[n++] = i;
			}
		if ( n ) {
			int nEn = n;
			for ( int i = 0; i < g_nf; i++ )
				if ( !g_f[i].done && g_f[i].deadline >= 0 && g_f[i].wait != W::Settle &&
					 !enabledW( g_f[i] ) ) {
					cost[n] = 1;
					cand[n++] = i;
				}
			int k = n > 1 ? chooseV( n, cost, 0, CK::Sched, "blocked" ) : 0;
			Fiber& f = g_f[cand[k]];
			if ( k >= nEn ) {
				f.timedOut = true;
				g_now = std::max( g_now, f.deadline );
			} else if ( f.deadline >= 0 && f.deadline <= g_now &&
						!( f.wait == W::Pred && f.pred && f.pred() ) )
				f.timedOut = true;
			f.wait = W::None;
			f.deadline = -1;
			--g_host;
			switchTo( cand[k] );
			++g_host;
			return;
		}
		// idle
		int timer = -1, settler = -1, settlerAny = -1;
		for ( int i = 0; i < g_nf; i++ ) {
			Fiber& f = g_f[i];
			if ( f.done )
				continue;
			if ( f.wait == W::Settle ) {
				if ( settlerAny < 0 )
					settlerAny = i;
				if ( g_idle >= f.settleTarget && settler < 0 )
					settler = i;
			} else if ( f.deadline >= 0 && ( timer < 0 || f.deadline < g_f[timer].deadline ) )
				timer = i;
		}
		if ( settler < 0 && timer < 0 )
			settler = settlerAny;
		if ( settler >= 0 ) {
			g_f[settler].wait = W::None;
			--g_host;
			switchTo( settler );
			++g_host;
			return;
		}
		if ( timer < 0 )
			violation( "deadlock: every thread is blocked:" + waitList() );
		if ( ++g_idle > K.maxIdle )
			violation( "hang: threads only wait for time to pass, nobody makes progress:" +
					   waitList() );
		g_now = std::max( g_now, g_f[timer].deadline );
		if ( g_narrate )
			g_notes.push_back( "    -- idle, clock advances to " +
							   std::to_string( g_now / 1000000 ) + "ms" );
	}
}

void schedPoint( const char* what, const void* obj, bool freeSwitch ) {
	if ( g_cur < 0 )
		return;
	Host h;
	Fiber& me = g_f[g_cur];
	me.what = what;
	me.obj = obj;
	if ( ++g_steps > K.maxSteps )
		violation( "hang: step horizon exceeded:" + waitList() );
	stateHash();
	int cand[MAXF * 2];
	uint8_t cost[MAXF * 2];
	int n = 0;
	cand[n] = g_cur;
	cost[n++] = 0;
	for ( int i = 0; i < g_nf; i++ )
		if ( i != g_cur && !g_f[i].done && g_f[i].wait != W::Settle && enabledW( g_f[i] ) ) {
			cost[n] = freeSwitch ? 0 : 1;
			cand[n++] = i;
		}
	int nEn = n;
	for ( int i = 0; i < g_nf; i++ )
		if ( i != g_cur && !g_f[i].done && g_f[i].deadline >= 0 && g_f[i].wait != W::Settle &&
			 !enabledW( g_f[i] ) ) {
			cost[n] = 1;
			cand[n++] = i;
		}
	if ( n == 1 )
		return;
	int k = chooseV( n, cost, 0, CK::Sched, what );
	if ( g_narrate && k )
		g_notes.push_back( "[" + me.name + "] switched away before: " + what );
	if ( k == 0 )
		return;
	Fiber& f = g_f[cand[k]];
	if ( k >= nEn ) {
		f.timedOut = true;
		g_now = std::max( g_now, f.deadline );
	} else if ( f.deadline >= 0 && f.deadline <= g_now &&
				!( f.wait == W::Pred && f.pred && f.pred() ) )
		f.timedOut = true;
	f.wait = W::None;
	f.deadline = -1;
	me.wait = W::None;
	int hs = g_host;
	g_host = 0;
	switchTo( cand[k] );
	g_host = hs;
}

void blockOn( W kind, const char* what, const void* obj, std::function<bool()> pred,
			  int64_t deadline, bool& timedOut ) {
	Host h;
	Fiber& me = g_f[g_cur];
	me.wait = kind;
	me.what = what;
	me.obj = obj;
	me.pred = std::move( pred );
	me.deadline = deadline;
	me.timedOut = false;
	if ( ++g_steps > K.maxSteps )
		violation( "hang: step horizon exceeded:" + waitList() );
	stateHash();
	int hs = g_host;
	g_host = 0;
	scheduleBlocked();
	g_host = hs;
	me.pred = nullptr;
	timedOut = me.timedOut;
}

void settle( int n ) {
	Fiber& me = g_f[g_cur];
	note( "settle(" + std::to_string( n ) + ")" );
	me.settleTarget = g_idle + n;
	bool t;
	blockOn( W::Settle, "settle", nullptr, nullptr, -1, t );
}
void waitUntil( const char* what, std::function<bool()> pred ) {
	schedPoint( what );
	while ( !pred() ) {
		bool t;
		blockOn( W::Pred, what, nullptr, pred, -1, t );
	}
}

void mutexLock( void* m, bool recursive, bool isPoint ) {
	if ( Mx* x = findMx( m ) )
		if ( x->owner == g_cur ) {
			if ( !recursive )
				violation( "deadlock: a thread locks a non-recursive mutex it already holds" );
			x->count++;
			return;
		}
	if ( isPoint )
		schedPoint( "mutex lock", m );
	while ( getMx( m ).owner >= 0 ) {
		bool t;
		blockOn( W::Mutex, "waiting for a mutex", m, nullptr, -1, t );
	}
	Mx& x = getMx( m );
	x.owner = g_cur;
	x.count = 1;
	vcJoin( g_f[g_cur].vc, x.vc );
}
bool mutexTryLock( void* m, bool recursive ) {
	schedPoint( "mutex trylock", m );
	Mx& x = getMx( m );
	if ( x.owner == g_cur ) {
		if ( !recursive )
			return false;
		x.count++;
		return true;
	}
	if ( x.owner >= 0 )
		return false;
	x.owner = g_cur;
	x.count = 1;
	vcJoin( g_f[g_cur].vc, x.vc );
	return true;
}
void mutexUnlock( void* m ) {
	Mx* x = findMx( m );
	if ( !x || x->owner != g_cur )
		violation( "mutex unlocked by a thread that does not hold it" );
	if ( --x->count == 0 ) {
		x->owner = -1;
		memcpy( x->vc, g_f[g_cur].vc, sizeof x->vc );
		g_f[g_cur].vc[g_cur]++;
	}
}
int mutexDepth( void* m ) {
	Mx* x = findMx( m );
	return x && x->owner == g_cur ? x->count : 0;
}
void mutexForget( void* m ) {
	for ( size_t i = 0; i < g_mx.size(); i++ )
		if ( g_mx[i].m == m ) {
			if ( g_mx[i].owner >= 0 )
				violation( "mutex destroyed while locked by " + g_f[g_mx[i].owner].name );
			Host h;
			g_mx.erase( g_mx.begin() + i );
			return;
		}
}

static void fiberMain() {
	g_host = 0;
	Fiber& me = g_f[g_cur];
	me.fn();
	while ( g_cur != 0 && !me.tlsDtors.empty() ) {
		auto d = me.tlsDtors.back();
		me.tlsDtors.pop_back();
		d.first( d.second );
	}
	++g_host;
	me.done = true;
	me.fn = nullptr;
	me.what = "finished";
	if ( g_cur == 0 ) {
		g_end = End::Ok;
		toEngine();
	}
	g_host = 0;
	scheduleBlocked();
	abort();
}

static void scanTls( const std::function<void( uintptr_t, uintptr_t )>& scan ) {
	if ( !g_tls )
		return;
	for ( int i = 0; i < g_nf; i++ ) {
		char* p = i == g_cur ? g_tls : g_f[i].tls.data();
		if ( !g_f[i].done )
			scan( (uintptr_t)p, (uintptr_t)p + g_f[i].tls.size() );
	}
}
static int newFiber( std::function<void()> fn, const char* name ) {
	Host h;
	if ( g_nf >= MAXF )
		violation( "the library started too many threads for the model" );
	int t = g_nf++;
	Fiber& f = g_f[t];
	if ( !f.stack ) {
		f.stack = (char*)mmap( nullptr, STACK + 4096, PROT_READ | PROT_WRITE,
							   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
		mprotect( f.stack, 4096, PROT_NONE );
	}
	f.used = true;
	f.done = false;
	f.name = name;
	f.fn = std::move( fn );
	f.wait = W::None;
	f.what = "start";
	f.obj = nullptr;
	f.deadline = -1;
	f.timedOut = false;
	f.eh[0] = f.eh[1] = nullptr;
	f.tls = g_tlsInit;
	f.tlsDtors.clear();
	memset( f.vc, 0, sizeof f.vc );
	f.vc[t] = 1;
	uintptr_t top = (uintptr_t)f.stack + 4096 + STACK;
	top &= ~63ul;
	for ( uint64_t* q = (uint64_t*)( top - STACKFILL ); q < (uint64_t*)top; q++ )
		*q = K.stackFill; // what an uninitialised local contains
	void** sp = (void**)top;
	*--sp = nullptr; // fake return address: keeps alignment at entry
	*--sp = (void*)fiberMain;
	for ( int i = 0; i < 6; i++ )
		*--sp = nullptr;
	f.sp = sp;
	return t;
}
int threadCreate( std::function<void()> fn, const char* name ) {
	int t = newFiber( std::move( fn ), name );
	if ( g_cur >= 0 ) {
		vcJoin( g_f[t].vc, g_f[g_cur].vc );
		g_f[g_cur].vc[g_cur]++;
	}
	note( std::string( "creates thread " ) + name );
	return t;
}
int spawn( const char* name, std::function<void()> fn ) {
	return threadCreate( std::move( fn ), name );
}
void joinThread( int t ) {
	schedPoint( "join" );
	while ( !g_f[t].done ) {
		bool to;
		blockOn( W::Join, "join", (const void*)(intptr_t)t, nullptr, -1, to );
	}
	vcJoin( g_f[g_cur].vc, g_f[t].vc );
}

// =====================================================================================
// memory access checks (from -fsanitize=thread instrumentation, own runtime)
// =====================================================================================
[[gnu::noinline]] static void badAccess( uintptr_t a, size_t n, bool w, uint8_t s,
										 const void* pc ) {
	Host h;
	std::string blk;
	for ( auto& b : g_blocks )
		if ( a >= ARENA + b.off && a < ARENA + b.off + b.cap )
			blk = " (block of " + std::to_string( b.size ) + " bytes allocated in " +
				  where( b.pc ) + ")";
	violation( std::string( "memory: " ) + ( w ? "write to " : "read of " ) +
			   ( s == 2 ? "freed memory" : "memory outside any live block" ) + " in " +
			   where( pc ) + blk );
}
[[gnu::noinline]] static void raceFound( const Cell& c, bool w, const void* pc ) {
	Host h;
	violation( std::string( "data race: " ) + ( w ? "write" : "read" ) + " in " + where( pc ) +
			   " by " + g_f[g_cur].name + " is unordered with an earlier " +
			   ( c.flags & 1 ? "write" : "read" ) + " in " +
			   where( (void*)( g_libLo + c.pc ) ) + " by " + g_f[c.tid].name );
}
static inline void raceCheck( Cell* cells, unsigned off, unsigned n, bool w, bool atomic,
							  const void* pc ) {
	uint32_t* vc = g_f[g_cur].vc;
	uint8_t fl = ( w ? 1 : 0 ) | ( atomic ? 2 : 0 );
	Cell* slot = nullptr;
	for ( int i = 0; i < 4; i++ ) {
		Cell& c = cells[i];
		if ( c.gen != g_gen ) {
			if ( !slot )
				slot = &c;
			continue;
		}
		bool overlap = c.off < off + n && off < (unsigned)c.off + c.size;
		if ( !overlap )
			continue;
		if ( c.tid == g_cur ) {
			if ( c.off == off && c.size == n && c.flags == fl )
				slot = &c;
			continue;
		}
		if ( ( w || ( c.flags & 1 ) ) && !( atomic && ( c.flags & 2 ) ) && c.epoch > vc[c.tid] )
			raceFound( c, w, pc );
		if ( c.epoch <= vc[c.tid] && w && off <= c.off && off + n >= (unsigned)c.off + c.size )
			slot = slot ? slot : &c;
	}
	if ( !slot ) { // prefer a cell already ordered before us
		for ( int i = 0; i < 4 && !slot; i++ )
			if ( cells[i].epoch <= vc[cells[i].tid] )
				slot = &cells[i];
		if ( !slot )
			slot = &cells[( off + n ) & 3];
	}
	slot->gen = g_gen;
	slot->epoch = vc[g_cur];
	slot->pc = (uint32_t)( (uintptr_t)pc - g_libLo );
	slot->tid = g_cur;
	slot->off = off;
	slot->size = n;
	slot->flags = fl;
}
static inline void access( uintptr_t a, size_t n, bool w, bool atomic, const void* pc ) {
	if ( a - ARENA < ARENA_SZ ) {
		if ( g_cur < 0 )
			return;
		uintptr_t off = a - ARENA;
		uint8_t s = g_shadow[off >> 4];
		uintptr_t end = off + n;
		if ( __builtin_expect( s != 1, 0 ) ) {
			if ( s < 0x10 || ( off & 15 ) + std::min<size_t>( n, 16 - ( off & 15 ) ) > (size_t)( s - 0x10 ) )
				badAccess( a, n, w, s, pc );
		}
		if ( ( ( end - 1 ) >> 4 ) != ( off >> 4 ) ) {
			uint8_t s2 = g_shadow[( end - 1 ) >> 4];
			if ( s2 != 1 && ( s2 < 0x10 || ( ( end - 1 ) & 15 ) >= (uintptr_t)( s2 - 0x10 ) ) )
				badAccess( a, n, w, s2, pc );
		}
		if ( g_nf > 1 ) {
			unsigned o = off & 7;
			if ( o + n <= 8 )
				raceCheck( g_cells + ( off >> 3 ) * 4, o, n, w, atomic, pc );
			else {
				raceCheck( g_cells + ( off >> 3 ) * 4, o, 8 - o, w, atomic, pc );
				size_t rest = n - ( 8 - o );
				uintptr_t g = ( off >> 3 ) + 1;
				while ( rest ) {
					size_t k = rest > 8 ? 8 : rest;
					raceCheck( g_cells + g * 4, 0, k, w, atomic, pc );
					rest -= k;
					g++;
				}
			}
		}
	} else if ( a >= g_dataLo && a + n <= g_dataHi ) {
		if ( g_cur < 0 || g_nf < 2 )
			return;
		uintptr_t off = a - g_dataLo;
		unsigned o = off & 7;
		unsigned k = std::min<unsigned>( n, 8 - o );
		raceCheck( g_dataCells + ( off >> 3 ) * 4, o, k, w, atomic, pc );
		if ( k < n )
			raceCheck( g_dataCells + ( ( off >> 3 ) + 1 ) * 4, 0, std::min<unsigned>( n - k, 8 ), w,
					   atomic, pc );
	}
}
static void accessRange( uintptr_t a, size_t n, bool w, const void* pc ) {
	if ( !n || g_cur < 0 )
		return;
	if ( inArena( (void*)a ) && n > 4096 ) {
		access( a, 8, w, false, pc );
		access( a + n - 8, 8, w, false, pc );
		// interior: shadow only
		for ( size_t i = ( a - ARENA ) >> 4; i < ( a + n - ARENA ) >> 4; i += 16 )
			if ( g_shadow[i] == 2 || g_shadow[i] == 0 )
				badAccess( ARENA + ( i << 4 ), 1, w, g_shadow[i], pc );
		return;
	}
	while ( n ) {
		size_t k = std::min<size_t>( n, 8 - ( a & 7 ) );
		access( a, k, w, false, pc );
		a += k;
		n -= k;
	}
}
void shadowCheck( const void* p, size_t n, bool w, const void* pc ) {
	uintptr_t a = (uintptr_t)p;
	if ( !inArena( p ) || !n )
		return;
	uintptr_t ends[2] = { a, a + n - 1 };
	for ( uintptr_t x : ends ) {
		uint8_t s = g_shadow[( x - ARENA ) >> 4];
		if ( s != 1 && ( s < 0x10 || ( x & 15 ) >= (uintptr_t)( s - 0x10 ) ) )
			badAccess( x, 1, w, s, pc );
	}
}
void checkRead( const void* p, size_t n ) {
	accessRange( (uintptr_t)p, n, false, __builtin_return_address( 0 ) );
}

} // namespace mc

using namespace mc;

// ---------------- instrumentation entry points
#define PC __builtin_return_address( 0 )
#define RW( n )                                                                            \
	extern "C" void __tsan_read##n( void* a ) { access( (uintptr_t)a, n, false, false, PC ); } \
	extern "C" void __tsan_write##n( void* a ) { access( (uintptr_t)a, n, true, false, PC ); } \
	extern "C" void __tsan_volatile_read##n( void* a ) {                                   \
		access( (uintptr_t)a, n, false, false, PC );                                       \
	}                                                                                      \
	extern "C" void __tsan_volatile_write##n( void* a ) {                                  \
		access( (uintptr_t)a, n, true, false, PC );                                        \
	}
RW( 1 )
RW( 2 )
RW( 4 )
RW( 8 )
RW( 16 )
#define RWU( n )                                                                                \
	extern "C" void __tsan_unaligned_read##n( void* a ) {                                       \
		accessRange( (uintptr_t)a, n, false, PC );                                              \
	}                                                                                           \
	extern "C" void __tsan_unaligned_write##n( void* a ) { accessRange( (uintptr_t)a, n, true, PC ); }
RWU( 2 )
RWU( 4 )
RWU( 8 )
RWU( 16 )
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry( void* ) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_read( void** a ) { access( (uintptr_t)a, 8, false, false, PC ); }
extern "C" void __tsan_vptr_update( void** a, void* v ) {
	if ( *a != v )
		access( (uintptr_t)a, 8, true, false, PC );
}
extern "C" void __tsan_read_range( void* a, unsigned long n ) {
	accessRange( (uintptr_t)a, n, false, PC );
}
extern "C" void __tsan_write_range( void* a, unsigned long n ) {
	accessRange( (uintptr_t)a, n, true, PC );
}
// one thread executes at a time, so plain operations are atomic here
static void atPoint( const void* a ) {
	if ( inSim() && g_cur >= 0 )
		schedPoint( "atomic", a );
}
static void acq( const volatile void* a, int mo ) {
	if ( mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE && inSim() )
		vcAcquire( (const void*)a );
}
static void rel( const volatile void* a, int mo ) {
	if ( ( mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST ) && inSim() )
		vcRelease( (const void*)a );
}
template <class T> static T atRmw( volatile T* a, int mo, const void* pc, T ( *f )( T, T ), T v ) {
	atPoint( (const void*)a );
	access( (uintptr_t)a, sizeof( T ), true, true, pc );
	acq( a, mo );
	T o = *a;
	*a = f( o, v );
	rel( a, mo );
	return o;
}
#define AT( bits, T )                                                                             \
	extern "C" T __tsan_atomic##bits##_load( const volatile T* a, int mo ) {                      \
		atPoint( (const void*)a );                                                                \
		access( (uintptr_t)a, sizeof( T ), false, true, PC );                                     \
		acq( a, mo );                                                                             \
		return *a;                                                                                \
	}                                                                                             \
	extern "C" void __tsan_atomic##bits##_store( volatile T* a, T v, int mo ) {                   \
		atPoint( (const void*)a );                                                                \
		access( (uintptr_t)a, sizeof( T ), true, true, PC );                                      \
		rel( a, mo );                                                                             \
		*a = v;                                                                                   \
	}                                                                                             \
	extern "C" T __tsan_atomic##bits##_exchange( volatile T* a, T v, int mo ) {                   \
		return atRmw<T>( a, mo, PC, []( T, T x ) { return x; }, v );                              \
	}                                                                                             \
	extern "C" T __tsan_atomic##bits##_fetch_add( volatile T* a, T v, int mo ) {                  \
		return atRmw<T>( a, mo, PC, []( T o, T x ) { return (T)( o + x ); }, v );                 \
	}                                                                                             \
	extern "C" T __tsan_atomic##bits##_fetch_sub( volatile T* a, T v, int mo ) {                  \
		return atRmw<T>( a, mo, PC, []( T o, T x ) { return (T)( o - x ); }, v );                 \
	}                                                                                             \
	extern "C" T __tsan_atomic##bits##_fetch_and( volatile T* a, T v, int mo ) {                  \
		return atRmw<T>( a, mo, PC, []( T o, T x ) { return (T)( o & x ); }, v );                 \
	}                                                                                             \
	extern "C" T __tsan_atomic##bits##_fetch_or( volatile T* a, T v, int mo ) {                   \
		return atRmw<T>( a, mo, PC, []( T o, T x ) { return (T)( o | x ); }, v );                 \
	}                                                                                             \
	extern "C" T __tsan_atomic##bits##_fetch_xor( volatile T* a, T v, int mo ) {                  \
		return atRmw<T>( a, mo, PC, []( T o, T x ) { return (T)( o ^ x ); }, v );                 \
	}                                                                                             \
	extern "C" int __tsan_atomic##bits##_compare_exchange_strong( volatile T* a, T* c, T v,       \
																  int mo, int ) {                 \
		atPoint( (const void*)a );                                                                \
		access( (uintptr_t)a, sizeof( T ), true, true, PC );                                      \
		acq( a, mo );                                                                             \
		if ( *a == *c ) {                                                                         \
			*a = v;                                                                               \
			rel( a, mo );                                                                         \
			return 1;                                                                             \
		}                                                                                         \
		*c = *a;                                                                                  \
		return 0;                                                                                 \
	}                                                                                             \
	extern "C" int __tsan_atomic##bits##_compare_exchange_weak( volatile T* a, T* c, T v, int mo, \
																int m2 ) {                        \
		return __tsan_atomic##bits##_compare_exchange_strong( a, c, v, mo, m2 );                  \
	}                                                                                             \
	extern "C" T __tsan_atomic##bits##_compare_exchange_val( volatile T* a, T c, T v, int mo,     \
															 int m2 ) {                           \
		__tsan_atomic##bits##_compare_exchange_strong( a, &c, v, mo, m2 );                        \
		return c;                                                                                 \
	}
AT( 8, uint8_t )
AT( 16, uint16_t )
AT( 32, uint32_t )
AT( 64, uint64_t )
static char g_fence;
extern "C" void __tsan_atomic_thread_fence( int mo ) {
	acq( &g_fence, mo );
	rel( &g_fence, mo );
}
extern "C" void __tsan_atomic_signal_fence( int ) {}

// mem* calls of the library objects are renamed to these (objcopy)
extern "C" void* mc_memcpy( void* d, const void* s, size_t n ) {
	accessRange( (uintptr_t)s, n, false, PC );
	accessRange( (uintptr_t)d, n, true, PC );
	return memcpy( d, s, n );
}
extern "C" void* mc_memmove( void* d, const void* s, size_t n ) {
	accessRange( (uintptr_t)s, n, false, PC );
	accessRange( (uintptr_t)d, n, true, PC );
	return memmove( d, s, n );
}
extern "C" void* mc_memset( void* d, int c, size_t n ) {
	accessRange( (uintptr_t)d, n, true, PC );
	return memset( d, c, n );
}
extern "C" int mc_memcmp( const void* a, const void* b, size_t n ) {
	accessRange( (uintptr_t)a, n, false, PC );
	accessRange( (uintptr_t)b, n, false, PC );
	return memcmp( a, b, n );
}
extern "C" int mc_bcmp( const void* a, const void* b, size_t n ) { return mc_memcmp( a, b, n ); }
extern "C" void* mc_memchr( const void* a, int c, size_t n ) {
	return memchr( (void*)a, c, n );
}
extern "C" size_t mc_strlen( const char* s ) {
	size_t n = strlen( s );
	accessRange( (uintptr_t)s, n + 1, false, PC );
	return n;
}
extern "C" void* mc_malloc( size_t n ) {
	return inSim() ? arenaAllocPc( n, PC ) : malloc( n );
}
extern "C" void mc_free( void* p ) {
	if ( inArena( p ) )
		arenaFree( p );
	else
		free( p );
}
extern "C" void* mc_calloc( size_t a, size_t b ) {
	if ( !inSim() )
		return calloc( a, b );
	void* p = arenaAllocPc( a * b, PC );
	memset( p, 0, a * b );
	return p;
}
extern "C" void* mc_realloc( void* p, size_t n ) {
	if ( !inSim() && !inArena( p ) )
		return realloc( p, n );
	void* q = arenaAllocPc( n, PC );
	if ( p ) {
		size_t old = 0;
		for ( auto& b : g_blocks )
			if ( (uintptr_t)p == ARENA + b.off )
				old = b.size;
		memcpy( q, p, std::min( old, n ) );
		arenaFree( p );
	}
	return q;
}
extern "C" char* mc_strdup( const char* s ) {
	size_t n = strlen( s ) + 1;
	char* p = (char*)mc_malloc( n );
	memcpy( p, s, n );
	return p;
}

static void* newImpl( size_t n, const void* pc ) {
	if ( g_sim && g_host == 0 && fromLibrary( pc ) )
		return arenaAllocPc( n, pc );
	return malloc( n ? n : 1 );
}
static void delImpl( void* p, const void* pc ) {
	if ( inArena( p ) ) {
		if ( g_sim )
			arenaFree( p );
	} else if ( g_sim && fromLibrary( pc ) )
		; // allocated while the library was loaded: part of the restored snapshot, must survive
	else
		free( p );
}
void* operator new( size_t n ) { return newImpl( n, PC ); }
void* operator new[]( size_t n ) { return newImpl( n, PC ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept { return newImpl( n, PC ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { return newImpl( n, PC ); }
void operator delete( void* p ) noexcept { delImpl( p, PC ); }
void operator delete[]( void* p ) noexcept { delImpl( p, PC ); }
void operator delete( void* p, size_t ) noexcept { delImpl( p, PC ); }
void operator delete[]( void* p, size_t ) noexcept { delImpl( p, PC ); }
void operator delete( void* p, const std::nothrow_t& ) noexcept { delImpl( p, PC ); }
void operator delete[]( void* p, const std::nothrow_t& ) noexcept { delImpl( p, PC ); }

// function-local statics of the library
extern "C" int __cxa_guard_acquire( uint64_t* g ) {
	volatile uint8_t* b = (volatile uint8_t*)g;
	if ( b[0] )
		return 0;
	if ( !inSim() || g_cur < 0 ) {
		b[1] = 1;
		return 1;
	}
	while ( b[1] ) {
		bool t;
		blockOn( W::Pred, "static initialisation", g, [b] { return b[1] == 0; }, -1, t );
	}
	if ( b[0] ) {
		vcAcquire( g );
		return 0;
	}
	b[1] = 1;
	return 1;
}
extern "C" void __cxa_guard_release( uint64_t* g ) {
	volatile uint8_t* b = (volatile uint8_t*)g;
	if ( inSim() )
		vcRelease( g );
	b[0] = 1;
	b[1] = 0;
}
extern "C" void __cxa_guard_abort( uint64_t* g ) { ( (volatile uint8_t*)g )[1] = 0; }

// thread-local variables of the library
extern "C" int __cxa_thread_atexit_impl( void ( *f )( void* ), void* a, void* d );
extern "C" int __cxa_thread_atexit( void ( *f )( void* ), void* a, void* d ) noexcept {
	if ( !inSim() || g_cur < 0 )
		return __cxa_thread_atexit_impl( f, a, d );
	Host h;
	g_f[g_cur].tlsDtors.push_back( { f, a } );
	return 0;
}
extern "C" int __cxa_atexit( void ( *f )( void* ), void* a, void* d ) {
	if ( g_sim || fromLibrary( (void*)f ) )
		return 0; // the library's static destructors never run here
	static int ( *real )( void ( * )( void* ), void*, void* ) =
		(int ( * )( void ( * )( void* ), void*, void* ))dlsym( RTLD_NEXT, "__cxa_atexit" );
	return real( f, a, d );
}

namespace mc {

// =====================================================================================
// one execution
// =====================================================================================
static std::vector<Scenario>* g_scen;

static End runTask( const Task& t ) {
	g_task = t;
	g_nextDev = 0;
	g_choices.clear();
	g_notes.clear();
	g_obs.clear();
	g_obsHash = 0;
	g_lastFault.clear();
	g_msg.clear();
	g_mx.clear();
	g_sv.clear();
	g_nf = 0;
	g_cur = -1;
	g_now = 1000000000ll * 1000000000ll;
	g_idle = 0;
	g_steps = 0;
	g_reuse = false;
	arenaReset();
	restoreLibrary();
	Scenario& sc = ( *g_scen )[t.scen];
	bool real = K.real;
	static std::string root;
	if ( K.otherRoot.empty() )
		root = K.root;
	K = KernelCfg();
	K.real = real;
	if ( sc.config )
		sc.config();
	K.real = real;
	K.root = real || K.otherRoot.empty() ? root : K.otherRoot;
	if ( real )
		K.otherRoot = "";
	g_now = K.startTime * 1000000000ll;
	syncReset();
	kernelReset();
	g_end = End::Running;
	newFiber( [&sc] { sc.body(); }, "main" );
	void** eh = (void**)ehGlobals();
	void* eh0 = eh[0];
	void* eh1 = eh[1];
	eh[0] = eh[1] = nullptr;
	if ( g_tls )
		memcpy( g_tls, g_tlsInit.data(), g_tlsInit.size() );
	g_cur = 0;
	g_sim = true;
	mc_swap( &g_engineSp, g_f[0].sp );
	g_sim = false;
	g_host = 0;
	g_cur = -1;
	eh[0] = eh0;
	eh[1] = eh1;
	for ( int i = 0; i < g_nf; i++ ) {
		g_f[i].fn = nullptr;
		g_f[i].pred = nullptr;
	}
	kernelShutdown();
	return g_end;
}

// =====================================================================================
// shared memory between workers
// =====================================================================================
static const int MAXW = 64;
static const size_t QCAP = 1 << 15;
static const size_t TABLE = 1ull << 25; // state fingerprints
static const size_t OTABLE = 1ull << 22;
static const size_t CCAP = 4096;
struct Slot {
	std::atomic<uint64_t> execs;
	std::atomic<uint64_t> startMs;
	Task cur;
	std::atomic<int> running;
	std::atomic<int> crashed; // signal
};
struct Shared {
	std::atomic<int> stop;
	std::atomic<int> lock;
	std::atomic<int64_t> outstanding;
	std::atomic<int> qn;
	std::atomic<int> violSet;
	std::atomic<uint64_t> execs, steps, states, outcomes, pruned, tableFull;
	std::atomic<uint64_t> byCost[8];
	std::atomic<uint64_t> maxDepth;
	std::atomic<int> nconf;
	std::atomic<uint64_t> confDone, confSkip;
	Task viol;
	char violMsg[4096];
	Slot slot[MAXW];
	Task conf[CCAP];
	Task q[QCAP];
	char samples[16][1024];
	std::atomic<int> nsamples;
	std::atomic<uint64_t> known[64];
	char knownMsg[64][512];
	std::atomic<uint64_t> perScen[256];
};
static std::atomic<uint64_t>*g_table, *g_otable;
static int g_me = 0;

static bool tableInsert( std::atomic<uint64_t>* t, size_t cap, uint64_t h ) {
	if ( !h )
		h = 1;
	size_t i = h & ( cap - 1 );
	for ( int k = 0; k < 64; k++, i = ( i + 1 ) & ( cap - 1 ) ) {
		uint64_t v = t[i].load( std::memory_order_relaxed );
		if ( v == h )
			return false;
		if ( v == 0 ) {
			if ( t[i].compare_exchange_strong( v, h, std::memory_order_relaxed ) )
				return true;
			if ( v == h )
				return false;
		}
	}
	return false; // full neighbourhood: not counted
}
static uint64_t g_localStates = 0;
static uint64_t g_lastStates[1024];
static void recordState( uint64_t h ) {
	if ( !g_table )
		return;
	if ( g_lastStates[h & 1023] == h )
		return;
	g_lastStates[h & 1023] = h;
	if ( tableInsert( g_table, TABLE, h ) )
		g_localStates++;
}

static uint64_t nowMs() {
	using namespace std::chrono;
	return duration_cast<milliseconds>( steady_clock::now().time_since_epoch() ).count();
}
struct SpinLock {
	SpinLock() {
		int e = 0;
		while ( !S->lock.compare_exchange_weak( e, 1 ) ) {
			e = 0;
			usleep( 20 );
		}
	}
	~SpinLock() { S->lock = 0; }
};

static void crashHandler( int sig ) {
	if ( S ) {
		Slot& sl = S->slot[g_me];
		sl.crashed = sig;
	}
	_exit( 99 );
}
static void installCrash() {
	static char alt[65536];
	stack_t ss{};
	ss.ss_sp = alt;
	ss.ss_size = sizeof alt;
	sigaltstack( &ss, nullptr );
	struct sigaction sa {};
	sa.sa_handler = crashHandler;
	sa.sa_flags = SA_ONSTACK;
	for ( int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL } )
		sigaction( s, &sa, nullptr );
}

static uint64_t obsDigest() {
	uint64_t h = g_obsHash;
	h = hmix( h, g_task.scen );
	return h;
}

static void worker( int id, int bound, int scenFrom, int scenTo ) {
	g_me = id;
	installCrash();
	Slot& sl = S->slot[id];
	std::vector<Task> local;
	(void)scenFrom;
	(void)scenTo;
	while ( !S->stop ) {
		Task t;
		if ( !local.empty() ) {
			t = local.back();
			local.pop_back();
		} else {
			bool got = false;
			{
				SpinLock l;
				int n = S->qn;
				if ( n > 0 ) {
					t = S->q[n - 1];
					S->qn = n - 1;
					got = true;
				}
			}
			if ( !got ) {
				if ( S->outstanding == 0 )
					break;
				usleep( 200 );
				continue;
			}
		}
		sl.cur = t;
		sl.startMs = nowMs();
		sl.running = 1;
		g_localStates = 0;
		End e = runTask( t );
		sl.running = 0;
		sl.execs++;
		S->execs++;
		S->perScen[t.scen]++;
		S->byCost[std::min<int>( t.cost, 7 )]++;
		S->steps += g_steps;
		S->states += g_localStates;
		if ( g_choices.size() > S->maxDepth )
			S->maxDepth = g_choices.size();
		if ( e == End::Violation ) {
			int z = 0;
			if ( S->violSet.compare_exchange_strong( z, 1 ) ) {
				S->viol = t;
				snprintf( S->violMsg, sizeof S->violMsg, "%s", g_msg.c_str() );
				S->violSet = 2;
				S->stop = 1;
			}
			break;
		}
		if ( e == End::Abandoned )
			S->pruned++;
		else {
			if ( tableInsert( g_otable, OTABLE, obsDigest() ) ) {
				S->outcomes++;
				int k = S->nsamples.load();
				uint64_t o = S->outcomes;
				if ( k < 16 && ( o & ( o - 1 ) ) == 0 && S->nsamples.compare_exchange_strong( k, k + 1 ) ) {
					std::string s;
					for ( auto& x : g_obs )
						if ( s.size() < 900 )
							s += ( s.empty() ? "" : "; " ) + x;
					snprintf( S->samples[k], 1024, "%s", s.c_str() );
				}
			}
			Scenario& sc = ( *g_scen )[t.scen];
			if ( sc.realConformance && t.cost == 0 ) {
				// keep a spread of histories: every one while there is room, then by digest
				int k = S->nconf.load();
				if ( k < (int)CCAP ) {
					if ( S->nconf.compare_exchange_strong( k, k + 1 ) )
						S->conf[k] = t;
				} else if ( obsDigest() % 97 == 0 )
					S->conf[obsDigest() / 97 % CCAP] = t;
			}
		}
		// children: every alternative at positions after the last deviation
		int b = ( *g_scen )[t.scen].bound;
		if ( bound >= 0 )
			b = std::min( b, bound );
		size_t from = t.ndev ? t.dev[t.ndev - 1].pos + 1 : 0;
		int64_t added = 0;
		std::vector<Task> kids;
		for ( size_t i = from; i < g_choices.size(); i++ ) {
			ChoiceRec& c = g_choices[i];
			for ( int a = 1; a < c.n; a++ ) {
				int cost = c.costs.empty() ? c.ucost : c.costs[a];
				if ( t.cost + cost > b )
					continue;
				if ( t.ndev >= MAXDEV ) {
					fprintf( stderr, "ENGINE ERROR: too many deviations\n" );
					_exit( 98 );
				}
				Task k = t;
				k.cost = t.cost + cost;
				k.dev[k.ndev].pos = (uint16_t)i;
				k.dev[k.ndev].alt = (uint16_t)a;
				k.dev[k.ndev].n = c.n;
				k.ndev++;
				kids.push_back( k );
				added++;
			}
		}
		// cheapest, earliest first off the stack
		for ( auto it = kids.rbegin(); it != kids.rend(); ++it )
			local.push_back( *it );
		S->outstanding += added - 1;
		// donate shallow work
		if ( local.size() > 4 && S->qn < 64 ) {
			SpinLock l;
			int n = S->qn;
			size_t give = std::min<size_t>( local.size() / 2, QCAP - n );
			give = std::min<size_t>( give, 512 );
			for ( size_t i = 0; i < give; i++ )
				S->q[n++] = local[i];
			local.erase( local.begin(), local.begin() + give );
			S->qn = n;
		}
	}
	_exit( 0 );
}

// =====================================================================================
// known findings
// =====================================================================================
static std::vector<std::pair<std::string, std::string>> g_known; // key, text
} // namespace mc

namespace mc {
void addKnown( const std::string& key, const std::string& text ) { g_known.push_back( { key, text } ); }
// returns true if the finding is listed (then it is only counted); reports a violation otherwise
void finding( const std::string& key, const std::string& msg ) {
	for ( size_t i = 0; i < g_known.size() && i < 64; i++ )
		if ( g_known[i].first == key ) {
			if ( S && S->known[i]++ == 0 )
				snprintf( S->knownMsg[i], 512, "%s", msg.c_str() );
			abandon();
		}
	violation( msg );
}

static std::string jesc( const std::string& s ) {
	std::string o;
	for ( unsigned char c : s ) {
		if ( c == '"' || c == '\\' ) {
			o += '\\';
			o += c;
		} else if ( c < 32 || c >= 127 ) {
			char b[8];
			snprintf( b, 8, "\\u%04x", c );
			o += b;
		} else
			o += c;
	}
	return o;
}

static std::string taskText( const Task& t ) {
	std::string s = std::to_string( t.scen ) + " " + std::to_string( t.cost );
	for ( int i = 0; i < t.ndev; i++ )
		s += " " + std::to_string( t.dev[i].pos ) + ":" + std::to_string( t.dev[i].alt ) + ":" +
			 std::to_string( t.dev[i].n );
	return s;
}

// run one task in a fresh process; returns 0 ok, 1 violation, 3 crash, 4 hang; msg + notes
static int runForked( const Task& t, int timeoutS, std::string& msg, std::string& notes,
					  bool real = false, std::string* obs = nullptr, bool narrate = true ) {
	int p[2];
	if ( pipe( p ) )
		_exit( 2 );
	pid_t pid = fork();
	if ( pid == 0 ) {
		close( p[0] );
		g_narrate = narrate;
		S->slot[0].crashed = 0;
		g_me = 0;
		installCrash();
		K.real = real;
		End e = runTask( t );
		std::string out = ( e == End::Violation ? "V" : e == End::Ok ? "O" : "A" ) + g_msg + "\n";
		if ( obs )
			for ( auto& o : g_obs )
				out += o + "\n";
		else
			for ( auto& n : g_notes )
				out += n + "\n";
		size_t o = 0;
		while ( o < out.size() ) {
			ssize_t k = ::write( p[1], out.data() + o, out.size() - o );
			if ( k <= 0 )
				break;
			o += k;
		}
		_exit( 0 );
	}
	close( p[1] );
	std::string out;
	uint64_t t0 = nowMs();
	bool hang = false;
	fcntl( p[0], F_SETFL, O_NONBLOCK );
	for ( ;; ) {
		char b[65536];
		ssize_t k = ::read( p[0], b, sizeof b );
		if ( k > 0 )
			out.append( b, k );
		else if ( k == 0 )
			break;
		else {
			if ( nowMs() - t0 > (uint64_t)timeoutS * 1000 ) {
				hang = true;
				kill( pid, SIGKILL );
				break;
			}
			usleep( 1000 );
		}
	}
	close( p[0] );
	int st;
	waitpid( pid, &st, 0 );
	if ( hang ) {
		msg = "hang: the library runs without ever reaching a blocking operation";
		return 4;
	}
	if ( WIFSIGNALED( st ) || ( WIFEXITED( st ) && WEXITSTATUS( st ) == 99 ) ) {
		int sig = WIFSIGNALED( st ) ? WTERMSIG( st ) : (int)S->slot[0].crashed;
		msg = std::string( "crash: the library died with signal " ) + strsignal( sig );
		return 3;
	}
	if ( WEXITSTATUS( st ) != 0 || out.empty() ) {
		msg = "engine error in replay";
		return 9;
	}
	size_t nl = out.find( '\n' );
	msg = out.substr( 1, nl - 1 );
	( obs ? *obs : notes ) = out.substr( nl + 1 );
	return out[0] == 'V' ? 1 : out[0] == 'A' ? 5 : 0;
}

int mainDriver( int argc, char** argv, const char* property,
				const std::function<std::vector<Scenario>( bool )>& make ) {
	bool thorough = false;
	int jobs = 8;
	int bound = -1;
	int capS = 400;
	int conform = 200;
	std::string outJson, replayFile, replayDir = ".", knownFile, only, scratch;
	for ( int i = 1; i < argc; i++ ) {
		std::string a = argv[i];
		auto val = [&] { return std::string( i + 1 < argc ? argv[++i] : "" ); };
		if ( a == "--thorough" )
			thorough = true;
		else if ( a == "--jobs" )
			jobs = atoi( val().c_str() );
		else if ( a == "--bound" )
			bound = atoi( val().c_str() );
		else if ( a == "--cap" )
			capS = atoi( val().c_str() );
		else if ( a == "--conform" )
			conform = atoi( val().c_str() );
		else if ( a == "--out" )
			outJson = val();
		else if ( a == "--replay" )
			replayFile = val();
		else if ( a == "--replay-dir" )
			replayDir = val();
		else if ( a == "--known" )
			knownFile = val();
		else if ( a == "--only" )
			only = val();
		else if ( a == "--scratch" )
			scratch = val();
	}
	jobs = std::max( 1, std::min( jobs, MAXW ) );
	snapshotLibrary();
	arenaInit();
	if ( !knownFile.empty() ) {
		FILE* f = fopen( knownFile.c_str(), "r" );
		char line[2048];
		while ( f && fgets( line, sizeof line, f ) ) {
			// known: property=<id> key=<key> <text>
			std::string l( line );
			while ( !l.empty() && ( l.back() == '\n' || l.back() == '\r' ) )
				l.pop_back();
			std::string pre = std::string( "known: property=" ) + property + " key=";
			if ( l.compare( 0, pre.size(), pre ) == 0 ) {
				std::string rest = l.substr( pre.size() );
				size_t sp = rest.find( ' ' );
				addKnown( rest.substr( 0, sp ), sp == std::string::npos ? "" : rest.substr( sp + 1 ) );
			}
		}
		if ( f )
			fclose( f );
	}
	if ( scratch.empty() ) {
		char b[] = "/dev/shm/efswmcXXXXXX";
		char b2[] = "/tmp/efswmcXXXXXX";
		char* d = mkdtemp( b );
		if ( !d )
			d = mkdtemp( b2 );
		scratch = d ? d : "/tmp";
	}
	K.root = "/mc-watched-root"; // simulated; conformance runs use the scratch directory
	S = (Shared*)mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE,
					   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	g_table = (std::atomic<uint64_t>*)mmap( nullptr, TABLE * 8, PROT_READ | PROT_WRITE,
											MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	g_otable = (std::atomic<uint64_t>*)mmap( nullptr, OTABLE * 8, PROT_READ | PROT_WRITE,
											 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	std::vector<Scenario> scen = make( thorough );
	g_scen = &scen;
	auto cleanup = [&] {
		std::string c = "rm -rf -- '" + scratch + "'";
		if ( scratch.find( "efswmc" ) != std::string::npos )
			(void)!system( c.c_str() );
	};

	if ( !replayFile.empty() ) {
		FILE* f = fopen( replayFile.c_str(), "r" );
		char line[8192];
		Task t{};
		std::string sname;
		bool ok = false;
		while ( f && fgets( line, sizeof line, f ) ) {
			if ( !strncmp( line, "scenario: ", 10 ) ) {
				sname = line + 10;
				while ( !sname.empty() && sname.back() == '\n' )
					sname.pop_back();
			}
			if ( !strncmp( line, "task: ", 6 ) ) {
				char* p = line + 6;
				int sc, cost, adv;
				sscanf( p, "%d %d%n", &sc, &cost, &adv );
				p += adv;
				t.scen = sc;
				t.cost = cost;
				int a, b, n;
				while ( sscanf( p, " %d:%d:%d%n", &a, &b, &n, &adv ) == 3 ) {
					t.dev[t.ndev++] = { (uint16_t)a, (uint16_t)b, (uint16_t)n };
					p += adv;
				}
				ok = true;
			}
		}
		if ( f )
			fclose( f );
		if ( !ok )
			return 2;
		for ( size_t i = 0; i < scen.size(); i++ )
			if ( scen[i].name == sname )
				t.scen = i;
		std::string msg, notes;
		int r = runForked( t, 120, msg, notes );
		printf( "scenario %s\n%sresult %d %s\n", sname.c_str(), notes.c_str(), r, msg.c_str() );
		cleanup();
		return r ? 1 : 0;
	}

	uint64_t t0 = nowMs();
	bool capped = false;
	int rc = 0;
	std::string violMsg, violNotes, violPath, engineErr;
	Task viol{};
	bool haveViol = false;
	for ( size_t i = 0; i < scen.size(); i++ ) {
		if ( !only.empty() && scen[i].name.find( only ) == std::string::npos )
			continue;
		Task t{};
		t.scen = i;
		S->q[S->qn++] = t;
		S->outstanding++;
	}
	// roots are popped from the end: keep declaration order
	std::reverse( S->q, S->q + S->qn );
	std::vector<pid_t> pids;
	fflush( stdout );
	for ( int w = 0; w < jobs; w++ ) {
		pid_t p = fork();
		if ( p == 0 )
			worker( w, bound, 0, scen.size() );
		pids.push_back( p );
	}
	int alive = jobs;
	std::vector<bool> dead( jobs, false );
	std::vector<Task> suspects;
	// an execution hangs if it used 15 s of CPU time (the machine may be busy or suspended)
	struct Seen {
		uint64_t execs = ~0ull, cpu = 0, ms = 0;
	};
	std::vector<Seen> seen( jobs );
	auto hungSince = [&]( int w, pid_t p ) {
		char name[64], buf[1024];
		snprintf( name, sizeof name, "/proc/%d/stat", (int)p );
		uint64_t cpu = 0;
		if ( FILE* f = fopen( name, "r" ) ) {
			size_t n = fread( buf, 1, sizeof buf - 1, f );
			buf[n] = 0;
			fclose( f );
			const char* q = strrchr( buf, ')' );
			unsigned long ut = 0, st = 0;
			if ( q && sscanf( q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st ) == 2 )
				cpu = ( ut + st ) * 1000 / sysconf( _SC_CLK_TCK );
		}
		uint64_t ex = S->slot[w].execs;
		if ( seen[w].execs != ex ) {
			seen[w].execs = ex;
			seen[w].cpu = cpu;
			seen[w].ms = nowMs();
			return false;
		}
		return cpu - seen[w].cpu > 15000 || nowMs() - seen[w].ms > 240000;
	};
	while ( alive ) {
		for ( int w = 0; w < jobs; w++ ) {
			if ( dead[w] )
				continue;
			int st;
			pid_t r = waitpid( pids[w], &st, WNOHANG );
			if ( r == pids[w] ) {
				dead[w] = true;
				alive--;
				int code = WIFEXITED( st ) ? WEXITSTATUS( st ) : 1000 + WTERMSIG( st );
				if ( code != 0 ) {
					if ( code == 99 || ( code > 1000 && !S->stop ) ) {
						suspects.push_back( S->slot[w].cur );
						S->stop = 1;
					} else if ( code == 98 ) {
						engineErr = "replay divergence in worker";
						S->stop = 1;
					}
				}
			} else if ( S->slot[w].running && nowMs() - S->slot[w].startMs > 20000 &&
						hungSince( w, pids[w] ) ) {
				suspects.push_back( S->slot[w].cur );
				kill( pids[w], SIGKILL );
				waitpid( pids[w], &st, 0 );
				dead[w] = true;
				alive--;
				S->stop = 1;
			}
		}
		if ( nowMs() - t0 > (uint64_t)capS * 1000 && !S->stop ) {
			capped = true;
			S->stop = 1;
		}
		usleep( 2000 );
	}
	if ( S->violSet == 2 ) {
		viol = S->viol;
		haveViol = true;
		violMsg = S->violMsg;
	} else if ( !suspects.empty() ) {
		viol = suspects[0];
		haveViol = true;
	}
	if ( haveViol ) {
		std::string m1, n1, m2, n2;
		int r1 = runForked( viol, 100, m1, n1 );
		int r2 = runForked( viol, 100, m2, n2 );
		if ( r1 == 0 || r1 == 5 || r1 == 9 || r1 != r2 || ( r1 == 1 && m1 != m2 ) ) {
			engineErr = "violation did not replay identically: first '" + violMsg + "' then '" + m1 +
						"' / '" + m2 + "' (" + std::to_string( r1 ) + "," + std::to_string( r2 ) + ")";
			haveViol = false;
		} else {
			if ( r1 == 1 && !violMsg.empty() && violMsg != m1 ) {
				// same violation class must be seen in the fresh process; keep the replayed text
			}
			violMsg = m1;
			violNotes = n1;
			char h[32];
			snprintf( h, sizeof h, "%016lx",
					  (unsigned long)hstr( taskText( viol ) + scen[viol.scen].name ) );
			violPath = replayDir + "/" + property + "-" + h + ".replay";
			FILE* f = fopen( violPath.c_str(), "w" );
			if ( f ) {
				fprintf( f, "property: %s\nscenario: %s\ntask: %s\nmessage: %s\n\n%s", property,
						 scen[viol.scen].name.c_str(), taskText( viol ).c_str(), violMsg.c_str(),
						 violNotes.c_str() );
				fclose( f );
			}
			rc = 1;
		}
	}
	// conformance: the same choices against the real kernel
	uint64_t conformed = 0, mismatches = 0, confTried = 0;
	std::string confMsg;
	if ( rc == 0 && engineErr.empty() && conform > 0 && S->nconf > 0 ) {
		int n = std::min<int>( S->nconf, CCAP );
		int want = std::min( conform, n );
		std::vector<int> pick;
		for ( int i = 0; i < want; i++ )
			pick.push_back( (int)( (int64_t)i * n / want ) );
		S->nsamples = S->nsamples.load();
		std::atomic<int>* next =
			(std::atomic<int>*)mmap( nullptr, 4096, PROT_READ | PROT_WRITE,
									 MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
		std::atomic<int>* good = next + 1;
		std::atomic<int>* bad = next + 2;
		std::atomic<int>* tried = next + 3;
		char* badMsg = (char*)( next + 16 );
		std::vector<pid_t> cp;
		for ( int w = 0; w < jobs; w++ ) {
			pid_t p = fork();
			if ( p == 0 ) {
				g_me = w;
				K.root = scratch + "/c" + std::to_string( w );
				for ( ;; ) {
					int i = ( *next )++;
					if ( i >= (int)pick.size() )
						break;
					Task t = S->conf[pick[i]];
					std::string o1, o2;
					K.real = false;
					End e1 = runTask( t );
					for ( auto& o : g_obs )
						o1 += o + "\n";
					size_t c1 = g_choices.size();
					K.real = true;
					End e2 = runTask( t );
					K.real = false;
					for ( auto& o : g_obs )
						o2 += o + "\n";
					( *tried )++;
					if ( e1 == End::Ok && e2 == End::Ok && o1 == o2 && c1 == g_choices.size() )
						( *good )++;
					else if ( ( *bad )++ == 0 )
						snprintf( badMsg, 3500, "scenario %s task %s\n-- simulated kernel (%d):\n%s\n-- real kernel (%d %s):\n%s",
								  scen[t.scen].name.c_str(), taskText( t ).c_str(), (int)e1, o1.c_str(), (int)e2, g_msg.c_str(),
								  o2.c_str() );
				}
				_exit( 0 );
			}
			cp.push_back( p );
		}
		for ( pid_t p : cp ) {
			int st;
			waitpid( p, &st, 0 );
			if ( !WIFEXITED( st ) || WEXITSTATUS( st ) ) {
				mismatches++;
				confMsg = "conformance worker died (replay diverged on the real kernel)";
			}
		}
		conformed = *good;
		confTried = *tried;
		if ( *bad ) {
			mismatches += *bad;
			confMsg = badMsg;
		}
	}
	double wall = ( nowMs() - t0 ) / 1000.0;
	if ( !outJson.empty() ) {
		FILE* f = fopen( outJson.c_str(), "w" );
		if ( f ) {
			fprintf( f,
					 "{\"property\":\"%s\",\"executions\":%lu,\"transitions\":%lu,\"states\":%lu,"
					 "\"outcomes\":%lu,\"pruned\":%lu,\"maxChoices\":%lu,\"capped\":%s,"
					 "\"conformed\":%lu,\"conformTried\":%lu,\"conformMismatch\":%lu,\"wall\":%.2f,",
					 property, (unsigned long)S->execs, (unsigned long)S->steps,
					 (unsigned long)S->states, (unsigned long)S->outcomes, (unsigned long)S->pruned,
					 (unsigned long)S->maxDepth, capped ? "true" : "false",
					 (unsigned long)conformed, (unsigned long)confTried, (unsigned long)mismatches,
					 wall );
			fprintf( f, "\"byDeviations\":[" );
			for ( int i = 0; i < 8; i++ )
				fprintf( f, "%s%lu", i ? "," : "", (unsigned long)S->byCost[i] );
			fprintf( f, "],\"scenarios\":[" );
			bool first = true;
			for ( size_t i = 0; i < scen.size() && i < 256; i++ ) {
				if ( !S->perScen[i] )
					continue;
				fprintf( f, "%s{\"name\":\"%s\",\"bound\":%d,\"executions\":%lu}",
						 first ? "" : ",", jesc( scen[i].name ).c_str(), scen[i].bound,
						 (unsigned long)S->perScen[i] );
				first = false;
			}
			fprintf( f, "],\"samples\":[" );
			int ns = std::min<int>( S->nsamples, 16 );
			for ( int i = 0; i < ns; i++ )
				fprintf( f, "%s\"%s\"", i ? "," : "", jesc( S->samples[i] ).c_str() );
			fprintf( f, "],\"known\":[" );
			first = true;
			for ( size_t i = 0; i < g_known.size() && i < 64; i++ ) {
				fprintf( f, "%s{\"key\":\"%s\",\"text\":\"%s\",\"hits\":%lu,\"example\":\"%s\"}",
						 first ? "" : ",", jesc( g_known[i].first ).c_str(),
						 jesc( g_known[i].second ).c_str(), (unsigned long)S->known[i],
						 jesc( S->knownMsg[i] ).c_str() );
				first = false;
			}
			fprintf( f, "],\"violation\":\"%s\",\"replay\":\"%s\",\"scenario\":\"%s\",\"error\":\"%s\",\"conformMsg\":\"%s\"}\n",
					 rc ? jesc( violMsg ).c_str() : "", rc ? violPath.c_str() : "",
					 rc ? jesc( scen[viol.scen].name ).c_str() : "", jesc( engineErr ).c_str(),
					 jesc( confMsg ).c_str() );
			fclose( f );
		}
	}
	printf( "executions=%lu transitions=%lu states=%lu outcomes=%lu pruned=%lu capped=%d "
			"conformed=%lu/%lu mismatches=%lu wall=%.1fs\n",
			(unsigned long)S->execs, (unsigned long)S->steps, (unsigned long)S->states,
			(unsigned long)S->outcomes, (unsigned long)S->pruned, capped, (unsigned long)conformed,
			(unsigned long)confTried, (unsigned long)mismatches, wall );
	if ( rc )
		printf( "violation in scenario %s: %s\n  replay: %s\n", scen[viol.scen].name.c_str(),
				violMsg.c_str(), violPath.c_str() );
	cleanup();
	if ( !engineErr.empty() ) {
		printf( "ENGINE ERROR: %s\n", engineErr.c_str() );
		return 2;
	}
	if ( mismatches ) {
		printf( "CONFORMANCE MISMATCH: %s\n", confMsg.c_str() );
		return 2;
	}
	return rc;
}

} // namespace mc
