// Model-checking runtime: runs the real efsw objects (built from /repo) on cooperative fibers under
// a controlled scheduler, over a simulated kernel (file system + inotify + clock), and enumerates
// every choice (operation, schedule, fault, clock tick) within the stated bounds.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mc {

// ------------------------------------------------------------------ engine scope
// true while a fiber is running (libc interposers consult it)
extern bool g_sim;
// nesting > 0: harness code on a fiber is running engine/host code: interposers pass through
extern int g_host;
struct Host {
	Host() { ++g_host; }
	~Host() { --g_host; }
};
inline bool inSim() { return g_sim && g_host == 0; }

// ------------------------------------------------------------------ choices
enum class CK : uint8_t { Sched, Op, Env, Fault };
// returns 0..n-1; alternative i>0 costs `cost` deviations (0 = free branching)
int choose( int n, int cost, CK kind, const char* what );
[[noreturn]] void violation( const std::string& msg );
[[noreturn]] void abandon(); // prune this execution (not a violation)
void note( const std::string& s ); // trace line (kept only while narrating a replay)
bool narrating();

// ------------------------------------------------------------------ threads
void schedPoint( const char* what, const void* obj = nullptr, bool freeSwitch = false );
int spawn( const char* name, std::function<void()> fn ); // harness threads; returns thread index
void joinThread( int tid );
int self();
bool threadDone( int tid );
int liveThreads(); // not finished, including self
// Block until the whole system has been idle (every thread blocked) `n` times, each time letting the
// earliest timer fire.
void settle( int n );
void waitUntil( const char* what, std::function<bool()> pred );
int64_t nowNs();
void advanceClock( int64_t ns );
void hbRelease( const void* o );
void hbAcquire( const void* o );

// ------------------------------------------------------------------ memory
void* arenaAlloc( size_t n );
void arenaFree( void* p );
bool inArena( const void* p );
void checkRead( const void* p, size_t n ); // harness reading efsw memory
size_t leakedBytes( std::string* detail ); // live, not reachable from the library's static data
size_t liveBytes();						   // all live arena blocks
void setReuseAddresses( bool on );		   // allocator hands freed blocks out again

// ------------------------------------------------------------------ simulated kernel
struct Stat {
	uint64_t ino;
	uint32_t mode;
	uint32_t uid, gid;
	uint64_t size;
	int64_t mtimeNs;
	uint64_t dev;
	uint32_t nlink;
};
struct KernelCfg {
	bool real = false;			// pass through to the real kernel (conformance runs)
	std::string root = "/t";	// scratch root
	std::string otherRoot;		// in its place, simulated only
	bool reuseInodes = false;	// lowest free inode number is handed out again
	unsigned uid = 0;			// effective user of the process
	int maxQueued = 16384;		// inotify queue limit
	int maxWatches = 1 << 20;	// inotify watch limit
	bool splitRename = false;	// a reader may run between the two halves of a rename
	int faultCost = -1;			// >=0: system-call failures are explored, each costing this much
	std::set<std::string> faultCalls; // which calls may fail
	uint64_t stackFill = 0;		// value of uninitialised stack words
	bool oneSchedule = false;	// another thread than the first runnable one costs a deviation
	uint32_t inoLow = 0;		// not 0: inode numbers differ in the upper 32 bits only, the lower half is this
	int firstFd = 100;			// the number of the first descriptor; the ones below belong to the program
	uint32_t cookieStart = 0;	// the rename before the first one had this cookie
	int64_t startTime = 1000000000; // clock, in seconds
	int firstWd = 1;			// number of the first inotify watch descriptor
	uint64_t maxSteps = 400000; // an execution with more of them hangs
	int maxIdle = 400;			// likewise: times that every thread waits
	bool dirReverse = false;	// directories list their entries the other way round, "." and ".." among them
	bool noDType = false;		// directories don't tell the type of their entries (DT_UNKNOWN)
	uint64_t sizeUnit = 1;		// writing to a file makes it grow by this much
	unsigned otherId = 1000;	// the owner or group that files are given
	int readLimit = 0;			// >0: inotify read may return at most this many events (choice)
};
extern KernelCfg K;

namespace fs { // performed by the environment / user (not by efsw)
int mkdir( const std::string& p, unsigned mode = 0755 );
int create( const std::string& p, bool content = true ); // open(O_CREAT|O_TRUNC), write, close
int createNoClose( const std::string& p );				 // open(O_CREAT) + write, left open
int write( const std::string& p );						 // append + close
int writeNoClose( const std::string& p );				 // append, left open
int touch( const std::string& p );						 // new modification time
int backdate( const std::string& p );					 // a modification time before the present one
int truncate( const std::string& p );					 // open(O_TRUNC), close
int writeKeepTime( const std::string& p );				 // append + close, then the former modification time
int writeSameSize( const std::string& p );				 // overwrite in place
int unlink( const std::string& p );
int rmdir( const std::string& p );
int rename( const std::string& a, const std::string& b );
int link( const std::string& a, const std::string& b );
int symlink( const std::string& target, const std::string& p );
int special( const std::string& p );						 // a socket
int chmod( const std::string& p, unsigned mode );
int chown( const std::string& p, unsigned uid, unsigned gid = (unsigned)-1 );
int rmTree( const std::string& p ); // rm -r, files first, depth first
bool stat( const std::string& p, Stat& st, bool follow = true );
bool exists( const std::string& p );
std::string readlink( const std::string& p );
bool isDir( const std::string& p, bool follow = false );
std::vector<std::string> list( const std::string& p ); // sorted names; empty if not a directory
// every path below (and not including) p, without following symlinks: path -> 'f' 'd' 'l'
std::map<std::string, char> tree( const std::string& p );
void mount( const std::string& dir, uint64_t dev, unsigned long ftype, const std::string& fsname,
			bool listed );
std::string cwd();
int setCwd( const std::string& p );
void tick(); // next clock second
} // namespace fs

// what the kernel side knows about efsw's resources
int openSimFds();
int inotifyWatchCount();
std::set<std::string> inotifyWatchedPaths();
int inotifyQueued();
int inotifyOverflows( int n ); // of the n-th open instance
void kernelReset();
void kernelShutdown();
uint64_t kernelHash();
const char* lastFault();
int openMntCount();
uint64_t callCount( const char* call = nullptr ); // system calls made by efsw so far (of that name)
// a defect listed in the known-findings file is counted and the execution ends; otherwise a violation
void finding( const std::string& key, const std::string& msg );

// ------------------------------------------------------------------ exploration
struct Scenario {
	std::string name;
	int bound = 0; // deviation bound
	std::function<void()> body;
	std::function<void()> config; // sets K and other options before each execution
	bool realConformance = false; // replay its cost-0 executions on the real kernel too
	bool leakCheck = true;
};

struct Totals {
	uint64_t executions = 0, steps = 0, states = 0, violations = 0, pruned = 0;
	uint64_t distinctOutcomes = 0, conformed = 0, conformSkipped = 0;
	bool capped = false;
};

// observation log: the harness adds every observable event; its digest identifies the outcome
void observe( const std::string& line );
const std::vector<std::string>& observations();

int mainDriver( int argc, char** argv, const char* property,
				const std::function<std::vector<Scenario>( bool thorough )>& make );

} // namespace mc
