// C21: memory, descriptors, kernel watches and work depend on what is watched, not on what happened before.
#include "oracle.hpp"
using namespace hs;
using namespace mc;

struct Level {
	size_t bytes;
	int fds, watches;
	uint64_t calls;
	bool operator==( const Level& o ) const { return bytes == o.bytes && fds == o.fds && watches == o.watches && calls == o.calls; }
	std::string str() const {
		return std::to_string( bytes ) + " bytes, " + std::to_string( fds ) + " descriptors, " + std::to_string( watches ) + " kernel watches, " +
			   std::to_string( calls ) + " calls when idle";
	}
};
static Level level( int rounds ) {
	uint64_t n = callCount();
	settle( rounds );
	Host h;
	return { liveBytes(), openSimFds(), inotifyWatchCount(), callCount() - n };
}
enum { CYCLES = 4 };
static void same( const std::vector<Level>& l, const std::string& what ) {
	for ( size_t i = 2; i < l.size(); i++ )
		if ( !( l[i] == l[1] ) ) {
			std::string s;
			for ( auto& x : l )
				s += ( s.empty() ? "" : "; " ) + x.str();
			fail( "what is used grows with each repetition of [" + what + "]: " + s );
		}
}

// ---------------------------------------------------------------- changes, and back
struct Cfg {
	bool generic, burst;
	int depth;
	Universe u;
	std::vector<FsOp> pre;
	bool recursive = true, synthetic = false;
};
static void restore( const Tree& t ) {
	Tree now = snapshotTree();
	for ( auto it = now.rbegin(); it != now.rend(); ++it ) { // children first
		auto x = t.find( it->first );
		if ( x == t.end() || x->second != it->second )
			check( ( it->second == 'd' ? fs::rmdir( it->first ) : fs::unlink( it->first ) ) == 0, "harness: restore" );
	}
	for ( auto& x : t )
		if ( !fs::exists( x.first ) )
			check( ( x.second == 'd' ? fs::mkdir( x.first ) : fs::create( x.first ) ) == 0, "harness: restore" );
}
static void cycles( const Cfg& c ) {
	for ( const char* d : { "w", "v", "o" } )
		fs::mkdir( R( d ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r;
	r.muteModified = c.generic;
	r.mute = true;
	Watcher w( c.generic );
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	check( w->addWatch( R( "w" ), &r, c.recursive, opt ) > 0, "addWatch failed" );
	check( w->addWatch( R( "v" ), &r, c.recursive, opt ) > 0, "addWatch failed" );
	w->watch();
	settle( 2 );
	Tree start = snapshotTree();
	std::vector<FsOp> ops;
	std::vector<Level> l;
	std::string hist;
	for ( int n = 0; n < CYCLES; n++ ) {
		for ( int i = 0; i < c.depth; i++ ) {
			if ( !n ) {
				ops.push_back( chooseOp( c.u ) );
				hist += ( i ? "; " : "" ) + ops.back().str();
			}
			check( perform( ops[i] ) == 0, "harness: " + ops[i].str() );
			if ( !c.burst )
				settle( 2 );
		}
		if ( c.burst )
			settle( 2 );
		restore( start );
		settle( 3 );
		l.push_back( level( 2 ) );
	}
	same( l, hist );
	w.destroy();
	checkReleased();
}

// ---------------------------------------------------------------- calls
enum Call { AddV, AddVFlat, AddMissing, AddAgain, AddFile, RemoveLast, RemovePath, RemoveUnknown, Directories, ErrorText, Touch, CALLS };
static const char* callName( int k ) {
	static const char* n[] = { "addWatch(v)", "addWatch(v, flat)", "addWatch(missing)", "addWatch(w)", "addWatch(file)", "removeWatch(last)", "removeWatch(\"v/\")", "removeWatch(12345)", "directories()", "getLastErrorLog()", "create and remove v/x" };
	return n[k];
}
static void calls( bool generic, int depth, bool running ) {
	for ( const char* d : { "w", "w/d", "v", "v/d" } )
		fs::mkdir( R( d ) );
	fs::create( R( "v/f" ) );
	Recorder r;
	r.muteModified = generic;
	r.mute = true;
	Watcher w( generic );
	long last = w->addWatch( R( "w" ), &r, true );
	check( last > 0, "addWatch failed" );
	if ( running )
		w->watch();
	settle( 2 );
	std::vector<int> seq;
	std::vector<Level> l;
	std::string hist;
	for ( int n = 0; n < CYCLES; n++ ) {
		long id = 0;
		for ( int i = 0; i < depth; i++ ) {
			if ( !n ) {
				seq.push_back( choose( CALLS, 0, CK::Op, "call" ) );
				hist += ( i ? "; " : "" ) + std::string( callName( seq.back() ) );
			}
			switch ( seq[i] ) {
				case AddV:
				case AddVFlat: {
					long x = w->addWatch( R( "v" ), &r, seq[i] == AddV );
					if ( x > 0 )
						id = x;
					break;
				}
				case AddMissing:
					w->addWatch( R( "missing" ), &r, true );
					break;
				case AddAgain:
					w->addWatch( R( "w" ), &r, true );
					break;
				case AddFile:
					w->addWatch( R( "v/f" ), &r, true );
					break;
				case RemoveLast:
					if ( id > 0 )
						w->removeWatch( id );
					break;
				case RemovePath:
					w->removeWatch( R( "v/" ) );
					break;
				case RemoveUnknown:
					w->removeWatch( 12345 );
					break;
				case Directories:
					w->directories();
					break;
				case ErrorText:
					efsw::Errors::Log::getLastErrorLog();
					break;
				case Touch:
					fs::create( R( "v/x" ) );
					settle( 2 );
					fs::unlink( R( "v/x" ) );
					break;
			}
		}
		settle( 2 );
		w->removeWatch( R( "v/" ) );
		efsw::Errors::Log::clearLastError();
		settle( 2 );
		l.push_back( level( 2 ) );
		if ( !running ) // what was removed is only freed by the watcher
			l.back().bytes = 0;
	}
	same( l, hist );
	w.destroy();
	checkReleased();
}

// ---------------------------------------------------------------- when it looks, how soon it tells
static void pace( bool generic, unsigned freq, int windows, bool fallBack = false ) {
	for ( const char* d : { "w", "w/d", "w/d/e", "v" } )
		fs::mkdir( R( d ) );
	fs::create( R( "w/d/a" ) );
	Recorder r;
	r.mute = true;
	int64_t at = 0;
	std::vector<int64_t> when;
	r.hook = [&]( const Ev& ) { when.push_back( nowNs() ); };
	Watcher w( generic && !fallBack, freq );
	if ( fallBack && lastFault()[0] == 0 )
		abandon();
	check( w->addWatch( R( "w" ), &r, true ) > 0, "addWatch failed" );
	check( w->addWatch( R( "v" ), &r, true ) > 0, "addWatch failed" );
	w->watch();
	settle( 2 );
	int64_t ms = 1000000, F = generic ? freq * ms : 100 * ms;
	uint64_t n = callCount(), od = callCount( "opendir" ), st = callCount( "stat" ) + callCount( "lstat" );
	int64_t t0 = nowNs();
	while ( nowNs() < t0 + windows * F )
		settle( 1 );
	n = callCount() - n;
	od = callCount( "opendir" ) - od;
	st = callCount( "stat" ) + callCount( "lstat" ) - st;
	int64_t passed = ( nowNs() - t0 ) / F;
	std::string s = std::to_string( od ) + " directories read, " + std::to_string( st ) + " stats, " + std::to_string( n ) + " calls in " +
					std::to_string( passed ) + " intervals of " + std::to_string( F / ms ) + " ms";
	if ( generic ) {
		check( od <= (uint64_t)( passed + 1 ) * 4, "4 directories are read more than once per interval: " + s );
		check( st <= (uint64_t)( passed + 1 ) * 4 * 8, "too much work per interval: " + s );
	} else {
		check( !od && !st, "looks at the file system without any event: " + s );
		check( n <= (uint64_t)( passed + 1 ) * 2, "busy without any event: " + s );
	}
	// at any moment of an interval
	static const char* ops[] = { "create", "write", "mkdir", "rename", "unlink" };
	for ( int i = 0; i < 2; i++ ) {
		int phase = choose( 4, 0, CK::Op, "phase of the interval" );
		int64_t t = nowNs();
		if ( phase ) {
			advanceClock( F * phase / 4 );
			schedPoint( "time passes", nullptr, true );
		}
		int k = choose( 5, 0, CK::Op, ops[0] );
		when.clear();
		at = nowNs();
		int e = k == 0	 ? fs::create( R( i ? "w/n" : "w/d/n" ) )
				: k == 1 ? fs::write( R( "w/d/a" ) )
				: k == 2 ? fs::mkdir( R( i ? "v/m" : "w/d/e/m" ) )
				: k == 3 ? fs::rename( R( "w/d/a" ), R( i ? "w/d/aa" : "w/d/b" ) )
						 : fs::unlink( R( "w/d/a" ) );
		if ( e )
			abandon();
		while ( when.empty() && nowNs() < at + 3 * F )
			settle( 1 );
		check( !when.empty() && when[0] - at <= F, std::string( ops[k] ) + " after " + std::to_string( ( at - t ) / ms ) + " ms of an interval of " +
													   std::to_string( F / ms ) + " ms is " +
													   ( when.empty() ? "not reported" : "reported after " + std::to_string( ( when[0] - at ) / ms ) + " ms" ) );
		settle( 2 );
	}
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C21", []( bool th ) {
		std::vector<Scenario> s;
		int T = th ? 1 : 0;
		Universe files;
		files.files = { "w/a", "w/aa", "w/d/a", "o/a", "v/a" };
		files.dirs = { "w/d" };
		Universe dirs;
		dirs.files = { "w/d/x", "w/d/e/x" };
		dirs.dirs = { "w/d", "w/dd", "w/d/e", "o/d", "v/d" };
		dirs.write = false;
		dirs.rmtree = true;
		std::vector<FsOp> pre = { { OpK::Mkdir, "w/d", "", true }, { OpK::Mkdir, "w/d/e", "", true }, { OpK::Create, "w/d/e/x", "" }, { OpK::Create, "w/a", "" } };
		for ( bool g : { false, true } ) {
			std::string b = g ? "polling, " : "";
			auto add = [&]( std::string name, Cfg c ) {
				Scenario x;
				x.name = b + name;
				x.bound = 0;
				x.body = [c] { cycles( c ); };
				s.push_back( x );
			};
			for ( bool burst : { false, true } ) {
				std::string k = burst ? ", bursts" : "";
				add( "files" + k, { g, burst, 3 + T, files, pre, true, false } );
				add( "directories" + k, { g, burst, 3 + T, dirs, pre, true, true } );
			}
			add( "files, flat", { g, false, 2 + T, files, pre, false, false } );
			for ( bool run : { true, false } ) {
				Scenario x;
				x.name = b + ( run ? "calls" : "calls before watch()" );
				x.bound = 0;
				x.body = [=] { calls( g, 3 + T, run ); };
				s.push_back( x );
			}
			for ( unsigned f : { 100u, 1000u, 4000u } ) {
				if ( !g )
					continue;
				Scenario x;
				x.name = "polling because there is no inotify, pace, every " + std::to_string( f ) + " ms";
				x.bound = 1;
				x.body = [=] { pace( true, f, 10, true ); };
				x.config = [] {
					K.faultCost = 1;
					K.faultCalls = { "inotify_init" };
				};
				s.push_back( x );
			}
			for ( unsigned f : { 1u, 10u, 250u, 1000u, 60000u, 65536u, 5000000u } ) {
				if ( !g && f > 1 )
					continue;
				Scenario x;
				x.name = b + "pace" + ( g ? ", every " + std::to_string( f ) + " ms" : "" );
				x.bound = 0;
				x.body = [=] { pace( g, f, 10 ); };
				s.push_back( x );
			}
		}
		inLargeSystem( s, { "files", "directories", "polling, directories" } );
		return s;
	} );
}
