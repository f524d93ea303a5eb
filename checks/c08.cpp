// C08: destroying a FileWatcher ends it at any moment: it returns, stays silent and releases everything.
#include "oracle.hpp"
using namespace hs;
using namespace mc;

struct Cfg {
	bool generic, started;
	int ops;
	Universe u;
	bool split = false;
	int watches = 2;
	int slow = 0; // the destruction happens while the listener is busy
};

static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "w/d" ) );
	fs::create( R( "w/d/x" ) );
	fs::create( R( "w/a" ) );
	fs::mkdir( R( "v" ) );
	Recorder r;
	r.muteModified = c.generic;
	bool dead = false;
	r.hook = [&]( const Ev& e ) {
		check( !dead, "callback after the destruction: " + e.str() );
		for ( int i = 0; i < c.slow; i++ )
			mc::schedPoint( "listener is busy" );
	};
	int threads = liveThreads();
	Watcher w( c.generic );
	std::vector<efsw::WatcherOption> opt{ efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) };
	long a = w->addWatch( R( "w" ), &r, true, opt ), b = 0;
	check( a > 0, "addWatch failed" );
	if ( c.watches > 1 ) {
		b = w->addWatch( R( "v" ), &r, false );
		check( b > 0, "addWatch failed" );
	}
	if ( c.started ) {
		w->watch();
		if ( choose( 2, 0, CK::Env, "start-up finished" ) )
			settle( 1 );
		else
			schedPoint( "starting", nullptr, true );
	}
	for ( int i = 0; i < c.ops; i++ ) {
		FsOp o = chooseOp( c.u );
		if ( i )
			schedPoint( "between two operations", nullptr, !c.generic );
		check( perform( o ) == 0, "harness: " + o.str() );
	}
	if ( c.generic && choose( 2, 0, CK::Env, "poll now" ) )
		advanceClock( 1000000000ll );
	if ( b > 0 && choose( 2, 0, CK::Env, "remove a watch first" ) )
		w->removeWatch( a );
	schedPoint( "before destruction", nullptr, true );
	int64_t t = nowNs();
	w.destroy();
	dead = true;
	observe( "destroyed" );
	check( liveThreads() == threads, "the thread of a destroyed watcher still runs" );
	check( nowNs() - t <= 8000000000ll, "the destruction took more than several poll periods" );
	checkReleased();
	fs::create( R( "w/after" ) );
	settle( 2 );
	// another instance works
	Recorder r2;
	r2.mute = true;
	Watcher w2( c.generic );
	check( w2->addWatch( R( "w" ), &r2, true ) > 0, "addWatch in a new instance failed" );
	w2->watch();
	settle( 1 );
	fs::create( R( "w/again" ) );
	settle( 2 );
	check( !r2.evs.empty(), "a new instance reports nothing" );
	w2.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C08", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.realConformance = !bound && !c.split;
			x.body = [c] { body( c ); };
			x.config = [c] { K.splitRename = c.split; };
			s.push_back( x );
		};
		int T = thorough ? 1 : 0;
		Universe u;
		u.files = { "w/a", "w/d/x", "w/aa", "v/a" };
		u.dirs = { "w/d", "w/dd", "v/dd" };
		u.rmtree = true;
		Universe few = u;
		few.files = { "w/a", "w/d/x" };
		few.dirs = { "w/d", "w/dd" };
		few.write = false;
		Universe none;
		for ( bool g : { false, true } ) {
			std::string p = g ? "generic: " : "inotify: ";
			add( p + "never started", { g, false, 1, u }, 0 );
			add( p + "idle", { g, true, 0, none }, 2 + T );
			add( p + "after a change", { g, true, 1, u }, 1 + T );
			add( p + "after a change, few, two preemptions", { g, true, 1, few, false, 1 }, 2 );
			add( p + "after a burst", { g, true, 2 + T, u }, 0 );
			add( p + "after a burst, preempted", { g, true, 2, few, false, 1 }, 1 );
			add( p + "listener busy", { g, true, 1, few, false, 2, 2 }, 1 );
		}
		// the descriptors the system may give
		for ( int fd : { 0, 1023, 1024 } ) {
			add( "inotify: the first descriptor is " + std::to_string( fd ), { false, true, 1, few }, 0 );
			s.back().config = [fd] { K.firstFd = fd; };
		}
		add( "inotify: halves of a rename", { false, true, 2, few, true }, 1 );
		return s;
	} );
}
