// C07: once removeWatch() returned no callback of that watch runs or starts (both backends).
#include "oracle.hpp"
using namespace hs;
using namespace mc;

enum How { ById, ByPath, ByPathNoSlash };
struct Cfg {
	bool generic, synthetic, twoListeners;
	int ops;
	bool fromCallback; // removed by the listener itself, at the n-th callback (any)
	bool other;		   // the callback removes the other watch
	Universe u;
	bool split = false;
};

static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "w/d" ) );
	fs::create( R( "w/d/x" ) );
	fs::create( R( "w/a" ) );
	fs::mkdir( R( "v" ) );
	Recorder ra, rb;
	Recorder& la = ra;
	Recorder& lb = c.twoListeners ? rb : ra;
	la.muteModified = lb.muteModified = c.generic;
	std::set<long> removed;
	std::set<const void*> destroyed;
	int running = 0;
	std::map<long, int> inside;
	Watcher w( c.generic );
	long a = 0, b = 0;
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	bool done = false;
	auto remove = [&]( long id, int how ) {
		std::string p = id == a ? R( "w" ) : R( "v" );
		if ( how == ById )
			w->removeWatch( id );
		else
			w->removeWatch( how == ByPath ? p + "/" : p );
		Host h;
		removed.insert( id );
		observe( "removed " + std::to_string( id ) );
	};
	auto hook = [&]( const Ev& e ) {
		check( !removed.count( e.id ), "callback after removeWatch() returned: " + e.str() );
		check( e.id == a || e.id == b, "callback with an unknown watch id: " + e.str() );
		running++;
		check( running == 1, "two callbacks at the same time" );
		inside[e.id]++;
		if ( c.fromCallback && !done && choose( 2, 0, CK::Env, "remove from this callback" ) ) {
			done = true;
			remove( c.other ? ( e.id == a ? b : a ) : e.id, choose( 2, 0, CK::Env, "how" ) );
		}
		mc::schedPoint( "end of callback" );
		inside[e.id]--;
		running--;
	};
	la.hook = hook;
	lb.hook = hook;
	a = w->addWatch( R( "w" ), &la, true, opt );
	b = w->addWatch( R( "v" ), &lb, true, opt );
	check( a > 0 && b > 0 && a != b, "addWatch failed" );
	w->watch();
	settle( 1 );
	std::string hist;
	for ( int i = 0; i < c.ops; i++ ) {
		FsOp o = chooseOp( c.u );
		if ( i )
			schedPoint( "between two operations", nullptr, !c.generic );
		check( perform( o ) == 0, "harness: " + o.str() );
		hist += ( hist.empty() ? "" : "; " ) + o.str();
	}
	if ( c.generic )
		advanceClock( 1000000000ll );
	if ( !c.fromCallback ) {
		schedPoint( "before removeWatch", nullptr, true );
		long id = choose( 2, 0, CK::Env, "which" ) ? b : a;
		remove( id, choose( 3, 0, CK::Env, "how" ) );
		check( !inside[id], "removeWatch() returned while a callback of the watch is running" );
		for ( auto& d : w->directories() )
			check( d != ( id == a ? R( "w/" ) : R( "v/" ) ), "directories() lists a removed watch" );
	}
	settle( 2 );
	done = true;
	// the removed watch is silent, the other one isn't
	for ( long id : { a, b } ) {
		size_t na = la.evs.size(), nb = lb.evs.size();
		std::string f = R( id == a ? "w/probe" : "v/probe" );
		fs::create( f );
		if ( id == a )
			fs::create( R( "w/d/probe" ) );
		settle( 2 );
		size_t n = la.evs.size() - na + ( &la == &lb ? 0 : lb.evs.size() - nb );
		if ( removed.count( id ) )
			check( n == 0, "a removed watch reports events" );
		else if ( id == b || fs::isDir( R( "w/d" ) ) )
			check( n > 0, "a watch is silent after removing another one after [" + hist + "]" );
	}
	if ( !c.generic ) {
		std::set<std::string> p = inotifyWatchedPaths();
		for ( long id : { a, b } )
			for ( auto& x : p )
				check( !removed.count( id ) || x.compare( 0, R( id == a ? "w" : "v" ).size(), R( id == a ? "w" : "v" ) ),
					   rel( x ) + " of a removed watch is still watched" );
	}
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C07", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.realConformance = !bound && !c.split;
			x.body = [c] { body( c ); };
			x.config = [c] { K.splitRename = c.split; };
			s.push_back( x );
		};
		int T = thorough ? 1 : 0;
		Universe u;
		u.files = { "w/a", "w/aa", "w/d/x", "v/a" };
		u.dirs = { "w/d", "w/dd", "v/dd" };
		u.rmtree = true;
		Universe few = u;
		few.files = { "w/a", "w/d/x", "v/a" };
		few.dirs = { "w/d", "v/dd" };
		few.write = false;
		for ( bool g : { false, true } ) {
			std::string p = g ? "generic: " : "inotify: ";
			add( p + "other thread", { g, true, true, 1, false, false, u }, 2 );
			add( p + "other thread, burst", { g, true, false, 2, false, false, few }, 1 + T );
			add( p + "own callback", { g, true, true, 2 + T, true, false, u }, 0 );
			add( p + "own callback, preempted", { g, true, false, 2, true, false, few }, 1 );
			add( p + "callback of the other watch", { g, true, false, 2 + T, true, true, few }, 0 );
			add( p + "callback of the other watch, preempted", { g, false, true, 2, true, true, few }, 1 );
		}
		add( "inotify: own callback, halves of a rename read apart", { false, true, true, 2, true, false, u, true }, 1 );
		if ( thorough ) {
			add( "inotify: other thread, 3 preemptions", { false, true, true, 1, false, false, few }, 3 );
			add( "generic: other thread, 3 preemptions", { true, true, true, 1, false, false, few }, 3 );
		}
		inLargeSystem( s, { "inotify: own callback", "generic: own callback" } );
		return s;
	} );
}
