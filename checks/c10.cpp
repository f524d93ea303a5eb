// C10: a listener may use the FileWatcher from its callbacks (both backends).
#include "oracle.hpp"
using namespace hs;
using namespace mc;

enum CbK { None, AddNew, AddAgain, RemoveSelf, RemoveOther, RemovePathSelf, ReAdd, Dirs, AddMissing, CbCount };
static const char* cbName( int k ) {
	static const char* n[] = { "",	  "addWatch(new)",		 "addWatch(own directory)", "removeWatch(own id)", "removeWatch(other id)",
							   "removeWatch(own path)", "remove and add again", "directories()", "addWatch(missing)" };
	return n[k];
}
struct Cfg {
	bool generic, synthetic;
	int ops, calls;
	Universe u;
	bool burst = true, split = false;
	bool flat = false; // no watch is recursive, otherwise the one of v isn't
};

static void body( const Cfg& c ) {
	for ( const char* d : { "w", "w/d", "v", "n", "n/m" } )
		fs::mkdir( R( d ) );
	fs::create( R( "w/d/x" ) );
	fs::create( R( "w/a" ) );
	Recorder r;
	r.muteModified = c.generic;
	Watcher w( c.generic );
	auto rec = [&]( const std::string& d ) { return !c.flat && d != R( "v/" ); };
	std::map<std::string, long> live; // directory -> id
	std::set<long> dead, ids;
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	int calls = 0;
	bool quiet = false;
	std::string hist;
	auto addModel = [&]( const std::string& d, long res ) {
		if ( live.count( d ) )
			check( res == efsw::Errors::FileRepeated,
				   "addWatch() of a watched directory returned " + std::to_string( res ) + " after " + hist );
		else {
			check( res > 0, "addWatch() failed with " + std::to_string( res ) + " after " + hist );
			check( !ids.count( res ) || dead.count( res ), "a watch id in use was given again" );
			dead.erase( res );
			ids.insert( res );
			live[d] = res;
		}
	};
	auto dirOf = [&]( long id ) {
		for ( auto& x : live )
			if ( x.second == id )
				return x.first;
		return std::string();
	};
	r.hook = [&]( const Ev& e ) {
		check( !dead.count( e.id ), "callback of a removed watch: " + e.str() + " after " + hist );
		check( !dirOf( e.id ).empty(), "callback with an unknown id: " + e.str() );
		std::string own;
		{
			Host h;
			own = dirOf( e.id );
			check( e.dir.compare( 0, own.size(), own ) == 0, "event out of its watch: " + e.str() );
		}
		if ( quiet || calls >= c.calls )
			return;
		int k = choose( CbCount, 0, CK::Op, "API call in the callback" );
		if ( !k )
			return;
		calls++;
		{
			Host h;
			hist += std::string( cbName( k ) ) + " in " + e.str() + "; ";
		}
		std::string other = own == R( "w/" ) ? R( "v/" ) : R( "w/" );
		long otherId = live.count( other ) ? live[other] : 0;
		auto kill = [&]( long id ) {
			Host h;
			std::string d = dirOf( id );
			if ( !d.empty() ) {
				live.erase( d );
				dead.insert( id );
			}
		};
		switch ( k ) {
			case AddNew:
				addModel( R( "n/" ), w->addWatch( R( "n" ), &r, rec( R( "n/" ) ), opt ) );
				break;
			case AddAgain:
				addModel( own, w->addWatch( own, &r, rec( own ), opt ) );
				break;
			case AddMissing:
				check( w->addWatch( R( "missing" ), &r, true ) == efsw::Errors::FileNotFound, "addWatch(missing)" );
				break;
			case RemoveSelf:
				w->removeWatch( e.id );
				kill( e.id );
				break;
			case RemoveOther:
				if ( otherId ) {
					w->removeWatch( otherId );
					kill( otherId );
				}
				break;
			case RemovePathSelf:
				w->removeWatch( own );
				kill( e.id );
				break;
			case ReAdd:
				w->removeWatch( e.id );
				kill( e.id );
				addModel( own, w->addWatch( own, &r, rec( own ), opt ) );
				break;
			case Dirs: {
				std::vector<std::string> d = w->directories(), v;
				for ( auto& x : d )
					v.push_back( Recorder::copy( x ) );
				std::sort( v.begin(), v.end() );
				std::vector<std::string> m;
				for ( auto& x : live )
					m.push_back( x.first );
				check( v == m, "directories() is wrong in a callback after " + hist );
				break;
			}
		}
	};
	addModel( R( "w/" ), w->addWatch( R( "w" ), &r, rec( R( "w/" ) ), opt ) );
	addModel( R( "v/" ), w->addWatch( R( "v" ), &r, rec( R( "v/" ) ), opt ) );
	w->watch();
	settle( 1 );
	for ( int i = 0; i < c.ops; i++ ) {
		FsOp o = chooseOp( c.u );
		if ( i && c.burst && !c.generic )
			schedPoint( "between two operations", nullptr, true );
		check( perform( o ) == 0, "harness: " + o.str() );
		{
			Host h;
			hist += o.str() + "; ";
		}
		if ( !c.burst )
			settle( 1 );
	}
	settle( 2 );
	quiet = true;
	// every live watch covers its whole tree, the others are silent
	std::vector<std::string> dirs = { "w", "v", "n" };
	for ( auto& x : fs::tree( R() ) )
		if ( x.second == 'd' && x.first.size() > R( "w" ).size() )
			dirs.push_back( x.first.substr( R().size() + 1 ) );
	for ( auto& d : dirs ) {
		size_t k = r.evs.size();
		std::string top = R( d.substr( 0, 1 ) + "/" );
		bool covered = live.count( top ) && ( d.size() == 1 || rec( top ) );
		fs::create( R( d ) + "/probe" );
		settle( 2 );
		int n = 0;
		for ( ; k < r.evs.size(); k++ )
			if ( r.evs[k].action == efsw::Actions::Add ) {
				check( r.evs[k].dir == R( d ) + "/" && r.evs[k].file == "probe" && covered &&
						   r.evs[k].id == live[top],
					   "wrong event " + r.evs[k].str() + " for a file created in " + d + " after " + hist );
				n++;
			}
		check( n == ( covered ? 1 : 0 ), std::to_string( n ) + " events for a file created in " + d +
													   " after " + hist + listEvs( r.evs ) );
	}
	if ( !c.generic )
		for ( auto& p : inotifyWatchedPaths() )
			check( live.count( p.substr( 0, R( "w" ).size() ) + "/" ), rel( p ) + " of a removed watch is still watched" );
	w.destroy();
	efsw::Errors::Log::clearLastError();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C10", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.realConformance = !bound && !c.split;
			x.body = [c] { body( c ); };
			x.config = [c] { K.splitRename = c.split; };
			s.push_back( x );
		};
		int T = thorough ? 1 : 0;
		Universe u;
		u.files = { "w/a", "w/aa", "w/d/x", "v/a" };
		u.dirs = { "w/d", "w/dd", "w/dd/d", "v/dd" };
		u.rmtree = true;
		Universe few = u;
		few.files = { "w/a", "w/d/x", "v/a" };
		few.dirs = { "w/d", "w/dd", "v/dd" };
		few.write = false;
		for ( bool g : { false, true } ) {
			std::string p = g ? "generic: " : "inotify: ";
			add( p + "one call", { g, true, 2, 1, u }, 0 );
			add( p + "two calls, one operation", { g, true, 1, 2, u }, 0 );
			add( p + "two calls", { g, true, 2, 2, few }, 0 );
			add( p + "preempted", { g, true, 1, 1, u }, 1 );
			add( p + "not recursive", { g, false, 2, 1, u, true, false, true }, 0 );
			add( p + "not recursive, preempted", { g, false, 1, 1, few, true, false, true }, 1 );
			if ( thorough ) {
				add( p + "three operations", { g, true, 3, 1, few }, 0 );
				add( p + "three calls", { g, true, 2, 3, few }, 0 );
				add( p + "two operations, preempted", { g, false, 2, 1, few }, 1 );
			}
		}
		add( "inotify: halves of a rename read apart", { false, true, 2, 1, few, true, true }, T ? 2 : 1 );
		inLargeSystem( s, { "inotify: two calls", "generic: two calls" } );
		return s;
	} );
}
