// C20: from addWatch on nothing is missed: listing the tree when it returns and applying the events gives the content.
#include "oracle.hpp"
using namespace hs;
using namespace mc;

enum When { Before, After, Twice, Callback }; // watch() with respect to addWatch
struct Cfg {
	bool generic;
	When when;
	int before, ops; // operations between addWatch and watch(); by another thread at any time
	bool recursive, synthetic, exact;
	Universe u;
	std::vector<FsOp> pre;
	bool other = false; // another watch is there already
};

static void body( const Cfg& c ) {
	for ( const char* d : { "w", "v", "o" } )
		fs::mkdir( R( d ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r, rv;
	rv.name = "v";
	r.muteModified = rv.muteModified = c.generic;
	Watcher w( c.generic );
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	if ( c.when == Callback ) {
		r.hook = [&]( const Ev& ) { w->watch(); };
	}
	if ( c.other )
		check( w->addWatch( R( "v" ), &rv, true ) > 0, "addWatch failed" );
	if ( c.when == Before )
		w->watch();
	if ( c.other && c.when == Before )
		settle( 1 );
	std::vector<std::string> hist;
	bool dirRenamed = false;
	auto op = [&]( const char* tag ) {
		FsOp o = chooseOp( c.u );
		check( perform( o ) == 0 || ( c.before && c.ops ), "harness: " + o.str() );
		Host h;
		hist.push_back( o.str() + tag );
		dirRenamed |= o.dir && o.k == OpK::Rename;
	};
	int t = -1;
	if ( c.ops )
		t = spawn( "user", [&] {
			for ( int i = 0; i < c.ops; i++ ) {
				if ( i )
					schedPoint( "between two operations" );
				op( "" );
			}
		} );
	Mirror m0 = Mirror::of( R( "w" ) ), m;
	long id = w->addWatch( R( "w" ), &r, c.recursive, opt );
	check( id > 0, "addWatch failed" );
	size_t from;
	{
		Host h;
		from = r.evs.size();
		m = Mirror::of( R( "w" ) );
		hist.push_back( "<added>" );
	}
	for ( int i = 0; i < c.before; i++ )
		op( "" );
	if ( c.when != Before )
		w->watch();
	if ( c.when == Twice ) {
		w->watch();
		settle( 1 );
		w->watch();
	}
	if ( t >= 0 )
		joinThread( t );
	settle( 3 );
	check( liveThreads() == 2, "there are " + std::to_string( liveThreads() - 1 ) + " watcher threads" );
	std::string h;
	for ( auto& x : hist )
		h += ( h.empty() ? "" : "; " ) + x;
	for ( size_t i = from; i < r.evs.size(); i++ ) {
		check( r.evs[i].id == id, "event with another watch id: " + r.evs[i].str() );
		m.apply( r.evs[i] );
		m0.apply( r.evs[i] );
	}
	Mirror now = Mirror::of( R( "w" ) );
	if ( !c.recursive )
		for ( Mirror* x : { &m, &now } )
			for ( auto it = x->paths.begin(); it != x->paths.end(); )
				it = parentDir( *it ) == R( "w" ) ? std::next( it ) : x->paths.erase( it );
	if ( c.generic ) { // it starts from what was there at some moment of the call
		for ( auto& p : m0.paths )
			if ( now.paths.count( p ) )
				m.paths.insert( p );
		for ( auto it = m.paths.begin(); it != m.paths.end(); )
			it = !m0.paths.count( *it ) && !now.paths.count( *it ) ? m.paths.erase( it ) : std::next( it );
	}
	std::string d = m.diff( now );
	if ( ( !c.exact || dirRenamed ) && d.find( "missing" ) == std::string::npos )
		d.clear();
	check( d.empty(), "content known from the events differs:" + d + " after [" + h + "]; reported " + listEvs( r.evs ) );
	if ( !c.ops )
		for ( auto& e : r.evs )
			check( e.action == efsw::Actions::Modified || c.before, "event without any change: " + e.str() );
	// every directory is watched, by one thread
	Tree tree = fs::tree( R( "w" ) );
	tree[R( "w" )] = 'd';
	for ( auto& x : tree ) {
		if ( x.second != 'd' || ( !c.recursive && x.first != R( "w" ) ) )
			continue;
		for ( int k = 0; k < 2; k++ ) {
			size_t n = r.evs.size();
			std::string f = x.first + "/probe";
			check( ( k ? fs::unlink( f ) : fs::create( f ) ) == 0, "harness: probe" );
			settle( 2 );
			int seen = 0;
			for ( ; n < r.evs.size(); n++ )
				seen += r.evs[n].path() == f && r.evs[n].action == ( k ? efsw::Actions::Delete : efsw::Actions::Add );
			check( seen == 1, ( k ? "rm " : "create " ) + rel( f ) + " reported " + std::to_string( seen ) + " times after [" + h + "]; reported before " +
								  listEvs( r.evs ) );
		}
	}
	if ( c.other ) {
		check( rv.evs.empty(), "event for another watch " + listEvs( rv.evs ) );
		fs::create( R( "v/probe" ) );
		settle( 2 );
		check( !rv.evs.empty(), "another watch doesn't report any more" );
	}
	w.destroy();
	checkReleased();
}

// any number of calls of watch(), also at the same time, start one thread
static void starts( bool generic, int threads ) {
	fs::mkdir( R( "w" ) );
	Recorder r;
	r.muteModified = generic;
	Watcher w( generic );
	long id = w->addWatch( R( "w" ), &r, true );
	check( id > 0, "addWatch failed" );
	std::vector<int> th;
	for ( int i = 1; i < threads; i++ )
		th.push_back( spawn( "user", [&] { w->watch(); } ) );
	schedPoint( "main starts", nullptr, true );
	w->watch();
	for ( int t : th )
		joinThread( t );
	check( liveThreads() == 2, "there are " + std::to_string( liveThreads() - 1 ) + " watcher threads" );
	fs::create( R( "w/a" ) );
	settle( 2 );
	int n = 0;
	for ( auto& e : r.evs )
		n += e.action == efsw::Actions::Add;
	check( n == 1, "a change is reported " + std::to_string( n ) + " times: " + listEvs( r.evs ) );
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C20", []( bool th ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = ( c.generic ? "polling, " : "" ) + name;
			x.bound = bound;
			x.realConformance = !bound && !c.generic;
			x.body = [c] { body( c ); };
			s.push_back( x );
		};
		int T = th ? 1 : 0;
		Universe files;
		files.files = { "w/a", "w/d/a", "w/b", "o/a" };
		files.dirs = { "w/d" };
		Universe dirs;
		dirs.files = { "w/d/x", "w/e/x", "w/d/e/x" };
		dirs.dirs = { "w/d", "w/e", "w/d/e", "o/e" };
		dirs.write = false;
		dirs.rmtree = true;
		std::vector<FsOp> pre = { { OpK::Mkdir, "w/d", "", true }, { OpK::Mkdir, "w/d/e", "", true }, { OpK::Create, "w/d/e/x", "" }, { OpK::Create, "w/a", "" } };
		for ( bool g : { false, true } ) {
			for ( When k : { After, Twice, Callback } ) {
				std::string n = k == After ? "" : k == Twice ? ", watch() again" : ", watch() from callbacks";
				add( "files, before watch()" + n, { g, k, ( g ? 3 : 3 ) + T, 0, true, true, true, files, pre }, 0 );
				add( "directories, before watch()" + n, { g, k, 3 + T, 0, true, true, true, dirs, pre }, 0 );
			}
			add( "files, before watch(), flat", { g, After, 3 + T, 0, false, false, true, files, pre }, 0 );
			add( "files, while adding", { g, Before, 0, 2 + T, true, true, true, files, pre }, 1 + T );
			add( "directories, while adding", { g, Before, 0, 2 + T, true, true, true, dirs, pre }, 1 );
			Universe two = dirs;
			two.rmtree = false;
			two.files = { "w/d/x" };
			add( "directories, while adding and before watch()", { g, After, 1, 1 + T, true, true, true, two, pre }, 1 );
			add( "directories, while adding another", { g, Before, 0, 1 + T, true, true, true, dirs, pre, true }, 1 );
			add( "one file, while adding", { g, Before, 0, 1, true, true, true, files, pre }, 2 + T );
			for ( int n : { 2, 3 } ) {
				Scenario x;
				x.name = std::string( g ? "polling, " : "" ) + "watch() from " + std::to_string( n ) + " threads";
				x.bound = 4 - n + T;
				x.body = [=] { starts( g, n ); };
				s.push_back( x );
			}
		}
		return s;
	} );
}
