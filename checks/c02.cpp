// C02: nothing is lost in a burst (native backend).
#include "oracle.hpp"
using namespace hs;
using namespace mc;

struct Cfg {
	int depth;
	bool synthetic;
	bool sequence; // the reported sequence is the sequence of operations
	bool exact;	   // no phantom entries either
	bool split;	   // a reader may see the first half of a rename only
	int readLimit;
	Universe u;
	std::vector<FsOp> pre;
};
static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "o" ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r;
	Watcher w;
	Mirror m = Mirror::of( R( "w" ) );
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	long id = w->addWatch( R( "w" ), &r, true, opt );
	check( id > 0, "addWatch failed" );
	w->watch();
	settle( 1 );
	check( r.evs.empty(), "events without any change: " + listEvs( r.evs ) );
	std::vector<FsOp> ops;
	for ( int i = 0; i < c.depth; i++ ) {
		FsOp o = chooseOp( c.u );
		if ( i )
			schedPoint( "between two operations", nullptr, true );
		check( perform( o ) == 0, "harness: " + o.str() );
		ops.push_back( o );
	}
	settle( 2 );
	for ( auto& e : r.evs )
		m.apply( e );
	std::string d = m.diff( Mirror::of( R( "w" ) ) );
	std::string hist;
	for ( auto& o : ops )
		hist += ( hist.empty() ? "" : "; " ) + o.str();
	if ( !c.exact && d.find( "missing" ) == std::string::npos )
		d.clear();
	check( d.empty(), "content known from the events differs:" + d + " after [" + hist + "]; reported " +
						  listEvs( r.evs ) );
	if ( c.sequence ) {
		// reported sequence without Modified
		std::vector<std::string> got;
		std::set<std::string> modified;
		for ( auto& e : r.evs ) {
			check( e.id == id, "event with another watch id: " + e.str() );
			if ( e.action == efsw::Actions::Modified )
				modified.insert( rel( e.path() ) );
			else
				got.push_back( std::string( actName( e.action ) ) + " " + rel( e.path() ) +
							   ( e.old.empty() ? "" : " <- " + e.old ) );
		}
		size_t p = 0;
		auto take = [&]( const std::string& x ) {
			if ( p < got.size() && got[p] == x ) {
				p++;
				return true;
			}
			return false;
		};
		bool ok = true;
		std::string arrived; // the last notification queued was the arrival of this name
		for ( auto& o : ops ) {
			std::string prevArrived = arrived;
			bool sa = under( o.a, "w" ), sb = under( o.b, "w" );
			std::string a = "$/" + o.a, b = "$/" + o.b;
			if ( sa || sb )
				arrived = o.k == OpK::Rename && sb ? o.b : "";
			if ( o.k == OpK::Create )
				ok = ok && ( !sa || ( take( "Add " + a ) && modified.count( a ) ) );
			else if ( o.k == OpK::Write )
				ok = ok && ( !sa || modified.count( a ) );
			else if ( o.k == OpK::Special || o.k == OpK::Mkdir )
				ok = ok && ( !sa || take( "Add " + a ) );
			else if ( o.k == OpK::Unlink || o.k == OpK::Rmdir )
				ok = ok && ( !sa || take( "Delete " + a ) );
			else if ( o.k == OpK::Rename && sa && sb ) {
				if ( parentDir( o.a ) == parentDir( o.b ) && take( "Moved " + b + " <- " + baseName( o.a ) ) )
					continue;
				check( c.split || parentDir( o.a ) != parentDir( o.b ),
					   "rename not reported as Moved after [" + hist + "]; reported " + listEvs( r.evs ) );
				if ( take( "Delete " + a ) )
					ok = ok && take( "Add " + b );
				else
					ok = ok && take( "Add " + b ) && take( "Delete " + a );
			} else if ( o.k == OpK::Rename && sa )
				ok = ok && take( "Delete " + a );
			else if ( o.k == OpK::Rename && sb )
				// two arrivals of a name in a row are one notification for the kernel
				ok = ok && ( take( "Add " + b ) || prevArrived == o.b );
		}
		check( ok && p == got.size(), "the reported sequence is not the sequence of operations [" + hist +
										  "]; reported " + listEvs( r.evs ) );
	}
	w.destroy();
	checkReleased();
}

// More events than one read() takes, the end of the buffer at every place of a sequence of events with and without names.
static void fullBuffer() {
	for ( const char* d : { "w", "o", "w/d", "w/e" } )
		fs::mkdir( R( d ) );
	fs::create( R( "o/x" ) );
	Recorder r;
	Watcher w;
	Mirror m = Mirror::of( R( "w" ) );
	check( w->addWatch( R( "w" ), &r, true, { efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) } ) > 0, "addWatch failed" );
	// units of 16 bytes; a read may take 1024 events of the longest name there is
	const int total = ( 16 + FILENAME_MAX ) * 1024 / 16, cycle = 2 * ( 1 + 16 );
	std::string name( 255, 'n' );
	int used = 0;
	for ( ; used + cycle <= total - 24; used += cycle ) {
		check( fs::link( R( "o/x" ), R( "w/" + name ) ) == 0, "harness: link" );
		check( fs::unlink( R( "w/" + name ) ) == 0, "harness: unlink" );
	}
	int pad = choose( 24 + cycle, 0, CK::Op, "bytes before the end" ), k = 0;
	auto one = [&]( size_t len ) { // one event
		std::string p = R( "w/" + std::string( len, 'p' ) + std::to_string( k++ ) );
		check( fs::link( R( "o/x" ), p ) == 0, "harness: link" );
	};
	if ( pad == 1 )
		abandon();
	for ( ; pad % 2; pad -= 3 )
		one( 16 );
	for ( ; pad; pad -= 2 )
		one( 1 );
	check( fs::rmdir( R( "w/d" ) ) == 0 && fs::rmdir( R( "w/e" ) ) == 0, "harness: rmdir" );
	one( 1 );
	w->watch();
	settle( 2 );
	for ( auto& e : r.evs )
		m.apply( e );
	std::string d = m.diff( Mirror::of( R( "w" ) ) );
	check( d.empty(), "content known from the events differs:" + d + " after a full buffer" );
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C02", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.realConformance = !c.split && !c.readLimit;
			x.body = [c] { body( c ); };
			x.config = [c] {
				K.splitRename = c.split;
				K.readLimit = c.readLimit;
			};
			s.push_back( x );
		};
		int T = thorough ? 1 : 0;
		std::vector<FsOp> preF = { { OpK::Mkdir, "w/d", "", true }, { OpK::Create, "w/a", "" },
								   { OpK::Create, "w/d/a", "" },	{ OpK::Create, "o/a", "" } };
		Universe files;
		files.files = { "w/a", "w/aa", "w/d/a", "o/a", "o/aa" };
		Universe filesNoOut = files;
		filesNoOut.files = { "w/a", "w/aa", "w/d/a" };
		Universe create = files; // only events in the watched tree
		add( "files", { 3 + T, false, true, true, false, 0, files, preF }, 0 );
		add( "files inside", { 4 + T, false, true, true, false, 0, filesNoOut, preF }, 0 );
		for ( uint32_t cookie : { 0xFFFFFFFDu, 0xFFFFFFFEu } ) {
			add( "files inside, rename cookies after " + std::to_string( cookie ), { 3 + T, false, true, true, false, 0, filesNoOut, preF }, 0 );
			s.back().config = [cookie] { K.cookieStart = cookie; };
		}
		add( "files, preempted", { 2 + T, false, true, true, false, 0, files, preF }, 1 );
		Universe sock = filesNoOut; // sockets, also in the place of directories
		sock.special = true;
		sock.files = { "w/a", "w/d/a", "w/s" };
		sock.dirs = { "w/s" };
		add( "sockets", { 3 + T, true, true, true, false, 0, sock, preF }, 0 );
		add( "files inside, preempted", { 3, false, true, true, false, 0, filesNoOut, preF }, 1 + T );
		add( "files, halves of a rename read apart", { 2 + T, false, true, true, true, 0, files, preF }, 1 + T );
		add( "files, partial reads", { 3, false, true, true, true, 1, filesNoOut, preF }, 1 );
		Universe tree; // directories appear and disappear, files are renamed
		tree.files = { "w/a", "w/d/a", "w/d/dd/a" };
		tree.dirs = { "w/d", "w/d/dd" };
		tree.write = false;
		tree.renameDirs = false;
		tree.rmtree = true;
		add( "tree", { 5 + T, true, false, true, false, 0, tree, {} }, 0 );
		add( "tree, preempted", { 4, true, false, true, false, 0, tree, {} }, 1 + T );
		Universe dirs; // directories are renamed, moved in and out
		dirs.files = { "w/a", "w/d/a", "w/dd/a" };
		dirs.dirs = { "w/d", "w/dd", "w/d/dd", "o/d" };
		dirs.write = false;
		Universe odd = dirs; // with sockets and links
		odd.special = true;
		odd.files = { "w/d/a", "o/d/a" };
		odd.dirs = { "w/d", "w/dd", "o/d" };
		std::vector<FsOp> preO = { { OpK::Mkdir, "o/d", "", true },		   { OpK::Special, "o/d/s", "" },	  { OpK::Symlink, "o/d/l", "nowhere" },
								   { OpK::Symlink, "o/d/k", "../a" },  { OpK::Symlink, "o/d/m", "../../o" }, { OpK::Mkdir, "o/d/t", "", true },
								   { OpK::Special, "o/d/t/s", "" },		   { OpK::Symlink, "o/d/t/l", "nowhere" }, { OpK::Create, "w/a", "" } };
		Universe oddTree = odd;
		oddTree.renameDirs = false;
		add( "tree, sockets", { 4 + T, true, false, true, false, 0, oddTree, {} }, 0 );
		add( "sockets and links in directories", { 4 + T, true, false, false, false, 0, odd, preO }, 0 );
		add( "sockets and links in directories, preempted", { 2 + T, true, false, false, false, 0, odd, preO }, 1 );
		add( "directory moves", { 5 + T, true, false, false, false, 0, dirs, {} }, 0 );
		add( "directory moves, preempted", { 3 + T, true, false, false, false, 0, dirs, {} }, 1 );
		add( "directory moves, halves apart", { 3 + T, true, false, false, true, 0, dirs, {} }, 1 );
		add( "more events than one read takes", {}, 0 );
		s.back().body = fullBuffer;
		s.back().realConformance = false;
		if ( thorough )
			add( "directory moves, preempted twice", { 4, true, false, false, true, 0, dirs, {} }, 2 );
		inLargeSystem( s, { "files", "tree", "directory moves" } );
		return s;
	} );
}
