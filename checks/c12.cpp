// C12: a queue overflow is announced to every watch of the FileWatcher, and only then.
#include "oracle.hpp"
using namespace hs;
using namespace mc;

struct Cfg {
	int depth, maxQueued, after;
	bool recursive, exact, second, generic;
	int inCallback = 0; // API call from handleMissedFileActions: 1 remove other, 2 remove own, 3 add, 4 remove own and add again
	Universe u;
	std::vector<FsOp> pre;
	bool split = false;
	int removeDuring = 0; // another thread removes a watch
};

static void body( const Cfg& c ) {
	for ( const char* d : { "w", "w/d", "v", "n", "o" } )
		fs::mkdir( R( d ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r, r2;
	r.muteModified = c.generic;
	std::vector<efsw::WatcherOption> opt{ efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) };
	Watcher w( c.generic ), *x = nullptr;
	long a = w->addWatch( R( "w" ), &r, c.recursive, opt ), b = w->addWatch( R( "v" ), &r, false ), n = 0, z = 0;
	check( a > 0 && b > 0, "addWatch failed" );
	std::set<long> dead;
	bool acted = false;
	std::unique_ptr<Watcher> second;
	if ( c.second ) {
		second.reset( new Watcher( false ) );
		x = second.get();
		z = ( *x )->addWatch( R( "o" ), &r2, true );
		check( z > 0, "addWatch failed" );
		( *x )->watch();
	}
	r.hook = [&]( const Ev& e ) {
		check( !dead.count( e.id ), "callback of a removed watch: " + e.str() );
		if ( e.action != -1 || acted || !c.inCallback )
			return;
		acted = true;
		long other = e.id == a ? b : a;
		switch ( c.inCallback ) {
			case 1:
				w->removeWatch( other );
				dead.insert( other );
				break;
			case 2:
				w->removeWatch( e.id );
				dead.insert( e.id );
				break;
			case 3:
				n = w->addWatch( R( "n" ), &r, true );
				check( n > 0, "addWatch() failed in handleMissedFileActions()" );
				break;
			case 4: {
				w->removeWatch( e.id );
				long i = w->addWatch( R( e.id == a ? "w" : "v" ), &r, e.id == a && c.recursive, opt );
				check( i > 0, "addWatch() failed in handleMissedFileActions()" );
				dead.insert( e.id );
				dead.erase( i );
				( e.id == a ? a : b ) = i;
				break;
			}
		}
	};
	w->watch();
	settle( 2 );
	check( r.evs.empty() && r2.evs.empty(), "events without any change: " + listEvs( r.evs ) );
	std::vector<std::string> seq; // what is reported as long as nothing is missed
	std::string hist;
	int t = 0;
	long rm = 0;
	bool removed = false;
	if ( c.removeDuring )
		t = spawn( "remover", [&] {
			rm = b;
			w->removeWatch( b );
			removed = true;
			dead.insert( b );
		} );
	std::string arrived;
	bool merged = false; // the kernel joins two equal notifications in a row
	for ( int i = 0; i < c.depth; i++ ) {
		FsOp o = chooseOp( c.u );
		if ( i )
			schedPoint( "between two operations", nullptr, true );
		check( perform( o ) == 0, "harness: " + o.str() );
		Host h;
		hist += o.str() + "; ";
		auto in = [&]( const std::string& p ) {
			std::string d = parentDir( p );
			return d == "w" || d == "v" || ( c.recursive && d == "w/d" );
		};
		bool sa = in( o.a ), sb = !o.b.empty() && in( o.b );
		std::string A = "$/" + o.a, B = "$/" + o.b, got = sb ? B : "";
		if ( o.k == OpK::Create && sa )
			seq.push_back( "Add " + A );
		else if ( ( o.k == OpK::Unlink ) && sa )
			seq.push_back( "Delete " + A );
		else if ( o.k == OpK::Rename && sa && sb && parentDir( o.a ) == parentDir( o.b ) )
			seq.push_back( "Moved " + B + " <- " + baseName( o.a ) );
		else if ( o.k == OpK::Rename ) {
			if ( sa )
				seq.push_back( "Delete " + A );
			if ( sb ) {
				merged |= arrived == B;
				seq.push_back( "Add " + B );
			}
		}
		if ( sa || sb )
			arrived = got;
	}
	if ( t )
		joinThread( t );
	settle( 2 );
	int over = c.generic ? 0 : inotifyOverflows( 0 );
	std::map<long, int> missed;
	bool first = false;
	size_t p = 0;
	{
		Host h;
		for ( auto& e : r.evs ) {
			if ( e.action == -1 ) {
				missed[e.id]++;
				first = true;
				std::string want = e.id == n ? R( "n/" ) : e.dir == R( "w/" ) || e.dir == R( "v/" ) ? e.dir : "?";
				check( e.dir == want && e.file.empty(), "handleMissedFileActions() with another directory: " + e.str() );
			} else if ( c.exact && !first && e.action != efsw::Actions::Modified ) {
				std::string g = std::string( actName( e.action ) ) + " " + rel( e.path() ) +
								( e.old.empty() ? "" : " <- " + e.old );
				bool ok = p < seq.size() && seq[p] == g;
				// the second half of a rename was lost or not yet read
				if ( !ok && p < seq.size() && seq[p].compare( 0, 5, "Moved" ) == 0 && e.action == efsw::Actions::Delete &&
					 ( over || c.split ) ) {
					size_t k = seq[p].find( " <- " );
					std::string s = seq[p].substr( 6, k - 6 );
					ok = rel( e.path() ) == s.substr( 0, s.rfind( '/' ) + 1 ) + seq[p].substr( k + 4 );
					if ( ok )
						seq[p] = "Add " + s, p--;
				}
				check( ok || merged, "reported " + g + " out of order before an overflow was announced, after [" + hist +
							   "]; reported " + listEvs( r.evs ) );
				p++;
			}
		}
		if ( !over ) {
			check( !first, "missed events announced without an overflow after [" + hist + "]; reported " + listEvs( r.evs ) );
			check( !c.exact || merged || p == seq.size(),
				   "events lost without an overflow after [" + hist + "]; reported " + listEvs( r.evs ) );
		}
		for ( auto& m : missed )
			check( m.second <= over, "missed events announced more often than they were missed" );
		if ( over )
			for ( long i : { a, b } ) {
				bool was = c.inCallback == 4 && acted; // a new watch has missed nothing yet
				if ( !dead.count( i ) && !was )
					check( missed[i] == over || ( t && missed[i] ),
						   "the overflow was not announced to the watch of " + std::string( i == a ? "w" : "v" ) + " after [" + hist +
							   "]; reported " + listEvs( r.evs ) );
			}
		int over2 = c.second ? inotifyOverflows( 1 ) : 0;
		for ( auto& e : r2.evs )
			if ( e.action == -1 )
				check( --over2 >= 0 && e.id == z, "an overflow was announced to a FileWatcher that had none" );
		check( over2 == 0, "the overflow of the second FileWatcher was not announced" );
	}
	// it goes on
	Universe u2;
	u2.files = { "w/a", "w/aa", "v/a", "v/aa" };
	if ( c.recursive && fs::isDir( R( "w/d" ) ) )
		u2.files.push_back( "w/d/a" );
	int restore = K.maxQueued;
	K.maxQueued = 16384;
	K.splitRename = false;
	for ( int i = 0; i < c.after; i++ ) {
		Tree before = snapshotTree();
		FsOp o = chooseOp( u2 );
		size_t from = r.evs.size();
		check( perform( o ) == 0, "harness: " + o.str() );
		settle( c.generic ? 3 : 2 );
		for ( long id : { a, b } ) {
			if ( dead.count( id ) )
				continue;
			WatchCfg wc;
			wc.root = id == a ? "w" : "v";
			wc.recursive = id == a && c.recursive;
			wc.synthetic = true;
			wc.generic = c.generic;
			wc.id = id;
			compare( hist + "then " + o.str(), wc, expected( o, wc, before ), r.evs, from );
		}
	}
	// a recursive watch covers its tree, also what appeared while events were missed, and nothing else
	if ( !c.generic && !c.u.dirs.empty() ) {
		for ( std::string p : { "w", "w/d", "w/dd", "w/d/dd", "w/dd/d", "o", "o/d", "o/dd" } ) {
			if ( !fs::isDir( R( p ) ) )
				continue;
			size_t from = r.evs.size();
			fs::create( R( p + "/probe" ) );
			settle( 2 );
			fs::unlink( R( p + "/probe" ) );
			settle( 2 );
			Host h;
			std::string got;
			for ( size_t i = from; i < r.evs.size(); i++ )
				if ( r.evs[i].action != efsw::Actions::Modified )
					got += r.evs[i].str() + ", ";
			std::string id = " id=" + std::to_string( a ), dir = rel( R( p + "/" ) ), want;
			bool in = p == "w" || ( under( p, "w" ) && c.recursive );
			if ( in && !dead.count( a ) )
				want = "Add " + dir + "|probe" + id + ", Delete " + dir + "|probe" + id + ", ";
			check( got == want, "a file created and deleted in " + p + " after [" + hist + "] with an overflow reports \"" + got +
									"\" instead of \"" + want + "\"" );
		}
	}
	K.maxQueued = restore;
	w.destroy();
	if ( x )
		x->destroy();
	second.reset();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C12", []( bool th ) {
		std::vector<Scenario> v;
		auto add = [&]( const std::string& name, Cfg c, int bound ) {
			Scenario s;
			s.name = name;
			s.bound = bound;
			s.body = [c]() { body( c ); };
			s.config = [c]() {
				K.maxQueued = c.maxQueued;
				K.splitRename = c.split;
			};
			v.push_back( s );
		};
		std::vector<FsOp> pre = { { OpK::Create, "w/a", "" }, { OpK::Create, "v/a", "" } };
		Universe f;
		f.files = { "w/a", "w/aa", "v/a", "o/a" };
		f.write = false;
		for ( int q = 1; q <= ( th ? 6 : 3 ); q++ )
			add( "files, queue of " + std::to_string( q ), { th ? 4 : 3, q, 1, true, true, false, false, 0, f, pre, false, 0 },
				 q == 2 && th ? 1 : 0 );
		Universe g;
		g.files = { "w/a", "w/aa", "v/a" };
		add( "preempted", { 3, 3, th, true, true, false, false, 0, g, pre, false, 0 }, 1 );
		add( "halves of a rename", { 3, 3, th, true, true, false, false, 0, g, pre, true, 0 }, 1 );
		add( "not recursive", { 3 + th, 3, 1, false, true, false, false, 0, g, pre, false, 0 }, 0 );
		Universe d;
		d.files = { "w/a", "w/d/a" };
		d.dirs = { "w/d", "w/dd", "w/d/dd", "o/d" };
		d.write = false;
		d.rmtree = true;
		add( "directories", { 3 + th, 3, 1, true, false, false, false, 0, d, pre, false, 0 }, 0 );
		Universe d2 = d;
		d2.files = { "w/d/a" };
		add( "directories, queue of 2", { 4 + th, 2, 0, true, false, false, false, 0, d2, pre, false, 0 }, 0 );
		add( "directories, preempted", { 3, 2, 0, true, false, false, false, 0, d2, pre, false, 0 }, 1 );
		for ( int k = 1; k <= 4; k++ )
			add( "used by the listener " + std::to_string( k ), { 2 + th, 2, 1, true, false, false, false, k, f, pre, false, 0 }, th );
		Universe two;
		two.files = { "w/aa", "o/a" };
		add( "two watchers", { 2 + th, 2, 0, true, true, true, false, 0, two, pre, false, 0 }, 0 );
		add( "removed meanwhile", { 1 + th, 2, th ? 1 : 0, true, false, false, false, 0, g, pre, false, 1 }, 1 + th );
		add( "no overflow", { 3, 16384, 1, true, true, false, false, 0, f, pre, false, 0 }, 0 );
		add( "generic", { 3, 1, 1, true, false, false, true, 0, f, pre, false, 0 }, 0 );
		inLargeSystem( v, { "files, queue of 3", "directories" } );
		return v;
	} );
}
