// C22: the kqueue back end converges: the events describe the content of the tree.
#include "oracle.hpp"
using namespace hs;
using namespace mc;

struct Cfg {
	int depth;
	bool burst;
	Universe u;
	std::vector<FsOp> pre;
	bool recursive = true;
	bool during = false; // operations happen in the middle of a poll
};
// what a listener knows of a file that it reads at each event
static std::string content( const std::string& p ) {
	Stat st;
	if ( !fs::stat( p, st, false ) || fs::isDir( p ) )
		return "";
	return std::to_string( st.size ) + "/" + std::to_string( st.mtimeNs );
}
static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "o" ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r;
	r.muteModified = true;
	Watcher w( false );
	Mirror m = Mirror::of( R( "w" ) );
	auto actual = [&] {
		Mirror a = Mirror::of( R( "w" ) );
		if ( !c.recursive ) {
			std::string pre = R( "w" ) + "/";
			for ( auto it = a.paths.begin(); it != a.paths.end(); )
				it = it->find( '/', pre.size() ) == std::string::npos ? std::next( it ) : a.paths.erase( it );
		}
		return a;
	};
	m = actual();
	std::map<std::string, std::string> read;
	for ( auto& p : m.paths )
		read[p] = content( p );
	r.hook = [&]( const Ev& e ) {
		Host h;
		read[e.path()] = content( e.path() );
	};
	long id = w->addWatch( R( "w" ), &r, c.recursive );
	check( id > 0, "addWatch failed" );
	w->watch();
	settle( 1 );
	std::string hist;
	for ( int i = 0; i < c.depth; i++ ) {
		FsOp o = chooseOp( c.u );
		check( perform( o ) == 0, "harness: " + o.str() );
		hist += ( i ? "; " : "" ) + o.str();
		if ( i + 1 < c.depth && ( !c.burst || choose( 2, 0, CK::Env, "poll now" ) ) ) {
			if ( c.during ) {
				advanceClock( 1000000000ll );
				schedPoint( "poll starts", nullptr, true );
			} else
				settle( 1 );
			hist += " [poll]";
		}
	}
	settle( 3 );
	for ( auto& e : r.evs ) {
		check( e.id == id, "event with another watch id: " + e.str() );
		m.apply( e );
	}
	std::string d = m.diff( actual() );
	check( d.empty(), "content known from the events differs:" + d + " after [" + hist + "]; reported " +
						  listEvs( r.evs ) );
	// who reads the reported files knows what is in them (below renamed directories nothing changed)
	bool moved = false;
	for ( auto& e : r.evs )
		moved = moved || ( e.action == efsw::Actions::Moved && fs::isDir( e.path() ) );
	if ( !moved )
		for ( auto& p : actual().paths )
			// (except it was moved away for a moment when the listener tried to read it)
			check( read[p] == content( p ) || read[p].empty(),
				   "a change of " + rel( p ) + " is not reported after [" + hist +
												"]; reported " + listEvs( r.evs ) );
	// every file is watched
	for ( auto& p : actual().paths )
		if ( !fs::isDir( p ) ) {
			size_t n = r.evs.size();
			check( fs::write( p ) == 0, "harness: write" );
			settle( 2 );
			int seen = 0;
			for ( size_t k = n; k < r.evs.size(); k++ ) {
				check( r.evs[k].action == efsw::Actions::Modified,
					   "a write to " + rel( p ) + " is reported wrongly: " + listEvs( r.evs, n ) );
				seen += r.evs[k].path() == p;
			}
			check( seen > 0, "a write to " + rel( p ) + " is not reported after [" + hist + "]; reported " +
								 listEvs( r.evs ) );
		}
	// every directory is watched
	Tree t = fs::tree( R( "w" ) );
	if ( !c.recursive )
		t.clear();
	t[R( "w" )] = 'd';
	for ( auto& x : t )
		if ( x.second == 'd' )
			for ( int again = 0; again < 2; again++ ) { // created, then removed again
				size_t n = r.evs.size();
				std::string f = x.first + "/probe";
				check( ( again ? fs::unlink( f ) : fs::create( f ) ) == 0, "harness: probe" );
				settle( 2 );
				int seen = 0;
				for ( size_t k = n; k < r.evs.size(); k++ )
					if ( r.evs[k].file == "probe" && !( seen && !again && r.evs[k].action == efsw::Actions::Modified ) ) {
						check( r.evs[k].action == ( again ? efsw::Actions::Delete : efsw::Actions::Add ) &&
								   r.evs[k].dir == x.first + "/" && r.evs[k].id == id && !seen++,
							   "a file created or deleted in " + rel( x.first ) + " is reported wrongly after [" +
								   hist + "]: " + listEvs( r.evs, n ) );
					}
				check( seen == 1, "a file created or deleted in " + rel( x.first ) + " is not reported after [" + hist +
									  "]; reported " + listEvs( r.evs ) );
			}
	size_t n = r.evs.size();
	settle( 2 );
	check( r.evs.size() == n, "events without any change: " + listEvs( r.evs, n ) );
	w.destroy();
	checkReleased();
}

// watches are added and removed, by a listener or by other threads, while changes are read
struct Api {
	int ops;
	bool listener; // the calls are made by the listener
	bool destroy;  // the FileWatcher is destroyed at any moment
	Universe u;
};
static void apiBody( const Api& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "w/d" ) );
	fs::create( R( "w/d/x" ) );
	fs::create( R( "w/a" ) );
	fs::mkdir( R( "v" ) );
	fs::create( R( "v/a" ) );
	fs::mkdir( R( "n" ) );
	Recorder r;
	r.muteModified = true;
	Watcher w( false );
	std::map<std::string, long> live; // directory -> id
	std::set<long> gone;
	bool done = false, dead = false;
	std::function<void()> call = [&] {
		int k = choose( 5, 0, CK::Env, "call" );
		const char* dirs[] = { "w", "v", "n" };
		if ( k < 3 ) {
			std::string d = dirs[k];
			if ( live.count( d ) ) {
				long id = live[d];
				if ( choose( 2, 0, CK::Env, "by path" ) )
					w->removeWatch( R( d ) );
				else
					w->removeWatch( id );
				Host h;
				gone.insert( id );
				live.erase( d );
				observe( "removed " + d );
			} else {
				long id = w->addWatch( R( d ), &r, true );
				Host h;
				check( id > 0, "addWatch failed" );
				for ( auto& l : live )
					check( l.second != id, "addWatch returned the id of another watch" );
				gone.erase( id );
				live[d] = id;
				observe( "added " + d );
			}
		} else if ( k == 3 ) {
			long id = w->addWatch( R( live.count( "v" ) ? "v" : "none" ), &r, true );
			check( id == ( live.count( "v" ) ? efsw::Errors::FileRepeated : efsw::Errors::FileNotFound ),
				   "addWatch returned " + std::to_string( id ) );
		} else {
			std::vector<std::string> ds = w->directories();
			Host h;
			std::set<std::string> want, got( ds.begin(), ds.end() );
			for ( auto& l : live )
				want.insert( R( l.first ) + "/" );
			check( got == want && ds.size() == got.size(), "directories() lists other directories" );
		}
	};
	r.hook = [&]( const Ev& e ) {
		check( !dead, "callback after the destruction: " + e.str() );
		check( !gone.count( e.id ), "callback after removeWatch() returned: " + e.str() );
		if ( c.listener && !done && choose( 2, 0, CK::Env, "call now" ) ) {
			done = true;
			call();
			if ( choose( 2, 0, CK::Env, "call again" ) )
				call();
		}
	};
	for ( const char* d : { "w", "v" } ) {
		live[d] = w->addWatch( R( d ), &r, true );
		check( live[d] > 0, "addWatch failed" );
	}
	w->watch();
	if ( !c.destroy || choose( 2, 0, CK::Env, "first poll done" ) )
		settle( 1 );
	for ( int i = 0; i < c.ops; i++ ) {
		FsOp o = chooseOp( c.u );
		check( perform( o ) == 0, "harness: " + o.str() );
	}
	if ( choose( 2, 0, CK::Env, "poll now" ) ) {
		advanceClock( 1000000000ll );
		schedPoint( "poll starts", nullptr, true );
	}
	if ( !c.listener )
		call();
	if ( c.destroy ) {
		w.destroy();
		dead = true;
		checkReleased();
		fs::create( R( "v/after" ) );
		settle( 2 );
		return;
	}
	settle( 2 );
	done = true;
	for ( const char* d : { "w", "v", "n" } ) {
		size_t n = r.evs.size();
		check( fs::create( R( d ) + "/probe" ) == 0, "harness: probe" );
		settle( 2 );
		int adds = 0;
		for ( size_t i = n; i < r.evs.size(); i++ ) {
			check( live.count( d ) && r.evs[i].id == live[d] && r.evs[i].dir == R( d ) + "/",
				   "unexpected event " + r.evs[i].str() );
			adds += r.evs[i].action == efsw::Actions::Add;
		}
		check( adds == ( live.count( d ) ? 1 : 0 ), std::string( "a change in " ) + d + " is reported " +
														std::to_string( adds ) + " times" );
	}
	w.destroy();
	dead = true;
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C22", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.body = [c] { body( c ); };
			s.push_back( x );
		};
		int T = thorough ? 1 : 0;
		Universe files;
		files.files = { "w/a", "w/aa", "w/b", "o/a" };
		files.write = true;
		std::vector<FsOp> many;
		for ( const char* n : { "c", "d", "e", "f", "g", "h", "i", "j", "k", "l" } )
			many.push_back( { OpK::Create, std::string( "w/" ) + n, "" } );
		std::vector<FsOp> three = { { OpK::Create, "w/a", "" }, { OpK::Create, "w/aa", "" }, { OpK::Create, "w/b", "" } };
		Universe dirs;
		dirs.files = { "w/d/x", "w/dd/x" };
		dirs.dirs = { "w/d", "w/dd", "w/d/dd", "o/d" };
		dirs.write = false;
		dirs.rmtree = true;
		Universe mix; // the same names as files and directories
		mix.files = { "w/d", "w/dd", "w/d/dd" };
		mix.dirs = { "w/d", "w/dd", "w/d/dd" };
		mix.write = false;
		mix.rmtree = true;
		std::vector<FsOp> pre = { { OpK::Mkdir, "w/d", "", true }, { OpK::Mkdir, "w/d/dd", "", true },
								  { OpK::Create, "w/d/dd/x", "" },  { OpK::Mkdir, "o/d", "", true },
								  { OpK::Create, "o/d/x", "" },	   { OpK::Create, "w/a", "" } };
		for ( bool b : { false, true } ) {
			std::string n = b ? ", several per poll" : "";
			add( "files" + n, { 3 + T, b, files, {} }, 0 );
			add( "files at first" + n, { 3 + T, b, files, three }, 0 );
			add( "many files" + n, { 3 + T, b, files, many }, 0 );
			add( "directories" + n, { 3 + T, b, dirs, pre }, 0 );
			add( "directories, empty start" + n, { 3 + T, b, dirs, {} }, 0 );
			add( "names change type" + n, { 3 + T, b, mix, {} }, 0 );
		}
		add( "files, not recursive", { 3 + T, true, files, pre, false }, 0 );
		add( "directories, not recursive", { 3 + T, true, dirs, pre, false }, 0 );
		Universe fewFiles = files, fewDirs = dirs;
		fewFiles.files = { "w/a", "w/aa", "o/a" };
		fewDirs.files = { "w/d/x" };
		fewDirs.dirs = { "w/d", "w/dd", "o/d" };
		add( "files, during a poll", { 3, true, fewFiles, pre, true, true }, 1 + T );
		add( "directories, during a poll", { 2 + T, true, fewDirs, pre, true, true }, 1 );
		add( "names change type, during a poll", { 2 + T, true, mix, {}, true, true }, 1 );
		auto addApi = [&]( std::string name, Api c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.body = [c] { apiBody( c ); };
			s.push_back( x );
		};
		Universe few;
		few.files = { "w/a", "w/d/x", "v/a" };
		few.dirs = { "w/d", "w/dd" };
		few.rmtree = true;
		addApi( "calls by the listener", { 2, true, false, few }, 0 + T );
		addApi( "calls while changes are read", { 1 + T, false, false, few }, 1 + T );
		addApi( "destroyed while changes are read", { 1 + T, false, true, few }, 1 + T );
		addApi( "destroyed after calls by the listener", { 1 + T, true, true, few }, 1 );
		return s;
	} );
}
