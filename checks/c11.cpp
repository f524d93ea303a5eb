// C11: addWatch, removeWatch, directories() and the error log keep their contract (both backends).
#include "scale.hpp"
using namespace hs;
using namespace mc;

// Every sequence of API calls is compared with a reference model: a map id -> directory and the last error.
struct Arg {
	const char* path; // argument, relative to the scratch root
	const char* dir;  // the directory meant ("" = an error)
	int err;		  // the error expected if dir is empty
	const char* target = ""; // then: a link to a directory that gives FileRepeated if it's watched
};
struct Cfg {
	bool generic, started;
	int depth;
	std::vector<Arg> add;
	std::vector<const char*> removePaths;
	bool errorCalls, fsOps;
	bool follow = false, outOfScope = false;
	std::vector<int> recursive;
	bool unreadable = false;
	bool twice = false; // watch() called again at any time
};
struct M {
	long id;
	std::string dir;
	bool recursive;
};

static void body( const Cfg& c ) {
	for ( const char* d : { "w", "w/d", "w/d/dd", "v", "u" } )
		fs::mkdir( R( d ) );
	fs::create( R( "f" ) );
	fs::create( R( "w/a" ) );
	fs::symlink( R( "v" ), R( "l" ) );
	fs::symlink( R( "v" ), R( "u/out" ) );
	fs::symlink( R( "nowhere" ), R( "dangling" ) );
	if ( c.unreadable ) {
		fs::mkdir( R( "nr" ) );
		fs::chown( R( "nr" ), 1000 );
		fs::chmod( R( "nr" ), 0 );
	}
	Recorder r;
	r.mute = true;
	Watcher w( c.generic );
	w->followSymlinks( c.follow );
	w->allowOutOfScopeLinks( c.outOfScope );
	std::vector<M> live;
	std::set<long> used;
	std::vector<long> gone;
	int code = 0;
	std::string hist, errPath;
	bool started = false, overlapped = false;
	auto log = [&]( const std::string& s ) {
		Host h;
		hist += s + "; ";
	};
	auto find = [&]( const std::string& d ) {
		for ( size_t i = 0; i < live.size(); i++ )
			if ( live[i].dir == d )
				return (int)i;
		return -1;
	};
	efsw::Errors::Log::clearLastError();
	auto compare = [&]() {
		std::vector<std::string> got = w->directories(), want;
		Host h;
		for ( auto& m : live )
			want.push_back( m.dir );
		std::sort( got.begin(), got.end() );
		std::sort( want.begin(), want.end() );
		if ( got != want ) {
			std::string s;
			for ( auto& x : got )
				s += " " + rel( x );
			fail( "directories() lists" + s + " after " + hist );
		}
		int gotCode = efsw::Errors::Log::getLastErrorCode();
		check( gotCode == code, "getLastErrorCode() is " + std::to_string( gotCode ) + " instead of " +
									std::to_string( code ) + " after " + hist );
		std::string text = efsw::Errors::Log::getLastErrorLog();
		if ( code == 0 )
			check( text.empty(), "getLastErrorLog() is \"" + text + "\" without an error after " + hist );
		else
			check( !text.empty() && ( errPath.empty() || text.find( errPath ) != std::string::npos ),
				   "getLastErrorLog() \"" + rel( text ) + "\" doesn't name " + rel( errPath ) + " after " + hist );
	};
	for ( int step = 0; step < c.depth; step++ ) {
		// the calls that are possible now
		struct Op {
			int k;
			int a, b;
		};
		std::vector<Op> ops;
		{
			Host h;
			for ( size_t i = 0; i < c.add.size(); i++ )
				for ( int rec : c.recursive )
					ops.push_back( { 0, (int)i, rec } );
			for ( size_t i = 0; i < live.size(); i++ )
				ops.push_back( { 1, (int)i, 0 } );
			if ( !gone.empty() )
				ops.push_back( { 2, 0, 0 } ); // an id no longer valid
			for ( size_t i = 0; i < c.removePaths.size(); i++ )
				ops.push_back( { 3, (int)i, 0 } );
			if ( c.errorCalls ) {
				ops.push_back( { 4, 0, 0 } );
				ops.push_back( { 2, 1, 0 } ); // never an id
			}
			if ( c.twice )
				ops.push_back( { 5, 0, 0 } );
		}
		int n = choose( (int)ops.size() + 1, 0, CK::Op, "API call" );
		if ( !n )
			break;
		Op o = ops[n - 1];
		switch ( o.k ) {
			case 0: {
				const Arg& a = c.add[o.a];
				std::string path = *a.path ? R( a.path ) : "";
				log( std::string( "addWatch(" ) + a.path + ( o.b ? ",recursive)" : ")" ) );
				long id = w->addWatch( path, &r, o.b != 0 );
				std::string dir = *a.dir ? R( a.dir ) + "/" : "";
				int want = 0;
				{
					Host h;
					if ( dir.empty() )
						want = *a.target && find( R( a.target ) + "/" ) >= 0 ? (int)efsw::Errors::FileRepeated : a.err;
					else if ( find( dir ) >= 0 )
						want = efsw::Errors::FileRepeated;
					else if ( c.generic )
						for ( auto& m : live )
							if ( m.recursive && under( dir, m.dir.substr( 0, m.dir.size() - 1 ) ) )
								want = efsw::Errors::FileRepeated;
				}
				if ( want ) {
					check( id == want, "addWatch() returned " + std::to_string( id ) + " instead of the error " +
										   std::to_string( want ) + " after " + hist );
					code = want;
					Host h;
					errPath = path;
				} else {
					// sub directories that can't be watched leave their errors
					if ( o.b ) {
						code = efsw::Errors::Log::getLastErrorCode();
						Host h;
						errPath.clear();
					}
					Host h;
					check( id > 0, "addWatch() failed with " + std::to_string( id ) + " after " + hist );
					for ( auto& m : live )
						check( m.id != id, "addWatch() returned the id of another watch after " + hist );
					live.push_back( { id, dir, o.b != 0 } );
					for ( auto& m : live )
						overlapped |= m.dir != dir && ( under( dir, m.dir.substr( 0, m.dir.size() - 1 ) ) ||
														under( m.dir, dir.substr( 0, dir.size() - 1 ) ) );
					for ( size_t i = 0; i < gone.size(); i++ )
						if ( gone[i] == id )
							gone.erase( gone.begin() + i-- );
				}
				break;
			}
			case 1: {
				log( "removeWatch(id of " + rel( live[o.a].dir ) + ")" );
				w->removeWatch( live[o.a].id );
				Host h;
				gone.push_back( live[o.a].id );
				live.erase( live.begin() + o.a );
				break;
			}
			case 2: {
				long id = o.a ? 100000 : gone.back();
				log( o.a ? "removeWatch(100000)" : "removeWatch(removed id)" );
				w->removeWatch( id );
				break;
			}
			case 3: {
				log( std::string( "removeWatch(\"" ) + c.removePaths[o.a] + "\")" );
				w->removeWatch( R( c.removePaths[o.a] ) );
				Host h;
				std::string d = R( c.removePaths[o.a] );
				if ( d.back() != '/' )
					d += '/';
				int i = find( d );
				if ( i >= 0 ) {
					gone.push_back( live[i].id );
					live.erase( live.begin() + i );
				}
				break;
			}
			case 4:
				log( "clearLastError()" );
				efsw::Errors::Log::clearLastError();
				code = 0;
				break;
			case 5:
				log( "watch()" );
				w->watch();
				started = true;
				break;
		}
		compare();
	}
	// every watch of the model reports what happens in its directory, and only those do
	if ( c.started && !started )
		w->watch();
	if ( c.started ) {
		settle( c.generic ? 3 : 2 );
		r.evs.clear();
		for ( const char* d : { "w", "w/d", "w/d/dd", "v", "u" } ) {
			std::string p = R( d ) + "/";
			fs::create( p + "probe" );
			settle( c.generic ? 3 : 2 );
			fs::unlink( p + "probe" );
			settle( c.generic ? 3 : 2 );
			Host h;
			std::map<long, std::string> got;
			for ( auto& e : r.evs )
				if ( e.file == "probe" && e.action != efsw::Actions::Modified ) {
					check( e.dir == p, "event of another directory: " + e.str() + " after " + hist );
					got[e.id] += e.action == efsw::Actions::Add ? "A" : e.action == efsw::Actions::Delete ? "D" : "?";
				}
			std::set<long> ids;
			const M* own = nullptr;
			std::vector<const M*> cover;
			for ( auto& m : live ) {
				ids.insert( m.id );
				if ( m.dir == p )
					own = &m;
				else if ( m.recursive && under( p, m.dir.substr( 0, m.dir.size() - 1 ) ) )
					cover.push_back( &m );
			}
			for ( auto& g : got )
				check( ids.count( g.first ), "events with the id " + std::to_string( g.first ) +
												 ", no watch has it, after " + hist );
			auto ok = [&]( const M* m ) {
				check( got.count( m->id ) && got[m->id] == "AD",
					   "the watch of " + rel( m->dir ) + " reported \"" + got[m->id] + "\" for a file created and deleted in " +
						   rel( p ) + " after " + hist );
			};
			if ( own )
				ok( own );
			// overlapping watches are the subject of C18
			if ( cover.size() == 1 && !overlapped )
				ok( cover[0] );
			if ( !own && cover.empty() )
				check( got.empty(), "events from " + rel( p ) + ", which is not watched, after " + hist );
			r.evs.clear();
		}
	}
	observe( hist );
	w.destroy();
	checkReleased();
}

// the same directories with other paths: "." and ".." in it, more slashes, relative
static void spelled( bool generic, bool root, bool th ) {
	struct {
		std::string path;
		const char* dir;
	} arg[] = { { R( "w" ), "w" }, { R( "./w" ), "w" }, { R( "w//" ), "w" }, { R( "v/../w/" ), "w" }, { "w", "w" }, { R( "w/../v" ), "v" }, { R( "v" ), "v" }, { "/", "/" } };
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "v" ) );
	fs::mkdir( R( "w/d" ) );
	check( fs::setCwd( R() ) == 0, "harness: chdir" );
	Recorder r;
	r.mute = true;
	Watcher w( generic );
	w->watch();
	struct L {
		long id;
		std::string dir, shown;
		bool rec;
	};
	std::vector<L> live;
	std::string hist;
	bool overlapped = false; // watches inside one another are the subject of C18
	int n = root ? 8 : 7;
	for ( int i = 0; i < ( th ? 4 : 3 ); i++ ) {
		int k = choose( n + (int)live.size(), 0, CK::Op, "API call" );
		if ( k >= n ) { // removed again, by id or path
			L l = live[k - n];
			if ( choose( 2, 0, CK::Op, "by path" ) )
				w->removeWatch( l.shown );
			else
				w->removeWatch( l.id );
			hist += "removeWatch of " + rel( l.shown ) + "; ";
			live.erase( live.begin() + k - n );
		} else {
			auto& a = arg[k];
			bool rec = choose( 2, 0, CK::Op, "recursive" );
			efsw::Errors::Log::clearLastError();
			long id = w->addWatch( a.path, &r, rec );
			hist += "addWatch(" + rel( a.path ) + ( rec ? ",recursive); " : "); " );
			std::string shown = a.path;
			if ( shown.back() != '/' )
				shown += '/';
			bool same = false, watched = false;
			for ( auto& l : live ) {
				same |= l.shown == shown;
				watched |= l.dir == a.dir || ( generic && l.dir == "/" && l.rec );
			}
			// polling knows a directory only by its path, it may tell that it's the same
			if ( same || ( watched && ( !generic || id == efsw::Errors::FileRepeated ) ) ) {
				check( id == efsw::Errors::FileRepeated && efsw::Errors::Log::getLastErrorCode() == id, "a watched directory is added again: " + std::to_string( id ) + " after " + hist );
			} else {
				check( id > 0, "addWatch() failed with " + std::to_string( id ) + " after " + hist );
				for ( auto& l : live )
					check( l.id != id, "addWatch() returned the id of another watch after " + hist );
				live.push_back( { id, a.dir, shown, rec } );
			}
			for ( auto& l : live )
				overlapped |= l.dir == "/" && l.rec && live.size() > 1;
		}
		std::vector<std::string> got = w->directories(), want;
		for ( auto& l : live )
			want.push_back( l.shown );
		std::sort( got.begin(), got.end() );
		std::sort( want.begin(), want.end() );
		check( got == want, "directories() lists something else after " + hist );
	}
	settle( 2 );
	r.evs.clear();
	for ( std::string d : { "w", "v", "w/d", "/" } ) {
		if ( d == "/" && !root )
			continue;
		std::string probe = d == "/" ? "/probe" : R( d ) + "/probe";
		fs::create( probe );
		settle( 2 );
		fs::unlink( probe );
		settle( 2 );
		Host h;
		std::map<long, std::string> got;
		for ( auto& e : r.evs )
			if ( e.file == "probe" && e.action != efsw::Actions::Modified ) {
				const L* l = nullptr;
				for ( auto& x : live )
					if ( x.id == e.id )
						l = &x;
				check( l, "event of no watch: " + e.str() + " after " + hist );
				std::string base = l->shown, sub = l->dir == "/" ? ( d == "/" ? "" : R( d ).substr( 1 ) + "/" ) : d == l->dir ? "" : "d/";
				while ( base.size() > 1 && base[base.size() - 2] == '/' )
					base.pop_back();
				std::string dir = e.dir;
				for ( size_t p; ( p = dir.find( "//" ) ) != std::string::npos; )
					dir.erase( p, 1 );
				check( dir == base + sub, "event with another path: " + e.str() + " after " + hist );
				got[e.id] += e.action == efsw::Actions::Add ? "A" : e.action == efsw::Actions::Delete ? "D" : "?";
			}
		for ( auto& l : live ) {
			bool in = l.dir == d || ( l.rec && ( l.dir == "/" || ( l.dir == "w" && d == "w/d" ) ) );
			std::string g = got.count( l.id ) ? got[l.id] : "";
			if ( overlapped )
				check( g == "" || g == "AD", "the watch of " + rel( l.shown ) + " reports " + g + " after " + hist );
			else
				check( g == ( in ? "AD" : "" ), "the watch of " + rel( l.shown ) + " reported \"" + g + "\" for a file created and deleted in " + d + " after " + hist );
		}
		r.evs.clear();
	}
	observe( hist );
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C11", []( bool th ) {
		std::vector<Scenario> v;
		auto add = [&]( const std::string& name, Cfg c, int bound, unsigned uid = 0 ) {
			Scenario s;
			s.name = name;
			s.bound = bound;
			s.body = [c]() { body( c ); };
			s.config = [uid]() { K.uid = uid; };
			s.realConformance = uid == 0;
			v.push_back( s );
		};
		int nf = efsw::Errors::FileNotFound, rep = efsw::Errors::FileRepeated, oos = efsw::Errors::FileOutOfScope,
			nr = efsw::Errors::FileNotReadable;
		(void)rep;
		for ( int g = 0; g < 2; g++ ) {
			std::string b = g ? "generic " : "inotify ";
			Cfg c;
			c.generic = g;
			c.started = true;
			c.depth = th ? 5 : 4;
			c.add = { { "w", "w", 0 }, { "v/", "v", 0 }, { "w/d", "w/d", 0 }, { "missing", "", nf }, { "f", "", nf } };
			c.removePaths = { "w", "w/d/", "v", "missing" };
			c.errorCalls = false;
			c.fsOps = false;
			c.recursive = { 1 };
			add( b + "add and remove", c, 0 );
			c.add = { { "w/", "w", 0 }, { "v", "v", 0 }, { "w/d/dd", "w/d/dd", 0 }, { "w/a", "", nf } };
			c.removePaths = { "w/d", "w/d/dd", "v/" };
			c.recursive = { 0, 1 };
			c.depth = th ? 5 : 3;
			add( b + "recursive or not", c, 0 );
			c.add = { { "l", "v", 0 }, { "l/", "v", 0 }, { "v", "v", 0 }, { "u/out", "", oos, "v" }, { "dangling", "", nf }, { "", "", nf } };
			c.removePaths = { "v", "u" };
			c.recursive = { 1 };
			c.errorCalls = true;
			c.depth = th ? 5 : 4;
			add( b + "links and errors", c, 0 );
			c.add = { { "l", "v", 0 }, { "u/out", "v", 0 }, { "v", "v", 0 }, { "missing", "", nf } };
			c.follow = c.outOfScope = true;
			c.errorCalls = false;
			add( b + "out of scope links allowed", c, 0 );
			c.add = { { "l", "v", 0 }, { "u/out", "", oos, "v" }, { "v", "v", 0 }, { "missing", "", nf } };
			c.outOfScope = false;
			add( b + "links followed", c, 0 );
			c.follow = false, c.outOfScope = true;
			add( b + "out of scope links allowed, not followed", c, 0 );
			c.follow = c.outOfScope = false;
			c.add = { { "w", "w", 0 }, { "v", "v", 0 }, { "w", "w", 0 } };
			c.removePaths = { "w" };
			c.twice = true;
			c.depth = 4;
			add( b + "watch() at any time", c, th ? 1 : 0 );
			c.twice = false;
			c.depth = 3;
			c.add = { { "nr", "", nr }, { "nr/", "", nr }, { "w", "w", 0 } };
			c.removePaths = { "nr" };
			c.unreadable = true;
			c.started = false;
			c.errorCalls = true;
			add( b + "unreadable", c, 0, 1000 );
		}
		for ( bool g : { false, true } )
			for ( bool root : { false, true } ) {
				Scenario s;
				s.name = std::string( g ? "generic " : "inotify " ) + ( root ? "the root directory, " : "" ) + "the same directory with other paths";
				s.body = [=] { spelled( g, root, th ); };
				v.push_back( s );
			}
		for ( bool g : { false, true } )
			addMany( v, g );
		inLargeSystem( v, { "inotify links followed", "inotify add and remove", "generic add and remove" } );
		return v;
	} );
}
