// C14: symbolic links are followed exactly as configured, each directory at most once, without end.
#include "oracle.hpp"
using namespace hs;
using namespace mc;

struct LinkOp { // what may be done with a symbolic link
	std::string at, target;
};
struct Cfg {
	bool generic;
	int mode; // 0: links are not followed, 1: followed inside their directory, 2: followed anywhere, 3: not followed, though allowed anywhere
	int depth;
	std::vector<LinkOp> links;
	std::vector<std::pair<std::string, std::string>> moves; // of links and directories
	std::vector<std::string> dirs, files;
	std::vector<LinkOp> pre; // there before the watch is added ("" as target: a directory)
	bool burst = false;
	bool synthetic = false;
	int maxQueued = 16384;
	bool overflow = false; // after the history, the event queue overflows once
	bool follow() const { return mode == 1 || mode == 2; }
	bool early = false; // the watch is added before the watcher runs, which is not settled
};

struct World {
	Tree t;
	std::map<uint64_t, std::string> dirOf; // inode -> real directory
	std::map<std::string, std::string> to; // link -> real directory it points to
};
static World look() {
	World v;
	v.t = snapshotTree();
	for ( auto& x : v.t ) {
		mc::Stat st;
		if ( x.second == 'd' && mc::fs::stat( x.first, st, false ) )
			v.dirOf[st.ino] = x.first;
	}
	for ( auto& x : v.t ) {
		mc::Stat st;
		if ( x.second == 'l' && mc::fs::stat( x.first, st, true ) && v.dirOf.count( st.ino ) )
			v.to[x.first] = v.dirOf[st.ino];
	}
	return v;
}
// the directories whose entries are reported
static std::set<std::string> covered( const World& v, const Cfg& c ) {
	std::set<std::string> s;
	std::vector<std::string> todo{ R( "w" ) };
	while ( !todo.empty() ) {
		std::string d = todo.back();
		todo.pop_back();
		if ( !s.insert( d ).second )
			continue;
		for ( auto& x : v.t ) {
			if ( parentDir( x.first ) != d )
				continue;
			if ( x.second == 'd' )
				todo.push_back( x.first );
			else if ( x.second == 'l' && c.follow() && v.to.count( x.first ) ) {
				const std::string& t = v.to.at( x.first );
				if ( c.mode == 2 || t == d || under( t, d ) )
					todo.push_back( t );
			}
		}
	}
	return s;
}
struct Step {
	std::string what, entry, old; // entry: what appears or disappears
	std::function<int()> go;
};
static std::vector<Step> steps( const Cfg& c ) {
	Host h;
	std::vector<Step> v;
	auto ex = []( const std::string& p ) {
		mc::Stat st;
		return mc::fs::stat( R( p ), st, false );
	};
	auto real = []( const std::string& p ) { return mc::fs::isDir( R( p ), false ); };
	for ( auto& l : c.links ) {
		if ( !real( parentDir( l.at ) ) )
			continue;
		if ( !ex( l.at ) )
			v.push_back( { "ln -s " + l.target + " " + l.at, l.at, "", [l] { return fs::symlink( R( l.target ), R( l.at ) ); } } );
		else if ( !real( l.at ) )
			v.push_back( { "rm " + l.at, l.at, "", [l] { return fs::unlink( R( l.at ) ); } } );
	}
	// nothing tells inotify that a dangling link leads somewhere again
	auto revives = [&]( const std::string& p ) {
		if ( !c.generic && c.follow() )
			for ( auto& x : snapshotTree() ) {
				mc::Stat st;
				std::string t = x.second == 'l' ? fs::readlink( x.first ) : "";
				if ( !t.empty() && !mc::fs::stat( x.first, st, true ) && ( t == R( p ) || under( t, R( p ) ) ) )
					return true;
			}
		return false;
	};
	for ( auto& m : c.moves )
		if ( !revives( m.second ) && ex( m.first ) && !ex( m.second ) && real( parentDir( m.second ) ) && real( parentDir( m.first ) ) )
			v.push_back( { "mv " + m.first + " " + m.second, m.second, m.first,
						   [m] { return fs::rename( R( m.first ), R( m.second ) ); } } );
	for ( auto& d : c.dirs ) {
		if ( !real( parentDir( d ) ) )
			continue;
		if ( !ex( d ) && revives( d ) )
			continue;
		if ( !ex( d ) )
			v.push_back( { "mkdir " + d, d, "", [d] { return fs::mkdir( R( d ) ); } } );
		else if ( real( d ) )
			v.push_back( { "rm -r " + d, d, "", [d] {
							  return mc::fs::list( R( d ) ).empty() ? fs::rmdir( R( d ) ) : fs::rmTree( R( d ) );
						  } } );
	}
	for ( auto& f : c.files ) {
		if ( !real( parentDir( f ) ) || real( f ) )
			continue;
		if ( !ex( f ) )
			v.push_back( { "create " + f, f, "", [f] { return fs::create( R( f ) ); } } );
		else
			v.push_back( { "rm " + f, f, "", [f] { return fs::unlink( R( f ) ); } } );
	}
	return v;
}

static void body( const Cfg& c ) {
	for ( const char* d : { "w", "w/d", "o", "o/s" } )
		fs::mkdir( R( d ) );
	fs::create( R( "w/a" ) );
	fs::create( R( "o/a" ) );
	for ( auto& l : c.pre )
		check( ( l.target.empty() ? fs::mkdir( R( l.at ) ) : fs::symlink( R( l.target ), R( l.at ) ) ) == 0, "harness: setup" );
	Recorder r;
	r.muteModified = c.generic;
	Watcher w( c.generic );
	if ( c.follow() ) // neither is on unless asked for
		w->followSymlinks( true );
	if ( c.mode > 1 )
		w->allowOutOfScopeLinks( true );
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	long id = w->addWatch( R( "w" ), &r, true, opt );
	check( id > 0, "addWatch failed" );
	w->watch();
	settle( 1 );
	check( r.evs.empty(), "events without any change: " + listEvs( r.evs ) );
	std::string hist;
	int round = c.generic ? 3 : 2;
	for ( int i = 0; i < c.depth; i++ ) {
		std::vector<Step> v = steps( c );
		if ( v.empty() )
			abandon();
		Step s = v[choose( (int)v.size(), 0, CK::Op, "operation" )];
		World before = look();
		size_t from = r.evs.size();
		if ( i && c.burst )
			schedPoint( "between two operations", nullptr, true );
		check( s.go() == 0, "harness: " + s.what );
		hist += ( hist.empty() ? "" : "; " ) + s.what;
		if ( c.burst )
			continue;
		settle( round );
		Host h;
		World after = look();
		std::set<std::string> a = covered( before, c ), b = covered( after, c );
		auto fails = [&]( const std::string& m ) {
			fail( m + " after [" + hist + "], links " + std::to_string( c.mode ) + "; reported " + listEvs( r.evs, from ) );
		};
		std::string e = R( s.entry ), o = s.old.empty() ? "" : R( s.old );
		bool inE = a.count( parentDir( e ) ) && b.count( parentDir( e ) ), inO = !o.empty() && a.count( parentDir( o ) ) && b.count( parentDir( o ) );
		int n[5] = {};
		for ( size_t k = from; k < r.evs.size(); k++ ) {
			const Ev& v = r.evs[k];
			std::string d = v.dir.substr( 0, v.dir.size() - 1 );
			check( v.id == id, "event with another id" );
			if ( !a.count( d ) && !b.count( d ) )
				fails( "event outside of what is watched: " + v.str() );
			if ( v.action == efsw::Actions::Modified )
				continue;
			bool changed = a.count( d ) != b.count( d ); // newly or not any more watched
			std::string p = v.path();
			bool mine = p == e || p == o;
			if ( mine )
				n[v.action]++;
			else if ( before.to.count( p ) != after.to.count( p ) || ( c.generic && ( before.t.count( p ) && before.t.at( p ) == 'l' ) ) ) {
			} // polling sees a link as what it points to
			else if ( c.generic && v.action == efsw::Actions::Add && a.count( d ) && b.count( d ) && !under( d, R( "w" ) ) && after.t.count( p ) ) {
			} // polling reaches it through another link from now on
			else if ( !changed )
				fails( "unexpected event " + v.str() );
		}
		auto want = [&]( int add, int del, int mov ) {
			if ( n[1] != add || n[2] != del || n[4] != mov )
				fails( "the change itself is not reported as it should" );
		};
		bool there = after.t.count( e );
		auto known = [&]( const World& w, const std::string& p ) { // polling knows only what links resolve to
			mc::Stat st;
			return !c.generic || w.t.at( p ) != 'l' || w.to.count( p ) || mc::fs::stat( p, st, true );
		};
		if ( o.empty() ) {
			bool k = known( there ? after : before, e );
			if ( inE && k )
				want( there, !there, 0 );
		} else if ( known( after, e ) ) {
			if ( inE && inO && parentDir( e ) == parentDir( o ) )
				want( 0, 0, 1 );
			else if ( inE && inO )
				want( 1, 1, 0 );
			else if ( inE && !a.count( parentDir( o ) ) )
				want( 1, b.count( parentDir( o ) ) ? n[2] : 0, 0 );
			else if ( inO && !b.count( parentDir( e ) ) )
				want( a.count( parentDir( e ) ) ? n[1] : 0, 1, 0 );
			// what came with a directory, links included
			if ( ( c.generic || c.synthetic ) && after.t.at( e ) == 'd' && inE && !a.count( parentDir( o ) ) )
				for ( auto& x : after.t ) {
					if ( !under( x.first, e ) || !b.count( parentDir( x.first ) ) || !known( after, x.first ) )
						continue;
					int adds = 0;
					for ( size_t k = from; k < r.evs.size(); k++ )
						adds += r.evs[k].action == efsw::Actions::Add && r.evs[k].path() == x.first;
					if ( adds != 1 )
						fails( rel( x.first ) + " came with its directory and is reported " + std::to_string( adds ) + " times" );
				}
		}
	}
	settle( round );
	if ( c.overflow ) {
		K.maxQueued = 4;
		for ( int i = 0; i < 6; i++ )
			fs::create( R( "w/o" ) + std::to_string( i ) );
		settle( 2 );
		K.maxQueued = 16384;
		hist += "; overflow";
	}
	// who reports now?
	World v;
	std::set<std::string> cov;
	{
		Host h;
		v = look();
		cov = covered( v, c );
	}
	for ( auto& x : v.t ) {
		if ( x.second != 'd' )
			continue;
		for ( int k = 0; k < 2; k++ ) {
			size_t from = r.evs.size();
			std::string f = x.first + "/probe";
			check( ( k ? fs::unlink( f ) : fs::create( f ) ) == 0, "harness: probe" );
			settle( round );
			Host h;
			int n = 0;
			for ( size_t i = from; i < r.evs.size(); i++ ) {
				const Ev& e = r.evs[i];
				std::string d = e.dir.substr( 0, e.dir.size() - 1 );
				if ( !cov.count( d ) )
					fail( "event outside of what is watched after [" + hist + "], links " + std::to_string( c.mode ) + ", " +
						  ( k ? "rm " : "create " ) + rel( f ) + ": " + listEvs( r.evs, from ) );
				if ( e.action == efsw::Actions::Modified && ( e.path() == f || c.generic ) )
					continue;
				if ( e.path() == f && e.action == ( k ? efsw::Actions::Delete : efsw::Actions::Add ) )
					n++;
				else
					fail( "unexpected event after [" + hist + "], links " + std::to_string( c.mode ) + ", " + ( k ? "rm " : "create " ) +
						  rel( f ) + ": " + listEvs( r.evs, from ) );
			}
			if ( n != (int)cov.count( x.first ) )
				fail( "reported " + std::to_string( n ) + " times after [" + hist + "], links " + std::to_string( c.mode ) + ", " +
					  ( k ? "rm " : "create " ) + rel( f ) + ": " + listEvs( r.evs, from ) );
		}
	}
	if ( !c.generic ) {
		Host h;
		check( K.real || inotifyWatchCount() == (int)cov.size(), "the kernel watches " + std::to_string( inotifyWatchCount() ) + " directories instead of " +
														 std::to_string( cov.size() ) + " after [" + hist + "]" );
	}
	w.destroy();
	checkReleased();
}

// a link is what addWatch() is given
static void given( bool generic, int mode ) {
	for ( const char* d : { "w", "w/d", "v", "u", "u/s", "u2" } )
		fs::mkdir( R( d ) );
	struct {
		const char *link, *target;
		bool inScope;
	} links[] = { { "l", "v", true }, { "w/k", "w/d", true }, { "u/out", "v", false }, { "u/up", "w/d", false }, { "u/k", "u/s", true }, { "u/n", "u2", false } };
	for ( auto& l : links )
		fs::symlink( R( l.target ), R( l.link ) );
	Recorder r;
	r.muteModified = true;
	Watcher w( generic );
	w->followSymlinks( mode == 1 || mode == 2 );
	w->allowOutOfScopeLinks( mode == 2 || mode == 3 );
	w->watch();
	std::string hist;
	std::map<std::string, long> ids;
	for ( int i = 0; i < 2; i++ ) {
		auto& l = links[choose( 6, 0, CK::Op, "link" )];
		bool slash = choose( 2, 0, CK::Op, "slash" ), rec = choose( 2, 0, CK::Op, "recursive" );
		hist += std::string( i ? "; " : "" ) + "addWatch " + l.link + ( slash ? "/" : "" );
		long id = w->addWatch( R( l.link ) + ( slash ? "/" : "" ), &r, rec );
		if ( ids.count( l.target ) )
			check( id == efsw::Errors::FileRepeated, "a watched directory is added again [" + hist + "]: " + std::to_string( id ) );
		else if ( l.inScope || mode == 2 ) {
			check( id > 0, "the link is refused [" + hist + "]: " + std::to_string( id ) );
			ids[l.target] = id;
		} else
			check( id == efsw::Errors::FileOutOfScope, "the link is not refused [" + hist + "]: " + std::to_string( id ) );
	}
	settle( 2 );
	for ( const char* d : { "v", "w/d", "u/s", "w", "u", "u2" } ) {
		size_t from = r.evs.size();
		fs::create( R( d ) + "/probe" );
		settle( 2 );
		int n = 0;
		for ( size_t k = from; k < r.evs.size(); k++ )
			if ( r.evs[k].action == efsw::Actions::Add ) {
				n++;
				check( ids.count( d ) && r.evs[k].id == ids[d] && r.evs[k].path() == R( d ) + "/probe", "wrong event: " + r.evs[k].str() + " after [" + hist + "]" );
			}
		check( n == (int)ids.count( d ), "create " + std::string( d ) + "/probe reported " + std::to_string( n ) + " times after [" + hist + "]" );
	}
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C14", []( bool th ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = ( c.generic ? "generic, " : c.synthetic ? "inotify, synthetic, " : "inotify, " ) +
					 std::string( c.mode == 0 ? "not followed: " : c.mode == 1 ? "followed: " : c.mode == 2 ? "followed anywhere: " : "allowed anywhere but not followed: " ) + name;
			x.bound = bound;
			x.realConformance = !bound && !c.burst && !c.overflow && !c.generic;
			x.body = [c] { body( c ); };
			x.config = [c] { K.maxQueued = c.maxQueued; };
			s.push_back( x );
		};
		int T = th ? 1 : 0;
		for ( bool g : { false, true } )
			for ( int m = 0; m < 4; m++ ) {
				Cfg c{ g, m, 4 + T, {}, {}, {}, {}, {} };
				c.links = { { "w/l", "o" }, { "w/k", "w/d" }, { "w/f", "o/a" }, { "w/x", "missing" }, { "w/d/m", "o" } };
				c.moves = { { "w/l", "w/l2" }, { "w/l", "w/d/l3" }, { "w/l", "z" }, { "z", "w/l" } };
				if ( m == 3 && !th ) // as if they weren't followed
					c.depth = 3;
				add( "links", c, 0 );
				s.push_back( s.back() );
				s.back().name += " given to addWatch()";
				s.back().body = [g, m] { given( g, m ); };
				Cfg e = c;
				e.links = { { "w/d/up", "w" }, { "w/d/self", "w/d" }, { "o/back", "w" }, { "w/l", "o" }, { "o/self", "o" } };
				e.moves = {};
				add( "loops", e, 0 );
				Cfg n = c;
				n.links = { { "o/n/self", "o/n" }, { "w/n/self", "w/n" }, { "o/n/l", "o/s" }, { "w/l", "o" } };
				n.dirs = { "o/n", "w/n", "w/nn" };
				n.moves = { { "o/n", "w/n" }, { "w/n", "w/nn" }, { "w/n", "o/n" } };
				add( "directories with links", n, 0 );
				n.moves.push_back( { "z", "w/z" } ); // moved in from outside
				n.pre = { { "z", "" }, { "z/s", "" }, { "z/s/t", "" }, { "z/l", "o" }, { "z/s/m", "z/s/t" }, { "z/f", "o/a" }, { "z/s/f", "o/a" }, { "z/x", "w/d" } };
				n.links = { { "w/z/s/n", "w" } };
				n.dirs = {};
				n.depth = 3 + T;
				n.moves.push_back( { "w/z", "w/d/z" } );
				n.moves.push_back( { "w/d/z", "z" } );
				n.moves.push_back( { "w/z/s", "z" } );
				add( "directory with links moves in", n, 0 );
				n.synthetic = true;
				if ( !g )
					add( "directory with links moves in", n, 0 );
				Cfg w = c; // a directory whose name begins like the one of another one
				w.pre = { { "w2", "" }, { "w/d2", "" }, { "w2/s", "" } };
				w.links = { { "w/l", "w2" }, { "w/d/m", "w/d2" }, { "w/k", "w2/s" }, { "w/d2/m", "w/d" } };
				w.moves = {};
				w.depth = 3 + T;
				add( "names that begin alike", w, 0 );
				Cfg p = c;
				p.pre = { { "w/b", "o" }, { "w/c", "w/d" }, { "w/d/self", "w/d" }, { "w/d/up", "w" }, { "o/back", "w" }, { "o/s/m", "o" } };
				p.links = { { "w/b", "o" }, { "w/c", "w/d" }, { "w/d/up", "w" }, { "w/z", "o/s" } };
				p.moves = { { "w/b", "w/bb" }, { "w/d", "w/dd" } };
				p.moves.pop_back();
				p.files = { "o/a", "o/s/x" };
				p.depth = 3 + T;
				add( "links from the start", p, 0 );
				if ( m == 3 && !th )
					continue;
				Cfg d = p;
				d.links = { { "w/b", "o" }, { "w/n/b", "o" } };
				d.pre = { { "w/n", "" }, { "w/n/b", "o" } };
				d.dirs = { "w/n" };
				d.moves = { { "w/n", "w/nn" }, { "w/nn", "w/n" }, { "w/n", "o/nn" }, { "w/n/b", "w/b" } };
				d.files = {};
				d.depth = 4 + T;
				add( "directory with a link moves", d, 0 );
				Cfg b = c;
				b.links = { { "w/n", "o" }, { "w/n", "o/s" }, { "w/l", "o" }, { "w/n/l", "o" } };
				b.dirs = { "w/n" };
				b.moves = { { "w/l", "w/n" }, { "w/n", "w/nn" }, { "w/nn", "w/n" }, { "w/l", "o/l" } };
				b.files = { "w/n", "o/s/x" };
				b.burst = true;
				b.depth = 4 + T;
				add( "burst", b, 0 );
				b.depth = 3 + T;
				add( "burst, preempted", b, 1 );
				Cfg q = c;
				q.links = { { "w/d", "o" }, { "w/d", "o/s" }, { "w/d/l", "o" } };
				q.dirs = { "w/d", "w/d/x" };
				q.moves = { { "w/d", "w/dd" }, { "w/dd", "w/d" }, { "w/d", "o/dd" } };
				q.files = { "w/d/f" };
				q.burst = true;
				q.depth = 4 + T;
				add( "watched directory replaced", q, 0 );
				q.depth = 3 + T;
				add( "watched directory replaced, preempted", q, 1 );
				if ( !g ) {
					Cfg o = d;
					o.overflow = true;
					o.depth = 2 + T;
					add( "overflow", o, 0 );
				}
			}
		inLargeSystem( s, { "inotify, followed: links", "inotify, followed: loops", "generic, followed: links", "generic, followed: loops" } );
		return s;
	} );
}
