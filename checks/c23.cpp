// C23: what happens to the directory a watch was added for.
#include "oracle.hpp"
#include <sys/stat.h>
using namespace hs;
using namespace mc;

struct Cfg {
	int depth;
	bool generic, recursive, burst, reuse;
	Universe u;
	std::vector<FsOp> pre;
	bool api = true;
	std::string link = ""; // the name may also become a link to this directory
	std::string root = "p/w"; // what is watched
};
static Mirror content( const Cfg& c ) {
	Mirror m;
	std::string w = R( c.root ), l = fs::readlink( w );
	if ( l.empty() )
		l = w;
	if ( fs::isDir( l ) )
		for ( auto& p : fs::tree( l ) )
			if ( c.recursive || p.first.find( '/', l.size() + 1 ) == std::string::npos )
				m.paths.insert( w + p.first.substr( l.size() ) );
	return m;
}
static uint64_t inode( const std::string& p ) {
	Stat s;
	return fs::stat( p, s ) && S_ISDIR( s.mode ) ? s.ino : 0;
}
static bool somewhere( uint64_t ino ) {
	for ( auto& x : fs::tree( R() ) )
		if ( x.second == 'd' && inode( x.first ) == ino )
			return true;
	return false;
}
static FsOp next( const Cfg& c ) {
	std::vector<FsOp> v = applicable( c.u );
	if ( !c.link.empty() ) {
		if ( !fs::readlink( R( c.root ) ).empty() )
			v.push_back( { OpK::Unlink, c.root, "" } );
		else if ( !fs::exists( R( c.root ) ) && fs::isDir( R( parentDir( c.root ) ) ) && fs::isDir( R( c.link ) ) )
			v.push_back( { OpK::Symlink, c.root, R( c.link ) } );
	}
	if ( v.empty() )
		abandon();
	return v[choose( (int)v.size(), 0, CK::Op, "operation" )];
}
static void body( const Cfg& c ) {
	for ( const char* d : { "p", "p/w", "v" } )
		fs::mkdir( R( d ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r, other;
	r.muteModified = other.muteModified = true;
	Watcher w( c.generic );
	std::string root = R( c.root );
	Mirror m = content( c );
	std::vector<efsw::WatcherOption> opt;
	opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	long id = w->addWatch( root, &r, c.recursive, opt ), vid = w->addWatch( R( "v" ), &other, true );
	check( id > 0 && vid > 0, "addWatch failed" );
	w->watch();
	settle( 2 );
	bool live = true;	   // added and not removed
	bool away = false;	   // another directory than the one that was added has its name, or none
	uint64_t ino = inode( root );
	size_t seen = 0;
	std::string hist;
	auto verify = [&] {
		std::string ctx = " after [" + hist + "]";
		for ( ; seen < r.evs.size(); seen++ ) {
			const Ev& e = r.evs[seen];
			check( live && e.id == id, ( live ? "event with another watch id: " : "event of a removed watch: " ) + e.str() + ctx );
			check( e.dir == root + "/" || ( c.recursive && under( e.dir, root ) ), "event below another directory: " + e.str() + ctx );
			m.apply( e );
		}
		check( other.evs.empty(), "event of another watch: " + listEvs( other.evs ) + ctx );
		if ( live && ( c.generic || !away || !inode( root ) ) ) {
			bool gone = !c.generic && away;
			// the directory moved away as a whole: it is as if nothing had happened in it
			bool moved = gone && somewhere( ino );
			std::string d = m.diff( content( c ) );
			check( moved || ( gone && c.burst ) || d.empty(), "content known from the events differs:" + d + ctx + "; reported " + listEvs( r.evs ) );
		}
		std::vector<std::string> dirs = w->directories();
		check( std::count( dirs.begin(), dirs.end(), root + "/" ) == ( live ? 1 : 0 ) && dirs.size() == ( live ? 2u : 1u ), "directories() is wrong" + ctx );
		if ( !live && !c.generic )
			for ( auto& p : inotifyWatchedPaths() )
				check( p == R( "v" ), rel( p ) + " is still watched" + ctx );
	};
	for ( int i = 0; i < c.depth; i++ ) {
		int k = c.api ? choose( live ? 3 : 2, 0, CK::Op, "operation on the directory or call" ) : 0;
		if ( k == 0 ) {
			FsOp o = next( c );
			check( perform( o ) == 0, "harness: " + o.str() );
			hist += ( i ? "; " : "" ) + o.str();
			if ( inode( root ) != ino || ( o.k == OpK::Rename && ( o.a == c.root || under( c.root, o.a ) ) ) ||
				 ( away && inode( root ) == ino ) )
				away = true;
		} else if ( live ) {
			hist += std::string( i ? "; " : "" ) + ( k == 1 ? "removeWatch(id)" : "removeWatch(path)" );
			if ( k == 1 )
				w->removeWatch( id );
			else
				w->removeWatch( root );
			live = false;
			seen = r.evs.size(); // what was reported before that
		} else {
			hist += std::string( i ? "; " : "" ) + "addWatch";
			Mirror now = content( c );
			bool can = inode( root );
			if ( can && !fs::isDir( root ) ) // a link: C14
				abandon();
			long n = w->addWatch( root, &r, c.recursive, opt );
			check( ( n > 0 ) == can, "addWatch returned " + std::to_string( n ) + " after [" + hist + "]" );
			if ( can ) {
				live = true;
				away = false;
				id = n;
				ino = inode( root );
				m = now;
			}
		}
		if ( !c.burst ) {
			settle( 2 );
			verify();
		}
	}
	settle( 3 );
	verify();
	auto probe = [&]( const std::string& dir, Recorder& rec, long wid ) {
		size_t n = rec.evs.size();
		check( fs::create( dir + "/probe" ) == 0, "harness: probe" );
		settle( 2 );
		int adds = 0;
		for ( size_t k = n; k < rec.evs.size(); k++ )
			adds += rec.evs[k].action == efsw::Actions::Add && rec.evs[k].path() == dir + "/probe" && rec.evs[k].id == wid;
		check( adds == 1, "a file created in " + rel( dir ) + " is reported " + std::to_string( adds ) + " times after [" + hist + "]; reported " +
							  listEvs( rec.evs ) );
		fs::unlink( dir + "/probe" );
		settle( 2 );
	};
	probe( R( "v" ), other, vid );
	if ( live && inode( root ) && ( c.generic || !away ) ) {
		probe( root, r, id );
		if ( c.recursive )
			for ( auto& x : content( c ).paths )
				if ( inode( x ) )
					probe( x, r, id );
	}
	if ( choose( 2, 0, CK::Env, "destroy" ) ) {
		seen = r.evs.size();
		w.destroy();
		check( seen == r.evs.size() && !other.evs.empty(), "event while the watcher is destroyed after [" + hist + "]: " + listEvs( r.evs, seen ) );
		checkReleased();
		return;
	}
	// whatever happened, it can be removed, and the path can be watched again
	if ( live )
		w->removeWatch( id );
	seen = r.evs.size();
	settle( 1 );
	check( seen == r.evs.size(), "event of a removed watch" );
	if ( !fs::isDir( root ) ) {
		fs::rmTree( root );
		fs::mkdir( R( "p" ) );
		check( fs::mkdir( root ) == 0, "harness: mkdir" );
	}
	id = w->addWatch( root, &r, c.recursive, opt );
	check( id > 0, "the path cannot be watched again after [" + hist + "]: " + std::to_string( id ) );
	settle( 1 );
	probe( root, r, id );
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C23", []( bool thorough ) {
		std::vector<Scenario> s;
		int T = thorough ? 1 : 0;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name + ( c.generic ? ", polling" : "" ) + ( c.recursive ? "" : ", flat" );
			x.bound = bound;
			x.realConformance = !bound && !c.reuse;
			x.body = [c] { body( c ); };
			x.config = [c] { K.reuseInodes = c.reuse; };
			s.push_back( x );
		};
		Universe u;
		u.files = { "p/w/a", "p/w/d/x" };
		u.dirs = { "p/w", "p/x", "p/w/d" };
		u.write = u.rename = false;
		u.rmtree = true;
		Universe moves = u; // with its parent, files of the same name
		moves.files = { "p/w", "p/w/a" };
		moves.dirs = { "p", "p/w", "p/x", "q", "p/w/d" };
		moves.rename = true;
		moves.renameOver = false;
		std::vector<FsOp> pre = { { OpK::Mkdir, "p/w/d", "", true }, { OpK::Create, "p/w/d/x", "" }, { OpK::Create, "p/w/a", "" } };
		for ( bool g : { false, true } )
			for ( bool rec : { true, false } ) {
				add( "step by step", { 5 + T, g, rec, false, false, u, pre }, 0 );
				add( "with its parent", { 4 + T, g, rec, false, false, moves, pre }, 0 );
				add( "burst", { 4 + T, g, rec, true, false, moves, pre }, 0 );
				add( "burst, inode numbers reused", { 4 + T, g, rec, true, true, u, pre }, 0 );
				Cfg l{ 4 + T, g, rec, false, false, u, pre };
				l.link = "p/x";
				l.u.rename = true;
				l.u.files = { "p/w/a", "p/x/a" };
				add( "a link gets its name", l, 0 );
				l.burst = true;
				add( "a link gets its name, burst", l, 0 );
				if ( rec )
					add( "preempted", { 2 + T, g, rec, true, false, moves, pre }, 1 );
			}
		inLargeSystem( s, { "step by step", "step by step, polling" } );
		return s;
	} );
}
