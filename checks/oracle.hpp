// What a watch must report for one isolated operation (derived from the documentation of the
// actions, not from the implementation).
#pragma once
#include "world.hpp"

namespace hs {

struct WatchCfg {
	std::string root; // relative
	bool recursive = true;
	bool synthetic = false;
	bool generic = false;
	long id = 0;
	Recorder* rec = nullptr;
	bool covers( const std::string& dir ) const { // events of entries of `dir` are in scope
		return dir == root || ( recursive && under( dir, root ) );
	}
};
struct Rule {
	int action;
	std::string dir, file, old; // relative dir
	int lo, hi;
	int seen = 0;
	std::string str() const {
		return std::string( actName( action ) ) + " " + dir + "/|" + file + ( old.empty() ? "" : " <- " + old ) +
			   " x" + std::to_string( lo ) + ".." + ( hi > 99 ? std::string( "*" ) : std::to_string( hi ) );
	}
};
struct Expect {
	std::vector<Rule> r;
	void add( int a, const std::string& p, int lo, int hi, const std::string& old = "" ) {
		r.push_back( { a, parentDir( p ), baseName( p ), old, lo, hi } );
	}
	std::string str() const {
		std::string s;
		for ( auto& x : r )
			s += ( s.empty() ? "" : "; " ) + x.str();
		return s.empty() ? "(nothing)" : s;
	}
};
enum { MANY = 1000 };

typedef std::map<std::string, char> Tree; // absolute path -> kind
inline Tree snapshotTree() { return mc::fs::tree( R() ); }
inline std::vector<std::string> below( const Tree& t, const std::string& p ) { // relative paths
	std::vector<std::string> v;
	std::string pre = R( p ) + "/";
	for ( auto& x : t )
		if ( x.first.compare( 0, pre.size(), pre ) == 0 )
			v.push_back( x.first.substr( R().size() + 1 ) );
	return v;
}

// the other hard links of a file changed, too
inline void otherNames( Expect& e, const FsOp& o, const WatchCfg& w ) {
	for ( auto& p : below( snapshotTree(), "" ) )
		if ( p != o.a && !mc::fs::isDir( R( p ) ) && sameFile( p, o.a ) && w.covers( parentDir( p ) ) )
			e.add( efsw::Actions::Modified, p, 1, MANY );
}
// events of watch w for operation o performed on tree `before`
inline Expect expected( const FsOp& o, const WatchCfg& w, const Tree& before ) {
	using namespace efsw;
	Expect e;
	bool src = w.covers( parentDir( o.a ) );
	// polling reports regular files and directories only
	auto hidden = [&]( const std::string& p ) {
		auto it = before.find( R( p ) );
		return w.generic && it != before.end() && it->second == 's';
	};
	if ( w.generic ) // a directory whose time stamp changed may be reported as modified
		for ( const std::string& p : { o.a, o.b } )
			if ( !p.empty() && under( parentDir( p ), w.root ) && w.covers( parentDir( parentDir( p ) ) ) )
				e.add( Actions::Modified, parentDir( p ), 0, MANY );
	if ( w.generic && ( o.k == OpK::Special || ( o.k == OpK::Link ? hidden( o.b ) : hidden( o.a ) ) ) ) {
		if ( o.k == OpK::Rename && before.count( R( o.b ) ) && !hidden( o.b ) && w.covers( parentDir( o.b ) ) )
			e.add( Actions::Delete, o.b, 1, 1 );
		return e;
	}
	switch ( o.k ) {
		case OpK::Create:
		case OpK::CreateOpen:
			if ( src ) {
				e.add( Actions::Add, o.a, 1, 1 );
				e.add( Actions::Modified, o.a, w.generic ? 0 : 1, MANY );
			}
			break;
		case OpK::Write:
		case OpK::WriteOpen:
		case OpK::Overwrite:
		case OpK::Truncate:
		case OpK::WriteKeep:
			if ( src )
				e.add( Actions::Modified, o.a, 1, MANY );
			if ( w.generic )
				otherNames( e, o, w );
			break;
		case OpK::Chmod:
		case OpK::Chown:
		case OpK::Chgrp:
		case OpK::Touch:
		case OpK::Backdate:
			if ( src && w.generic )
				e.add( Actions::Modified, o.a, 1, MANY );
			if ( w.generic )
				otherNames( e, o, w );
			break;
		case OpK::Link:
		case OpK::Special:
			if ( src )
				e.add( Actions::Add, o.a, 1, 1 );
			break;
		case OpK::Unlink:
		case OpK::Rmdir:
			if ( src )
				e.add( Actions::Delete, o.a, 1, 1 );
			break;
		case OpK::Mkdir:
			if ( src )
				e.add( Actions::Add, o.a, 1, 1 );
			break;
		case OpK::RmTree:
			for ( auto& p : below( before, o.a ) )
				if ( w.covers( parentDir( p ) ) && !hidden( p ) ) {
					e.add( Actions::Delete, p, 1, 1 );
					if ( w.generic && before.at( R( p ) ) == 'd' ) // seen while it is being emptied
						e.add( Actions::Modified, p, 0, MANY );
				}
			if ( src ) {
				e.add( Actions::Delete, o.a, 1, 1 );
				if ( w.generic )
					e.add( Actions::Modified, o.a, 0, MANY );
			}
			break;
		case OpK::Rename: {
			bool dst = w.covers( parentDir( o.b ) );
			bool dir = before.count( R( o.a ) ) && before.at( R( o.a ) ) == 'd';
			if ( w.generic && before.count( R( o.b ) ) && !hidden( o.b ) ) {
				// found by comparing the content before and after
				if ( src ) {
					e.add( Actions::Delete, o.a, 1, 1 );
					if ( w.recursive )
						for ( auto& p : below( before, o.a ) )
							if ( !hidden( p ) )
								e.add( Actions::Delete, p, 1, 1 );
				}
				if ( dst ) {
					e.add( Actions::Modified, o.b, 1, MANY );
					if ( w.recursive )
						for ( auto& p : below( before, o.a ) )
							if ( !hidden( p ) )
								e.add( Actions::Add, o.b + p.substr( o.a.size() ), 1, 1 );
				}
				break;
			}
			if ( src && dst && parentDir( o.a ) == parentDir( o.b ) ) {
				if ( w.generic )
					e.add( Actions::Modified, o.b, 0, MANY );
				e.add( Actions::Moved, o.b, 1, 1, baseName( o.a ) );
				break;
			}
			if ( src ) {
				e.add( Actions::Delete, o.a, 1, 1 );
				if ( dir && w.recursive && ( !dst || w.generic ) ) // inotify: the sub directories may be reported as well
					for ( auto& p : below( before, o.a ) )
						if ( !hidden( p ) )
							e.add( Actions::Delete, p, w.generic, 1 );
			}
			if ( dst ) {
				e.add( Actions::Add, o.b, 1, 1 );
				e.add( Actions::Modified, o.b, 0, MANY );
				if ( dir && w.recursive && ( w.synthetic || w.generic ) )
					for ( auto& p : below( before, o.a ) )
						if ( !hidden( p ) )
							e.add( Actions::Add, o.b + p.substr( o.a.size() ), 1, 1 );
			}
			break;
		}
		default:
			break;
	}
	return e;
}

// compares what arrived since `from`
inline void compare( const std::string& what, const WatchCfg& w, Expect e, const std::vector<Ev>& evs,
					 size_t from ) {
	auto bad = [&]( const std::string& why ) {
		fail( why + " for [" + what + "] in watch " + w.root + ( w.recursive ? " (recursive)" : "" ) +
			  "; expected " + e.str() + "; reported " + listEvs( evs, from ) );
	};
	bool modBeforeAdd = false;
	for ( size_t i = from; i < evs.size(); i++ ) {
		const Ev& v = evs[i];
		if ( v.id != w.id )
			continue; // another watch of the same listener
		bool ok = false;
		for ( auto& r : e.r )
			if ( r.action == v.action && R( r.dir ) + "/" == v.dir && r.file == v.file && r.old == v.old ) {
				ok = true;
				if ( ++r.seen > r.hi )
					bad( "event reported too often: " + v.str() );
				if ( v.action == efsw::Actions::Modified )
					for ( auto& q : e.r )
						if ( q.action == efsw::Actions::Add && q.dir == r.dir && q.file == r.file && !q.seen )
							modBeforeAdd = true;
			}
		if ( !ok )
			bad( "unexpected event " + v.str() );
	}
	for ( auto& r : e.r )
		if ( r.seen < r.lo )
			bad( "event not reported: " + r.str() );
	if ( modBeforeAdd )
		bad( "Modified reported before Add" );
}

} // namespace hs
