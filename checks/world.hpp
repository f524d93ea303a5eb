// A small universe of paths and every file-system operation applicable to it in the current state.
#pragma once
#include "harness.hpp"

namespace hs {

enum class OpK { Create, Write, Unlink, Mkdir, Rmdir, RmTree, Rename, Symlink, Link, Chmod, Chown, Chgrp, Touch, WriteOpen, CreateOpen, Overwrite, Backdate, Truncate, WriteKeep, Special };
struct FsOp {
	OpK k;
	std::string a, b; // relative to the scratch root
	bool dir = false;
	std::string str() const {
		static const char* n[] = { "create",  "write",  "unlink",  "mkdir", "rmdir",
								   "rm -r",	  "mv",		"symlink", "link",	"chmod",
								   "chown",	  "chgrp",	"touch", "write (left open)", "create (left open)", "overwrite", "backdate", "truncate", "write (time kept)", "mknod" };
		return std::string( n[(int)k] ) + " " + a + ( b.empty() ? "" : " " + b );
	}
};

struct Universe {
	std::vector<std::string> files, dirs;
	bool create = true, write = true, unlink = true, mkdir = true, rmdir = true, rmtree = false,
		 rename = true, renameDirs = true, renameOver = true;
	bool open = false;	   // files are also written and left open
	bool meta = false;	   // owner, group, permissions
	bool times = false;	   // modification time, content without the size
	bool link = false;	   // hard links
	bool special = false;  // sockets
	bool perm = false; // directories that can not be read, for a while
};

inline bool under( const std::string& p, const std::string& d ) { // strictly
	return p.size() > d.size() && p.compare( 0, d.size(), d ) == 0 && p[d.size()] == '/';
}
inline std::string parentDir( const std::string& p ) {
	size_t s = p.rfind( '/' );
	return s == std::string::npos ? "" : p.substr( 0, s );
}
inline std::string baseName( const std::string& p ) {
	size_t s = p.rfind( '/' );
	return s == std::string::npos ? p : p.substr( s + 1 );
}

inline bool sameFile( const std::string& a, const std::string& b ) {
	mc::Stat x, y;
	return mc::fs::stat( R( a ), x ) && mc::fs::stat( R( b ), y ) && x.ino == y.ino;
}
inline uint64_t sizeOf( const std::string& p ) {
	mc::Stat x;
	return mc::fs::stat( R( p ), x ) ? x.size : 0;
}
inline bool isRegular( const std::string& p ) {
	mc::Stat x;
	return mc::fs::stat( R( p ), x ) && S_ISREG( x.mode );
}
inline std::vector<FsOp> applicable( const Universe& u ) {
	Host h;
	std::vector<FsOp> v;
	auto ex = []( const std::string& p ) { return mc::fs::exists( R( p ) ); };
	auto isd = []( const std::string& p ) { return mc::fs::isDir( R( p ) ); };
	auto pd = [&]( const std::string& p ) { return isd( parentDir( p ) ); };
	for ( auto& f : u.files ) {
		if ( !ex( f ) ) {
			if ( u.create && pd( f ) )
				v.push_back( { OpK::Create, f, "" } );
			if ( u.create && u.open && pd( f ) )
				v.push_back( { OpK::CreateOpen, f, "" } );
			if ( u.special && pd( f ) )
				v.push_back( { OpK::Special, f, "" } );
			continue;
		}
		if ( isd( f ) )
			continue;
		bool content = !u.special || isRegular( f );
		if ( u.write && content )
			v.push_back( { OpK::Write, f, "" } );
		if ( u.open && content )
			v.push_back( { OpK::WriteOpen, f, "" } );
		for ( OpK k : { OpK::Chmod, OpK::Chown, OpK::Chgrp } )
			if ( u.meta )
				v.push_back( { k, f, "" } );
		if ( u.meta )
			v.push_back( { OpK::Chmod, f, "^4000" } );
		for ( OpK k : { OpK::Touch, OpK::Overwrite, OpK::Backdate, OpK::Truncate, OpK::WriteKeep } )
			if ( u.times && ( content || k == OpK::Touch || k == OpK::Backdate ) && ( k != OpK::Truncate || sizeOf( f ) ) )
				v.push_back( { k, f, "" } );
		if ( u.link )
			for ( auto& g : u.files )
				if ( !ex( g ) && pd( g ) )
					v.push_back( { OpK::Link, g, f } );
		if ( u.unlink )
			v.push_back( { OpK::Unlink, f, "" } );
		if ( u.rename )
			for ( auto& g : u.files )
				if ( g != f && pd( g ) && !isd( g ) && ( u.renameOver || !ex( g ) ) &&
					 !( u.link && sameFile( f, g ) ) )
					v.push_back( { OpK::Rename, f, g } );
	}
	for ( auto& d : u.dirs ) {
		if ( !ex( d ) ) {
			if ( u.mkdir && pd( d ) )
				v.push_back( { OpK::Mkdir, d, "", true } );
			continue;
		}
		if ( !isd( d ) )
			continue;
		bool empty = mc::fs::list( R( d ) ).empty();
		if ( u.meta )
			v.push_back( { OpK::Chmod, d, "", true } );
		if ( u.perm )
			v.push_back( { OpK::Chmod, d, "^755", true } );
		for ( OpK k : { OpK::Touch, OpK::Backdate } )
			if ( u.times )
				v.push_back( { k, d, "", true } );
		if ( u.rmdir && empty )
			v.push_back( { OpK::Rmdir, d, "", true } );
		if ( u.rmtree && !empty )
			v.push_back( { OpK::RmTree, d, "", true } );
		if ( u.rename && u.renameDirs )
			for ( auto& e : u.dirs )
				if ( e != d && !under( e, d ) && !under( d, e ) && pd( e ) &&
					 ( !ex( e ) || ( u.renameOver && isd( e ) && mc::fs::list( R( e ) ).empty() ) ) )
					v.push_back( { OpK::Rename, d, e, true } );
	}
	return v;
}
inline int perform( const FsOp& o ) {
	using namespace mc;
	switch ( o.k ) {
		case OpK::Create:
			return fs::create( R( o.a ) );
		case OpK::Write:
			return fs::write( R( o.a ) );
		case OpK::Unlink:
			return fs::unlink( R( o.a ) );
		case OpK::Mkdir:
			return fs::mkdir( R( o.a ) );
		case OpK::Rmdir:
			return fs::rmdir( R( o.a ) );
		case OpK::RmTree:
			return fs::rmTree( R( o.a ) );
		case OpK::Rename:
			return fs::rename( R( o.a ), R( o.b ) );
		case OpK::Symlink:
			return fs::symlink( o.b, R( o.a ) );
		case OpK::Special:
			return fs::special( R( o.a ) );
		case OpK::Link:
			return fs::link( R( o.b ), R( o.a ) );
		case OpK::WriteOpen:
			return fs::writeNoClose( R( o.a ) );
		case OpK::CreateOpen:
			return fs::createNoClose( R( o.a ) );
		case OpK::Overwrite:
			return fs::writeSameSize( R( o.a ) );
		case OpK::Backdate:
			return fs::backdate( R( o.a ) );
		case OpK::Truncate:
			return fs::truncate( R( o.a ) );
		case OpK::WriteKeep:
			return fs::writeKeepTime( R( o.a ) );
		case OpK::Touch:
			return fs::touch( R( o.a ) );
		case OpK::Chmod:
		case OpK::Chown:
		case OpK::Chgrp: { // a value it doesn't have
			Stat st;
			if ( !fs::stat( R( o.a ), st ) )
				return -1;
			if ( o.k == OpK::Chmod ) // "^bits" turns them over
				return fs::chmod( R( o.a ), o.b.empty()		? ( st.mode & 07777 ) ^ 022
											: o.b[0] == '^' ? ( st.mode & 07777 ) ^ std::stoul( o.b.substr( 1 ), nullptr, 8 )
															: std::stoul( o.b, nullptr, 8 ) );
			return o.k == OpK::Chown ? fs::chown( R( o.a ), st.uid ? 0 : K.otherId )
									 : fs::chown( R( o.a ), -1, st.gid ? 0 : K.otherId );
		}
		default:
			return 0;
	}
}
// every applicable operation is a free branch
inline FsOp chooseOp( const Universe& u ) {
	std::vector<FsOp> v = applicable( u );
	if ( v.empty() )
		mc::abandon();
	int k = mc::choose( (int)v.size(), 0, CK::Op, "operation" );
	return v[k];
}

} // namespace hs
