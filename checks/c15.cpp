// C15: directories on remote file systems are refused by the native backend only, and deciding so leaves no traces.
#include "oracle.hpp"
using namespace hs;
using namespace mc;

struct Type {
	unsigned long magic;
	bool remote;
};
// linux/magic.h and the file systems efsw names; FUSE (0x65735546) depends on the mount table
static const Type types[] = {
	{ 0x5346414F, true }, { 0x61756673, true }, { 0x00C36400, true }, { 0xFF534D42, true }, { 0x73757245, true },
	{ 0x19830326, true }, { 0x65735543, true }, { 0x01161970, true }, { 0x47504653, true }, { 0x6B414653, true },
	{ 0x0BD00BD0, true }, { 0x564C, true },		{ 0x6969, true },	  { 0x6E667364, true }, { 0x7461636F, true },
	{ 0xAAD7AAEA, true }, { 0x50495045, true }, { 0x517B, true },	  { 0xBEEFDEAD, true }, { 0xBACBACBC, true },
	{ 0xA501FCF5, true }, { 0xEF53, false },	{ 0x58465342, false }, { 0x9123683E, false }, { 0x01021994, false },
	{ 0x794c7630, false }, { 0x2FC12FC1, false }, { 0x4d44, false },  { 0x9660, false },	{ 0x65735546, false } };
static const unsigned long FUSE = 0x65735546;
static const int NTYPES = sizeof types / sizeof *types;

struct Cfg {
	int what; // 0 the watched directory, 1 a mount below the watched directory
	bool generic;
	bool allTypes;
	int faults = 0;
	std::set<std::string> calls;
	uint64_t stack = 0;
};
// 'A' the file was reported, '-' silent
static bool reports( Recorder& r, const std::string& dir, long id, bool generic ) {
	size_t from = r.evs.size();
	fs::create( dir + "/probe" );
	settle( generic ? 3 : 2 );
	bool seen = false;
	for ( size_t i = from; i < r.evs.size(); i++ )
		seen |= r.evs[i].id == id && r.evs[i].file == "probe" && r.evs[i].action == efsw::Actions::Add;
	fs::unlink( dir + "/probe" );
	settle( generic ? 3 : 2 );
	return seen;
}

static void body( const Cfg& c ) {
	for ( const char* d : { "w", "w/d", "w/m", "m" } )
		fs::mkdir( R( d ) );
	std::string mp = c.what ? "w/m" : "m";
	int t = c.allTypes ? choose( NTYPES, 0, CK::Op, "type of the file system" )
					   : choose( 2, 0, CK::Op, "FUSE or local" ) ? NTYPES - 1 : 21;
	bool listed = true;
	std::string dev = "/dev/sdb1";
	unsigned long magic = types[t].magic;
	if ( magic == FUSE ) {
		int k = choose( 3, 0, CK::Op, "mount table" );
		listed = k != 1;
		if ( k == 2 )
			dev = "";
	}
	bool remote = types[t].remote || ( magic == FUSE && ( !listed || dev.empty() ) );
	fs::mount( R( mp ), 7, magic, dev, listed );
	for ( const char* d : { "/s", "/s/t" } )
		fs::mkdir( R( mp + d ) );
	static const char* cwds[] = { "/", "", "m/s" };
	std::string at = cwds[choose( 3, 0, CK::Op, "working directory" )];
	if ( c.what && at == "m/s" )
		at = "w/m/s";
	fs::setCwd( at == "/" ? at : R( at ) );
	std::string cwd = fs::cwd();
	Recorder r;
	r.mute = true;
	Watcher w( c.generic );
	efsw::Errors::Log::clearLastError();
	auto traces = [&]( const std::string& what ) {
		check( fs::cwd() == cwd, "the working directory changed from " + cwd + " to " + fs::cwd() + " " + what +
									 ( *lastFault() ? std::string( ", " ) + lastFault() + "() failed" : "" ) );
		check( openMntCount() == 0, "the mount table is still open " + what );
	};
	if ( c.what == 0 ) {
		static const char* pos[] = { "", "/s", "/s/t" };
		std::string d = mp + pos[choose( 3, 0, CK::Op, "position in the file system" )];
		bool slash = choose( 2, 0, CK::Op, "slash" );
		bool relative = at == "" && choose( 2, 0, CK::Op, "relative path" );
		std::string path = ( relative ? d : R( d ) ) + ( slash ? "/" : "" );
		long id = w->addWatch( path, &r, true );
		traces( "by addWatch()" );
		std::string f = lastFault();
		char text[64];
		snprintf( text, sizeof text, "%#lx%s", magic, magic == FUSE ? listed ? " listed" : " not listed" : "" );
		if ( f.empty() || ( f == "statfs" && ( c.generic || magic != FUSE ) ) ) {
			if ( remote && !c.generic ) {
				check( id == efsw::Errors::FileRemote, "addWatch() of a directory on the remote file system " +
														   std::string( text ) + " returned " + std::to_string( id ) );
				check( efsw::Errors::Log::getLastErrorCode() == efsw::Errors::FileRemote, "the last error isn't FileRemote" );
				check( efsw::Errors::Log::getLastErrorLog().find( path ) != std::string::npos, "the last error doesn't name the directory" );
				check( w->directories().empty(), "a refused directory is listed" );
			} else
				check( id > 0, "addWatch() of a directory on the file system " + std::string( text ) + " returned " +
								   std::to_string( id ) + ( f.empty() ? "" : ", " + f + "() failed" ) );
		} else if ( id <= 0 && !c.generic ) {
			check( id != efsw::Errors::FileRemote || remote || magic == FUSE,
				   "a local directory was taken for a remote one, " + f + "() failed" );
			K.faultCost = -1;
			id = w->addWatch( path, &r, true );
			check( remote ? id == efsw::Errors::FileRemote : id > 0,
				   "after " + f + "() failed once addWatch() returns " + std::to_string( id ) );
		}
		K.faultCost = -1;
		if ( id > 0 && !relative ) {
			w->watch();
			settle( 2 );
			check( reports( r, R( d ), id, c.generic ), "a watched directory isn't reported, file system " + std::string( text ) );
		}
	} else {
		long id = w->addWatch( R( "w" ), &r, true );
		traces( "by addWatch()" );
		std::string f = lastFault();
		if ( f.empty() )
			check( id > 0, "addWatch() failed with a mount inside of the directory" );
		if ( id > 0 ) {
			w->watch();
			settle( 2 );
			traces( "by the first scan" );
			bool top = reports( r, R( "w" ), id, c.generic ), sub = reports( r, R( "w/d" ), id, c.generic );
			f = lastFault();
			if ( f.empty() || f == "statfs" || f == "realpath" ) {
				check( top, "the watched directory isn't reported" );
				check( sub, "a sub directory isn't reported" );
			}
			// a mount the calls failed for can be taken for a local one, a local one is never taken for a remote one
			for ( const char* d : { "w/m", "w/m/s" } ) {
				bool got = reports( r, R( d ), id, c.generic );
				f = lastFault();
				if ( remote && f.empty() )
					check( !got, std::string( "changes in a remote file system below the watched directory are reported, " ) + d );
				if ( !remote && ( f.empty() || f == "statfs" ) )
					check( got, std::string( "changes in a local file system below the watched directory aren't reported, " ) + d );
			}
			// a directory made later
			fs::mkdir( R( "w/n" ) );
			settle( 3 );
			bool got = reports( r, R( "w/n" ), id, c.generic );
			f = lastFault();
			if ( f.empty() || f == "statfs" )
				check( got, "a new directory isn't reported" );
			traces( "while watching" );
		}
	}
	traces( "at the end" );
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C15", []( bool th ) {
		std::vector<Scenario> v;
		auto add = [&]( const std::string& name, Cfg c, int bound ) {
			Scenario s;
			s.name = name;
			s.bound = bound;
			s.body = [c]() { body( c ); };
			s.config = [c]() {
				if ( c.faults )
					K.faultCost = 1;
				K.faultCalls = c.calls;
				K.stackFill = c.stack;
			};
			v.push_back( s );
		};
		for ( int g = 0; g < 2; g++ ) {
			std::string b = g ? "generic, " : "inotify, ";
			add( b + "watched directory", { 0, (bool)g, true }, 0 );
			add( b + "mount inside", { 1, (bool)g, true }, 0 );
			std::set<std::string> calls = { "statfs", "chdir", "getcwd", "setmntent", "stat", "realpath", "lstat" };
			// what a failing statfs() leaves behind must not matter
			for ( uint64_t fill : { 0x6969696969696969ull, 0x6969ull, 0x65735546ull, 0x517Bull, 0ull } ) {
				char n[32];
				snprintf( n, sizeof n, ", stack %#lx", (unsigned long)fill );
				int f = th ? 2 : 1;
				add( b + "watched directory, failing calls" + n, { 0, (bool)g, false, f, calls, fill }, f );
				add( b + "mount inside, failing calls" + n, { 1, (bool)g, false, f, calls, fill }, f );
			}
		}
		return v;
	} );
}
