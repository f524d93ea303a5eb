// C19: names are reported byte for byte, below the directory as it was given.
#include "oracle.hpp"
#include <cstring>
using namespace hs;
using namespace mc;

static std::vector<std::string> names( bool th ) {
	std::vector<std::string> v;
	auto ok = []( const std::string& s ) { return s != "." && s != ".." && s.size() <= 255 && s.find( '/' ) == std::string::npos; };
	for ( int c = 1; c < 256; c++ )
		v.push_back( std::string( 1, (char)c ) );
	const char sp[] = { ' ', '.', '\\', '\n', '%', ':', '~', '*', (char)0x80, (char)0xc3, (char)0xff, 'a' };
	for ( char a : sp )
		for ( char b : sp ) {
			v.push_back( std::string{ a, b } );
			if ( th )
				for ( char c : sp )
					v.push_back( std::string{ a, b, c } );
		}
	for ( int n = 3; n <= 255; n += th || n < 40 || n > 240 ? 1 : 7 )
		v.push_back( std::string( n, 'n' ) );
	for ( const char* s : { "...", "\xc3\xa9\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xef\xbf\xbf", "a\xcc\x81", "%s%n", "C:", "-rf", "name with spaces", "x ", " x", "tab\tname", "w", "dd", "d.", "d d", "d\\e", "1", "00" } )
		v.push_back( s );
	std::vector<std::string> r;
	for ( auto& s : v )
		if ( ok( s ) )
			r.push_back( s );
	return r;
}
enum Script { File, Dir, RenameTo, RenameFrom, DirRename, Across, Siblings, SCRIPTS };

struct Cfg {
	bool generic, synthetic;
	int parts;
	std::string given, cwd; // the directory as given to addWatch ("$" is the scratch root); working directory
	std::string shown;		// as reported
	bool allNames;
	std::string real = "w"; // the directory
};

struct Run {
	const Cfg& c;
	Watcher& w;
	Recorder& r;
	WatchCfg wc;
	std::string shown, hist;
	int depth = 0;
	void op( const FsOp& o ) {
		Tree before = snapshotTree();
		size_t n = r.evs.size();
		check( perform( o ) == 0, "harness: " + o.str() );
		settle( 2 );
		hist += ( hist.empty() ? "" : "; " ) + o.str();
		Host h;
		std::vector<Ev> evs; // with the path they stand for
		for ( size_t i = n; i < r.evs.size(); i++ ) {
			Ev e = r.evs[i];
			check( e.dir.compare( 0, shown.size(), shown ) == 0, "directory of another form: " + e.str() + " instead of below " + rel( shown ) + " for [" + hist + "]" );
			e.dir = R( c.real ) + "/" + e.dir.substr( shown.size() );
			evs.push_back( e );
		}
		compare( hist, wc, expected( o, wc, before ), evs, 0 );
	}
};
static void body( const Cfg& c ) {
	static const std::vector<std::string> all[2] = { names( false ), names( true ) };
	const std::vector<std::string>& N = all[c.parts];
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "w/d" ) );
	fs::mkdir( R( "w/n" ) );
	fs::mkdir( R( "o" ) );
	if ( under( c.real, "w" ) || c.real == "w\\w" )
		fs::mkdir( R( c.real ) );
	fs::create( R( c.real + "/a" ) );
	if ( c.real != "w" )
		fs::mkdir( R( c.real + "/d" ) );
	static const std::vector<std::string> some = { "x", "d.x", " ", "dd", "\xff", "\\" };
	const std::vector<std::string>& use = c.allNames ? N : some;
	std::string x = use[choose( (int)use.size(), 0, CK::Op, "name" )];
	int script = choose( SCRIPTS, 0, CK::Op, "script" );
	if ( x.size() == 1 && strchr( "abdefgnos", x[0] ) ) // names of the scripts
		abandon();
	if ( !c.cwd.empty() )
		check( fs::setCwd( c.cwd == "$" ? R() : R( c.cwd.substr( 2 ) ) ) == 0, "harness: chdir" );
	std::string given = c.given[0] == '$' ? R() + c.given.substr( 1 ) : c.given;
	Recorder r;
	r.muteModified = c.generic;
	Watcher w( c.generic );
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	WatchCfg wc;
	wc.root = c.real;
	wc.generic = c.generic;
	wc.synthetic = c.synthetic;
	wc.id = w->addWatch( given, &r, true, opt );
	check( wc.id > 0, "addWatch of " + rel( given ) + " failed" );
	w->watch();
	settle( 2 );
	check( r.evs.empty(), "events without any change: " + listEvs( r.evs ) );
	Run k{ c, w, r, wc, c.shown[0] == '$' ? R() + c.shown.substr( 1 ) : c.shown, "" };
	std::string W = c.real + "/", p = W + x;
	switch ( script ) {
		case File:
			k.op( { OpK::Create, p, "" } );
			k.op( { OpK::Write, p, "" } );
			k.op( { OpK::Unlink, p, "" } );
			k.op( { OpK::Create, W + "d/" + x, "" } );
			k.op( { OpK::Rename, W + "d/" + x, p } );
			break;
		case Dir:
			k.op( { OpK::Mkdir, p, "", true } );
			k.op( { OpK::Create, p + "/f", "" } );
			k.op( { OpK::Mkdir, p + "/" + x, "", true } );
			k.op( { OpK::Create, p + "/" + x + "/" + x, "" } );
			k.op( { OpK::RmTree, p, "", true } );
			break;
		case RenameTo:
			k.op( { OpK::Rename, W + "a", p } );
			k.op( { OpK::Write, p, "" } );
			k.op( { OpK::Rename, p, "o/a" } );
			break;
		case RenameFrom:
			k.op( { OpK::Create, p, "" } );
			k.op( { OpK::Rename, p, W + "b" } );
			k.op( { OpK::Unlink, W + "b", "" } );
			break;
		case DirRename:
			k.op( { OpK::Mkdir, p, "", true } );
			k.op( { OpK::Mkdir, p + "/s", "", true } );
			k.op( { OpK::Rename, p, W + "e", true } );
			k.op( { OpK::Create, W + "e/s/" + x, "" } );
			k.op( { OpK::Rename, W + "e", p, true } );
			k.op( { OpK::Create, p + "/s/g", "" } );
			break;
		case Across:
			k.op( { OpK::Mkdir, p, "", true } );
			k.op( { OpK::Mkdir, p + "/s", "", true } );
			k.op( { OpK::Rename, p, W + "d/" + x, true } );
			k.op( { OpK::Create, W + "d/" + x + "/s/f", "" } );
			k.op( { OpK::Rename, W + "d/" + x, "o/x", true } );
			k.op( { OpK::Create, "o/x/s/g", "" } );
			k.op( { OpK::Create, W + "d/" + x, "" } );
			break;
		case Siblings: { // one name is the beginning of the other
			std::string q = p + ( x.size() > 254 ? "" : "x" );
			if ( q == p || q == W + "nx" )
				abandon();
			k.op( { OpK::Mkdir, p, "", true } );
			k.op( { OpK::Mkdir, q, "", true } );
			k.op( { OpK::Create, q + "/f", "" } );
			k.op( { OpK::Rename, p, W + "e", true } );
			k.op( { OpK::Write, q + "/f", "" } );
			k.op( { OpK::Rename, q, p, true } );
			k.op( { OpK::Write, p + "/f", "" } );
			k.op( { OpK::Rmdir, W + "e", "", true } );
			k.op( { OpK::Unlink, p + "/f", "" } );
			break;
		}
	}
	w.destroy();
	checkReleased();
}

// a chain of long names, up to the length the system allows for a path
static void chain( bool generic, int len, int start ) { // start: of the watched one; 0: the first, 1: the one in the middle, 2: the last
	fs::mkdir( R( "w" ) );
	std::string p = "w";
	size_t room = 4000 - R().size();
	std::vector<std::string> dirs{ p };
	while ( p.size() + len + 1 + 30 < room ) {
		p += "/" + std::string( len, char( 'a' + dirs.size() % 26 ) );
		dirs.push_back( p );
	}
	size_t pre = dirs.size() / 2; // the rest is made while it is watched
	for ( size_t i = 1; i < pre; i++ )
		check( fs::mkdir( R( dirs[i] ) ) == 0, "harness: mkdir" );
	if ( start == 2 )
		for ( size_t i = pre; i < dirs.size(); i++ )
			check( fs::mkdir( R( dirs[i] ) ) == 0, "harness: mkdir" );
	std::string root = start == 0 ? dirs[0] : start == 1 ? dirs[pre - 1] : dirs.back();
	Cfg c{ generic, true, 0, "$/" + root, "", "$/" + root + "/", false, root };
	Recorder r;
	r.muteModified = generic;
	Watcher w( generic );
	WatchCfg wc;
	wc.root = root;
	wc.generic = generic;
	wc.synthetic = true;
	wc.id = w->addWatch( R( root ), &r, true, { efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) } );
	check( wc.id > 0, "addWatch failed" );
	w->watch();
	settle( 2 );
	Run k{ c, w, r, wc, R( root + "/" ), "" };
	for ( size_t i = start == 2 ? dirs.size() : std::max<size_t>( pre, 1 ); i < dirs.size(); i++ )
		k.op( { OpK::Mkdir, dirs[i], "", true } );
	k.hist = "...";
	for ( size_t i : { dirs.size() - 1, dirs.size() / 2, (size_t)0 } ) {
		if ( dirs[i].size() < root.size() )
			continue;
		k.op( { OpK::Create, dirs[i] + "/f", "" } );
		k.op( { OpK::Rename, dirs[i] + "/f", dirs[i] + "/g" } );
		k.op( { OpK::Unlink, dirs[i] + "/g", "" } );
	}
	if ( start < 2 ) {
		size_t one = start ? pre : 1;
		std::string z = root + "/z";
		k.op( { OpK::Rename, dirs[one], z, true } );
		k.op( { OpK::Create, z + dirs.back().substr( dirs[one].size() ) + "/f", "" } );
	}
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C19", []( bool th ) {
		std::vector<Scenario> s;
		for ( bool g : { false, true } ) {
			auto add = [&]( std::string name, Cfg c ) {
				c.generic = g;
				c.parts = th;
				c.synthetic = !g;
				Scenario x;
				x.name = ( g ? "polling, " : "" ) + name;
				x.bound = 0;
				x.realConformance = c.cwd.empty();
				x.body = [c] { body( c ); };
				s.push_back( x );
			};
			add( "every name", { g, true, 0, "$/w", "", "$/w/", true } );
			add( "slash at the end", { g, true, 0, "$/w/", "", "$/w/", false } );
			struct F {
				const char *given, *cwd, *shown, *real;
			} forms[] = {
				{ "w", "$", "w/", "w" },			  { "w/", "$", "w/", "w" },			  { "./w", "$", "./w/", "w" },
				{ "../w", "$/o", "../w/", "w" },	  { "$/o/../w", "", "$/o/../w/", "w" }, { "$//w", "", "$//w/", "w" },
				{ "$/./w", "", "$/./w/", "w" },		  { ".", "$/w", "./", "w" },		  { "d", "$/w", "d/", "w/d" },
				{ "..", "$/w/d", "../", "w" },		  { "w/n", "$", "w/n/", "w/n" },	  { "$/w/d", "", "$/w/d/", "w/d" },
				{ "./", "$/w", "./", "w" },
			};
			for ( auto& f : forms )
				add( std::string( "given as " ) + f.given, { g, true, 0, f.given, f.cwd, f.shown, false, f.real } );
			for ( int len : { 255, 254, 200, 100, 64, 10 } )
				for ( int start : { 0, 1, 2 } ) {
					if ( g && len < 64 )
						continue;
					Scenario x;
					x.name = std::string( g ? "polling, " : "" ) + "path as long as it can be, names of " + std::to_string( len ) +
							 ( start == 0 ? "" : start == 1 ? ", watched from the middle" : ", the last one watched" );
					x.bound = 0;
					x.body = [=] { chain( g, len, start ); };
					s.push_back( x );
				}
		}
		return s;
	} );
}
