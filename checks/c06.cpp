// C06: the polling backend classifies every isolated change.
#include "scale.hpp"
using namespace hs;
using namespace mc;

struct Cfg {
	int depth;
	bool recursive;
	unsigned freq;
	bool reuse;
	Universe u;
	std::vector<FsOp> pre;
};
static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "o" ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r;
	r.muteModified = true;
	Watcher w( true, c.freq );
	WatchCfg wc;
	wc.root = "w";
	wc.recursive = c.recursive;
	wc.generic = true;
	wc.id = w->addWatch( R( "w" ), &r, c.recursive );
	check( wc.id > 0, "addWatch failed" );
	w->watch();
	settle( 2 );
	check( r.evs.empty(), "events without any change: " + listEvs( r.evs ) );
	std::string hist;
	for ( int i = 0; i < c.depth; i++ ) {
		FsOp o = chooseOp( c.u );
		Tree before = snapshotTree();
		size_t n = r.evs.size();
		check( perform( o ) == 0, "harness: " + o.str() );
		settle( 2 );
		for ( size_t k = n; k < r.evs.size(); k++ )
			check( r.evs[k].id == wc.id, "event with another watch id: " + r.evs[k].str() );
		hist += ( i ? "; " : "" ) + o.str();
		compare( hist, wc, expected( o, wc, before ), r.evs, n );
	}
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C06", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.realConformance = !bound && !c.reuse;
			x.body = [c] { body( c ); };
			x.config = [c] { K.reuseInodes = c.reuse; };
			s.push_back( x );
		};
		Universe files;
		files.files = { "w/a", "w/aa", "w/d/a", "o/a" };
		files.dirs = { "w/d" };
		Universe dirs;
		dirs.files = { "w/d/x", "w/dd/x", "w/d/dd/x", "o/d/x" };
		dirs.dirs = { "w/d", "w/dd", "w/d/dd", "o/d" };
		dirs.write = false;
		dirs.rmtree = true;
		Universe meta = files;
		meta.files = { "w/a", "w/d/a" };
		meta.open = meta.meta = meta.times = meta.link = true;
		Universe deep = dirs; // three levels
		deep.files = { "w/d/dd/f/x" };
		deep.dirs = { "w/d", "w/dd", "o/d" };
		deep.create = deep.mkdir = false;
		deep.times = true;
		int D = thorough ? 5 : 4;
		std::vector<FsOp> pre = { { OpK::Mkdir, "w/d", "", true },
								  { OpK::Mkdir, "w/d/dd", "", true },
								  { OpK::Create, "w/d/dd/x", "" },
								  { OpK::Mkdir, "o/d", "", true },
								  { OpK::Create, "o/d/x", "" },
								  { OpK::Create, "w/a", "" } };
		std::vector<FsOp> tree = { { OpK::Mkdir, "w/d", "", true },		 { OpK::Mkdir, "w/d/dd", "", true },
								   { OpK::Mkdir, "w/d/dd/f", "", true }, { OpK::Create, "w/d/dd/f/x", "" },
								   { OpK::Mkdir, "o/d", "", true },		 { OpK::Mkdir, "o/d/dd", "", true },
								   { OpK::Mkdir, "o/d/dd/f", "", true }, { OpK::Create, "o/d/dd/f/x", "" } };
		for ( bool rec : { true, false } )
			add( rec ? "meta data, times, links" : "meta data, times, links, flat", { D - 1, rec, 1000, false, meta, pre }, 0 );
		// values the system may have: inode numbers beyond 32 bits, a clock beyond 31 and 32 bits
		for ( int64_t t : { 0x7FFFFFFBll, 0xFFFFFFFBll } ) {
			add( "meta data, times, links, clock at " + std::to_string( t ), { 2, true, 1000, false, meta, pre }, 0 );
			s.back().realConformance = false; // not every file system stores these
			s.back().config = [t] {
				K.startTime = t;
				K.inoLow = 7;
			};
		}
		add( "populated files, large inode numbers", { D - 1, true, 1000, false, files, pre }, 0 );
		s.back().config = [] { K.inoLow = 7; };
		add( "populated recursive, large inode numbers", { D - 1, true, 1000, false, dirs, pre }, 0 );
		s.back().config = [] { K.inoLow = 7; };
		for ( bool rec : { true, false } )
			add( rec ? "meta data, times, links, polled within a second" : "meta data, times, links, flat, polled within a second",
				 { D - 1, rec, 100, false, meta, pre }, 0 );
		Universe sock = dirs; // sockets, also in the place of files and directories
		sock.special = true;
		sock.create = sock.meta = true;
		sock.files = { "w/a", "w/d/a", "w/d" };
		sock.dirs = { "w/d" };
		for ( bool rec : { true, false } )
			add( rec ? "sockets" : "sockets, flat", { D - 1, rec, 1000, false, sock, pre }, 0 );
		Universe wide = dirs; // several files and directories in each directory
		wide.files = { "w/d/e/x", "w/d/x" };
		wide.dirs = { "w/d", "w/dd", "o/d", "w/d/f" };
		wide.create = wide.mkdir = false;
		std::vector<FsOp> three = { { OpK::Mkdir, "w/d", "", true }, { OpK::Create, "w/d/x", "" }, { OpK::Create, "w/d/y", "" }, { OpK::Mkdir, "w/dd", "", true } };
		for ( std::string d : { "e", "f", "g" } ) {
			three.push_back( { OpK::Mkdir, "w/d/" + d, "", true } );
			for ( std::string n : { "x", "y" } ) {
				three.push_back( { OpK::Create, "w/d/" + d + "/" + n, "" } );
				three.push_back( { OpK::Mkdir, "w/d/" + d + "/s" + n, "", true } );
				three.push_back( { OpK::Create, "w/d/" + d + "/s" + n + "/x", "" } );
			}
		}
		add( "three directories in one", { D - 1, true, 1000, false, wide, three }, 0 );
		add( "three directories in one, inode numbers reused", { D - 1, true, 1000, true, wide, three }, 0 );
		add( "three levels", { D, true, 1000, false, deep, tree }, 0 );
		for ( unsigned freq : { 1000u, 100u } ) {
			std::string f = freq == 1000 ? "" : ", polled within a second";
			add( "files recursive" + f, { D, true, freq, false, files, {} }, 0 );
			add( "files flat" + f, { D, false, freq, false, files, {} }, 0 );
			add( "dirs recursive" + f, { D, true, freq, false, dirs, {} }, 0 );
			add( "dirs flat" + f, { D, false, freq, false, dirs, {} }, 0 );
			add( "populated recursive" + f, { D, true, freq, false, dirs, pre }, 0 );
			add( "populated files" + f, { D, true, freq, false, files, pre }, 0 );
			add( "files, inode numbers reused" + f, { D, true, freq, true, files, pre }, 0 );
			add( "dirs, inode numbers reused" + f, { D, true, freq, true, dirs, pre }, 0 );
		}
		addBigTrees( s, true, false, false );
		inLargeSystem( s, { "meta data, times, links", "populated files", "dirs recursive" } );
		return s;
	} );
}
