// C01: an isolated change is reported exactly (native backend).
#include "oracle.hpp"
#include <sys/select.h>
using namespace hs;
using namespace mc;

struct Cfg {
	int depth;
	bool recursive, synthetic;
	Universe u;
	std::vector<FsOp> pre; // performed before the watch is added
};
static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "o" ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r;
	Watcher w;
	WatchCfg wc;
	wc.root = "w";
	wc.recursive = c.recursive;
	wc.synthetic = c.synthetic;
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	wc.id = w->addWatch( R( "w" ), &r, c.recursive, opt );
	check( wc.id > 0, "addWatch failed" );
	w->watch();
	settle( 2 );
	check( r.evs.empty(), "events without any change: " + listEvs( r.evs ) );
	for ( int i = 0; i < c.depth; i++ ) {
		FsOp o = chooseOp( c.u );
		Tree before = snapshotTree();
		size_t n = r.evs.size();
		check( perform( o ) == 0, "harness: " + o.str() );
		settle( 2 );
		for ( size_t k = n; k < r.evs.size(); k++ )
			check( r.evs[k].id == wc.id, "event with another watch id: " + r.evs[k].str() );
		compare( o.str(), wc, expected( o, wc, before ), r.evs, n );
	}
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C01", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.realConformance = bound == 0;
			x.body = [c] { body( c ); };
			s.push_back( x );
		};
		Universe files; // file operations, two directories, one outside
		files.files = { "w/a", "w/aa", "w/d/a", "o/a" };
		files.dirs = { "w/d" };
		files.rename = true;
		Universe dirs; // directory operations with content
		dirs.files = { "w/d/x", "w/dd/x", "w/d/dd/x", "o/d/x" };
		dirs.dirs = { "w/d", "w/dd", "w/d/dd", "o/d" };
		dirs.write = false;
		dirs.unlink = false;
		dirs.rmtree = true;
		int D = thorough ? 5 : 4;
		add( "files recursive", { D, true, false, files, {} }, 0 );
		add( "files flat", { D, false, false, files, {} }, 0 );
		add( "dirs recursive", { D, true, false, dirs, {} }, 0 );
		add( "dirs recursive synthetic", { D, true, true, dirs, {} }, 0 );
		add( "dirs flat", { D - 1, false, false, dirs, {} }, 0 );
		std::vector<FsOp> pre = { { OpK::Mkdir, "w/d", "", true },
								  { OpK::Mkdir, "w/d/dd", "", true },
								  { OpK::Create, "w/d/dd/x", "" },
								  { OpK::Mkdir, "o/d", "", true },
								  { OpK::Create, "o/d/x", "" },
								  { OpK::Create, "w/a", "" } };
		add( "populated recursive", { D, true, false, dirs, pre }, 0 );
		add( "populated recursive synthetic", { D, true, true, dirs, pre }, 0 );
		add( "populated files", { D, true, false, files, pre }, 0 );
		Universe open = files; // files left open, links, changes that are not reported
		open.files = { "w/a", "w/d/a" };
		open.dirs = {};
		open.open = open.meta = open.times = open.link = true;
		add( "open files, meta data, links", { D - 1, true, false, open, pre }, 0 );
		Universe sock = dirs; // sockets, also in the place of files and directories
		sock.special = true;
		sock.create = sock.meta = sock.write = sock.unlink = true;
		sock.files = { "w/a", "w/d/a", "w/d", "o/a" };
		sock.dirs = { "w/d" };
		add( "sockets", { D - 1, true, false, sock, pre }, 0 );
		add( "sockets, synthetic", { D - 1, true, true, sock, pre }, 0 );
		// values the kernel may choose: rename cookies around the wrap of their counter, large inode numbers
		for ( uint32_t cookie : { 0xFFFFFFFDu, 0xFFFFFFFEu, 0xFFFFFFFFu } ) {
			add( "populated recursive, rename cookies after " + std::to_string( cookie ), { D - 1, true, false, dirs, pre }, 0 );
			s.back().config = [cookie] {
				K.cookieStart = cookie;
				K.inoLow = 7;
			};
		}
		// descriptors: the standard streams are closed, or the program has many files open
		for ( int fd : { 0, FD_SETSIZE - 1, FD_SETSIZE, 100000 } ) {
			add( "populated files, first descriptor " + std::to_string( fd ), { 2, true, false, files, pre }, 0 );
			s.back().config = [fd] { K.firstFd = fd; };
		}
		// the same with preemptions of the watcher thread against each operation
		add( "files recursive, preempted", { thorough ? 3 : 2, true, false, files, pre }, thorough ? 2 : 1 );
		add( "dirs recursive, preempted", { thorough ? 3 : 2, true, false, dirs, pre }, thorough ? 2 : 1 );
		inLargeSystem( s, { "populated files", "populated recursive", "open files, meta data, links" } );
		return s;
	} );
}
