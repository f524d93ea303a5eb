// C04: nothing outside the scope of a watch is reported or stays watched (both backends).
#include "oracle.hpp"
using namespace hs;
using namespace mc;

struct Cfg {
	int depth;
	bool recursive, generic, synthetic, burst, split, reuse;
	Universe u;
	std::vector<FsOp> pre;
};
static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "o" ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r;
	r.muteModified = c.generic;
	Watcher w( c.generic );
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	long id = w->addWatch( R( "w" ), &r, c.recursive, opt );
	check( id > 0, "addWatch failed" );
	w->watch();
	settle( 1 );
	std::string hist;
	for ( int i = 0; i < c.depth; i++ ) {
		FsOp o = chooseOp( c.u );
		if ( i && c.burst )
			schedPoint( "between two operations", nullptr, true );
		check( perform( o ) == 0, "harness: " + o.str() );
		hist += ( hist.empty() ? "" : "; " ) + o.str();
		if ( !c.burst )
			settle( c.generic ? 2 : 1 );
	}
	settle( 2 );
	WatchCfg wc;
	wc.root = "w";
	wc.recursive = c.recursive;
	for ( auto& e : r.evs ) {
		check( e.id == id, "event with another watch id: " + e.str() );
		std::string d = e.dir.compare( 0, R().size() + 1, R() + "/" ) == 0 ? e.dir.substr( R().size() + 1 ) : "?";
		check( d.size() && d.back() == '/', "malformed directory: " + e.str() );
		d.pop_back();
		check( wc.covers( d ), "event out of the scope of the watch: " + e.str() + " after [" + hist + "]" );
		check( e.file.find( '/' ) == std::string::npos && !e.file.empty(), "malformed file name: " + e.str() );
	}
	// changes in every directory out of the scope are silent
	Tree t = fs::tree( R() );
	std::set<std::string> in;
	in.insert( R( "w" ) );
	for ( auto& x : t )
		if ( x.second == 'd' ) {
			std::string p = x.first.substr( R().size() + 1 );
			if ( wc.covers( p ) ) {
				in.insert( x.first );
				continue;
			}
			size_t n = r.evs.size();
			check( fs::create( x.first + "/probe" ) == 0, "harness: probe" );
			fs::mkdir( x.first + "/probed" );
			settle( 1 );
			for ( size_t k = n; k < r.evs.size(); k++ ) // only the directory holding it may be modified
				check( c.generic && r.evs[k].action == efsw::Actions::Modified && parentDir( p ) == "w",
					   "a change in " + rel( x.first ) + ", out of the scope, is reported after [" + hist +
						   "]: " + listEvs( r.evs, n ) );
			fs::unlink( x.first + "/probe" );
			fs::rmdir( x.first + "/probed" );
			settle( 1 );
		}
	if ( !c.generic )
		for ( auto& p : inotifyWatchedPaths() )
			check( in.count( p ), rel( p ) + " is out of the scope but still watched after [" + hist + "]" );
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C04", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.realConformance = !c.split && !bound && !c.reuse;
			x.body = [c] { body( c ); };
			x.config = [c] {
				K.splitRename = c.split;
				K.reuseInodes = c.reuse;
			};
			s.push_back( x );
		};
		int T = thorough ? 1 : 0;
		Universe dirs;
		dirs.dirs = { "w/d", "w/dd", "w/d/dd", "o/d", "o/dd" };
		Universe deep = dirs;
		deep.rmtree = true;
		deep.dirs = { "w/d", "w/dd", "w/d/dd", "w/d/x", "o/d" };
		Universe files = dirs;
		files.files = { "w/a", "w/d/a", "o/a" };
		files.dirs = { "w/d" };
		std::vector<FsOp> pre = { { OpK::Mkdir, "w/d", "", true },
								  { OpK::Mkdir, "w/d/dd", "", true },
								  { OpK::Mkdir, "w/d/dd/f", "", true },
								  { OpK::Mkdir, "o/d", "", true },
								  { OpK::Mkdir, "o/d/x", "", true },
								  { OpK::Create, "o/d/x/y", "" } };
		add( "step by step", { 4 + T, true, false, false, false, false, false, dirs, {} }, 0 );
		add( "step by step, populated", { 4 + T, true, false, true, false, false, false, deep, pre }, 0 );
		add( "flat", { 4 + T, false, false, true, false, false, false, deep, pre }, 0 );
		add( "flat, files", { 4 + T, false, false, false, true, false, false, files, pre }, 0 );
		add( "burst", { 4 + T, true, false, false, true, false, false, dirs, {} }, 0 );
		add( "burst, populated", { 4 + T, true, false, true, true, false, false, deep, pre }, 0 );
		add( "burst, preempted", { 3, true, false, false, true, false, false, dirs, {} }, 1 + T );
		add( "burst, populated, preempted", { 2 + T, true, false, true, true, false, false, deep, pre }, 1 );
		add( "burst, halves of a rename read apart", { 3, true, false, false, true, true, false, deep, pre }, 1 );
		add( "burst, inode numbers reused", { 4, true, false, false, true, false, true, dirs, {} }, 0 );
		add( "generic", { 3 + T, true, true, false, false, false, false, deep, pre }, 0 );
		add( "generic, flat", { 4 + T, false, true, false, false, false, false, dirs, {} }, 0 );
		add( "generic, flat, populated", { 3 + T, false, true, false, false, false, false, deep, pre }, 0 );
		add( "generic, flat, files", { 3 + T, false, true, false, false, false, false, files, pre }, 0 );
		add( "generic, burst", { 4, true, true, false, true, false, false, deep, pre }, 0 );
		inLargeSystem( s, { "step by step, populated", "burst, populated", "generic", "generic, flat, files" } );
		return s;
	} );
}
