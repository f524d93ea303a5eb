// C03: a recursive watch covers every directory of the tree, whatever happened before (native backend).
#include "scale.hpp"
using namespace hs;
using namespace mc;

struct Cfg {
	int depth;
	bool synthetic, burst, split, reuse;
	Universe u;
	std::vector<FsOp> pre;
};
static bool readable( const std::string& d ) {
	Stat st;
	return !K.uid || !fs::stat( d, st ) || ( st.mode & 0400 );
}
static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "o" ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r;
	Watcher w;
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	long id = w->addWatch( R( "w" ), &r, true, opt );
	check( id > 0, "addWatch failed" );
	w->watch();
	settle( 1 );
	std::string hist;
	for ( int i = 0; i < c.depth; i++ ) {
		FsOp o = chooseOp( c.u );
		if ( i && c.burst )
			schedPoint( "between two operations", nullptr, true );
		check( perform( o ) == 0, "harness: " + o.str() );
		hist += ( hist.empty() ? "" : "; " ) + o.str();
		if ( !c.burst )
			settle( 1 );
	}
	settle( 2 );
	// probe: a file in every directory, written and deleted again
	Tree t = fs::tree( R( "w" ) );
	t[R( "w" )] = 'd';
	for ( auto& x : t )
		if ( x.second == 'd' && readable( x.first ) ) {
			size_t n = r.evs.size();
			std::string f = x.first + "/probe";
			check( fs::create( f ) == 0, "harness: probe" );
			settle( 1 );
			FsOp o{ OpK::Create, f.substr( R().size() + 1 ), "" };
			WatchCfg wc;
			wc.root = "w";
			wc.id = id;
			Expect e = expected( o, wc, t );
			compare( hist + "; then create " + rel( f ), wc, e, r.evs, n );
			n = r.evs.size();
			fs::unlink( f );
			settle( 1 );
			o.k = OpK::Unlink;
			compare( hist + "; then unlink " + rel( f ), wc, expected( o, wc, t ), r.evs, n );
		}
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C03", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.realConformance = !c.split;
			x.body = [c] { body( c ); };
			x.config = [c] {
				K.splitRename = c.split;
				K.reuseInodes = c.reuse;
			};
			s.push_back( x );
		};
		int T = thorough ? 1 : 0;
		Universe dirs;
		dirs.dirs = { "w/d", "w/dd", "w/d/dd", "w/dd/dd", "o/d" };
		Universe names = dirs;
		names.dirs = { "w/d", "w/dd", "w/f", "w/d/dd", "w/dd/f" };
		Universe mix = dirs;
		mix.dirs = { "w/d", "w/dd", "w/d/dd", "o/d" };
		mix.files = { "w/d", "w/dd" };
		mix.write = false;
		std::vector<FsOp> pre = { { OpK::Mkdir, "w/d", "", true },
								  { OpK::Mkdir, "w/d/dd", "", true },
								  { OpK::Mkdir, "o/d", "", true },
								  { OpK::Mkdir, "o/d/x", "", true },
								  { OpK::Mkdir, "o/d/x/y", "", true } };
		Universe deep = dirs;
		deep.rmtree = true;
		deep.dirs = { "w/d", "w/dd", "w/d/dd", "w/d/x", "o/d" };
		add( "step by step", { 5 + T, false, false, false, false, dirs, {} }, 0 );
		add( "step by step, populated", { 4 + T, false, false, false, false, deep, pre }, 0 );
		add( "burst", { 5 + T, false, true, false, false, dirs, {} }, 0 );
		add( "burst, populated", { 4 + T, false, true, false, false, deep, pre }, 0 );
		add( "burst, populated, synthetic", { 4 + T, true, true, false, false, deep, pre }, 0 );
		add( "burst, inode numbers reused", { 4 + T, false, true, false, true, names, {} }, 0 );
		add( "burst, large inode numbers", { 4 + T, false, true, false, false, names, {} }, 0 );
		s.back().config = [] { K.inoLow = 7; };
		add( "burst, preempted", { 3 + T, false, true, false, false, dirs, {} }, 1 );
		add( "burst, populated, preempted", { 2 + T, false, true, false, false, deep, pre }, 1 );
		add( "burst, halves of a rename read apart", { 3 + T, true, true, true, false, deep, {} }, 1 );
		add( "files and directories of the same name", { 4 + T, false, true, false, false, mix, {} }, 0 );
		mix.special = true;
		mix.create = false;
		add( "sockets and directories of the same name", { 4 + T, false, true, false, false, mix, {} }, 0 );
		// directories next to, before and after entries that are not watched: links, files, unreadable directories
		std::vector<FsOp> odd = { { OpK::Mkdir, "w/d", "", true },		{ OpK::Mkdir, "w/z", "", true },	{ OpK::Mkdir, "w/d/dd", "", true },
								  { OpK::Mkdir, "o/d", "", true },		{ OpK::Mkdir, "o/d/x", "", true },	{ OpK::Mkdir, "o/d/x/y", "", true } };
		for ( const char* d : { "w/", "w/d/", "o/d/", "o/d/x/" } ) {
			odd.push_back( { OpK::Create, d + std::string( "1" ), "" } );
			odd.push_back( { OpK::Symlink, d + std::string( "2" ), R( "o" ) } );
			odd.push_back( { OpK::Symlink, d + std::string( "3" ), "nowhere" } );
			odd.push_back( { OpK::Symlink, d + std::string( "4" ), "." } );
			odd.push_back( { OpK::Mkdir, d + std::string( "5" ), "", true } );
		}
		add( "next to entries that are not watched", { 3 + T, true, false, false, false, deep, odd }, 0 );
		add( "next to entries that are not watched, burst", { 3 + T, true, true, false, false, deep, odd }, 0 );
		for ( size_t i = odd.size(); i--; )
			if ( odd[i].k == OpK::Mkdir && odd[i].a.back() == '5' )
				odd.insert( odd.begin() + i + 1, { OpK::Chmod, odd[i].a, "300", true } );
		add( "next to directories that can't be read", { 3 + T, true, true, false, false, deep, odd }, 0 );
		s.back().realConformance = false;
		s.back().config = [] { K.uid = 1000; };
		if ( thorough )
			add( "burst, preempted twice", { 3, false, true, false, false, dirs, {} }, 2 );
		for ( bool after : { false, true } )
			for ( bool syn : { false, true } )
				addBigTrees( s, false, after, syn );
		inLargeSystem( s, { "step by step, populated", "burst, populated, synthetic" } );
		return s;
	} );
}
