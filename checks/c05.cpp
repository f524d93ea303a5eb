// C05: the polling backend converges: the events describe the content of the tree.
#include "scale.hpp"
using namespace hs;
using namespace mc;

struct Cfg {
	int depth;
	unsigned freq;
	bool reuse;
	int during;
	Universe u;
	std::vector<FsOp> pre;
};
static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "o" ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	Recorder r;
	r.muteModified = true;
	Watcher w( true, c.freq );
	Mirror m = Mirror::of( R( "w" ), false );
	long id = w->addWatch( R( "w" ), &r, true );
	check( id > 0, "addWatch failed" );
	w->watch();
	settle( 1 );
	std::string hist;
	for ( int i = 0; i < c.depth; i++ ) {
		FsOp o = chooseOp( c.u );
		check( perform( o ) == 0, "harness: " + o.str() );
		hist += ( i ? "; " : "" ) + o.str();
		if ( i + 1 < c.depth && choose( 2, 0, CK::Env, "poll now" ) ) {
			if ( c.during ) { // the next operations may happen in the middle of this poll
				advanceClock( c.freq * 1000000ll );
				schedPoint( "poll starts", nullptr, true );
			} else
				settle( 1 );
			hist += " [poll]";
		}
	}
	if ( c.u.perm ) { // all can be read again
		settle( 2 );
		for ( auto& x : fs::tree( R( "w" ) ) )
			if ( x.second == 'd' )
				fs::chmod( x.first, 0755 );
	}
	settle( 3 );
	std::string bad;
	for ( auto& e : r.evs ) {
		check( e.id == id, "event with another watch id: " + e.str() );
		m.apply( e );
	}
	std::string d = m.diff( Mirror::of( R( "w" ), false ) );
	check( d.empty(), "content known from the events differs:" + d + " after [" + hist + "]; reported " +
						  listEvs( r.evs ) );
	// and the watcher is up to date: every directory is watched
	Tree t = fs::tree( R( "w" ) );
	t[R( "w" )] = 'd';
	for ( auto& x : t )
		if ( x.second == 'd' ) {
			size_t n = r.evs.size();
			check( fs::create( x.first + "/probe" ) == 0, "harness: probe" );
			settle( 2 );
			int adds = 0;
			for ( size_t k = n; k < r.evs.size(); k++ )
				if ( r.evs[k].file == "probe" && !( adds && r.evs[k].action == efsw::Actions::Modified ) ) {
					check( r.evs[k].action == efsw::Actions::Add && r.evs[k].dir == x.first + "/" && !adds++,
						   "a file created in " + rel( x.first ) + " is reported wrongly after [" + hist +
							   "]: " + listEvs( r.evs, n ) );
				}
			check( adds == 1, "a file created in " + rel( x.first ) + " is not reported after [" + hist +
								  "]; reported " + listEvs( r.evs ) );
			fs::unlink( x.first + "/probe" );
			settle( 1 );
		}
	w.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C05", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.realConformance = !bound && !c.reuse;
			x.body = [c] { body( c ); };
			x.config = [c] { K.reuseInodes = c.reuse; };
			s.push_back( x );
		};
		int T = thorough ? 1 : 0;
		Universe files;
		files.files = { "w/a", "w/aa", "w/d/a", "o/a" };
		files.dirs = { "w/d" };
		files.write = false;
		Universe dirs;
		dirs.files = { "w/d/x", "w/dd/x" };
		dirs.dirs = { "w/d", "w/dd", "w/d/dd", "o/d" };
		dirs.write = false;
		dirs.rmtree = true;
		Universe fewFiles = files, fewDirs = dirs;
		fewFiles.files = { "w/a", "w/aa", "o/a" };
		fewFiles.dirs = {};
		fewDirs.files = {};
		fewDirs.dirs = { "w/d", "w/dd", "o/d" };
		Universe mix; // the same names as files and directories
		mix.files = { "w/d", "w/dd", "w/d/dd" };
		mix.dirs = { "w/d", "w/dd", "w/d/dd" };
		mix.write = false;
		mix.rmtree = true;
		std::vector<FsOp> pre = { { OpK::Mkdir, "w/d", "", true }, { OpK::Mkdir, "w/d/dd", "", true },
								  { OpK::Create, "w/d/dd/x", "" },  { OpK::Mkdir, "o/d", "", true },
								  { OpK::Create, "o/d/x", "" },	   { OpK::Create, "w/a", "" } };
		Universe deep = dirs; // three levels
		deep.files = { "w/d/dd/f/x" };
		deep.dirs = { "w/d", "w/dd", "o/d", "w/d/dd" };
		deep.create = deep.mkdir = false;
		std::vector<FsOp> tree = { { OpK::Mkdir, "w/d", "", true },		 { OpK::Mkdir, "w/d/dd", "", true },
								   { OpK::Mkdir, "w/d/dd/f", "", true }, { OpK::Create, "w/d/dd/f/x", "" },
								   { OpK::Mkdir, "o/d", "", true },		 { OpK::Mkdir, "o/d/dd", "", true },
								   { OpK::Mkdir, "o/d/dd/f", "", true }, { OpK::Create, "o/d/dd/f/x", "" } };
		Universe sock = mix;
		sock.special = true;
		sock.files.pop_back();
		sock.dirs.pop_back();
		add( "sockets, files and directories", { 4 + T, 1000, false, 0, sock, {} }, 0 );
		add( "sockets, files and directories, inode numbers reused", { 4 + T, 1000, true, 0, sock, {} }, 0 );
		add( "sockets, files and directories, during a poll", { 3 + T, 1000, false, 1, sock, {} }, 1 );
		add( "three levels", { 3 + T, 1000, false, 0, deep, tree }, 0 );
		Universe wide = deep; // two directories in one that moves
		wide.files = { "w/d/f/x" };
		wide.dirs = { "w/d", "o/d", "w/d/dd", "w/d/f" };
		add( "two sub directories", { 3 + T, 1000, false, 0, wide,
									  { { OpK::Mkdir, "w/d", "", true }, { OpK::Mkdir, "w/d/dd", "", true }, { OpK::Create, "w/d/dd/x", "" },
										{ OpK::Mkdir, "w/d/f", "", true }, { OpK::Create, "w/d/f/x", "" }, { OpK::Create, "w/d/f/y", "" } } }, 0 );
		Universe perm = dirs;
		perm.perm = true;
		perm.files = { "w/d/x", "w/d/dd/x" };
		perm.dirs = { "w/d", "w/dd", "w/d/dd" };
		for ( bool pop : { false, true } ) {
			add( pop ? "populated directories that can't be read for a while" : "directories that can't be read for a while",
				 { 4 - pop + T, 1000, false, 0, perm, pop ? pre : std::vector<FsOp>() }, 0 );
			s.back().realConformance = false;
			s.back().config = [] { K.uid = 1000; };
		}
		Universe deepMoves = deep;
		deepMoves.files = {};
		deepMoves.dirs = { "w/d", "w/dd", "o/d" };
		add( "three levels, during a poll", { 2 + T, 1000, false, 1, deepMoves, tree }, 1 );
		add( "directories, large inode numbers", { 3 + T, 1000, false, 0, dirs, pre }, 0 );
		s.back().config = [] { K.inoLow = 7; };
		add( "files, large inode numbers", { 3 + T, 1000, false, 0, files, pre }, 0 );
		s.back().config = [] { K.inoLow = 7; };
		for ( unsigned freq : { 1000u, 100u } ) {
			std::string f = freq == 1000 ? "" : ", polled within a second";
			add( "files" + f, { 3 + T, freq, false, 0, files, pre }, 0 );
			add( "directories" + f, { 3 + T, freq, false, 0, dirs, pre }, 0 );
			add( "directories, empty start" + f, { 4 + T, freq, false, 0, dirs, {} }, 0 );
			add( "names change type" + f, { 4 + T, freq, false, 0, mix, {} }, 0 );
			add( "names change type, inode numbers reused" + f, { 4 + T, freq, true, 0, mix, {} }, 0 );
			add( "directories, inode numbers reused" + f, { 3 + T, freq, true, 0, dirs, pre }, 0 );
			if ( freq == 1000 || thorough ) {
				add( "few files, during a poll" + f, { 3, freq, false, 1, fewFiles, pre }, 1 );
				add( "few directories, during a poll" + f, { 3, freq, false, 1, fewDirs, pre }, 1 );
				add( "names change type, during a poll" + f, { 3, freq, false, 1, mix, {} }, 1 );
			}
			if ( thorough ) {
				add( "files, during a poll" + f, { 3, freq, false, 1, files, pre }, 1 );
				add( "directories, during a poll" + f, { 3, freq, false, 1, dirs, pre }, 1 );
			}
		}
		if ( thorough ) {
			add( "directories, during polls", { 3, 1000, false, 1, dirs, pre }, 2 );
			add( "names change type, during polls", { 3, 1000, true, 1, mix, {} }, 2 );
		}
		addBigTrees( s, true, true, false );
		inLargeSystem( s, { "files", "directories, empty start", "names change type" } );
		return s;
	} );
}
