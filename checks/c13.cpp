// C13: a failing system call does no more harm than it has to (both backends).
#include "oracle.hpp"
using namespace hs;
using namespace mc;

struct Cfg {
	bool generic, synthetic;
	int faults, ops;
	std::set<std::string> calls;
	Universe u;
	bool remove = false;
};

static void body( const Cfg& c ) {
	for ( const char* d : { "w", "w/d", "w/d/dd", "v", "o" } )
		fs::mkdir( R( d ) );
	fs::create( R( "w/a" ) );
	fs::create( R( "w/d/x" ) );
	fs::create( R( "o/a" ) );
	Recorder r;
	r.muteModified = true;
	std::string cwd = fs::cwd();
	int fds = openSimFds();
	Watcher w( c.generic );
	bool generic = c.generic;
	if ( !generic && openSimFds() == fds ) {
		check( std::string( lastFault() ) == "inotify_init", "no native backend although inotify works" );
		generic = true; // fell back to polling
	}
	int rounds = generic ? 2 * c.faults + 3 : c.faults + 2;
	Mirror m = Mirror::of( R( "w" ) );
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	long id[2] = { 0, 0 };
	const char* root[2] = { "w", "v" };
	auto listed = [&]( const std::string& d ) {
		for ( auto& x : w->directories() )
			if ( x == d )
				return true;
		return false;
	};
	for ( int i = 0; i < 2; i++ ) {
		for ( int tries = 0;; tries++ ) {
			efsw::Errors::Log::clearLastError();
			id[i] = w->addWatch( R( root[i] ), &r, i == 0, opt );
			Host h;
			if ( id[i] > 0 )
				break;
			std::string f = lastFault();
			check( !f.empty(), "addWatch() failed although no call did" );
			check( tries < c.faults, "addWatch() still fails with " + std::to_string( id[i] ) + " after " + f + "() works again" );
			check( id[i] < 0 && id[i] >= efsw::Errors::Unspecified, "addWatch() returned no error code: " + std::to_string( id[i] ) );
			--g_host;
			bool l = listed( R( root[i] ) + "/" );
			int code = efsw::Errors::Log::getLastErrorCode();
			bool text = !efsw::Errors::Log::getLastErrorLog().empty();
			++g_host;
			check( !l, "addWatch() failed because of " + f + "() but the directory is listed" );
			check( code == id[i] && text, "the error of addWatch() is not the last error, " + f + "() failed" );
		}
		check( listed( R( root[i] ) + "/" ), "a watch that was added is not listed" );
	}
	check( id[0] != id[1], "two watches have the same id" );
	check( fs::cwd() == cwd, std::string( "the working directory changed when " ) + lastFault() + "() failed" );
	w->watch();
	settle( rounds );
	std::string hist;
	for ( int i = 0; i < c.ops; i++ ) {
		Tree before = snapshotTree();
		FsOp o = chooseOp( c.u );
		size_t from = r.evs.size();
		check( perform( o ) == 0, "harness: " + o.str() );
		settle( rounds );
		Host h;
		hist += o.str() + "; ";
		std::string f = lastFault();
		for ( int k = 0; k < 2; k++ ) {
			WatchCfg wc;
			wc.root = root[k];
			wc.recursive = k == 0;
			wc.synthetic = c.synthetic;
			wc.generic = generic;
			wc.id = id[k];
			Expect e = expected( o, wc, before );
			bool exact = f.empty() || f == "read" || f == "select" || f == "inotify_rm_watch" || f == "inotify_init";
			if ( generic && !exact )
				continue; // see the mirror
			if ( !exact )
				for ( auto& x : e.r ) {
					if ( x.dir != root[k] )
						x.lo = 0; // this directory may be lost, but not others
					if ( x.action == efsw::Actions::Add || x.action == efsw::Actions::Delete )
						x.hi = 2; // found again
				}
			// directories that could not be watched before may report their content now
			std::vector<Ev> evs;
			for ( size_t j = from; j < r.evs.size(); j++ ) {
				const Ev& v = r.evs[j];
				bool rule = false;
				for ( auto& x : e.r )
					rule |= x.action == v.action && R( x.dir ) + "/" == v.dir && x.file == v.file;
				if ( exact || rule || v.action != efsw::Actions::Add || !before.count( v.path() ) )
					evs.push_back( v );
			}
			compare( hist + ( f.empty() ? "" : " with " + f + "() failing once" ), wc, e, evs, 0 );
		}
	}
	settle( rounds );
	K.faultCost = -1; // everything works again
	settle( 3 );
	if ( generic ) {
		for ( auto& e : r.evs )
			if ( e.id == id[0] )
				m.apply( e );
		std::string d = m.diff( Mirror::of( R( "w" ) ) );
		check( d.empty(), "content known from the events differs:" + d + " after [" + hist + "] with " + lastFault() +
							  "() failing; reported " + listEvs( r.evs ) );
	}
	if ( c.remove ) {
		w->removeWatch( id[0] );
		check( !listed( R( "w/" ) ), "a removed watch is listed" );
		size_t from = r.evs.size();
		fs::create( R( "w/late" ) );
		fs::create( R( "v/late" ) );
		settle( rounds );
		bool other = false;
		for ( size_t i = from; i < r.evs.size(); i++ ) {
			check( r.evs[i].id != id[0], "callback of a removed watch: " + r.evs[i].str() );
			other |= r.evs[i].id == id[1] && r.evs[i].file == "late" && r.evs[i].action == efsw::Actions::Add;
		}
		check( other, std::string( "the other watch is silent after the removal of one, " ) + lastFault() + "() failed" );
	}
	check( fs::cwd() == cwd, std::string( "the working directory changed when " ) + lastFault() + "() failed" );
	w.destroy();
	checkReleased();
	check( openMntCount() == 0, "a mount table is still open" );
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C13", []( bool th ) {
		std::vector<Scenario> v;
		auto add = [&]( const std::string& name, Cfg c, int bound ) {
			Scenario s;
			s.name = name;
			s.bound = bound;
			s.body = [c]() { body( c ); };
			s.config = [c]() {
				K.faultCost = 1;
				K.faultCalls = c.calls;
			};
			v.push_back( s );
		};
		Universe u;
		u.files = { "w/aa", "w/d/x", "v/aa" };
		u.dirs = { "w/n", "w/d/dd" };
		Universe f;
		f.files = { "w/a", "w/aa", "w/d/x", "v/aa" };
		f.write = false;
		int F = th ? 2 : 1;
		std::set<std::string> all = { "inotify_add_watch", "inotify_rm_watch", "opendir", "stat", "lstat", "realpath", "statfs" };
		add( "inotify, loop", { false, false, F, 3, { "read", "select" }, f, false }, F );
		add( "inotify, all", { false, true, F, 2, all, u, true }, F );
		add( "inotify, all, no synthetic events", { false, false, F, 2, all, u, false }, F );
		add( "fall back", { false, false, F, 2, { "inotify_init" }, u, true }, F );
		add( "generic, all", { true, false, F, 2, { "opendir", "stat", "lstat", "realpath", "statfs" }, u, true }, F );
		add( "generic, files", { true, false, F, 2, { "opendir", "stat", "lstat" }, f, false }, F );
		return v;
	} );
}
