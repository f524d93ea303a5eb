// C09: the API may be used from several threads while events are delivered (both backends).
#include "oracle.hpp"
using namespace hs;
using namespace mc;

enum ApiK { AddW, AddV, AddMissing, RemoveFirst, RemoveOwn, RemovePathW, Directories, ErrorLog };
static const char* apiName( int k ) {
	static const char* n[] = { "addWatch(w)",	 "addWatch(v)",		"addWatch(missing)", "removeWatch(first)",
							   "removeWatch(own)", "removeWatch(\"w\")", "directories()",	   "getLastErrorLog()" };
	return n[k];
}
struct Call {
	int k, tid;
	int t0 = 0, t1 = 0;
	long arg = 0, res = 0;
	std::vector<std::string> dirs;
};
struct Cfg {
	bool generic;
	int threads, calls, ops;
	std::vector<int> api;
	Universe u;
	bool started = true;
};

// is there an order of the calls, consistent with their real-time order, that explains all results?
struct Lin {
	std::vector<Call> c;
	std::map<std::string, long> fin;
	std::vector<bool> used;
	bool go( std::map<std::string, long> st, size_t n ) {
		if ( n == c.size() )
			return st == fin;
		int minRet = 1 << 30;
		for ( size_t i = 0; i < c.size(); i++ )
			if ( !used[i] )
				minRet = std::min( minRet, c[i].t1 );
		for ( size_t i = 0; i < c.size(); i++ ) {
			if ( used[i] || c[i].t0 > minRet )
				continue;
			std::map<std::string, long> s2 = st;
			const Call& x = c[i];
			bool ok = true;
			std::string d = R( x.k == AddV ? "v/" : "w/" );
			switch ( x.k ) {
				case AddW:
				case AddV:
					if ( s2.count( d ) )
						ok = x.res == efsw::Errors::FileRepeated;
					else {
						ok = x.res > 0;
						s2[d] = x.res;
					}
					break;
				case AddMissing:
					ok = x.res == efsw::Errors::FileNotFound;
					break;
				case RemoveFirst:
				case RemoveOwn:
					for ( auto it = s2.begin(); it != s2.end(); ++it )
						if ( it->second == x.arg ) {
							s2.erase( it );
							break;
						}
					break;
				case RemovePathW:
					s2.erase( R( "w/" ) );
					break;
				case Directories: {
					std::vector<std::string> v;
					for ( auto& p : s2 )
						v.push_back( p.first );
					ok = v == x.dirs;
					break;
				}
				default:
					break;
			}
			if ( !ok )
				continue;
			used[i] = true;
			if ( go( s2, n + 1 ) )
				return true;
			used[i] = false;
		}
		return false;
	}
};

static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "w/d" ) );
	fs::create( R( "w/a" ) );
	fs::mkdir( R( "v" ) );
	Recorder r;
	r.muteModified = c.generic;
	r.mute = true;
	int running = 0;
	r.hook = [&]( const Ev& ) {
		check( ++running == 1, "two callbacks at the same time" );
		mc::schedPoint( "end of callback" );
		running--;
	};
	Watcher w( c.generic );
	long first = w->addWatch( R( "w" ), &r, true );
	check( first > 0, "addWatch failed" );
	if ( c.started )
		w->watch();
	settle( 1 );
	int clock = 0;
	std::vector<Call> calls;
	std::map<std::string, long> initial{ { R( "w/" ), first } };
	auto run = [&]( int me ) {
		long own = 0;
		for ( int i = 0; i < c.calls; i++ ) {
			Call x;
			x.k = c.api[choose( (int)c.api.size(), 0, CK::Op, "API call" )];
			x.tid = me;
			x.t0 = ++clock;
			switch ( x.k ) {
				case AddW:
				case AddV:
					x.res = w->addWatch( R( x.k == AddV ? "v" : "w" ), &r, true );
					if ( x.res > 0 )
						own = x.res;
					break;
				case AddMissing:
					x.res = w->addWatch( R( "missing" ), &r, true );
					break;
				case RemoveFirst:
				case RemoveOwn:
					x.arg = x.k == RemoveOwn ? own : first;
					if ( x.arg > 0 )
						w->removeWatch( x.arg );
					break;
				case RemovePathW:
					w->removeWatch( R( "w/" ) );
					break;
				case Directories:
					for ( auto& d : w->directories() )
						x.dirs.push_back( Recorder::copy( d ) );
					std::sort( x.dirs.begin(), x.dirs.end() );
					break;
				case ErrorLog: {
					std::string s = efsw::Errors::Log::getLastErrorLog();
					Recorder::copy( s );
					efsw::Errors::Log::getLastErrorCode();
					efsw::Errors::Log::clearLastError();
					break;
				}
			}
			x.t1 = ++clock;
			Host h;
			calls.push_back( x );
			if ( i + 1 < c.calls )
				schedPoint( "between two calls", nullptr, true );
		}
	};
	std::vector<int> th;
	for ( int i = 1; i < c.threads; i++ )
		th.push_back( spawn( "user", [&, i] { run( i ); } ) );
	for ( int i = 0; i < c.ops; i++ ) {
		FsOp o = chooseOp( c.u );
		check( perform( o ) == 0, "harness: " + o.str() );
		schedPoint( "after an operation", nullptr, true );
	}
	if ( c.generic )
		advanceClock( 1000000000ll );
	schedPoint( "main starts", nullptr, true );
	run( 0 );
	for ( int t : th )
		joinThread( t );
	settle( 2 );
	// the final registry, and who reports
	std::map<std::string, long> fin;
	std::vector<std::string> dirs;
	for ( auto& d : w->directories() )
		dirs.push_back( Recorder::copy( d ) );
	std::string hist;
	for ( auto& x : calls )
		hist += " [" + std::to_string( x.t0 ) + "-" + std::to_string( x.t1 ) + "] " + apiName( x.k ) + "=" +
				std::to_string( x.res );
	bool live = c.started;
	for ( const char* n : { "w", "v" } ) {
		size_t k = r.evs.size();
		fs::create( R( n ) + "/probe" );
		settle( 2 );
		long id = 0;
		for ( ; live && k < r.evs.size(); k++ )
			if ( r.evs[k].action == efsw::Actions::Add ) {
				check( !id && r.evs[k].dir == R( n ) + "/", "a change is reported twice after" + hist );
				id = r.evs[k].id;
			}
		bool listed = std::count( dirs.begin(), dirs.end(), R( n ) + "/" ) == 1;
		check( !live || listed == ( id > 0 ),
			   std::string( "directories() doesn't tell what is watched (" ) + n + ") after" + hist );
		if ( listed )
			fin[R( n ) + "/"] = id;
	}
	check( fin.size() == dirs.size(), "directories() lists something else after" + hist );
	if ( live ) {
		Lin l;
		l.c = calls;
		l.fin = fin;
		l.used.assign( calls.size(), false );
		check( l.go( initial, 0 ), "no order of the calls explains their results:" + hist + "; final " +
									   std::to_string( fin.size() ) + " watches" );
	}
	std::string o;
	for ( auto& d : fin )
		o += rel( d.first ) + " ";
	observe( "final " + o );
	w.destroy();
	// the last error is kept by the library
	efsw::Errors::Log::clearLastError();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C09", []( bool thorough ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			x.body = [c] { body( c ); };
			s.push_back( x );
		};
		int T = thorough ? 1 : 0;
		Universe u;
		u.files = { "w/a", "w/d/x", "v/a" };
		u.dirs = { "w/dd" };
		Universe few = u;
		few.files = { "w/a" };
		few.rename = false;
		std::vector<int> all{ AddW, AddV, AddMissing, RemoveFirst, RemoveOwn, RemovePathW, Directories, ErrorLog };
		std::vector<int> core{ AddW, AddV, RemoveFirst, Directories };
		std::vector<int> few3{ AddV, RemoveFirst, Directories };
		for ( bool g : { false, true } ) {
			std::string p = g ? "generic: " : "inotify: ";
			add( p + "two threads, two calls", { g, 2, 2, 0, T || !g ? all : core, {} }, 0 + T );
			add( p + "two threads, one call, events", { g, 2, 1, 1, all, T ? u : few }, 1 );
			add( p + "two threads, one call, one event, two preemptions", { g, 2, 1, 1, core, few }, 1 + T );
			add( p + "one thread, one call, events", { g, 1, 1, 2, all, few }, 1 + T );
			add( p + "three threads", { g, 3, 1, 0, T || !g ? core : few3, {} }, 1 + T );
			add( p + "three threads, not watching", { g, 3, 1, 0, all, {}, false }, 0 + T );
		}
		return s;
	} );
}
