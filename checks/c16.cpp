// C16: the C interface behaves as the C++ interface: same ids and codes, same error texts, same events
// with the parameter and the missed-actions handler of the watch, usable until efsw_release() returned.
#include "world.hpp"
#include <cstring>
#include <efsw/efsw.h>
using namespace hs;
using namespace mc;

// everything a callback was told; `who` identifies function, parameter and missed-actions handler
struct Told {
	int fn;
	void* param;
	efsw_watcher watcher;
	Ev e;
};
static std::vector<Told>* g_told;
static std::function<void( const Told& )>* g_hook;

static std::string cstr( const char* s ) {
	check( s != nullptr, "null string in a callback" );
	size_t n = strlen( s );
	checkRead( s, n + 1 );
	return std::string( s, n );
}
static void tell( int fn, efsw_watcher w, efsw_watchid id, const char* dir, const char* file, int action,
				  const char* old, void* param ) {
	mc::schedPoint( "C callback" );
	Told t;
	t.fn = fn;
	t.param = param;
	t.watcher = w;
	t.e.id = id;
	t.e.dir = cstr( dir );
	t.e.file = cstr( file );
	t.e.old = cstr( old );
	t.e.action = action;
	{
		Host h;
		mc::observe( "C" + std::to_string( fn ) + ": " + t.e.str() );
		g_told->push_back( t );
	}
	if ( g_hook )
		( *g_hook )( t );
}
static void f1( efsw_watcher w, efsw_watchid id, const char* dir, const char* file, enum efsw_action a,
				const char* old, void* p ) {
	tell( 1, w, id, dir, file, a, old, p );
}
static void f2( efsw_watcher w, efsw_watchid id, const char* dir, const char* file, enum efsw_action a,
				const char* old, void* p ) {
	tell( 2, w, id, dir, file, a, old, p );
}
static void m1( efsw_watcher w, efsw_watchid id, const char* dir ) { tell( 11, w, id, dir, "", -1, "", nullptr ); }
static void m2( efsw_watcher w, efsw_watchid id, const char* dir ) { tell( 12, w, id, dir, "", -1, "", nullptr ); }

static int P1, P2;
struct Cb { // callback, parameter, missed-actions handler
	int fn;
	void* param;
	int missed;
	efsw_pfn_fileaction_callback f() const { return fn == 1 ? f1 : f2; }
	efsw_pfn_handle_missed_fileactions m() const { return missed == 1 ? m1 : missed == 2 ? m2 : nullptr; }
};
struct Add {
	const char* dir;
	Cb cb;
	int recursive;
	int options; // 0: efsw_addwatch, 1: with no options, 2: synthetic events on, 3: off, 4: several
};
static const Add ADDS[] = {
	{ "w", { 1, &P1, 0 }, 1, 0 }, { "v", { 1, &P1, 0 }, 0, 0 },	  { "v", { 1, &P2, 1 }, 1, 1 },
	{ "w/", { 1, &P1, 2 }, 1, 2 }, { "v", { 2, &P1, 1 }, 2, 4 },   { "w/d", { 2, nullptr, 0 }, 0, 3 },
	{ "w", { 1, &P1, 1 }, 1, 4 },  { "missing", { 2, &P2, 2 }, 1, 0 }, { "w/a", { 1, &P1, 0 }, 1, 2 },
	{ "", { 1, &P1, 0 }, 1, 0 },   { "out", { 1, &P2, 0 }, 1, 1 },
};
enum { NADD = sizeof ADDS / sizeof ADDS[0] };

struct Cfg {
	bool generic;
	int depth;
	std::vector<int> calls; // 0.. = ADDS, then the others
	Universe u;
	int maxQueued = 16384;
	bool started = false;
};
enum {
	RmLast = 100,
	RmFirst,
	RmUnknown,
	RmNeg,
	RmPathW,
	RmPathV,
	Start,
	FollowOn,
	FollowOff,
	Follow2,
	ScopeOn,
	ScopeOff,
	ClearErr,
	Fs,
	Burst,
};

// the same on the C++ interface: one listener per callback, parameter and handler
struct Listener : efsw::FileWatchListener {
	Cb cb;
	std::vector<Told>* out;
	Listener( Cb c, std::vector<Told>* o ) : cb( c ), out( o ) {}
	void put( int fn, void* p, long id, const std::string& dir, const std::string& file, int a,
			  const std::string& old ) {
		Host h;
		Told t;
		t.fn = fn;
		t.param = p;
		t.watcher = nullptr;
		t.e.id = id;
		t.e.dir = dir;
		t.e.file = file;
		t.e.old = old;
		t.e.action = a;
		out->push_back( t );
	}
	void handleFileAction( efsw::WatchID id, const std::string& dir, const std::string& file, efsw::Action a,
						   const std::string& old ) override {
		put( cb.fn, cb.param, id, dir, file, a, old );
	}
	void handleMissedFileActions( efsw::WatchID id, const std::string& dir ) override {
		if ( cb.missed )
			put( 10 + cb.missed, nullptr, id, dir, "", -1, "" );
	}
};
static std::string show( const std::vector<Told>& v, size_t from ) {
	std::string s;
	for ( size_t i = from; i < v.size(); i++ )
		s += ( s.empty() ? "" : ", " ) + std::string( v[i].fn > 10 ? "m" : "f" ) + std::to_string( v[i].fn % 10 ) +
			 ( v[i].param ? v[i].param == &P1 ? "(P1) " : v[i].param == &P2 ? "(P2) " : "(?) " : " " ) + v[i].e.str();
	return s.empty() ? "(none)" : s;
}

static void body( const Cfg& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "w/d" ) );
	fs::create( R( "w/a" ) );
	fs::mkdir( R( "v" ) );
	fs::create( R( "v/a" ) );
	fs::mkdir( R( "o" ) );
	fs::mkdir( R( "o/n" ) ); // may move into a watched directory
	fs::create( R( "o/n/x" ) );
	fs::symlink( R( "o" ), R( "out" ) );
	fs::symlink( R( "o" ), R( "w/out" ) );
	std::vector<Told> A, B;
	g_told = &A;
	g_hook = nullptr;
	efsw_watcher cw = efsw_create( c.generic ? 2 : 0 );
	Watcher xw( c.generic );
	std::vector<std::unique_ptr<Listener>> keep;
	std::vector<long> ids;
	std::string hist;
	efsw::Errors::Log::clearLastError();
	size_t cmp = 0;
	bool started = false;
	if ( c.started ) {
		efsw_watch( cw );
		xw->watch();
		started = true;
	}
	auto both = [&]( const std::string& what, const std::string& a, const std::string& b ) {
		check( a == b, what + ": the C interface gives \"" + rel( a ) + "\", the C++ interface \"" + rel( b ) + "\" after [" + hist + "]" );
	};
	auto events = [&] {
		settle( c.generic ? 3 : 2 );
		Host h;
		bool same = A.size() == B.size();
		for ( size_t i = 0; same && i < A.size(); i++ )
			same = A[i].e.str() == B[i].e.str() && A[i].fn == B[i].fn && A[i].param == B[i].param;
		check( same, "after [" + hist + "] the C callbacks got " + show( A, cmp ) + "; the C++ listeners " + show( B, cmp ) );
		for ( auto& t : A )
			check( t.watcher == cw, "a callback got another watcher handle" );
		cmp = A.size();
	};
	for ( int i = 0; i < c.depth; i++ ) {
		std::vector<int> calls;
		for ( int k : c.calls ) // the flags are not meant to change while the watcher thread runs
			if ( !started || k < FollowOn || k > ScopeOff )
				calls.push_back( k );
		int k = calls[choose( (int)calls.size(), 0, CK::Op, "call" )];
		std::string e1, e2;
		if ( k < NADD ) {
			const Add& a = ADDS[k];
			{
				Host h;
				hist += std::string( "add " ) + a.dir + " #" + std::to_string( k ) + "; ";
			}
			std::string dir = *a.dir ? R( a.dir ) : "";
			efsw_watcher_option o[3];
			std::vector<efsw::WatcherOption> xo;
			int n = 0;
			if ( a.options == 2 || a.options == 3 || a.options == 4 ) {
				if ( a.options == 4 ) {
					o[n++] = { EFSW_OPT_WIN_BUFFER_SIZE, 1 };
					o[n++] = { EFSW_OPT_MAC_SANITIZE_EVENTS, 0 };
				}
				o[n++] = { EFSW_LINUX_PRODUCE_SYNTHETIC_EVENTS, a.options == 3 ? 0 : a.options == 2 ? 1 : 7 };
			}
			for ( int j = 0; j < n; j++ )
				xo.emplace_back( (efsw::Option)o[j].option, o[j].value );
			long r1, r2;
			Cb cb = a.cb;
			if ( a.options == 0 ) {
				r1 = efsw_addwatch( cw, dir.c_str(), cb.f(), a.recursive, cb.param );
				cb.missed = 0;
			} else {
				std::string copy = dir; // neither the path nor the options have to live on
				r1 = efsw_addwatch_withoptions( cw, copy.c_str(), cb.f(), a.recursive, n ? o : nullptr, n, cb.param,
												cb.m() );
				copy.assign( copy.size(), '?' );
				for ( auto& x : o )
					x = { EFSW_OPT_WIN_BUFFER_SIZE, -1 };
			}
			e1 = cstr( efsw_getlasterror() );
			Listener* l = nullptr;
			for ( auto& p : keep )
				if ( p->cb.fn == cb.fn && p->cb.param == cb.param && p->cb.missed == cb.missed )
					l = p.get();
			if ( !l ) {
				Host h;
				keep.emplace_back( l = new Listener( cb, &B ) );
			}
			r2 = xw->addWatch( dir, l, a.recursive != 0, xo );
			e2 = Recorder::copy( efsw::Errors::Log::getLastErrorLog() );
			both( "result", std::to_string( r1 ), std::to_string( r2 ) );
			if ( r1 > 0 )
				ids.push_back( r1 );
		} else
			switch ( k ) {
				case RmLast:
				case RmFirst:
				case RmUnknown:
				case RmNeg: {
					long id = k == RmUnknown ? 77 : k == RmNeg ? -1 : ids.empty() ? 0 : k == RmLast ? ids.back() : ids[0];
					hist += "remove " + std::to_string( id ) + "; ";
					efsw_removewatch_byid( cw, id );
					e1 = cstr( efsw_getlasterror() );
					xw->removeWatch( id );
					e2 = Recorder::copy( efsw::Errors::Log::getLastErrorLog() );
					break;
				}
				case RmPathW:
				case RmPathV: {
					const char* d = k == RmPathW ? "w" : "v/";
					hist += std::string( "remove " ) + d + "; ";
					std::string p = R( d );
					efsw_removewatch( cw, p.c_str() );
					e1 = cstr( efsw_getlasterror() );
					xw->removeWatch( p );
					e2 = Recorder::copy( efsw::Errors::Log::getLastErrorLog() );
					break;
				}
				case Start:
					hist += "watch; ";
					efsw_watch( cw );
					xw->watch();
					started = true;
					break;
				case FollowOn:
				case FollowOff:
				case Follow2:
					hist += "follow " + std::to_string( k ) + "; ";
					efsw_follow_symlinks( cw, k == FollowOn ? 1 : k == Follow2 ? 2 : 0 );
					xw->followSymlinks( k != FollowOff );
					break;
				case ScopeOn:
				case ScopeOff:
					hist += "scope " + std::to_string( k ) + "; ";
					efsw_allow_outofscopelinks( cw, k == ScopeOn );
					xw->allowOutOfScopeLinks( k == ScopeOn );
					break;
				case ClearErr:
					hist += "clear error; ";
					efsw::Errors::Log::createLastError( efsw::Errors::Unspecified, "some error" );
					both( "last error", cstr( efsw_getlasterror() ), "some error" );
					efsw_clearlasterror();
					both( "error code", std::to_string( efsw::Errors::Log::getLastErrorCode() ), "0" );
					both( "last error", cstr( efsw_getlasterror() ), "" );
					break;
				case Fs: {
					FsOp o = chooseOp( c.u );
					check( perform( o ) == 0, "harness: " + o.str() );
					Host h;
					hist += o.str() + "; ";
					break;
				}
				case Burst:
					hist += "burst; ";
					for ( const char* d : { "w", "v", "o" } )
						for ( const char* n : { "b1", "b2", "b3", "b4" } )
							if ( fs::exists( R( d ) + "/" + n ) )
								fs::unlink( R( d ) + "/" + n );
							else
								fs::create( R( d ) + "/" + n );
					break;
			}
		both( "last error", e1, e2 );
		both( "follow symlinks", std::to_string( efsw_follow_symlinks_isenabled( cw ) ),
			  std::to_string( (int)xw->followSymlinks() ) );
		both( "out of scope links", std::to_string( efsw_outofscopelinks_isallowed( cw ) ),
			  std::to_string( (int)xw->allowOutOfScopeLinks() ) );
		events();
	}
	// what is watched now, by whom
	for ( const char* p : { "w/p", "v/p", "w/d/p", "o/p" } ) {
		fs::create( R( p ) );
		Host h;
		hist += std::string( "create " ) + p + "; ";
	}
	events();
	if ( c.maxQueued < 100 ) {
		hist += "burst; ";
		for ( const char* d : { "w", "v", "o" } )
			for ( const char* n : { "c1", "c2", "c3", "c4" } )
				fs::create( R( d ) + "/" + n );
		events();
	}
	observe( "started " + std::to_string( started ) + ", ids " + std::to_string( ids.size() ) );
	size_t n = A.size();
	efsw_release( cw );
	xw.destroy();
	fs::unlink( R( "w/p" ) );
	settle( 2 );
	check( A.size() == n, "a callback was called after efsw_release()" );
	efsw::Errors::Log::clearLastError();
	efsw_getlasterror();
	checkReleased();
}

// releasing a watcher at any moment, again and again
struct Life {
	bool generic;
	int ops;
	int busy;
	bool reuse; // freed memory is used again, so that handles repeat
	bool second; // another watcher is there all the time
	Universe u;
};
static void life( const Life& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "v" ) );
	fs::create( R( "w/a" ) );
	std::vector<Told> A;
	g_told = &A;
	efsw_watcher cur = nullptr, other = nullptr;
	long live = 0;
	std::function<void( const Told& )> hook = [&]( const Told& t ) {
		check( t.watcher == cur || t.watcher == other, "callback of a released watcher: " + t.e.str() );
		if ( t.fn > 10 ) // not told the parameter
			return;
		if ( t.watcher == cur )
			check( t.param == &P1, "callback with the parameter of another watcher: " + t.e.str() );
		else
			check( t.param == &P2, "callback with the parameter of another watcher: " + t.e.str() );
		for ( int i = 0; i < c.busy; i++ )
			mc::schedPoint( "callback is busy" );
	};
	g_hook = &hook;
	if ( c.second ) {
		other = efsw_create( c.generic );
		check( efsw_addwatch_withoptions( other, R( "w" ).c_str(), f1, 1, nullptr, 0, &P2, m1 ) > 0, "add failed" );
		efsw_watch( other );
		settle( 1 );
	}
	size_t bytes[3];
	for ( int round = 0; round < 3; round++ ) {
		bool main = round == 1;
		cur = efsw_create( c.generic );
		// the handler differs from round to round
		efsw_pfn_handle_missed_fileactions m = round == 0 ? m1 : round == 1 ? m2 : nullptr;
		check( efsw_addwatch_withoptions( cur, R( "w" ).c_str(), f1, 1, nullptr, 0, &P1, m ) > 0, "add failed" );
		check( efsw_addwatch_withoptions( cur, R( "v" ).c_str(), f2, 0, nullptr, 0, &P1, m ) > 0, "add failed" );
		efsw_watch( cur );
		settle( 1 );
		size_t from = A.size();
		for ( int i = 0; i < ( main ? c.ops : 0 ); i++ ) {
			FsOp o = chooseOp( c.u );
			check( perform( o ) == 0, "harness: " + o.str() );
		}
		if ( main && c.generic )
			advanceClock( 1000000000ll );
		if ( main )
			schedPoint( "before the release", nullptr, true );
		else { // everything works in every round
			fs::create( R( "w/r" ) );
			settle( 2 );
			fs::unlink( R( "w/r" ) );
			settle( 2 );
			if ( !c.generic ) {
				for ( int i = 0; i < 9; i++ )
					fs::create( R( "v/" ) + std::to_string( i ) ), fs::create( R( "w/" ) + std::to_string( i ) );
				settle( 2 );
				for ( int i = 0; i < 9; i++ )
					fs::unlink( R( "v/" ) + std::to_string( i ) ), fs::unlink( R( "w/" ) + std::to_string( i ) );
				settle( 2 );
			}
			int add = 0, del = 0, m1s = 0, m2s = 0;
			for ( size_t i = from; i < A.size(); i++ ) {
				const Told& t = A[i];
				if ( t.watcher == cur && t.fn == 1 && t.e.action == 1 && t.e.file == "r" )
					add++;
				if ( t.watcher == cur && t.fn == 1 && t.e.action == 2 && t.e.file == "r" )
					del++;
				m1s += t.watcher == cur && t.fn == 11;
				m2s += t.watcher == cur && t.fn == 12;
			}
			check( add == 1 && del == 1, "a watch of the C interface doesn't report" );
			if ( !c.generic )
				check( m2s == 0 && ( round == 0 ? m1s > 0 : m1s == 0 ), "not the missed-actions handler of the watch was called" );
		}
		efsw_release( cur );
		cur = nullptr;
		settle( 1 );
		if ( round == 0 )
			live = liveThreads();
		check( liveThreads() == live, "the thread of a released watcher still runs" );
		for ( auto& p : fs::list( R( "v" ) ) )
			fs::unlink( R( "v/" ) + p );
		settle( 2 );
		bytes[round] = c.second ? 0 : liveBytes();
	}
	if ( !c.second )
		check( bytes[2] <= bytes[0], "a released watcher leaves " + std::to_string( bytes[2] - bytes[0] ) + " bytes behind" );
	if ( other ) {
		size_t from = A.size();
		fs::create( R( "w/z" ) );
		settle( 2 );
		int add = 0;
		for ( size_t i = from; i < A.size(); i++ )
			add += A[i].watcher == other && A[i].fn == 1 && A[i].e.action == 1 && A[i].e.file == "z";
		check( add == 1, "releasing a watcher affected another one" );
		efsw_watcher o = other;
		efsw_release( o );
		other = nullptr;
		settle( 1 );
	}
	g_hook = nullptr;
	efsw_clearlasterror();
	checkReleased();
}

// several threads
struct Thr {
	bool generic;
	int threads, calls;
	bool shared;
};
static void threads( const Thr& c ) {
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "v" ) );
	std::vector<Told> A;
	g_told = &A;
	int released = 0;
	std::function<void( const Told& )> hook = [&]( const Told& t ) {};
	g_hook = &hook;
	efsw_clearlasterror();
	efsw_watcher shared = efsw_create( c.generic );
	efsw_watch( shared );
	long sharedIds = 0;
	auto run = [&]( int me ) {
		efsw_watcher w = c.shared ? shared : efsw_create( c.generic );
		bool mine = false;
		for ( int i = 0; i < c.calls; i++ ) {
			switch ( choose( 4, 0, CK::Op, "C call" ) ) {
				case 0: {
					std::string d = R( me ? "w" : "v" );
					long id = efsw_addwatch_withoptions( w, d.c_str(), f1, 1, nullptr, 0, me ? &P1 : &P2, m1 );
					check( mine ? id == EFSW_REPEATED : id > 0, "efsw_addwatch() returned " + std::to_string( id ) );
					mine = true;
					sharedIds++;
					break;
				}
				case 1: {
					long id = efsw_addwatch( w, R( "missing" ).c_str(), f2, 1, nullptr );
					check( id == EFSW_NOTFOUND, "efsw_addwatch() of a missing directory returned " + std::to_string( id ) );
					std::string s = cstr( efsw_getlasterror() );
					std::string d = R( "missing" ), full = "File not found ( " + d + "/ )", f2 = "File not found ( " + d + " )",
								rep = "File repeated in watches ( ";
					check( s.empty() || s == full || s == f2 || s.compare( 0, rep.size(), rep ) == 0,
						   "efsw_getlasterror() is garbled: " + s );
					break;
				}
				case 2:
					efsw_removewatch( w, R( me ? "w" : "v" ).c_str() );
					mine = false;
					break;
				case 3: {
					std::string s = cstr( efsw_getlasterror() );
					efsw_clearlasterror();
					break;
				}
			}
		}
		if ( !c.shared )
			efsw_release( w ), released++;
		return mine;
	};
	bool mine[3] = {};
	std::vector<int> th;
	for ( int i = 1; i < c.threads; i++ )
		th.push_back( spawn( "user", [&, i] { mine[i] = run( i ); } ) );
	mine[0] = run( 0 );
	for ( int t : th )
		joinThread( t );
	settle( 1 );
	fs::create( R( "w/p" ) );
	fs::create( R( "v/p" ) );
	settle( 2 );
	int got[2] = {};
	for ( auto& t : A )
		if ( t.e.action == 1 )
			got[t.param == &P1]++;
	if ( c.shared )
		for ( int i = 0; i < c.threads; i++ )
			check( got[i] == mine[i], "a watch added through the C interface from several threads doesn't report" );
	efsw_release( shared );
	efsw_clearlasterror();
	efsw_getlasterror();
	g_hook = nullptr;
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C16", []( bool th ) {
		std::vector<Scenario> v;
		auto put = [&]( const std::string& name, std::function<void()> b, int bound, int q, bool reuse = false, bool one = false ) {
			Scenario s;
			s.name = name;
			s.bound = bound;
			s.body = b;
			s.config = [q, reuse, one]() {
				K.oneSchedule = one;
				K.maxQueued = q;
				setReuseAddresses( reuse );
			};
			v.push_back( s );
		};
		Universe u;
		u.files = { "w/a", "w/d/x", "v/a", "o/a" };
		u.dirs = { "w/dd", "o/n" };
		u.write = false;
		std::vector<int> all;
		for ( int i = 0; i < NADD; i++ )
			all.push_back( i );
		std::vector<int> adds = all;
		for ( int i = RmLast; i <= Fs; i++ )
			all.push_back( i );
		std::vector<int> some{ 0, 2, 3, 4, 7, RmLast, RmPathW, RmPathV, Fs };
			std::vector<int> flags{ 0, 3, 10, FollowOn, FollowOff, Follow2, ScopeOn, ScopeOff, Start };
		std::vector<int> over{ 0, 1, 2, 3, 4, 6, RmFirst, Burst };
		for ( bool g : { false, true } ) {
			std::string p = g ? "generic: " : "inotify: ";
			auto add = [&]( const std::string& n, Cfg c, int b ) {
				put( p + n, [c] { body( c ); }, b, c.maxQueued, false, true );
			};
			add( "every call", { g, 2 + th, all, u, 16384, true }, 0 );
			add( "every call, not started", { g, 2 + th, all, u, 16384, false }, 0 );
			add( "flags", { g, 4 + th, flags, u, 16384, false }, 0 );
			add( "started any time", { g, 3, { 0, 2, 4, RmFirst, Start, Fs }, u, 16384, false }, 0 );
			add( "some calls", { g, 3 + ( th && !g ), some, u, 16384, true }, 0 );
			if ( !g )
				add( "overflow", { g, 3 + th, over, u, 6, true }, 0 );
			Universe few;
			few.files = { "w/a", "w/b", "v/a" };
			for ( bool reuse : { false, true } )
				for ( bool second : { false, true } ) {
					Life l{ g, 2 - ( second && !th ), 1, reuse, second, few };
					put( p + "released" + ( reuse ? ", handles repeat" : "" ) + ( second ? ", two watchers" : "" ),
						 [l] { life( l ); }, 1 + ( th && !second ), 6, reuse, second && !th );
				}
			Thr t{ g, 2, 1, true };
			put( p + "two threads, one watcher", [t] { threads( t ); }, 2 + th, 100 );
			Thr t2{ g, 2, 2, true };
			put( p + "two threads, one watcher, two calls", [t2] { threads( t2 ); }, 1, 100 );
			Thr t3{ g, 2, 1, false };
			put( p + "two threads, two watchers", [t3] { threads( t3 ); }, 1 + th, 100 );
		}
		return v;
	} );
}
