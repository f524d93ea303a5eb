// C18: watches do not influence each other, be they of one FileWatcher or of several.
#include "oracle.hpp"
using namespace hs;
using namespace mc;

struct W {
	std::string root;
	bool recursive, synthetic = false;
	int fw = 0, listener = 0;
	bool control = true; // removed and added again
	std::string taken = ""; // directory that another watch of the same FileWatcher covers (native backend)
};
struct Cfg {
	int depth;
	std::vector<int> fws; // per FileWatcher: 0 inotify, 1 polling
	std::vector<W> ws;
	Universe u;
	std::vector<FsOp> pre;
	bool destroys = false; // the last FileWatcher may be destroyed
	bool strict = false;
};
struct Live {
	WatchCfg c;
	bool on = false;
};

static void body( const Cfg& c ) {
	for ( const char* d : { "w", "w/d", "v", "o" } )
		fs::mkdir( R( d ) );
	for ( auto& o : c.pre )
		check( perform( o ) == 0, "harness: setup " + o.str() );
	bool generic = false, mixed = false;
	for ( int f : c.fws )
		mixed |= f != c.fws[0];
	std::vector<Recorder> recs( c.fws.size() * 2 );
	std::vector<Watcher> fws;
	for ( size_t i = 0; i < c.fws.size(); i++ ) {
		fws.emplace_back( c.fws[i] == 1, mixed ? 100 : 1000 ); // the same pace
		generic |= c.fws[i] == 1;
		for ( int k = 0; k < 2; k++ ) {
			recs[2 * i + k].name = std::string( 1, char( 'A' + i ) ) + std::to_string( k );
			recs[2 * i + k].muteModified = c.fws[i] == 1;
		}
	}
	std::vector<Live> ws( c.ws.size() );
	auto addIt = [&]( int i ) {
		const W& x = c.ws[i];
		WatchCfg& wc = ws[i].c;
		wc.root = x.root;
		wc.recursive = x.recursive;
		wc.synthetic = x.synthetic;
		wc.generic = c.fws[x.fw] == 1;
		wc.rec = &recs[2 * x.fw + x.listener];
		std::vector<efsw::WatcherOption> opt;
		if ( x.synthetic )
			opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
		wc.id = fws[x.fw]->addWatch( R( x.root ), wc.rec, x.recursive, opt );
		check( wc.id > 0, "addWatch of " + x.root + " failed" );
		ws[i].on = true;
	};
	for ( size_t i = 0; i < c.ws.size(); i++ )
		addIt( (int)i );
	for ( auto& f : fws )
		f->watch();
	int round = ( generic ? 3 : 2 ) * ( c.fws.size() > 1 ? 2 : 1 );
	settle( round );
	for ( auto& r : recs )
		check( r.evs.empty(), "events without any change: " + listEvs( r.evs ) );
	std::string hist;
	for ( int i = 0; i < c.depth; i++ ) {
		std::vector<FsOp> ops = applicable( c.u );
		std::vector<int> ctl;
		for ( size_t k = 0; k < ws.size(); k++ )
			if ( c.ws[k].control && fws[c.ws[k].fw].w )
				ctl.push_back( (int)k );
		bool canDestroy = c.destroys && fws.back().w;
		int n = (int)( ops.size() + ctl.size() + canDestroy );
		if ( !n )
			abandon();
		int k = choose( n, 0, CK::Op, "operation" );
		std::vector<size_t> from;
		for ( auto& r : recs )
			from.push_back( r.evs.size() );
		Tree before = snapshotTree();
		FsOp o{ OpK::Create, "?", "" };
		bool isOp = k < (int)ops.size();
		if ( isOp ) {
			o = ops[k];
			check( perform( o ) == 0, "harness: " + o.str() );
			hist += ( i ? "; " : "" ) + o.str();
		} else if ( k - ops.size() < ctl.size() ) {
			int j = ctl[k - ops.size()];
			if ( ws[j].on ) {
				fws[c.ws[j].fw]->removeWatch( ws[j].c.id );
				ws[j].on = false;
				hist += ( i ? "; " : "" ) + ( "remove " + c.ws[j].root );
			} else {
				addIt( j );
				hist += ( i ? "; " : "" ) + ( "add " + c.ws[j].root );
			}
		} else {
			fws.back().destroy();
			for ( size_t j = 0; j < ws.size(); j++ )
				if ( c.ws[j].fw == (int)fws.size() - 1 )
					ws[j].on = false;
			hist += ( i ? "; " : "" ) + std::string( "destroy the last FileWatcher" );
		}
		settle( round );
		Host h;
		for ( size_t q = 0; q < recs.size(); q++ )
			for ( size_t e = from[q]; e < recs[q].evs.size(); e++ ) {
				const Ev& v = recs[q].evs[e];
				bool ok = false;
				for ( auto& l : ws )
					ok |= l.on && l.c.rec == &recs[q] && l.c.id == v.id;
				check( ok, "event for a watch that isn't there, or to the listener of another: " + v.str() + " after [" + hist + "]" );
				check( isOp, "event without any change: " + v.str() + " after [" + hist + "]" );
			}
		for ( size_t j = 0; j < ws.size(); j++ ) {
			if ( !ws[j].on || !isOp )
				continue;
			Expect e = expected( o, ws[j].c, before );
			size_t at = 0;
			for ( size_t q = 0; q < recs.size(); q++ )
				if ( &recs[q] == ws[j].c.rec )
					at = from[q];
			const std::string& t = c.ws[j].taken;
			if ( !t.empty() ) { // what happens there may be left out, or be told differently
				if ( c.strict )
					for ( auto& r : e.r )
						if ( r.lo && ( r.dir == t || under( r.dir, t ) ) ) {
							int seen = 0;
							for ( size_t m = at; m < ws[j].c.rec->evs.size(); m++ ) {
								const Ev& v = ws[j].c.rec->evs[m];
								seen += v.id == ws[j].c.id && v.action == r.action && v.dir == R( r.dir ) + "/" && v.file == r.file;
							}
							if ( !seen )
								finding( "overlap", "event not reported: " + r.str() + " for [" + hist + "] in watch " + ws[j].c.root +
														" (recursive), another watch of the same FileWatcher is at " + t );
						}
				for ( auto& r : e.r )
					if ( r.dir == t || under( r.dir, t ) )
						r.lo = 0;
			}
			compare( hist, ws[j].c, e, ws[j].c.rec->evs, at );
		}
	}
	for ( auto& f : fws )
		if ( f.w )
			f.destroy();
	checkReleased();
}

int main( int argc, char** argv ) {
	return mainDriver( argc, argv, "C18", []( bool th ) {
		std::vector<Scenario> s;
		auto add = [&]( std::string name, Cfg c, int bound ) {
			Scenario x;
			x.name = name;
			x.bound = bound;
			bool g = false;
			for ( int f : c.fws )
				g |= f == 1;
			x.realConformance = !bound && !c.strict && !g && c.fws.size() == 1;
			x.body = [c] { body( c ); };
			x.config = [c] { K.oneSchedule = c.fws.size() > 1; };
			s.push_back( x );
		};
		int T = th ? 1 : 0;
		Universe u; // two trees and something outside
		u.files = { "w/a", "w/s/x", "v/a", "v/s/x", "o/a" };
		u.dirs = { "w/s", "v/s" };
		u.rmtree = true;
		std::vector<FsOp> pre = { { OpK::Mkdir, "w/s", "", true }, { OpK::Create, "w/s/x", "" }, { OpK::Create, "w/a", "" } };
		add( "two trees, one listener", { 4 + T, { 0 }, { { "w", true }, { "v", true, true } }, u, pre }, 0 );
		add( "two trees, recursive and not", { 3 + T, { 0 }, { { "w", true, true, 0, 0 }, { "v", false, false, 0, 1 } }, u, pre }, 0 );
		add( "two trees, polling", { 4 + T, { 1 }, { { "w", true }, { "v", true } }, u, pre }, 0 );
		add( "two trees, recursive and not, polling", { 3 + T, { 1 }, { { "w", false, false, 0, 1 }, { "v", true } }, u, pre }, 0 );
		// the same tree seen by two FileWatchers
		add( "two watchers", { 3 + T, { 0, 0 }, { { "w", true, true }, { "v", true }, { "w", true, false, 1, 1 } }, u, pre, true }, 0 );
		add( "two watchers, recursive and not", { 3 + T, { 0, 0 }, { { "w", true }, { "w", false, false, 1, 0 }, { "v", true, true, 1, 0 } }, u, pre, true }, 0 );
		add( "both backends", { 3 + T, { 0, 1 }, { { "w", true }, { "w", true, false, 1, 0 }, { "v", true, false, 1, 0 } }, u, pre, true }, 0 );
		add( "two watchers, polling", { 3 + T, { 1, 1 }, { { "w", true }, { "w", true, false, 1, 0 }, { "v", false, false, 1, 0 } }, u, pre, true }, 0 );
		// one inside the other
		Universe n;
		n.files = { "w/a", "w/d/a", "w/s/x", "w/d/s/x" };
		n.dirs = { "w/s", "w/d/s" };
		n.rmtree = true;
		std::vector<FsOp> npre = { { OpK::Mkdir, "w/d/s", "", true }, { OpK::Create, "w/d/s/x", "" } };
		for ( bool first : { true, false } ) {
			std::string o = first ? "outer first" : "inner first";
			auto pair = [&]( W a, W b ) { return first ? std::vector<W>{ a, b } : std::vector<W>{ b, a }; };
			for ( bool r : { true, false } ) {
				std::string k = r ? "" : ", inner not recursive";
				if ( !first ) // polling refuses a directory that is already watched by another watch
					add( "inside, polling, " + o + k, { 3 + T, { 1 }, pair( { "w", true, false, 0, 0 }, { "w/d", r, false, 0, 1, false } ), n, npre }, 0 );
				Cfg x{ 3 + T, { 0 }, pair( { "w", true, true, 0, 0, false, "w/d" }, { "w/d", r, true, 0, 1, false } ), n, npre };
				add( "inside, " + o + k, x, 0 );
				x.strict = true;
				x.depth = 1;
				add( "inside, strict, " + o + k, x, 0 );
			}
			add( "inside, outer not recursive, " + o, { 3 + T, { 0 }, pair( { "w", false, false, 0, 0 }, { "w/d", true, true, 0, 0 } ), n, npre }, 0 );
			add( "inside, outer not recursive, polling, " + o, { 3 + T, { 1 }, pair( { "w", false, false, 0, 0 }, { "w/d", true, false, 0, 0 } ), n, npre }, 0 );
		}
		// watcher threads against each other
		add( "two watchers, preempted", { 2, { 0, 0 }, { { "w", true, true }, { "w", true, false, 1, 1 } }, u, pre, true }, 1 );
		add( "two trees, preempted", { 2 + T, { 0 }, { { "w", true, true }, { "v", true, false, 0, 1 } }, u, pre }, 2 );
		add( "both backends, preempted", { 1 + T, { 0, 1 }, { { "w", true }, { "w", true, false, 1, 0 } }, u, pre, true }, 1 );
		inLargeSystem( s, { "two trees, one listener", "two watchers", "two trees, polling" } );
		return s;
	} );
}
