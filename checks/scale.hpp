// Few changes to large trees: deep chains of directories, long names, directories with many entries; many
// watches. Nothing in them depends on the size, so neither may the events.
#pragma once
#include "oracle.hpp"

namespace hs {

struct Big {
	bool generic;
	int chain, width;	 // directories in a row, directories (and as many files) in one
	std::string name;	 // of the directories of the chain
	bool after;			 // they are made while watched
	bool synthetic = false;
	// the directories, top first; w/d is the first one
	std::vector<std::string> build( const std::string& top ) const {
		std::vector<std::string> v{ top };
		mc::fs::mkdir( R( top ) );
		std::string p = top;
		for ( int i = 1; i < chain; i++ )
			mc::fs::mkdir( R( p += "/" + name ) ), v.push_back( p );
		for ( int i = 0; i < width; i++ ) {
			std::string n = top + "/n" + std::to_string( i );
			mc::fs::mkdir( R( n ) );
			mc::fs::create( R( top + "/f" + std::to_string( i ) ) );
			v.push_back( n );
		}
		return v;
	}
};

inline void bigTree( const Big& c ) {
	using namespace mc;
	fs::mkdir( R( "w" ) );
	fs::mkdir( R( "o" ) );
	std::vector<std::string> dirs;
	if ( !c.after )
		dirs = c.build( "w/d" );
	Mirror mirror = Mirror::of( R( "w" ) );
	Recorder r;
	r.mute = true;
	Watcher w( c.generic );
	WatchCfg wc;
	wc.root = "w";
	wc.generic = c.generic;
	wc.synthetic = c.synthetic;
	std::vector<efsw::WatcherOption> opt;
	if ( c.synthetic )
		opt.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	wc.id = w->addWatch( R( "w" ), &r, true, opt );
	check( wc.id > 0, "addWatch failed" );
	w->watch();
	settle( 3 );
	check( r.evs.empty(), "events without any change" );
	if ( c.after ) {
		dirs = c.build( "w/d" );
		settle( 3 );
		if ( c.generic ) {
			for ( auto& e : r.evs )
				mirror.apply( e );
			std::string d = mirror.diff( Mirror::of( R( "w" ) ) );
			check( d.empty(), "content known from the events is wrong:" + d.substr( 0, 300 ) );
		}
	}
	std::string top = "w/d", what;
	auto one = [&]( const FsOp& o ) {
		Tree before;
		size_t n = r.evs.size();
		{
			Host h;
			before = snapshotTree();
		}
		check( perform( o ) == 0, "harness: " + o.str() );
		settle( 2 );
		Host h;
		compare( what + o.str(), wc, expected( o, wc, before ), r.evs, n );
	};
	auto move = [&]( const std::string& to ) {
		FsOp o{ OpK::Rename, top, to, true };
		one( o );
		what += o.str() + "; ";
		for ( auto& d : dirs )
			d = to + d.substr( top.size() );
		top = to;
	};
	static const char* ops[] = { "", "renamed", "moved away and back", "deleted and made again" };
	int op = choose( 4, 0, CK::Op, "what happens to the tree" );
	observe( ops[op] );
	if ( op == 1 )
		move( "w/dd" );
	if ( op == 2 )
		move( "o/d" ), move( "w/x" );
	if ( op == 3 ) {
		FsOp o{ OpK::RmTree, top, "", true };
		one( o );
		what += o.str() + "; made again; ";
		size_t n = r.evs.size();
		dirs = c.build( top );
		settle( 3 );
		check( r.evs.size() > n, "nothing reported" );
	}
	// every directory of the chain, some of the others, those next to a power of two among them
	int n = dirs.size();
	for ( int i = 0; i < n; i++ )
		if ( i < c.chain || i % 50 == 0 || ( i & ( i + 1 ) ) == 0 || ( i & ( i - 1 ) ) == 0 || i + 1 == n ) {
			one( { OpK::Create, dirs[i] + "/probe", "" } );
			one( { OpK::Unlink, dirs[i] + "/probe", "" } );
		}
	if ( c.width )
		for ( int i : { 0, c.width / 2, c.width - 1 } ) {
			one( { OpK::Rename, top + "/f" + std::to_string( i ), top + "/g" } );
			one( { OpK::Unlink, top + "/g", "" } );
			one( { OpK::Rmdir, top + "/n" + std::to_string( i ), "", true } );
		}
	w.destroy();
	checkReleased();
}

// n directories, each with its own watch
inline void manyWatches( bool generic, int n ) {
	using namespace mc;
	Recorder r;
	r.mute = true;
	Watcher w( generic );
	std::vector<std::string> dirs;
	std::vector<long> ids;
	std::set<long> used;
	std::map<long, std::string> live;
	for ( int i = 0; i < n; i++ ) {
		dirs.push_back( "w" + std::to_string( i ) );
		fs::mkdir( R( dirs[i] ) );
		fs::mkdir( R( dirs[i] + "/s" ) );
	}
	auto add = [&]( int i ) {
		long id = w->addWatch( R( dirs[i] ), &r, i & 1 );
		check( id > 0, "addWatch of " + dirs[i] + " returned " + std::to_string( id ) );
		check( !live.count( id ), "addWatch returned an id in use: " + std::to_string( id ) );
		live[id] = dirs[i];
		ids[i] = id;
	};
	ids.resize( n );
	bool early = choose( 2, 0, CK::Op, "watch() at first" );
	if ( early )
		w->watch();
	for ( int i = 0; i < n; i++ )
		add( i );
	if ( !early )
		w->watch();
	settle( 2 );
	auto listed = [&]() {
		auto v = w->directories();
		Host h;
		std::set<std::string> got( v.begin(), v.end() ), want;
		for ( auto& x : live )
			want.insert( R( x.second ) + "/" );
		check( v.size() == got.size() && got == want,
			   "directories() lists " + std::to_string( v.size() ) + " directories of " + std::to_string( want.size() ) );
	};
	auto probe = [&]() {
		listed();
		for ( int i = 0; i < n; i++ ) {
			WatchCfg wc;
			wc.root = dirs[i];
			wc.recursive = i & 1;
			wc.generic = generic;
			wc.id = ids[i];
			Tree before;
			FsOp o{ OpK::Create, dirs[i] + ( wc.recursive ? "/s/" : "/" ) + "probe", "" };
			size_t k = r.evs.size();
			if ( i % 7 == 0 || ( i & ( i + 1 ) ) == 0 || ( i & ( i - 1 ) ) == 0 || i > n - 3 ) {
				perform( o );
				settle( 2 );
				for ( size_t e = k; e < r.evs.size(); e++ )
					check( live.count( ids[i] ) && r.evs[e].id == ids[i], "unexpected event " + r.evs[e].str() + " for " + o.str() );
				if ( live.count( ids[i] ) )
					compare( o.str(), wc, expected( o, wc, before ), r.evs, k );
				fs::unlink( R( o.a ) );
				settle( 2 );
			}
		}
	};
	probe();
	for ( int i = 0; i < n; i++ )
		if ( i % 3 ) {
			if ( i % 3 == 1 )
				w->removeWatch( ids[i] );
			else
				w->removeWatch( R( dirs[i] ) );
			live.erase( ids[i] );
		}
	probe();
	for ( int i = 0; i < n; i++ )
		if ( i % 3 == 1 )
			add( i );
	probe();
	observe( "done" );
	w.destroy();
	checkReleased();
}

// the same directory again and again
inline void manyRounds( bool generic, int n ) {
	using namespace mc;
	fs::mkdir( R( "v" ) );
	fs::mkdir( R( "w" ) );
	Recorder r;
	r.mute = true;
	Watcher w( generic );
	long kept = w->addWatch( R( "v" ), &r, true );
	check( kept > 0, "addWatch failed" );
	w->watch();
	settle( 1 );
	bool byPath = choose( 2, 0, CK::Op, "removed by path" );
	for ( int i = 0; i < n; i++ ) {
		long id = w->addWatch( R( "w" ), &r, i & 1 );
		check( id > 0, "addWatch returned " + std::to_string( id ) + " in round " + std::to_string( i ) );
		check( id != kept, "addWatch returned an id in use in round " + std::to_string( i ) );
		if ( i % ( n / 8 ) == 0 || i + 1 == n || ( i & ( i - 1 ) ) == 0 ) {
			settle( 2 );
			for ( auto& x : { std::make_pair( std::string( "w/a" ), id ), std::make_pair( std::string( "v/a" ), kept ) } ) {
				size_t k = r.evs.size();
				WatchCfg wc;
				wc.root = parentDir( x.first );
				wc.generic = generic;
				wc.id = x.second;
				FsOp o{ OpK::Create, x.first, "" };
				perform( o );
				settle( 2 );
				compare( "round " + std::to_string( i ) + ": " + o.str(), wc, expected( o, wc, Tree() ), r.evs, k );
				for ( size_t e = k; e < r.evs.size(); e++ )
					check( r.evs[e].id == x.second, "unexpected event " + r.evs[e].str() + " in round " + std::to_string( i ) );
				fs::unlink( R( x.first ) );
				settle( 2 );
			}
		}
		if ( byPath )
			w->removeWatch( R( "w" ) );
		else
			w->removeWatch( id );
		if ( w->directories().size() != 1 )
			check( false, "directories() after round " + std::to_string( i ) );
	}
	observe( "done" );
	w.destroy();
	checkReleased();
}

inline void addBigTrees( std::vector<mc::Scenario>& s, bool generic, bool after, bool synthetic ) {
	auto add = [&]( const char* name, int chain, int width, const std::string& dir ) {
		mc::Scenario x;
		x.name = std::string( name ) + ( synthetic ? ", synthetic" : "" ) + ( after ? ", made while watched" : "" );
		Big b{ generic, chain, width, dir, after, synthetic };
		x.body = [b] { bigTree( b ); };
		x.config = [] {
		K.maxSteps = K.maxIdle = 1 << 30;
		mc::setReuseAddresses( true );
	};
		s.push_back( x );
	};
	add( "70 directories in a row", 70, 0, "d" );
	add( "long names", 15, 0, std::string( 255, 'n' ) );
	add( "300 directories and files in one", 2, 300, "d" );
}
inline void addMany( std::vector<mc::Scenario>& s, bool generic ) {
	mc::Scenario x;
	std::string b = generic ? "generic " : "inotify ";
	x.config = [] {
		K.maxSteps = K.maxIdle = 1 << 30;
		mc::setReuseAddresses( true );
	};
	x.name = b + "300 watches";
	x.body = [=] { manyWatches( generic, 300 ); };
	s.push_back( x );
	x.name = b + "70000 rounds"; // the ids need more than 16 bits
	x.body = [=] { manyRounds( generic, 70000 ); };
	s.push_back( x );
}

} // namespace hs
