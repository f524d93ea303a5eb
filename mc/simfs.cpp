// Simulated kernel: a small POSIX file system with inotify, mounts and permissions. The same
// environment operations can be performed on the real kernel (K.real) for conformance replays.
#include "simfs.hpp"
#include "internal.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include "kq/sys/event.h"
#include <sys/inotify.h>
#include <sys/stat.h>
#include <unistd.h>

namespace mc {

static std::map<uint64_t, InodeP> g_inodes; // live (linked or watched) inodes by number
static InodeP g_rootI;
static uint64_t g_nextIno = 100;
static std::set<uint64_t> g_freeIno;
static std::string g_cwd = "/";
static std::vector<Mount> g_mounts;
static std::vector<InotifyP> g_inst;
static uint32_t g_cookie = 0;
static bool g_dirty = true;
static uint64_t g_hash = 0;
std::map<int, FdP> g_fds;
int g_nextFd = 100;

static uint64_t hm( uint64_t h, uint64_t v ) {
	h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 );
	h *= 0xff51afd7ed558ccdull;
	return h ^ ( h >> 33 );
}
static uint64_t hs( const std::string& s ) {
	uint64_t h = 1469598103934665603ull;
	for ( unsigned char c : s )
		h = ( h ^ c ) * 1099511628211ull;
	return h;
}
void kernelDirty() { g_dirty = true; }

static InodeP newInode( uint32_t mode ) {
	uint64_t n;
	if ( K.reuseInodes && !g_freeIno.empty() ) {
		n = *g_freeIno.begin();
		g_freeIno.erase( g_freeIno.begin() );
	} else
		n = K.inoLow ? ( g_nextIno++ << 32 ) + K.inoLow : g_nextIno++;
	InodeP i = std::make_shared<Inode>();
	i->ino = n;
	i->mode = mode;
	i->uid = K.uid;
	i->gid = 0;
	i->mtimeNs = nowNs();
	i->dev = 1;
	i->nlink = S_ISDIR( mode ) ? 2 : 1;
	i->size = 0;
	return i;
}
static void freeInode( const InodeP& i ) {
	if ( !i->freed ) {
		i->freed = true;
		g_freeIno.insert( i->ino );
	}
}

// ---------------------------------------------------------------- path walk
static std::vector<std::string> splitPath( const std::string& p ) {
	std::vector<std::string> v;
	size_t i = 0;
	while ( i < p.size() ) {
		size_t j = p.find( '/', i );
		if ( j == std::string::npos )
			j = p.size();
		if ( j > i )
			v.push_back( p.substr( i, j - i ) );
		i = j + 1;
	}
	return v;
}
bool permits( const Inode& i, int want ) { // want: 4 read, 2 write, 1 search
	if ( K.uid == 0 )
		return true;
	int sh = i.uid == K.uid ? 6 : 0; // owner or other
	return ( (int)( ( i.mode >> sh ) & 7 ) & want ) == want;
}
struct Walk {
	InodeP parent, node;
	std::string name; // last component
	std::vector<std::pair<std::string, InodeP>> trail;
};
// returns 0 or errno. If the last component does not exist node is null and the result is 0 when
// allowMissing
static int walk( const std::string& path, bool follow, bool allowMissing, bool checkPerm, Walk& w,
				 int depth = 0 ) {
	if ( path.empty() )
		return ENOENT;
	if ( path.size() >= PATH_MAX )
		return ENAMETOOLONG;
	std::string full = path[0] == '/' ? path : g_cwd + "/" + path;
	std::vector<std::string> comp = splitPath( full );
	bool trailing = full.size() > 1 && full.back() == '/';
	std::vector<std::pair<std::string, InodeP>> st;
	st.push_back( { "", g_rootI } );
	w.parent = nullptr;
	w.node = g_rootI;
	w.name = "";
	for ( size_t i = 0; i < comp.size(); i++ ) {
		const std::string& c = comp[i];
		bool last = i + 1 == comp.size();
		InodeP cur = st.back().second;
		if ( !S_ISDIR( cur->mode ) )
			return ENOTDIR;
		if ( checkPerm && !permits( *cur, 1 ) )
			return EACCES;
		if ( c == "." )
			continue;
		if ( c == ".." ) {
			if ( st.size() > 1 )
				st.pop_back();
			continue;
		}
		if ( c.size() > 255 )
			return ENAMETOOLONG;
		auto it = cur->kids.find( c );
		if ( it == cur->kids.end() ) {
			if ( last && allowMissing ) {
				w.parent = cur;
				w.node = nullptr;
				w.name = c;
				w.trail = st;
				return 0;
			}
			return ENOENT;
		}
		InodeP n = it->second;
		if ( S_ISLNK( n->mode ) && ( !last || follow || trailing ) ) {
			if ( depth > 8 )
				return ELOOP;
			// resolve the link, then continue with the rest
			std::string base;
			for ( size_t k = 1; k < st.size(); k++ )
				base += "/" + st[k].first;
			std::string rest;
			for ( size_t k = i + 1; k < comp.size(); k++ )
				rest += "/" + comp[k];
			if ( trailing )
				rest += "/";
			std::string t = n->target;
			std::string np = ( t[0] == '/' ? t : base + "/" + t ) + rest;
			return walk( np, follow, allowMissing && !last, checkPerm, w, depth + 1 );
		}
		st.push_back( { c, n } );
	}
	w.node = st.back().second;
	w.name = st.back().first;
	w.parent = st.size() > 1 ? st[st.size() - 2].second : nullptr;
	w.trail = st;
	if ( trailing && !S_ISDIR( w.node->mode ) )
		return ENOTDIR;
	return 0;
}
static std::string trailPath( const Walk& w ) {
	std::string s;
	for ( size_t k = 1; k < w.trail.size(); k++ )
		s += "/" + w.trail[k].first;
	return s.empty() ? "/" : s;
}
static uint64_t devOf( const Walk& w ) {
	// nearest mount root on the trail
	for ( size_t k = w.trail.size(); k-- > 0; )
		for ( auto& m : g_mounts )
			if ( m.root == w.trail[k].second )
				return m.dev;
	return 1;
}
static unsigned long ftypeOf( uint64_t dev ) {
	for ( auto& m : g_mounts )
		if ( m.dev == dev )
			return m.ftype;
	return 0x01021994; // tmpfs
}

int kStat( const std::string& p, bool follow, Stat& st, bool perm ) {
	Walk w;
	int e = walk( p, follow, false, perm, w );
	if ( e )
		return e;
	Inode& i = *w.node;
	st.ino = i.ino;
	st.mode = i.mode;
	st.uid = i.uid;
	st.gid = i.gid;
	st.size = S_ISDIR( i.mode ) ? 4096 : S_ISLNK( i.mode ) ? i.target.size() : i.size;
	st.mtimeNs = i.mtimeNs;
	st.dev = devOf( w );
	st.nlink = i.nlink;
	return 0;
}
void kStatInode( const Inode& i, Stat& st ) {
	st.ino = i.ino;
	st.mode = i.mode;
	st.uid = i.uid;
	st.gid = i.gid;
	st.size = S_ISDIR( i.mode ) ? 4096 : i.size;
	st.mtimeNs = i.mtimeNs;
	st.dev = 1;
	st.nlink = i.nlink;
}
int kList( const std::string& p, std::vector<DirEnt>& out ) {
	Walk w;
	int e = walk( p, true, false, true, w );
	if ( e )
		return e;
	if ( !S_ISDIR( w.node->mode ) )
		return ENOTDIR;
	if ( !permits( *w.node, 4 ) )
		return EACCES;
	return kListInode( *w.node, out );
}
int kListInode( const Inode& n, std::vector<DirEnt>& out ) {
	auto type = []( uint32_t m ) {
		return K.noDType ? DT_UNKNOWN : S_ISDIR( m ) ? DT_DIR : S_ISLNK( m ) ? DT_LNK : S_ISSOCK( m ) ? DT_SOCK : DT_REG;
	};
	out.push_back( { ".", type( S_IFDIR ), n.ino } );
	for ( auto& k : n.kids )
		out.push_back( { k.first, type( k.second->mode ), k.second->ino } );
	out.insert( out.begin() + ( K.dirReverse ? out.size() / 2 : 1 ), { "..", type( S_IFDIR ), 1 } );
	if ( K.dirReverse )
		std::reverse( out.begin(), out.end() );
	return 0;
}
int kRealpath( const std::string& p, std::string& out ) {
	Walk w;
	int e = walk( p, true, false, true, w );
	if ( e )
		return e;
	out = trailPath( w );
	return 0;
}
int kReadlink( const std::string& p, std::string& out ) {
	Walk w;
	int e = walk( p, false, false, true, w );
	if ( e )
		return e;
	if ( !S_ISLNK( w.node->mode ) )
		return EINVAL;
	out = w.node->target;
	return 0;
}
int kLookup( const std::string& p, bool follow, InodeP& out ) {
	Walk w;
	int e = walk( p, follow, false, true, w );
	if ( !e )
		out = w.node;
	return e;
}
int kStatfs( const std::string& p, unsigned long& ftype ) {
	Walk w;
	int e = walk( p, true, false, true, w );
	if ( e )
		return e;
	ftype = ftypeOf( devOf( w ) );
	return 0;
}
int kChdir( const std::string& p ) {
	Walk w;
	int e = walk( p, true, false, true, w );
	if ( e )
		return e;
	if ( !S_ISDIR( w.node->mode ) )
		return ENOTDIR;
	if ( !permits( *w.node, 1 ) )
		return EACCES;
	g_cwd = trailPath( w );
	kernelDirty();
	return 0;
}
std::string kCwd() { return g_cwd; }
const std::vector<Mount>& kMounts() { return g_mounts; }

// ---------------------------------------------------------------- inotify
static std::string evText( int wd, uint32_t mask, const std::string& name, uint32_t cookie ) {
	std::string s;
	static const std::pair<uint32_t, const char*> n[] = {
		{ IN_CREATE, "CREATE" },		 { IN_DELETE, "DELETE" },
		{ IN_MODIFY, "MODIFY" },		 { IN_CLOSE_WRITE, "CLOSE_WRITE" },
		{ IN_MOVED_FROM, "MOVED_FROM" }, { IN_MOVED_TO, "MOVED_TO" },
		{ IN_IGNORED, "IGNORED" },		 { IN_Q_OVERFLOW, "Q_OVERFLOW" },
		{ IN_DELETE_SELF, "DELETE_SELF" }, { IN_MOVE_SELF, "MOVE_SELF" },
		{ IN_ATTRIB, "ATTRIB" },		 { IN_OPEN, "OPEN" },
		{ IN_ISDIR, "ISDIR" } };
	for ( auto& x : n )
		if ( mask & x.first )
			s += ( s.empty() ? "" : "|" ) + std::string( x.second );
	s += " wd=" + std::to_string( wd );
	if ( !name.empty() )
		s += " name=" + name;
	if ( cookie )
		s += " cookie=" + std::to_string( cookie );
	return s;
}
std::string inEventText( const InEvent& e ) { return evText( e.wd, e.mask, e.name, e.cookie ); }
static void queueEvent( Inotify& in, int wd, uint32_t mask, const std::string& name,
						uint32_t cookie ) {
	kernelDirty();
	if ( (int)in.q.size() >= K.maxQueued ) {
		if ( !in.overflowed ) {
			in.overflowed = true;
			in.q.push_back( InEvent{ -1, IN_Q_OVERFLOW, 0, "" } );
			in.overflows++;
			note( "kernel: inotify queue overflow" );
		}
		return;
	}
	if ( !in.q.empty() ) {
		InEvent& t = in.q.back();
		if ( t.wd == wd && t.mask == mask && t.name == name ) // the kernel does not compare cookies
			return;
	}
	in.q.push_back( InEvent{ wd, mask, cookie, name } );
	if ( narrating() )
		note( "kernel: queue " + evText( wd, mask, name, cookie ) );
}
static void emit( const InodeP& n, uint32_t mask, const std::string& name, bool isDir,
				  uint32_t cookie = 0 ) {
	if ( !n )
		return;
	for ( auto& in : g_inst )
		for ( auto& w : in->wds )
			if ( w.second.node == n && ( w.second.mask & mask ) )
				queueEvent( *in, w.first, mask | ( isDir ? IN_ISDIR : 0 ), name, cookie );
}
// ---------------------------------------------------------------- kqueue
static std::string noteText( unsigned f ) {
	static const std::pair<unsigned, const char*> n[] = { { NOTE_DELETE, "DELETE" }, { NOTE_WRITE, "WRITE" }, { NOTE_EXTEND, "EXTEND" }, { NOTE_ATTRIB, "ATTRIB" }, { NOTE_LINK, "LINK" }, { NOTE_RENAME, "RENAME" } };
	std::string s;
	for ( auto& x : n )
		if ( f & x.first )
			s += ( s.empty() ? "" : "|" ) + std::string( x.second );
	return s;
}
static void knote( const InodeP& n, unsigned hint ) {
	if ( !n )
		return;
	for ( auto& f : g_fds )
		if ( f.second->kind == Fd::KQ )
			for ( auto& k : f.second->kq->notes )
				if ( k.second.node == n && ( k.second.want & hint ) ) {
					if ( !k.second.fflags )
						f.second->kq->active.push_back( k.first );
					k.second.fflags |= k.second.want & hint;
					kernelDirty();
					if ( narrating() )
						note( "kernel: kqueue " + std::to_string( f.first ) + ": " + noteText( hint ) + " on descriptor " + std::to_string( k.first ) );
				}
}
int kEvent( Kq& q, const void* c, int nchanges, void* e, int nevents ) {
	const struct kevent* ch = (const struct kevent*)c;
	struct kevent* ev = (struct kevent*)e;
	int n = 0;
	kernelDirty();
	for ( int i = 0; i < nchanges; i++ ) {
		int err = 0;
		auto f = g_fds.find( (int)ch[i].ident );
		auto k = q.notes.find( (int)ch[i].ident );
		if ( ch[i].filter != EVFILT_VNODE )
			err = EINVAL;
		else if ( f == g_fds.end() || f->second->kind != Fd::DIR_FD )
			err = EBADF;
		else if ( k == q.notes.end() && !( ch[i].flags & EV_ADD ) )
			err = ENOENT;
		else if ( ch[i].flags & EV_DELETE ) {
			q.active.erase( std::remove( q.active.begin(), q.active.end(), k->first ), q.active.end() );
			q.notes.erase( k );
		} else {
			bool had = k != q.notes.end();
			Knote& x = q.notes[(int)ch[i].ident];
			if ( !had )
				x.flags = ch[i].flags & ( EV_ONESHOT | EV_CLEAR );
			x.node = f->second->node;
			x.want = ch[i].fflags;
			x.udata = ch[i].udata;
			if ( ch[i].flags & EV_ENABLE )
				x.enabled = true;
			if ( ch[i].flags & EV_DISABLE )
				x.enabled = false;
		}
		if ( err ) {
			if ( n == nevents )
				return n ? n : -err;
			ev[n] = ch[i];
			ev[n].flags = EV_ERROR;
			ev[n++].data = err;
		}
	}
	if ( n )
		return n;
	std::deque<int> again;
	while ( n < nevents && !q.active.empty() ) {
		int fd = q.active.front();
		q.active.pop_front();
		Knote& x = q.notes[fd];
		if ( !x.enabled ) {
			again.push_back( fd );
			continue;
		}
		ev[n].ident = fd;
		ev[n].filter = EVFILT_VNODE;
		ev[n].flags = x.flags;
		ev[n].fflags = x.fflags;
		ev[n].data = 0;
		ev[n++].udata = x.udata;
		if ( narrating() )
			note( "kernel: kevent returns " + noteText( x.fflags ) + " of descriptor " + std::to_string( fd ) );
		if ( x.flags & EV_ONESHOT )
			q.notes.erase( fd );
		else if ( x.flags & EV_CLEAR )
			x.fflags = 0;
		else
			again.push_back( fd );
	}
	for ( int fd : again )
		q.active.push_back( fd );
	return n;
}
static void inodeGone( const InodeP& n ) { // last link dropped: watches disappear
	for ( auto& in : g_inst )
		for ( auto it = in->wds.begin(); it != in->wds.end(); ) {
			if ( it->second.node == n ) {
				int wd = it->first;
				it = in->wds.erase( it );
				queueEvent( *in, wd, IN_IGNORED, "", 0 );
			} else
				++it;
		}
	freeInode( n );
}
InotifyP kInotifyNew() {
	auto p = std::make_shared<Inotify>();
	g_inst.push_back( p );
	kernelDirty();
	return p;
}
void kInotifyClose( const InotifyP& p ) {
	for ( size_t i = 0; i < g_inst.size(); i++ )
		if ( g_inst[i] == p ) {
			g_inst.erase( g_inst.begin() + i );
			break;
		}
	p->wds.clear();
	p->q.clear();
	kernelDirty();
}
int kInotifyAdd( Inotify& in, const std::string& path, uint32_t mask, int& wd ) {
	Walk w;
	int e = walk( path, !( mask & IN_DONT_FOLLOW ), false, true, w );
	if ( e )
		return e;
	if ( ( mask & IN_ONLYDIR ) && !S_ISDIR( w.node->mode ) )
		return ENOTDIR;
	if ( !permits( *w.node, 4 ) )
		return EACCES;
	uint32_t ev = mask & ( IN_ALL_EVENTS | IN_ONESHOT );
	if ( !( mask & IN_ALL_EVENTS ) )
		return EINVAL;
	for ( auto& x : in.wds )
		if ( x.second.node == w.node ) {
			if ( mask & IN_MASK_CREATE )
				return EEXIST;
			x.second.mask = ( mask & IN_MASK_ADD ) ? ( x.second.mask | ev ) : ev;
			wd = x.first;
			kernelDirty();
			return 0;
		}
	int total = 0;
	for ( auto& i : g_inst )
		total += i->wds.size();
	if ( total >= K.maxWatches )
		return ENOSPC;
	while ( in.wds.count( in.nextWd ) )
		in.nextWd = in.nextWd == INT_MAX ? 1 : in.nextWd + 1;
	wd = in.nextWd;
	in.nextWd = in.nextWd == INT_MAX ? 1 : in.nextWd + 1;
	in.wds[wd] = InWatch{ w.node, ev, trailPath( w ) };
	kernelDirty();
	if ( narrating() )
		note( "kernel: wd " + std::to_string( wd ) + " = " + trailPath( w ) );
	return 0;
}
int kInotifyRm( Inotify& in, int wd ) {
	auto it = in.wds.find( wd );
	if ( it == in.wds.end() )
		return EINVAL;
	in.wds.erase( it );
	queueEvent( in, wd, IN_IGNORED, "", 0 );
	return 0;
}
static size_t evLen( const InEvent& e ) {
	return e.name.empty() ? 0 : ( e.name.size() + 1 + 15 ) / 16 * 16;
}
ssize_t kInotifyRead( Inotify& in, char* buf, size_t cap, int maxEvents ) {
	size_t o = 0;
	while ( !in.q.empty() && maxEvents-- > 0 ) {
		InEvent& e = in.q.front();
		size_t l = evLen( e );
		if ( o + 16 + l > cap ) {
			if ( o == 0 )
				return -EINVAL;
			break;
		}
		struct inotify_event ie;
		ie.wd = e.wd;
		ie.mask = e.mask;
		ie.cookie = e.cookie;
		ie.len = l;
		memcpy( buf + o, &ie, 16 );
		memset( buf + o + 16, 0, l );
		memcpy( buf + o + 16, e.name.data(), e.name.size() );
		if ( narrating() )
			note( "reads " + inEventText( e ) );
		if ( e.mask & IN_Q_OVERFLOW )
			in.overflowed = false;
		o += 16 + l;
		in.q.pop_front();
	}
	kernelDirty();
	return (ssize_t)o;
}

// ---------------------------------------------------------------- life cycle
static void realWipe( const std::string& d ) {
	DIR* dp = opendir( d.c_str() );
	if ( !dp )
		return;
	std::vector<std::string> names;
	while ( dirent* de = readdir( dp ) ) {
		std::string n = de->d_name;
		if ( n != "." && n != ".." )
			names.push_back( n );
	}
	closedir( dp );
	for ( auto& n : names ) {
		std::string p = d + "/" + n;
		struct stat st;
		if ( !lstat( p.c_str(), &st ) && S_ISDIR( st.st_mode ) ) {
			::chmod( p.c_str(), 0755 );
			realWipe( p );
			::rmdir( p.c_str() );
		} else
			::unlink( p.c_str() );
	}
}
void kernelReset() {
	Host h;
	g_inst.clear();
	g_inodes.clear();
	g_mounts.clear();
	g_fds.clear();
	g_nextFd = K.firstFd;
	g_freeIno.clear();
	g_nextIno = 100;
	g_cwd = "/";
	g_cookie = K.cookieStart;
	g_dirty = true;
	unsigned u = K.uid;
	K.uid = 0;
	g_rootI = newInode( S_IFDIR | 0755 );
	InodeP cur = g_rootI;
	for ( auto& c : splitPath( K.root ) ) {
		InodeP n = newInode( S_IFDIR | 0755 );
		cur->kids[c] = n;
		cur = n;
	}
	K.uid = u;
	cur->uid = u;
	if ( K.real ) {
		if ( K.root.find( "efswmc" ) == std::string::npos )
			_exit( 97 ); // never touch anything but the scratch directory
		::mkdir( K.root.c_str(), 0755 );
		realWipe( K.root );
		struct timespec ts[2] = { { nowNs() / 1000000000, 0 }, { nowNs() / 1000000000, 0 } };
		utimensat( AT_FDCWD, K.root.c_str(), ts, 0 );
		(void)!::chdir( "/" );
	}
}
static void breakCycles( const InodeP& n ) {
	for ( auto& k : n->kids )
		if ( S_ISDIR( k.second->mode ) )
			breakCycles( k.second );
	n->kids.clear();
}
void kernelShutdown() {
	Host h;
	if ( K.real ) {
		for ( auto& f : g_fds )
			if ( f.second->realFd >= 0 )
				::close( f.second->realFd );
		realCloseAll();
	}
	g_fds.clear();
	g_inst.clear();
	g_mounts.clear();
	if ( g_rootI )
		breakCycles( g_rootI );
	g_rootI = nullptr;
}
static uint64_t hashInode( const Inode& n ) {
	uint64_t h = hm( n.mode, n.size );
	h = hm( h, n.mtimeNs );
	h = hm( h, n.ino );
	if ( S_ISLNK( n.mode ) )
		h = hm( h, hs( n.target ) );
	for ( auto& k : n.kids ) {
		h = hm( h, hs( k.first ) );
		h = hm( h, hashInode( *k.second ) );
	}
	return h;
}
uint64_t kernelHash() {
	if ( K.real )
		return 0;
	if ( !g_dirty )
		return g_hash;
	uint64_t h = hashInode( *g_rootI );
	for ( auto& in : g_inst ) {
		h = hm( h, in->nextWd );
		for ( auto& w : in->wds )
			h = hm( h, w.first * 1000003ull + w.second.node->ino );
		h = hm( h, in->q.size() );
		for ( auto& e : in->q ) {
			if ( in->q.size() > 256 && &e != &in->q.front() && &e != &in->q.back() )
				continue; // the states are only counted, by their hashes
			h = hm( hm( h, e.wd * 131ull + e.mask ), hs( e.name ) + e.cookie );
		}
	}
	for ( auto& f : g_fds )
		if ( f.second->kind == Fd::KQ )
			for ( auto& k : f.second->kq->notes )
				h = hm( hm( h, k.first * 1000003ull + f.first ), k.second.node->ino * 64 + k.second.fflags );
	g_hash = h;
	g_dirty = false;
	return h;
}
int openSimFds() { return (int)g_fds.size() + openDirCount(); }
int inotifyWatchCount() {
	int n = 0;
	for ( auto& i : g_inst )
		n += i->wds.size();
	return n;
}
static bool findPath( const InodeP& from, const InodeP& n, std::string& path ) {
	if ( from == n )
		return true;
	for ( auto& k : from->kids )
		if ( S_ISDIR( k.second->mode ) ) {
			std::string s = path + "/" + k.first;
			if ( findPath( k.second, n, s ) ) {
				path = s;
				return true;
			}
		}
	return false;
}
std::set<std::string> inotifyWatchedPaths() {
	std::set<std::string> s;
	for ( auto& i : g_inst )
		for ( auto& w : i->wds ) {
			std::string p;
			s.insert( findPath( g_rootI, w.second.node, p ) ? p : "(deleted) " + w.second.path );
		}
	return s;
}
int inotifyOverflows( int n ) { return n < (int)g_inst.size() ? g_inst[n]->overflows : 0; }
int inotifyQueued() {
	int n = 0;
	for ( auto& i : g_inst )
		n += i->q.size();
	return n;
}

// ---------------------------------------------------------------- environment operations
namespace fs {

static std::string parentOf( const std::string& p ) {
	size_t s = p.rfind( '/' );
	return s == 0 ? "/" : p.substr( 0, s );
}
static void stamp( const std::string& p ) { // real kernel: give it the virtual time
	struct timespec ts[2] = { { nowNs() / 1000000000, nowNs() % 1000000000 },
							  { nowNs() / 1000000000, nowNs() % 1000000000 } };
	utimensat( AT_FDCWD, p.c_str(), ts, AT_SYMLINK_NOFOLLOW );
}
static std::string rel( const std::string& p ) {
	return p.compare( 0, K.root.size(), K.root ) == 0 ? p.substr( K.root.size() ) : p;
}
// every operation: a scheduling point, then the kernel step
struct Op {
	Op( const char* what, const std::string& p, const std::string& b = "" ) {
		schedPoint( what );
		++g_host;
		if ( narrating() )
			note( std::string( "user: " ) + what + " " + rel( p ) + ( b.empty() ? "" : " " + rel( b ) ) );
	}
	~Op() { --g_host; }
};
static int fail( int e ) {
	if ( narrating() )
		note( std::string( "user: operation failed: " ) + strerror( e ) );
	return -e;
}

int mkdir( const std::string& p, unsigned mode ) {
	Op op( "mkdir", p );
	if ( K.real ) {
		int r = ::mkdir( p.c_str(), mode );
		if ( !r ) {
			stamp( p );
			stamp( parentOf( p ) );
		}
		return r ? -errno : 0;
	}
	Walk w;
	int e = walk( p, false, true, false, w );
	if ( e )
		return fail( e );
	if ( w.node )
		return fail( EEXIST );
	InodeP n = newInode( S_IFDIR | mode );
	w.parent->kids[w.name] = n;
	w.parent->mtimeNs = nowNs();
	kernelDirty();
	emit( w.parent, IN_CREATE, w.name, true );
	knote( w.parent, NOTE_WRITE | NOTE_LINK );
	return 0;
}

static int openCreate( const std::string& p, bool trunc, InodeP& node, InodeP& parent,
					   std::string& name, bool mustExist ) {
	Walk w;
	int e = walk( p, true, !mustExist, false, w );
	if ( e )
		return e;
	parent = w.parent;
	name = w.name;
	if ( !w.node ) {
		node = newInode( S_IFREG | 0644 );
		parent->kids[name] = node;
		parent->mtimeNs = nowNs();
		kernelDirty();
		emit( parent, IN_CREATE, name, false );
		knote( parent, NOTE_WRITE );
	} else {
		if ( S_ISDIR( w.node->mode ) )
			return EISDIR;
		node = w.node;
	}
	emit( parent, IN_OPEN, name, false );
	emit( node, IN_OPEN, "", false );
	if ( w.node && trunc ) {
		node->size = 0;
		node->mtimeNs = nowNs();
		kernelDirty();
		emit( parent, IN_MODIFY, name, false );
		emit( node, IN_MODIFY, "", false );
		knote( node, NOTE_ATTRIB );
	}
	return 0;
}
static int realOpen( const std::string& p, int flags ) { return ::open( p.c_str(), flags, 0644 ); }

int create( const std::string& p, bool content ) {
	Op op( "create", p );
	if ( K.real ) {
		bool had = exists( p );
		int fd = realOpen( p, O_CREAT | O_TRUNC | O_WRONLY );
		if ( fd < 0 )
			return -errno;
		stamp( p );
		if ( !had )
			stamp( parentOf( p ) );
		if ( content ) {
			schedPoint( "write" );
			(void)!::write( fd, "x", 1 );
			stamp( p );
		}
		schedPoint( "close" );
		::close( fd );
		return 0;
	}
	InodeP n, d;
	std::string name;
	int e = openCreate( p, true, n, d, name, false );
	if ( e )
		return fail( e );
	if ( content ) {
		schedPoint( "write" );
		n->size += K.sizeUnit;
		n->mtimeNs = nowNs();
		kernelDirty();
		emit( d, IN_MODIFY, name, false );
		emit( n, IN_MODIFY, "", false );
		knote( n, NOTE_WRITE | NOTE_EXTEND );
	}
	schedPoint( "close" );
	emit( d, IN_CLOSE_WRITE, name, false );
	emit( n, IN_CLOSE_WRITE, "", false );
	return 0;
}
int createNoClose( const std::string& p ) {
	Op op( "create (left open)", p );
	if ( K.real ) {
		int fd = realOpen( p, O_CREAT | O_TRUNC | O_WRONLY );
		if ( fd < 0 )
			return -errno;
		(void)!::write( fd, "x", 1 );
		stamp( p );
		stamp( parentOf( p ) );
		realKeepFd( fd );
		return 0;
	}
	InodeP n, d;
	std::string name;
	int e = openCreate( p, true, n, d, name, false );
	if ( e )
		return fail( e );
	n->size += K.sizeUnit;
	n->mtimeNs = nowNs();
	kernelDirty();
	emit( d, IN_MODIFY, name, false );
	emit( n, IN_MODIFY, "", false );
	knote( n, NOTE_WRITE | NOTE_EXTEND );
	return 0;
}
static int writeImpl( const std::string& p, bool grow, const char* what, bool close = true ) {
	Op op( what, p );
	if ( K.real ) {
		int fd = realOpen( p, O_WRONLY | ( grow ? O_APPEND : 0 ) );
		if ( fd < 0 )
			return -errno;
		(void)!::write( fd, "y", 1 );
		stamp( p );
		if ( !close ) {
			realKeepFd( fd );
			return 0;
		}
		schedPoint( "close" );
		::close( fd );
		return 0;
	}
	InodeP n, d;
	std::string name;
	int e = openCreate( p, false, n, d, name, true );
	if ( e )
		return fail( e );
	if ( grow || n->size == 0 )
		n->size += K.sizeUnit;
	n->mtimeNs = nowNs();
	kernelDirty();
	emit( d, IN_MODIFY, name, false );
	emit( n, IN_MODIFY, "", false );
	knote( n, NOTE_WRITE | NOTE_EXTEND );
	if ( !close )
		return 0;
	schedPoint( "close" );
	emit( d, IN_CLOSE_WRITE, name, false );
	emit( n, IN_CLOSE_WRITE, "", false );
	return 0;
}
int writeNoClose( const std::string& p ) { return writeImpl( p, true, "write (left open)", false ); }
int write( const std::string& p ) { return writeImpl( p, true, "write" ); }
int writeKeepTime( const std::string& p ) {
	if ( K.real ) {
		struct ::stat s;
		{
			Host h;
			if ( ::stat( p.c_str(), &s ) )
				return -errno;
		}
		int e = writeImpl( p, true, "write" );
		if ( e )
			return e;
		Op op( "set time", p );
		struct timespec ts[2] = { s.st_atim, s.st_mtim };
		return utimensat( AT_FDCWD, p.c_str(), ts, 0 ) ? -errno : 0;
	}
	Stat st;
	{
		Host h;
		if ( !stat( p, st, true ) )
			return -ENOENT;
	}
	int e = writeImpl( p, true, "write" );
	if ( e )
		return e;
	Op op( "set time", p );
	Walk w;
	e = walk( p, true, false, false, w );
	if ( e )
		return fail( e );
	w.node->mtimeNs = st.mtimeNs;
	kernelDirty();
	emit( w.parent, IN_ATTRIB, w.name, false );
	emit( w.node, IN_ATTRIB, "", false );
	knote( w.node, NOTE_ATTRIB );
	return 0;
}
int writeSameSize( const std::string& p ) { return writeImpl( p, false, "overwrite" ); }

int unlink( const std::string& p ) {
	Op op( "unlink", p );
	if ( K.real ) {
		int r = ::unlink( p.c_str() );
		if ( !r )
			stamp( parentOf( p ) );
		return r ? -errno : 0;
	}
	Walk w;
	int e = walk( p, false, false, false, w );
	if ( e )
		return fail( e );
	if ( S_ISDIR( w.node->mode ) )
		return fail( EISDIR );
	InodeP n = w.node;
	w.parent->kids.erase( w.name );
	w.parent->mtimeNs = nowNs();
	n->nlink--;
	kernelDirty();
	if ( n->nlink == 0 ) {
		emit( n, IN_ATTRIB, "", false );
		emit( n, IN_DELETE_SELF, "", false );
		inodeGone( n );
	} else
		emit( n, IN_ATTRIB, "", false );
	emit( w.parent, IN_DELETE, w.name, false );
	knote( w.parent, NOTE_WRITE );
	knote( n, NOTE_DELETE );
	return 0;
}
int rmdir( const std::string& p ) {
	Op op( "rmdir", p );
	if ( K.real ) {
		int r = ::rmdir( p.c_str() );
		if ( !r )
			stamp( parentOf( p ) );
		return r ? -errno : 0;
	}
	Walk w;
	int e = walk( p, false, false, false, w );
	if ( e )
		return fail( e );
	if ( !S_ISDIR( w.node->mode ) )
		return fail( ENOTDIR );
	if ( !w.node->kids.empty() )
		return fail( ENOTEMPTY );
	for ( auto& m : g_mounts )
		if ( m.root == w.node )
			return fail( EBUSY );
	InodeP n = w.node;
	w.parent->kids.erase( w.name );
	w.parent->mtimeNs = nowNs();
	n->nlink = 0;
	kernelDirty();
	emit( n, IN_DELETE_SELF, "", true );
	inodeGone( n );
	emit( w.parent, IN_DELETE, w.name, true );
	knote( w.parent, NOTE_WRITE | NOTE_LINK );
	knote( n, NOTE_DELETE );
	return 0;
}
int rename( const std::string& a, const std::string& b ) {
	Op op( "rename", a, b );
	if ( K.real ) {
		int r = ::rename( a.c_str(), b.c_str() );
		if ( !r ) {
			stamp( parentOf( a ) );
			stamp( parentOf( b ) );
		}
		return r ? -errno : 0;
	}
	Walk wa, wb;
	int e = walk( a, false, false, false, wa );
	if ( e )
		return fail( e );
	e = walk( b, false, true, false, wb );
	if ( e )
		return fail( e );
	if ( wb.node == wa.node )
		return 0;
	bool dir = S_ISDIR( wa.node->mode );
	if ( dir ) // into itself
		for ( auto& t : wb.trail )
			if ( t.second == wa.node )
				return fail( EINVAL );
	InodeP victim = wb.node;
	if ( victim ) {
		bool vd = S_ISDIR( victim->mode );
		for ( auto& t : wa.trail )
			if ( t.second == victim )
				return fail( ENOTEMPTY );
		if ( dir && !vd )
			return fail( ENOTDIR );
		if ( !dir && vd )
			return fail( EISDIR );
		if ( vd && !victim->kids.empty() )
			return fail( ENOTEMPTY );
	}
	InodeP n = wa.node;
	wa.parent->kids.erase( wa.name );
	wb.parent->kids[wb.name] = n;
	wa.parent->mtimeNs = wb.parent->mtimeNs = nowNs();
	if ( victim )
		victim->nlink = S_ISDIR( victim->mode ) ? 0 : victim->nlink - 1;
	kernelDirty();
	uint32_t ck = ++g_cookie;
	emit( wa.parent, IN_MOVED_FROM, wa.name, dir, ck );
	if ( K.splitRename )
		schedPoint( "between the two halves of a rename" );
	emit( wb.parent, IN_MOVED_TO, wb.name, dir, ck );
	if ( victim )
		emit( victim, IN_ATTRIB, "", S_ISDIR( victim->mode ) );
	emit( n, IN_MOVE_SELF, "", dir );
	if ( victim && victim->nlink == 0 ) {
		emit( victim, IN_DELETE_SELF, "", S_ISDIR( victim->mode ) );
		inodeGone( victim );
	}
	unsigned links = dir && wa.parent != wb.parent ? NOTE_LINK : 0;
	knote( wa.parent, NOTE_WRITE | links );
	if ( wb.parent != wa.parent )
		knote( wb.parent, NOTE_WRITE | links );
	knote( n, NOTE_RENAME );
	knote( victim, NOTE_DELETE );
	return 0;
}
int link( const std::string& a, const std::string& b ) {
	Op op( "link", a, b );
	if ( K.real ) {
		int r = ::link( a.c_str(), b.c_str() );
		if ( !r )
			stamp( parentOf( b ) );
		return r ? -errno : 0;
	}
	Walk wa, wb;
	int e = walk( a, false, false, false, wa );
	if ( e )
		return fail( e );
	if ( S_ISDIR( wa.node->mode ) )
		return fail( EPERM );
	e = walk( b, false, true, false, wb );
	if ( e )
		return fail( e );
	if ( wb.node )
		return fail( EEXIST );
	wb.parent->kids[wb.name] = wa.node;
	wb.parent->mtimeNs = nowNs();
	wa.node->nlink++;
	kernelDirty();
	emit( wa.node, IN_ATTRIB, "", false );
	emit( wb.parent, IN_CREATE, wb.name, false );
	knote( wa.node, NOTE_LINK );
	knote( wb.parent, NOTE_WRITE );
	return 0;
}
int symlink( const std::string& target, const std::string& p ) {
	Op op( "symlink", target, p );
	if ( K.real ) {
		int r = ::symlink( target.c_str(), p.c_str() );
		if ( !r ) {
			stamp( p );
			stamp( parentOf( p ) );
		}
		return r ? -errno : 0;
	}
	Walk w;
	int e = walk( p, false, true, false, w );
	if ( e )
		return fail( e );
	if ( w.node )
		return fail( EEXIST );
	InodeP n = newInode( S_IFLNK | 0777 );
	n->target = target;
	w.parent->kids[w.name] = n;
	w.parent->mtimeNs = nowNs();
	kernelDirty();
	emit( w.parent, IN_CREATE, w.name, false );
	knote( w.parent, NOTE_WRITE );
	return 0;
}
int special( const std::string& p ) {
	Op op( "mknod", p );
	if ( K.real ) {
		int r = ::mknod( p.c_str(), S_IFSOCK | 0644, 0 );
		if ( !r ) {
			stamp( p );
			stamp( parentOf( p ) );
		}
		return r ? -errno : 0;
	}
	Walk w;
	int e = walk( p, false, true, false, w );
	if ( e )
		return fail( e );
	if ( w.node )
		return fail( EEXIST );
	w.parent->kids[w.name] = newInode( S_IFSOCK | 0644 );
	w.parent->mtimeNs = nowNs();
	kernelDirty();
	emit( w.parent, IN_CREATE, w.name, false );
	knote( w.parent, NOTE_WRITE );
	return 0;
}
int chmod( const std::string& p, unsigned mode ) {
	Op op( "chmod", p );
	if ( K.real )
		return ::chmod( p.c_str(), mode ) ? -errno : 0;
	Walk w;
	int e = walk( p, true, false, false, w );
	if ( e )
		return fail( e );
	w.node->mode = ( w.node->mode & S_IFMT ) | mode;
	kernelDirty();
	bool d = S_ISDIR( w.node->mode );
	emit( w.parent, IN_ATTRIB, w.name, d );
	emit( w.node, IN_ATTRIB, "", d );
	knote( w.node, NOTE_ATTRIB );
	return 0;
}
int chown( const std::string& p, unsigned uid, unsigned gid ) {
	Op op( gid == (unsigned)-1 ? "chown" : "chgrp", p );
	if ( K.real )
		return ::chown( p.c_str(), uid, gid ) ? -errno : 0;
	Walk w;
	int e = walk( p, true, false, false, w );
	if ( e )
		return fail( e );
	if ( !S_ISDIR( w.node->mode ) )
		w.node->mode &= ~04000; // as the kernel does
	if ( uid != (unsigned)-1 )
		w.node->uid = uid;
	if ( gid != (unsigned)-1 )
		w.node->gid = gid;
	kernelDirty();
	bool d = S_ISDIR( w.node->mode );
	emit( w.parent, IN_ATTRIB, w.name, d );
	emit( w.node, IN_ATTRIB, "", d );
	knote( w.node, NOTE_ATTRIB );
	return 0;
}
int touch( const std::string& p ) {
	Op op( "touch", p );
	if ( K.real ) {
		stamp( p );
		return 0;
	}
	Walk w;
	int e = walk( p, true, false, false, w );
	if ( e )
		return fail( e );
	w.node->mtimeNs = nowNs();
	kernelDirty();
	bool d = S_ISDIR( w.node->mode );
	emit( w.parent, IN_ATTRIB, w.name, d );
	emit( w.node, IN_ATTRIB, "", d );
	knote( w.node, NOTE_ATTRIB );
	return 0;
}
int backdate( const std::string& p ) {
	Op op( "backdate", p );
	const int64_t d = 3600ll * 1000000000ll;
	if ( K.real ) {
		struct ::stat s;
		if ( ::stat( p.c_str(), &s ) )
			return -errno;
		int64_t t = s.st_mtim.tv_sec * 1000000000ll + s.st_mtim.tv_nsec - d;
		struct timespec ts[2] = { { t / 1000000000, t % 1000000000 }, { t / 1000000000, t % 1000000000 } };
		utimensat( AT_FDCWD, p.c_str(), ts, 0 );
		return 0;
	}
	Walk w;
	int e = walk( p, true, false, false, w );
	if ( e )
		return fail( e );
	w.node->mtimeNs -= d;
	kernelDirty();
	bool dir = S_ISDIR( w.node->mode );
	emit( w.parent, IN_ATTRIB, w.name, dir );
	emit( w.node, IN_ATTRIB, "", dir );
	knote( w.node, NOTE_ATTRIB );
	return 0;
}
int truncate( const std::string& p ) {
	Op op( "truncate", p );
	if ( K.real ) {
		int fd = realOpen( p, O_WRONLY | O_TRUNC );
		if ( fd < 0 )
			return -errno;
		stamp( p );
		schedPoint( "close" );
		::close( fd );
		return 0;
	}
	InodeP n, d;
	std::string name;
	int e = openCreate( p, true, n, d, name, true );
	if ( e )
		return fail( e );
	schedPoint( "close" );
	emit( d, IN_CLOSE_WRITE, name, false );
	emit( n, IN_CLOSE_WRITE, "", false );
	return 0;
}
int rmTree( const std::string& p ) {
	if ( !isDir( p ) )
		return unlink( p );
	for ( auto& n : list( p ) )
		rmTree( p + "/" + n );
	return rmdir( p );
}
bool stat( const std::string& p, Stat& st, bool follow ) {
	Host h;
	if ( K.real ) {
		struct ::stat s;
		if ( follow ? ::stat( p.c_str(), &s ) : ::lstat( p.c_str(), &s ) )
			return false;
		st.ino = s.st_ino;
		st.mode = s.st_mode;
		st.uid = s.st_uid;
		st.gid = s.st_gid;
		st.size = S_ISDIR( s.st_mode ) ? 4096 : s.st_size;
		st.mtimeNs = s.st_mtim.tv_sec * 1000000000ll + s.st_mtim.tv_nsec;
		st.dev = s.st_dev;
		st.nlink = s.st_nlink;
		return true;
	}
	return kStat( p, follow, st, false ) == 0;
}
bool exists( const std::string& p ) {
	Stat st;
	return stat( p, st, false );
}
bool isDir( const std::string& p, bool follow ) {
	Stat st;
	return stat( p, st, follow ) && S_ISDIR( st.mode );
}
std::string readlink( const std::string& p ) {
	Host h;
	std::string t;
	if ( K.real ) {
		char b[4096];
		ssize_t n = ::readlink( p.c_str(), b, sizeof b );
		return n > 0 ? std::string( b, n ) : "";
	}
	return kReadlink( p, t ) ? "" : t;
}
std::vector<std::string> list( const std::string& p ) {
	Host h;
	std::vector<std::string> v;
	if ( K.real ) {
		DIR* d = opendir( p.c_str() );
		if ( !d )
			return v;
		while ( dirent* e = readdir( d ) ) {
			std::string n = e->d_name;
			if ( n != "." && n != ".." )
				v.push_back( n );
		}
		closedir( d );
		std::sort( v.begin(), v.end() );
		return v;
	}
	Walk w;
	if ( walk( p, true, false, false, w ) || !S_ISDIR( w.node->mode ) )
		return v;
	for ( auto& k : w.node->kids )
		v.push_back( k.first );
	return v;
}
static void treeRec( const std::string& p, std::map<std::string, char>& m ) {
	for ( auto& n : list( p ) ) {
		std::string q = p + "/" + n;
		Stat st;
		if ( !stat( q, st, false ) )
			continue;
		m[q] = S_ISDIR( st.mode ) ? 'd' : S_ISLNK( st.mode ) ? 'l' : S_ISSOCK( st.mode ) ? 's' : 'f';
		if ( S_ISDIR( st.mode ) )
			treeRec( q, m );
	}
}
std::map<std::string, char> tree( const std::string& p ) {
	Host h;
	std::map<std::string, char> m;
	if ( isDir( p ) )
		treeRec( p, m );
	return m;
}
void mount( const std::string& dir, uint64_t dev, unsigned long ftype, const std::string& fsname,
			bool listed ) {
	Host h;
	Walk w;
	if ( walk( dir, true, false, false, w ) )
		return;
	g_mounts.push_back( Mount{ w.node, dev, ftype, trailPath( w ), fsname, listed } );
	kernelDirty();
}
std::string cwd() {
	Host h;
	if ( K.real ) {
		char b[PATH_MAX];
		return ::getcwd( b, sizeof b ) ? b : "";
	}
	return g_cwd;
}
int setCwd( const std::string& p ) {
	Host h;
	if ( K.real )
		return ::chdir( p.c_str() ) ? -errno : 0;
	return -kChdir( p );
}
void tick() { advanceClock( 1000000000ll - nowNs() % 1000000000ll ); }

} // namespace fs
} // namespace mc
