// libc entry points used (or likely to be used) by efsw, redirected to the simulated kernel while a
// fiber runs. Outside executions, and for harness/engine code, they pass through to the real libc.
#include "internal.hpp"
#include "simfs.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <mntent.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/vfs.h>
#include <unistd.h>

using namespace mc;
#define EXPORT extern "C" __attribute__( ( visibility( "default" ) ) )

template <class F> static F realFn( const char* name, F ) {
	return (F)dlsym( RTLD_NEXT, name );
}
#define REAL( name )                                                \
	static auto real_##name = realFn( #name, (decltype( &name )) nullptr )

extern "C" void* mc_malloc( size_t );
namespace mc {
void* arenaAllocPc( size_t n, const void* pc );
void shadowCheck( const void* p, size_t n, bool w, const void* pc );
}
#define PC __builtin_return_address( 0 )

// calls made by efsw, by name
static struct {
	const char* name;
	uint64_t n;
} g_calls[32];
static void count( const char* call ) {
	for ( auto& c : g_calls ) {
		if ( !c.name )
			c.name = call;
		if ( !strcmp( c.name, call ) ) {
			c.n++;
			return;
		}
	}
}
namespace mc {
uint64_t callCount( const char* call ) {
	uint64_t n = 0;
	for ( auto& c : g_calls )
		if ( c.name && ( !call || !strcmp( c.name, call ) ) )
			n += c.n;
	return n;
}
} // namespace mc

static int fault( const char* call, std::initializer_list<int> errs ) {
	count( call );
	if ( K.real )
		return 0;
	int k = faultChoice( call, (int)errs.size() );
	return k ? errs.begin()[k - 1] : 0;
}
static int ret( int e ) {
	if ( e ) {
		errno = e;
		return -1;
	}
	return 0;
}

// ------------------------------------------------------------------ stat family
static void fill( struct stat* st, const Stat& s ) {
	memset( (void*)st, 0, sizeof *st );
	st->st_ino = s.ino;
	st->st_mode = s.mode;
	st->st_uid = s.uid;
	st->st_gid = s.gid;
	st->st_size = s.size;
	st->st_dev = s.dev;
	st->st_nlink = s.nlink;
	st->st_mtim.tv_sec = s.mtimeNs / 1000000000;
	st->st_mtim.tv_nsec = s.mtimeNs % 1000000000;
	st->st_ctim = st->st_mtim;
	st->st_atim = st->st_mtim;
	st->st_blksize = 4096;
}
static int statImpl( const char* p, bool follow, struct stat* st, const void* pc ) {
	schedPoint( follow ? "stat" : "lstat" );
	shadowCheck( st, sizeof *st, true, pc );
	Host h;
	if ( int e = fault( follow ? "stat" : "lstat", { ENOENT, EACCES } ) )
		return ret( e );
	if ( K.real ) {
		int r = follow ? ::stat( p, st ) : ::lstat( p, st );
		if ( !r && S_ISDIR( st->st_mode ) )
			st->st_size = 4096;
		return r;
	}
	Stat s;
	int e = kStat( p, follow, s, true );
	if ( narrating() )
		note( std::string( follow ? "stat " : "lstat " ) + p + ( e ? " -> error" : "" ) );
	if ( e )
		return ret( e );
	fill( st, s );
	return 0;
}
EXPORT int stat( const char* p, struct stat* st ) noexcept {
	if ( inSim() )
		return statImpl( p, true, st, PC );
	REAL( stat );
	return real_stat( p, st );
}
EXPORT int lstat( const char* p, struct stat* st ) noexcept {
	if ( inSim() )
		return statImpl( p, false, st, PC );
	REAL( lstat );
	return real_lstat( p, st );
}
EXPORT int stat64( const char* p, struct stat64* st ) noexcept {
	return stat( p, (struct stat*)st );
}
EXPORT int lstat64( const char* p, struct stat64* st ) noexcept {
	return lstat( p, (struct stat*)st );
}
static std::string inodePath( const InodeP& n );
EXPORT int fstat( int fd, struct stat* st ) noexcept {
	if ( inSim() ) {
		schedPoint( "fstat" );
		Host h;
		auto it = g_fds.find( fd );
		if ( it != g_fds.end() && it->second->node ) {
			Stat s;
			kStatInode( *it->second->node, s );
			fill( st, s );
			return 0;
		}
	}
	REAL( fstat );
	return real_fstat( fd, st );
}
EXPORT int fstat64( int fd, struct stat64* st ) noexcept { return fstat( fd, (struct stat*)st ); }
static std::string atPath( int fd, const char* p ) {
	if ( fd == AT_FDCWD || p[0] == '/' )
		return p;
	auto it = g_fds.find( fd );
	if ( it == g_fds.end() || !it->second->node )
		return p;
	return inodePath( it->second->node ) + "/" + p;
}
EXPORT int fstatat( int fd, const char* p, struct stat* st, int fl ) noexcept {
	if ( inSim() ) {
		if ( ( fl & AT_EMPTY_PATH ) && !*p )
			return fstat( fd, st );
		std::string q;
		{
			Host h;
			q = atPath( fd, p );
		}
		return statImpl( q.c_str(), !( fl & AT_SYMLINK_NOFOLLOW ), st, PC );
	}
	REAL( fstatat );
	return real_fstatat( fd, p, st, fl );
}
EXPORT int fstatat64( int fd, const char* p, struct stat64* st, int fl ) noexcept {
	return fstatat( fd, p, (struct stat*)st, fl );
}
EXPORT int statx( int fd, const char* p, int fl, unsigned, struct statx* sx ) noexcept {
	if ( inSim() ) {
		struct stat st;
		if ( fstatat( fd, p, &st, fl & ( AT_SYMLINK_NOFOLLOW | AT_EMPTY_PATH ) ) )
			return -1;
		memset( sx, 0, sizeof *sx );
		sx->stx_mask = STATX_BASIC_STATS;
		sx->stx_ino = st.st_ino;
		sx->stx_mode = st.st_mode;
		sx->stx_uid = st.st_uid;
		sx->stx_gid = st.st_gid;
		sx->stx_size = st.st_size;
		sx->stx_nlink = st.st_nlink;
		sx->stx_mtime.tv_sec = st.st_mtim.tv_sec;
		sx->stx_mtime.tv_nsec = st.st_mtim.tv_nsec;
		sx->stx_ctime = sx->stx_mtime;
		sx->stx_dev_minor = st.st_dev;
		return 0;
	}
	errno = ENOSYS;
	return -1;
}
static int accessImpl( const char* p, int mode ) {
	schedPoint( "access" );
	Host h;
	if ( K.real )
		return ::access( p, mode );
	InodeP n;
	int e = kLookup( p, true, n );
	if ( e )
		return ret( e );
	if ( mode == F_OK )
		return 0;
	return permits( *n, mode & 7 ) ? 0 : ret( EACCES );
}
EXPORT int access( const char* p, int mode ) noexcept {
	if ( inSim() )
		return accessImpl( p, mode );
	REAL( access );
	return real_access( p, mode );
}
EXPORT int euidaccess( const char* p, int mode ) noexcept {
	if ( inSim() )
		return accessImpl( p, mode );
	REAL( euidaccess );
	return real_euidaccess( p, mode );
}
EXPORT int eaccess( const char* p, int mode ) noexcept {
	if ( inSim() )
		return accessImpl( p, mode );
	REAL( eaccess );
	return real_eaccess( p, mode );
}
EXPORT int faccessat( int fd, const char* p, int mode, int fl ) noexcept {
	if ( inSim() ) {
		std::string q;
		{
			Host h;
			q = atPath( fd, p );
		}
		return accessImpl( q.c_str(), mode );
	}
	REAL( faccessat );
	return real_faccessat( fd, p, mode, fl );
}

// ------------------------------------------------------------------ directories
struct SimDir {
	uint32_t magic;
	std::vector<DirEnt> ents;
	size_t pos = 0;
	struct dirent de;
	DIR* real = nullptr;
	int fd = -1;
	bool fromFd = false;
};
static std::set<SimDir*> g_dirs;
static std::vector<int> g_keep;
namespace mc {
int openDirCount() { return (int)g_dirs.size(); }
void realCloseAll() {
	for ( auto d : g_dirs ) {
		if ( d->real )
			::closedir( d->real );
		delete d;
	}
	g_dirs.clear();
	for ( int f : g_keep )
		::close( f );
	g_keep.clear();
}
void realKeepFd( int fd ) { g_keep.push_back( fd ); }
} // namespace mc
static DIR* opendirImpl( const char* p ) {
	schedPoint( "opendir" );
	Host h;
	if ( int e = fault( "opendir", { EMFILE, EACCES } ) ) {
		errno = e;
		return nullptr;
	}
	if ( K.real ) {
		DIR* d = ::opendir( p );
		if ( !d )
			return nullptr;
		SimDir* s = new SimDir;
		s->real = d;
		g_dirs.insert( s );
		return (DIR*)s;
	}
	SimDir* s = new SimDir;
	int e = kList( p, s->ents );
	if ( narrating() )
		note( std::string( "opendir " ) + p + ( e ? " -> error" : "" ) );
	if ( e ) {
		delete s;
		errno = e;
		return nullptr;
	}
	g_dirs.insert( s );
	return (DIR*)s;
}
EXPORT DIR* opendir( const char* p ) {
	if ( inSim() )
		return opendirImpl( p );
	REAL( opendir );
	return real_opendir( p );
}
EXPORT DIR* fdopendir( int fd ) {
	if ( inSim() ) {
		Host h;
		auto it = g_fds.find( fd );
		if ( it == g_fds.end() || !it->second->node ) {
			errno = EBADF;
			return nullptr;
		}
		SimDir* s = new SimDir;
		s->fd = fd;
		s->fromFd = true;
		kListInode( *it->second->node, s->ents );
		g_dirs.insert( s );
		return (DIR*)s;
	}
	REAL( fdopendir );
	return real_fdopendir( fd );
}
EXPORT struct dirent* readdir( DIR* d ) {
	if ( inSim() ) {
		Host h;
		SimDir* s = (SimDir*)d;
		if ( !g_dirs.count( s ) )
			violation( "memory: readdir on a directory stream that is not open" );
		if ( s->real ) {
			REAL( readdir );
			return real_readdir( s->real );
		}
		if ( s->pos >= s->ents.size() )
			return nullptr;
		auto& e = s->ents[s->pos++];
		memset( &s->de, 0, sizeof s->de );
		s->de.d_ino = e.ino;
		s->de.d_type = e.type;
		s->de.d_reclen = sizeof s->de;
		snprintf( s->de.d_name, sizeof s->de.d_name, "%s", e.name.c_str() );
		return &s->de;
	}
	REAL( readdir );
	return real_readdir( d );
}
EXPORT struct dirent64* readdir64( DIR* d ) { return (struct dirent64*)readdir( d ); }
EXPORT int readdir_r( DIR* d, struct dirent* e, struct dirent** r ) {
	struct dirent* x = readdir( d );
	if ( x )
		memcpy( e, x, sizeof *e );
	*r = x ? e : nullptr;
	return 0;
}
EXPORT int closedir( DIR* d ) {
	if ( inSim() ) {
		Host h;
		SimDir* s = (SimDir*)d;
		if ( !g_dirs.count( s ) )
			violation( "memory: closedir on a directory stream that is not open" );
		g_dirs.erase( s );
		if ( s->real )
			::closedir( s->real );
		if ( s->fromFd )
			g_fds.erase( s->fd );
		delete s;
		return 0;
	}
	REAL( closedir );
	return real_closedir( d );
}
EXPORT void rewinddir( DIR* d ) noexcept {
	if ( inSim() ) {
		Host h;
		SimDir* s = (SimDir*)d;
		s->pos = 0;
		if ( s->real )
			::rewinddir( s->real );
		return;
	}
	REAL( rewinddir );
	real_rewinddir( d );
}
EXPORT int dirfd( DIR* d ) noexcept {
	if ( inSim() ) {
		errno = ENOTSUP;
		return -1;
	}
	REAL( dirfd );
	return real_dirfd( d );
}
EXPORT int scandir( const char* p, struct dirent*** out, int ( *filter )( const struct dirent* ),
					int ( *cmp )( const struct dirent**, const struct dirent** ) ) {
	if ( inSim() ) {
		DIR* d = opendir( p );
		if ( !d )
			return -1;
		std::vector<struct dirent*> v;
		while ( struct dirent* e = readdir( d ) )
			if ( !filter || filter( e ) ) {
				struct dirent* c = (struct dirent*)mc_malloc( sizeof *c );
				memcpy( c, e, sizeof *c );
				Host h;
				v.push_back( c );
			}
		closedir( d );
		if ( cmp )
			std::sort( v.begin(), v.end(), [&]( struct dirent* a, struct dirent* b ) {
				const struct dirent *x = a, *y = b;
				return cmp( &x, &y ) < 0;
			} );
		*out = (struct dirent**)mc_malloc( sizeof( void* ) * ( v.size() + 1 ) );
		for ( size_t i = 0; i < v.size(); i++ )
			( *out )[i] = v[i];
		Host h;
		int n = (int)v.size();
		v.clear();
		v.shrink_to_fit();
		return n;
	}
	REAL( scandir );
	return real_scandir( p, out, filter, cmp );
}
EXPORT int scandir64( const char* p, struct dirent64*** out,
					  int ( *filter )( const struct dirent64* ),
					  int ( *cmp )( const struct dirent64**, const struct dirent64** ) ) {
	return scandir( p, (struct dirent***)out, (int ( * )( const struct dirent* ))filter,
					(int ( * )( const struct dirent**, const struct dirent** ))cmp );
}

// ------------------------------------------------------------------ paths
static char* outPath( const std::string& s, char* buf, size_t cap, const void* pc ) {
	if ( !buf )
		buf = (char*)arenaAllocPc( std::max( s.size() + 1, cap ), pc );
	memcpy( buf, s.c_str(), s.size() + 1 );
	return buf;
}
EXPORT char* realpath( const char* p, char* buf ) noexcept {
	REAL( realpath );
	if ( inSim() ) {
		schedPoint( "realpath" );
		Host h;
		if ( int e = fault( "realpath", { ENOENT, EACCES } ) ) {
			errno = e;
			return nullptr;
		}
		if ( K.real ) {
			char b[PATH_MAX];
			if ( !real_realpath( p, b ) )
				return nullptr;
			return outPath( b, buf, 0, PC );
		}
		std::string s;
		int e = kRealpath( p, s );
		if ( e ) {
			errno = e;
			return nullptr;
		}
		return outPath( s, buf, 0, PC );
	}
	return real_realpath( p, buf );
}
EXPORT char* canonicalize_file_name( const char* p ) noexcept { return realpath( p, nullptr ); }
EXPORT char* __realpath_chk( const char* p, char* buf, size_t ) noexcept { return realpath( p, buf ); }
EXPORT ssize_t readlink( const char* p, char* buf, size_t n ) noexcept {
	REAL( readlink );
	if ( inSim() ) {
		schedPoint( "readlink" );
		Host h;
		if ( K.real || !strncmp( p, "/proc/", 6 ) )
			return real_readlink( p, buf, n );
		std::string s;
		int e = kReadlink( p, s );
		if ( e )
			return ret( e );
		size_t k = std::min( n, s.size() );
		memcpy( buf, s.data(), k );
		return k;
	}
	return real_readlink( p, buf, n );
}
EXPORT ssize_t readlinkat( int fd, const char* p, char* buf, size_t n ) noexcept {
	if ( inSim() ) {
		std::string q;
		{
			Host h;
			q = atPath( fd, p );
		}
		return readlink( q.c_str(), buf, n );
	}
	REAL( readlinkat );
	return real_readlinkat( fd, p, buf, n );
}
EXPORT int statfs( const char* p, struct statfs* b ) noexcept {
	REAL( statfs );
	if ( inSim() ) {
		schedPoint( "statfs" );
		shadowCheck( b, sizeof *b, true, PC );
		Host h;
		if ( int e = fault( "statfs", { EACCES, EIO } ) )
			return ret( e );
		if ( K.real )
			return real_statfs( p, b );
		unsigned long t;
		int e = kStatfs( p, t );
		if ( e )
			return ret( e );
		memset( (void*)b, 0, sizeof *b );
		b->f_type = t;
		return 0;
	}
	return real_statfs( p, b );
}
EXPORT int statfs64( const char* p, struct statfs64* b ) noexcept {
	return statfs( p, (struct statfs*)b );
}
EXPORT int fstatfs( int fd, struct statfs* b ) noexcept {
	REAL( fstatfs );
	if ( inSim() ) {
		Host h;
		auto it = g_fds.find( fd );
		if ( it != g_fds.end() && it->second->node ) {
			unsigned long t;
			int e = kStatfs( inodePath( it->second->node ), t );
			if ( e )
				return ret( e );
			memset( (void*)b, 0, sizeof *b );
			b->f_type = t;
			return 0;
		}
	}
	return real_fstatfs( fd, b );
}
EXPORT int chdir( const char* p ) noexcept {
	REAL( chdir );
	if ( inSim() ) {
		schedPoint( "chdir" );
		Host h;
		if ( int e = fault( "chdir", { EACCES } ) )
			return ret( e );
		if ( K.real )
			return real_chdir( p );
		return ret( kChdir( p ) );
	}
	return real_chdir( p );
}
EXPORT int fchdir( int fd ) noexcept {
	REAL( fchdir );
	if ( inSim() ) {
		Host h;
		auto it = g_fds.find( fd );
		if ( it != g_fds.end() && it->second->node )
			return ret( kChdir( inodePath( it->second->node ) ) );
	}
	return real_fchdir( fd );
}
EXPORT char* getcwd( char* b, size_t n ) noexcept {
	REAL( getcwd );
	if ( inSim() ) {
		Host h;
		if ( int e = fault( "getcwd", { ENOENT } ) ) {
			errno = e;
			return nullptr;
		}
		if ( K.real ) {
			char t[PATH_MAX];
			if ( !real_getcwd( t, sizeof t ) )
				return nullptr;
			return outPath( t, b, n, PC );
		}
		std::string s = kCwd();
		if ( b && s.size() + 1 > n ) {
			errno = ERANGE;
			return nullptr;
		}
		return outPath( s, b, n, PC );
	}
	return real_getcwd( b, n );
}
EXPORT char* get_current_dir_name() noexcept { return getcwd( nullptr, 0 ); }
EXPORT uid_t getuid() noexcept {
	REAL( getuid );
	return inSim() ? K.uid : real_getuid();
}
EXPORT uid_t geteuid() noexcept {
	REAL( geteuid );
	return inSim() ? K.uid : real_geteuid();
}

// ------------------------------------------------------------------ mounts
struct MntIter {
	size_t pos = 0;
	int stage = 0;
	struct mntent ent;
	char fsname[256], dir[PATH_MAX], type[32], opts[8];
};
static std::map<void*, MntIter*> g_mnt;
EXPORT FILE* setmntent( const char* f, const char* m ) noexcept {
	REAL( setmntent );
	if ( inSim() && !K.real ) {
		Host h;
		if ( fault( "setmntent", { EMFILE } ) )
			return nullptr;
		MntIter* it = new MntIter;
		g_mnt[it] = it;
		return (FILE*)it;
	}
	Host h;
	return real_setmntent( f, m );
}
EXPORT struct mntent* getmntent( FILE* f ) noexcept {
	REAL( getmntent );
	auto i = g_mnt.find( f );
	if ( i != g_mnt.end() ) {
		Host h;
		MntIter* it = i->second;
		auto& ms = kMounts();
		auto put = [&]( const std::string& fs, const std::string& dir ) {
			snprintf( it->fsname, sizeof it->fsname, "%s", fs.c_str() );
			snprintf( it->dir, sizeof it->dir, "%s", dir.c_str() );
			strcpy( it->type, "sim" );
			strcpy( it->opts, "rw" );
			it->ent = { it->fsname, it->dir, it->type, it->opts, 0, 0 };
			return &it->ent;
		};
		if ( it->stage == 0 ) {
			it->stage = 1;
			return put( "rootfs", "/" );
		}
		while ( it->pos < ms.size() ) {
			auto& m = ms[it->pos++];
			if ( m.listed )
				return put( m.fsname, m.path );
		}
		return nullptr;
	}
	Host h;
	return real_getmntent( f );
}
EXPORT struct mntent* getmntent_r( FILE* f, struct mntent* e, char* buf, int n ) noexcept {
	REAL( getmntent_r );
	if ( g_mnt.count( f ) ) {
		struct mntent* x = getmntent( f );
		if ( !x )
			return nullptr;
		*e = *x; // strings live in the iterator
		(void)buf;
		(void)n;
		return e;
	}
	Host h;
	return real_getmntent_r( f, e, buf, n );
}
EXPORT int endmntent( FILE* f ) noexcept {
	REAL( endmntent );
	auto i = g_mnt.find( f );
	if ( i != g_mnt.end() ) {
		Host h;
		delete i->second;
		g_mnt.erase( i );
		return 1;
	}
	Host h;
	return real_endmntent( f );
}
namespace mc {
int openMntCount() { return (int)g_mnt.size(); }
void mntReset() {
	for ( auto& m : g_mnt )
		delete m.second;
	g_mnt.clear();
}
} // namespace mc

// ------------------------------------------------------------------ descriptors
bool Fd::ready() const {
	switch ( kind ) {
		case IN:
			return !in->q.empty();
		case PIPE_R:
			return !pipe->q.empty() || !pipe->writerOpen;
		case PIPE_W:
			return true;
		case EVENT:
			return count > 0;
		case DIR_FD:
			return true;
		case KQ:
			return !kq->active.empty();
		case REAL_IN: {
			struct pollfd p = { realFd, POLLIN, 0 };
			static auto rp = (int ( * )( struct pollfd*, nfds_t, int ))dlsym( RTLD_NEXT, "poll" );
			return rp( &p, 1, 0 ) > 0 && ( p.revents & POLLIN );
		}
		case EPOLL:
			for ( auto& e : ep ) {
				auto it = g_fds.find( e.first );
				if ( it != g_fds.end() && it->second->ready() )
					return true;
			}
			return false;
	}
	return false;
}
static int addFd( FdP f ) {
	int n = g_nextFd++;
	g_fds[n] = f;
	return n;
}
static FdP getFd( int fd ) {
	auto it = g_fds.find( fd );
	return it == g_fds.end() ? nullptr : it->second;
}
static std::string inodePath( const InodeP& n ) {
	return n->target; // directory descriptors remember the path they were opened with
}
static int inotifyInit( bool nonblock ) {
	schedPoint( "inotify_init" );
	Host h;
	if ( int e = fault( "inotify_init", { EMFILE, ENOSYS } ) )
		return ret( e );
	FdP f = std::make_shared<Fd>();
	f->nonblock = nonblock;
	if ( K.real ) {
		int fd = (int)syscall( SYS_inotify_init1, IN_NONBLOCK | IN_CLOEXEC );
		f->kind = Fd::REAL_IN;
		f->realFd = fd;
		g_fds[fd] = f;
		return fd;
	}
	f->kind = Fd::IN;
	f->in = kInotifyNew();
	return addFd( f );
}
EXPORT int kqueue() {
	schedPoint( "kqueue" );
	Host h;
	FdP f = std::make_shared<Fd>();
	f->kind = Fd::KQ;
	f->kq = std::make_shared<Kq>();
	return addFd( f );
}
EXPORT int kevent( int fd, const void* changes, int nchanges, void* events, int nevents, const struct timespec* ts ) {
	schedPoint( "kevent" );
	FdP f;
	{
		Host h;
		f = getFd( fd );
	}
	if ( !f || f->kind != Fd::KQ )
		return ret( EBADF );
	if ( nevents > 0 && ( !ts || ts->tv_sec || ts->tv_nsec ) && f->kq->active.empty() ) {
		bool to = false;
		auto kq = f->kq;
		blockOn( W::Pred, "kevent", nullptr, [kq] { return !kq->active.empty(); },
				 ts ? nowNs() + ts->tv_sec * 1000000000ll + ts->tv_nsec : -1, to );
	}
	Host h;
	int n = kEvent( *f->kq, changes, nchanges, events, nevents );
	return n < 0 ? ret( -n ) : n;
}
EXPORT int inotify_init() noexcept {
	if ( inSim() )
		return inotifyInit( false );
	return (int)syscall( SYS_inotify_init1, 0 );
}
EXPORT int inotify_init1( int fl ) noexcept {
	if ( inSim() )
		return inotifyInit( fl & IN_NONBLOCK );
	return (int)syscall( SYS_inotify_init1, fl );
}
EXPORT int inotify_add_watch( int fd, const char* p, uint32_t mask ) noexcept {
	if ( inSim() ) {
		schedPoint( "inotify_add_watch" );
		Host h;
		if ( int e = fault( "inotify_add_watch", { ENOSPC, ENOENT, EACCES } ) )
			return ret( e );
		FdP f = getFd( fd );
		if ( !f )
			return ret( EBADF );
		if ( K.real )
			return (int)syscall( SYS_inotify_add_watch, f->realFd, p, mask );
		if ( f->kind != Fd::IN )
			return ret( EINVAL );
		int wd = -1;
		int e = kInotifyAdd( *f->in, p, mask, wd );
		return e ? ret( e ) : wd;
	}
	return (int)syscall( SYS_inotify_add_watch, fd, p, mask );
}
EXPORT int inotify_rm_watch( int fd, int wd ) noexcept {
	if ( inSim() ) {
		schedPoint( "inotify_rm_watch" );
		Host h;
		FdP f = getFd( fd );
		if ( !f )
			return ret( EBADF );
		if ( int e = fault( "inotify_rm_watch", { EINVAL } ) )
			return ret( e );
		if ( K.real )
			return (int)syscall( SYS_inotify_rm_watch, f->realFd, wd );
		if ( f->kind != Fd::IN )
			return ret( EINVAL );
		if ( narrating() )
			note( "inotify_rm_watch " + std::to_string( wd ) );
		return ret( kInotifyRm( *f->in, wd ) );
	}
	return (int)syscall( SYS_inotify_rm_watch, fd, wd );
}
// waits until `f` is ready or the timeout (ms; <0: none) passes. true: ready
static bool waitReady( const char* what, std::function<bool()> pred, int64_t timeoutNs ) {
	bool t = false;
	if ( timeoutNs == 0 ) {
		schedPoint( what );
		return pred();
	}
	int64_t dl = timeoutNs < 0 ? -1 : nowNs() + timeoutNs;
	if ( pred() )
		schedPoint( what );
	else
		blockOn( W::Pred, what, nullptr, pred, dl, t );
	return pred();
}
EXPORT ssize_t read( int fd, void* buf, size_t n ) {
	if ( inSim() ) {
		FdP f;
		{
			Host h;
			f = getFd( fd );
		}
		if ( !f )
			return ret( EBADF );
		schedPoint( "read" );
		shadowCheck( buf, n, true, PC );
		{
			Host h;
			if ( int e = fault( "read", { EINTR } ) )
				return ret( e );
		}
		if ( !f->ready() ) {
			if ( f->nonblock )
				return ret( EAGAIN );
			Host h;
			bool t;
			while ( !f->ready() )
				blockOn( W::Pred, "read", nullptr, [f] { return f->ready(); }, -1, t );
		}
		Host h;
		switch ( f->kind ) {
			case Fd::REAL_IN:
				return syscall( SYS_read, f->realFd, buf, n );
			case Fd::IN: {
				int max = 1 << 30;
				if ( K.readLimit > 0 && f->in->q.size() > 1 ) {
					int alts = std::min<int>( K.readLimit, f->in->q.size() - 1 );
					int k = choose( alts + 1, 1, CK::Env, "short read" );
					if ( k )
						max = k;
				}
				ssize_t r = kInotifyRead( *f->in, (char*)buf, n, max );
				return r < 0 ? ret( (int)-r ) : r;
			}
			case Fd::PIPE_R: {
				size_t k = 0;
				while ( k < n && !f->pipe->q.empty() ) {
					( (char*)buf )[k++] = f->pipe->q.front();
					f->pipe->q.pop_front();
				}
				vcAcquire( f->pipe.get() );
				return k;
			}
			case Fd::EVENT: {
				uint64_t v = f->count;
				f->count = 0;
				memcpy( buf, &v, 8 );
				vcAcquire( f.get() );
				return 8;
			}
			default:
				return ret( EINVAL );
		}
	}
	return syscall( SYS_read, fd, buf, n );
}
EXPORT ssize_t __read_chk( int fd, void* buf, size_t n, size_t ) { return read( fd, buf, n ); }
EXPORT ssize_t write( int fd, const void* buf, size_t n ) {
	if ( inSim() ) {
		FdP f;
		{
			Host h;
			f = getFd( fd );
		}
		if ( f ) {
			schedPoint( "write" );
			Host h;
			if ( f->kind == Fd::PIPE_W ) {
				vcRelease( f->pipe.get() );
				for ( size_t i = 0; i < n; i++ )
					f->pipe->q.push_back( ( (const char*)buf )[i] );
				return n;
			}
			if ( f->kind == Fd::EVENT ) {
				vcRelease( f.get() );
				uint64_t v;
				memcpy( &v, buf, 8 );
				f->count += v;
				return 8;
			}
			return ret( EBADF );
		}
	}
	return syscall( SYS_write, fd, buf, n );
}
EXPORT int close( int fd ) {
	if ( inSim() ) {
		FdP f;
		{
			Host h;
			f = getFd( fd );
		}
		if ( f ) {
			schedPoint( "close" );
			Host h;
			if ( !g_fds.count( fd ) )
				violation( "descriptor closed twice" );
			g_fds.erase( fd );
			if ( f->kind == Fd::REAL_IN ) {
				syscall( SYS_close, f->realFd );
				f->realFd = -1;
			}
			if ( f->kind == Fd::IN )
				kInotifyClose( f->in );
			if ( f->kind == Fd::PIPE_W )
				f->pipe->writerOpen = false;
			if ( f->kind == Fd::DIR_FD ) // drops what kqueues watch of it
				for ( auto& x : g_fds )
					if ( x.second->kind == Fd::KQ && x.second->kq->notes.erase( fd ) ) {
						auto& a = x.second->kq->active;
						a.erase( std::remove( a.begin(), a.end(), fd ), a.end() );
					}
			return 0;
		}
		if ( fd >= 100 && !K.real ) {
			Host h;
			violation( "close of a descriptor that is not open" );
		}
	}
	return (int)syscall( SYS_close, fd );
}
EXPORT int pipe2( int p[2], int ) noexcept {
	if ( inSim() ) {
		Host h;
		auto pp = std::make_shared<Pipe>();
		FdP r = std::make_shared<Fd>(), w = std::make_shared<Fd>();
		r->kind = Fd::PIPE_R;
		w->kind = Fd::PIPE_W;
		r->pipe = w->pipe = pp;
		p[0] = addFd( r );
		p[1] = addFd( w );
		return 0;
	}
	return (int)syscall( SYS_pipe2, p, 0 );
}
EXPORT int pipe( int p[2] ) noexcept { return pipe2( p, 0 ); }
EXPORT int eventfd( unsigned v, int fl ) noexcept {
	if ( inSim() ) {
		Host h;
		FdP f = std::make_shared<Fd>();
		f->kind = Fd::EVENT;
		f->count = v;
		f->nonblock = fl & EFD_NONBLOCK;
		return addFd( f );
	}
	return (int)syscall( SYS_eventfd2, v, fl );
}
static int openImpl( const char* p, int ) {
	schedPoint( "open" );
	Host h;
	InodeP n;
	std::string rp;
	int e = kLookup( p, true, n );
	if ( e )
		return ret( e );
	kRealpath( p, rp );
	FdP f = std::make_shared<Fd>();
	f->kind = Fd::DIR_FD;
	f->node = n;
	if ( S_ISDIR( n->mode ) )
		n->target = rp;
	return addFd( f );
}
EXPORT int open( const char* p, int fl, ... ) {
	va_list ap;
	va_start( ap, fl );
	int mode = ( fl & ( O_CREAT | O_TMPFILE ) ) ? va_arg( ap, int ) : 0;
	va_end( ap );
	if ( inSim() && !K.real && strncmp( p, "/proc/", 6 ) )
		return openImpl( p, fl );
	return (int)syscall( SYS_openat, AT_FDCWD, p, fl, mode );
}
EXPORT int open64( const char* p, int fl, ... ) {
	va_list ap;
	va_start( ap, fl );
	int mode = ( fl & ( O_CREAT | O_TMPFILE ) ) ? va_arg( ap, int ) : 0;
	va_end( ap );
	return open( p, fl, mode );
}
EXPORT int fcntl( int fd, int cmd, ... ) {
	va_list ap;
	va_start( ap, cmd );
	long arg = va_arg( ap, long );
	va_end( ap );
	if ( inSim() ) {
		FdP f = getFd( fd );
		if ( f ) {
			if ( cmd == F_SETFL )
				f->nonblock = arg & O_NONBLOCK;
			if ( cmd == F_GETFL )
				return f->nonblock ? O_NONBLOCK : 0;
			return 0;
		}
	}
	return (int)syscall( SYS_fcntl, fd, cmd, arg );
}
EXPORT int fcntl64( int fd, int cmd, ... ) {
	va_list ap;
	va_start( ap, cmd );
	long arg = va_arg( ap, long );
	va_end( ap );
	return fcntl( fd, cmd, arg );
}
EXPORT int ioctl( int fd, unsigned long req, ... ) noexcept {
	va_list ap;
	va_start( ap, req );
	void* arg = va_arg( ap, void* );
	va_end( ap );
	if ( inSim() ) {
		FdP f = getFd( fd );
		if ( f && req == FIONREAD && f->kind == Fd::IN ) {
			int n = 0;
			for ( auto& e : f->in->q )
				n += 16 + ( e.name.empty() ? 0 : ( e.name.size() + 16 ) / 16 * 16 );
			*(int*)arg = n;
			return 0;
		}
		if ( f && f->realFd >= 0 )
			fd = f->realFd;
		if ( f && req == FIONBIO ) {
			f->nonblock = *(int*)arg;
			return 0;
		}
	}
	return (int)syscall( SYS_ioctl, fd, req, arg );
}

static int selectImpl( int nfds, fd_set* r, fd_set* w, int64_t ns, const void* pc ) {
	Host h;
	if ( int e = fault( "select", { EINTR } ) )
		return ret( e );
	if ( r )
		shadowCheck( r, sizeof( fd_set ), true, pc );
	std::vector<std::pair<int, FdP>> rs, ws;
	for ( int i = 0; i < nfds && i < FD_SETSIZE; i++ ) {
		if ( r && FD_ISSET( i, r ) ) {
			FdP f = getFd( i );
			if ( !f )
				return ret( EBADF );
			rs.push_back( { i, f } );
		}
		if ( w && FD_ISSET( i, w ) ) {
			FdP f = getFd( i );
			if ( !f )
				return ret( EBADF );
			ws.push_back( { i, f } );
		}
	}
	waitReady(
		"select",
		[rs, ws] {
			for ( auto& f : rs )
				if ( f.second->ready() )
					return true;
			return !ws.empty();
		},
		ns );
	int n = 0;
	if ( r ) {
		FD_ZERO( r );
		for ( auto& f : rs )
			if ( f.second->ready() ) {
				FD_SET( f.first, r );
				n++;
			}
	}
	if ( w )
		n += ws.size();
	return n;
}
static bool badTime( const struct timespec* ts ) {
	return ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000;
}
EXPORT int select( int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv ) {
	if ( inSim() ) {
		if ( e )
			FD_ZERO( e );
		if ( tv && ( tv->tv_sec < 0 || tv->tv_usec < 0 ) ) {
			errno = EINVAL;
			return -1;
		}
		return selectImpl( nfds, r, w, tv ? tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll : -1,
						   PC );
	}
	REAL( select );
	return real_select( nfds, r, w, e, tv );
}
EXPORT int pselect( int nfds, fd_set* r, fd_set* w, fd_set* e, const struct timespec* ts,
					const sigset_t* m ) {
	if ( inSim() ) {
		if ( e )
			FD_ZERO( e );
		if ( ts && badTime( ts ) ) {
			errno = EINVAL;
			return -1;
		}
		return selectImpl( nfds, r, w, ts ? ts->tv_sec * 1000000000ll + ts->tv_nsec : -1, PC );
	}
	REAL( pselect );
	return real_pselect( nfds, r, w, e, ts, m );
}
static int pollImpl( struct pollfd* p, nfds_t n, int64_t ns ) {
	Host h;
	if ( int e = fault( "select", { EINTR } ) )
		return ret( e );
	std::vector<FdP> fs;
	bool invalid = false;
	for ( nfds_t i = 0; i < n; i++ ) {
		fs.push_back( getFd( p[i].fd ) );
		invalid = invalid || ( p[i].fd >= 0 && !fs.back() );
	}
	waitReady(
		"poll",
		[fs, invalid] {
			if ( invalid )
				return true;
			for ( auto& f : fs )
				if ( f && f->ready() )
					return true;
			return false;
		},
		ns );
	int k = 0;
	for ( nfds_t i = 0; i < n; i++ ) {
		p[i].revents = 0;
		if ( p[i].fd >= 0 && !fs[i] )
			p[i].revents = POLLNVAL;
		else if ( fs[i] && fs[i]->ready() )
			p[i].revents = p[i].events & ( POLLIN | POLLRDNORM );
		if ( p[i].revents )
			k++;
	}
	return k;
}
EXPORT int poll( struct pollfd* p, nfds_t n, int ms ) {
	if ( inSim() )
		return pollImpl( p, n, ms < 0 ? -1 : ms * 1000000ll );
	REAL( poll );
	return real_poll( p, n, ms );
}
EXPORT int __poll_chk( struct pollfd* p, nfds_t n, int ms, size_t ) { return poll( p, n, ms ); }
EXPORT int ppoll( struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t* m ) {
	if ( inSim() )
		return pollImpl( p, n, ts ? ts->tv_sec * 1000000000ll + ts->tv_nsec : -1 );
	REAL( ppoll );
	return real_ppoll( p, n, ts, m );
}
EXPORT int epoll_create1( int ) noexcept {
	if ( inSim() ) {
		Host h;
		FdP f = std::make_shared<Fd>();
		f->kind = Fd::EPOLL;
		return addFd( f );
	}
	return (int)syscall( SYS_epoll_create1, 0 );
}
EXPORT int epoll_create( int ) noexcept { return epoll_create1( 0 ); }
EXPORT int epoll_ctl( int ep, int op, int fd, struct epoll_event* ev ) noexcept {
	if ( inSim() ) {
		Host h;
		FdP f = getFd( ep );
		if ( !f || !getFd( fd ) )
			return ret( EBADF );
		if ( op == EPOLL_CTL_DEL )
			f->ep.erase( fd );
		else
			{ uint32_t evs = ev->events; uint64_t d = ev->data.u64; f->ep[fd] = std::make_pair( evs, d ); }
		return 0;
	}
	return (int)syscall( SYS_epoll_ctl, ep, op, fd, ev );
}
EXPORT int epoll_wait( int ep, struct epoll_event* ev, int max, int ms ) {
	if ( inSim() ) {
		Host h;
		FdP f = getFd( ep );
		if ( !f )
			return ret( EBADF );
		waitReady( "epoll_wait", [f] { return f->ready(); }, ms < 0 ? -1 : ms * 1000000ll );
		int n = 0;
		for ( auto& e : f->ep ) {
			FdP x = getFd( e.first );
			if ( n < max && x && x->ready() ) {
				ev[n].events = e.second.first & ( EPOLLIN );
				ev[n].data.u64 = e.second.second;
				n++;
			}
		}
		return n;
	}
	return (int)syscall( SYS_epoll_wait, ep, ev, max, ms );
}

// ------------------------------------------------------------------ time
static void simSleep( int64_t ns ) {
	Host h;
	bool t;
	if ( ns <= 0 ) {
		schedPoint( "yield", nullptr, true );
		return;
	}
	blockOn( W::Timer, "sleep", nullptr, nullptr, nowNs() + ns, t );
}
EXPORT int usleep( useconds_t us ) {
	REAL( usleep );
	if ( inSim() ) {
		simSleep( us * 1000ll );
		return 0;
	}
	return real_usleep( us );
}
EXPORT unsigned sleep( unsigned s ) {
	REAL( sleep );
	if ( inSim() ) {
		simSleep( s * 1000000000ll );
		return 0;
	}
	return real_sleep( s );
}
EXPORT int nanosleep( const struct timespec* a, struct timespec* b ) {
	REAL( nanosleep );
	if ( inSim() ) {
		if ( badTime( a ) ) {
			errno = EINVAL;
			return -1;
		}
		simSleep( a->tv_sec * 1000000000ll + a->tv_nsec );
		return 0;
	}
	return real_nanosleep( a, b );
}
EXPORT int clock_nanosleep( clockid_t c, int fl, const struct timespec* a, struct timespec* b ) {
	REAL( clock_nanosleep );
	if ( inSim() ) {
		if ( badTime( a ) )
			return EINVAL;
		int64_t t = a->tv_sec * 1000000000ll + a->tv_nsec;
		simSleep( ( fl & TIMER_ABSTIME ) ? t - nowNs() : t );
		return 0;
	}
	return real_clock_nanosleep( c, fl, a, b );
}
EXPORT int sched_yield() noexcept {
	if ( inSim() ) {
		// a yielding thread lets time pass: otherwise a spin loop would never end
		simSleep( 1000 );
		return 0;
	}
	return (int)syscall( SYS_sched_yield );
}
EXPORT int gettimeofday( struct timeval* tv, void* tz ) noexcept {
	REAL( gettimeofday );
	if ( inSim() ) {
		tv->tv_sec = nowNs() / 1000000000;
		tv->tv_usec = nowNs() % 1000000000 / 1000;
		return 0;
	}
	return real_gettimeofday( tv, tz );
}
EXPORT int clock_gettime( clockid_t c, struct timespec* ts ) noexcept {
	REAL( clock_gettime );
	if ( inSim() ) {
		ts->tv_sec = nowNs() / 1000000000;
		ts->tv_nsec = nowNs() % 1000000000;
		return 0;
	}
	return real_clock_gettime( c, ts );
}
EXPORT time_t time( time_t* t ) noexcept {
	struct timespec ts;
	clock_gettime( CLOCK_REALTIME, &ts );
	if ( t )
		*t = ts.tv_sec;
	return ts.tv_sec;
}

// ------------------------------------------------------------------ threads
static bool isRecursive( pthread_mutex_t* m ) { return ( m->__data.__kind & 3 ) == 1; }
EXPORT int pthread_mutex_init( pthread_mutex_t* m, const pthread_mutexattr_t* a ) noexcept {
	REAL( pthread_mutex_init );
	if ( inSim() )
		mutexForget( m );
	return real_pthread_mutex_init( m, a );
}
EXPORT int pthread_mutex_destroy( pthread_mutex_t* m ) noexcept {
	REAL( pthread_mutex_destroy );
	if ( inSim() ) {
		shadowCheck( m, 4, true, PC );
		mutexForget( m );
		return 0;
	}
	return real_pthread_mutex_destroy( m );
}
EXPORT int pthread_mutex_lock( pthread_mutex_t* m ) noexcept {
	REAL( pthread_mutex_lock );
	if ( inSim() ) {
		shadowCheck( m, 4, true, PC );
		mutexLock( m, isRecursive( m ) );
		return 0;
	}
	return real_pthread_mutex_lock( m );
}
EXPORT int pthread_mutex_trylock( pthread_mutex_t* m ) noexcept {
	REAL( pthread_mutex_trylock );
	if ( inSim() ) {
		shadowCheck( m, 4, true, PC );
		return mutexTryLock( m, isRecursive( m ) ) ? 0 : EBUSY;
	}
	return real_pthread_mutex_trylock( m );
}
static int timedLock( pthread_mutex_t* m, int64_t dl ) {
	schedPoint( "mutex timedlock", m );
	for ( ;; ) {
		if ( mutexTryLock( m, isRecursive( m ) ) )
			return 0;
		if ( nowNs() >= dl )
			return ETIMEDOUT;
		bool t;
		Host h;
		blockOn( W::Mutex, "waiting for a mutex (timed)", m, nullptr, dl, t );
		if ( t && nowNs() >= dl && !mutexTryLock( m, isRecursive( m ) ) )
			return ETIMEDOUT;
	}
}
EXPORT int pthread_mutex_timedlock( pthread_mutex_t* m, const struct timespec* ts ) noexcept {
	REAL( pthread_mutex_timedlock );
	if ( inSim() )
		return timedLock( m, ts->tv_sec * 1000000000ll + ts->tv_nsec );
	return real_pthread_mutex_timedlock( m, ts );
}
EXPORT int pthread_mutex_clocklock( pthread_mutex_t* m, clockid_t,
									const struct timespec* ts ) noexcept {
	return pthread_mutex_timedlock( m, ts );
}
EXPORT int pthread_mutex_unlock( pthread_mutex_t* m ) noexcept {
	REAL( pthread_mutex_unlock );
	if ( inSim() ) {
		shadowCheck( m, 4, true, PC );
		mutexUnlock( m );
		return 0;
	}
	return real_pthread_mutex_unlock( m );
}

struct Cv {
	uint64_t gen = 0;
	int wake = 0; // signals not yet consumed
	std::vector<int> waiters;
};
static std::map<void*, Cv> g_cv;
struct Rw {
	int readers = 0, writer = -1, depth = 0;
};
static std::map<void*, Rw> g_rw;
static std::map<void*, int> g_sem;
namespace mc {
void syncReset() {
	g_cv.clear();
	g_rw.clear();
	g_sem.clear();
	mntReset();
}
} // namespace mc
static int cvWait( pthread_cond_t* c, pthread_mutex_t* m, int64_t dl ) {
	shadowCheck( c, 8, true, PC );
	int me = self();
	{
		Host h;
		g_cv[c].waiters.push_back( me );
	}
	mutexUnlock( m );
	bool t = false;
	{
		Host h;
		auto in = [c, me] {
			auto it = g_cv.find( c );
			if ( it == g_cv.end() )
				return true;
			return std::find( it->second.waiters.begin(), it->second.waiters.end(), me ) ==
				   it->second.waiters.end();
		};
		blockOn( W::Pred, "condition wait", c, in, dl, t );
		auto& w = g_cv[c].waiters;
		auto it = std::find( w.begin(), w.end(), me );
		t = it != w.end();
		if ( t )
			w.erase( it );
	}
	mutexLock( m, isRecursive( m ), false );
	return t ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_init( pthread_cond_t* c, const pthread_condattr_t* a ) noexcept {
	REAL( pthread_cond_init );
	if ( inSim() ) {
		Host h;
		g_cv.erase( c );
		memset( (void*)c, 0, sizeof *c );
		return 0;
	}
	return real_pthread_cond_init( c, a );
}
EXPORT int pthread_cond_destroy( pthread_cond_t* c ) noexcept {
	REAL( pthread_cond_destroy );
	if ( inSim() ) {
		Host h;
		g_cv.erase( c );
		return 0;
	}
	return real_pthread_cond_destroy( c );
}
EXPORT int pthread_cond_wait( pthread_cond_t* c, pthread_mutex_t* m ) {
	REAL( pthread_cond_wait );
	if ( inSim() )
		return cvWait( c, m, -1 );
	return real_pthread_cond_wait( c, m );
}
EXPORT int pthread_cond_timedwait( pthread_cond_t* c, pthread_mutex_t* m,
								   const struct timespec* ts ) {
	REAL( pthread_cond_timedwait );
	if ( inSim() ) {
		if ( badTime( ts ) )
			return EINVAL;
		return cvWait( c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec );
	}
	return real_pthread_cond_timedwait( c, m, ts );
}
EXPORT int pthread_cond_clockwait( pthread_cond_t* c, pthread_mutex_t* m, clockid_t,
								   const struct timespec* ts ) {
	return pthread_cond_timedwait( c, m, ts );
}
static void cvSignal( void* c, bool all ) {
	schedPoint( "condition signal" );
	Host h;
	auto it = g_cv.find( c );
	if ( it == g_cv.end() )
		return;
	auto& w = it->second.waiters;
	if ( w.empty() )
		return;
	if ( all )
		w.clear();
	else
		w.erase( w.begin() + choose( (int)w.size(), 0, CK::Sched, "which waiter wakes" ) );
}
EXPORT int pthread_cond_signal( pthread_cond_t* c ) noexcept {
	REAL( pthread_cond_signal );
	if ( inSim() ) {
		cvSignal( c, false );
		return 0;
	}
	return real_pthread_cond_signal( c );
}
EXPORT int pthread_cond_broadcast( pthread_cond_t* c ) noexcept {
	REAL( pthread_cond_broadcast );
	if ( inSim() ) {
		cvSignal( c, true );
		return 0;
	}
	return real_pthread_cond_broadcast( c );
}
// reader/writer locks
static int rwLock( void* l, bool write ) {
	schedPoint( write ? "rwlock write" : "rwlock read", l );
	Host h;
	int me = self();
	auto ok = [l, write, me] {
		Rw& r = g_rw[l];
		return write ? ( r.writer < 0 && r.readers == 0 ) : r.writer < 0;
	};
	while ( !ok() ) {
		bool t;
		blockOn( W::Pred, "waiting for a reader/writer lock", l, ok, -1, t );
	}
	Rw& r = g_rw[l];
	if ( write )
		r.writer = me;
	else
		r.readers++;
	vcAcquire( l );
	return 0;
}
EXPORT int pthread_rwlock_init( pthread_rwlock_t* l, const pthread_rwlockattr_t* a ) noexcept {
	REAL( pthread_rwlock_init );
	if ( inSim() ) {
		Host h;
		g_rw.erase( l );
	}
	return real_pthread_rwlock_init( l, a );
}
EXPORT int pthread_rwlock_destroy( pthread_rwlock_t* l ) noexcept {
	REAL( pthread_rwlock_destroy );
	if ( inSim() ) {
		Host h;
		g_rw.erase( l );
		return 0;
	}
	return real_pthread_rwlock_destroy( l );
}
EXPORT int pthread_rwlock_rdlock( pthread_rwlock_t* l ) noexcept {
	REAL( pthread_rwlock_rdlock );
	return inSim() ? rwLock( l, false ) : real_pthread_rwlock_rdlock( l );
}
EXPORT int pthread_rwlock_wrlock( pthread_rwlock_t* l ) noexcept {
	REAL( pthread_rwlock_wrlock );
	return inSim() ? rwLock( l, true ) : real_pthread_rwlock_wrlock( l );
}
EXPORT int pthread_rwlock_unlock( pthread_rwlock_t* l ) noexcept {
	REAL( pthread_rwlock_unlock );
	if ( inSim() ) {
		Host h;
		Rw& r = g_rw[l];
		vcRelease( l );
		if ( r.writer == self() )
			r.writer = -1;
		else
			r.readers--;
		return 0;
	}
	return real_pthread_rwlock_unlock( l );
}
// semaphores
EXPORT int sem_init( sem_t* s, int p, unsigned v ) noexcept {
	REAL( sem_init );
	if ( inSim() ) {
		Host h;
		g_sem[s] = v;
		return 0;
	}
	return real_sem_init( s, p, v );
}
EXPORT int sem_post( sem_t* s ) noexcept {
	REAL( sem_post );
	if ( inSim() ) {
		schedPoint( "sem_post" );
		vcRelease( s );
		Host h;
		g_sem[s]++;
		return 0;
	}
	return real_sem_post( s );
}
static int semWait( sem_t* s, int64_t dl ) {
	schedPoint( "sem_wait" );
	Host h;
	while ( g_sem[s] <= 0 ) {
		bool t;
		blockOn( W::Pred, "sem_wait", s, [s] { return g_sem[s] > 0; }, dl, t );
		if ( t && g_sem[s] <= 0 )
			return ret( ETIMEDOUT );
	}
	g_sem[s]--;
	vcAcquire( s );
	return 0;
}
EXPORT int sem_wait( sem_t* s ) {
	REAL( sem_wait );
	return inSim() ? semWait( s, -1 ) : real_sem_wait( s );
}
EXPORT int sem_timedwait( sem_t* s, const struct timespec* ts ) {
	REAL( sem_timedwait );
	if ( inSim() && badTime( ts ) ) {
		errno = EINVAL;
		return -1;
	}
	return inSim() ? semWait( s, ts->tv_sec * 1000000000ll + ts->tv_nsec )
				   : real_sem_timedwait( s, ts );
}
EXPORT int sem_destroy( sem_t* s ) noexcept {
	REAL( sem_destroy );
	if ( inSim() ) {
		Host h;
		g_sem.erase( s );
		return 0;
	}
	return real_sem_destroy( s );
}

// glibc waits for these addresses in __cxa_guard etc.; threads are fibers here
EXPORT int pthread_create( pthread_t* t, const pthread_attr_t* a, void* ( *fn )( void* ),
						   void* arg ) noexcept {
	REAL( pthread_create );
	if ( inSim() ) {
		schedPoint( "pthread_create" );
		if ( int e = fault( "pthread_create", { EAGAIN } ) )
			return e;
		int id = threadCreate( [fn, arg] { fn( arg ); }, "efsw-thread" );
		*t = (pthread_t)( 0x7000 + id );
		schedPoint( "thread started" );
		return 0;
	}
	return real_pthread_create( t, a, fn, arg );
}
EXPORT int pthread_join( pthread_t t, void** r ) {
	REAL( pthread_join );
	if ( inSim() ) {
		if ( (int)( t - 0x7000 ) == self() )
			return EDEADLK;
		joinThread( (int)( t - 0x7000 ) );
		return 0;
	}
	return real_pthread_join( t, r );
}
EXPORT int pthread_detach( pthread_t t ) noexcept {
	REAL( pthread_detach );
	return inSim() ? 0 : real_pthread_detach( t );
}
EXPORT pthread_t pthread_self() noexcept {
	if ( inSim() )
		return (pthread_t)( 0x7000 + self() );
	static auto real_self = (pthread_t ( * )())dlsym( RTLD_NEXT, "pthread_self" );
	return real_self();
}
