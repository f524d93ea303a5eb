#pragma once
#include "engine.hpp"
#include <deque>
#include <memory>
#include <sys/types.h>
namespace mc {
struct Inode;
struct DirEnt {
	std::string name;
	int type;
	uint64_t ino;
};
using InodeP = std::shared_ptr<Inode>;
struct Inode {
	uint64_t ino = 0;
	uint32_t mode = 0, uid = 0, gid = 0, nlink = 1;
	uint64_t size = 0, dev = 1;
	int64_t mtimeNs = 0;
	bool freed = false;
	std::string target;
	std::map<std::string, InodeP> kids;
};
struct Mount {
	InodeP root;
	uint64_t dev;
	unsigned long ftype;
	std::string path, fsname;
	bool listed;
};
struct InEvent {
	int wd;
	uint32_t mask, cookie;
	std::string name;
};
struct InWatch {
	InodeP node;
	uint32_t mask;
	std::string path;
};
struct Inotify {
	std::map<int, InWatch> wds;
	std::deque<InEvent> q;
	int nextWd = K.firstWd;
	bool overflowed = false;
	int overflows = 0;
};
using InotifyP = std::shared_ptr<Inotify>;
struct Pipe {
	std::deque<char> q;
	bool writerOpen = true;
};
struct Knote { // kqueue: what is watched of an open file
	InodeP node;
	unsigned want = 0, fflags = 0;
	unsigned short flags = 0;
	void* udata = nullptr;
	bool enabled = true;
};
struct Kq {
	std::map<int, Knote> notes; // by descriptor
	std::deque<int> active;
};
struct Fd {
	enum Kind { IN, PIPE_R, PIPE_W, EVENT, DIR_FD, EPOLL, REAL_IN, KQ } kind;
	std::shared_ptr<Kq> kq;
	InotifyP in;
	std::shared_ptr<Pipe> pipe;
	uint64_t count = 0;
	InodeP node;
	bool nonblock = false;
	int realFd = -1;
	std::map<int, std::pair<uint32_t, uint64_t>> ep;
	bool ready() const;
};
using FdP = std::shared_ptr<Fd>;
extern std::map<int, FdP> g_fds;
extern int g_nextFd;
void kernelDirty();
int kEvent( Kq& q, const void* changes, int nchanges, void* events, int nevents );
bool permits( const Inode& i, int want );
int kStat( const std::string& p, bool follow, Stat& st, bool perm );
void kStatInode( const Inode& i, Stat& st );
int kList( const std::string& p, std::vector<DirEnt>& out );
int kListInode( const Inode& n, std::vector<DirEnt>& out );
int kRealpath( const std::string& p, std::string& out );
int kReadlink( const std::string& p, std::string& out );
int kLookup( const std::string& p, bool follow, InodeP& out );
int kStatfs( const std::string& p, unsigned long& ftype );
int kChdir( const std::string& p );
std::string kCwd();
const std::vector<Mount>& kMounts();
InotifyP kInotifyNew();
void kInotifyClose( const InotifyP& p );
int kInotifyAdd( Inotify& in, const std::string& path, uint32_t mask, int& wd );
int kInotifyRm( Inotify& in, int wd );
ssize_t kInotifyRead( Inotify& in, char* buf, size_t cap, int maxEvents );
std::string inEventText( const InEvent& e );
int openDirCount();
void realCloseAll();
void realKeepFd( int fd );
} // namespace mc
