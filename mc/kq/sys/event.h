// <sys/event.h> of BSD, as much of it as efsw uses; kqueue() and kevent() are simulated ( simfs.cpp ).
#pragma once
#include <stdint.h>
#include <sys/types.h>
#include <time.h>
#define EVFILT_VNODE ( -4 )
#define EV_ADD 0x0001
#define EV_DELETE 0x0002
#define EV_ENABLE 0x0004
#define EV_DISABLE 0x0008
#define EV_ONESHOT 0x0010
#define EV_CLEAR 0x0020
#define EV_ERROR 0x4000
#define EV_EOF 0x8000
#define NOTE_DELETE 0x0001
#define NOTE_WRITE 0x0002
#define NOTE_EXTEND 0x0004
#define NOTE_ATTRIB 0x0008
#define NOTE_LINK 0x0010
#define NOTE_RENAME 0x0020
#define NOTE_REVOKE 0x0040
struct kevent {
	uintptr_t ident;
	short filter;
	unsigned short flags;
	unsigned int fflags;
	intptr_t data;
	void* udata;
};
#define EV_SET( kevp, a, b, c, d, e, f )      \
	do {                                      \
		struct kevent* kevp_ = ( kevp );      \
		kevp_->ident = ( a );                 \
		kevp_->filter = ( b );                \
		kevp_->flags = ( c );                 \
		kevp_->fflags = ( d );                \
		kevp_->data = ( e );                  \
		kevp_->udata = (void*)( f );          \
	} while ( 0 )
extern "C" {
int kqueue( void );
int kevent( int kq, const struct kevent* changelist, int nchanges, struct kevent* eventlist, int nevents,
			const struct timespec* timeout );
}
