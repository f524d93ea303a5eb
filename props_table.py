TESTS = "the existing tests run a handful of fixed operation sequences under whatever schedule the machine gives"
prop("C01", "An isolated change is reported exactly once, with the right names (inotify)",
     "With the native Linux backend, when one change is made inside the scope of a watch and the watcher is left to deliver it before the next one, the listener receives exactly the documented events: Add (and Modified once it is written) for a creation or an arrival from elsewhere, Modified for a write, Delete for a removal or a departure, one Moved with the old name for a rename within a directory, Delete and Add for a move between directories of the watch. "
     "Every event carries the watch id, the absolute path of the containing directory ending in a slash and the bare file name, whatever operations (including moves of whole directories) came before. "
     "Nothing is reported twice and nothing else is reported, whatever descriptors the process has open, inode numbers, clock and rename cookies the system gives.",
     ["histories", "schedules"], "every sequence of file system operations on a small tree (files, nested directories, an outside directory), every schedule of the watcher thread within the preemption bound",
     TESTS + "; the property depends on the history of renames, which is unbounded",
     [INO], [("inotify event dispatch", INO), ("rename pairing", INO), ("sub directory watches", INO)],
     [("directory of a watch", "path reported in its events", INO)],
     note="depth 4-5 operations, 8 paths; preemption bound 1-2; traces replayed on the real kernel")
prop("C02", "Replaying the events of any burst rebuilds the content of the tree (inotify)",
     "With the native Linux backend and synthetic events enabled, after any burst of creations, writes, deletions and renames no matter how it interleaves with the watcher thread, applying the received Add, Delete and Moved events to the initial content yields every entry that is now in the watched tree. "
     "When no directory was renamed it yields nothing else either, and when no directory changed at all the events are the operations, in their order, each exactly once.",
     ["histories", "schedules"], "every burst of operations, every position of the watcher thread within it, reads that return a prefix of the queue, renames whose two halves are read separately",
     TESTS + "; the losses happen when the watcher thread reads between two operations of a burst",
     [INO], [("inotify event dispatch", INO), ("synthetic events of new directories", INO), ("rename pairing across reads", INO)],
     note="bursts of 2-6 operations; the watcher may run between any two operations; preemption bound 1-2")
prop("C03", "A recursive watch covers every directory of its tree (inotify)",
     "With the native Linux backend, after any history of directory creations, renames, moves in, out and within the tree and removals, in bursts or step by step, a file created and then deleted in any directory then under the root of a recursive watch is reported with that directory's current path, once.",
     ["histories", "schedules"], "every sequence of directory operations, every position of the watcher thread within it",
     TESTS + "; new directories race with their being watched",
     [INO], [("watching new sub directories", INO), ("relabelling moved directories", INO), ("dropping removed directories", INO)],
     [("internal watches", "one per covered directory", INO)],
     note="histories of up to 5-6 directory operations, also with inode numbers reused and halves of renames read apart")
prop("C04", "Nothing outside the scope of a watch is reported or stays watched",
     "Every event lies inside the scope of its watch: the watched directory itself for a non-recursive watch, its tree for a recursive one. "
     "After any history of operations, including moves of directories out of the tree and changes made to them there, no event names anything outside, and (native backend) no kernel watch is left on a directory that is not in scope any more.",
     ["histories", "schedules"], "every sequence of operations inside and outside of the tree, in bursts and step by step, both backends",
     TESTS + "; a watch left behind on a moved directory only shows by what happens to that directory later",
     [INO, GEN, DWG], [("dropping watches of departed directories", INO), ("scope of a snapshot", DWG)],
     note="histories of 4-5 operations, recursive and not, both backends; kernel watch list inspected in the simulated kernel")
prop("C05", "The polling backend converges to the content of the tree",
     "With the polling backend, however the scans interleave with the changes (including changes made between two system calls of one scan), two undisturbed scan rounds after the last change the Add, Delete and Moved events received so far, applied to the initial content of the watched tree, yield exactly its current content (regular files and directories; of a directory that can not be read, the directory itself).",
     ["histories", "schedules"], "every sequence of operations, every position of scans between them and of operations inside a scan, inode numbers reused or not",
     TESTS + "; whether a scan races with a change is a matter of luck",
     [GEN, DWG, SNAP, FI], [("tree scan", DWG), ("snapshot difference", SNAP), ("file identity and time comparison", FI)],
     [("directory snapshot", "last seen entries", SNAP)],
     note="histories of 4-6 operations; up to 2 operations between two system calls of a scan")
prop("C06", "The polling backend classifies an isolated change correctly",
     "With the polling backend, when the changes made between two scans consist of one operation, the events are exactly those of that operation: Add, Delete, Modified when size, time or metadata changed, one Moved for a rename within a directory, Delete and Add across directories; other kinds of entries (sockets) are not reported; besides them at most Modified of the directories containing the change.",
     ["histories"], "every sequence of operations with a scan after each of them, including hard links, metadata changes, rename over an existing entry, a file replaced by a directory and reverse, reused inode numbers",
     TESTS + "; classification depends on combinations of name, inode, size and time",
     [DWG, SNAP, FI], [("snapshot difference", SNAP), ("equality and identity of files", FI)],
     note="histories of 3-5 operations over 6-9 paths; writes of the same size within a second included")
prop("C07", "No callback of a watch after removeWatch() returned",
     "When removeWatch(), by id or by directory, returns to a thread that is not inside a callback, no callback for that watch is running and none starts later, not even for changes made before the removal; the listener can be destroyed. A watch removed from within a callback gets no further callback after the one running. Other watches go on undisturbed.",
     ["schedules", "histories"], "every placement of the removal relative to the delivery of a burst of events, by id or path, from another thread or from the listener itself, both backends",
     TESTS + "; the window between reading an event and calling the listener is a few instructions",
     [INO, GEN, DWG, FW], [("removing a watch", INO), ("event dispatch under the lock", INO), ("polling loop", GEN)],
     note="bursts of 2-3 operations, preemption bound 2-3; use-after-free of listener, watch and watcher memory checked in every execution")
prop("C08", "Destroying a FileWatcher ends it, whatever it is doing",
     "Deleting a FileWatcher returns, whatever the watcher thread is doing, with or without watch() having been called; once it has returned no callback runs or starts, and no thread, file descriptor or memory of it is left.",
     ["schedules", "histories"], "every placement of the destruction relative to start-up, delivery and idle waiting, with pending events, busy listeners, both backends",
     TESTS + "; start-up and shutdown races need precise timing",
     [INO, GEN, FW, S + "Thread.cpp"], [("destructor and thread join", INO), ("destructor", GEN), ("thread termination", S + "Thread.cpp")],
     note="preemption bound 2-3; deadlock, leaks, descriptors and use after free checked")
prop("C09", "The API may be used from several threads while events are delivered",
     "Any mix of addWatch, removeWatch, directories() and getLastErrorLog() from several threads, during delivery of events, behaves as if the calls were made one after the other in some order consistent with real time: no deadlock, no data race, no memory error, results that match that order, and afterwards exactly the watches of that order are listed and report.",
     ["schedules"], "every pair of call sequences of up to two threads against the watcher thread, both backends, every interleaving within the preemption bound",
     TESTS + "; none of them calls the API from two threads",
     [INO, GEN, FW, S + "Log.cpp"], [("mWatchesLock and mRealWatches", INO), ("mWatchesLock", GEN), ("last error", S + "Log.cpp")],
     note="2 threads of 1-2 calls plus the watcher thread, preemption bound 1-2; happens-before race detector on every memory access of the library; linearizability by enumeration of orders")
prop("C10", "A listener may use the FileWatcher from its callbacks",
     "From within a callback the listener may add watches, remove any watch (its own included), list the directories and read the last error: the calls return, without deadlock or memory errors, with the result they would have outside of a callback, the event loop survives, and afterwards exactly the watches that should exist are listed and report.",
     ["histories", "schedules"], "every combination of up to two calls from the callbacks of every burst of operations, both backends",
     TESTS + "; none of them calls the API from a callback",
     [INO, GEN, DWG], [("event loop over mWatches", INO), ("watch removed during dispatch", INO), ("watches added or removed during a scan", GEN)],
     note="8 kinds of calls at any callback of bursts of 2-3 operations; synthetic events, split renames")
prop("C11", "Every accepted watch is accounted for, every refused one leaves nothing",
     "After any sequence of addWatch and removeWatch calls and changes of the directories: addWatch of an existing readable directory (the root directory included) that is not watched yet returns a positive id never given to another live watch, addWatch of anything else returns the documented negative code (FileNotFound, FileRepeated, FileNotReadable, FileOutOfScope, FileRemote, WatcherFailed), sets it as last error with a text, and changes nothing; "
     "directories() lists exactly the accepted and not removed watches; removeWatch by id or by path (with or without final slash) removes exactly that watch, and of an unknown id or path nothing; a live watch is never displaced, whatever other path leads to its directory; a removed directory can be watched again and reports again.",
     ["histories"], "every sequence of calls with every kind of path (relative, with slashes, a file, missing, unreadable, a link, a sub directory of a watched one) and id (valid, removed, never given, zero, negative), both backends",
     TESTS + "; the tests add each directory once",
     [INO, GEN, FW, S + "Log.cpp"], [("adding a watch", INO), ("removing a watch", INO), ("adding a watch", GEN), ("error codes", S + "Log.cpp")],
     [("mWatches", "watch id to watch", INO)],
     note="sequences of 3-4 calls over about 12 paths; both backends; 200 traces on the real kernel")
prop("C12", "A lost event queue is announced and the watch recovers (inotify)",
     "With the native Linux backend, whenever the kernel drops events of a full queue, every watch of that FileWatcher gets missed-events callbacks, one per overflow, with its id and directory, no other watcher does and without an overflow there is none; the events before the drop are reported as usual; afterwards, whatever was dropped, every directory then in the tree of a recursive watch reports changes under its current path and none outside does.",
     ["histories", "schedules"], "every sequence of operations on files and directories, every queue length of 1-6 events, every position of the watcher thread, listeners that remove or add watches from the callback",
     TESTS + "; no test fills the queue",
     [INO, FW, S + "FileWatcherCWrapper.cpp"], [("IN_Q_OVERFLOW handling", INO), ("update of sub directory watches after an overflow", INO)],
     note="queues of 1-6 events, 3-4 operations, preemption bound 0-1")
prop("C13", "A failing system call does no more harm than it has to",
     "When a system call fails once (inotify_init, inotify_add_watch, inotify_rm_watch, read, select, opendir, stat, lstat, realpath, statfs) with any of its usual errors, efsw neither crashes, hangs nor leaks: an addWatch that fails says so by code and last error and leaves nothing behind, and succeeds when tried again; when inotify is not available polling takes over; an interrupted or failed read, select or inotify_rm_watch loses no event; a failed scan or sub directory watch affects only the entry it was made for, the rest of the tree and other watches are reported as ever, "
     "polling never reports an entry as deleted for good that is still there, and its picture of the tree is right again once calls succeed; without a failing call nothing differs.",
     ["fault_sequences", "histories"], "every single call of every execution failing (pairs in the thorough tier), with each errno, in every sequence of operations, both backends",
     TESTS + "; no test makes a system call fail",
     [INO, GEN, DWG, SNAP, FI, FSYS, PFS], [("event loop errors", INO), ("fallback to polling", FW), ("unreadable directories", SNAP), ("stat failures", FI)],
     note="one fault per execution (two in the thorough tier) at any call, histories of 1-3 operations")
prop("C14", "Symbolic links are followed exactly as configured, once, without end",
     "For a recursive watch: the directories reported are those of the tree, plus those reachable through symbolic links as configured: none when links are not followed, those pointing below the directory that holds the link when they are followed, all when out of scope links are allowed as well. "
     "After any history of links (to directories, files, nothing, to themselves, their parents or each other) and directories being created, removed, moved and replaced by one another, each of these directories reports a change once, with its real path, whatever the number of links that lead to it, and no other directory reports anything or stays watched. "
     "The links themselves are reported like other entries, and no loop of links keeps a call from returning.",
     ["histories", "schedules", "configurations"], "every sequence of operations on links, directories and files with each of the three settings, both backends, links there from the start, bursts with the watcher anywhere in between",
     TESTS + "; no test uses a symbolic link",
     [INO, GEN, DWG, FSYS, S + "FileWatcherImpl.cpp"], [("links of new directories", INO), ("removed links", INO), ("links of a snapshot", DWG), ("scope of a link", S + "FileWatcherImpl.cpp")],
     [("path of the link", "link by which a directory is reached", INO)],
     note="histories of 3-4 operations on up to 6 links and 4 directories, bursts of 3-4 with preemption bound 1, overflow of the queue")
prop("C15", "Remote file systems are recognised, without side effects",
     "With the native backend addWatch of a directory on a remote file system (by its statfs type; a FUSE one when it is not mounted from a local device) is refused with FileRemote, of a directory on any other file system it is accepted; mounts below a watched directory are left out or covered by the same rule; the polling backend accepts all. "
     "Deciding so never changes the process's working directory, leaves no open descriptor or mount table stream, and a failing call never makes a local directory a remote one.",
     ["inputs", "fault_sequences"], "every file system type efsw names and the usual local ones, listed or not in the mount table, every working directory, each call failing",
     "the tests run on one local file system",
     [PFS, FSYS, INO, GEN], [("isRemoteFS", PFS), ("findMountPoint", PFS), ("refusal", INO)],
     note="30 file system types x mount table x position x working directory, one failing call (two in the thorough tier)")
prop("C16", "The C interface does what the C++ interface does",
     "For every sequence of efsw_* calls, ids, error codes, the text of efsw_getlasterror() and the flags equal those of the same calls on the C++ interface, and each watch reports the same events to its own callback, with the watcher handle, the parameter and the missed-actions handler given for that watch, "
     "whatever other callbacks, parameters or handlers the watcher has. The callbacks stay usable until efsw_release() returns and are never called afterwards, other watchers are unaffected, nothing of a released watcher is left; the functions may be called from several threads.",
     ["histories", "schedules"], "every sequence of C calls next to the same C++ calls in one execution, release at any moment of a delivery, two threads, both backends, freed handles coming back",
     "no test uses the C interface",
     [S + "FileWatcherCWrapper.cpp", FW, S + "Log.cpp"], [("callback registry", S + "FileWatcherCWrapper.cpp"), ("efsw_release", S + "FileWatcherCWrapper.cpp"), ("last error", S + "FileWatcherCWrapper.cpp")],
     [("g_callbacks", "callback, parameter and handler of each watch", S + "FileWatcherCWrapper.cpp")],
     note="sequences of 2-4 calls over 11 kinds of addwatch and 14 other calls; release within a burst of 2 operations, preemption bound 1-2; two threads of 1-2 calls")

prop("C18", "Watches do not influence each other",
     "Whatever other watches one FileWatcher has, whatever other FileWatchers the process has (of either backend, also on the same directories), and whichever of them are added, removed or destroyed meanwhile, each watch keeps reporting exactly the changes of its own scope, once, to its own listener, with its own id and its own settings (recursive or not, synthetic events or not), and nothing else; adding and removing watches reports nothing by itself. "
     "A move from the scope of one watch into that of another is a departure for the first and an arrival for the second. Polling keeps this for scopes inside one another as well; the native backend for a watch inside a non-recursive one.",
     ["histories", "schedules", "configurations"], "every sequence of file system operations, removals and additions of watches and destructions of FileWatchers, for pairs and triples of watches of every relation",
     TESTS + "; the tests watch one directory at a time",
     [INO, GEN, DWG, FW], [("one kernel watch per directory and instance", INO), ("moves between watches", INO), ("polling several watches", GEN)],
     [("mRealWatches", "watches of the user", INO)],
     note="histories of 3-4 steps over two trees and 13 pairs of watches, two FileWatchers; preemption bound 1-2. Known finding: a watch inside a recursive one of the same native FileWatcher takes the directory over")
prop("C19", "Names are reported byte for byte, below the directory as it was given",
     "For every file or directory name the system allows (any bytes but slash and NUL, 1 to 255 of them, names that are beginnings of one another, names that are no text), and paths up to the length the system allows, creations, writes, deletions, renames and moves are reported with exactly that name, and changes inside directories so named with exactly that path. "
     "The directory in every event begins with the path given to addWatch as it was given (absolute, relative, with dots, with or without a slash at the end), closed with one slash.",
     ["inputs", "programs"], "every one-byte name, pairs over an alphabet of special bytes, every length, in seven scripts each; 15 forms of the given path and of the working directory; chains of directories up to 4000 bytes, both backends",
     "the tests use plain ASCII names below an absolute path",
     [INO, DWG, SNAP, FSYS, S + "String.cpp"], [("paths of events", INO), ("path functions", FSYS), ("prefix matching", S + "String.cpp")],
     note="about 530 names x 7 scripts of 3-9 operations x 2 backends, replayed on the real kernel")
prop("C20", "Nothing is missed from addWatch on",
     "Whoever lists the directory when addWatch returns and applies the events that arrive from then on knows its content, whatever changes while addWatch runs and between addWatch and watch(), and every directory is watched, whether watch() was called before or after. "
     "watch() may be called again, from callbacks and from several threads at once: there is one watcher thread, and each change is reported once.",
     ["histories", "schedules"], "operations at every point of addWatch and between addWatch and watch(), repeated and concurrent calls of watch(), both backends",
     TESTS + "; they change nothing before the watcher runs",
     [INO, GEN, DWG], [("watching a tree while it changes", INO), ("first snapshot", DWG), ("start of the thread", INO), ("start of the polling thread", GEN)],
     note="up to 3 operations before watch(), 1-2 operations of another thread inside addWatch with preemption bound 1-2, 2-3 threads calling watch()")
prop("C21", "What efsw uses depends on what is watched, not on what happened",
     "Any history of changes, calls and failing calls that ends where it began leaves the same memory, descriptors, kernel watches and work per interval behind, however often it is repeated. "
     "The native backend looks at the file system only when there are events, polling reads each watched directory at most once per interval of the length given to the constructor, and a change is reported within one interval of when it is made, whatever its moment.",
     ["histories", "inputs"], "every sequence of operations or calls repeated four times; changes at every quarter of the interval for intervals from 1 ms to 60 s",
     "no test measures what is used; growth by a few bytes per change needs days to be noticed",
     [INO, GEN, DWG, S + "Log.cpp"], [("watches that were removed", INO), ("snapshots of removed directories", DWG), ("pace of polling", GEN)],
     [("mDeletedWatches", "removed watches to be freed", INO)],
     note="cycles of 2-4 operations or calls, repeated 4 times; live bytes, open descriptors, kernel watches and calls per idle interval compared")
prop("C23", "A watch survives what happens to its own directory",
     "When the directory a watch was added for is emptied and deleted, created again, renamed away and back, replaced by a file, a link or another directory, alone or with its parent, nothing crashes, hangs or is left behind, every event carries the watch's id and a path below the given one, other watches go on exactly, directories() lists the watch until it is removed, removeWatch by id and by path work and release everything, and afterwards the path can be watched again as if for the first time. "
     "With polling the events received, applied to the initial content, yield the content of whatever directory has the name now (nothing while there is none), and everything in it is reported. With the native backend the deletions that emptied a deleted directory are reported, and events go on as long as the directory that was added has its name.",
     ["histories", "schedules"], "every sequence of operations on the tree, the watched directory, its parent and its name, and of removals and additions of the watch, step by step, in bursts and with preemptions, both backends",
     TESTS + "; the directory watched by a test outlives it",
     [INO, GEN, DWG, SNAP], [("kernel watch of a deleted directory", INO), ("removal of a dead watch", INO), ("a directory that is gone or not one", SNAP + ":DirectorySnapshot::scan")],
     note="up to 5 operations and calls (6 thorough), preemption bound 1; what the native backend reports while another directory has the name is left open")
prop("C22", "The kqueue backend converges to the content of the tree",
     "With the kqueue backend (BSD, macOS), however the polls interleave with the changes, two undisturbed polls after the last change the Add, Delete and Moved events received so far, applied to the initial content of the scope of the watch, yield exactly its content, "
     "every event carries the id of the watch, every later write, creation and deletion in scope is reported, and without changes nothing is. Listeners and other threads may add and remove watches and destroy the FileWatcher meanwhile: removed watches are silent, the others exact, nothing is left behind.",
     ["histories", "schedules"], "every history of operations on small trees, polls anywhere between and changes during polls; calls by listeners and other threads at any moment",
     "the existing tests run on the native Linux backend and on polling only; this one is not even compiled by them",
     [S + "WatcherKqueue.cpp", S + "FileWatcherKqueue.cpp", SNAP], [("files and directories that come and go", S + "WatcherKqueue.cpp:WatcherKqueue::rescan"), ("events of open files", S + "WatcherKqueue.cpp:WatcherKqueue::watch"), ("life of the watches", S + "FileWatcherKqueue.cpp:FileWatcherKqueue::run")],
     [("mChangeList", "open files, sorted by name", S + "WatcherKqueue.hpp"), ("mWatches", "watches by id", S + "FileWatcherKqueue.hpp")],
     note="up to 3 operations (4 thorough), changes during polls and calls of other threads with preemption bound 1 (2 thorough); simulated kqueue after the BSD manual pages, not compared with a BSD kernel")
