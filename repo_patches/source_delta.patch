From 35c93612e4773a51c48770fcb85919e6d35d004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 01/52] fix: join the inotify thread before locking in the
 destructor

The destructor polled the unsynchronized mIsTakingAction flag and then
joined the thread while holding mInitLock, which handleAction needs:
data race and deadlock.
---
 src/efsw/FileWatcherInotify.cpp | 15 +++------------
 src/efsw/FileWatcherInotify.hpp |  1 -
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 7f5fde4..0942691 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -23,7 +23,7 @@
 namespace efsw {
 
 FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
-	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ), mIsTakingAction( false ) {
+	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ) {
 	mFD = inotify_init();
 
 	if ( mFD < 0 ) {
@@ -35,17 +35,10 @@ FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
 
 FileWatcherInotify::~FileWatcherInotify() {
 	mInitOK = false;
-	// There is deadlock when release FileWatcherInotify instance since its handAction
-	// function is still running and hangs in requiring lock without init lock captured.
-	while ( mIsTakingAction ) {
-		// It'd use condition-wait instead of sleep. Actually efsw has no such
-		// implementation so we just skip and sleep while for that to avoid deadlock.
-		usleep( 1000 );
-	};
-	Lock initLock( mInitLock );
-
+	// The thread must be joined without holding mInitLock, handleAction needs it to finish.
 	efSAFE_DELETE( mThread );
 
+	Lock initLock( mInitLock );
 	Lock l( mWatchesLock );
 	Lock l2( mRealWatchesLock );
 
@@ -567,7 +560,6 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	if ( !watch || !watch->Listener || !mInitOK ) {
 		return;
 	}
-	mIsTakingAction = true;
 	Lock initLock( mInitLock );
 
 	std::string fpath( watch->Directory + filename );
@@ -636,7 +628,6 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			}
 		}
 	}
-	mIsTakingAction = false;
 }
 
 std::vector<std::string> FileWatcherInotify::directories() {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 3b58a21..f71cd0f 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -60,7 +60,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mWatchesLock;
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
-	bool mIsTakingAction;
 	std::vector<std::pair<WatcherInotify*, std::string>> mMovedOutsideWatches;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
-- 
2.43.0


From a4fc6da7c112cb190361bcb14a44d401778ff90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 02/52] fix: inotify: pair the halves of a move by cookie and
 in order

An IN_MOVED_FROM was remembered per watch and reported after the rest of
the batch: moves out of the watched tree were merged into unrelated moves
into it, lost, reported after later events of the same name, or
dereferenced a freed watch; mMovedOutsideWatches was shared without lock.
---
 src/efsw/FileWatcherInotify.cpp | 248 ++++++++++----------------------
 src/efsw/FileWatcherInotify.hpp |   4 +-
 2 files changed, 76 insertions(+), 176 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 0942691..8322752 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -195,15 +195,6 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 	WatcherInotify* watch = iter->second;
 
-	for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-			  mMovedOutsideWatches.begin();
-		  mMovedOutsideWatches.end() != itm; ++itm ) {
-		if ( itm->first == watch ) {
-			mMovedOutsideWatches.erase( itm );
-			break;
-		}
-	}
-
 	if ( watch->Recursive && NULL == watch->Parent ) {
 		WatchMap::iterator it = mWatches.begin();
 		std::vector<WatchID> eraseWatches;
@@ -296,8 +287,6 @@ void FileWatcherInotify::run() {
 	WatcherInotify* curWatcher = NULL;
 	WatcherInotify* currentMoveFrom = NULL;
 	uint32_t currentMoveCookie = -1;
-	bool lastWasMovedFrom = false;
-	std::string prevOldFileName;
 
 	do {
 		fd_set rfds;
@@ -319,6 +308,18 @@ void FileWatcherInotify::run() {
 					struct inotify_event* pevent = (struct inotify_event*)&buff[i];
 
 					{
+						// Check if this is the destination of the last IN_MOVED_FROM. If it isn't,
+						// the destination of that move is not being watched: treat it as a DELETE
+						// before handling what happened after it.
+						bool isMoveTo = ( pevent->mask & IN_MOVED_TO ) && currentMoveFrom &&
+										pevent->cookie == currentMoveCookie;
+
+						if ( currentMoveFrom && !isMoveTo ) {
+							handleMovedOutside( currentMoveFrom );
+							currentMoveFrom = NULL;
+							currentMoveCookie = -1;
+						}
+
 						curWatcher = NULL;
 
 						{
@@ -333,199 +334,96 @@ void FileWatcherInotify::run() {
 						if ( curWatcher ) {
 							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
 
-							// Check if this is the destination of a move
-							if ( ( pevent->mask & IN_MOVED_TO ) && currentMoveFrom &&
-								 pevent->cookie == currentMoveCookie ) {
-
-								// If the move happened between TWO DIFFERENT watched directories
-								if ( curWatcher != currentMoveFrom ) {
-									// We need to simulate a delete event, the IN_MOVED_TO will
-									// generate an add event after
-									handleAction( currentMoveFrom, currentMoveFrom->OldFileName,
-												  IN_DELETE );
-
-									// Clear the state on the source watcher so it doesn't
-									// get processed again or stuck with stale data.
-									currentMoveFrom->OldFileName = "";
-								}
-								// Else: If curWatcher == currentMoveFrom, it's a local rename.
-								// handleAction() above already detected the OldFileName and
-								// emitted a 'Moved' event correctly.
-
-								/// Pair processed successfully
-								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
-							} else if ( pevent->mask & IN_MOVED_FROM ) {
-								// Previous event was moved from and current event is moved from
-								// Treat it as a DELETE or moved outside watches
-								if ( lastWasMovedFrom && currentMoveFrom ) {
-									mMovedOutsideWatches.push_back(
-										std::make_pair( currentMoveFrom, prevOldFileName ) );
-								}
-
+							if ( pevent->mask & IN_MOVED_FROM ) {
 								currentMoveFrom = curWatcher;
 								currentMoveCookie = pevent->cookie;
-							} else {
-								/// Keep track of the IN_MOVED_FROM events to know
-								/// if the IN_MOVED_TO event is also fired
-								if ( currentMoveFrom ) {
-									if ( std::find_if( mMovedOutsideWatches.begin(),
-													   mMovedOutsideWatches.end(),
-													   [currentMoveFrom](
-														   const std::pair<WatcherInotify*,
-																		   std::string>& moved ) {
-														   return moved.first == currentMoveFrom;
-													   } ) == mMovedOutsideWatches.end() ) {
-										mMovedOutsideWatches.push_back(
-											std::make_pair( currentMoveFrom, prevOldFileName ) );
-									} else {
-										efDEBUG( "Info: Tried to add watch to the moved outside "
-												 "watches but it was already there, Watch ID: %d - "
-												 "Address: %p - Path: \"%s\" - prevOldFileName: "
-												 "\"%s\"\n",
-												 pevent->wd, currentMoveFrom,
-												 currentMoveFrom->Directory.c_str(),
-												 prevOldFileName.c_str() );
-									}
-								}
-
-								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
 							}
 						}
 
-						lastWasMovedFrom = ( pevent->mask & IN_MOVED_FROM ) != 0;
-						if ( pevent->mask & IN_MOVED_FROM )
-							prevOldFileName = std::string( (char*)pevent->name );
+						if ( isMoveTo ) {
+							// If the move happened between TWO DIFFERENT watched directories
+							// We need to simulate a delete event, the IN_MOVED_TO generated an add
+							// event. Otherwise it's a local rename: handleAction() above already
+							// detected the OldFileName and emitted a 'Moved' event.
+							if ( curWatcher != currentMoveFrom )
+								handleMovedOutside( currentMoveFrom );
+
+							currentMoveFrom = NULL;
+							currentMoveCookie = -1;
+						}
 					}
 
 					i += sizeof( struct inotify_event ) + pevent->len;
 				}
 			}
 
-			// If the last event was also IN_MODEV_FROM we didn't generate any event for that one
+			// If the last event was IN_MOVED_FROM we didn't generate any event for that one
 			// Treat it as a DELETE or moved outside watches
-			if ( lastWasMovedFrom && currentMoveFrom ) {
-				mMovedOutsideWatches.push_back(
-					std::make_pair( currentMoveFrom, prevOldFileName ) );
-				currentMoveFrom = NULL;
-				lastWasMovedFrom = false;
-				prevOldFileName.clear();
-			}
-		} else {
-			// Here means no event received
-			// If last event is IN_MOVED_FROM, we assume no IN_MOVED_TO
 			if ( currentMoveFrom ) {
-				if ( std::find_if(
-						 mMovedOutsideWatches.begin(), mMovedOutsideWatches.end(),
-						 [currentMoveFrom]( const std::pair<WatcherInotify*, std::string>& moved ) {
-							 return moved.first == currentMoveFrom;
-						 } ) == mMovedOutsideWatches.end() &&
-					 !currentMoveFrom->OldFileName.empty() ) {
-					mMovedOutsideWatches.push_back(
-						std::make_pair( currentMoveFrom, currentMoveFrom->OldFileName ) );
-				} else {
-					efDEBUG( "Warning: Tried to add watch to the moved outside "
-							 "watches but it was already there, Watch Address: %p\n",
-							 currentMoveFrom );
-				}
+				handleMovedOutside( currentMoveFrom );
+				currentMoveFrom = NULL;
+				currentMoveCookie = -1;
 			}
-
-			currentMoveFrom = NULL;
-			currentMoveCookie = -1;
 		}
 
-		if ( !mMovedOutsideWatches.empty() ) {
-			// We need to make a copy since the element mMovedOutsideWatches could be modified
-			// during the iteration.
-			std::vector<std::pair<WatcherInotify*, std::string>> movedOutsideWatches(
-				mMovedOutsideWatches );
-
-			/// In case that the IN_MOVED_TO is never fired means that the file was moved to other
-			/// folder
-			for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator it =
-					  movedOutsideWatches.begin();
-				  it != movedOutsideWatches.end(); ++it ) {
-
-				// Skip if the watch has already being removed
-				if ( mMovedOutsideWatches.size() != movedOutsideWatches.size() ) {
-					bool found = false;
-					for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-							  mMovedOutsideWatches.begin();
-						  mMovedOutsideWatches.end() != itm; ++itm ) {
-						if ( itm->first == it->first ) {
-							found = true;
-							break;
-						}
-					}
-					if ( !found )
-						continue;
+		{
+			Lock lock( mWatchesLock );
+			if ( !mDeletedWatches.empty() ) {
+				for ( auto w : mDeletedWatches ) {
+					efSAFE_DELETE( w );
 				}
+				mDeletedWatches.clear();
+			}
+		}
+	} while ( mInitOK );
 
-				Watcher* watch = it->first;
-
-				// Clear the stale OldFileName.
-				// Since this move is considered complete (moved outside),
-				// the watcher should not be waiting for a pair anymore.
-				watch->OldFileName = "";
+	delete[] buff;
+}
 
-				const std::string& oldFileName = it->second;
+void FileWatcherInotify::handleMovedOutside( WatcherInotify* watch ) {
+	// Clear the stale OldFileName.
+	// Since this move is considered complete (moved outside),
+	// the watcher should not be waiting for a pair anymore.
+	std::string oldFileName;
+	std::swap( oldFileName, watch->OldFileName );
 
-				/// Check if the file move was a folder already being watched
-				std::vector<Watcher*> eraseWatches;
+	if ( oldFileName.empty() )
+		return;
 
-				{
-					Lock lock( mWatchesLock );
+	/// Check if the file move was a folder already being watched
+	std::string oldPath( watch->Directory + oldFileName + "/" );
+	std::vector<Watcher*> eraseWatches;
 
-					for ( auto wit : mWatches ) {
-						Watcher* oldWatch = wit.second;
+	{
+		Lock lock( mWatchesLock );
 
-						if ( oldWatch != watch &&
-							 -1 != String::strStartsWith( watch->Directory + oldFileName + "/",
-														  oldWatch->Directory ) ) {
-							eraseWatches.push_back( oldWatch );
-						}
-					}
-				}
+		for ( auto wit : mWatches ) {
+			Watcher* oldWatch = wit.second;
 
-				/// Remove invalid watches
-				std::stable_sort( eraseWatches.begin(), eraseWatches.end(),
-								  []( const Watcher* left, const Watcher* right ) {
-									  return left->Directory < right->Directory;
-								  } );
-
-				if ( eraseWatches.empty() ) {
-					handleAction( watch, oldFileName, IN_DELETE );
-				} else {
-					for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
-						  eit != eraseWatches.rend(); ++eit ) {
-						Watcher* rmWatch = *eit;
-
-						/// Create Delete event for removed watches that have been moved too
-						if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
-							handleAction( cntWatch,
-										  FileSystem::fileNameFromPath( rmWatch->Directory ),
-										  IN_DELETE );
-						}
-					}
-				}
+			if ( oldWatch != watch && oldWatch->Directory != oldPath &&
+				 -1 != String::strStartsWith( oldPath, oldWatch->Directory ) ) {
+				eraseWatches.push_back( oldWatch );
 			}
-
-			mMovedOutsideWatches.clear();
 		}
+	}
 
-		{
-			Lock lock( mWatchesLock );
-			if ( !mDeletedWatches.empty() ) {
-				for ( auto w : mDeletedWatches ) {
-					efSAFE_DELETE( w );
-				}
-				mDeletedWatches.clear();
-			}
+	/// Remove invalid watches
+	std::stable_sort( eraseWatches.begin(), eraseWatches.end(),
+					  []( const Watcher* left, const Watcher* right ) {
+						  return left->Directory < right->Directory;
+					  } );
+
+	for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
+		  eit != eraseWatches.rend(); ++eit ) {
+		Watcher* rmWatch = *eit;
+
+		/// Create Delete event for removed watches that have been moved too
+		if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
+			handleAction( cntWatch, FileSystem::fileNameFromPath( rmWatch->Directory ), IN_DELETE );
 		}
-	} while ( mInitOK );
+	}
 
-	delete[] buff;
+	handleAction( watch, oldFileName, IN_DELETE );
 }
 
 void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index f71cd0f..cb9e2cb 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -60,7 +60,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mWatchesLock;
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
-	std::vector<std::pair<WatcherInotify*, std::string>> mMovedOutsideWatches;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
 	WatchID addWatch( const std::string& directory, FileWatchListener* watcher, bool recursive,
@@ -74,6 +73,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
 
+	/// Handles an IN_MOVED_FROM which destination is unknown or isn't in the same watch
+	void handleMovedOutside( WatcherInotify* watch );
+
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
 	Watcher* watcherContainsDirectory( std::string dir );
-- 
2.43.0


From 2e18a0af79fe5f41b5dc9e5f2ee34d206a32283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 03/52] fix: inotify: never call the listener of a watch
 already removed

The watch of an event was looked up before waiting for mInitLock, and a
callback can remove its own watch between two notifications.
---
 src/efsw/FileWatcherInotify.cpp | 23 ++++++++++++++++++-----
 src/efsw/WatcherInotify.hpp     |  1 +
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 8322752..3e7fde4 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -161,6 +161,9 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 
 		if ( fromInternalEvent && parent != NULL && syntheticEvents ) {
 			for ( const auto& file : files ) {
+				if ( pWatch->Removed )
+					break;
+
 				if ( file.second.isRegularFile() || file.second.isDirectory() ||
 					 file.second.isLink() ) {
 					pWatch->Listener->handleFileAction(
@@ -173,7 +176,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		std::map<std::string, FileInfo>::iterator it = files.begin();
 
 		for ( ; it != files.end(); ++it ) {
-			if ( !mInitOK )
+			if ( !mInitOK || pWatch->Removed )
 				break;
 
 			const FileInfo& cfi = it->second;
@@ -230,6 +233,7 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		}
 	}
 
+	watch->Removed = true;
 	mDeletedWatches.push_back( watch );
 }
 
@@ -460,6 +464,12 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	}
 	Lock initLock( mInitLock );
 
+	// The watch could have been removed while waiting for the lock, and the listener can remove
+	// it from any of the callbacks.
+	const WatcherInotify* iWatch = static_cast<WatcherInotify*>( watch );
+	if ( iWatch->Removed )
+		return;
+
 	std::string fpath( watch->Directory + filename );
 
 	if ( IN_Q_OVERFLOW & action ) {
@@ -474,10 +484,12 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Add );
 
-			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
-											   Actions::Modified );
+			if ( !iWatch->Removed )
+				watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
+												   Actions::Modified );
 
-			checkForNewWatcher( watch, fpath );
+			if ( !iWatch->Removed )
+				checkForNewWatcher( watch, fpath );
 		} else {
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Moved, watch->OldFileName );
@@ -506,7 +518,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 	} else if ( IN_CREATE & action ) {
 		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, Actions::Add );
 
-		checkForNewWatcher( watch, fpath );
+		if ( !iWatch->Removed )
+			checkForNewWatcher( watch, fpath );
 	} else if ( IN_MOVED_FROM & action ) {
 		watch->OldFileName = filename;
 	} else if ( IN_DELETE & action ) {
diff --git a/src/efsw/WatcherInotify.hpp b/src/efsw/WatcherInotify.hpp
index ec55ed0..1670904 100644
--- a/src/efsw/WatcherInotify.hpp
+++ b/src/efsw/WatcherInotify.hpp
@@ -17,6 +17,7 @@ class WatcherInotify : public Watcher {
 
 	FileInfo DirInfo;
 	bool syntheticEvents{ false };
+	bool Removed{ false };
 };
 
 } // namespace efsw
-- 
2.43.0


From 28af514beba858814075a0e11f3cfaaea7415630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 04/52] fix: inotify: report a queue overflow to every watch

IN_Q_OVERFLOW is sent with wd -1, so it never matched a watch and
handleMissedFileActions was never called.
---
 src/efsw/FileWatcherInotify.cpp | 19 +++++++++++++++++++
 src/efsw/FileWatcherInotify.hpp |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 3e7fde4..79fc978 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -324,6 +324,9 @@ void FileWatcherInotify::run() {
 							currentMoveCookie = -1;
 						}
 
+						if ( pevent->mask & IN_Q_OVERFLOW )
+							handleOverflow();
+
 						curWatcher = NULL;
 
 						{
@@ -430,6 +433,22 @@ void FileWatcherInotify::handleMovedOutside( WatcherInotify* watch ) {
 	handleAction( watch, oldFileName, IN_DELETE );
 }
 
+void FileWatcherInotify::handleOverflow() {
+	// IN_Q_OVERFLOW doesn't belong to any watch (wd is -1), the missed events could be of any.
+	std::vector<Watcher*> watches;
+
+	{
+		Lock lock( mWatchesLock );
+		Lock l( mRealWatchesLock );
+
+		for ( auto& it : mRealWatches )
+			watches.push_back( it.second );
+	}
+
+	for ( Watcher* watch : watches )
+		handleAction( watch, "", IN_Q_OVERFLOW );
+}
+
 void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
 	FileSystem::dirAddSlashAtEnd( fpath );
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index cb9e2cb..b174db3 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -76,6 +76,8 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// Handles an IN_MOVED_FROM which destination is unknown or isn't in the same watch
 	void handleMovedOutside( WatcherInotify* watch );
 
+	void handleOverflow();
+
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
 	Watcher* watcherContainsDirectory( std::string dir );
-- 
2.43.0


From 1583e22df5551b35875cd70893405a5a82eab899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 05/52] fix: inotify: lock mRealWatches when removing a watch
 by id

---
 src/efsw/FileWatcherInotify.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 79fc978..38921e1 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -216,6 +216,7 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 	mWatches.erase( iter );
 
 	if ( NULL == watch->Parent ) {
+		Lock l( mRealWatchesLock );
 		WatchMap::iterator eraseit = mRealWatches.find( watch->InotifyID );
 
 		if ( eraseit != mRealWatches.end() ) {
-- 
2.43.0


From 4bdb107e34aab6965318ddf9661dc0f72edb4b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 06/52] fix: inotify: keep the watches of sub directories in
 step with their paths

A directory renamed, moved or replaced before its creation was handled was
left unwatched, or watched under the path of another one; watches of
replaced directories, of the content of moved or deleted directories and
references by path went stale, Parent could point to a freed watch, and
user added watches were dropped with the directory that contains them.
---
 src/efsw/FileWatcherInotify.cpp | 182 ++++++++++++++++++++------------
 src/efsw/FileWatcherInotify.hpp |   7 ++
 src/efsw/WatcherInotify.hpp     |   1 +
 3 files changed, 124 insertions(+), 66 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 38921e1..0bb44f7 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -127,30 +127,46 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	// The watch could exists if a file was moved between directories that are being watched
 	// In that case we need to remove the local watch information but *keep* the inotify watch id
 	// open, to be reused with the new watch.
+	// A directory that is already watched with its current path is kept as it is.
+	WatcherInotify* pWatch = NULL;
 	{
 		Lock lock( mWatchesLock );
 		auto watchIdExists = mWatches.find( wd );
-		if ( watchIdExists != mWatches.end() )
-			removeWatchLocked( wd, true );
+		if ( watchIdExists != mWatches.end() ) {
+			WatcherInotify* oldWatch = watchIdExists->second;
+			if ( parent && !oldWatch->Parent ) {
+				// It was added by the user
+				return Errors::Log::createLastError( Errors::FileRepeated, directory );
+			} else if ( parent && oldWatch->ID == parent->ID && oldWatch->Directory == dir ) {
+				if ( "" != link )
+					return Errors::Log::createLastError( Errors::FileRepeated, directory );
+				pWatch = oldWatch;
+			} else {
+				removeWatchLocked( wd, true );
+			}
+		}
 	}
 
-	efDEBUG( "Added watch %s with id: %d\n", dir.c_str(), wd );
+	bool isNew = NULL == pWatch || pWatch->Incomplete;
 
-	WatcherInotify* pWatch = new WatcherInotify();
-	pWatch->Listener = watcher;
-	pWatch->ID = parent ? parent->ID : wd;
-	pWatch->InotifyID = wd;
-	pWatch->Directory = dir;
-	pWatch->Recursive = recursive;
-	pWatch->Parent = parent;
-	pWatch->syntheticEvents = syntheticEvents;
+	if ( NULL == pWatch ) {
+		efDEBUG( "Added watch %s with id: %d\n", dir.c_str(), wd );
+
+		pWatch = new WatcherInotify();
+		pWatch->Listener = watcher;
+		pWatch->ID = parent ? parent->ID : wd;
+		pWatch->InotifyID = wd;
+		pWatch->Directory = dir;
+		pWatch->Recursive = recursive;
+		pWatch->syntheticEvents = syntheticEvents;
 
-	{
 		Lock lock( mWatchesLock );
 		mWatches[wd] = pWatch;
 		mWatchesRef[pWatch->Directory] = wd;
 	}
 
+	pWatch->Parent = parent;
+
 	if ( NULL == pWatch->Parent ) {
 		Lock l( mRealWatchesLock );
 		mRealWatches[pWatch->InotifyID] = pWatch;
@@ -159,7 +175,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	if ( pWatch->Recursive ) {
 		std::map<std::string, FileInfo> files = FileSystem::filesInfoFromPath( pWatch->Directory );
 
-		if ( fromInternalEvent && parent != NULL && syntheticEvents ) {
+		if ( isNew && fromInternalEvent && parent != NULL && syntheticEvents ) {
 			for ( const auto& file : files ) {
 				if ( pWatch->Removed )
 					break;
@@ -186,6 +202,9 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 						  fromInternalEvent );
 			}
 		}
+
+		// If the directory was moved meanwhile it must be listed again with its new path
+		pWatch->Incomplete = FileInfo( pWatch->Directory ).Inode != fi.Inode;
 	}
 
 	return wd;
@@ -203,7 +222,7 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		std::vector<WatchID> eraseWatches;
 
 		for ( ; it != mWatches.end(); ++it )
-			if ( it->second != watch && it->second->inParentTree( watch ) )
+			if ( it->second != watch && it->second->ID == watch->ID )
 				eraseWatches.push_back( it->second->InotifyID );
 
 		for ( std::vector<WatchID>::iterator eit = eraseWatches.begin(); eit != eraseWatches.end();
@@ -212,7 +231,9 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		}
 	}
 
-	mWatchesRef.erase( watch->Directory );
+	auto ref = mWatchesRef.find( watch->Directory );
+	if ( ref != mWatchesRef.end() && ref->second == watch->InotifyID )
+		mWatchesRef.erase( ref );
 	mWatches.erase( iter );
 
 	if ( NULL == watch->Parent ) {
@@ -339,21 +360,33 @@ void FileWatcherInotify::run() {
 								curWatcher = wit->second;
 						}
 
-						if ( curWatcher ) {
+						if ( curWatcher && isMoveTo && curWatcher != currentMoveFrom ) {
+							// The move happened between TWO DIFFERENT watched directories
+							handleMovedBetween( currentMoveFrom, curWatcher, (char*)pevent->name,
+												pevent->mask );
+							currentMoveFrom = NULL;
+							currentMoveCookie = -1;
+						} else if ( curWatcher ) {
+							// If it's a local rename handleAction() emits a 'Moved' event since the
+							// watcher has an OldFileName.
 							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
 
+							// The kernel dropped the watch ( the directory doesn't exist anymore )
+							if ( ( pevent->mask & IN_IGNORED ) && curWatcher->Parent ) {
+								Lock initLock( mInitLock );
+								Lock lock( mWatchesLock );
+								if ( !curWatcher->Removed )
+									removeWatchLocked( curWatcher->InotifyID, true );
+							}
+
 							if ( pevent->mask & IN_MOVED_FROM ) {
 								currentMoveFrom = curWatcher;
 								currentMoveCookie = pevent->cookie;
 							}
 						}
 
-						if ( isMoveTo ) {
-							// If the move happened between TWO DIFFERENT watched directories
-							// We need to simulate a delete event, the IN_MOVED_TO generated an add
-							// event. Otherwise it's a local rename: handleAction() above already
-							// detected the OldFileName and emitted a 'Moved' event.
-							if ( curWatcher != currentMoveFrom )
+						if ( isMoveTo && currentMoveFrom ) {
+							if ( !curWatcher )
 								handleMovedOutside( currentMoveFrom );
 
 							currentMoveFrom = NULL;
@@ -434,6 +467,37 @@ void FileWatcherInotify::handleMovedOutside( WatcherInotify* watch ) {
 	handleAction( watch, oldFileName, IN_DELETE );
 }
 
+void FileWatcherInotify::handleMovedBetween( WatcherInotify* from, WatcherInotify* to,
+											 const std::string& filename, unsigned long action ) {
+	Lock initLock( mInitLock );
+
+	std::string oldFileName;
+	std::swap( oldFileName, from->OldFileName );
+
+	std::string oldPath( from->Directory + oldFileName + "/" );
+
+	if ( from->Listener && mInitOK && !from->Removed )
+		from->Listener->handleFileAction( from->ID, from->Directory, oldFileName, Actions::Delete );
+
+	// If it's a folder its watches are reused
+	handleAction( to, filename, action );
+
+	// Remove the watches that couldn't be reused
+	removeInternalWatches( oldPath );
+}
+
+void FileWatcherInotify::removeInternalWatches( const std::string& path ) {
+	Lock lock( mWatchesLock );
+	std::vector<WatchID> eraseWatches;
+
+	for ( auto& wit : mWatches )
+		if ( wit.second->Parent && -1 != String::strStartsWith( path, wit.second->Directory ) )
+			eraseWatches.push_back( wit.first );
+
+	for ( WatchID id : eraseWatches )
+		removeWatchLocked( id );
+}
+
 void FileWatcherInotify::handleOverflow() {
 	// IN_Q_OVERFLOW doesn't belong to any watch (wd is -1), the missed events could be of any.
 	std::vector<Watcher*> watches;
@@ -454,26 +518,11 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 	FileSystem::dirAddSlashAtEnd( fpath );
 
 	/// If the watcher is recursive, checks if the new file is a folder, and creates a watcher
+	/// ( the path isn't enough to know if the folder is already being watched, since it could have
+	/// been replaced by other folder )
 	if ( watch->Recursive && FileSystem::isDirectory( fpath ) ) {
-		bool found = false;
-
-		{
-			Lock lock( mWatchesLock );
-
-			/// First check if exists
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == fpath ) {
-					found = true;
-					break;
-				}
-			}
-		}
-
-		if ( !found ) {
-			WatcherInotify* iWatch = static_cast<WatcherInotify*>( watch );
-			addWatch( fpath, watch->Listener, watch->Recursive, iWatch->syntheticEvents,
-					  static_cast<WatcherInotify*>( watch ), true );
-		}
+		WatcherInotify* iWatch = static_cast<WatcherInotify*>( watch );
+		addWatch( fpath, watch->Listener, watch->Recursive, iWatch->syntheticEvents, iWatch, true );
 	}
 }
 
@@ -515,23 +564,32 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 											   Actions::Moved, watch->OldFileName );
 		}
 
-		if ( watch->Recursive && FileSystem::isDirectory( fpath ) && !watch->OldFileName.empty() ) {
-			/// Update the new directory path
-			std::string opath( watch->Directory + watch->OldFileName );
-			FileSystem::dirAddSlashAtEnd( opath );
-			FileSystem::dirAddSlashAtEnd( fpath );
-
-			Lock lock( mWatchesLock );
-
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == opath ) {
-					it->second->Directory = fpath;
-					it->second->DirInfo = FileInfo( fpath );
-				} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
-					it->second->Directory = fpath + it->second->Directory.substr( opath.size() );
-					it->second->DirInfo.Filepath = it->second->Directory;
+		if ( watch->Recursive && !iWatch->Removed && !watch->OldFileName.empty() ) {
+			if ( IN_ISDIR & action ) {
+				/// Update the new directory path
+				std::string opath( watch->Directory + watch->OldFileName );
+				FileSystem::dirAddSlashAtEnd( opath );
+				FileSystem::dirAddSlashAtEnd( fpath );
+
+				Lock lock( mWatchesLock );
+				Lock l( mRealWatchesLock );
+
+				for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+					if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
+						auto ref = mWatchesRef.find( it->second->Directory );
+						if ( ref != mWatchesRef.end() && ref->second == it->second->InotifyID )
+							mWatchesRef.erase( ref );
+
+						it->second->Directory =
+							fpath + it->second->Directory.substr( opath.size() );
+						it->second->DirInfo.Filepath = it->second->Directory;
+						mWatchesRef[it->second->Directory] = it->second->InotifyID;
+					}
 				}
 			}
+
+			/// The directory, or others inside it, could have been moved before being watched
+			checkForNewWatcher( watch, fpath );
 		}
 
 		watch->OldFileName = "";
@@ -548,16 +606,8 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		FileSystem::dirAddSlashAtEnd( fpath );
 
 		/// If the file erased is a directory and recursive is enabled, removes the directory erased
-		if ( watch->Recursive ) {
-			Lock l( mWatchesLock );
-
-			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == fpath ) {
-					removeWatchLocked( it->second->InotifyID );
-					break;
-				}
-			}
-		}
+		if ( watch->Recursive )
+			removeInternalWatches( fpath );
 	}
 }
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index b174db3..b595675 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -76,6 +76,13 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// Handles an IN_MOVED_FROM which destination is unknown or isn't in the same watch
 	void handleMovedOutside( WatcherInotify* watch );
 
+	/// Handles a move between two different watched directories
+	void handleMovedBetween( WatcherInotify* from, WatcherInotify* to, const std::string& filename,
+							 unsigned long action );
+
+	/// Removes the watches of a directory and its sub directories that weren't added by the user
+	void removeInternalWatches( const std::string& path );
+
 	void handleOverflow();
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
diff --git a/src/efsw/WatcherInotify.hpp b/src/efsw/WatcherInotify.hpp
index 1670904..8a285fc 100644
--- a/src/efsw/WatcherInotify.hpp
+++ b/src/efsw/WatcherInotify.hpp
@@ -18,6 +18,7 @@ class WatcherInotify : public Watcher {
 	FileInfo DirInfo;
 	bool syntheticEvents{ false };
 	bool Removed{ false };
+	bool Incomplete{ false };
 };
 
 } // namespace efsw
-- 
2.43.0


From b80082fff1a1c0bf57a3949ccdfe591b04aa8b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 07/52] fix: generic: lock the watches and let listeners add
 and remove them

---
 src/efsw/DirWatcherGeneric.cpp  |  5 +++-
 src/efsw/FileWatcherGeneric.cpp | 53 ++++++++++++++++++++++-----------
 src/efsw/FileWatcherGeneric.hpp |  7 +++++
 src/efsw/WatcherGeneric.hpp     |  1 +
 4 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index fee82ea..e33f4ce 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -86,6 +86,9 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 
 void DirWatcherGeneric::handleAction( const std::string& filename, unsigned long action,
 									  const std::string& oldFilename ) {
+	if ( Watch->Removed )
+		return;
+
 	Watch->Listener->handleFileAction( Watch->ID, DirSnap.DirectoryInfo.Filepath,
 									   FileSystem::fileNameFromPath( filename ), (Action)action,
 									   oldFilename );
@@ -142,7 +145,7 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 void DirWatcherGeneric::watch( bool reportOwnChange ) {
 	DirectorySnapshotDiff Diff = DirSnap.scan();
 
-	if ( reportOwnChange && Diff.DirChanged && NULL != Parent ) {
+	if ( reportOwnChange && Diff.DirChanged && NULL != Parent && !Watch->Removed ) {
 		Watch->Listener->handleFileAction(
 			Watch->ID, FileSystem::pathRemoveFileName( DirSnap.DirectoryInfo.Filepath ),
 			FileSystem::fileNameFromPath( DirSnap.DirectoryInfo.Filepath ), Actions::Modified );
diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 165fafa..62fc405 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -36,6 +36,9 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	/// The watcher thread changes the watched directories while it's polling them
+	Lock lock( mWatchesLock );
+
 	FileInfo fi( dir );
 
 	if ( !fi.isDirectory() ) {
@@ -63,7 +66,6 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	WatcherGeneric* pWatch = new WatcherGeneric( mLastWatchID, dir, watcher, this, recursive );
 
-	Lock lock( mWatchesLock );
 	mWatches.push_back( pWatch );
 
 	return pWatch->ID;
@@ -73,17 +75,13 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->Directory == dir ) {
-			WatcherGeneric* watch = ( *it );
-
-			Lock lock( mWatchesLock );
-
-			mWatches.erase( it );
-
-			efSAFE_DELETE( watch );
+			removeWatchLocked( it );
 
 			return;
 		}
@@ -91,20 +89,30 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 }
 
 void FileWatcherGeneric::removeWatch( WatchID watchid ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->ID == watchid ) {
-			WatcherGeneric* watch = ( *it );
+			removeWatchLocked( it );
 
-			Lock lock( mWatchesLock );
+			return;
+		}
+	}
+}
 
-			mWatches.erase( it );
+void FileWatcherGeneric::removeWatchLocked( WatchList::iterator it ) {
+	WatcherGeneric* watch = ( *it );
 
-			efSAFE_DELETE( watch );
+	mWatches.erase( it );
 
-			return;
-		}
+	if ( mPolling ) {
+		/// Called from a listener: the watch could be the one being polled
+		watch->Removed = true;
+		mDeletedWatches.push_back( watch );
+	} else {
+		efSAFE_DELETE( watch );
 	}
 }
 
@@ -120,11 +128,22 @@ void FileWatcherGeneric::run() {
 		{
 			Lock lock( mWatchesLock );
 
-			WatchList::iterator it = mWatches.begin();
+			/// The listeners can add and remove watches
+			WatchList watches( mWatches );
+
+			mPolling = true;
 
-			for ( ; it != mWatches.end(); ++it ) {
-				( *it )->watch();
+			for ( WatchList::iterator it = watches.begin(); it != watches.end(); ++it ) {
+				if ( !( *it )->Removed )
+					( *it )->watch();
 			}
+
+			mPolling = false;
+
+			for ( WatcherGeneric* watch : mDeletedWatches )
+				efSAFE_DELETE( watch );
+
+			mDeletedWatches.clear();
 		}
 
 		if ( mInitOK )
diff --git a/src/efsw/FileWatcherGeneric.hpp b/src/efsw/FileWatcherGeneric.hpp
index f70f512..978618a 100644
--- a/src/efsw/FileWatcherGeneric.hpp
+++ b/src/efsw/FileWatcherGeneric.hpp
@@ -50,6 +50,11 @@ class FileWatcherGeneric : public FileWatcherImpl {
 	/// Map of WatchID to WatchStruct pointers
 	WatchList mWatches;
 
+	/// Watches removed by a listener while polling
+	WatchList mDeletedWatches;
+
+	bool mPolling{ false };
+
 	Mutex mWatchesLock;
 
 	int mPollingFreq{ 1000 };
@@ -58,6 +63,8 @@ class FileWatcherGeneric : public FileWatcherImpl {
 
   private:
 	void run();
+
+	void removeWatchLocked( WatchList::iterator it );
 };
 
 } // namespace efsw
diff --git a/src/efsw/WatcherGeneric.hpp b/src/efsw/WatcherGeneric.hpp
index d11ec20..b2b65ff 100644
--- a/src/efsw/WatcherGeneric.hpp
+++ b/src/efsw/WatcherGeneric.hpp
@@ -11,6 +11,7 @@ class WatcherGeneric : public Watcher {
   public:
 	FileWatcherImpl* WatcherImpl;
 	DirWatcherGeneric* DirWatch;
+	bool Removed{ false };
 
 	WatcherGeneric( WatchID id, const std::string& directory, FileWatchListener* fwl,
 					FileWatcherImpl* fw, bool recursive );
-- 
2.43.0


From 74c80f6a2c6f70b74d2c4300af55269cc203677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 08/52] fix: generic: find deletions even if the directory info
 didn't change

The modification time has a resolution of a second: files deleted in the same
second of the last change seen were never reported. Nothing can be concluded
from a directory that couldn't be listed.
---
 src/efsw/DirectorySnapshot.cpp             | 16 +++++-----------
 src/efsw/FileSystem.cpp                    |  4 ++--
 src/efsw/FileSystem.hpp                    |  3 ++-
 src/efsw/platform/posix/FileSystemImpl.cpp |  9 +++++++--
 src/efsw/platform/posix/FileSystemImpl.hpp |  2 +-
 src/efsw/platform/win/FileSystemImpl.cpp   |  5 ++++-
 src/efsw/platform/win/FileSystemImpl.hpp   |  2 +-
 7 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index f78475f..825edd2 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -79,21 +79,19 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		return Diff;
 	}
 
-	FileInfoMap files = FileSystem::filesInfoFromPath( DirectoryInfo.Filepath );
+	bool listed = false;
+	FileInfoMap files = FileSystem::filesInfoFromPath( DirectoryInfo.Filepath, &listed );
 
-	if ( files.empty() && Files.empty() ) {
+	/// Without the list of files there's nothing to compare with
+	if ( !listed || ( files.empty() && Files.empty() ) ) {
 		return Diff;
 	}
 
 	FileInfo fi;
-	FileInfoMap FilesCpy;
+	FileInfoMap FilesCpy( Files );
 	FileInfoMap::iterator it;
 	FileInfoMap::iterator fiIt;
 
-	if ( Diff.DirChanged ) {
-		FilesCpy = Files;
-	}
-
 	for ( it = files.begin(); it != files.end(); it++ ) {
 		fi = it->second;
 
@@ -150,10 +148,6 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		}
 	}
 
-	if ( !Diff.DirChanged ) {
-		return Diff;
-	}
-
 	/// The files or directories that remains were deleted
 	for ( it = FilesCpy.begin(); it != FilesCpy.end(); it++ ) {
 		fi = it->second;
diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index d17f00c..f23db78 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -25,10 +25,10 @@ bool FileSystem::isDirectory( const std::string& path ) {
 	return Platform::FileSystem::isDirectory( path );
 }
 
-FileInfoMap FileSystem::filesInfoFromPath( std::string path ) {
+FileInfoMap FileSystem::filesInfoFromPath( std::string path, bool* listed ) {
 	dirAddSlashAtEnd( path );
 
-	return Platform::FileSystem::filesInfoFromPath( path );
+	return Platform::FileSystem::filesInfoFromPath( path, listed );
 }
 
 char FileSystem::getOSSlash() {
diff --git a/src/efsw/FileSystem.hpp b/src/efsw/FileSystem.hpp
index 810c833..5d21d07 100644
--- a/src/efsw/FileSystem.hpp
+++ b/src/efsw/FileSystem.hpp
@@ -10,7 +10,8 @@ class FileSystem {
   public:
 	static bool isDirectory( const std::string& path );
 
-	static FileInfoMap filesInfoFromPath( std::string path );
+	/// @param listed Returns false if the directory content couldn't be listed
+	static FileInfoMap filesInfoFromPath( std::string path, bool* listed = NULL );
 
 	static char getOSSlash();
 
diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 92eeb47..e8e38dc 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -161,13 +161,18 @@ std::string FileSystem::getCurrentWorkingDirectory() {
 	return result != NULL ? std::string( result ) : std::string();
 }
 
-FileInfoMap FileSystem::filesInfoFromPath( const std::string& path ) {
+FileInfoMap FileSystem::filesInfoFromPath( const std::string& path, bool* listed ) {
 	FileInfoMap files;
 
 	DIR* dp;
 	struct dirent* dirp;
 
-	if ( ( dp = opendir( path.c_str() ) ) == NULL )
+	dp = opendir( path.c_str() );
+
+	if ( NULL != listed )
+		*listed = dp != NULL;
+
+	if ( dp == NULL )
 		return files;
 
 	while ( ( dirp = readdir( dp ) ) != NULL ) {
diff --git a/src/efsw/platform/posix/FileSystemImpl.hpp b/src/efsw/platform/posix/FileSystemImpl.hpp
index 0bfba76..e82ce5e 100644
--- a/src/efsw/platform/posix/FileSystemImpl.hpp
+++ b/src/efsw/platform/posix/FileSystemImpl.hpp
@@ -10,7 +10,7 @@ namespace efsw { namespace Platform {
 
 class FileSystem {
   public:
-	static FileInfoMap filesInfoFromPath( const std::string& path );
+	static FileInfoMap filesInfoFromPath( const std::string& path, bool* listed = NULL );
 
 	static char getOSSlash();
 
diff --git a/src/efsw/platform/win/FileSystemImpl.cpp b/src/efsw/platform/win/FileSystemImpl.cpp
index 6ecbc40..377b0e1 100644
--- a/src/efsw/platform/win/FileSystemImpl.cpp
+++ b/src/efsw/platform/win/FileSystemImpl.cpp
@@ -48,7 +48,7 @@ std::string FileSystem::getCurrentWorkingDirectory() {
 #endif
 }
 
-FileInfoMap FileSystem::filesInfoFromPath( const std::string& path ) {
+FileInfoMap FileSystem::filesInfoFromPath( const std::string& path, bool* listed ) {
 	FileInfoMap files;
 
 	String tpath( path );
@@ -62,6 +62,9 @@ FileInfoMap FileSystem::filesInfoFromPath( const std::string& path ) {
 	WIN32_FIND_DATAW findFileData;
 	HANDLE hFind = FindFirstFileW( (LPCWSTR)tpath.toWideString().c_str(), &findFileData );
 
+	if ( NULL != listed )
+		*listed = hFind != INVALID_HANDLE_VALUE;
+
 	if ( hFind != INVALID_HANDLE_VALUE ) {
 		std::string name( String( findFileData.cFileName ).toUtf8() );
 		std::string fpath( path + name );
diff --git a/src/efsw/platform/win/FileSystemImpl.hpp b/src/efsw/platform/win/FileSystemImpl.hpp
index e952efc..675e256 100644
--- a/src/efsw/platform/win/FileSystemImpl.hpp
+++ b/src/efsw/platform/win/FileSystemImpl.hpp
@@ -11,7 +11,7 @@ namespace efsw { namespace Platform {
 
 class FileSystem {
   public:
-	static FileInfoMap filesInfoFromPath( const std::string& path );
+	static FileInfoMap filesInfoFromPath( const std::string& path, bool* listed = NULL );
 
 	static char getOSSlash();
 
-- 
2.43.0


From 0bbcfa09b0dcbf69ab39d96fd3c1cf54ed27888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 09/52] fix: generic: moves need the old name gone, names can
 change of type

- A new hard link, or a directory with the inode of a deleted file, isn't a move.
- A name used by a file and then by a directory (or otherwise) was reported as
  modified, and the directory was never watched.
- A file deleted while it was being listed isn't a modification.
- Report what is gone before what is new, a name can be both.
---
 src/efsw/DirWatcherGeneric.cpp | 37 +++++++++++++++++-----------------
 src/efsw/DirectorySnapshot.cpp | 32 ++++++++++++++++++++++-------
 src/efsw/DirectorySnapshot.hpp |  3 ++-
 3 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index e33f4ce..3ce43e7 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -155,40 +155,41 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 		FileInfoList::iterator it;
 		MovedList::iterator mit;
 
-		/// Files
-		DiffIterator( FilesCreated ) {
-			handleAction( ( *it ).Filepath, Actions::Add );
-		}
-
-		DiffIterator( FilesModified ) {
-			handleAction( ( *it ).Filepath, Actions::Modified );
+		/// The names that are gone first, since they could be in use again
+		DiffIterator( FilesDeleted ) {
+			handleAction( ( *it ).Filepath, Actions::Delete );
 		}
 
-		DiffIterator( FilesDeleted ) {
+		DiffIterator( DirsDeleted ) {
 			handleAction( ( *it ).Filepath, Actions::Delete );
+			removeDirectory( ( *it ).Filepath );
 		}
 
 		DiffMovedIterator( FilesMoved ) {
 			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
 		}
 
-		/// Directories
-		DiffIterator( DirsCreated ) {
-			createDirectory( ( *it ).Filepath );
+		DiffMovedIterator( DirsMoved ) {
+			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
+			moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
 		}
 
-		DiffIterator( DirsModified ) {
+		/// Files
+		DiffIterator( FilesCreated ) {
+			handleAction( ( *it ).Filepath, Actions::Add );
+		}
+
+		DiffIterator( FilesModified ) {
 			handleAction( ( *it ).Filepath, Actions::Modified );
 		}
 
-		DiffIterator( DirsDeleted ) {
-			handleAction( ( *it ).Filepath, Actions::Delete );
-			removeDirectory( ( *it ).Filepath );
+		/// Directories
+		DiffIterator( DirsCreated ) {
+			createDirectory( ( *it ).Filepath );
 		}
 
-		DiffMovedIterator( DirsMoved ) {
-			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
-			moveDirectory( ( *mit ).first, ( *mit ).second.Filepath );
+		DiffIterator( DirsModified ) {
+			handleAction( ( *it ).Filepath, Actions::Modified );
 		}
 	}
 
diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index 825edd2..e273498 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -95,10 +95,15 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	for ( it = files.begin(); it != files.end(); it++ ) {
 		fi = it->second;
 
+		/// Only regular files or directories are tracked ( it could also have been deleted after
+		/// being listed )
+		if ( !fi.isRegularFile() && !fi.isDirectory() )
+			continue;
+
 		/// File existed before?
 		fiIt = Files.find( it->first );
 
-		if ( fiIt != Files.end() ) {
+		if ( fiIt != Files.end() && fiIt->second.isDirectory() == fi.isDirectory() ) {
 			/// Erase from the file list copy
 			FilesCpy.erase( it->first );
 
@@ -115,16 +120,26 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 				}
 			}
 		}
-		/// Only add regular files or directories
-		else if ( fi.isRegularFile() || fi.isDirectory() ) {
+		else {
+			if ( fiIt != Files.end() ) {
+				/// A file was replaced by a directory or a directory by a file
+				if ( fiIt->second.isDirectory() ) {
+					Diff.DirsDeleted.push_back( fiIt->second );
+				} else {
+					Diff.FilesDeleted.push_back( fiIt->second );
+				}
+
+				FilesCpy.erase( it->first );
+			}
+
 			/// New file found
 			Files[it->first] = fi;
 
 			FileInfoMap::iterator fit;
 			std::string oldFile = "";
 
-			/// Check if the same inode already existed
-			if ( ( fit = nodeInFiles( fi ) ) != Files.end() ) {
+			/// Check if the same inode already existed, and it's not there anymore
+			if ( ( fit = nodeInFiles( it->first, fi, files ) ) != Files.end() ) {
 				oldFile = fit->first;
 
 				/// Avoid firing a Delete event
@@ -165,12 +180,15 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	return Diff;
 }
 
-FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi ) {
+FileInfoMap::iterator DirectorySnapshot::nodeInFiles( const std::string& name, const FileInfo& fi,
+													  const FileInfoMap& current ) {
 	FileInfoMap::iterator it;
 
 	if ( FileInfo::inodeSupported() ) {
 		for ( it = Files.begin(); it != Files.end(); it++ ) {
-			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath ) {
+			if ( it->first != name && it->second.sameInode( fi ) &&
+				 it->second.isDirectory() == fi.isDirectory() &&
+				 current.find( it->first ) == current.end() ) {
 				return it;
 			}
 		}
diff --git a/src/efsw/DirectorySnapshot.hpp b/src/efsw/DirectorySnapshot.hpp
index 0e60542..8121e22 100644
--- a/src/efsw/DirectorySnapshot.hpp
+++ b/src/efsw/DirectorySnapshot.hpp
@@ -24,7 +24,8 @@ class DirectorySnapshot {
 
 	DirectorySnapshotDiff scan();
 
-	FileInfoMap::iterator nodeInFiles( FileInfo& fi );
+	FileInfoMap::iterator nodeInFiles( const std::string& name, const FileInfo& fi,
+									   const FileInfoMap& current );
 
 	void addFile( std::string path );
 
-- 
2.43.0


From d83f6a51ae32733aed66fe0a1414fb897a8df54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 10/52] fix: generic: report the content of new directories and
 always watch them

- The files already in a new directory were never reported.
- A new directory was watched although the watch wasn't recursive.
- A directory missing for a moment while it was being added was never watched.
---
 src/efsw/DirWatcherGeneric.cpp | 25 +++++++++++++++++++++----
 src/efsw/DirWatcherGeneric.hpp |  2 ++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 3ce43e7..d8a0472 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -190,6 +190,7 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 
 		DiffIterator( DirsModified ) {
 			handleAction( ( *it ).Filepath, Actions::Modified );
+			watchDirectory( ( *it ).Filepath );
 		}
 	}
 
@@ -269,11 +270,21 @@ DirWatcherGeneric* DirWatcherGeneric::findDirWatcher( std::string dir ) {
 }
 
 DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
+	handleAction( newdir, Actions::Add );
+
+	return watchDirectory( newdir );
+}
+
+DirWatcherGeneric* DirWatcherGeneric::watchDirectory( std::string newdir ) {
 	FileSystem::dirRemoveSlashAtEnd( newdir );
 	newdir = FileSystem::fileNameFromPath( newdir );
 
 	DirWatcherGeneric* dw = NULL;
 
+	if ( !Recursive || Directories.find( newdir ) != Directories.end() ) {
+		return NULL;
+	}
+
 	/// Check if the directory is a symbolic link
 	std::string parentPath( DirSnap.DirectoryInfo.Filepath );
 	FileSystem::dirAddSlashAtEnd( parentPath );
@@ -283,6 +294,11 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 
 	FileInfo fi( dir );
 
+	/// If it isn't there right now, handle it as modified in the next scan
+	if ( !fi.isDirectory() ) {
+		DirSnap.Files[newdir].Inode = 0;
+	}
+
 	if ( !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) ) {
 		return NULL;
 	}
@@ -312,12 +328,10 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	}
 
 	if ( !skip ) {
-		handleAction( newdir, Actions::Add );
-
 		/// Creates the new directory watcher of the subfolder and check for new files
-		dw = new DirWatcherGeneric( this, Watch, dir, Recursive );
+		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true );
 
-		dw->addChildren();
+		dw->addChildren( true );
 
 		dw->watch();
 
@@ -376,6 +390,9 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 		Directories[newDir] = dw;
 
 		dw->resetDirectory( newDir );
+	} else {
+		/// It couldn't be watched with its old name
+		watchDirectory( newDir );
 	}
 }
 
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index c1f7135..7fdc585 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -42,6 +42,8 @@ class DirWatcherGeneric {
 
 	DirWatcherGeneric* createDirectory( std::string newdir );
 
+	DirWatcherGeneric* watchDirectory( std::string newdir );
+
 	void removeDirectory( std::string dir );
 
 	void moveDirectory( std::string oldDir, std::string newDir );
-- 
2.43.0


From 09649fa6c77e4b61c1780ed53bc058ac97ae257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 11/52] fix: inotify: rename the watches inside a directory
 found with a new path

---
 src/efsw/FileWatcherInotify.cpp | 42 +++++++++++++++++++++++++--------
 src/efsw/FileWatcherInotify.hpp |  6 +++++
 src/efsw/WatcherInotify.hpp     |  2 ++
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 0bb44f7..76b3471 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -142,6 +142,9 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 					return Errors::Log::createLastError( Errors::FileRepeated, directory );
 				pWatch = oldWatch;
 			} else {
+				// The directories inside it were also moved
+				if ( parent && oldWatch->ID == parent->ID )
+					renameChildrenWatches( wd, oldWatch->Directory, dir );
 				removeWatchLocked( wd, true );
 			}
 		}
@@ -166,6 +169,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	}
 
 	pWatch->Parent = parent;
+	pWatch->ParentID = parent ? parent->InotifyID : 0;
 
 	if ( NULL == pWatch->Parent ) {
 		Lock l( mRealWatchesLock );
@@ -498,6 +502,31 @@ void FileWatcherInotify::removeInternalWatches( const std::string& path ) {
 		removeWatchLocked( id );
 }
 
+void FileWatcherInotify::renameWatch( WatcherInotify* watch, const std::string& dir ) {
+	auto ref = mWatchesRef.find( watch->Directory );
+	if ( ref != mWatchesRef.end() && ref->second == watch->InotifyID )
+		mWatchesRef.erase( ref );
+
+	watch->Directory = dir;
+	watch->DirInfo.Filepath = dir;
+	mWatchesRef[dir] = watch->InotifyID;
+}
+
+void FileWatcherInotify::renameChildrenWatches( WatchID parentId, const std::string& oldDir,
+												const std::string& newDir ) {
+	for ( auto& wit : mWatches ) {
+		WatcherInotify* child = wit.second;
+
+		if ( child->Parent && child->ParentID == parentId && child->Directory != oldDir &&
+			 -1 != String::strStartsWith( oldDir, child->Directory ) ) {
+			std::string oldChildDir( child->Directory );
+			renameWatch( child, newDir + oldChildDir.substr( oldDir.size() ) );
+			child->Incomplete = true;
+			renameChildrenWatches( child->InotifyID, oldChildDir, child->Directory );
+		}
+	}
+}
+
 void FileWatcherInotify::handleOverflow() {
 	// IN_Q_OVERFLOW doesn't belong to any watch (wd is -1), the missed events could be of any.
 	std::vector<Watcher*> watches;
@@ -575,16 +604,9 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 				Lock l( mRealWatchesLock );
 
 				for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-					if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
-						auto ref = mWatchesRef.find( it->second->Directory );
-						if ( ref != mWatchesRef.end() && ref->second == it->second->InotifyID )
-							mWatchesRef.erase( ref );
-
-						it->second->Directory =
-							fpath + it->second->Directory.substr( opath.size() );
-						it->second->DirInfo.Filepath = it->second->Directory;
-						mWatchesRef[it->second->Directory] = it->second->InotifyID;
-					}
+					if ( -1 != String::strStartsWith( opath, it->second->Directory ) )
+						renameWatch( it->second,
+									 fpath + it->second->Directory.substr( opath.size() ) );
 				}
 			}
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index b595675..be3b285 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -83,6 +83,12 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// Removes the watches of a directory and its sub directories that weren't added by the user
 	void removeInternalWatches( const std::string& path );
 
+	void renameWatch( WatcherInotify* watch, const std::string& dir );
+
+	/// Renames the watches of the directories inside a directory that was moved
+	void renameChildrenWatches( WatchID parentId, const std::string& oldDir,
+								const std::string& newDir );
+
 	void handleOverflow();
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
diff --git a/src/efsw/WatcherInotify.hpp b/src/efsw/WatcherInotify.hpp
index 8a285fc..c4e8ab6 100644
--- a/src/efsw/WatcherInotify.hpp
+++ b/src/efsw/WatcherInotify.hpp
@@ -14,6 +14,8 @@ class WatcherInotify : public Watcher {
 
 	WatcherInotify* Parent;
 	WatchID InotifyID;
+	/// InotifyID of the directory containing it
+	WatchID ParentID{ 0 };
 
 	FileInfo DirInfo;
 	bool syntheticEvents{ false };
-- 
2.43.0


From a971400d07cb43ed98e46c8db811ce8047bb1b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 12/52] fix: the last error is shared by all the threads

---
 src/efsw/Log.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/efsw/Log.cpp b/src/efsw/Log.cpp
index 6f32df7..230b88e 100644
--- a/src/efsw/Log.cpp
+++ b/src/efsw/Log.cpp
@@ -1,25 +1,34 @@
 #include <efsw/efsw.hpp>
 #include <efsw/Debug.hpp>
+#include <efsw/Lock.hpp>
+#include <efsw/Mutex.hpp>
 
 namespace efsw { namespace Errors {
 
 static std::string LastError = "";
 static Error LastErrorCode = NoError;
+// The errors can also come from the watcher threads
+static Mutex LastErrorMutex;
 
 std::string Log::getLastErrorLog() {
+	Lock lock( LastErrorMutex );
 	return LastError;
 }
 
 Error Log::getLastErrorCode() {
+	Lock lock( LastErrorMutex );
 	return LastErrorCode;
 }
 
 void Log::clearLastError() {
+	Lock lock( LastErrorMutex );
 	LastErrorCode = NoError;
 	LastError = "";
 }
 
 Error Log::createLastError( Error err, std::string log ) {
+	Lock lock( LastErrorMutex );
+
 	switch ( err ) {
 		case FileNotFound:
 			LastError = "File not found ( " + log + " )";
-- 
2.43.0


From 079025a3b8b134f7088deca5f3d3e54302122d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 13/52] fix: keep the code of the last error

---
 src/efsw/Log.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/efsw/Log.cpp b/src/efsw/Log.cpp
index 230b88e..a1b3407 100644
--- a/src/efsw/Log.cpp
+++ b/src/efsw/Log.cpp
@@ -29,6 +29,8 @@ void Log::clearLastError() {
 Error Log::createLastError( Error err, std::string log ) {
 	Lock lock( LastErrorMutex );
 
+	LastErrorCode = err;
+
 	switch ( err ) {
 		case FileNotFound:
 			LastError = "File not found ( " + log + " )";
-- 
2.43.0


From 963caa388032827f597a4442686bc30ae03fec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:02 +0000
Subject: [PATCH 14/52] fix: inotify: a listener can remove and add its watch
 again while a deletion is reported

---
 src/efsw/FileWatcherInotify.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 76b3471..7a2a2f1 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -487,7 +487,8 @@ void FileWatcherInotify::handleMovedBetween( WatcherInotify* from, WatcherInotif
 	handleAction( to, filename, action );
 
 	// Remove the watches that couldn't be reused
-	removeInternalWatches( oldPath );
+	if ( !from->Removed )
+		removeInternalWatches( oldPath );
 }
 
 void FileWatcherInotify::removeInternalWatches( const std::string& path ) {
@@ -628,7 +629,7 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		FileSystem::dirAddSlashAtEnd( fpath );
 
 		/// If the file erased is a directory and recursive is enabled, removes the directory erased
-		if ( watch->Recursive )
+		if ( watch->Recursive && !iWatch->Removed )
 			removeInternalWatches( fpath );
 	}
 }
-- 
2.43.0


From 0c858a8fb8ea8f8e62c9b5817483d9ed42dc1186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:40 +0000
Subject: [PATCH 15/52] fix: inotify: removing a directory doesn't remove the
 watch of a sub directory

---
 src/efsw/FileWatcherInotify.cpp | 21 +++++++--------------
 src/efsw/FileWatcherInotify.hpp |  2 --
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 7a2a2f1..c8a2546 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -165,7 +165,6 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 
 		Lock lock( mWatchesLock );
 		mWatches[wd] = pWatch;
-		mWatchesRef[pWatch->Directory] = wd;
 	}
 
 	pWatch->Parent = parent;
@@ -235,9 +234,6 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		}
 	}
 
-	auto ref = mWatchesRef.find( watch->Directory );
-	if ( ref != mWatchesRef.end() && ref->second == watch->InotifyID )
-		mWatchesRef.erase( ref );
 	mWatches.erase( iter );
 
 	if ( NULL == watch->Parent ) {
@@ -273,11 +269,13 @@ void FileWatcherInotify::removeWatch( const std::string& directory ) {
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
 
-	std::unordered_map<std::string, WatchID>::iterator ref = mWatchesRef.find( dir );
-	if ( ref == mWatchesRef.end() )
-		return;
-
-	removeWatchLocked( ref->second );
+	/// Only the watches added by the user, never the ones of the sub directories
+	for ( WatchMap::iterator it = mRealWatches.begin(); it != mRealWatches.end(); ++it ) {
+		if ( it->second->Directory == dir ) {
+			removeWatchLocked( it->first );
+			return;
+		}
+	}
 }
 
 void FileWatcherInotify::removeWatch( WatchID watchid ) {
@@ -504,13 +502,8 @@ void FileWatcherInotify::removeInternalWatches( const std::string& path ) {
 }
 
 void FileWatcherInotify::renameWatch( WatcherInotify* watch, const std::string& dir ) {
-	auto ref = mWatchesRef.find( watch->Directory );
-	if ( ref != mWatchesRef.end() && ref->second == watch->InotifyID )
-		mWatchesRef.erase( ref );
-
 	watch->Directory = dir;
 	watch->DirInfo.Filepath = dir;
-	mWatchesRef[dir] = watch->InotifyID;
 }
 
 void FileWatcherInotify::renameChildrenWatches( WatchID parentId, const std::string& oldDir,
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index be3b285..58105d8 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -50,8 +50,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// User added watches
 	WatchMap mRealWatches;
 
-	std::unordered_map<std::string, WatchID> mWatchesRef;
-
 	/// inotify file descriptor
 	int mFD;
 
-- 
2.43.0


From 76e67fc826dd25eb85de6e232879be89e1c862e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 16/52] fix: inotify: update the sub directory watches after
 missing events

---
 src/efsw/FileWatcherInotify.cpp | 39 +++++++++++++++++++++++++++++++--
 src/efsw/FileWatcherInotify.hpp |  6 +++++
 src/efsw/WatcherInotify.hpp     |  2 ++
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index c8a2546..792c4a7 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -23,7 +23,7 @@
 namespace efsw {
 
 FileWatcherInotify::FileWatcherInotify( FileWatcher* parent ) :
-	FileWatcherImpl( parent ), mFD( -1 ), mThread( NULL ) {
+	FileWatcherImpl( parent ), mFD( -1 ), mScanId( 0 ), mThread( NULL ) {
 	mFD = inotify_init();
 
 	if ( mFD < 0 ) {
@@ -167,6 +167,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		mWatches[wd] = pWatch;
 	}
 
+	pWatch->ScanId = mScanId;
 	pWatch->Parent = parent;
 	pWatch->ParentID = parent ? parent->InotifyID : 0;
 
@@ -533,8 +534,42 @@ void FileWatcherInotify::handleOverflow() {
 			watches.push_back( it.second );
 	}
 
-	for ( Watcher* watch : watches )
+	for ( Watcher* watch : watches ) {
 		handleAction( watch, "", IN_Q_OVERFLOW );
+
+		rescanSubDirectories( static_cast<WatcherInotify*>( watch ) );
+	}
+}
+
+void FileWatcherInotify::rescanSubDirectories( WatcherInotify* watch ) {
+	Lock initLock( mInitLock );
+
+	if ( !watch->Recursive || watch->Removed || !mInitOK )
+		return;
+
+	mScanId++;
+
+	for ( const auto& file : FileSystem::filesInfoFromPath( watch->Directory ) ) {
+		if ( watch->Removed )
+			return;
+
+		if ( file.second.isDirectory() && file.second.isReadable() )
+			checkForNewWatcher( watch, file.second.Filepath );
+	}
+
+	if ( watch->Removed )
+		return;
+
+	/// The ones not found aren't in the directory anymore
+	Lock lock( mWatchesLock );
+	std::vector<WatchID> eraseWatches;
+
+	for ( auto& wit : mWatches )
+		if ( wit.second->Parent && wit.second->ID == watch->ID && wit.second->ScanId != mScanId )
+			eraseWatches.push_back( wit.first );
+
+	for ( WatchID id : eraseWatches )
+		removeWatchLocked( id );
 }
 
 void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 58105d8..a97533a 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -53,6 +53,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// inotify file descriptor
 	int mFD;
 
+	/// Number of the last scan of the sub directories
+	unsigned int mScanId;
+
 	Thread* mThread;
 
 	Mutex mWatchesLock;
@@ -89,6 +92,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void handleOverflow();
 
+	/// Updates the watches of the sub directories after missing events
+	void rescanSubDirectories( WatcherInotify* watch );
+
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
 	Watcher* watcherContainsDirectory( std::string dir );
diff --git a/src/efsw/WatcherInotify.hpp b/src/efsw/WatcherInotify.hpp
index c4e8ab6..a752cb6 100644
--- a/src/efsw/WatcherInotify.hpp
+++ b/src/efsw/WatcherInotify.hpp
@@ -21,6 +21,8 @@ class WatcherInotify : public Watcher {
 	bool syntheticEvents{ false };
 	bool Removed{ false };
 	bool Incomplete{ false };
+	/// Last scan that found the directory
+	unsigned int ScanId{ 0 };
 };
 
 } // namespace efsw
-- 
2.43.0


From ddeb558cc38051ab41be6d2fccef09bbe703ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:02 +0000
Subject: [PATCH 17/52] fix: find the mount point without changing the working
 directory

The working directory is shared by the whole process: any other thread using a
relative path meanwhile was affected, and it stayed changed when a call failed.
---
 src/efsw/platform/posix/FileSystemImpl.cpp | 47 +++++++---------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index e8e38dc..eb5af09 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -61,51 +61,32 @@ namespace efsw { namespace Platform {
 #if EFSW_OS == EFSW_OS_LINUX
 
 std::string findMountPoint( std::string file ) {
-	std::string cwd = FileSystem::getCurrentWorkingDirectory();
+	/// The working directory can't be used to walk the path, it's shared by all the threads
+	std::string mp( efsw::FileSystem::getRealPath(
+		efsw::FileSystem::isDirectory( file ) ? file
+											  : efsw::FileSystem::pathRemoveFileName( file ) ) );
 	struct stat last_stat;
-	struct stat file_stat;
 
-	stat( file.c_str(), &file_stat );
-
-	std::string mp;
-
-	if ( efsw::FileSystem::isDirectory( file ) ) {
-		last_stat = file_stat;
+	if ( mp.empty() || stat( mp.c_str(), &last_stat ) < 0 )
+		return "";
 
-		if ( !FileSystem::changeWorkingDirectory( file ) )
-			return "";
-	} else {
-		std::string dir = efsw::FileSystem::pathRemoveFileName( file );
+	while ( mp.size() > 1 ) {
+		std::string parent( efsw::FileSystem::pathRemoveFileName( mp ) );
+		struct stat st;
 
-		if ( !FileSystem::changeWorkingDirectory( dir ) )
-			return "";
+		if ( parent.size() > 1 )
+			efsw::FileSystem::dirRemoveSlashAtEnd( parent );
 
-		if ( stat( ".", &last_stat ) < 0 )
+		if ( stat( parent.c_str(), &st ) < 0 )
 			return "";
-	}
 
-	while ( true ) {
-		struct stat st;
-
-		if ( stat( "..", &st ) < 0 )
-			goto done;
-
-		if ( st.st_dev != last_stat.st_dev || st.st_ino == last_stat.st_ino )
+		if ( st.st_dev != last_stat.st_dev )
 			break;
 
-		if ( !FileSystem::changeWorkingDirectory( ".." ) ) {
-			goto done;
-		}
-
+		mp = parent;
 		last_stat = st;
 	}
 
-	/* Finally reached a mount point, see what it's called.  */
-	mp = FileSystem::getCurrentWorkingDirectory();
-
-done:
-	FileSystem::changeWorkingDirectory( cwd );
-
 	return mp;
 }
 
-- 
2.43.0


From 22f1ffaeabff80b2c28dce95c287c94bd3335e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:02 +0000
Subject: [PATCH 18/52] fix: don't use the results of a failed statfs() or
 realpath()

---
 src/efsw/FileSystem.cpp                    | 4 ++--
 src/efsw/platform/posix/FileSystemImpl.cpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index f23db78..9bbbfa2 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -150,8 +150,8 @@ std::string FileSystem::getRealPath( const std::string& path ) {
 	std::string realPath;
 #if defined( EFSW_PLATFORM_POSIX )
 	char dir[PATH_MAX];
-	realpath( path.c_str(), &dir[0] );
-	realPath = std::string( dir );
+	if ( realpath( path.c_str(), &dir[0] ) != NULL )
+		realPath = std::string( dir );
 #elif EFSW_OS == EFSW_OS_WIN
 	wchar_t dir[_MAX_PATH + 1];
 	GetFullPathNameW( getWidePath( path ).c_str(), _MAX_PATH, &dir[0], nullptr );
diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index eb5af09..3b429e3 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -190,7 +190,8 @@ bool FileSystem::isRemoteFS( const std::string& directory ) {
 	EFSW_OS == EFSW_OS_SOLARIS || EFSW_OS == EFSW_OS_ANDROID || EFSW_OS == EFSW_OS_IOS
 	struct statfs statfsbuf;
 
-	statfs( directory.c_str(), &statfsbuf );
+	if ( statfs( directory.c_str(), &statfsbuf ) < 0 )
+		return false;
 
 	switch ( statfsbuf.f_type | 0UL ) {
 		case S_MAGIC_FUSEBLK: /* 0x65735546 remote */
-- 
2.43.0


From 04c174d300edd1a7d5561a8be9baef40842f05d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 19/52] fix: release every callback of a C watcher, and only
 after the watcher is gone

---
 src/efsw/FileWatcherCWrapper.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index 4a82dfc..cf61e0a 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -49,15 +49,16 @@ Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback
 	return NULL;
 }
 
-void remove_callback( efsw_watcher watcher ) {
+/// Takes every callback of the watcher out of the list, the caller has to delete them
+std::vector<Watcher_CAPI*> remove_callbacks( efsw_watcher watcher ) {
+	std::vector<Watcher_CAPI*> removed;
 	efsw::Lock l( g_callbacksMutex );
-	auto found = std::find_if( g_callbacks.begin(), g_callbacks.end(),
-							   [watcher]( Watcher_CAPI* cb ) { return cb->mWatcher == watcher; } );
-	if ( found != g_callbacks.end() ) {
-		Watcher_CAPI* callback = *found;
-		delete callback;
-		g_callbacks.erase( found );
-	}
+	auto it = std::stable_partition(
+		g_callbacks.begin(), g_callbacks.end(),
+		[watcher]( Watcher_CAPI* cb ) { return cb->mWatcher != watcher; } );
+	removed.assign( it, g_callbacks.end() );
+	g_callbacks.erase( it, g_callbacks.end() );
+	return removed;
 }
 
 /*************************************************************************************************/
@@ -66,8 +67,11 @@ efsw_watcher efsw_create( int generic_mode ) {
 }
 
 void efsw_release( efsw_watcher watcher ) {
-	remove_callback( watcher );
+	std::vector<Watcher_CAPI*> callbacks = remove_callbacks( watcher );
+	// The callbacks can be called until the watcher is gone
 	delete (efsw::FileWatcher*)watcher;
+	for ( Watcher_CAPI* callback : callbacks )
+		delete callback;
 }
 
 const char* efsw_getlasterror() {
-- 
2.43.0


From 3f54ab993dc1d38f49e5a6d44a95af6600b76532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 20/52] fix: efsw_getlasterror() used from several threads

---
 src/efsw/FileWatcherCWrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index cf61e0a..b7e8abe 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -75,7 +75,8 @@ void efsw_release( efsw_watcher watcher ) {
 }
 
 const char* efsw_getlasterror() {
-	static std::string log_str;
+	// The string returned to a thread must not change under it
+	static thread_local std::string log_str;
 	log_str = efsw::Errors::Log::getLastErrorLog();
 	return log_str.c_str();
 }
-- 
2.43.0


From 6e8b239832a63b0fa0b8b80ee10a6590308122ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 21/52] fix: a C callback added again with another missed
 actions handler used the first one

---
 src/efsw/FileWatcherCWrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index b7e8abe..fb55a98 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -40,10 +40,12 @@ class Watcher_CAPI : public efsw::FileWatchListener {
 static std::vector<Watcher_CAPI*> g_callbacks;
 static efsw::Mutex g_callbacksMutex;
 
-Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param ) {
+Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param,
+							 efsw_pfn_handle_missed_fileactions fnfa ) {
 	efsw::Lock l( g_callbacksMutex );
 	for ( Watcher_CAPI* callback : g_callbacks ) {
-		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param )
+		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param &&
+			 callback->mFnMissedFa == fnfa )
 			return callback;
 	}
 	return NULL;
@@ -96,7 +98,8 @@ efsw_addwatch_withoptions( efsw_watcher watcher, const char* directory,
 						   efsw_pfn_fileaction_callback callback_fn, int recursive,
 						   efsw_watcher_option* options, int options_number, void* param,
 						   efsw_pfn_handle_missed_fileactions callback_fn_missed_file_actions ) {
-	Watcher_CAPI* callback = find_callback( watcher, callback_fn, param );
+	Watcher_CAPI* callback =
+		find_callback( watcher, callback_fn, param, callback_fn_missed_file_actions );
 
 	if ( callback == NULL ) {
 		callback = new Watcher_CAPI( watcher, callback_fn, param, callback_fn_missed_file_actions );
-- 
2.43.0


From fc610a902924afadcd4a75bb5dcbeb0868a010a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 22/52] fix: inotify, directories reached by a link removed or
 moved away were still watched

A directory that was already watched was also taken away from its watch when
a link to it appeared, and lost when that link was removed.
---
 src/efsw/FileWatcherInotify.cpp | 78 +++++++++++++++++++++++++++------
 src/efsw/FileWatcherInotify.hpp |  4 ++
 src/efsw/WatcherInotify.hpp     |  3 ++
 3 files changed, 71 insertions(+), 14 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 792c4a7..c8a193b 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -92,6 +92,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 
 	/// Check if the directory is a symbolic link
 	std::string curPath;
+	std::string linkPath;
 	std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
 
 	if ( "" != link ) {
@@ -107,13 +108,21 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		} else if ( !linkAllowed( curPath, link ) ) {
 			return Errors::Log::createLastError( Errors::FileOutOfScope, dir );
 		} else {
+			linkPath = dir;
 			dir = link;
 		}
 	}
 
-	int wd = inotify_add_watch( mFD, dir.c_str(),
-								IN_CLOSE_WRITE | IN_MOVED_TO | IN_CREATE | IN_MOVED_FROM |
-									IN_DELETE | IN_MODIFY );
+	uint32_t mask = IN_CLOSE_WRITE | IN_MOVED_TO | IN_CREATE | IN_MOVED_FROM | IN_DELETE | IN_MODIFY;
+	std::string watchPath( dir );
+
+	if ( NULL != parent && "" == link ) {
+		/// It could have been replaced by a link meanwhile
+		mask |= IN_DONT_FOLLOW | IN_ONLYDIR;
+		FileSystem::dirRemoveSlashAtEnd( watchPath );
+	}
+
+	int wd = inotify_add_watch( mFD, watchPath.c_str(), mask );
 
 	if ( wd < 0 ) {
 		if ( errno == ENOENT ) {
@@ -134,12 +143,13 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		auto watchIdExists = mWatches.find( wd );
 		if ( watchIdExists != mWatches.end() ) {
 			WatcherInotify* oldWatch = watchIdExists->second;
-			if ( parent && !oldWatch->Parent ) {
-				// It was added by the user
+			bool sameWatch = parent && oldWatch->ID == parent->ID;
+			// A link leads to it again after the previous one was removed
+			bool newLink = mScanning && sameWatch && oldWatch->ScanId != mScanId;
+			if ( parent && ( !oldWatch->Parent || ( "" != link && !newLink ) ) ) {
+				// It was added by the user, or it's already watched without this link
 				return Errors::Log::createLastError( Errors::FileRepeated, directory );
-			} else if ( parent && oldWatch->ID == parent->ID && oldWatch->Directory == dir ) {
-				if ( "" != link )
-					return Errors::Log::createLastError( Errors::FileRepeated, directory );
+			} else if ( sameWatch && oldWatch->Directory == dir ) {
 				pWatch = oldWatch;
 			} else {
 				// The directories inside it were also moved
@@ -150,9 +160,10 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		}
 	}
 
-	bool isNew = NULL == pWatch || pWatch->Incomplete;
+	bool isNewWatch = NULL == pWatch;
+	bool isNew = isNewWatch || pWatch->Incomplete;
 
-	if ( NULL == pWatch ) {
+	if ( isNewWatch ) {
 		efDEBUG( "Added watch %s with id: %d\n", dir.c_str(), wd );
 
 		pWatch = new WatcherInotify();
@@ -167,6 +178,10 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		mWatches[wd] = pWatch;
 	}
 
+	// The link that leads to it, unless it was already found in another way
+	if ( isNewWatch || ( mScanning && pWatch->ScanId != mScanId ) )
+		pWatch->LinkPath = parent ? linkPath : "";
+
 	pWatch->ScanId = mScanId;
 	pWatch->Parent = parent;
 	pWatch->ParentID = parent ? parent->InotifyID : 0;
@@ -486,8 +501,10 @@ void FileWatcherInotify::handleMovedBetween( WatcherInotify* from, WatcherInotif
 	handleAction( to, filename, action );
 
 	// Remove the watches that couldn't be reused
-	if ( !from->Removed )
+	if ( !from->Removed ) {
 		removeInternalWatches( oldPath );
+		checkRemovedLinks( from->ID, oldPath );
+	}
 }
 
 void FileWatcherInotify::removeInternalWatches( const std::string& path ) {
@@ -548,15 +565,18 @@ void FileWatcherInotify::rescanSubDirectories( WatcherInotify* watch ) {
 		return;
 
 	mScanId++;
+	mScanning = true;
 
 	for ( const auto& file : FileSystem::filesInfoFromPath( watch->Directory ) ) {
 		if ( watch->Removed )
-			return;
+			break;
 
 		if ( file.second.isDirectory() && file.second.isReadable() )
 			checkForNewWatcher( watch, file.second.Filepath );
 	}
 
+	mScanning = false;
+
 	if ( watch->Removed )
 		return;
 
@@ -572,6 +592,29 @@ void FileWatcherInotify::rescanSubDirectories( WatcherInotify* watch ) {
 		removeWatchLocked( id );
 }
 
+void FileWatcherInotify::checkRemovedLinks( WatchID watchid, std::string path ) {
+	FileSystem::dirAddSlashAtEnd( path );
+
+	WatcherInotify* watch = NULL;
+
+	{
+		Lock lock( mWatchesLock );
+		Lock l( mRealWatchesLock );
+		auto rit = mRealWatches.find( watchid );
+
+		if ( rit == mRealWatches.end() )
+			return;
+
+		for ( auto& wit : mWatches )
+			if ( wit.second->ID == watchid && !wit.second->LinkPath.empty() &&
+				 -1 != String::strStartsWith( path, wit.second->LinkPath ) )
+				watch = rit->second;
+	}
+
+	if ( NULL != watch )
+		rescanSubDirectories( watch );
+}
+
 void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
 	FileSystem::dirAddSlashAtEnd( fpath );
 
@@ -615,8 +658,10 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 				watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 												   Actions::Modified );
 
-			if ( !iWatch->Removed )
+			if ( !iWatch->Removed ) {
+				checkRemovedLinks( watch->ID, fpath );
 				checkForNewWatcher( watch, fpath );
+			}
 		} else {
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Moved, watch->OldFileName );
@@ -639,6 +684,9 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 				}
 			}
 
+			checkRemovedLinks( watch->ID, watch->Directory + watch->OldFileName );
+			checkRemovedLinks( watch->ID, fpath );
+
 			/// The directory, or others inside it, could have been moved before being watched
 			checkForNewWatcher( watch, fpath );
 		}
@@ -657,8 +705,10 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		FileSystem::dirAddSlashAtEnd( fpath );
 
 		/// If the file erased is a directory and recursive is enabled, removes the directory erased
-		if ( watch->Recursive && !iWatch->Removed )
+		if ( watch->Recursive && !iWatch->Removed ) {
 			removeInternalWatches( fpath );
+			checkRemovedLinks( watch->ID, fpath );
+		}
 	}
 }
 
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index a97533a..39dea67 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -55,6 +55,7 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	/// Number of the last scan of the sub directories
 	unsigned int mScanId;
+	bool mScanning{ false };
 
 	Thread* mThread;
 
@@ -95,6 +96,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// Updates the watches of the sub directories after missing events
 	void rescanSubDirectories( WatcherInotify* watch );
 
+	/// Finds out what is still reachable, if a link followed was removed or moved from that path
+	void checkRemovedLinks( WatchID watchid, std::string path );
+
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
 	Watcher* watcherContainsDirectory( std::string dir );
diff --git a/src/efsw/WatcherInotify.hpp b/src/efsw/WatcherInotify.hpp
index a752cb6..bfbee46 100644
--- a/src/efsw/WatcherInotify.hpp
+++ b/src/efsw/WatcherInotify.hpp
@@ -17,6 +17,9 @@ class WatcherInotify : public Watcher {
 	/// InotifyID of the directory containing it
 	WatchID ParentID{ 0 };
 
+	/// Path of the symbolic link that led to the directory, if any
+	std::string LinkPath;
+
 	FileInfo DirInfo;
 	bool syntheticEvents{ false };
 	bool Removed{ false };
-- 
2.43.0


From bed7c2d97b8cd2e37f23da755b42cf7bee892726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 23/52] fix: generic, links to directories watched twice,
 forever or after their removal

The directories found through a link were stored by its target: they weren't
found when the link was removed, and were watched again with their real path.
A link to its own directory recursed without end.
---
 src/efsw/DirWatcherGeneric.cpp | 144 +++++++++++++++++++--------------
 src/efsw/DirWatcherGeneric.hpp |  11 ++-
 src/efsw/WatcherGeneric.cpp    |   4 +
 src/efsw/WatcherGeneric.hpp    |   2 +
 4 files changed, 100 insertions(+), 61 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index d8a0472..1b2ca77 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -7,8 +7,8 @@ namespace efsw {
 
 DirWatcherGeneric::DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric* ws,
 									  const std::string& directory, bool recursive,
-									  bool reportNewFiles ) :
-	Parent( parent ), Watch( ws ), Recursive( recursive ), Deleted( false ) {
+									  bool reportNewFiles, bool isLink ) :
+	Parent( parent ), Watch( ws ), Recursive( recursive ), IsLink( isLink ), Deleted( false ) {
 	resetDirectory( directory );
 
 	if ( !reportNewFiles ) {
@@ -80,7 +80,10 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 	DirSnap.setDirectoryInfo( dir );
 
 	for ( auto& child : Directories ) {
-		child.second->resetDirectory( child.first );
+		/// The directories that links point to didn't move
+		if ( !child.second->IsLink ) {
+			child.second->resetDirectory( child.first );
+		}
 	}
 }
 
@@ -102,46 +105,59 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 		for ( FileInfoMap::iterator it = DirSnap.Files.begin(); it != DirSnap.Files.end(); it++ ) {
 			if ( it->second.isDirectory() && it->second.isReadable() &&
 				 !FileSystem::isRemoteFS( it->second.Filepath ) ) {
-				/// Check if the directory is a symbolic link
-				std::string curPath;
-				std::string link( FileSystem::getLinkRealPath( it->second.Filepath, curPath ) );
-
+				bool isLink = false;
 				dir = it->first;
 
-				if ( "" != link ) {
-					/// Avoid adding symlinks directories if it's now enabled
-					if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() ) {
-						continue;
-					}
-
-					/// If it's a symlink check if the realpath exists as a watcher, or
-					/// if the path is outside the current dir
-					if ( Watch->WatcherImpl->pathInWatches( link ) ||
-						 Watch->pathInWatches( link ) ||
-						 !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
-						continue;
-					} else {
-						dir = link;
-					}
-				} else {
-					if ( Watch->pathInWatches( dir ) || Watch->WatcherImpl->pathInWatches( dir ) ) {
-						continue;
-					}
+				if ( !canWatch( it->second.Filepath, dir, isLink ) ) {
+					continue;
 				}
 
 				if ( reportNewFiles ) {
-					handleAction( dir, Actions::Add );
+					handleAction( it->second.Filepath, Actions::Add );
 				}
 
-				Directories[dir] =
-					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
+				DirWatcherGeneric* dw =
+					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles, isLink );
 
-				Directories[dir]->addChildren( reportNewFiles );
+				Directories[it->first] = dw;
+
+				dw->addChildren( reportNewFiles );
 			}
 		}
 	}
 }
 
+bool DirWatcherGeneric::canWatch( const std::string& path, std::string& dir, bool& isLink ) {
+	/// Check if the directory is a symbolic link
+	std::string curPath;
+	std::string link( FileSystem::getLinkRealPath( path, curPath ) );
+
+	isLink = "" != link;
+
+	if ( isLink ) {
+		/// Avoid adding symlinks directories if it's now enabled
+		if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() ) {
+			return false;
+		}
+
+		/// If it's a symlink check if the realpath exists as a watcher, or
+		/// if the path is outside the current dir
+		if ( Watch->WatcherImpl->pathInWatches( link ) || Watch->pathInWatches( link ) ||
+			 Watch->inWatchedTree( link ) || !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
+			return false;
+		}
+
+		dir = link;
+
+		return true;
+	}
+
+	std::string fullPath( path );
+	FileSystem::dirAddSlashAtEnd( fullPath );
+
+	return !Watch->pathInWatches( fullPath );
+}
+
 void DirWatcherGeneric::watch( bool reportOwnChange ) {
 	DirectorySnapshotDiff Diff = DirSnap.scan();
 
@@ -194,6 +210,21 @@ void DirWatcherGeneric::watch( bool reportOwnChange ) {
 		}
 	}
 
+	/// A directory could have been watched through a link that is not there anymore
+	if ( Recursive && Watch->WatcherImpl->mFileWatcher->followSymlinks() ) {
+		std::vector<std::string> dirs;
+
+		for ( FileInfoMap::iterator it = DirSnap.Files.begin(); it != DirSnap.Files.end(); ++it ) {
+			if ( it->second.isDirectory() && Directories.find( it->first ) == Directories.end() ) {
+				dirs.push_back( it->first );
+			}
+		}
+
+		for ( size_t i = 0; i < dirs.size(); i++ ) {
+			watchDirectory( dirs[i] );
+		}
+	}
+
 	/// Process the subdirectories looking for changes
 	for ( DirWatchMap::iterator dit = Directories.begin(); dit != Directories.end(); ++dit ) {
 		/// Just watch
@@ -285,7 +316,6 @@ DirWatcherGeneric* DirWatcherGeneric::watchDirectory( std::string newdir ) {
 		return NULL;
 	}
 
-	/// Check if the directory is a symbolic link
 	std::string parentPath( DirSnap.DirectoryInfo.Filepath );
 	FileSystem::dirAddSlashAtEnd( parentPath );
 	std::string dir( parentPath + newdir );
@@ -303,40 +333,18 @@ DirWatcherGeneric* DirWatcherGeneric::watchDirectory( std::string newdir ) {
 		return NULL;
 	}
 
-	std::string curPath;
-	std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
-	bool skip = false;
+	bool isLink = false;
 
-	if ( "" != link ) {
-		/// Avoid adding symlinks directories if it's now enabled
-		if ( !Watch->WatcherImpl->mFileWatcher->followSymlinks() ) {
-			skip = true;
-		}
-
-		/// If it's a symlink check if the realpath exists as a watcher, or
-		/// if the path is outside the current dir
-		if ( Watch->WatcherImpl->pathInWatches( link ) || Watch->pathInWatches( link ) ||
-			 !Watch->WatcherImpl->linkAllowed( curPath, link ) ) {
-			skip = true;
-		} else {
-			dir = link;
-		}
-	} else {
-		if ( Watch->pathInWatches( dir ) || Watch->WatcherImpl->pathInWatches( dir ) ) {
-			skip = true;
-		}
-	}
-
-	if ( !skip ) {
+	if ( canWatch( dir, dir, isLink ) ) {
 		/// Creates the new directory watcher of the subfolder and check for new files
-		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true );
+		dw = new DirWatcherGeneric( this, Watch, dir, Recursive, true, isLink );
+
+		/// Add it to the list of directories
+		Directories[newdir] = dw;
 
 		dw->addChildren( true );
 
 		dw->watch();
-
-		/// Add it to the list of directories
-		Directories[newdir] = dw;
 	}
 
 	return dw;
@@ -389,7 +397,9 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 
 		Directories[newDir] = dw;
 
-		dw->resetDirectory( newDir );
+		if ( !dw->IsLink ) {
+			dw->resetDirectory( newDir );
+		}
 	} else {
 		/// It couldn't be watched with its old name
 		watchDirectory( newDir );
@@ -410,4 +420,18 @@ bool DirWatcherGeneric::pathInWatches( std::string path ) {
 	return false;
 }
 
+bool DirWatcherGeneric::inWatchedTree( const std::string& path ) {
+	if ( Recursive && -1 != String::strStartsWith( DirSnap.DirectoryInfo.Filepath, path ) ) {
+		return true;
+	}
+
+	for ( DirWatchMap::iterator it = Directories.begin(); it != Directories.end(); ++it ) {
+		if ( it->second->inWatchedTree( path ) ) {
+			return true;
+		}
+	}
+
+	return false;
+}
+
 } // namespace efsw
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index 7fdc585..e0928ee 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -17,9 +17,11 @@ class DirWatcherGeneric {
 	DirectorySnapshot DirSnap;
 	DirWatchMap Directories;
 	bool Recursive;
+	/// The directory is watched because of a symbolic link
+	bool IsLink;
 
 	DirWatcherGeneric( DirWatcherGeneric* parent, WatcherGeneric* ws, const std::string& directory,
-					   bool recursive, bool reportNewFiles = false );
+					   bool recursive, bool reportNewFiles = false, bool isLink = false );
 
 	~DirWatcherGeneric();
 
@@ -31,6 +33,9 @@ class DirWatcherGeneric {
 
 	bool pathInWatches( std::string path );
 
+	/// @return If the path is inside a directory that is being watched recursively
+	bool inWatchedTree( const std::string& path );
+
 	void addChildren( bool reportNewFiles = true );
 
 	DirWatcherGeneric* findDirWatcher( std::string dir );
@@ -40,6 +45,10 @@ class DirWatcherGeneric {
   protected:
 	bool Deleted;
 
+	/// @return If the directory must be watched
+	/// @param dir Set to the directory that the path points to if it's a link
+	bool canWatch( const std::string& path, std::string& dir, bool& isLink );
+
 	DirWatcherGeneric* createDirectory( std::string newdir );
 
 	DirWatcherGeneric* watchDirectory( std::string newdir );
diff --git a/src/efsw/WatcherGeneric.cpp b/src/efsw/WatcherGeneric.cpp
index e40a35e..b6e6b90 100644
--- a/src/efsw/WatcherGeneric.cpp
+++ b/src/efsw/WatcherGeneric.cpp
@@ -30,4 +30,8 @@ bool WatcherGeneric::pathInWatches( std::string path ) {
 	return DirWatch->pathInWatches( path );
 }
 
+bool WatcherGeneric::inWatchedTree( const std::string& path ) {
+	return DirWatch->inWatchedTree( path );
+}
+
 } // namespace efsw
diff --git a/src/efsw/WatcherGeneric.hpp b/src/efsw/WatcherGeneric.hpp
index b2b65ff..bd8c48b 100644
--- a/src/efsw/WatcherGeneric.hpp
+++ b/src/efsw/WatcherGeneric.hpp
@@ -23,6 +23,8 @@ class WatcherGeneric : public Watcher {
 	void watchDir( std::string dir );
 
 	bool pathInWatches( std::string path );
+
+	bool inWatchedTree( const std::string& path );
 };
 
 } // namespace efsw
-- 
2.43.0


From 7f52f5280e718e1d6a11896dd0b0509726cac19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 24/52] fix: inotify, a directory replaced by a link while
 adding its watch followed the link

---
 src/efsw/FileWatcherInotify.cpp | 22 +++++++++++++++++++++-
 src/efsw/FileWatcherInotify.hpp |  3 +++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index c8a193b..24671ec 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -110,6 +110,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		} else {
 			linkPath = dir;
 			dir = link;
+			fi = FileInfo( dir );
 		}
 	}
 
@@ -133,6 +134,16 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		}
 	}
 
+	if ( NULL != parent && !isCurrent( parent ) ) {
+		// The parent was moved meanwhile, the path could lead to another directory
+		Lock lock( mWatchesLock );
+
+		if ( mWatches.find( wd ) == mWatches.end() )
+			inotify_rm_watch( mFD, wd );
+
+		return Errors::Log::createLastError( Errors::FileNotFound, dir );
+	}
+
 	// The watch could exists if a file was moved between directories that are being watched
 	// In that case we need to remove the local watch information but *keep* the inotify watch id
 	// open, to be reused with the new watch.
@@ -182,6 +193,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	if ( isNewWatch || ( mScanning && pWatch->ScanId != mScanId ) )
 		pWatch->LinkPath = parent ? linkPath : "";
 
+	pWatch->DirInfo = fi;
 	pWatch->ScanId = mScanId;
 	pWatch->Parent = parent;
 	pWatch->ParentID = parent ? parent->InotifyID : 0;
@@ -194,6 +206,9 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	if ( pWatch->Recursive ) {
 		std::map<std::string, FileInfo> files = FileSystem::filesInfoFromPath( pWatch->Directory );
 
+		if ( NULL != parent && !isCurrent( pWatch ) )
+			files.clear();
+
 		if ( isNew && fromInternalEvent && parent != NULL && syntheticEvents ) {
 			for ( const auto& file : files ) {
 				if ( pWatch->Removed )
@@ -223,12 +238,17 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 		}
 
 		// If the directory was moved meanwhile it must be listed again with its new path
-		pWatch->Incomplete = FileInfo( pWatch->Directory ).Inode != fi.Inode;
+		pWatch->Incomplete = !isCurrent( pWatch );
 	}
 
 	return wd;
 }
 
+bool FileWatcherInotify::isCurrent( const WatcherInotify* watch ) {
+	// The directory of the watches added by the user can be reached by a link
+	return FileInfo( watch->Directory, NULL != watch->Parent ).Inode == watch->DirInfo.Inode;
+}
+
 void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRemove ) {
 	WatchMap::iterator iter = mWatches.find( watchid );
 	if ( iter == mWatches.end() )
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 39dea67..cb0da93 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -99,6 +99,9 @@ class FileWatcherInotify : public FileWatcherImpl {
 	/// Finds out what is still reachable, if a link followed was removed or moved from that path
 	void checkRemovedLinks( WatchID watchid, std::string path );
 
+	/// @return If its path still leads to the directory watched
+	bool isCurrent( const WatcherInotify* watch );
+
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
 	Watcher* watcherContainsDirectory( std::string dir );
-- 
2.43.0


From de7437e1c61651016e2e42540aa57da87161ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 25/52] fix: generic, a watched directory replaced by a link
 followed the link

---
 src/efsw/DirWatcherGeneric.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 1b2ca77..c339459 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -312,7 +312,7 @@ DirWatcherGeneric* DirWatcherGeneric::watchDirectory( std::string newdir ) {
 
 	DirWatcherGeneric* dw = NULL;
 
-	if ( !Recursive || Directories.find( newdir ) != Directories.end() ) {
+	if ( !Recursive ) {
 		return NULL;
 	}
 
@@ -322,6 +322,20 @@ DirWatcherGeneric* DirWatcherGeneric::watchDirectory( std::string newdir ) {
 
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	DirWatchMap::iterator dit = Directories.find( newdir );
+
+	if ( dit != Directories.end() ) {
+		std::string curPath;
+		std::string link( FileSystem::getLinkRealPath( dir, curPath ) );
+
+		if ( link == ( dit->second->IsLink ? dit->second->DirSnap.DirectoryInfo.Filepath : "" ) ) {
+			return NULL;
+		}
+
+		/// It was replaced by a symbolic link, or it's a link to another directory
+		removeDirectory( newdir );
+	}
+
 	FileInfo fi( dir );
 
 	/// If it isn't there right now, handle it as modified in the next scan
-- 
2.43.0


From ece1191a84101f0edd6b23d6c033dc7abba67fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 26/52] fix: watch() called from several threads could start
 several watcher threads

---
 src/efsw/FileWatcherGeneric.cpp | 2 ++
 src/efsw/FileWatcherInotify.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 62fc405..ea5920f 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -117,6 +117,8 @@ void FileWatcherGeneric::removeWatchLocked( WatchList::iterator it ) {
 }
 
 void FileWatcherGeneric::watch() {
+	Lock lock( mWatchesLock );
+
 	if ( NULL == mThread ) {
 		mThread = new Thread( [this] { run(); } );
 		mThread->launch();
diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 24671ec..95abdc1 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -323,6 +323,8 @@ void FileWatcherInotify::removeWatch( WatchID watchid ) {
 }
 
 void FileWatcherInotify::watch() {
+	Lock lock( mWatchesLock );
+
 	if ( NULL == mThread ) {
 		mThread = new Thread( [this] { run(); } );
 		mThread->launch();
-- 
2.43.0


From 7793871f68d2323e45f81458e545b4e565dec906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 27/52] fix: kqueue: the watches were deleted while the thread
 was still using them

---
 src/efsw/FileWatcherKqueue.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/efsw/FileWatcherKqueue.cpp b/src/efsw/FileWatcherKqueue.cpp
index d723af8..c545a3c 100644
--- a/src/efsw/FileWatcherKqueue.cpp
+++ b/src/efsw/FileWatcherKqueue.cpp
@@ -32,6 +32,10 @@ FileWatcherKqueue::FileWatcherKqueue( FileWatcher* parent, unsigned int pollingF
 }
 
 FileWatcherKqueue::~FileWatcherKqueue() {
+	mInitOK = false;
+
+	efSAFE_DELETE( mThread );
+
 	WatchMap::iterator iter = mWatches.begin();
 
 	for ( ; iter != mWatches.end(); ++iter ) {
@@ -39,10 +43,6 @@ FileWatcherKqueue::~FileWatcherKqueue() {
 	}
 
 	mWatches.clear();
-
-	mInitOK = false;
-
-	efSAFE_DELETE( mThread );
 }
 
 WatchID FileWatcherKqueue::addWatch( const std::string& directory, FileWatchListener* watcher,
-- 
2.43.0


From b954e09efb6269c53780fa554f26cf33b082a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 28/52] fix: kqueue: the descriptors of the watched directories
 and files were never closed

---
 src/efsw/WatcherKqueue.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 3eb0ea9..29f5299 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -66,17 +66,24 @@ WatcherKqueue::~WatcherKqueue() {
 	// Remove the children watchers ( sub-folders watches )
 	removeAll();
 
-	for ( size_t i = 0; i < mChangeListCount; i++ ) {
+	// The first one is the directory
+	for ( size_t i = 0; !mChangeList.empty() && i <= mChangeListCount; i++ ) {
 		if ( NULL != mChangeList[i].udata ) {
 			FileInfo* fi = reinterpret_cast<FileInfo*>( mChangeList[i].udata );
 
 			efSAFE_DELETE( fi );
 		}
+
+		close( mChangeList[i].ident );
+
+		mWatcher->removeFD();
 	}
 
-	close( mKqueue );
+	if ( -1 != mKqueue ) {
+		close( mKqueue );
 
-	mWatcher->removeFD();
+		mWatcher->removeFD();
+	}
 }
 
 void WatcherKqueue::addAll() {
-- 
2.43.0


From b9c37f536593e06c8faadc07ade4c25eca4b6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 29/52] fix: kqueue: the list of files was not sorted anymore
 after removing one, and others weren't found

---
 src/efsw/WatcherKqueue.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 29f5299..8a7203d 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -255,10 +255,8 @@ void WatcherKqueue::removeFile( const std::string& name, bool emitEvents ) {
 
 	mWatcher->removeFD();
 
-	memset( ke, 0, sizeof( KEvent ) );
-
-	// move end to current
-	memcpy( ke, &mChangeList[mChangeListCount], sizeof( KEvent ) );
+	// move the next ones, the list must remain sorted by name
+	memmove( ke, ke + 1, ( &mChangeList[mChangeListCount] - ke ) * sizeof( KEvent ) );
 	memset( &mChangeList[mChangeListCount], 0, sizeof( KEvent ) );
 	--mChangeListCount;
 }
-- 
2.43.0


From 48a8d475a84ddc1d7caa094a74e89b11fddeaa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 30/52] fix: kqueue: the watches of deleted subdirectories were
 kept, and not created again with them

---
 src/efsw/WatcherKqueue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 8a7203d..4055b19 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -310,7 +310,10 @@ void WatcherKqueue::rescan() {
 		DiffIterator( DirsDeleted ) {
 			handleFolderAction( ( *it ).Filepath, Actions::Delete );
 
-			Watcher* watch = findWatcher( ( *it ).Filepath );
+			std::string dir( ( *it ).Filepath );
+			FileSystem::dirAddSlashAtEnd( dir );
+
+			Watcher* watch = findWatcher( dir );
 
 			if ( NULL != watch ) {
 				removeWatch( watch->ID );
-- 
2.43.0


From 7e9c56cbb06309782dfaf65d4667d70ce877bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 31/52] fix: kqueue: the events of subdirectories were reported
 with other watch ids

---
 src/efsw/WatcherKqueue.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 4055b19..4120e0a 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -154,7 +154,7 @@ void WatcherKqueue::removeAll() {
 	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); it++ ) {
 		efDEBUG( "removeAll(): Removed child watcher %s\n", it->second->Directory.c_str() );
 
-		erase.push_back( it->second->ID );
+		erase.push_back( it->first );
 	}
 
 	for ( std::vector<WatchID>::iterator eit = erase.begin(); eit != erase.end(); eit++ ) {
@@ -313,10 +313,10 @@ void WatcherKqueue::rescan() {
 			std::string dir( ( *it ).Filepath );
 			FileSystem::dirAddSlashAtEnd( dir );
 
-			Watcher* watch = findWatcher( dir );
+			WatchID id = watchingDirectory( dir );
 
-			if ( NULL != watch ) {
-				removeWatch( watch->ID );
+			if ( id > 0 ) {
+				removeWatch( id );
 			}
 		}
 
@@ -327,10 +327,10 @@ void WatcherKqueue::rescan() {
 }
 
 WatchID WatcherKqueue::watchingDirectory( std::string dir ) {
-	Watcher* watch = findWatcher( dir );
-
-	if ( NULL != watch ) {
-		return watch->ID;
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+		if ( it->second->Directory == dir ) {
+			return it->first;
+		}
 	}
 
 	return Errors::FileNotFound;
@@ -521,10 +521,11 @@ WatchID WatcherKqueue::addWatch( const std::string& directory, FileWatchListener
 	}
 
 	if ( mWatcher->availablesFD() ) {
+		// The events are reported with the id of the directory added by the user
 		WatcherKqueue* watch =
-			new WatcherKqueue( ++mLastWatchID, dir, watcher, recursive, mWatcher, parent );
+			new WatcherKqueue( ID, dir, watcher, recursive, mWatcher, parent );
 
-		mWatches.insert( std::make_pair( mLastWatchID, watch ) );
+		mWatches.insert( std::make_pair( ++mLastWatchID, watch ) );
 
 		watch->addAll();
 
@@ -532,7 +533,7 @@ WatchID WatcherKqueue::addWatch( const std::string& directory, FileWatchListener
 		if ( !watch->initOK() ) {
 			int le = watch->lastErrno();
 
-			mWatches.erase( watch->ID );
+			mWatches.erase( mLastWatchID );
 
 			efSAFE_DELETE( watch );
 
@@ -541,9 +542,9 @@ WatchID WatcherKqueue::addWatch( const std::string& directory, FileWatchListener
 			// Probably the folder has too many files, create a generic watcher
 			if ( EACCES != le ) {
 				WatcherGeneric* watch =
-					new WatcherGeneric( ++mLastWatchID, dir, watcher, mWatcher, recursive );
+					new WatcherGeneric( ID, dir, watcher, mWatcher, recursive );
 
-				mWatches.insert( std::make_pair( mLastWatchID, watch ) );
+				mWatches.insert( std::make_pair( ++mLastWatchID, watch ) );
 			} else {
 				return Errors::Log::createLastError( Errors::Unspecified, link );
 			}
@@ -555,10 +556,9 @@ WatchID WatcherKqueue::addWatch( const std::string& directory, FileWatchListener
 			s_ug = true;
 		}
 
-		WatcherGeneric* watch =
-			new WatcherGeneric( ++mLastWatchID, dir, watcher, mWatcher, recursive );
+		WatcherGeneric* watch = new WatcherGeneric( ID, dir, watcher, mWatcher, recursive );
 
-		mWatches.insert( std::make_pair( mLastWatchID, watch ) );
+		mWatches.insert( std::make_pair( ++mLastWatchID, watch ) );
 	}
 
 	return mLastWatchID;
-- 
2.43.0


From 309cd4e881595f94fe26e7a2ad3ca322634435e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 32/52] fix: kqueue: the files of new directories were not
 reported

---
 src/efsw/WatcherKqueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 4120e0a..31d7bbb 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -133,7 +133,8 @@ void WatcherKqueue::addAll() {
 
 		if ( fi.isRegularFile() ) {
 			// Add the regular files kevent
-			addFile( fi.Filepath, false );
+			// If the watcher is not adding the watcher means that the directory was created
+			addFile( fi.Filepath, !mWatcher->isAddingWatcher() );
 		} else if ( Recursive && fi.isDirectory() && fi.isReadable() ) {
 			// Create another watcher for the subfolders ( if recursive )
 			WatchID id = addWatch( fi.Filepath, Listener, Recursive, this );
-- 
2.43.0


From 6b749850876a1fbaac7a468068ea7b6ab6a1906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 33/52] fix: kqueue: a name that changed its type was reported
 as added and then as deleted

---
 src/efsw/WatcherKqueue.cpp | 51 +++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 31d7bbb..5b8a6d5 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -279,35 +279,11 @@ void WatcherKqueue::rescan() {
 		FileInfoList::iterator it;
 		MovedList::iterator mit;
 
-		/// Files
-		DiffIterator( FilesCreated ) {
-			addFile( ( *it ).Filepath );
-		}
-
-		DiffIterator( FilesModified ) {
-			handleAction( ( *it ).Filepath, Actions::Modified );
-		}
-
+		/// The names that are gone first, since they could be in use again
 		DiffIterator( FilesDeleted ) {
 			removeFile( ( *it ).Filepath );
 		}
 
-		DiffMovedIterator( FilesMoved ) {
-			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
-			removeFile( Directory + ( *mit ).first, false );
-			addFile( ( *mit ).second.Filepath, false );
-		}
-
-		/// Directories
-		DiffIterator( DirsCreated ) {
-			handleFolderAction( ( *it ).Filepath, Actions::Add );
-			addWatch( ( *it ).Filepath, Listener, Recursive, this );
-		}
-
-		DiffIterator( DirsModified ) {
-			handleFolderAction( ( *it ).Filepath, Actions::Modified );
-		}
-
 		DiffIterator( DirsDeleted ) {
 			handleFolderAction( ( *it ).Filepath, Actions::Delete );
 
@@ -321,9 +297,34 @@ void WatcherKqueue::rescan() {
 			}
 		}
 
+		DiffMovedIterator( FilesMoved ) {
+			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
+			removeFile( Directory + ( *mit ).first, false );
+			addFile( ( *mit ).second.Filepath, false );
+		}
+
 		DiffMovedIterator( DirsMoved ) {
 			moveDirectory( Directory + ( *mit ).first, ( *mit ).second.Filepath );
 		}
+
+		/// Files
+		DiffIterator( FilesCreated ) {
+			addFile( ( *it ).Filepath );
+		}
+
+		DiffIterator( FilesModified ) {
+			handleAction( ( *it ).Filepath, Actions::Modified );
+		}
+
+		/// Directories
+		DiffIterator( DirsCreated ) {
+			handleFolderAction( ( *it ).Filepath, Actions::Add );
+			addWatch( ( *it ).Filepath, Listener, Recursive, this );
+		}
+
+		DiffIterator( DirsModified ) {
+			handleFolderAction( ( *it ).Filepath, Actions::Modified );
+		}
 	}
 }
 
-- 
2.43.0


From cfc7b5cea4eb606032fe4ae412eec7abbe8cf42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 34/52] fix: kqueue: files and directories replaced by others
 with the same name were not watched

---
 src/efsw/WatcherKqueue.cpp | 74 +++++++++++++++++++++++++++++++++-----
 src/efsw/WatcherKqueue.hpp |  9 +++++
 2 files changed, 75 insertions(+), 8 deletions(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 5b8a6d5..0e91845 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -116,14 +116,7 @@ void WatcherKqueue::addAll() {
 
 	mChangeList.resize( KEVENT_RESERVE_VALUE );
 
-	// Creates the kevent for the folder
-	EV_SET( &mChangeList[0], fd, EVFILT_VNODE, EV_ADD | EV_ENABLE | EV_ONESHOT,
-			NOTE_DELETE | NOTE_EXTEND | NOTE_WRITE | NOTE_ATTRIB | NOTE_RENAME, 0, 0 );
-
-	struct timespec timeout = { 0, 0 };
-	kevent( mKqueue, mChangeList.data(), 1, NULL, 0, &timeout );
-
-	mWatcher->addFD();
+	addDirectoryEvent( fd );
 
 	// Get the files and directories from the directory
 	FileInfoMap files = FileSystem::filesInfoFromPath( Directory );
@@ -147,6 +140,69 @@ void WatcherKqueue::addAll() {
 	}
 }
 
+void WatcherKqueue::addDirectoryEvent( int fd ) {
+	struct stat st;
+
+	mDirInode = 0 == fstat( fd, &st ) ? st.st_ino : 0;
+
+	// Creates the kevent for the folder
+	EV_SET( &mChangeList[0], fd, EVFILT_VNODE, EV_ADD | EV_ENABLE | EV_ONESHOT,
+			NOTE_DELETE | NOTE_EXTEND | NOTE_WRITE | NOTE_ATTRIB | NOTE_RENAME, 0, 0 );
+
+	struct timespec timeout = { 0, 0 };
+	kevent( mKqueue, mChangeList.data(), 1, NULL, 0, &timeout );
+
+	mWatcher->addFD();
+}
+
+void WatcherKqueue::reopen() {
+	if ( mChangeList.empty() ) {
+		return;
+	}
+
+	int fd = open( Directory.c_str(), O_EVTONLY );
+
+	if ( -1 == fd ) {
+		return;
+	}
+
+	close( mChangeList[0].ident );
+
+	mWatcher->removeFD();
+
+	addDirectoryEvent( fd );
+
+	rescan();
+}
+
+void WatcherKqueue::checkReplaced( const FileInfo& info ) {
+	// The events of the previous file or directory with this name could still be the watched ones
+	if ( !info.isDirectory() ) {
+		FileInfo tempEntry( info );
+		KEvent target;
+		target.udata = &tempEntry;
+
+		KEvent* ke = (KEvent*)bsearch( &target, &mChangeList[1], mChangeListCount, sizeof( KEvent ),
+									   comparator );
+
+		if ( NULL != ke && !reinterpret_cast<FileInfo*>( ke->udata )->sameInode( info ) ) {
+			removeFile( info.Filepath, false );
+			addFile( info.Filepath, false );
+		}
+
+		return;
+	}
+
+	std::string dir( info.Filepath );
+	FileSystem::dirAddSlashAtEnd( dir );
+
+	WatcherKqueue* watch = dynamic_cast<WatcherKqueue*>( findWatcher( dir ) );
+
+	if ( NULL != watch && watch->mDirInode != info.Inode ) {
+		watch->reopen();
+	}
+}
+
 void WatcherKqueue::removeAll() {
 	efDEBUG( "removeAll(): Removing all child watchers\n" );
 
@@ -314,6 +370,7 @@ void WatcherKqueue::rescan() {
 
 		DiffIterator( FilesModified ) {
 			handleAction( ( *it ).Filepath, Actions::Modified );
+			checkReplaced( *it );
 		}
 
 		/// Directories
@@ -324,6 +381,7 @@ void WatcherKqueue::rescan() {
 
 		DiffIterator( DirsModified ) {
 			handleFolderAction( ( *it ).Filepath, Actions::Modified );
+			checkReplaced( *it );
 		}
 	}
 }
diff --git a/src/efsw/WatcherKqueue.hpp b/src/efsw/WatcherKqueue.hpp
index 36f64f9..6c95058 100644
--- a/src/efsw/WatcherKqueue.hpp
+++ b/src/efsw/WatcherKqueue.hpp
@@ -79,6 +79,15 @@ class WatcherKqueue : public Watcher {
 	bool mInitOK;
 	int mErrno;
 
+	/// The directory that was opened, it could have been replaced by other
+	Uint64 mDirInode{ 0 };
+
+	void addDirectoryEvent( int fd );
+
+	void reopen();
+
+	void checkReplaced( const FileInfo& info );
+
 	bool pathInWatches( const std::string& path );
 
 	bool pathInParent( const std::string& path );
-- 
2.43.0


From 7bc131a0e8c22c83f84981f3be6c92adf36b2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 35/52] fix: kqueue: changes in a directory that was moved
 before they were read were lost

---
 src/efsw/WatcherKqueue.cpp | 13 +++++++++++++
 src/efsw/WatcherKqueue.hpp |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 0e91845..2abcbc0 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -386,6 +386,14 @@ void WatcherKqueue::rescan() {
 	}
 }
 
+void WatcherKqueue::rescanAll() {
+	rescan();
+
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+		static_cast<WatcherKqueue*>( it->second )->rescanAll();
+	}
+}
+
 WatchID WatcherKqueue::watchingDirectory( std::string dir ) {
 	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
 		if ( it->second->Directory == dir ) {
@@ -543,6 +551,11 @@ void WatcherKqueue::moveDirectory( std::string oldPath, std::string newPath, boo
 	if ( emitEvents ) {
 		handleFolderAction( newPath, efsw::Actions::Moved, oldPath );
 	}
+
+	// What changed inside them before the directory was moved couldn't be found with the old path
+	if ( NULL != watch ) {
+		static_cast<WatcherKqueue*>( watch )->rescanAll();
+	}
 }
 
 WatchID WatcherKqueue::addWatch( const std::string& directory, FileWatchListener* watcher,
diff --git a/src/efsw/WatcherKqueue.hpp b/src/efsw/WatcherKqueue.hpp
index 6c95058..680ff6a 100644
--- a/src/efsw/WatcherKqueue.hpp
+++ b/src/efsw/WatcherKqueue.hpp
@@ -37,6 +37,9 @@ class WatcherKqueue : public Watcher {
 	// rescans the watched directory adding/removing files and sending notices
 	void rescan();
 
+	// rescans also its subdirectories
+	void rescanAll();
+
 	void handleAction( const std::string& filename, efsw::Action action,
 					   const std::string& oldFilename = "" );
 
-- 
2.43.0


From 8bc0f9341a06252940998c7ecfe69cc30eb7aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 36/52] fix: kqueue: a moved directory that was watched by
 polling was taken for another kind of watch

---
 src/efsw/WatcherKqueue.cpp | 94 +++++++++++++++++++++++---------------
 src/efsw/WatcherKqueue.hpp |  2 +
 2 files changed, 59 insertions(+), 37 deletions(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 2abcbc0..b73515f 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -390,7 +390,13 @@ void WatcherKqueue::rescanAll() {
 	rescan();
 
 	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-		static_cast<WatcherKqueue*>( it->second )->rescanAll();
+		WatcherKqueue* watch = dynamic_cast<WatcherKqueue*>( it->second );
+
+		if ( NULL != watch ) {
+			watch->rescanAll();
+		} else {
+			it->second->watch();
+		}
 	}
 }
 
@@ -510,51 +516,65 @@ void WatcherKqueue::moveDirectory( std::string oldPath, std::string newPath, boo
 	std::string opath2( oldPath );
 	FileSystem::dirAddSlashAtEnd( opath2 );
 
-	Watcher* watch = findWatcher( opath2 );
+	std::string npath( newPath );
+	FileSystem::dirAddSlashAtEnd( npath );
 
-	if ( NULL != watch ) {
-		std::string npath( newPath );
-		FileSystem::dirAddSlashAtEnd( npath );
-		
-		std::vector<std::pair<WatcherKqueue*, std::string>> stack;
-		stack.push_back( std::make_pair( static_cast<WatcherKqueue*>( watch ), npath ) );
+	WatchMap::iterator it = mWatches.begin();
 
-		while ( !stack.empty() ) {
-			WatcherKqueue* wkq = stack.back().first;
-			std::string curNPath = stack.back().second;
-			stack.pop_back();
+	while ( it != mWatches.end() && it->second->Directory != opath2 ) {
+		++it;
+	}
 
-			wkq->Directory = curNPath;
-			wkq->mDirSnap.setDirectoryInfo( curNPath );
-			for ( auto& pair : wkq->mDirSnap.Files ) {
-				pair.second.Filepath = curNPath + pair.first;
-			}
-			for ( size_t i = 1; i <= wkq->mChangeListCount; i++ ) {
-				if ( NULL != wkq->mChangeList[i].udata ) {
-					FileInfo* fi = reinterpret_cast<FileInfo*>( wkq->mChangeList[i].udata );
-					std::string filename = FileSystem::fileNameFromPath( fi->Filepath );
-					fi->Filepath = curNPath + filename;
-				}
-			}
-			qsort( &wkq->mChangeList[1], wkq->mChangeListCount, sizeof( KEvent ), comparator );
-
-			for ( auto& childPair : wkq->mWatches ) {
-				WatcherKqueue* childWkq = static_cast<WatcherKqueue*>( childPair.second );
-				std::string childFolderName = FileSystem::fileNameFromPath( childWkq->Directory );
-				std::string childNewPath = curNPath + childFolderName;
-				FileSystem::dirAddSlashAtEnd( childNewPath );
-				stack.push_back( std::make_pair( childWkq, childNewPath ) );
-			}
-		}
+	if ( it != mWatches.end() ) {
+		moveWatch( it->second, npath );
 	}
 
 	if ( emitEvents ) {
 		handleFolderAction( newPath, efsw::Actions::Moved, oldPath );
 	}
 
-	// What changed inside them before the directory was moved couldn't be found with the old path
-	if ( NULL != watch ) {
-		static_cast<WatcherKqueue*>( watch )->rescanAll();
+	// What changed inside it before the directory was moved couldn't be found with the old path
+	if ( it != mWatches.end() ) {
+		WatcherKqueue* watch = dynamic_cast<WatcherKqueue*>( it->second );
+
+		if ( NULL != watch ) {
+			watch->rescanAll();
+		}
+	}
+}
+
+void WatcherKqueue::moveWatch( Watcher*& watch, const std::string& newPath ) {
+	WatcherKqueue* wkq = dynamic_cast<WatcherKqueue*>( watch );
+
+	if ( NULL == wkq ) {
+		efSAFE_DELETE( watch );
+
+		watch = new WatcherGeneric( ID, newPath, Listener, mWatcher, Recursive );
+
+		return;
+	}
+
+	wkq->Directory = newPath;
+	wkq->mDirSnap.setDirectoryInfo( newPath );
+	for ( auto& pair : wkq->mDirSnap.Files ) {
+		pair.second.Filepath = newPath + pair.first;
+	}
+	for ( size_t i = 1; i <= wkq->mChangeListCount; i++ ) {
+		if ( NULL != wkq->mChangeList[i].udata ) {
+			FileInfo* fi = reinterpret_cast<FileInfo*>( wkq->mChangeList[i].udata );
+			std::string filename = FileSystem::fileNameFromPath( fi->Filepath );
+			fi->Filepath = newPath + filename;
+		}
+	}
+	if ( wkq->mChangeListCount > 1 ) {
+		qsort( &wkq->mChangeList[1], wkq->mChangeListCount, sizeof( KEvent ), comparator );
+	}
+
+	for ( auto& childPair : wkq->mWatches ) {
+		std::string childNewPath =
+			newPath + FileSystem::fileNameFromPath( childPair.second->Directory );
+		FileSystem::dirAddSlashAtEnd( childNewPath );
+		moveWatch( childPair.second, childNewPath );
 	}
 }
 
diff --git a/src/efsw/WatcherKqueue.hpp b/src/efsw/WatcherKqueue.hpp
index 680ff6a..4a86acd 100644
--- a/src/efsw/WatcherKqueue.hpp
+++ b/src/efsw/WatcherKqueue.hpp
@@ -99,6 +99,8 @@ class WatcherKqueue : public Watcher {
 
 	void moveDirectory( std::string oldPath, std::string newPath, bool emitEvents = true );
 
+	void moveWatch( Watcher*& watch, const std::string& newPath );
+
 	void sendDirChanged();
 };
 
-- 
2.43.0


From 4116f0911e330fb591ab5217d2eb694e006b9cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 37/52] fix: kqueue: lock the watches and let listeners add and
 remove them

---
 src/efsw/FileWatcherKqueue.cpp | 57 ++++++++++++++++++++++++++++------
 src/efsw/FileWatcherKqueue.hpp |  7 ++++-
 src/efsw/WatcherKqueue.cpp     | 16 ++++++++--
 src/efsw/WatcherKqueue.hpp     |  4 +++
 4 files changed, 71 insertions(+), 13 deletions(-)

diff --git a/src/efsw/FileWatcherKqueue.cpp b/src/efsw/FileWatcherKqueue.cpp
index c545a3c..3280a09 100644
--- a/src/efsw/FileWatcherKqueue.cpp
+++ b/src/efsw/FileWatcherKqueue.cpp
@@ -53,6 +53,9 @@ WatchID FileWatcherKqueue::addWatch( const std::string& directory, FileWatchList
 
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	/// The watcher thread uses the watches while it's looking for changes
+	Lock lock( mWatchesLock );
+
 	FileInfo fi( dir );
 
 	if ( !fi.isDirectory() ) {
@@ -83,13 +86,12 @@ WatchID FileWatcherKqueue::addWatch( const std::string& directory, FileWatchList
 
 		WatcherKqueue* watch = new WatcherKqueue( ++mLastWatchID, dir, watcher, recursive, this );
 
-		{
-			Lock lock( mWatchesLock );
-			mWatches.insert( std::make_pair( mLastWatchID, watch ) );
-		}
+		mWatches.insert( std::make_pair( mLastWatchID, watch ) );
 
 		watch->addAll();
 
+		mAddingWatcher = false;
+
 		// if failed to open the directory... erase the watcher
 		if ( !watch->initOK() ) {
 			int le = watch->lastErrno();
@@ -105,14 +107,11 @@ WatchID FileWatcherKqueue::addWatch( const std::string& directory, FileWatchList
 				WatcherGeneric* genericWatch =
 					new WatcherGeneric( ++mLastWatchID, dir, watcher, this, recursive );
 
-				Lock lock( mWatchesLock );
 				mWatches.insert( std::make_pair( mLastWatchID, genericWatch ) );
 			} else {
 				return Errors::Log::createLastError( Errors::Unspecified, link );
 			}
 		}
-
-		mAddingWatcher = false;
 	} else {
 		if ( !s_ug ) {
 			efDEBUG( "Started using generic watcher, file descriptor limit reached: %ld\n",
@@ -122,7 +121,6 @@ WatchID FileWatcherKqueue::addWatch( const std::string& directory, FileWatchList
 
 		WatcherGeneric* watch = new WatcherGeneric( ++mLastWatchID, dir, watcher, this, recursive );
 
-		Lock lock( mWatchesLock );
 		mWatches.insert( std::make_pair( mLastWatchID, watch ) );
 	}
 
@@ -157,7 +155,23 @@ void FileWatcherKqueue::removeWatch( WatchID watchid ) {
 
 	mWatches.erase( iter );
 
-	efSAFE_DELETE( watch );
+	if ( mPolling ) {
+		/// Called from a listener: the watch could be the one looking for changes
+		setRemoved( watch );
+		mDeletedWatches.push_back( watch );
+	} else {
+		efSAFE_DELETE( watch );
+	}
+}
+
+void FileWatcherKqueue::setRemoved( Watcher* watch ) {
+	WatcherKqueue* wkq = dynamic_cast<WatcherKqueue*>( watch );
+
+	if ( NULL != wkq ) {
+		wkq->setRemoved();
+	} else {
+		static_cast<WatcherGeneric*>( watch )->Removed = true;
+	}
 }
 
 bool FileWatcherKqueue::isAddingWatcher() const {
@@ -165,6 +179,8 @@ bool FileWatcherKqueue::isAddingWatcher() const {
 }
 
 void FileWatcherKqueue::watch() {
+	Lock lock( mWatchesLock );
+
 	if ( NULL == mThread ) {
 		mThread = new Thread( [this] { run(); } );
 		mThread->launch();
@@ -176,9 +192,30 @@ void FileWatcherKqueue::run() {
 		{
 			Lock lock( mWatchesLock );
 
+			/// The listeners can add and remove watches
+			std::vector<WatchID> ids;
+
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				it->second->watch();
+				ids.push_back( it->first );
+			}
+
+			mPolling = true;
+
+			for ( size_t i = 0; i < ids.size(); i++ ) {
+				WatchMap::iterator it = mWatches.find( ids[i] );
+
+				if ( it != mWatches.end() ) {
+					it->second->watch();
+				}
 			}
+
+			mPolling = false;
+
+			for ( size_t i = 0; i < mDeletedWatches.size(); i++ ) {
+				efSAFE_DELETE( mDeletedWatches[i] );
+			}
+
+			mDeletedWatches.clear();
 		}
 
 		System::sleep( mPollingFreq );
diff --git a/src/efsw/FileWatcherKqueue.hpp b/src/efsw/FileWatcherKqueue.hpp
index 13ce909..6eb0d2a 100644
--- a/src/efsw/FileWatcherKqueue.hpp
+++ b/src/efsw/FileWatcherKqueue.hpp
@@ -54,7 +54,10 @@ class FileWatcherKqueue : public FileWatcherImpl {
 
 	Mutex mWatchesLock;
 
-	std::vector<WatchID> mRemoveList;
+	/// The watches removed by a listener, deleted when all the changes were handled
+	std::vector<Watcher*> mDeletedWatches;
+
+	bool mPolling{ false };
 
 	long mFileDescriptorCount;
 
@@ -64,6 +67,8 @@ class FileWatcherKqueue : public FileWatcherImpl {
 
 	bool isAddingWatcher() const;
 
+	void setRemoved( Watcher* watch );
+
 	bool pathInWatches( const std::string& path ) override;
 
 	void addFD();
diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index b73515f..95091d6 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -412,6 +412,10 @@ WatchID WatcherKqueue::watchingDirectory( std::string dir ) {
 
 void WatcherKqueue::handleAction( const std::string& filename, efsw::Action action,
 								  const std::string& oldFilename ) {
+	if ( mRemoved ) {
+		return;
+	}
+
 	Listener->handleFileAction( ID, Directory, FileSystem::fileNameFromPath( filename ), action,
 								FileSystem::fileNameFromPath( oldFilename ) );
 }
@@ -424,12 +428,20 @@ void WatcherKqueue::handleFolderAction( std::string filename, efsw::Action actio
 }
 
 void WatcherKqueue::sendDirChanged() {
-	if ( NULL != mParent ) {
+	if ( NULL != mParent && !mRemoved ) {
 		Listener->handleFileAction( mParent->ID, mParent->Directory,
 									FileSystem::fileNameFromPath( Directory ), Actions::Modified );
 	}
 }
 
+void WatcherKqueue::setRemoved() {
+	mRemoved = true;
+
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+		mWatcher->setRemoved( it->second );
+	}
+}
+
 void WatcherKqueue::watch() {
 	if ( -1 == mKqueue ) {
 		return;
@@ -587,7 +599,7 @@ WatchID WatcherKqueue::addWatch( const std::string& directory, FileWatchListener
 	FileSystem::dirAddSlashAtEnd( dir );
 
 	// This should never happen here
-	if ( !FileSystem::isDirectory( dir ) ) {
+	if ( mRemoved || !FileSystem::isDirectory( dir ) ) {
 		return Errors::Log::createLastError( Errors::FileNotFound, dir );
 	} else if ( pathInWatches( dir ) || pathInParent( dir ) ) {
 		return Errors::Log::createLastError( Errors::FileRepeated, directory );
diff --git a/src/efsw/WatcherKqueue.hpp b/src/efsw/WatcherKqueue.hpp
index 4a86acd..3d07569 100644
--- a/src/efsw/WatcherKqueue.hpp
+++ b/src/efsw/WatcherKqueue.hpp
@@ -54,6 +54,9 @@ class WatcherKqueue : public Watcher {
 
 	void watch() override;
 
+	// it doesn't report anything from now on
+	void setRemoved();
+
 	WatchID addWatch( const std::string& directory, FileWatchListener* watcher, bool recursive,
 					  WatcherKqueue* parent );
 
@@ -80,6 +83,7 @@ class WatcherKqueue : public Watcher {
 	WatcherKqueue* mParent;
 
 	bool mInitOK;
+	bool mRemoved{ false };
 	int mErrno;
 
 	/// The directory that was opened, it could have been replaced by other
-- 
2.43.0


From 1819e1caddb16eabd6696f4f091d8e55d81857de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 38/52] fix: kqueue: new subdirectories of watches that aren't
 recursive were watched

---
 src/efsw/WatcherKqueue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 95091d6..552dcbe 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -376,7 +376,10 @@ void WatcherKqueue::rescan() {
 		/// Directories
 		DiffIterator( DirsCreated ) {
 			handleFolderAction( ( *it ).Filepath, Actions::Add );
-			addWatch( ( *it ).Filepath, Listener, Recursive, this );
+
+			if ( Recursive ) {
+				addWatch( ( *it ).Filepath, Listener, Recursive, this );
+			}
 		}
 
 		DiffIterator( DirsModified ) {
-- 
2.43.0


From 618a2f8f928752ac75aaefd30e86a68a844e99ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 39/52] fix: kqueue: changes of a file were lost when its
 events were read after it was replaced

---
 src/efsw/WatcherKqueue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 552dcbe..dfd03e9 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -491,7 +491,10 @@ void WatcherKqueue::watch() {
 
 					FileInfo fi( entry->Filepath );
 
-					if ( fi != *entry ) {
+					if ( !fi.sameInode( *entry ) ) {
+						// The name is used by other file now, or gone
+						needScan = true;
+					} else if ( fi != *entry ) {
 						*entry = fi;
 
 						mDirSnap.updateFile( entry->Filepath );
-- 
2.43.0


From 354c9b716128ab37a0279c72fbbbceb77f41f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 40/52] fix: kqueue: files and directories moved or deleted
 before they could be opened were lost

---
 src/efsw/WatcherKqueue.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index dfd03e9..6491009 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -237,6 +237,11 @@ void WatcherKqueue::addFile( const std::string& name, bool emitEvents ) {
 
 		mErrno = errno;
 
+		if ( emitEvents ) {
+			// It must be found again if the directory was moved meanwhile
+			mDirSnap.removeFile( name );
+		}
+
 		return;
 	}
 
@@ -337,7 +342,8 @@ void WatcherKqueue::rescan() {
 
 		/// The names that are gone first, since they could be in use again
 		DiffIterator( FilesDeleted ) {
-			removeFile( ( *it ).Filepath );
+			handleAction( ( *it ).Filepath, Actions::Delete );
+			removeFile( ( *it ).Filepath, false );
 		}
 
 		DiffIterator( DirsDeleted ) {
@@ -558,6 +564,9 @@ void WatcherKqueue::moveDirectory( std::string oldPath, std::string newPath, boo
 		if ( NULL != watch ) {
 			watch->rescanAll();
 		}
+	} else if ( Recursive ) {
+		// It was moved before it could be opened
+		addWatch( newPath, Listener, Recursive, this );
 	}
 }
 
-- 
2.43.0


From e34f965d3eb72320f1354511bb556134b18d7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 41/52] fix: kqueue: changes of a file made while its events
 were read were lost

---
 src/efsw/WatcherKqueue.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 6491009..8c51360 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -146,7 +146,7 @@ void WatcherKqueue::addDirectoryEvent( int fd ) {
 	mDirInode = 0 == fstat( fd, &st ) ? st.st_ino : 0;
 
 	// Creates the kevent for the folder
-	EV_SET( &mChangeList[0], fd, EVFILT_VNODE, EV_ADD | EV_ENABLE | EV_ONESHOT,
+	EV_SET( &mChangeList[0], fd, EVFILT_VNODE, EV_ADD | EV_ENABLE | EV_CLEAR,
 			NOTE_DELETE | NOTE_EXTEND | NOTE_WRITE | NOTE_ATTRIB | NOTE_RENAME, 0, 0 );
 
 	struct timespec timeout = { 0, 0 };
@@ -263,7 +263,7 @@ void WatcherKqueue::addFile( const std::string& name, bool emitEvents ) {
 	FileInfo* entry = new FileInfo( name );
 
 	// set the event data at the end of the list
-	EV_SET( &mChangeList[mChangeListCount], fd, EVFILT_VNODE, EV_ADD | EV_ENABLE | EV_ONESHOT,
+	EV_SET( &mChangeList[mChangeListCount], fd, EVFILT_VNODE, EV_ADD | EV_ENABLE | EV_CLEAR,
 			NOTE_DELETE | NOTE_EXTEND | NOTE_WRITE | NOTE_ATTRIB | NOTE_RENAME, 0, (void*)entry );
 
 	struct timespec timeout = { 0, 0 };
@@ -360,9 +360,9 @@ void WatcherKqueue::rescan() {
 		}
 
 		DiffMovedIterator( FilesMoved ) {
-			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
 			removeFile( Directory + ( *mit ).first, false );
 			addFile( ( *mit ).second.Filepath, false );
+			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
 		}
 
 		DiffMovedIterator( DirsMoved ) {
@@ -375,8 +375,8 @@ void WatcherKqueue::rescan() {
 		}
 
 		DiffIterator( FilesModified ) {
-			handleAction( ( *it ).Filepath, Actions::Modified );
 			checkReplaced( *it );
+			handleAction( ( *it ).Filepath, Actions::Modified );
 		}
 
 		/// Directories
-- 
2.43.0


From d2e60cb83cd7d861ac896652ffe849bef667057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 42/52] fix: kqueue: files moved several times weren't watched
 anymore

---
 src/efsw/WatcherKqueue.cpp | 24 ++++++++++++++++++++++--
 src/efsw/WatcherKqueue.hpp |  2 ++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index 8c51360..ee3ab8c 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -323,6 +323,27 @@ void WatcherKqueue::removeFile( const std::string& name, bool emitEvents ) {
 	--mChangeListCount;
 }
 
+void WatcherKqueue::moveFile( const std::string& oldName, const FileInfo& info ) {
+	FileInfo tempEntry( info );
+	tempEntry.Filepath = oldName;
+
+	KEvent target;
+	target.udata = &tempEntry;
+
+	KEvent* ke = (KEvent*)bsearch( &target, &mChangeList[1], mChangeListCount, sizeof( KEvent ),
+								   comparator );
+
+	// The file is still open, it could have been moved again
+	if ( NULL != ke && reinterpret_cast<FileInfo*>( ke->udata )->sameInode( info ) ) {
+		reinterpret_cast<FileInfo*>( ke->udata )->Filepath = info.Filepath;
+
+		qsort( &mChangeList[1], mChangeListCount, sizeof( KEvent ), comparator );
+	} else {
+		removeFile( oldName, false );
+		addFile( info.Filepath, false );
+	}
+}
+
 void WatcherKqueue::rescan() {
 	efDEBUG( "rescan(): Rescanning: %s\n", Directory.c_str() );
 
@@ -360,8 +381,7 @@ void WatcherKqueue::rescan() {
 		}
 
 		DiffMovedIterator( FilesMoved ) {
-			removeFile( Directory + ( *mit ).first, false );
-			addFile( ( *mit ).second.Filepath, false );
+			moveFile( Directory + ( *mit ).first, ( *mit ).second );
 			handleAction( ( *mit ).second.Filepath, Actions::Moved, ( *mit ).first );
 		}
 
diff --git a/src/efsw/WatcherKqueue.hpp b/src/efsw/WatcherKqueue.hpp
index 3d07569..8bff178 100644
--- a/src/efsw/WatcherKqueue.hpp
+++ b/src/efsw/WatcherKqueue.hpp
@@ -32,6 +32,8 @@ class WatcherKqueue : public Watcher {
 
 	void removeFile( const std::string& name, bool emitEvents = true );
 
+	void moveFile( const std::string& oldName, const FileInfo& info );
+
 	// called when the directory is actually changed
 	// means a file has been added or removed
 	// rescans the watched directory adding/removing files and sending notices
-- 
2.43.0


From adac144f10f85008c88f84a8b4b12fcbfe0ca44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 43/52] fix: kqueue: the open file and the known one could be
 different files

---
 src/efsw/WatcherKqueue.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index ee3ab8c..aa4b4d0 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -262,6 +262,13 @@ void WatcherKqueue::addFile( const std::string& name, bool emitEvents ) {
 	// create entry
 	FileInfo* entry = new FileInfo( name );
 
+	// The name could be used by other file now
+	struct stat st;
+
+	if ( 0 == fstat( fd, &st ) ) {
+		entry->Inode = st.st_ino;
+	}
+
 	// set the event data at the end of the list
 	EV_SET( &mChangeList[mChangeListCount], fd, EVFILT_VNODE, EV_ADD | EV_ENABLE | EV_CLEAR,
 			NOTE_DELETE | NOTE_EXTEND | NOTE_WRITE | NOTE_ATTRIB | NOTE_RENAME, 0, (void*)entry );
@@ -523,7 +530,8 @@ void WatcherKqueue::watch() {
 					} else if ( fi != *entry ) {
 						*entry = fi;
 
-						mDirSnap.updateFile( entry->Filepath );
+						// The same file in the snapshot, the name could be used by other now
+						mDirSnap.Files[FileSystem::fileNameFromPath( entry->Filepath )] = fi;
 
 						handleAction( entry->Filepath, efsw::Actions::Modified );
 					}
-- 
2.43.0


From 95ce7c8105a68f8d4c4e6eee292336105e71e8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 44/52] fix: kqueue: changes of a new directory made while it
 was listed were lost

---
 src/efsw/WatcherKqueue.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/efsw/WatcherKqueue.cpp b/src/efsw/WatcherKqueue.cpp
index aa4b4d0..55c6d49 100644
--- a/src/efsw/WatcherKqueue.cpp
+++ b/src/efsw/WatcherKqueue.cpp
@@ -111,15 +111,16 @@ void WatcherKqueue::addAll() {
 		return;
 	}
 
-	mDirSnap.setDirectoryInfo( Directory );
-	mDirSnap.scan();
-
 	mChangeList.resize( KEVENT_RESERVE_VALUE );
 
+	// What changes from now on is found by the next scan
 	addDirectoryEvent( fd );
 
+	mDirSnap.setDirectoryInfo( Directory );
+	mDirSnap.scan();
+
 	// Get the files and directories from the directory
-	FileInfoMap files = FileSystem::filesInfoFromPath( Directory );
+	FileInfoMap files = mDirSnap.Files;
 
 	for ( FileInfoMap::iterator it = files.begin(); it != files.end(); it++ ) {
 		FileInfo& fi = it->second;
-- 
2.43.0


From f88389db7d85c8fb3a621926816f3ce85432a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 45/52] fix: inotify: wait with poll(), the descriptor can be
 beyond FD_SETSIZE

---
 src/efsw/FileWatcherInotify.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 95abdc1..99a4505 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -5,10 +5,10 @@
 
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdio.h>
 #include <string.h>
 #include <sys/inotify.h>
-#include <sys/select.h>
 #include <sys/stat.h>
 #include <unistd.h>
 
@@ -355,14 +355,13 @@ void FileWatcherInotify::run() {
 	uint32_t currentMoveCookie = -1;
 
 	do {
-		fd_set rfds;
-		FD_ZERO( &rfds );
-		FD_SET( mFD, &rfds );
-		timeval timeout;
-		timeout.tv_sec = 0;
-		timeout.tv_usec = 100000;
-
-		if ( select( FD_SETSIZE, &rfds, NULL, NULL, &timeout ) > 0 ) {
+		// Not select(): the descriptor can be beyond FD_SETSIZE
+		pollfd pfd;
+		pfd.fd = mFD;
+		pfd.events = POLLIN;
+		pfd.revents = 0;
+
+		if ( poll( &pfd, 1, 100 ) > 0 ) {
 			ssize_t len;
 
 			len = read( mFD, buff, BUFF_SIZE );
-- 
2.43.0


From c5b7957f9e760056599e791c796848fb672d7e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 46/52] fix: polling: report the files of a watched directory
 that was replaced by a file as deleted

---
 src/efsw/DirectorySnapshot.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index e273498..9d5f63a 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -72,8 +72,9 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 		DirectoryInfo = curFI;
 	}
 
-	/// If the directory was erased, create the events for files and directories deletion
-	if ( !curFI.exists() ) {
+	/// If the directory was erased, or something else has its name, create the events for files and
+	/// directories deletion
+	if ( !curFI.exists() || ( 0 != curFI.Permissions && !curFI.isDirectory() ) ) {
 		deleteAll( Diff );
 
 		return Diff;
-- 
2.43.0


From 69832d343592596235d8da24462c6412a228d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 47/52] fix: polling: don't miss changes made within the same
 second

---
 src/efsw/FileInfo.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index 4dcbd7d..fdc8d1b 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -37,6 +37,21 @@
 
 namespace efsw {
 
+/// The seconds alone don't tell apart the changes made within one of them
+#if EFSW_PLATFORM != EFSW_PLATFORM_WIN32
+static Uint64 modificationTime( const struct stat& st ) {
+#if EFSW_OS == EFSW_OS_MACOSX || EFSW_OS == EFSW_OS_IOS
+	return (Uint64)st.st_mtimespec.tv_sec * 1000000000 + st.st_mtimespec.tv_nsec;
+#else
+	return (Uint64)st.st_mtim.tv_sec * 1000000000 + st.st_mtim.tv_nsec;
+#endif
+}
+#else
+static Uint64 modificationTime( const struct _stat& st ) {
+	return st.st_mtime;
+}
+#endif
+
 bool FileInfo::exists( const std::string& filePath ) {
 	FileInfo fi( filePath );
 	return fi.exists();
@@ -106,7 +121,7 @@ void FileInfo::getInfo() {
 #endif
 
 	if ( 0 == res ) {
-		ModificationTime = st.st_mtime;
+		ModificationTime = modificationTime( st );
 		Size = st.st_size;
 		OwnerId = st.st_uid;
 		GroupId = st.st_gid;
@@ -135,7 +150,7 @@ void FileInfo::getRealInfo() {
 #endif
 
 	if ( 0 == res ) {
-		ModificationTime = st.st_mtime;
+		ModificationTime = modificationTime( st );
 		Size = st.st_size;
 		OwnerId = st.st_uid;
 		GroupId = st.st_gid;
-- 
2.43.0


From ba922bed2b27ef05b59502671e729a243bf3e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 48/52] fix: inotify: don't read the name of events that don't
 have one

It could be past the end of the buffer.
---
 src/efsw/FileWatcherInotify.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 99a4505..3ab1a4a 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -408,7 +408,9 @@ void FileWatcherInotify::run() {
 						} else if ( curWatcher ) {
 							// If it's a local rename handleAction() emits a 'Moved' event since the
 							// watcher has an OldFileName.
-							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
+							// The events without a name don't have even its terminator
+							handleAction( curWatcher, pevent->len > 0 ? pevent->name : "",
+										  pevent->mask );
 
 							// The kernel dropped the watch ( the directory doesn't exist anymore )
 							if ( ( pevent->mask & IN_IGNORED ) && curWatcher->Parent ) {
-- 
2.43.0


From abfbc32c455b52a44984cb3a5d9d1ea85705682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 49/52] fix: the root directory can be watched

---
 src/efsw/FileSystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileSystem.cpp b/src/efsw/FileSystem.cpp
index 9bbbfa2..35f1287 100644
--- a/src/efsw/FileSystem.cpp
+++ b/src/efsw/FileSystem.cpp
@@ -46,7 +46,8 @@ void FileSystem::dirAddSlashAtEnd( std::string& dir ) {
 }
 
 void FileSystem::dirRemoveSlashAtEnd( std::string& dir ) {
-	if ( dir.size() >= 1 && dir[dir.size() - 1] == getOSSlash() ) {
+	/// The root directory is nothing but its slash
+	if ( dir.size() > 1 && dir[dir.size() - 1] == getOSSlash() ) {
 		dir.erase( dir.size() - 1 );
 	}
 }
-- 
2.43.0


From 36be6bf7a5239951acabd0f94d86df9f86a1beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 50/52] fix: inotify: a directory watched with another path is
 repeated

---
 src/efsw/FileWatcherInotify.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 3ab1a4a..3aea466 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -157,8 +157,9 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 			bool sameWatch = parent && oldWatch->ID == parent->ID;
 			// A link leads to it again after the previous one was removed
 			bool newLink = mScanning && sameWatch && oldWatch->ScanId != mScanId;
-			if ( parent && ( !oldWatch->Parent || ( "" != link && !newLink ) ) ) {
-				// It was added by the user, or it's already watched without this link
+			if ( !oldWatch->Parent || ( parent && "" != link && !newLink ) ) {
+				// It was added by the user ( maybe with another path that leads to it ), or it's
+				// already watched without this link
 				return Errors::Log::createLastError( Errors::FileRepeated, directory );
 			} else if ( sameWatch && oldWatch->Directory == dir ) {
 				pWatch = oldWatch;
-- 
2.43.0


From 957b144cf9ea7896b3183c8c413d982673aea1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 51/52] fix: polling: report the directories of a new directory
 that can't be watched

---
 src/efsw/DirWatcherGeneric.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index c339459..19a4cde 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -103,6 +103,11 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 		std::string dir;
 
 		for ( FileInfoMap::iterator it = DirSnap.Files.begin(); it != DirSnap.Files.end(); it++ ) {
+			/// It's new even if it can't be watched
+			if ( reportNewFiles && it->second.isDirectory() ) {
+				handleAction( it->second.Filepath, Actions::Add );
+			}
+
 			if ( it->second.isDirectory() && it->second.isReadable() &&
 				 !FileSystem::isRemoteFS( it->second.Filepath ) ) {
 				bool isLink = false;
@@ -112,10 +117,6 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 					continue;
 				}
 
-				if ( reportNewFiles ) {
-					handleAction( it->second.Filepath, Actions::Add );
-				}
-
 				DirWatcherGeneric* dw =
 					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles, isLink );
 
-- 
2.43.0


From 17577dce042dbc95def118eaeee7946919df7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:28 +0000
Subject: [PATCH 52/52] fix: inotify: report everything found in a new
 directory

---
 src/efsw/FileWatcherInotify.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 3aea466..d44c2b0 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -215,8 +215,8 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 				if ( pWatch->Removed )
 					break;
 
-				if ( file.second.isRegularFile() || file.second.isDirectory() ||
-					 file.second.isLink() ) {
+				// Whatever it is, as if it had been created while watched ( unless it's gone )
+				if ( 0 != file.second.Permissions || FileInfo::isLink( file.second.Filepath ) ) {
 					pWatch->Listener->handleFileAction(
 						pWatch->ID, pWatch->Directory,
 						FileSystem::fileNameFromPath( file.second.Filepath ), Actions::Add );
-- 
2.43.0

