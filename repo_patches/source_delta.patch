From d355c9d07a990ff31593129343e6498254e5d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 01/62] fix: TrySynchronized locked the object before trying to
 lock it

---
 src/lightspeed/base/sync/trysynchronized.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/sync/trysynchronized.h b/src/lightspeed/base/sync/trysynchronized.h
index fc3ff26..284afb2 100644
--- a/src/lightspeed/base/sync/trysynchronized.h
+++ b/src/lightspeed/base/sync/trysynchronized.h
@@ -52,9 +52,9 @@ template<class T>
 class TrySynchronized: public Synchronized<T> {
 public:
 
-	TrySynchronized(T &lk):Synchronized<T>(lk) {
-		if (lk.tryLock() == false)
-			throw SynchronizedExceptionT<T>(THISLOCATION);
+	TrySynchronized(T &lk) try : Synchronized<T>(lk,LightSpeed::tryLock) {
+	} catch (const Synchronized_TryLockFailed &) {
+		throw SynchronizedExceptionT<T>(THISLOCATION);
 	}
 };
 
-- 
2.43.0


From 3257a5df5037f4e29d94b5a9634aef2d2abf7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 02/62] fix: report the error code of the call that failed, not
 the one left by later clean-up calls

---
 src/lightspeed/base/linux/netStreamSource.cpp |  5 +++--
 src/lightspeed/base/linux/proginstance.cpp    | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index b35333e..afde775 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -246,7 +246,7 @@ void LinuxNetConnect::setupSocket() const {
 			if (errnr != EWOULDBLOCK && errnr != EINPROGRESS) {
 				close(s);
 				if (asyncSocket.empty())
-					throw NetworkIOError(THISLOCATION,errno,"connect failed");
+					throw NetworkIOError(THISLOCATION,errnr,"connect failed");
 				else
 					break;
 			}
@@ -278,8 +278,9 @@ PNetworkStream LinuxNetConnect::makeConnect() {
 	int e = 0;
 	socklen_t elen =sizeof(e);
 	if (getsockopt(s,SOL_SOCKET, SO_ERROR, &e, &elen) < 0) {
+		int errnr = errno;
 		close(s);
-		throw NetworkIOError(THISLOCATION,errno,"getsockopt failed");
+		throw NetworkIOError(THISLOCATION,errnr,"getsockopt failed");
 	}
 	if (e != 0) {
 		close(s);
diff --git a/src/lightspeed/base/linux/proginstance.cpp b/src/lightspeed/base/linux/proginstance.cpp
index 3d7508c..b70d3c9 100644
--- a/src/lightspeed/base/linux/proginstance.cpp
+++ b/src/lightspeed/base/linux/proginstance.cpp
@@ -100,14 +100,16 @@ void ProgInstance::open()
 		throw NotRunningException(THISLOCATION);
 	struct stat statbuf;
 	if (fstat(fd,&statbuf) != 0) {
+		int e = errno;
 		::close(fd);
-		throw ErrNoException(THISLOCATION, errno);
+		throw ErrNoException(THISLOCATION, e);
 	}
 
 	void *mb = mmap(0,statbuf.st_size,PROT_WRITE|PROT_READ,MAP_SHARED,fd,0);
+	int mapErr = errno;
 	::close(fd);
 	if (mb == MAP_FAILED)
-		throw ErrNoException(THISLOCATION, errno);
+		throw ErrNoException(THISLOCATION, mapErr);
 
 	ProgInstanceBuffer *buf = reinterpret_cast<ProgInstanceBuffer *>(mb);
 	if (kill(buf->pid,0) != 0) {
@@ -216,9 +218,10 @@ void ProgInstance::create(natural requestMaxSize)
 	if (fd != -1) {
 
 		void *mb = mmap(0,sizeof(ProgInstanceBuffer),PROT_READ,MAP_SHARED,fd,0);
+		int mapErr = errno;
 		::close(fd);
 		if (mb == MAP_FAILED)
-			throw ErrNoException(THISLOCATION,errno);
+			throw ErrNoException(THISLOCATION,mapErr);
 
 		ProgInstanceBuffer *buf = reinterpret_cast<ProgInstanceBuffer *>(mb);
 		if (kill(buf->pid,0) == 0) {
@@ -241,9 +244,10 @@ void ProgInstance::create(natural requestMaxSize)
 	}
 
 	void *mb = mmap(0,totalSize,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
+	int mapErr = errno;
 	::close(fd);
 	if (mb == MAP_FAILED)
-		throw ErrNoException(THISLOCATION,errno);
+		throw ErrNoException(THISLOCATION,mapErr);
 
 	buffer =reinterpret_cast<ProgInstanceBuffer *>(mb);
 
@@ -535,17 +539,20 @@ void ProgInstance::enterDaemonMode(natural restartOnErrorSec) {
 			int status;
 			//wait pid no hang
 			err = waitpid(k,&status,WNOHANG);
+			int waitErr = errno;
 			while(err == 0) {
 				//if still running, read input blocking (should close on exit or crash)
 				ConstStrA line = fafio.readLine();
 				//test running status again
 				err = waitpid(k,&status,WNOHANG);
+				waitErr = errno;
 				//if line is empty and there are no items...
 				if (line.empty() && !fafio.hasItems()) {
 					//if no exit yet caught
 					if (err == 0) {
 						//input has been probably closed, we need to block on waiting
 						err = waitpid(k,&status,0);
+						waitErr = errno;
 					}
 					//in case on other result of wait cycle should stop here
 				} else {
@@ -565,7 +572,7 @@ void ProgInstance::enterDaemonMode(natural restartOnErrorSec) {
 			DbgLog::logRotateAll();
 			//measure time
 			time(&curTime);
-			if (err == -1) throw ErrNoException(THISLOCATION,errno);
+			if (err == -1) throw ErrNoException(THISLOCATION,waitErr);
 			int sig = 0;
 			if (WIFEXITED(status)) {
 				int exitcode = WEXITSTATUS(status);
-- 
2.43.0


From 19d674faff1e400def22b1b69194af0dc5d76520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 03/62] fix: report the resolver's and createFolders' own error
 instead of a stale errno

---
 src/lightspeed/base/linux/fileio.cpp         |  4 ++--
 src/lightspeed/base/linux/netAddress.h       |  3 +++
 src/lightspeed/base/linux/netDgramSource.cpp |  3 ++-
 src/lightspeed/base/linux/netService.cpp     | 17 +++++++++++++++--
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index c5c1041..04c0b31 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -343,8 +343,8 @@ namespace LightSpeed {
         	openFlags|=O_CREAT;
         	if (flags & createFolder) try {
         		createFolders(cname);
-        	} catch (Exception &e) {
-        		throw FileOpenError(THISLOCATION,errno,ofn) << e;
+        	} catch (FolderCreationException &e) {
+        		throw FileOpenError(THISLOCATION,e.getErrNo(),ofn) << e;
         	}
         }
         if (flags & truncate) openFlags|=O_TRUNC;
diff --git a/src/lightspeed/base/linux/netAddress.h b/src/lightspeed/base/linux/netAddress.h
index 8ac4f88..cb78c32 100644
--- a/src/lightspeed/base/linux/netAddress.h
+++ b/src/lightspeed/base/linux/netAddress.h
@@ -45,6 +45,9 @@ protected:
 
 };
 
+///converts result of the getaddrinfo() to an error number
+int resolveResultToErrNo(int res);
+
 }
 
 
diff --git a/src/lightspeed/base/linux/netDgramSource.cpp b/src/lightspeed/base/linux/netDgramSource.cpp
index def8f3f..b9b94bc 100644
--- a/src/lightspeed/base/linux/netDgramSource.cpp
+++ b/src/lightspeed/base/linux/netDgramSource.cpp
@@ -246,7 +246,8 @@ int LinuxNetDgamSource::createDatagramSocket(natural port) {
 
 		int res = getaddrinfo(0,svc,&filter,&result);
 		if (res != 0) {
-			throw NetworkResolveError(THISLOCATION,errno,ConstStrW(L":") + String(portName));
+			int err = resolveResultToErrNo(res);
+			throw NetworkResolveError(THISLOCATION,err,ConstStrW(L":") + String(portName));
 		}
 		LinuxNetAddress addr(result,&freeaddrinfo);
 
diff --git a/src/lightspeed/base/linux/netService.cpp b/src/lightspeed/base/linux/netService.cpp
index 0671431..5fa645e 100644
--- a/src/lightspeed/base/linux/netService.cpp
+++ b/src/lightspeed/base/linux/netService.cpp
@@ -5,6 +5,7 @@
  *      Author: ondra
  */
 
+#include <errno.h>
 #include "netService.h"
 #include "../text/textFormat.tcc"
 #include "../memory/staticAlloc.h"
@@ -42,6 +43,16 @@ PNetworkAddress LinuxNetService::createAddr(ConstStrA remoteAddr, natural Port)
 	}
 }
 
+int resolveResultToErrNo(int res) {
+	switch (res) {
+	case EAI_SYSTEM: return errno;
+	case EAI_MEMORY: return ENOMEM;
+	case EAI_AGAIN: return EAGAIN;
+	case EAI_FAMILY: return EAFNOSUPPORT;
+	default: return EADDRNOTAVAIL;
+	}
+}
+
 PNetworkAddress LinuxNetService::createAddr(ConstStrA remoteAddr,ConstStrA service) {
 
 	StringA a = remoteAddr;
@@ -59,7 +70,8 @@ PNetworkAddress LinuxNetService::createAddr(ConstStrA remoteAddr,ConstStrA servi
 
 	int res = getaddrinfo(node,svc,&filter,&result);
 	if (res != 0) {
-		throw NetworkResolveError(THISLOCATION,errno,String(a) + ConstStrW(L":") + String(b));
+		int err = resolveResultToErrNo(res);
+		throw NetworkResolveError(THISLOCATION,err,String(a) + ConstStrW(L":") + String(b));
 	}
 	return new LinuxNetAddress(result,&freeaddrinfo);
 
@@ -184,7 +196,8 @@ PNetworkAddress LinuxNetService::createAddr(ConstStrA remoteAddr,
 
 	int res = getaddrinfo(node,svc,&filter,&result);
 	if (res != 0) {
-		throw NetworkResolveError(THISLOCATION,errno,String(a) + ConstStrW(L":") + String(b));
+		int err = resolveResultToErrNo(res);
+		throw NetworkResolveError(THISLOCATION,err,String(a) + ConstStrW(L":") + String(b));
 	}
 	return new LinuxNetAddress(result,&freeaddrinfo);
 }
-- 
2.43.0


From 0795c6ed0848ef3571774be210f9ab148c715689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 04/62] fix: iconv conversion had swapped code pages, wrong
 output length and leaked the descriptor

---
 src/lightspeed/base/linux/string.cpp | 31 +++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/lightspeed/base/linux/string.cpp b/src/lightspeed/base/linux/string.cpp
index 4fedd7b..d4e8093 100644
--- a/src/lightspeed/base/linux/string.cpp
+++ b/src/lightspeed/base/linux/string.cpp
@@ -53,9 +53,20 @@ CompareResult StrCmpCI<wchar_t>::operator()(const ConstStringT<wchar_t> &a, cons
 
 
 
+///closes the conversion descriptor on every exit
+class IConvHandle {
+public:
+	iconv_t handle;
+	explicit IConvHandle(iconv_t handle):handle(handle) {}
+	~IConvHandle() {if (handle != (iconv_t)-1) iconv_close(handle);}
+private:
+	IConvHandle(const IConvHandle &);
+	IConvHandle &operator=(const IConvHandle &);
+};
+
 void  convertWideToCP(ConstStrW input, ICharConvertOutput<char> &output, CodePageDef cp) {
-	iconv_t iconvHndl = iconv_open("WCHAR_T", cp);
-	if (iconvHndl == (iconv_t)-1)
+	IConvHandle iconvHndl(iconv_open(cp, "WCHAR_T"));
+	if (iconvHndl.handle == (iconv_t)-1)
 		throw UnknownCodePageException(THISLOCATION,cp,errno);
 
 	const natural buffsz = 4096;
@@ -65,24 +76,22 @@ void  convertWideToCP(ConstStrW input, ICharConvertOutput<char> &output, CodePag
 	size_t iconvinsz = input.length()*sizeof(wchar_t);
 	char *iconvout = buff;
 	size_t iconvoutsz = buffsz ;
-	while (iconv(iconvHndl,&iconvin,&iconvinsz,&iconvout,&iconvoutsz) == (size_t)-1) {
+	while (iconv(iconvHndl.handle,&iconvin,&iconvinsz,&iconvout,&iconvoutsz) == (size_t)-1) {
 		int err = errno;
 		if (err == E2BIG) {
-			output(ConstStrA(buff,buffsz ));
+			output(ConstStrA(buff,buffsz - iconvoutsz));
 			iconvout = buff;
 			iconvoutsz = buffsz ;
 		} else  {
-			iconv_close(iconvHndl);
 			throw InvalidCharacterException(THISLOCATION, *iconvin, err);
 		}
 	}
 	output(ConstStrA(buff,buffsz - iconvoutsz));
-	iconv_close(iconvHndl);
 }
 void convertCPToWide(ConstStrA input, ICharConvertOutput<wchar_t> &output, CodePageDef cp) {
 
-	iconv_t iconvHndl = iconv_open( cp, "WCHAR_T");
-	if (iconvHndl == (iconv_t)-1)
+	IConvHandle iconvHndl(iconv_open("WCHAR_T", cp));
+	if (iconvHndl.handle == (iconv_t)-1)
 		throw UnknownCodePageException(THISLOCATION,cp,errno);
 
 	const natural buffsz = 4096;
@@ -92,19 +101,17 @@ void convertCPToWide(ConstStrA input, ICharConvertOutput<wchar_t> &output, CodeP
 	size_t iconvinsz = input.length();
 	char *iconvout = reinterpret_cast<char *>(buff);
 	size_t iconvoutsz = buffsz * sizeof(wchar_t);
-	while (iconv(iconvHndl,&iconvin,&iconvinsz,&iconvout,&iconvoutsz) == (size_t)-1) {
+	while (iconv(iconvHndl.handle,&iconvin,&iconvinsz,&iconvout,&iconvoutsz) == (size_t)-1) {
 		int err = errno;
 		if (err == E2BIG) {
-			output(ConstStrW(buff,buffsz ));
+			output(ConstStrW(buff,buffsz - (iconvoutsz/sizeof(wchar_t))));
 			iconvout = reinterpret_cast<char *>(buff);
 			iconvoutsz = buffsz * sizeof(wchar_t);
 		} else  {
-			iconv_close(iconvHndl);
 			throw InvalidCharacterException(THISLOCATION, *iconvin, err);
 		}
 	}
 	output(ConstStrW(buff,buffsz - (iconvoutsz/sizeof(wchar_t))));
-	iconv_close(iconvHndl);
 
 }
 
-- 
2.43.0


From e10e5436faa75dc12aadd1f7199ade03a8824737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 05/62] fix: network transfers and waits are restarted after a
 signal; datagram sockets close-on-exec and closed on failed bind

---
 src/lightspeed/base/linux/epollSelect.cpp     |  5 +++-
 src/lightspeed/base/linux/linuxFdSelect.cpp   | 11 +++++++-
 src/lightspeed/base/linux/netDgramSource.cpp  | 26 ++++++++++++++-----
 src/lightspeed/base/linux/netStream.cpp       | 15 ++++++++---
 src/lightspeed/base/linux/netStreamSource.cpp |  8 ++++--
 src/lightspeed/base/linux/pollSelect.cpp      |  5 +++-
 6 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index 3feb7c4..d7dfea6 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -152,7 +152,10 @@ EPollSelect::WaitStatus EPollSelect::wait(const Timeout& tm, Result& result) {
 		} else {
 			if (ev.data.fd == wakeOut) {
 				byte b;
-				int r = read(wakeOut,&b,1);
+				int r;
+				do {
+					r = read(wakeOut,&b,1);
+				} while (r == -1 && errno == EINTR);
 				if (r == -1)
 					throw ErrNoException(THISLOCATION, errno);
 				result.fd = 0;
diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index 0d4ec05..db5f458 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -42,8 +42,14 @@ natural safeSelect(integer socket, natural waitFor, natural timeout) {
 	fdinfo.fd = socket;
 	fdinfo.events = waitMaskToEvents(waitFor);
 	fdinfo.revents = 0;
+	Timeout finish = timeout==naturalNull?Timeout(nil):Timeout(timeout);
 	int tm = timeout==naturalNull?-1:(int)timeout;
 	int r=poll(&fdinfo,1,tm);
+	while (r == -1 && errno == EINTR) {
+		//interrupted by a signal, continue in waiting for the rest of the time
+		if (timeout != naturalNull) tm = (int)finish.getRemain().msecs();
+		r=poll(&fdinfo,1,tm);
+	}
 	if (r == 1) {
 		return eventsToWaitMask(fdinfo.revents);
 	} else if (r == 0) {
@@ -112,7 +118,10 @@ const LinuxFdSelect::FdInfo& LinuxFdSelect::getNext() {
 	if (r.fd == cancelIn && r.waitMask != 0) {
 		writeRelease(&pendingWakeup,-1);
 		byte x;
-		int err = read(cancelIn,&x,1);
+		int err;
+		do {
+			err = read(cancelIn,&x,1);
+		} while (err == -1 && errno == EINTR);
 		if (err < 0) throw ErrNoException(THISLOCATION,errno);
 	}
 	return r;
diff --git a/src/lightspeed/base/linux/netDgramSource.cpp b/src/lightspeed/base/linux/netDgramSource.cpp
index b9b94bc..16dd8ce 100644
--- a/src/lightspeed/base/linux/netDgramSource.cpp
+++ b/src/lightspeed/base/linux/netDgramSource.cpp
@@ -46,7 +46,10 @@ PNetworkDatagram LinuxNetDgamSource::receive() {
 	dgr->inputData.setSize(res);
 	void *buff = dgr->inputData.getBuffer().data();
 
-	int r = ::recvfrom(sock,buff,res,0,saddr,&len);
+	ssize_t r;
+	do {
+		r = ::recvfrom(sock,buff,res,0,saddr,&len);
+	} while (r == -1 && errno == EINTR);
 	if (r == -1) {
 		int err = errno; throw NetworkIOError(THISLOCATION,err,"recvfrom failed");
 	}
@@ -132,9 +135,12 @@ void LinuxNetDatagram::send() {
 	if (addrlen == 0)
 		throw NetworkInvalidAddressException(THISLOCATION,nil);
 	else {
-		int r = ::sendto(owner->sock,outputData.getBuffer().data(),
+		ssize_t r;
+		do {
+			r = ::sendto(owner->sock,outputData.getBuffer().data(),
 				outputData.getBuffer().length(),0,
 				(struct sockaddr *)addrbuff, addrlen);
+		} while (r == -1 && errno == EINTR);
 		if (r == -1) {
 			int err = errno;
 			throw NetworkIOError(THISLOCATION, err, "Cannot send datagram");
@@ -149,9 +155,12 @@ void LinuxNetDatagram::sendTo(PNetworkAddress target) {
 		LinuxNetAddress *a = dynamic_cast<LinuxNetAddress *>(target.get());
 		if (a == 0)
 			throw NetworkInvalidAddressException(THISLOCATION,target);
-		int r = ::sendto(owner->sock,outputData.getBuffer().data(),
+		ssize_t r;
+		do {
+			r = ::sendto(owner->sock,outputData.getBuffer().data(),
 				outputData.getBuffer().length(),0,
 				a->getAddrInfo()->ai_addr, a->getAddrInfo()->ai_addrlen);
+		} while (r == -1 && errno == EINTR);
 		if (r == -1) {
 			int err = errno;
 			throw NetworkIOError(THISLOCATION, err, "Cannot send datagram");
@@ -254,17 +263,20 @@ int LinuxNetDgamSource::createDatagramSocket(natural port) {
 
 		struct addrinfo *ainfo = addr.getAddrInfo();
 
-		s = socket(ainfo->ai_family, SOCK_DGRAM, ainfo->ai_protocol);
+		s = socket(ainfo->ai_family, SOCK_DGRAM | SOCK_CLOEXEC, ainfo->ai_protocol);
 		if (s == -1) throw NetworkPortOpenException(THISLOCATION,errno,port);
 
 
 		int e = bind(s,ainfo->ai_addr,ainfo->ai_addrlen);
 
-		if (e != 0)
-			throw NetworkPortOpenException(THISLOCATION,errno,port);
+		if (e != 0) {
+			int err = errno;
+			close(s);
+			throw NetworkPortOpenException(THISLOCATION,err,port);
+		}
 	} else {
 
-		s = socket(AF_INET6, SOCK_DGRAM, 0);
+		s = socket(AF_INET6, SOCK_DGRAM | SOCK_CLOEXEC, 0);
 		if (s == -1) throw NetworkPortOpenException(THISLOCATION,errno,port);
 
 	}
diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index 2322b25..74aee97 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -47,7 +47,10 @@ natural LinuxNetStream::read( void *buffer, natural size )
 	if (!wait(INetworkResource::waitForInput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 					NetworkTimeoutException::reading);
-	int res = recv(sock,reinterpret_cast<char *>(buffer),(int)size,0);
+	ssize_t res;
+	do {
+		res = recv(sock,reinterpret_cast<char *>(buffer),size,0);
+	} while (res == -1 && errno == EINTR);
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"recv failed");
 	if (res == 0) foundEof = true;;
@@ -64,7 +67,10 @@ natural LinuxNetStream::write( const void *buffer, natural size )
 	if (!wait(INetworkResource::waitForOutput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 			NetworkTimeoutException::writing);
-	int res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,0);
+	ssize_t res;
+	do {
+		res = send(sock,reinterpret_cast<const char *>(buffer),size,0);
+	} while (res == -1 && errno == EINTR);
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"send failed");
 	return (natural)res;
@@ -78,7 +84,10 @@ natural LinuxNetStream::peek( void *buffer, natural size ) const
 	if (!wait(INetworkResource::waitForInput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 		NetworkTimeoutException::reading);
-	int res = recv(sock,reinterpret_cast<char *>(buffer),(int)size,MSG_PEEK);
+	ssize_t res;
+	do {
+		res = recv(sock,reinterpret_cast<char *>(buffer),size,MSG_PEEK);
+	} while (res == -1 && errno == EINTR);
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"recv failed");
 	if (res == 0) foundEof = true;
diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index afde775..1df90ff 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -66,7 +66,8 @@ PNetworkAddress LinuxNetAccept::getLocalAddr() const
 	if (localAddr == nil) {
 		char buff[sizeof(struct sockaddr_in6)];
 		unsigned int len = sizeof(buff);
-		getsockname(acceptSock,(struct sockaddr *)buff,&len);
+		if (getsockname(acceptSock,(struct sockaddr *)buff,&len))
+			throw NetworkIOError(THISLOCATION,errno,"getsockname failed");
 		localAddr =  INetworkServices::getNetServices().createAddr(buff,len);
 	}
 	return localAddr;
@@ -81,7 +82,10 @@ PNetworkStream LinuxNetAccept::getNext()
 	char buff[256];
 	struct sockaddr *saddr = (struct sockaddr *) (buff);
 	socklen_t socklen = sizeof(buff);
-	int s = accept4(acceptSock, saddr, &socklen,SOCK_CLOEXEC);
+	int s;
+	do {
+		s = accept4(acceptSock, saddr, &socklen,SOCK_CLOEXEC);
+	} while (s == -1 && errno == EINTR);
 	if (s == -1)
 		throw NetworkIOError(THISLOCATION, errno, "accept has failed");
 
diff --git a/src/lightspeed/base/linux/pollSelect.cpp b/src/lightspeed/base/linux/pollSelect.cpp
index 6a11e48..ce6c594 100644
--- a/src/lightspeed/base/linux/pollSelect.cpp
+++ b/src/lightspeed/base/linux/pollSelect.cpp
@@ -169,7 +169,10 @@ PollSelect::WaitStatus PollSelect::wait(const Timeout& tm, Result& result) {
 
 					if (fd == wakeOut) {
 						byte b;
-						int r = read(wakeOut,&b,1);
+						int r;
+						do {
+							r = read(wakeOut,&b,1);
+						} while (r == -1 && errno == EINTR);
 						if (r == -1)
 							throw ErrNoException(THISLOCATION, errno);
 						result.fd = 0;
-- 
2.43.0


From 047fb9c47879e67c9d04f67aee48baa5a259b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 06/62] fix: IOSleep survives signals and closes its pipe

---
 src/lightspeed/mt/linux/IOSleep.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/mt/linux/IOSleep.cpp b/src/lightspeed/mt/linux/IOSleep.cpp
index 2790ecf..fa6611d 100644
--- a/src/lightspeed/mt/linux/IOSleep.cpp
+++ b/src/lightspeed/mt/linux/IOSleep.cpp
@@ -59,8 +59,12 @@ IOSleep::SleepResult IOSleep::sleep(INetworkResource *nres, Timeout tm) {
 		fd = nres->getIfc<INetworkSocket>().getSocket(pfds.length()-1);
 	}
 
-	natural tmms = tm.getRemain().msecs();
-	int res = poll(pfds.data(),pfds.length(),tmms);
+	int res;
+	do {
+		natural tmms = tm.getRemain().msecs();
+		res = poll(pfds.data(),pfds.length(),tmms);
+		//continue in waiting when interrupted by a signal
+	} while (res == -1 && errno == EINTR);
 	if (res == -1) {
 		int e = errno;
 		throw ErrNoException(THISLOCATION,e);
@@ -72,9 +76,16 @@ IOSleep::SleepResult IOSleep::sleep(INetworkResource *nres, Timeout tm) {
 	if (pfds[0].revents != 0) {
 		while (pfds[0].revents != 0) {
 			char b;
-			read(fdnotify,&b,1);
+			int r;
+			do {
+				r = read(fdnotify,&b,1);
+			} while (r == -1 && errno == EINTR);
+			if (r == -1) throw ErrNoException(THISLOCATION,errno);
 			pfds(0).revents = 0;
-			poll(pfds.data(),1,0);
+			do {
+				r = poll(pfds.data(),1,0);
+			} while (r == -1 && errno == EINTR);
+			if (r == -1) throw ErrNoException(THISLOCATION,errno);
 		}
 		return waken;
 	} else {
@@ -84,6 +95,8 @@ IOSleep::SleepResult IOSleep::sleep(INetworkResource *nres, Timeout tm) {
 }
 
 IOSleep::~IOSleep() {
+	close(fdnotify);
+	close(fdcancel);
 }
 
 void IOSleep::wakeUp(natural) throw() {
-- 
2.43.0


From 771a7eff4f56b37ebdbfd1163fdf928928c511f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 07/62] fix: failed fdatasync, msync, stat of a link target,
 dup and short sendfile were ignored

---
 src/lightspeed/base/linux/fileio.cpp | 50 +++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 04c0b31..3e1dbe2 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -7,6 +7,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <sys/sendfile.h>
+#include <limits.h>
 #include <fcntl.h>
 #include <string.h>
 #include "../exceptions/unsupportedFeature.h"
@@ -662,7 +663,19 @@ namespace LightSpeed {
 
 
 	void FileDescriptorSeq::flush() {
-		::fdatasync(fd);
+		if (::fdatasync(fd) == -1) {
+			int e = errno;
+			//descriptors that cannot be synchronized (pipe, terminal, etc)
+			if (e != EINVAL && e != EROFS) throw FileIOError(THISLOCATION,e,name);
+		}
+	}
+
+	///determines maximum length of the name of an entry in the folder
+	static size_t getMaxEntryName(const char *path) {
+		long n = pathconf(path, _PC_NAME_MAX);
+		//no limit is known (or there is no folder, it will be reported during opening)
+		if (n < 0) return NAME_MAX;
+		return (size_t)n;
 	}
 
 	class DirState: public IFolderIterator {
@@ -707,7 +720,7 @@ namespace LightSpeed {
     					+ sz + 20;
     			return malloc(entryLen);
     		}
-    		void operator delete(void *ptr,const char *) {
+    		void operator delete(void *ptr,size_t,size_t) {
     			free(ptr);
     		}
     		void operator delete(void *ptr) {
@@ -758,7 +771,13 @@ namespace LightSpeed {
     				}
     			} else {
 					i = stat64(srcpath,&statInfo);
-    				if (i != 0) FileOpenError(THISLOCATION,errno,wsrcpath);
+    				if (i != 0) {
+    					int e = errno;
+    					if (e != ENOENT && e != ELOOP) throw FileOpenError(THISLOCATION,e,wsrcpath);
+    					//link to nowhere
+    					type = unknown;
+    					return;
+    				}
     			}
     			if (S_ISREG(statInfo.st_mode)) type = file;
     			else if (S_ISDIR(statInfo.st_mode)) type = directory;
@@ -815,7 +834,7 @@ namespace LightSpeed {
 
         	virtual PFolderIterator openFolder() const {
         		if (type != directory) throw FileMsgException(THISLOCATION,0,wbuffer,ConstStrW(L"Directory not found"));
-        		size_t maxpath = pathconf(srcpath, _PC_NAME_MAX) + 1;
+        		size_t maxpath = getMaxEntryName(srcpath) + 1;
         		return new(maxpath,strlen(srcpath)) DirState(svc,srcpath,maxpath);
         	};
 
@@ -842,7 +861,7 @@ namespace LightSpeed {
     	StringA c = wideToUtf8(pathname);
     	if (c.empty()) c=".";
     	if (c.tail(1)[0] == '/') c = c + ConstStrA(".");
-		size_t maxpath = pathconf(c.c_str(), _PC_NAME_MAX) + 1;
+		size_t maxpath = getMaxEntryName(c.c_str()) + 1;
 		return new(maxpath,c.length()) DirState(*this,c,maxpath);
 
 
@@ -913,8 +932,14 @@ namespace LightSpeed {
     	if (ofd == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,to);}
 
     	int err = 0;
-    	ssize_t res = sendfile(ofd,ifd,0,st.st_size);
-    	if (res == -1) err = errno;
+    	off_t remain = st.st_size;
+    	while (remain > 0) {
+    		ssize_t res = sendfile(ofd,ifd,0,remain);
+    		if (res == -1) {err = errno;break;}
+    		//unexpected end of file
+    		if (res == 0) break;
+    		remain -= res;
+    	}
     	close(ifd);
     	close(ofd);
 
@@ -1044,7 +1069,7 @@ namespace LightSpeed {
         	}
         	virtual void sync(MappedRegion &reg) {
         		if (reg.size == 0) return;
-        		msync(reg.address,reg.size,MS_SYNC);
+        		if (msync(reg.address,reg.size,MS_SYNC)) throw FileMsgException(THISLOCATION,errno,fname,"msync failed");
         	}
         	virtual void lock(MappedRegion &reg) {
         		if (reg.size == 0) return;
@@ -1068,7 +1093,14 @@ namespace LightSpeed {
     		if (ihnd == 0) throw FileMsgException(THISLOCATION,EFAULT,filename,"File cannot be mapped");
     		int fd;
     		ihnd->getHandle(&fd,sizeof(fd));
-    		return new Mapped(dup(fd),filename);
+    		int mfd = fcntl(fd,F_DUPFD_CLOEXEC,0);
+    		if (mfd == -1) throw FileMsgException(THISLOCATION,errno,filename,"File handle cannot be duplicated");
+    		try {
+    			return new Mapped(mfd,filename);
+    		} catch (...) {
+    			close(mfd);
+    			throw;
+    		}
 
 
     	} catch (Exception &e) {
-- 
2.43.0


From 6f03acc2ad32b07a5912712592e457945c80e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 08/62] fix: ProgInstance ignored failed write, sem_init and
 dup2, leaked mappings and descriptors

---
 src/lightspeed/base/linux/proginstance.cpp | 55 ++++++++++++++++------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/lightspeed/base/linux/proginstance.cpp b/src/lightspeed/base/linux/proginstance.cpp
index b70d3c9..4bd35cd 100644
--- a/src/lightspeed/base/linux/proginstance.cpp
+++ b/src/lightspeed/base/linux/proginstance.cpp
@@ -18,6 +18,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <errno.h>
 #include <sys/types.h>
 #include <signal.h>
 #include "../framework/proginstance.h"
@@ -95,7 +96,7 @@ void ProgInstance::create()
 void ProgInstance::open()
 {
 	if (buffer != 0) return;
-	int fd = ::open(name.getUtf8().c_str(),O_RDWR);
+	int fd = ::open(name.getUtf8().c_str(),O_RDWR|O_CLOEXEC);
 	if (fd == -1)
 		throw NotRunningException(THISLOCATION);
 	struct stat statbuf;
@@ -113,6 +114,7 @@ void ProgInstance::open()
 
 	ProgInstanceBuffer *buf = reinterpret_cast<ProgInstanceBuffer *>(mb);
 	if (kill(buf->pid,0) != 0) {
+		munmap(mb,statbuf.st_size);
 		throw NotRunningException(THISLOCATION);
 	}
 
@@ -214,7 +216,7 @@ void ProgInstance::create(natural requestMaxSize)
 	StringA namea = name.getUtf8();
 	if (buffer != 0) return;
 	natural totalSize = requestMaxSize + sizeof(ProgInstanceBuffer);
-	int fd = ::open(namea.c_str(),O_RDWR);
+	int fd = ::open(namea.c_str(),O_RDWR|O_CLOEXEC);
 	if (fd != -1) {
 
 		void *mb = mmap(0,sizeof(ProgInstanceBuffer),PROT_READ,MAP_SHARED,fd,0);
@@ -225,21 +227,31 @@ void ProgInstance::create(natural requestMaxSize)
 
 		ProgInstanceBuffer *buf = reinterpret_cast<ProgInstanceBuffer *>(mb);
 		if (kill(buf->pid,0) == 0) {
-			throw AlreadyRunningException(THISLOCATION,buf->pid);
+			pid_t runningPid = buf->pid;
+			munmap(mb,sizeof(ProgInstanceBuffer));
+			throw AlreadyRunningException(THISLOCATION,runningPid);
 		}
 
 		munmap(mb,sizeof(ProgInstanceBuffer));
 		unlink(namea.c_str());
 	}
-	fd = ::open(namea.c_str(),O_RDWR | O_CREAT | O_EXCL, S_IRUSR|S_IWUSR );
+	fd = ::open(namea.c_str(),O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, S_IRUSR|S_IWUSR );
 	if (fd == -1)
 		throw ErrNoException(THISLOCATION,errno);
 
 	char prebuf[256];
+	memset(prebuf,0,sizeof(prebuf));
 	natural cursize = 0;
 	while (cursize < totalSize) {
 		natural c = (totalSize - cursize) > 256?256:(totalSize - cursize);
-		natural n = write(fd,prebuf,c);
+		ssize_t n = write(fd,prebuf,c);
+		if (n == -1) {
+			int e = errno;
+			if (e == EINTR) continue;
+			::close(fd);
+			unlink(namea.c_str());
+			throw ErrNoException(THISLOCATION,e);
+		}
 		cursize +=n;
 	}
 
@@ -256,10 +268,16 @@ void ProgInstance::create(natural requestMaxSize)
 	buffer->pid = getpid();
 	buffer->tid = pthread_self();
 	buffer->owner = this;
-	sem_init(&buffer->semAccess,1,1);
-	sem_init(&buffer->semRequest,1,0);
-	sem_init(&buffer->semReply,1,0);
-	sem_init(&buffer->semInProgress,1,1);
+	if (sem_init(&buffer->semAccess,1,1)
+		|| sem_init(&buffer->semRequest,1,0)
+		|| sem_init(&buffer->semReply,1,0)
+		|| sem_init(&buffer->semInProgress,1,1)) {
+		int e = errno;
+		munmap(mb,totalSize);
+		buffer = 0;
+		unlink(namea.c_str());
+		throw ErrNoException(THISLOCATION,e);
+	}
 	buffer->size = totalSize;
 	buffer->indaemon = false;
 }
@@ -490,8 +508,7 @@ public:
 		if (forkRes == 0) {
 			int fd;
 			oup.getStream()->getIfc<IFileExtractHandle>().getHandle(&fd,sizeof(fd));
-			dup2(fd,1);
-			dup2(fd,2);
+			if (dup2(fd,1) == -1 || dup2(fd,2) == -1) throw ErrNoException(THISLOCATION,errno);
 		}
 		return forkRes;
 	}
@@ -515,6 +532,15 @@ protected:
 	AutoArrayStream<char> linebuff;
 };
 
+///waits for the process, continues in waiting when interrupted by a signal
+static pid_t waitPidNoIntr(pid_t pid, int *status, int flags) {
+	pid_t r;
+	do {
+		r = waitpid(pid,status,flags);
+	} while (r == -1 && errno == EINTR);
+	return r;
+}
+
 void ProgInstance::enterDaemonMode(natural restartOnErrorSec) {
 	LogObject lg(THISLOCATION);
 	if (!imOwner()) throw NotInitialized(THISLOCATION);
@@ -535,23 +561,22 @@ void ProgInstance::enterDaemonMode(natural restartOnErrorSec) {
 	    int k = fafio.doFork();
 	    while (k != 0) {
 	    	DbgLog::setThreadName("watchdog",false);
-			if (k == -1) throw ErrNoException(THISLOCATION,errno);
 			int status;
 			//wait pid no hang
-			err = waitpid(k,&status,WNOHANG);
+			err = waitPidNoIntr(k,&status,WNOHANG);
 			int waitErr = errno;
 			while(err == 0) {
 				//if still running, read input blocking (should close on exit or crash)
 				ConstStrA line = fafio.readLine();
 				//test running status again
-				err = waitpid(k,&status,WNOHANG);
+				err = waitPidNoIntr(k,&status,WNOHANG);
 				waitErr = errno;
 				//if line is empty and there are no items...
 				if (line.empty() && !fafio.hasItems()) {
 					//if no exit yet caught
 					if (err == 0) {
 						//input has been probably closed, we need to block on waiting
-						err = waitpid(k,&status,0);
+						err = waitPidNoIntr(k,&status,0);
 						waitErr = errno;
 					}
 					//in case on other result of wait cycle should stop here
-- 
2.43.0


From 4563e77e20edbab3bdc8414b1987c97974364118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 09/62] fix: failed getnameinfo and getcwd were ignored

---
 src/lightspeed/base/linux/main.cpp       | 3 +++
 src/lightspeed/base/linux/netAddress.cpp | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/main.cpp b/src/lightspeed/base/linux/main.cpp
index 94fb7b4..53a49a0 100644
--- a/src/lightspeed/base/linux/main.cpp
+++ b/src/lightspeed/base/linux/main.cpp
@@ -11,6 +11,8 @@
 #include "env.h"
 #include <signal.h>
 #include "seh.h"
+#include <errno.h>
+#include "../exceptions/systemException.h"
 #include "../containers/string.tcc"
 #include <unistd.h>
 #include "../../utils/FilePath.tcc"
@@ -33,6 +35,7 @@ namespace LightSpeed {
 			app.init();
 			//        sleep(30);
 			char* cwdp = getcwd(0, 0);
+			if (cwdp == 0) throw ErrNoException(THISLOCATION,errno);
 			FilePath cwd = FilePath(String(cwdp),true);
 			cwd = cwd / ConstStrA(argv[0]);
 			free(cwdp);
diff --git a/src/lightspeed/base/linux/netAddress.cpp b/src/lightspeed/base/linux/netAddress.cpp
index 8563eda..c729f1c 100644
--- a/src/lightspeed/base/linux/netAddress.cpp
+++ b/src/lightspeed/base/linux/netAddress.cpp
@@ -7,6 +7,7 @@
 
 #include "netAddress.h"
 #include <netdb.h>
+#include "../exceptions/netExceptions.h"
 #include "../text/textFormat.tcc"
 #include "../memory/smallAlloc.h"
 #include <string.h>
@@ -36,9 +37,13 @@ StringA LinuxNetAddress::asString(bool resolve) {
 
 	int flags = resolve?0:NI_NUMERICHOST|NI_NUMERICSERV;
 
-	getnameinfo(addrinfo->ai_addr, addrinfo->ai_addrlen,
+	int res = getnameinfo(addrinfo->ai_addr, addrinfo->ai_addrlen,
 			hostbuff,sizeof(hostbuff),
 			svcbuff,sizeof(svcbuff),flags);
+	if (res != 0) {
+		int err = resolveResultToErrNo(res);
+		throw NetworkResolveError(THISLOCATION,err,String(L"getnameinfo"));
+	}
 
 	buff("%1:%2") << hostbuff << svcbuff;
 	return StringA(buff.write());
-- 
2.43.0


From 55707160bd4516996c56478db40ea60ddc0db71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 10/62] fix: child between vfork and exec called virtual
 functions and allocators, ignored failed dup/fcntl

---
 src/lightspeed/mt/linux/process.cpp | 113 ++++++++++++++++------------
 1 file changed, 64 insertions(+), 49 deletions(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index c64a520..edc7e10 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -382,6 +382,49 @@ namespace LightSpeed {
 		return h;
 	}
 
+	///Prepares descriptors and the working directory of the child process
+	/** Called between fork and exec - only async-signal-safe functions are allowed
+	 * @return zero when success, otherwise error number
+	 */
+	static int prepareChildProcess(int hInput, int hOutput, int hError,
+			const int *extraFds, natural extraCount, const char *cwd) {
+
+		const int src[3] = {hInput,hOutput,hError};
+		int tmp[3] = {-1,-1,-1};
+		//duplicate original fds, because they are marked O_CLOEXEC
+		//first duplicate to new set to handle collisions while descriptors are in 0-2 range
+		for (int i = 0; i < 3; i++) {
+			if (src[i] >= 0) {
+				tmp[i] = fcntl(src[i],F_DUPFD,3);
+				if (tmp[i] == -1) return errno;
+			}
+		}
+		//set input output and error fds
+		for (int i = 0; i < 3; i++) {
+			if (tmp[i] >= 0) {
+				if (dup2(tmp[i],i) == -1) return errno;
+				close(tmp[i]);
+			}
+		}
+		//disable O_CLOEXEC on streams exported to the child process
+		for (natural i = 0; i < extraCount; i++) {
+			int flags = fcntl(extraFds[i],F_GETFD);
+			if (flags == -1 || fcntl(extraFds[i],F_SETFD,flags & ~FD_CLOEXEC) == -1) return errno;
+		}
+		//if cwd defined, change current working directory
+		if (*cwd != 0 && chdir(cwd) == -1) return errno;
+		return 0;
+	}
+
+	///Sends error code of the child process to the parent process
+	/** Called between fork and exec - only async-signal-safe functions are allowed */
+	static void writeChildStatus(int fd, int err) {
+		int r;
+		do {
+			r = write(fd,&err,sizeof(err));
+		} while (r == -1 && errno == EINTR);
+	}
+
 	void Process::start() {
 
 		LinuxProcessContext &ctx = LinuxProcessContext::getCtx(*context);
@@ -448,6 +491,16 @@ namespace LightSpeed {
 		//detach pipe object;
 		ipcstatus.detach();
 
+		//collect all handles before the fork, child cannot do it
+		int statusFd;
+		writeStatus.getStream()->getIfc<IFileExtractHandle>().getHandle(&statusFd,sizeof(statusFd));
+		natural extraCount = ctx.extraStreams.length();
+		int *extraFds = (int *)alloca(sizeof(int) * (extraCount + 1));
+		for (natural i = 0; i < extraCount; i++) {
+			ctx.extraStreams[i]->getIfc<IFileExtractHandle>().getHandle(&extraFds[i],sizeof(int));
+		}
+		const char *fnamechr = fname.cStr();
+
 		//prepare object to read exec status
 		//prepare return value from the fork
 		int fres;
@@ -471,55 +524,17 @@ namespace LightSpeed {
 
 		//in the child process (fres = 0)
 		if (fres == 0) {
-			int chInput = -1, chOutput = -1, chError = -1;
-			//duplicate original fds, because they are marked O_CLOEXEC
-			//first duplicate to new set to handle collisions while descriptors are in 0-2 range
-			if (hInput >= 0) chInput = dup(hInput);
-			if (hOutput >= 0) chOutput = dup(hOutput);
-			if (hError >= 0) chError = dup(hError);
-
-			//set input output and error fds
-			if (chInput >= 0) {
-				dup2(chInput,0);close(chInput);
-			}
-			if (hOutput >= 0) {
-				dup2(chOutput,1);close(chOutput);
-			}
-			if (hError >= 0) {
-				dup2(chError,2);close(chError);
-			}
-
-			//disable O_CLOEXEC on streams exported to the child process
-			for (natural i = 0; i < ctx.extraStreams.length(); i++) {
-				int fd;
-				ctx.extraStreams[i]->getIfc<IFileExtractHandle>().getHandle(&fd,sizeof(fd));
-				fcntl(fd,F_SETFD,fcntl(fd,F_GETFD) & ~FD_CLOEXEC);
-			}
-
-			//if cwd defined, change current working directory
-			int res;
-
-			if (*cwdchr != 0) {
-				res = chdir(cwdchr);
-				if (res) {
-					int e = errno;
-					//write error code into status pipe
-					writeStatus.blockWrite(&e,sizeof(e),true);
-
-					_exit(1);
-				}
-			}
-
-			//perform exec
-			/* if process starts, it closes ipcstatus pipe, so parent process detect succesfull execution
-			 * otherwise, function returns with exit code */
-			res = execve(fname.cStr(),cmdLine,envTable);
-
-			if (res) {
-				int e = errno;
-				//write error code into status pipe
-				writeStatus.blockWrite(&e,sizeof(e),true);
+			//only async-signal-safe calls are allowed there
+			int e = prepareChildProcess(hInput,hOutput,hError,extraFds,extraCount,cwdchr);
+			if (e == 0) {
+				//perform exec
+				/* if process starts, it closes ipcstatus pipe, so parent process detect succesfull execution
+				 * otherwise, function returns with exit code */
+				execve(fnamechr,cmdLine,envTable);
+				e = errno;
 			}
+			//write error code into status pipe
+			writeChildStatus(statusFd,e);
 			//terminate this process
 			_exit(1);
 		} else {
@@ -539,7 +554,7 @@ namespace LightSpeed {
 				//if status exists
 				//wait child
 				int exitStatus;
-				waitpid(fres,&exitStatus,0);
+				while (waitpid(fres,&exitStatus,0) == -1 && errno == EINTR) {}
 				int res;
 				//read status
 				statusRead.blockRead(&res,sizeof(res),true);
-- 
2.43.0


From d4e5bc47ec1664999eb343ab24008bae28a56b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 11/62] fix: acceptRequest entered the buffer without the lock
 after a signal

---
 src/lightspeed/base/linux/proginstance.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/proginstance.cpp b/src/lightspeed/base/linux/proginstance.cpp
index 4bd35cd..993964e 100644
--- a/src/lightspeed/base/linux/proginstance.cpp
+++ b/src/lightspeed/base/linux/proginstance.cpp
@@ -347,7 +347,10 @@ void *ProgInstance::acceptRequest()
 	///test, whether there is request
 	if (sem_trywait(&buffer->semRequest)) return 0;
 	///if there is request, lock the buffer
-	::sem_wait(&buffer->semInProgress);
+	while (::sem_wait(&buffer->semInProgress)) {
+		int e = errno;
+		if (e != EINTR) throw ErrNoException(THISLOCATION,e);
+	}
 	///not, we can work with the data
 	return buffer->data;
 }
-- 
2.43.0


From 7ce811defd9e24ccd443457988c0cd2f2dc1fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 12/62] fix: a signal or an error while reading wget's output
 or writing the request buffer is handled

---
 src/lightspeed/base/linux/linuxhttp.cpp    | 10 ++++++++--
 src/lightspeed/base/linux/proginstance.cpp |  6 ++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/linuxhttp.cpp b/src/lightspeed/base/linux/linuxhttp.cpp
index d2634c2..2abb69c 100644
--- a/src/lightspeed/base/linux/linuxhttp.cpp
+++ b/src/lightspeed/base/linux/linuxhttp.cpp
@@ -1,6 +1,7 @@
 #include <unistd.h>
 #include "linuxhttp.h"
 #include <sys/select.h>
+#include <errno.h>
 #include "../text/textParser.tcc"
 #include "../text/textFormat.tcc"
 #include "../exceptions/fileExceptions.h"
@@ -177,8 +178,13 @@ void LinuxHttpStream::readHeader(SeqFileInput& wgetin, SeqFileInput& wgeterr) {
 		const LinuxFdSelect::FdInfo &fs = fdselect.getNext();
 		if (fs.fd == wgeterr_fd) {
 			char buff[256];
-			int n = ::read(wgeterr_fd, buff, 256);
-			if (n == 0) {
+			int n;
+			do {
+				n = ::read(wgeterr_fd, buff, 256);
+			} while (n == -1 && errno == EINTR);
+			if (n == -1) {
+				throw FileIOError(THISLOCATION, errno, url);
+			} else if (n == 0) {
 				rep = false;
 			} else {
 				replyHdrPool.append(ConstStrA(buff, n));
diff --git a/src/lightspeed/base/linux/proginstance.cpp b/src/lightspeed/base/linux/proginstance.cpp
index 993964e..772d7ca 100644
--- a/src/lightspeed/base/linux/proginstance.cpp
+++ b/src/lightspeed/base/linux/proginstance.cpp
@@ -244,10 +244,12 @@ void ProgInstance::create(natural requestMaxSize)
 	natural cursize = 0;
 	while (cursize < totalSize) {
 		natural c = (totalSize - cursize) > 256?256:(totalSize - cursize);
-		ssize_t n = write(fd,prebuf,c);
+		ssize_t n;
+		do {
+			n = write(fd,prebuf,c);
+		} while (n == -1 && errno == EINTR);
 		if (n == -1) {
 			int e = errno;
-			if (e == EINTR) continue;
 			::close(fd);
 			unlink(namea.c_str());
 			throw ErrNoException(THISLOCATION,e);
-- 
2.43.0


From d6e7662f7bba3ada885133655f8a654d67f28d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 13/62] fix: descriptors passed by the parent process are not
 leaked into further child processes

---
 src/lightspeed/base/linux/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 3e1dbe2..2754f73 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -316,7 +316,7 @@ namespace LightSpeed {
         	int fx;
         	char r,w,p;
         	if (sscanf(cname.data(),"#fd:%c%c%c%d",&r,&w,&p,&fx) == 4) {
-        		fcntl(fx,F_SETFD,0);
+        		fcntl(fx,F_SETFD,FD_CLOEXEC);
         		if (p == 'p')
         			return new PipeDescriptor(fx,cname,r == '-', w == '-');
         		else
-- 
2.43.0


From ab079fd34d64d4e25f38d3e49337c4e3d15005ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 14/62] fix: descriptors leaked when a constructor or a
 connection setup failed, closed twice after disabling wake-ups

---
 src/lightspeed/base/linux/epollSelect.cpp     | 16 ++++++++---
 src/lightspeed/base/linux/linuxFdSelect.cpp   |  1 +
 src/lightspeed/base/linux/netStreamSource.cpp | 27 ++++++++++++++-----
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index d7dfea6..e70d467 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -29,8 +29,11 @@ EPollSelect::EPollSelect():timeoutHeap(timeoutMap) {
 		throw ErrNoException(THISLOCATION, errno);
 
 	int pipe[2];
-	if (pipeCloseOnExec(pipe) == -1)
-		throw ErrNoException(THISLOCATION, errno);
+	if (pipeCloseOnExec(pipe) == -1) {
+		int e = errno;
+		close(epollfd);
+		throw ErrNoException(THISLOCATION, e);
+	}
 
 	wakeIn = pipe[1];
 	wakeOut = pipe[0];
@@ -38,8 +41,13 @@ EPollSelect::EPollSelect():timeoutHeap(timeoutMap) {
 	struct epoll_event ev;
 	ev.events = EPOLLIN;
 	ev.data.fd = wakeOut;
-	if (epoll_ctl(epollfd,EPOLL_CTL_ADD,wakeOut,&ev) == -1)
-		throw ErrNoException(THISLOCATION, errno);
+	if (epoll_ctl(epollfd,EPOLL_CTL_ADD,wakeOut,&ev) == -1) {
+		int e = errno;
+		close(epollfd);
+		close(wakeIn);
+		close(wakeOut);
+		throw ErrNoException(THISLOCATION, e);
+	}
 
 }
 
diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index db5f458..4ba7fde 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -225,6 +225,7 @@ void LinuxFdSelect::enableWakeUp(bool enable) {
 			unset(cancelIn);
 			close(cancelIn);
 			close(cancelOut);
+			cancelIn = cancelOut = -1;
 		}
 	}
 }
diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index 1df90ff..07b8601 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -44,11 +44,17 @@ static int createListenSocket(PNetworkAddress addr) {
 	ioctl(s,FIONBIO,&nonblk);
 
 	int e = bind(s,ainfo->ai_addr,ainfo->ai_addrlen);
-	if (e != 0)
-		throw NetworkPortOpenException(THISLOCATION,errno,getPortNumber(ainfo));
+	if (e != 0) {
+		int errnr = errno;
+		close(s);
+		throw NetworkPortOpenException(THISLOCATION,errnr,getPortNumber(ainfo));
+	}
 	e = listen(s,SOMAXCONN);
-	if (e != 0)
-		throw NetworkIOError(THISLOCATION,errno,"Listen on socket failed");
+	if (e != 0) {
+		int errnr = errno;
+		close(s);
+		throw NetworkIOError(THISLOCATION,errnr,"Listen on socket failed");
+	}
 
 	return s;
 }
@@ -89,7 +95,7 @@ PNetworkStream LinuxNetAccept::getNext()
 	if (s == -1)
 		throw NetworkIOError(THISLOCATION, errno, "accept has failed");
 
-	LinuxNetStream* stream = new LinuxNetStream(s, streamDefTimeout);
+	PNetworkStream stream = new LinuxNetStream(s, streamDefTimeout);
 	remoteAddr = INetworkServices::getNetServices().createAddr(saddr,socklen);
 	stream->setTimeout(streamDefTimeout);
 	if (count != naturalNull)
@@ -113,9 +119,11 @@ natural LinuxNetAccept::doWait(natural , natural timeout) const {
 
 LinuxNetAccept::LinuxNetAccept(PNetworkAddress addr,
 		natural count ,natural timeout, natural streamDefTimeout)
-	:acceptSock(createListenSocket(addr) )
+	:acceptSock(-1)
 	,count(count),streamDefTimeout(streamDefTimeout){
 	setTimeout(timeout);
+	//must be the last one - destructor is not called when constructor throws
+	acceptSock = createListenSocket(addr);
 
 }
 
@@ -257,7 +265,12 @@ void LinuxNetConnect::setupSocket() const {
 
 		}
 
-		asyncSocket.add(s);
+		try {
+			asyncSocket.add(s);
+		} catch (...) {
+			close(s);
+			throw;
+		}
 		aif= aif->ai_next;
 	}
 
-- 
2.43.0


From 6bfb1e98adae05b2f2a2a737d39ca420226442fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 15/62] fix: folder iterator leaked the directory when
 construction failed, instance kept a dangling mapping when close failed

---
 src/lightspeed/base/linux/fileio.cpp       | 6 ++++--
 src/lightspeed/base/linux/proginstance.cpp | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 2754f73..e651eaf 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -699,7 +699,7 @@ namespace LightSpeed {
     		IFileIOServices &svc;
 
     		DirState(IFileIOServices &svc, ConstStrA name, size_t maxpath)
-    			:dir(opendir(name.data()))
+    			:dir(0)
     			,entryInfo(reinterpret_cast<struct dirent *>(this+1))
     			,srcpath(reinterpret_cast<char *>(entryInfo) + offsetof(struct dirent, d_name) + maxpath)
     			,buffer(srcpath+name.length()+1)
@@ -707,10 +707,12 @@ namespace LightSpeed {
     			,wbuffer(wsrcpath+name.length()+1)
     			,statLoaded(false)
     			,svc(svc) {
-    			if (dir == 0) throw FileOpenError(THISLOCATION, errno, name);
     			strcpy(srcpath,name.data());
     			srcpath[name.length()] = '/';
     			this->source = ConstStrW(wsrcpath,name.length());
+    			//must be the last one - destructor is not called when constructor throws
+    			dir = opendir(name.data());
+    			if (dir == 0) throw FileOpenError(THISLOCATION, errno, name);
     		}
 
     		void *operator new(size_t sz,size_t maxpath, size_t dirpathlen) {
diff --git a/src/lightspeed/base/linux/proginstance.cpp b/src/lightspeed/base/linux/proginstance.cpp
index 772d7ca..20bd4b5 100644
--- a/src/lightspeed/base/linux/proginstance.cpp
+++ b/src/lightspeed/base/linux/proginstance.cpp
@@ -372,10 +372,11 @@ void ProgInstance::sendReply(const void *data, natural sz)
 void ProgInstance::close() {
 	if (buffer) {
 		bool cleanup = imOwner();
-		munmap(buffer,buffer->size);
+		ProgInstanceBuffer *b = buffer;
+		buffer = 0;
+		munmap(b,b->size);
 		if (cleanup)
 			unlink(name.getUtf8().c_str());
-		buffer = 0;
 	}
 
 }
-- 
2.43.0


From e4c553406ac6953d5508f7debf5e807887b91746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 16/62] fix: InvalidCharacterException and
 UnknownCodePageException lost their class when thrown again or cloned

---
 src/lightspeed/base/exceptions/stringException.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/exceptions/stringException.h b/src/lightspeed/base/exceptions/stringException.h
index 84ad4ca..232f47d 100644
--- a/src/lightspeed/base/exceptions/stringException.h
+++ b/src/lightspeed/base/exceptions/stringException.h
@@ -17,6 +17,7 @@ namespace LightSpeed {
 
 	class UnknownCodePageException: public ErrNoException {
 	public:
+		LIGHTSPEED_EXCEPTIONFINAL;
 
 		UnknownCodePageException(const ProgramLocation &loc, CodePageDef cp, int errnr)
 			:ErrNoException(loc,errnr),cp(cp) {}
@@ -37,6 +38,7 @@ namespace LightSpeed {
 
 	class InvalidCharacterException: public ErrNoException {
 	public:
+		LIGHTSPEED_EXCEPTIONFINAL;
 
 		InvalidCharacterException(const ProgramLocation &loc, char chr, int errnr)
 			:ErrNoException(loc,errnr),chr(chr) {}
-- 
2.43.0


From c11364c5a4f28d91b0093366a51d5341b0680aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 17/62] fix: throw without a current exception terminated the
 program instead of reporting invalid arguments

---
 src/lightspeed/base/meta/typelist.h     | 8 +++++---
 src/lightspeed/base/text/textParser.tcc | 4 +++-
 src/lightspeed/utils/json/json.cpp      | 2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/meta/typelist.h b/src/lightspeed/base/meta/typelist.h
index 10e240a..b668ec9 100644
--- a/src/lightspeed/base/meta/typelist.h
+++ b/src/lightspeed/base/meta/typelist.h
@@ -8,6 +8,8 @@
 #ifndef LIGHTSPEED_META_TYPELISTS_H_
 #define LIGHTSPEED_META_TYPELISTS_H_
 
+#include <typeinfo>
+
 
 namespace TLists {
 
@@ -267,7 +269,7 @@ namespace _internal {
 					MIsConvertible< const typename Tuple::T *, const T *>::value
 					>::get(owner,fldNames,curName);
 				if (res == 0)
-					throw; //TODO: not found exception
+					throw std::bad_cast(); //field not found
 				return *res;
 			}
 
@@ -282,7 +284,7 @@ namespace _internal {
 			template<typename T>
 			const T &operator=(const T &value) {
 				if (!set(value)) {
-					throw; //TODO: not found exception
+					throw std::bad_cast(); //field not found
 				}
 				return value;
 			}
@@ -291,7 +293,7 @@ namespace _internal {
 			operator const T &() const {
 				const T *res = asPtr<T>();
 				if (res == 0)
-					throw; //TODO: not found exception
+					throw std::bad_cast(); //field not found
 				return *res;
 			}
 
diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 0587071..80a393c 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -13,6 +13,7 @@
 
 #include "../containers/autoArray.tcc"
 #include "../memory/stdAlloc.h"
+#include "../exceptions/invalidParamException.h"
 #include "../memory/smallAlloc.h"
 #include "textParser.h"
 #include "../streams/utf.h"
@@ -504,7 +505,8 @@ TextParser<T,Alloc,Cmp>::Result::operator typename TextParser<T,Alloc,Cmp>::Str(
 }
 template<typename T, typename Alloc, typename Cmp>
 TextParser<T,Alloc,Cmp>::Result::operator T() const {
-	if (owner.fragments[index].length() != 1) throw;//TODO exception;
+	if (owner.fragments[index].length() != 1)
+		throw InvalidParamException(THISLOCATION,index,"The parsed fragment is not a single character");
 	return owner.fragments[index][0];
 }
 template<typename T, typename Alloc, typename Cmp>
diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index d5a6132..d89863c 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1187,7 +1187,7 @@ Value getConstant(Constant c) {
 	case constZero: return Factory().newValue(0); break;
 	case constEmptyStr: return Factory().newValue(ConstStrA()); break;
 	}
-	throw; //should never reached
+	throw InvalidParamException(THISLOCATION,1,"Unknown JSON constant");
 }
 
 StringA toString(const INode* json, bool escapeUTF8) {
-- 
2.43.0


From 4e28353dc8ee227183ea59ced9271f3087c61129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 18/62] fix: a failed write of pending output in a destructor
 terminated the program

---
 src/lightspeed/base/iter/iterConv.h | 12 ++++++++++--
 src/lightspeed/base/text/textOut.h  | 11 ++++++++++-
 src/lightspeed/base/types.h         |  8 ++++++++
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/iter/iterConv.h b/src/lightspeed/base/iter/iterConv.h
index 56103e4..7df75b2 100644
--- a/src/lightspeed/base/iter/iterConv.h
+++ b/src/lightspeed/base/iter/iterConv.h
@@ -7,6 +7,7 @@
 
 #ifndef LIGHTSPEED_BASE_ITER_ITERCONV_H_
 #define LIGHTSPEED_BASE_ITER_ITERCONV_H_
+#include <exception>
 #include "../containers/optional.h"
 #include "../exceptions/throws.h"
 #include "../qualifier.h"
@@ -145,8 +146,15 @@ public:
 
 	ConvertWriteIter(typename FastParam<TrgIter>::T trgIter):trgIter(trgIter) {}
 	ConvertWriteIter(const Converter &init, typename FastParam<TrgIter>::T trgIter):conv(init),trgIter(trgIter) {}
-	~ConvertWriteIter() {
-		if (implicitFlush) conv.flushToIter(trgIter);
+	~ConvertWriteIter() LIGHTSPEED_THROWING_DESTRUCTOR {
+		if (implicitFlush) {
+			if (std::uncaught_exception()) {
+				//another exception is already on the way
+				try {conv.flushToIter(trgIter);} catch (...) {}
+			} else {
+				conv.flushToIter(trgIter);
+			}
+		}
 	}
 	bool hasItems() const {
 		return trgIter.hasItems();
diff --git a/src/lightspeed/base/text/textOut.h b/src/lightspeed/base/text/textOut.h
index 9085ca5..ba2db9c 100644
--- a/src/lightspeed/base/text/textOut.h
+++ b/src/lightspeed/base/text/textOut.h
@@ -8,6 +8,7 @@
 #ifndef LIGHTSPEED_TEXT_TEXTOUT_H_
 #define LIGHTSPEED_TEXT_TEXTOUT_H_
 
+#include <exception>
 #include "textFormat.h"
 #include "../iter/iteratorChain.h"
 #pragma once
@@ -23,7 +24,15 @@ namespace LightSpeed {
 			TextOutSink &operator <<(const T &a) {ref.fmt.operator<<(a);return *this;}
 
 			TextOutSink(X &ref):ref(ref) {}
-			~TextOutSink() {if (!isShared()) flush();}
+			~TextOutSink() LIGHTSPEED_THROWING_DESTRUCTOR {
+				if (isShared()) return;
+				if (std::uncaught_exception()) {
+					//another exception is already on the way
+					try {flush();} catch (...) {}
+				} else {
+					flush();
+				}
+			}
 		protected:
 			X &ref;
 			void flush();
diff --git a/src/lightspeed/base/types.h b/src/lightspeed/base/types.h
index 7cebe7b..38404e0 100644
--- a/src/lightspeed/base/types.h
+++ b/src/lightspeed/base/types.h
@@ -7,6 +7,14 @@
 
 #include <cstdio>
 
+///Declares a destructor which reports a failure of pending output by an exception
+/** Destructors are implicitly non-throwing since C++11, an exception would terminate the program */
+#if __cplusplus >= 201103L
+#define LIGHTSPEED_THROWING_DESTRUCTOR noexcept(false)
+#else
+#define LIGHTSPEED_THROWING_DESTRUCTOR
+#endif
+
 
 
 namespace LightSpeed
-- 
2.43.0


From b91305845f9e10c9215c2e54cb0b5783340c9cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 19/62] fix: failures in destructors and in wake-up operations
 of the TCP server terminated the program

---
 src/lightspeed/base/actions/job.cpp          |  9 ++-
 src/lightspeed/base/exceptions/exception.cpp | 21 +++--
 src/lightspeed/base/framework/TCPServer.cpp  | 82 ++++++++++++++------
 src/lightspeed/base/iter/generator.tcc       |  6 +-
 src/lightspeed/base/linux/fileio.cpp         |  9 ++-
 src/lightspeed/base/linux/linuxFdSelect.cpp  |  3 +-
 src/lightspeed/base/linux/sshHandler.cpp     | 23 ++++--
 src/lightspeed/base/streams/fileio_ifc.h     |  8 +-
 src/lightspeed/base/streams/httpc.tcc        |  6 +-
 src/lightspeed/mt/linux/process.cpp          |  6 +-
 10 files changed, 123 insertions(+), 50 deletions(-)

diff --git a/src/lightspeed/base/actions/job.cpp b/src/lightspeed/base/actions/job.cpp
index fd96f4e..60e7d6f 100644
--- a/src/lightspeed/base/actions/job.cpp
+++ b/src/lightspeed/base/actions/job.cpp
@@ -84,7 +84,14 @@ void Job::wakeUp(natural reason) throw() {
 	State v = setState(sleeping,ready,running,running_event);
 	if (v == sleeping) {
 		if (ntf_so) ntf_so->wakeUp(reason);
-		else if (ntf_exec) ntf_exec->execute(JobFunction::create(this,&Job::run));
+		else if (ntf_exec) {
+			try {
+				ntf_exec->execute(JobFunction::create(this,&Job::run));
+			} catch (...) {
+				//no worker is available, don't lose the job
+				run();
+			}
+		}
 		else run();
 	}
 }
diff --git a/src/lightspeed/base/exceptions/exception.cpp b/src/lightspeed/base/exceptions/exception.cpp
index 729444d..b885e2e 100644
--- a/src/lightspeed/base/exceptions/exception.cpp
+++ b/src/lightspeed/base/exceptions/exception.cpp
@@ -47,15 +47,20 @@ Exception::~Exception() throw() {
 const char *Exception::what() const throw ()
 {
 	if (whatMsg.getSize() == 0) {
-		String msg = getLongMessage();
-		StringA amsg = msg.getUtf8();
-
-		StdAlloc::AllocatedMemory<char> tmp(amsg.length()+1);
-		for (natural i = 0; i < amsg.length();i++) {
-			tmp.getBase()[i] = amsg[i];
+		try {
+			String msg = getLongMessage();
+			StringA amsg = msg.getUtf8();
+
+			StdAlloc::AllocatedMemory<char> tmp(amsg.length()+1);
+			for (natural i = 0; i < amsg.length();i++) {
+				tmp.getBase()[i] = amsg[i];
+			}
+			tmp.getBase()[amsg.length()] = 0;
+			tmp.swap(whatMsg);
+		} catch (...) {
+			//message cannot be built - this function must not throw
+			return "Exception (description is not available)";
 		}
-		tmp.getBase()[amsg.length()] = 0;
-		tmp.swap(whatMsg);
 	}
 	return whatMsg.getBase();
 }
diff --git a/src/lightspeed/base/framework/TCPServer.cpp b/src/lightspeed/base/framework/TCPServer.cpp
index 047b444..3726a04 100644
--- a/src/lightspeed/base/framework/TCPServer.cpp
+++ b/src/lightspeed/base/framework/TCPServer.cpp
@@ -10,6 +10,7 @@
 #include "../interface.tcc"
 #include "../containers/autoArray.tcc"
 #include "../containers/map.tcc"
+#include "../debug/dbglog.h"
 
 namespace LightSpeed {
 
@@ -32,7 +33,11 @@ TCPServer::TCPServer(ITCPServerConnHandler &handler, IExecutor *connExecutor)
 
 TCPServer::~TCPServer()
 {
-	stop();
+	try {
+		stop();
+	} catch (...) {
+		//destructor must not throw
+	}
 //event listener first stops listening
 //executor then waits to finish all unfinished tasks
 }
@@ -111,8 +116,12 @@ void TCPServer::stop()
 
 void TCPServer::Sleeper::wakeUp(natural ) throw() {
 	owner.acceptConn(owner.mother, 0);
-	//re-register mother
-	if (owner.mother.hasItems()) owner.eventListener->add(owner.mother,this,owner.mother->getDefaultWait(),naturalNull,0);
+	try {
+		//re-register mother
+		if (owner.mother.hasItems()) owner.eventListener->add(owner.mother,this,owner.mother->getDefaultWait(),naturalNull,0);
+	} catch (const std::exception &e) {
+		LS_LOG.error("Unable to wait for the next connection: %1") << e.what();
+	}
 }
 void TCPServer::acceptConn(NetworkStreamSource& listenSock, natural sourceId) throw() {
 
@@ -125,25 +134,33 @@ void TCPServer::acceptConn(NetworkStreamSource& listenSock, natural sourceId) th
 	//if shutdown active - reject
 	if (readAcquire(&shutdown)) return;
 
-	//receive connection
-	PNetworkStream stream = listenSock.getNext();
-	stream = stream.getMT();
-	//retrieve remote address
-	NetworkAddress remoteAddr = listenSock.getRemoteAddress();
-
-	if (handler2) {
-		//call handler
-		ITCPServerContext *ctx = handler2->onIncome(remoteAddr);
-		//if connection is rejected
-		if (ctx == 0) return;
-		//create connection object
-		PConnection conn(new Connection(this,stream,ctx,sourceId));
-		//register connection
-		connList.insert(conn.getMT());
-		//ask handler for first action
-		ITCPServerConnHandler::Command cmd =  handler2->onAccept(conn,ctx);
-		//carry out the action
-		reuse(conn,cmd);
+	Connection *registered = 0;
+	try {
+		//receive connection
+		PNetworkStream stream = listenSock.getNext();
+		stream = stream.getMT();
+		//retrieve remote address
+		NetworkAddress remoteAddr = listenSock.getRemoteAddress();
+
+		if (handler2) {
+			//call handler
+			ITCPServerContext *ctx = handler2->onIncome(remoteAddr);
+			//if connection is rejected
+			if (ctx == 0) return;
+			//create connection object
+			PConnection conn(new Connection(this,stream,ctx,sourceId));
+			//register connection
+			connList.insert(conn.getMT());
+			registered = conn;
+			//ask handler for first action
+			ITCPServerConnHandler::Command cmd =  handler2->onAccept(conn,ctx);
+			//carry out the action
+			reuse(conn,cmd);
+		}
+	} catch (const std::exception &e) {
+		//connection is lost, but the server continues
+		LS_LOG.error("Unable to accept connection: %1") << e.what();
+		if (registered) close(registered);
 	}
 }
 
@@ -230,7 +247,12 @@ void TCPServer::Connection::wakeUp(natural reason) throw() {
 
 void TCPServer::Connection::userWakeup(  )
 {
-	owner.executor->execute(RunWorkerCompletion(owner,this));
+	try {
+		owner.executor->execute(RunWorkerCompletion(owner,this));
+	} catch (...) {
+		//there is no worker to process the event
+		owner.close(this);
+	}
 }
 
 
@@ -327,7 +349,13 @@ void TCPServer::workerEx(Connection *owner, natural eventId) {
 	}
 
 	//reuse connection depend on status
-	reuse(owner,cmdout);
+	try {
+		reuse(owner,cmdout);
+	} catch (...) {
+		//connection cannot be watched
+		close(owner);
+		throw;
+	}
 }
 
 void TCPServer::workerDisconnect(Connection *owner) {
@@ -356,7 +384,11 @@ natural TCPServer::addPort(NetworkStreamSource tcpsource) {
 
 void TCPServer::OtherPortAccept::wakeUp(natural ) throw()  {
 	owner.acceptConn(getSocket(),sourceId);
-	owner.getEventListener()->add(getSocket(),this);
+	try {
+		owner.getEventListener()->add(getSocket(),this);
+	} catch (const std::exception &e) {
+		LS_LOG.error("Unable to wait for the next connection: %1") << e.what();
+	}
 }
 
 TCPServer::OtherPortAccept::OtherPortAccept(TCPServer& owner, natural sourceId,
diff --git a/src/lightspeed/base/iter/generator.tcc b/src/lightspeed/base/iter/generator.tcc
index 8cc071a..96d0091 100644
--- a/src/lightspeed/base/iter/generator.tcc
+++ b/src/lightspeed/base/iter/generator.tcc
@@ -52,7 +52,11 @@ template<typename T> GeneratorIterator<T>::GeneratorIterator(
 
 template<typename T> GeneratorIterator<T>::~GeneratorIterator() {
 	this->needItems = false;
-	while (this->checkState()) this->wakeUp();
+	try {
+		while (this->checkState()) this->wakeUp();
+	} catch (...) {
+		//generator has finished by an exception, there is nobody to receive it
+	}
 }
 
 
diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index e651eaf..2d3d36b 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -298,8 +298,11 @@ namespace LightSpeed {
     	}
 
     	~FileDescriptorCommitOnClose() {
-    		if (!std::uncaught_exception())
+    		if (!std::uncaught_exception()) try {
     			closeOutput();
+    		} catch (...) {
+    			//file has not been commited, call closeOutput() to receive the error
+    		}
     	}
     protected:
     	String targetFile;
@@ -469,7 +472,7 @@ namespace LightSpeed {
         	if (ofn == ConstStrW('-')) return openStdFile(stdOutput);
             return safeOpenFile(ofn,O_WRONLY, flags);
         } else
-            throw;//TODO: invalid mode
+            throw InvalidParamException(THISLOCATION,2,"Sequential file can be opened only for reading or for writing");
         
     }
 
@@ -501,7 +504,7 @@ namespace LightSpeed {
             case stdOutput:return new PipeDescriptor(1,"#1 stdOutput",true,false);
             case stdError:return new PipeDescriptor(2,"#2 stdError",true,false);
         }
-        throw;//TODO: invalid mode
+        throw InvalidParamException(THISLOCATION,1,"Unknown standard stream");
     }
 
 #ifndef HAVE_PIPE2
diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index 4ba7fde..c3d1b1b 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -64,7 +64,8 @@ LinuxFdSelect::LinuxFdSelect():curPos(naturalNull),cancelIn(-1),cancelOut(-1),pe
 }
 
 LinuxFdSelect::~LinuxFdSelect() {
-	enableWakeUp(false);
+	if (cancelIn != -1) close(cancelIn);
+	if (cancelOut != -1) close(cancelOut);
 }
 void LinuxFdSelect::set(int fd, natural waitMask, void* data, Timeout tmout) {
 	set(FdInfo(fd,waitMask,data,tmout));
diff --git a/src/lightspeed/base/linux/sshHandler.cpp b/src/lightspeed/base/linux/sshHandler.cpp
index 5cf904b..9050f36 100644
--- a/src/lightspeed/base/linux/sshHandler.cpp
+++ b/src/lightspeed/base/linux/sshHandler.cpp
@@ -12,6 +12,7 @@
 #include "../../mt/process.h"
 #include "../../utils/queryParser.h"
 #include "../exceptions/fileExceptions.h"
+#include "../exceptions/invalidParamException.h"
 #include "../text/textstream.tcc"
 #include "../containers/carray.tcc"
 namespace LightSpeed {
@@ -136,10 +137,14 @@ public:
 	}
 
 	~SSHStreamOutput() {
-		if (proc.isRunning()) {
-			proc.stop(true);
+		try {
+			if (proc.isRunning()) {
+				proc.stop(true);
+			}
+			proc.join();
+		} catch (...) {
+			//destructor must not throw
 		}
-		proc.join();
 	}
 
 	Process proc;
@@ -207,10 +212,14 @@ public:
 	}
 
 	~SSHStreamInput() {
-		if (proc.isRunning()) {
-			proc.stop(true);
+		try {
+			if (proc.isRunning()) {
+				proc.stop(true);
+			}
+			proc.join();
+		} catch (...) {
+			//destructor must not throw
 		}
-		proc.join();
 	}
 
 	Process proc;
@@ -253,7 +262,7 @@ PInOutStream LightSpeed::SshHandler::openSeqFile(ConstStrW fname,
 
 	if (mode == fileOpenRead) return new SSHStreamInput(fname);
 	else if (mode == fileOpenWrite) return new SSHStreamOutput(fname,flags);
-	else throw;//TODO: invalid mode
+	else throw InvalidParamException(THISLOCATION,2,"Stream can be opened only for reading or for writing");
 
 }
 
diff --git a/src/lightspeed/base/streams/fileio_ifc.h b/src/lightspeed/base/streams/fileio_ifc.h
index 2ac395a..3f0ee69 100644
--- a/src/lightspeed/base/streams/fileio_ifc.h
+++ b/src/lightspeed/base/streams/fileio_ifc.h
@@ -1140,8 +1140,12 @@ namespace LightSpeed {
 	};
 
 	inline TemporaryFile::~TemporaryFile() {
-		close();
-		if (!filename.empty()) svc.remove(filename);
+		try {
+			close();
+			if (!filename.empty()) svc.remove(filename);
+		} catch (...) {
+			//destructor must not throw, file is left on the disk
+		}
 	}
 
 	inline void TemporaryFile::rename(ConstStrW newName, bool overwrite) {
diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 55e5e09..a58fff1 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -22,7 +22,11 @@ namespace LightSpeed {
 	template<typename FnOutput>
 	HttpRequest<FnOutput>::~HttpRequest()
 	{
-		reset();
+		try {
+			reset();
+		} catch (...) {
+			//rest of the request cannot be sent. Use reset() to receive the error
+		}
 	}
 	template<typename FnOutput>
 	HttpRequest<FnOutput>::HttpRequest(const HttpRequest &other)
diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index edc7e10..eb66d0f 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -78,7 +78,11 @@ namespace LightSpeed {
 	Process::Process(String processName, IRuntimeAlloc &alloc)
 		:processName(processName),context(new(alloc) LinuxProcessContext(alloc)) {}
 	Process::~Process() {
-		if (context) join();
+		if (context) try {
+			join();
+		} catch (...) {
+			//destructor must not throw
+		}
 	}
 
 
-- 
2.43.0


From 3657dd17eca02516be25d6a74de21054c1bdec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 20/62] fix: waiting for a file lock is restarted after a
 signal

---
 src/lightspeed/base/linux/fileio.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 2d3d36b..7bccfd8 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -592,8 +592,9 @@ namespace LightSpeed {
 
 	bool FileDescriptorSeq::lock(int flags, natural timeout) {
 		if (timeout == 0) flags |= LOCK_NB;
-		if (flock(this->fd,flags)) {
+		while (flock(this->fd,flags)) {
 			int err = errno;
+			if (err == EINTR) continue;
 			if (err == EWOULDBLOCK) return false;
 			else throw ErrNoException(THISLOCATION, err);
 		}
@@ -610,8 +611,9 @@ namespace LightSpeed {
 		return lock(flag, timeout);
 	}
 	void FileDescriptorSeq::unlock() {
-		if (flock(this->fd,LOCK_UN)) {
+		while (flock(this->fd,LOCK_UN)) {
 			int err = errno;
+			if (err == EINTR) continue;
 			throw ErrNoException(THISLOCATION, err);
 		}
 	}
-- 
2.43.0


From 95266a329e2f4da1e9bd87b6a5a2f54ac9c554d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 21/62] fix: FutureAutoCancel terminated the program when the
 promise was being rejected

---
 src/lightspeed/base/actions/promise.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 0bf74d2..a51c26e 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -838,7 +838,11 @@ FutureAutoCancel<T>::~FutureAutoCancel() {
 	if (this->future != null) {
 		if (this->future->isLastReference()) {
 			if (IPromiseControl::stateResolving == this->cancel()) {
-				this->wait();
+				//the result, or the exception the promise is rejected with, is not interesting here
+				try {
+					this->wait();
+				} catch (...) {
+				}
 			}
 		}
 	}
-- 
2.43.0


From e4e3eb6fd149417a8b7adf467467ff7957803c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 22/62] fix: members read before they were given a value

---
 src/lightspeed/base/actions/msgQueue.cpp         | 7 ++++---
 src/lightspeed/base/actions/msgQueue.h           | 4 ++--
 src/lightspeed/base/actions/parallelExecutor.cpp | 2 ++
 src/lightspeed/base/actions/queueExecutor.cpp    | 2 +-
 src/lightspeed/base/containers/avltreenode.tcc   | 4 ++--
 src/lightspeed/base/debug/LogProvider.cpp        | 2 +-
 src/lightspeed/base/debug/dbglog.cpp             | 8 ++++----
 src/lightspeed/base/debug/livelog.cpp            | 2 +-
 src/lightspeed/base/framework/serviceapp.cpp     | 2 +-
 src/lightspeed/base/linux/epollSelect.cpp        | 2 +-
 src/lightspeed/base/linux/linuxFdSelect.cpp      | 2 +-
 src/lightspeed/base/linux/linuxhttp.cpp          | 1 +
 src/lightspeed/base/linux/pollSelect.cpp         | 2 +-
 src/lightspeed/base/linux/seh.cpp                | 4 ++--
 src/lightspeed/base/memory/smallAlloc.h          | 2 +-
 src/lightspeed/base/streams/fileio_ifc.h         | 2 ++
 src/lightspeed/base/streams/httpc.tcc            | 3 +++
 src/lightspeed/base/streams/memfile.h            | 2 +-
 src/lightspeed/base/streams/utf.cpp              | 2 +-
 src/lightspeed/base/text/textFormat.h            | 2 +-
 src/lightspeed/mt/linux/thread.cpp               | 2 +-
 src/lightspeed/mt/rwlock.h                       | 2 +-
 src/lightspeed/utils/FilePath.h                  | 2 +-
 src/lightspeed/utils/eventdb.cpp                 | 2 +-
 src/lightspeed/utils/eventdb.h                   | 2 +-
 25 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/lightspeed/base/actions/msgQueue.cpp b/src/lightspeed/base/actions/msgQueue.cpp
index db64ba6..cab3278 100644
--- a/src/lightspeed/base/actions/msgQueue.cpp
+++ b/src/lightspeed/base/actions/msgQueue.cpp
@@ -38,19 +38,20 @@ MsgQueue::AbstractMsg *MsgQueue::AbstractMsg::isolate() {
 }
 
 MsgQueue::MsgQueue()
-:queueLen(0),curQueue(0),newMessages(0)
+:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
 ,rtAllocator(StdAlloc::getInstance()) {
 
 }
 
 MsgQueue::MsgQueue(IRuntimeAlloc &rtAllocator)
-:queueLen(0),curQueue(0),newMessages(0)
+:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
 ,rtAllocator(rtAllocator) {
 
 }
 
 MsgQueue::MsgQueue( const MsgQueue &other )
-	:rtAllocator(other.rtAllocator)
+	:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
+	,rtAllocator(other.rtAllocator)
 {
 
 }
diff --git a/src/lightspeed/base/actions/msgQueue.h b/src/lightspeed/base/actions/msgQueue.h
index d0966db..dc92c36 100644
--- a/src/lightspeed/base/actions/msgQueue.h
+++ b/src/lightspeed/base/actions/msgQueue.h
@@ -186,8 +186,8 @@ public:
 	*/
 	class FlushMsg: public NotifyMsg {
 	public:
-		FlushMsg() {}
-		FlushMsg(ISleepingObject &fw):NotifyMsg(fw) {}
+		FlushMsg():inqueue(0) {}
+		FlushMsg(ISleepingObject &fw):NotifyMsg(fw),inqueue(0) {}
 
 		virtual void queued(MsgQueue &msgQueue);
 		virtual void run() throw();
diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index c5e5f1d..252cbe3 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -25,6 +25,7 @@ ParallelExecutor::ParallelExecutor(natural maxThreads,natural maxWaitTimeout,
 	,threadIdleTimeout(threadIdleTimeout)
 	,curThreadCount(0)
 	,idleCount(0)
+	,callerNtf(0)
 	,curAction(0)
 	,waitPt(SyncPt::stack)
 	,orderStop(false)
@@ -40,6 +41,7 @@ ParallelExecutor::ParallelExecutor(const ParallelExecutor& other)
 ,threadIdleTimeout(other.threadIdleTimeout)
 ,curThreadCount(0)
 ,idleCount(0)
+,callerNtf(0)
 ,curAction(0)
 ,waitPt(SyncPt::stack)
 ,orderStop(false)
diff --git a/src/lightspeed/base/actions/queueExecutor.cpp b/src/lightspeed/base/actions/queueExecutor.cpp
index b2a18cb..2564db3 100644
--- a/src/lightspeed/base/actions/queueExecutor.cpp
+++ b/src/lightspeed/base/actions/queueExecutor.cpp
@@ -36,7 +36,7 @@ void QueueExecutor::execute(const IExecAction& action) {
 	wakeThread();
 }
 
-QueueExecutor::QueueExecutor():semaphore(1),runningMessages(0),threadsIn(0) {
+QueueExecutor::QueueExecutor():semaphore(1),finishFlag(false),runningMessages(0),threadsIn(0) {
 
 }
 
diff --git a/src/lightspeed/base/containers/avltreenode.tcc b/src/lightspeed/base/containers/avltreenode.tcc
index 4ec20be..9f96240 100644
--- a/src/lightspeed/base/containers/avltreenode.tcc
+++ b/src/lightspeed/base/containers/avltreenode.tcc
@@ -15,7 +15,7 @@ namespace LightSpeed {
 
 
 template<typename T, typename LinkT>
-AvlTreeNode<T, LinkT>::Iterator::Iterator(PNode root, Direction::Type dir) {
+AvlTreeNode<T, LinkT>::Iterator::Iterator(PNode root, Direction::Type dir):dir(0) {
 	if (setDir(dir))
 		initPath(root);
 	else
@@ -344,7 +344,7 @@ natural AvlTreeNode<T, LinkT>::Iterator::getPosition() const {
 
 template<typename T, typename LinkT>
 AvlTreeNode<T, LinkT>::Iterator::Iterator(AvlTreeNode<T, LinkT> *root, natural pos,
-		Direction::Type d ) {
+		Direction::Type d ):dir(0) {
 
 	setDir(d);
 
diff --git a/src/lightspeed/base/debug/LogProvider.cpp b/src/lightspeed/base/debug/LogProvider.cpp
index edfa363..dd444ee 100644
--- a/src/lightspeed/base/debug/LogProvider.cpp
+++ b/src/lightspeed/base/debug/LogProvider.cpp
@@ -72,7 +72,7 @@ void AbstractLogProvider::setFormat(const char* format) {
 	this->format = format;
 }
 
-AbstractLogProvider::AbstractLogProvider() {
+AbstractLogProvider::AbstractLogProvider():rotateCounter(0) {
 	memset(maxLevels,0xFF,sizeof(maxLevels));
 	format  = __logMsgFormat;
 	DbgLog::needRotateLogs(rotateCounter);
diff --git a/src/lightspeed/base/debug/dbglog.cpp b/src/lightspeed/base/debug/dbglog.cpp
index 75882a5..636af83 100644
--- a/src/lightspeed/base/debug/dbglog.cpp
+++ b/src/lightspeed/base/debug/dbglog.cpp
@@ -40,23 +40,23 @@ LogFormatter & LogFormatter::getInstance()
 
 
 
-LogFormatter::LogFormatter():output(getDefaultOutput()),level(0) {
+LogFormatter::LogFormatter():output(getDefaultOutput()),logType(ILogOutput::logDebug),level(0) {
 
 }
 
 LogFormatter::LogFormatter(const StringA &ident, ILogOutput &output)
-	:output(&output),level(0),ident(ident) {
+	:output(&output),logType(ILogOutput::logDebug),level(0),ident(ident) {
 
 
 }
 
 LogFormatter::LogFormatter( const StringA &ident )
-	:output(getDefaultOutput()),level(0),ident(ident) {
+	:output(getDefaultOutput()),logType(ILogOutput::logDebug),level(0),ident(ident) {
 
 }
 
 LogFormatter::LogFormatter( const LogFormatter &other )
-	:output(getDefaultOutput()),level(other.level)
+	:output(getDefaultOutput()),logType(other.logType),level(other.level)
 {
 }
 
diff --git a/src/lightspeed/base/debug/livelog.cpp b/src/lightspeed/base/debug/livelog.cpp
index 68dc74c..40c711e 100644
--- a/src/lightspeed/base/debug/livelog.cpp
+++ b/src/lightspeed/base/debug/livelog.cpp
@@ -12,7 +12,7 @@ namespace LightSpeed {
 
 
 LiveLogStream::LiveLogStream(
-		ILogOutput::LogType logLevel):logLevel(logLevel) {
+		ILogOutput::LogType logLevel):slottedIn(0),logLevel(logLevel) {
 }
 
 LiveLogStream::~LiveLogStream() {
diff --git a/src/lightspeed/base/framework/serviceapp.cpp b/src/lightspeed/base/framework/serviceapp.cpp
index 96b43a2..f34839d 100644
--- a/src/lightspeed/base/framework/serviceapp.cpp
+++ b/src/lightspeed/base/framework/serviceapp.cpp
@@ -51,7 +51,7 @@ namespace LightSpeed {
 
 
 	ServiceApp::ServiceApp(integer priority, natural timeout)
-		:Super(priority),timeout(timeout),instanceFileSize(0),restartDelaySec(0)
+		:Super(priority),timeout(timeout),stopCommand(false),instanceFileSize(0),restartDelaySec(0)
 	{}
 
 
diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index e70d467..58b7fe0 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -22,7 +22,7 @@ namespace LightSpeed {
 
 int pipeCloseOnExec(int *fds);
 
-EPollSelect::EPollSelect():timeoutHeap(timeoutMap) {
+EPollSelect::EPollSelect():timeoutHeap(timeoutMap),reason(0) {
 
 	epollfd = epoll_create1(EPOLL_CLOEXEC);
 	if (epollfd == -1)
diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index c3d1b1b..73b656d 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -60,7 +60,7 @@ natural safeSelect(integer socket, natural waitFor, natural timeout) {
 }
 
 
-LinuxFdSelect::LinuxFdSelect():curPos(naturalNull),cancelIn(-1),cancelOut(-1),pendingWakeup(-1) {
+LinuxFdSelect::LinuxFdSelect():curPos(naturalNull),cancelIn(-1),cancelOut(-1),reason(0),pendingWakeup(-1) {
 }
 
 LinuxFdSelect::~LinuxFdSelect() {
diff --git a/src/lightspeed/base/linux/linuxhttp.cpp b/src/lightspeed/base/linux/linuxhttp.cpp
index 2abb69c..54710c0 100644
--- a/src/lightspeed/base/linux/linuxhttp.cpp
+++ b/src/lightspeed/base/linux/linuxhttp.cpp
@@ -17,6 +17,7 @@ namespace LightSpeed {
 
 LinuxHttpStream::LinuxHttpStream(String url, const HTTPSettings& defaultSettins)
 :LinuxHTTPSettings(settings),url(url),settings(defaultSettins),state(stIdle),inputStream(nil),outputStream(nil),wgetProc("/usr/bin/wget")
+,statusCode(0)
 ,noredir(false),noexecpt(false)
 {
 }
diff --git a/src/lightspeed/base/linux/pollSelect.cpp b/src/lightspeed/base/linux/pollSelect.cpp
index ce6c594..fe17e23 100644
--- a/src/lightspeed/base/linux/pollSelect.cpp
+++ b/src/lightspeed/base/linux/pollSelect.cpp
@@ -22,7 +22,7 @@ namespace LightSpeed {
 
 int pipeCloseOnExec(int *fds);
 
-PollSelect::PollSelect():timeoutHeap(timeoutMap) {
+PollSelect::PollSelect():timeoutHeap(timeoutMap),reason(0) {
 
 
 	int pipe[2];
diff --git a/src/lightspeed/base/linux/seh.cpp b/src/lightspeed/base/linux/seh.cpp
index d88e4fb..9214453 100644
--- a/src/lightspeed/base/linux/seh.cpp
+++ b/src/lightspeed/base/linux/seh.cpp
@@ -36,14 +36,14 @@ void LinuxSEH::signalHandler(int sig, siginfo_t *i, void *p) {
 }
 
 
-LinuxSEH::LinuxSEH():swp(false) {
+LinuxSEH::LinuxSEH():swp(false),signum(0) {
 	prevjmpbuf = globjmpbuf;
 	globjmpbuf  = jmpbuf;
 	prevsignfn = globsigfn;
 	globsigfn = 0;
 }
 
-LinuxSEH::LinuxSEH(SignalFunction fn):swp(false) {
+LinuxSEH::LinuxSEH(SignalFunction fn):swp(false),signum(0) {
 	prevjmpbuf = globjmpbuf;
 	globjmpbuf  = jmpbuf;
 	prevsignfn = globsigfn;
diff --git a/src/lightspeed/base/memory/smallAlloc.h b/src/lightspeed/base/memory/smallAlloc.h
index 9fd4007..778d50b 100644
--- a/src/lightspeed/base/memory/smallAlloc.h
+++ b/src/lightspeed/base/memory/smallAlloc.h
@@ -83,7 +83,7 @@ namespace LightSpeed {
 				allocMem(count);
 			}
 
-			AllocatedMemory(const SmallAlloc<cnt> &alloc):alloc(alloc.alloc) {
+			AllocatedMemory(const SmallAlloc<cnt> &alloc):alloc(alloc.alloc),ptr(buffer),size(cnt) {
 
 			}
 
diff --git a/src/lightspeed/base/streams/fileio_ifc.h b/src/lightspeed/base/streams/fileio_ifc.h
index 3f0ee69..e3ad477 100644
--- a/src/lightspeed/base/streams/fileio_ifc.h
+++ b/src/lightspeed/base/streams/fileio_ifc.h
@@ -711,6 +711,8 @@ namespace LightSpeed {
     		virtual ~IFileInformation() {}
     	};
 
+    	IFolderIterator():type(file),extra(0),link(false),hidden(false) {}
+
     	///Contains source path or mask. It refers to parameter used with command openDirectory
     	ConstStrW source;
     	///name of entry currently processed
diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index a58fff1..c06d73a 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -226,8 +226,11 @@ namespace LightSpeed {
 		, chunkedRead(false)
 		, eof(true)
 		, readLen(0)
+		, statusCode(0)
 		, input(input)
+		, c(0)
 		, cloaded(false)
+		, readMode(rmDirect)
 	{
 	}
 	
diff --git a/src/lightspeed/base/streams/memfile.h b/src/lightspeed/base/streams/memfile.h
index 9e429ec..984b5da 100644
--- a/src/lightspeed/base/streams/memfile.h
+++ b/src/lightspeed/base/streams/memfile.h
@@ -35,7 +35,7 @@ namespace LightSpeed {
         virtual natural dataReady() const {return true;}
         virtual void closeOutput() {readOnly = true;}
 
-        MemFile():pos(0),readOnly(false) {}
+        MemFile():pos(0),readOnly(false),appendMode(false) {}
                 
 
         bool empty() const {return filebuffer.empty();}
diff --git a/src/lightspeed/base/streams/utf.cpp b/src/lightspeed/base/streams/utf.cpp
index 9984d42..38ca0a4 100644
--- a/src/lightspeed/base/streams/utf.cpp
+++ b/src/lightspeed/base/streams/utf.cpp
@@ -178,7 +178,7 @@ void Utf8ToWideConvert::write(const char& item) {
     updateState();
 }
 
-WideToUtf8Convert::WideToUtf8Convert() {
+WideToUtf8Convert::WideToUtf8Convert():rdpos(sizeof(outchars)) {
 }
 
 const char& WideToUtf8Convert::getNext() {
diff --git a/src/lightspeed/base/text/textFormat.h b/src/lightspeed/base/text/textFormat.h
index d66de8b..ae3655f 100644
--- a/src/lightspeed/base/text/textFormat.h
+++ b/src/lightspeed/base/text/textFormat.h
@@ -118,7 +118,7 @@ enum SimpleManipulators {
 
 		TextFormat():base(10),decimals(6),sciFormat(false),newline(DefaultNLString<T>()) {}
 		TextFormat(const Alloc &alloc):buff(alloc),patternBuffer(alloc)
-				,base(10),decimals(6),newline(DefaultNLString<T>()) {}
+				,base(10),decimals(6),sciFormat(false),newline(DefaultNLString<T>()) {}
 
 		TextFormat &operator()(ConstStringT<T> pattern);
 		TextFormat &operator()(const T *pattern);
diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index db0a0d9..3e8b628 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -65,7 +65,7 @@ public:
 	ITLSTable *tlstable;
 
 
-	ThreadContext() {
+	ThreadContext():owner(0),tlstable(0) {
 	}
 
 
diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index e180c50..5b031e2 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -50,7 +50,7 @@ public:
 
 
 	LevelLock():qtop(0),qbot(0),curLevel(0),useCount(0) {}
-	LevelLock(const LevelLock &) {}
+	LevelLock(const LevelLock &):qtop(0),qbot(0),curLevel(0),useCount(0) {}
 
 	///locks for level
 	/***
diff --git a/src/lightspeed/utils/FilePath.h b/src/lightspeed/utils/FilePath.h
index 4cd8963..4568d72 100644
--- a/src/lightspeed/utils/FilePath.h
+++ b/src/lightspeed/utils/FilePath.h
@@ -234,7 +234,7 @@ template<const FilePathConfig *config>
 class FilePathT: public String {
 public:
 
-	FilePathT() {}
+	FilePathT():pathFileSep(naturalNull) {}
 	explicit FilePathT(String absolutePath);
 	explicit FilePathT(String absolutePath, bool isDirectory);
 
diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index df9edaf..bb0d5b3 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -417,7 +417,7 @@ void EventLog::setMaxUpdateSpeed(natural maxSpeedInBytes) {
 
 
 
-ReplicationListener::ReplicationListener(IReplicationOutput& out):out(out) {
+ReplicationListener::ReplicationListener(IReplicationOutput& out):out(out),timeOffset(0),lastEventTime(0) {
 }
 
 void ReplicationListener::bind(EventLog& db, EventLog::FileOffset scanFrom,
diff --git a/src/lightspeed/utils/eventdb.h b/src/lightspeed/utils/eventdb.h
index 19e53cf..572a312 100644
--- a/src/lightspeed/utils/eventdb.h
+++ b/src/lightspeed/utils/eventdb.h
@@ -315,7 +315,7 @@ public:
 	typedef RndFileBase::FileOffset FileOffset;
 
 
-	EventLog():slaveMode(false),nextCellId(1) {}
+	EventLog():slaveMode(false),nextCellId(1),writePos(0) {}
 
 	void addListener(IUpdateListener *listener);
 	///Adds listener a perform synchronization
-- 
2.43.0


From 5f7b38ddd61f2b03f5a2015a60e4143e600927ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 23/62] fix: shared members accessed without the lock that
 guards them

---
 src/lightspeed/base/actions/parallelExecutor.cpp | 1 +
 src/lightspeed/base/actions/queueExecutor.cpp    | 5 +++--
 src/lightspeed/base/framework/TCPServer.cpp      | 1 +
 src/lightspeed/mt/linux/thread.cpp               | 3 ++-
 src/lightspeed/utils/eventdb.cpp                 | 2 ++
 5 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index 252cbe3..06da8f0 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -338,6 +338,7 @@ natural ParallelExecutor::getMaxThreadCount() {
 }
 
 void ParallelExecutor::spawnThreads(natural count) {
+	Synchronized<FastLock> _(executeLock);
 	while ((natural)curThreadCount < maxThreads && count) {
 		startNewThread();
 		count--;
diff --git a/src/lightspeed/base/actions/queueExecutor.cpp b/src/lightspeed/base/actions/queueExecutor.cpp
index 2564db3..424fbd4 100644
--- a/src/lightspeed/base/actions/queueExecutor.cpp
+++ b/src/lightspeed/base/actions/queueExecutor.cpp
@@ -104,14 +104,14 @@ void QueueExecutor::Server::serve() {
 					SyncReleased<FastLock> _(owner->lock);
 					//perform action (in case of exception, continue after catch
 					(*action)();
-					//decrease running actions
-					owner->runningMessages--;
 				} catch (...) {
 					//in case of exception, decrease running actions
 					owner->runningMessages--;
 					//throw above
 					throw;
 				}
+				//decrease running actions
+				owner->runningMessages--;
 				//if finish reported or thread will finish, break
 				if (owner->finishFlag || Thread::canFinish()) break;
 			}
@@ -183,6 +183,7 @@ bool QueueExecutor::isRunning() const {
 }
 
 void QueueExecutor::reset() {
+	Synchronized<FastLock> _(lock);
 	//reset finish flag
 	finishFlag = false;
 }
diff --git a/src/lightspeed/base/framework/TCPServer.cpp b/src/lightspeed/base/framework/TCPServer.cpp
index 3726a04..845ed1f 100644
--- a/src/lightspeed/base/framework/TCPServer.cpp
+++ b/src/lightspeed/base/framework/TCPServer.cpp
@@ -375,6 +375,7 @@ natural TCPServer::addPort(natural port, bool bindLocalOnly,
 }
 
 natural TCPServer::addPort(NetworkStreamSource tcpsource) {
+	Sync _(lock);
 	natural id = otherPorts.length()+1;
 	OtherPortAccept *k = new OtherPortAccept(*this,id,tcpsource);
 	otherPorts.add(k);
diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 3e8b628..f35990f 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -479,13 +479,14 @@ public:
 
     }
     virtual natural getMaxIndex() const {
+    	Synchronized<FastLock> _(lock);
     	return allocator.getMaxIndex();
     }
 
     MTTLSAllocator():allocator(ITLSAllocator::getInstance()) {}
 
 protected:
-    FastLock lock;
+    mutable FastLock lock;
 	ITLSAllocator &allocator;
 
 };
diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index bb0d5b3..98eeb11 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -57,6 +57,7 @@ void EventLog::addListenerAndSync(IUpdateListener* listener) {
 }
 
 void EventLog::removeListener(IUpdateListener* listener) {
+	Sync _(lock);
 	for (natural i = 0; i < listeners.length(); i++) {
 		if (listeners[i] == listener) {
 			listeners.erase(i);
@@ -122,6 +123,7 @@ natural EventLog::writeBlock(SeqFileOutput toStream,
 }
 
 EventLog::WriteState2 EventLog::initReplication() {
+	Sync _(lock);
 	slaveMode = true;
 	return WriteState2(writeState,writePos/blockSize);
 }
-- 
2.43.0


From 93d9e61fcdbcaba7bdae4cb59e89a60742b2be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 24/62] fix: dispatcher stopped after the first action because
 the queue was never popped

---
 src/lightspeed/mt/dispatcher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index 68610df..ac6c149 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -102,8 +102,9 @@ namespace LightSpeed {
 	IDispatcher::AbstractAction * Dispatcher::getNextAction()
 	{
 		if (queue.empty()) return 0;
-		AllocPointer<AbstractAction> &aa = queue.top();
-		return aa.detach();
+		AbstractAction *aa = queue.top().detach();
+		queue.pop();
+		return aa;
 	}
 
 	void Dispatcher::rejectQueue()
-- 
2.43.0


From 0348892a5cedf66fbfcc83bf3a0858df43edecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 25/62] fix: dispatcher rejected actions while holding its lock

---
 src/lightspeed/mt/dispatcher.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index ac6c149..a4811f1 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -111,7 +111,12 @@ namespace LightSpeed {
 	{
 		AllocPointer<AbstractAction> aa(getNextAction());
 		while (aa != nil) {
-			aa->reject();
+			{
+				//actions are rejected without holding the lock
+				SyncReleased<FastLock> _(lock);
+				aa->reject();
+				aa = nil;
+			}
 			aa = getNextAction();
 		}
 	}
-- 
2.43.0


From e1741bd50c9135897f7c39665f6e127e074f3236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 26/62] fix: reading a file path or the text of an exception
 was not safe from several threads

---
 src/lightspeed/base/exceptions/exception.cpp | 9 ++++++++-
 src/lightspeed/utils/FilePath.h              | 6 ++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/exceptions/exception.cpp b/src/lightspeed/base/exceptions/exception.cpp
index b885e2e..f31ff95 100644
--- a/src/lightspeed/base/exceptions/exception.cpp
+++ b/src/lightspeed/base/exceptions/exception.cpp
@@ -13,6 +13,8 @@
 #include "exceptionMsg.tcc"
 #include "../../base/framework/iapp.h"
 #include "../../base/sync/threadVar.h"
+#include "../../mt/fastlock.h"
+#include "../../base/sync/synchronize.h"
 
 
 
@@ -20,6 +22,8 @@ namespace LightSpeed {
 
 
 static const natural exceptionSmallBuffer = 2048;
+///guards the cached text of exceptions, which can be shared by threads
+static FastLock whatMsgLock;
 
 void firstChanceException(const Exception *exception) ;
 void exceptionDestroyed(const Exception *exception) ;
@@ -56,7 +60,10 @@ const char *Exception::what() const throw ()
 				tmp.getBase()[i] = amsg[i];
 			}
 			tmp.getBase()[amsg.length()] = 0;
-			tmp.swap(whatMsg);
+			//the text which has been returned to other thread must stay
+			Synchronized<FastLock> _(whatMsgLock);
+			if (whatMsg.getSize() == 0)
+				tmp.swap(whatMsg);
 		} catch (...) {
 			//message cannot be built - this function must not throw
 			return "Exception (description is not available)";
diff --git a/src/lightspeed/utils/FilePath.h b/src/lightspeed/utils/FilePath.h
index 4568d72..850d0ff 100644
--- a/src/lightspeed/utils/FilePath.h
+++ b/src/lightspeed/utils/FilePath.h
@@ -351,8 +351,10 @@ template<const FilePathConfig* config>
 inline ConstStrW FilePathT<config>::getPath() const {
 	if (tail(config->parentDir.length()) == config->parentDir) return *this;
 	if (pathFileSep == naturalNull) {
-		pathFileSep = this->findLast(config->dirSeparator);
-		if (pathFileSep == naturalNull) return ConstStrW();
+		//the object may be read by other threads, so the position is not stored here
+		natural sep = this->findLast(config->dirSeparator);
+		if (sep == naturalNull) return ConstStrW();
+		return this->head(sep);
 	}
 	return this->head(pathFileSep);
 }
-- 
2.43.0


From 957eb99983c66bb245e47fc1206ffbcbdeb51ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 27/62] fix: ParallelExecutor wakes idle workers on finish and
 the caller when the action cannot be cloned

---
 .../base/actions/parallelExecutor.cpp         | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index 06da8f0..4fffa98 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -200,20 +200,27 @@ void ParallelExecutor::Worker::runAction(const IExecAction *action) {
 	void *buff = alloca(sz);
 	//create allocator
 	AllocInBuffer abuff(buff,sz);
-	//clone action into the buffer in the stack
-	AllocPointer<IExecAction> a(action->clone(abuff));
-	//store last exception
-	//notify caller, action taken, worker starting to work
-	owner.callerNtf->wakeUp(0);
+	//set once the caller has been notified
+	bool notified = false;
 	try {
+		//clone action into the buffer in the stack
+		AllocPointer<IExecAction> a(action->clone(abuff));
+		//store last exception
+		//notify caller, action taken, worker starting to work
+		notified = true;
+		owner.callerNtf->wakeUp(0);
 		const IExecAction &proc = *a;
 		//execute action
 		proc();
 	} catch (Exception &x) {
+		//the action cannot be cloned, don't let the caller wait forever
+		if (!notified) owner.callerNtf->wakeUp(0);
 		IApp::threadException(x);
 	} catch (std::exception &e) {
+		if (!notified) owner.callerNtf->wakeUp(0);
 		IApp::threadException(StdException(THISLOCATION, e));
 	} catch (...) {
+		if (!notified) owner.callerNtf->wakeUp(0);
 		IApp::threadException(UnknownException(THISLOCATION));
 	}
 
@@ -419,6 +426,8 @@ inline bool ParallelExecutor::Worker::stop(const Timeout& tm) {
 
 void ParallelExecutor::finish() {
 	orderStop = true;
+	//wake idle threads, they have to see the order
+	waitPt.notifyAll();
 }
 
 } /* namespace LightSpeed */
-- 
2.43.0


From d2f06c9c8595ba06a1f22001c75fae3159fd688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 28/62] fix: starting a thread must not block forever when a
 thread-init hook throws

---
 src/lightspeed/mt/linux/thread.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index f35990f..25676e0 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -208,7 +208,13 @@ void *ThreadContext::bootstrap(void * data) {
 
 		//start thread
 		try {
-			AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
+			try {
+				AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
+			} catch (...) {
+				//the thread ends, but the caller must not wait forever
+				bs->unblockCaller.wakeUp();
+				throw;
+			}
 
 			ctx->owner->getJoinObject().close();
 			//unblock caller - bootstrap data vanished
-- 
2.43.0


From a02297141c12981179bf3fd0d76180385f45cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 29/62] fix: open the join gate when a thread cannot be started

---
 src/lightspeed/mt/linux/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 25676e0..2962fc8 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -377,6 +377,8 @@ void Thread::start(const IThreadFunction &fn, natural stackSize) {
 		pthread_attr_destroy(&attr);
 		//thread creation failed. We must remove fake context
 		threadContext = 0;
+		//no thread runs, release anybody who waits for it
+		joinObject.open();
 		//continue exception
 		throw;
 	}
-- 
2.43.0


From 8e9d4f04276f934c5dfe0aeefb8f94acbe47c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 30/62] fix: waiting for a child process blocked only after the
 awaited event

---
 src/lightspeed/mt/linux/process.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index eb66d0f..f9ecd6f 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -686,8 +686,15 @@ namespace LightSpeed {
 					SyncPt::Slot s;
 					//add slot to the sync point
 					syncPt.add(s);
+					//the thread which watches signals could leave before the slot was added
+					bool noWatcher = lock.tryLock();
+					if (noWatcher) {
+						syncPt.remove(s);
+						lock.unlock();
+						syncPt.notifyOne();
+					}
 					//start waiting if number did not changed
-					if (readAcquire(&eventNumber) != myEN) syncPt.wait(s,wtm);
+					else if (readAcquire(&eventNumber) == myEN) syncPt.wait(s,wtm);
 					//remove slot from syncPt (may not be signaled)
 					syncPt.remove(s);
 					//check event number again
@@ -701,7 +708,7 @@ namespace LightSpeed {
 					}
 
 					//if slot is not signaled, exit with unsuccessful attempt
-					if (!s) return false;
+					if (!s && !noWatcher) return false;
 					//otherwise, repeat whole cycle (may change to enter guard section)
 				}
 
-- 
2.43.0


From 88ca36d31d4c57100a7be676481fa23f8a052299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 31/62] fix: Mutex::lockAsync stores the new owner where unlock
 looks for it

---
 src/lightspeed/mt/mutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/mutex.cpp b/src/lightspeed/mt/mutex.cpp
index 6016ec9..2637a83 100644
--- a/src/lightspeed/mt/mutex.cpp
+++ b/src/lightspeed/mt/mutex.cpp
@@ -110,7 +110,7 @@ bool Mutex::lockAsync( WaitPt::Slot &slot )
 			return true;
 		}
 		//set thread id - new owner
-		slot.threadId = me;
+		slot.value.threadId = me;
 		//register slot
 		waitPt.add(slot);
 		//test again for ownership - may be alread released
-- 
2.43.0


From c6e489a01d90a9289346392317342bed29c50cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 32/62] fix: keep the watcher lock balanced while waiting for a
 child process

---
 src/lightspeed/mt/linux/process.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index f9ecd6f..c4df308 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -689,8 +689,8 @@ namespace LightSpeed {
 					//the thread which watches signals could leave before the slot was added
 					bool noWatcher = lock.tryLock();
 					if (noWatcher) {
-						syncPt.remove(s);
 						lock.unlock();
+						syncPt.remove(s);
 						syncPt.notifyOne();
 					}
 					//start waiting if number did not changed
-- 
2.43.0


From c3c13a2f68e0409954e9ce629351eeb21cc01e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 33/62] fix: LevelLock keeps its queue intact and lets go of a
 slot once signaled

---
 src/lightspeed/mt/rwlock.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index 5b031e2..f7858f8 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -119,8 +119,10 @@ public:
 				if (q == &s) qtop = q->next;
 				else {
 					while (q && q->next != &s) q = q ->next;
-					if (q->next == &s) q->next =  s.next;
+					if (q != 0) q->next =  s.next;
 				}
+				//the last slot has been removed
+				if (qbot == &s) qbot = qtop == 0?0:q;
 			}
 		}
 		if (s.signaled) {
@@ -173,12 +175,16 @@ public:
 		curLevel = s->level;
 		//remove from the queue
 		qtop = qtop->next;
+		//the queue is empty now
+		if (qtop == 0) qbot = 0;
+		//slot can disappear once it is signaled
+		ISleepingObject *ntf = s->notify;
 		//set use count 
 		useCount++;
 		//mark slot signaled
 		s->signaled = true;
 		//wakeup thread
-		s->notify->wakeUp();
+		ntf->wakeUp();
 	}
 
 	atomicValue getLevel() const {
-- 
2.43.0


From 48a834567e5a3ac6ff66444e33ed5cb295a295ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 34/62] fix: a future does not touch the waiting observer once
 its result is set

---
 src/lightspeed/base/actions/promise.tcc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index a51c26e..ffa3530 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -176,14 +176,18 @@ const T & Future<T>::wait( const Timeout &tm /*= Timeout()*/ ) const
 
 		virtual void resolve( const T &result ) throw()
 		{
+			//observer can disappear once the result is set
+			ISleepingObject *t = thread;
 			this->result = &result;
-			thread->wakeUp();
+			t->wakeUp();
 		}
 
 		virtual void resolve(const PException &e ) throw()
 		{
+			//observer can disappear once the exception is set
+			ISleepingObject *t = thread;
 			this->exception = e.getMT();
-			thread->wakeUp();
+			t->wakeUp();
 		}		
 
 		bool resolved() const {
-- 
2.43.0


From 732175c3f90fbd6e3349754cf69ee7ebd110a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 35/62] fix: a semaphore does not leave the slot of a timed out
 waiter queued

---
 src/lightspeed/mt/semaphore.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/semaphore.h b/src/lightspeed/mt/semaphore.h
index 634e98d..8d93022 100644
--- a/src/lightspeed/mt/semaphore.h
+++ b/src/lightspeed/mt/semaphore.h
@@ -36,7 +36,8 @@ namespace LightSpeed {
 			Slot slot;
 			lockAsync(slot);
 			if (!SyncPt::wait(slot,nil,md)) {
-				return false;
+				//slot must not stay in the queue, but it could be signaled meanwhile
+				return !SyncPt::remove(slot);
 			} else {
 				return true;
 			}
@@ -47,7 +48,8 @@ namespace LightSpeed {
 			Slot slot;
 			lockAsync(slot);
 			if (!SyncPt::wait(slot,tm,md)) {
-				return false;
+				//slot must not stay in the queue, but it could be signaled meanwhile
+				return !SyncPt::remove(slot);
 			} else {
 				return true;
 			}
@@ -58,7 +60,8 @@ namespace LightSpeed {
 			Slot slot;
 			lockAsync(slot);
 			if (!SyncPt::wait(slot,tm)) {
-				return false;
+				//slot must not stay in the queue, but it could be signaled meanwhile
+				return !SyncPt::remove(slot);
 			} else {
 				return true;
 			}
-- 
2.43.0


From d0517da48a4fa6de047dea7227ea2dda3ad86d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 36/62] fix: retract a published action when execute is left by
 an exception

---
 .../base/actions/parallelExecutor.cpp          | 18 ++++++++++++++++++
 src/lightspeed/base/actions/parallelExecutor.h |  1 +
 2 files changed, 19 insertions(+)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index 4fffa98..b91af99 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -108,6 +108,22 @@ void ParallelExecutor::cleanUp() {
 }
 
 
+///takes the action back when execute() is left by an exception
+class ParallelExecutor::PublishedAction {
+public:
+	PublishedAction(ParallelExecutor &owner, Notifier &ntf):owner(owner),ntf(ntf) {}
+	~PublishedAction() {
+		//the action has been delivered
+		if (owner.callerNtf == 0) return;
+		//a worker which already took the action must not find the notifier destroyed
+		if (lockExchangePtr<const IExecAction>(&owner.curAction,0) == 0) ntf.wait(naturalNull,false);
+		writeReleasePtr<ISleepingObject>(&owner.callerNtf,0);
+	}
+protected:
+	ParallelExecutor &owner;
+	Notifier &ntf;
+};
+
 void ParallelExecutor::execute(const IExecAction &action) {
 
 	Synchronized<FastLock> _(executeLock);
@@ -118,6 +134,8 @@ void ParallelExecutor::execute(const IExecAction &action) {
 	Notifier ntf;
 	//register notifier
 	writeReleasePtr<ISleepingObject>(&callerNtf,&ntf);
+	//the action and the notifier must not stay published when an exception is thrown
+	PublishedAction published(*this,ntf);
 	//write new action
 	writeReleasePtr<const IExecAction>(&curAction,&action);
 
diff --git a/src/lightspeed/base/actions/parallelExecutor.h b/src/lightspeed/base/actions/parallelExecutor.h
index 3bf9df3..90d3087 100644
--- a/src/lightspeed/base/actions/parallelExecutor.h
+++ b/src/lightspeed/base/actions/parallelExecutor.h
@@ -172,6 +172,7 @@ protected:
 
 	class Worker;
 	friend class Worker;
+	class PublishedAction;
 
 
 	Pointer<Worker> topWorker;
-- 
2.43.0


From 8f70606ef8bc5be5bff355fb13d30dc660d324b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 37/62] fix: Dispatcher does not lose actions which cannot be
 stored or are never run

---
 src/lightspeed/mt/dispatcher.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index a4811f1..2dca54b 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -14,13 +14,19 @@ namespace LightSpeed {
 	Dispatcher::~Dispatcher()
 	{
 		join();
+		//nobody is going to run the actions which are still in the queue
+		Synchronized<FastLock> _(lock);
+		rejectQueue();
 	}
 
 	void Dispatcher::dispatch(AbstractAction *action)
 	{
+		//destroys the action when it cannot be stored
+		PAction guard(action);
 		Synchronized<FastLock> _(lock);
 		bool firstMsg = queue.empty();
 		queue.push(Constructor1<PAction, AbstractAction *>(action));
+		guard.detach();
 		if (firstMsg) onNewMessage();
 	}
 
-- 
2.43.0


From 143cc64721b67c7ee94ec38469f2b66470d103c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 38/62] fix: a queued APC could be lost and the queue never
 ended

---
 src/lightspeed/mt/apc.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/apc.h b/src/lightspeed/mt/apc.h
index 44a573d..08b40f7 100644
--- a/src/lightspeed/mt/apc.h
+++ b/src/lightspeed/mt/apc.h
@@ -69,7 +69,7 @@ namespace LightSpeed {
 		virtual ~IAPCServer() {}
 	protected:
 		void setNext(AbstractAPC *p,AbstractAPC *q) {p->nextAPC = q;}
-		AbstractAPC *getNext(AbstractAPC *p) const {return p;}
+		AbstractAPC *getNext(AbstractAPC *p) const {return p->nextAPC;}
 	};
 
 
@@ -90,10 +90,11 @@ namespace LightSpeed {
 
 
 		virtual bool execute(AbstractAPC *apc) {
-			AbstractAPC *n = queue;
+			AbstractAPC *n;
 			do {
+				n = queue;
 				setNext(apc,n);
-			} while (lockCompareExchangePtr(&queue,n,apc));
+			} while (lockCompareExchangePtr(&queue,n,apc) != n);
 			return n == 0;
 		}
 
-- 
2.43.0


From feda566f98d7b3735c991d690cd0791195d11f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 39/62] fix: a resource pool could exceed its limit when two
 threads acquired at once

---
 .../base/containers/resourcePool.cpp          | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/base/containers/resourcePool.cpp b/src/lightspeed/base/containers/resourcePool.cpp
index 27dd54e..ea0fabc 100644
--- a/src/lightspeed/base/containers/resourcePool.cpp
+++ b/src/lightspeed/base/containers/resourcePool.cpp
@@ -74,16 +74,24 @@ AbstractResource *AbstractResourcePool::acquire() {
 		if (pool == 0) {
 			//if still space for new resource
 			if (readAcquire(&curLimit) > 0) {
+				//decrease limit - before the queue is unlocked, otherwise other thread can use the same place
+				lockDec(curLimit);
 				//unlock queue - don't need it anymore
 				SyncReleased<FastLock> __(SyncPt::queueLock);
-				//create new resource
-				AbstractResource *a = createResource();
-				//set resource timeout
-				a->setTimeout(resTimeout);
-				//decrease limit
-				lockDec(curLimit);
-				//this is new resource
-				return a;
+				try {
+					//create new resource
+					AbstractResource *a = createResource();
+					//set resource timeout
+					a->setTimeout(resTimeout);
+					//this is new resource
+					return a;
+				} catch (...) {
+					//place is free again
+					lockInc(curLimit);
+					//somebody else can try it
+					SyncPt::notifyOne();
+					throw;
+				}
 			}
 			//install slot
 			SyncPt::Slot s;
@@ -103,6 +111,8 @@ AbstractResource *AbstractResourcePool::acquire() {
 				}
 				//retrieve resource from the slot
 				out = (AbstractResource *)s.payload;
+				//woken without resource - try again
+				if (out == 0) continue;
 			}
 
 		} else {
-- 
2.43.0


From fca4a59b6266039820a24154e0e92203c4749e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 40/62] fix: wide text of an enumerated JSON node was never
 stored and null was dereferenced

---
 src/lightspeed/utils/json/binjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index 09cb6bc..d0be930 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -170,7 +170,7 @@ public:
 	virtual ConstStrW getString() const {
 		if (wide) return *wide;
 		String *z = new String(text);
-		if (lockCompareExchangePtr<String>(&wide,z,0) != 0) {
+		if (lockCompareExchangePtr<String>(&wide,0,z) != 0) {
 			delete z;
 		}
 		return *wide;
-- 
2.43.0


From 14befda024b2e4c215e38741463f3175d1d121ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 41/62] fix: assigning a counted pointer to itself leaked the
 object, attach and create destroyed a shared one

---
 src/lightspeed/base/memory/refCntPtr.h | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/lightspeed/base/memory/refCntPtr.h b/src/lightspeed/base/memory/refCntPtr.h
index 15b7cd7..710f13b 100644
--- a/src/lightspeed/base/memory/refCntPtr.h
+++ b/src/lightspeed/base/memory/refCntPtr.h
@@ -148,25 +148,23 @@ namespace LightSpeed {
          * @return this         
          */
         RefCntPtr &operator=(const RefCntPtr &other) {
-        	Alloc::operator=(other);
-        	other.manualAddRef();
-        	releasePtr();
-        	this->ptr = other.ptr;
+        	//other can be this object, or it can be owned by the object released here
+        	RefCntPtr tmp(other);
+        	Super::swap(tmp);
             return *this;
         }
 
 		//C++x11
 #ifdef LIGHTSPEED_ENABLE_CPP11
 
-		RefCntPtr(RefCntPtr &&other) {
-			this->ptr = other.ptr;
+		RefCntPtr(RefCntPtr &&other)
+			:Super(other.get(),(const Alloc &)other) {
 			other.ptr = 0;
 		}
 		RefCntPtr &operator=(RefCntPtr &&other) {
 			if (this != &other) {	
-				releasePtr();
-				this->ptr = other.ptr;
-				other.ptr = 0;
+				RefCntPtr tmp(static_cast<RefCntPtr &&>(other));
+				Super::swap(tmp);
 			}
 			return *this;
 		}
@@ -252,8 +250,9 @@ namespace LightSpeed {
 
 		///Attaches object to the pointer
 		void attach(T *ptr) {
+		    if (ptr) ptr->addRef();
+		    releasePtr();
 		    Super::attach(ptr);
-		    addRefPtr();
 		}
 
 		///Serializing support
@@ -269,12 +268,18 @@ namespace LightSpeed {
 		}
 
 		///Creates new instance using current factory
-		void create() {Super::create();addRefPtr();}
+		void create() {releasePtr();Super::create();addRefPtr();}
 		///Creates new instance using current factory
 		/**
 		 * @param x source instance
 		 */
-		void create(const T &x) {Super::create(x);addRefPtr();}
+		void create(const T &x) {
+			Alloc &alloc = *this;
+			T *p = alloc.createInstance(x);
+			p->addRef();
+			releasePtr();
+			this->ptr = p;
+		}
 
 
 		void clear() {
-- 
2.43.0


From 82b2e9d9d3c024dfd497c2f8b5b53be3b2b40cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 42/62] fix: an assigned promise did not count its reference to
 the result

---
 src/lightspeed/base/actions/promise.h   |  3 +++
 src/lightspeed/base/actions/promise.tcc | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/lightspeed/base/actions/promise.h b/src/lightspeed/base/actions/promise.h
index d74a058..756ca51 100644
--- a/src/lightspeed/base/actions/promise.h
+++ b/src/lightspeed/base/actions/promise.h
@@ -991,6 +991,9 @@ public:
 
 	Promise(const Future<T> &future);
 
+	///releases the current promise and shares the other one
+	Promise &operator=(const Promise &other);
+
 	///destruct the result clone
 	/** When last instance of the result is destroyed, promise is resolved with an exception */
 	~Promise();
diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index ffa3530..b092d04 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -601,6 +601,16 @@ Promise<T>::Promise(const Promise &other)
 
 
 
+template<typename T>
+Promise<T> &Promise<T>::operator=(const Promise &other)
+{
+	RefCntPtr<typename Future<T>::Value> old(ptr);
+	other.ptr->addResultRef();
+	ptr = other.ptr;
+	old->releaseResultRef();
+	return *this;
+}
+
 template<typename T>
 inline Future<T>::Value::~Value() {
 	lock.lock();
-- 
2.43.0


From ba7830c0c043fd10e595a0cf36c62f9128c47716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 43/62] fix: assigning a locked weak reference did not move its
 lock

---
 src/lightspeed/base/memory/weakref.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lightspeed/base/memory/weakref.h b/src/lightspeed/base/memory/weakref.h
index e29bf3b..5c277e2 100644
--- a/src/lightspeed/base/memory/weakref.h
+++ b/src/lightspeed/base/memory/weakref.h
@@ -293,6 +293,16 @@ public:
 	WeakRefPtr(const WeakRefPtr &other)
 		:Pointer<T>(other.me.lockInternal()),me(other.me) {}
 
+	///unlocks the current reference and locks the other one
+	WeakRefPtr &operator=(const WeakRefPtr &other) {
+		WeakRef<T> old(me);
+		T *p = other.me.lockInternal();
+		me = other.me;
+		this->ptr = p;
+		old.unlockInternal();
+		return *this;
+	}
+
 	~WeakRefPtr() {me.unlockInternal();}
 protected:
 	WeakRef<T> me;
-- 
2.43.0


From 5b80c7015f8576169806797d33e6991759155993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 44/62] fix: assigning a shared resource to itself removed it
 from its ring

---
 src/lightspeed/base/memory/sharedResource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/memory/sharedResource.h b/src/lightspeed/base/memory/sharedResource.h
index 11aaa27..7a99969 100644
--- a/src/lightspeed/base/memory/sharedResource.h
+++ b/src/lightspeed/base/memory/sharedResource.h
@@ -84,6 +84,7 @@ namespace LightSpeed {
          * @note this operation has complexity: O(n) for remove from existing ring, O(1) otherwise
          */
         SharedResource &operator=(const SharedResource &other) {        	
+            if (&other == this) return *this;
             removeItself();
             next = other.next;
             other.next = this;
-- 
2.43.0


From ff0492a712bc974178465e338ed7f8ab4414f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 45/62] fix: an array assigned to itself lost its items

---
 src/lightspeed/base/containers/autoArray.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index abbf795..ece3326 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -226,6 +226,7 @@ AutoArrayT<T,Alloc>::AutoArrayT(const AutoArrayT &arr)
 
 template<typename T, typename Alloc>
 AutoArrayT<T,Alloc> &AutoArrayT<T,Alloc>::operator=(const AutoArrayT &arr) {
+    if (&arr == this) return *this;
     clear();
     natural sz = arr.length();
     if (sz > 0) {
-- 
2.43.0


From 434a6b7df3bfb3b768410dc13bfa7ab2066b9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 46/62] fix: a tree assigned to itself lost its items

---
 src/lightspeed/base/containers/avltree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index e3784ae..5933d9d 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -128,6 +128,7 @@ namespace LightSpeed {
 		}
 
 		AVLTree &operator=(const AVLTree &other) {
+			if (&other == this) return *this;
 			clear();
 			insert(other);
 			return *this;
-- 
2.43.0


From 7c8b12199f1bdfbb7df196ca00ac793e68d2589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 47/62] fix: a linked list assigned to itself lost its items

---
 src/lightspeed/base/containers/linkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 1d405ac..3ca7a7c 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -124,6 +124,7 @@ namespace LightSpeed {
 
 		///assignment operator
 		LinkedList &operator=(const LinkedList &other) {
+			if (&other == this) return *this;
 			clear();
 			for (Iterator i = other.getFwIter();i.hasItems();)
 				add(i.getNext());
-- 
2.43.0


From 9c66cc543b7b5055c15f9eee1c6e71e421e64a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 48/62] fix: swapped linked lists kept their allocators, items
 were released to a foreign one

---
 src/lightspeed/base/containers/linkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 3ca7a7c..5f80a45 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -120,6 +120,7 @@ namespace LightSpeed {
 		void swap(LinkedList &other) {
 			std::swap(first,other.first);
 			std::swap(last,other.last);
+			std::swap(fact,other.fact);
 		}
 
 		///assignment operator
-- 
2.43.0


From 6cc19e5e32cab42bee69bb0a547542fad969cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 49/62] fix: a copy of a linked list had its items in reversed
 order

---
 src/lightspeed/base/containers/linkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 5f80a45..33285c3 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -107,7 +107,7 @@ namespace LightSpeed {
 		 */
 		LinkedList(const LinkedList &other):first(0),last(0),fact(other.fact) {
 			for (Iterator i = other.getFwIter();i.hasItems();)
-				insertFirst(i.getNext());
+				add(i.getNext());
 		}
 
 		LinkedList(MoveConstruct, LinkedList &other)
-- 
2.43.0


From aff7ee53922d56b3b286687c786b658e8f0dfcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 50/62] fix: assignment of a B-tree released its nodes before
 it had copied the other tree, which can be the same

---
 src/lightspeed/base/containers/btree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index 0890bfa..f8e6cbf 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -195,8 +195,8 @@ public:
 
   BTree<T,Compare> &operator=(const BTree &other)
   {
-    delete _root;
     BTree<T,Compare> copy(other);
+    delete _root;
     _root=copy._root;
     copy._root=0;
     _order=copy._order;
-- 
2.43.0


From 8dc8173aae926779e6a5badfc6c263c84d1416ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 51/62] fix: assignment of a network request ignored the
 assigned request

---
 src/lightspeed/base/streams/netio.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/netio.h b/src/lightspeed/base/streams/netio.h
index 5d59388..c0dd755 100644
--- a/src/lightspeed/base/streams/netio.h
+++ b/src/lightspeed/base/streams/netio.h
@@ -293,8 +293,8 @@ namespace LightSpeed {
 				this->reqNotify = 0;
 			}
 
-			Request &operator=(const Request &) {
-				return SharedResource::makeAssign(*this);
+			Request &operator=(const Request &other) {
+				return SharedResource::makeAssign(other);
 			}
 
 			///defines timeout for waiting
-- 
2.43.0


From d434e398419ceff88dc52709c6bca0b14427bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 52/62] fix: assignment of a job did not take the reason of its
 wake up

---
 src/lightspeed/base/actions/job.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/actions/job.cpp b/src/lightspeed/base/actions/job.cpp
index 60e7d6f..5164834 100644
--- a/src/lightspeed/base/actions/job.cpp
+++ b/src/lightspeed/base/actions/job.cpp
@@ -30,6 +30,7 @@ Job& Job::operator =(const Job& source) {
 		ntf_so  = source.ntf_so;
 		ntf_exec = source.ntf_exec;
 		state = source.state;
+		reason = source.reason;
 	}
 	return *this;
 }
-- 
2.43.0


From 225e35dace084e249ed240aff1a82d06d7574e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 53/62] fix: a moved allocated pointer constructed its
 allocator from itself instead of from the source

---
 src/lightspeed/base/memory/allocPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/allocPointer.h b/src/lightspeed/base/memory/allocPointer.h
index 2ce5e45..7b63451 100644
--- a/src/lightspeed/base/memory/allocPointer.h
+++ b/src/lightspeed/base/memory/allocPointer.h
@@ -250,7 +250,7 @@ namespace LightSpeed {
 
 	   AllocPointer(MoveConstruct, AllocPointer &x)
            :Pointer<T>(x.detach()),
-            Alloc(_moveConstruct, *this) {
+            Alloc(_moveConstruct, x) {
        }
 
    };
-- 
2.43.0


From a46773e5b0f5b1498aff0b8acfb77865466cefa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 54/62] fix: waiting for a pooled resource started its time
 limit again after each wake-up without a resource

---
 src/lightspeed/base/containers/resourcePool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/resourcePool.cpp b/src/lightspeed/base/containers/resourcePool.cpp
index ea0fabc..c510338 100644
--- a/src/lightspeed/base/containers/resourcePool.cpp
+++ b/src/lightspeed/base/containers/resourcePool.cpp
@@ -69,6 +69,8 @@ AbstractResource *AbstractResourcePool::acquire() {
 	Synchronized<FastLock> _(SyncPt::queueLock);
 	//reset out
 	AbstractResource *out = 0;
+	//the limit counts from the start, also when woken without resource
+	Timeout waitT(waitTimeout);
 	do {
 		//if no items in the pool
 		if (pool == 0) {
@@ -100,8 +102,6 @@ AbstractResource *AbstractResourcePool::acquire() {
 			{
 				//unlock queue - we will wait
 				SyncReleased<FastLock> __(SyncPt::queueLock);
-				//install timeout
-				Timeout waitT(waitTimeout);
 				//wait for resource
 				SyncPt::wait(s,waitT,SyncPt::interruptOnExit);
 				//try to remove from queue, if successed, timeout
-- 
2.43.0


From 33154680e5d58f13bd5a9a29702bb0d1fac9158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 55/62] fix: waiting for a process started its time limit again
 after each signal

---
 src/lightspeed/mt/linux/process.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index c4df308..96ca53f 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -625,10 +625,10 @@ namespace LightSpeed {
 					sigset_t sset;
 					sigemptyset(&sset);
 					sigaddset(&sset,SIGCHLD);
-					//calculate timeout
-					struct timespec tmsp = wtm.getRemain().getTimeSpec();
 					bool res;
 					while (true) {
+						//calculate timeout, again after each interruption
+						struct timespec tmsp = wtm.getRemain().getTimeSpec();
 						//wait for signal
 						int x = sigtimedwait(&sset,0,&tmsp);
 						//handle error
-- 
2.43.0


From ecf6f1113e63b4f82cce1128ea3665232fce5b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 56/62] fix: stopping InfParallelExecutor waited for the whole
 time limit for every thread

---
 src/lightspeed/base/actions/InfParallelExecutor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/InfParallelExecutor.cpp b/src/lightspeed/base/actions/InfParallelExecutor.cpp
index 4652faf..81d0a53 100644
--- a/src/lightspeed/base/actions/InfParallelExecutor.cpp
+++ b/src/lightspeed/base/actions/InfParallelExecutor.cpp
@@ -29,11 +29,12 @@ void InfParallelExecutor::execute(const IExecAction& action) {
 }
 
 bool InfParallelExecutor::stopAll(natural timeout) {
+	Timeout tm(timeout);
 	for (natural cnt = threadPool.length(), i = 0; i < cnt; i++) {
 		threadPool[i]->finish();
 	}
 	for (natural cnt = threadPool.length(), i = 0; i < cnt; i++) {
-		if (!threadPool[i]->getJoinObject().wait(timeout))
+		if (!threadPool[i]->getJoinObject().wait(tm))
 			return false;
 		threadPool[i]->join();
 	}
-- 
2.43.0


From 8f1a00714817f172e243bdb72bde4d804ee3fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 57/62] fix: stopping ParallelExecutor waited for the whole
 time limit for every thread

---
 src/lightspeed/base/actions/parallelExecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index b91af99..b4af1af 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -345,7 +345,7 @@ bool ParallelExecutor::stopAll(natural timeout) {
 	orderStop = true;
 	waitPt.notifyAll();
 	while (topWorker != nil) {
-		if (!topWorker->stop(timeout)) return false;
+		if (!topWorker->stop(tm)) return false;
 		cleanUp();
 	}
 	return true;
-- 
2.43.0


From 4b899775b24dc38dd42e7caac7547f8eab361073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 58/62] fix: a request to a running instance waited up to three
 times longer than its time limit

---
 src/lightspeed/base/linux/proginstance.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/proginstance.cpp b/src/lightspeed/base/linux/proginstance.cpp
index 20bd4b5..23c3016 100644
--- a/src/lightspeed/base/linux/proginstance.cpp
+++ b/src/lightspeed/base/linux/proginstance.cpp
@@ -34,6 +34,7 @@
 #include "../debug/dbglog.h"
 #include "../streams/fileio.h"
 #include "../streams/fileiobuff.tcc"
+#include "../../mt/timeout.h"
 #include "../interface.tcc"
 
 
@@ -291,12 +292,13 @@ natural ProgInstance::request(const void *req, natural reqsize, void *reply, nat
 	//wait for accessing the buffer
 	//there can be another client waiting for reply.
 	//check for timeout and throw exception, if operation takes long
+	Timeout tm(timeout);
 	if (!sem_wait(buffer->semAccess,timeout)) throw TimeoutException(THISLOCATION);
 	try {
 		//for placing request, we must also lock the buffer
 		//because there can be also server, which currently processing
 		//the request of client, which previously given up the waiting
-		if (!sem_wait(buffer->semInProgress,timeout))
+		if (!sem_wait(buffer->semInProgress,tm.getRemain().msecs()))
 			throw TimeoutException(THISLOCATION);
 		//reset any stored requests, we did not placed any yet
 		while (sem_trywait(&buffer->semRequest) == 0) {}
@@ -312,7 +314,7 @@ natural ProgInstance::request(const void *req, natural reqsize, void *reply, nat
 		//notify server, that request is available
 		sem_post(&buffer->semRequest);
 		//now, wait for reply
-		if (!sem_wait(buffer->semReply,timeout))
+		if (!sem_wait(buffer->semReply,tm.getRemain().msecs()))
 			//in case of timeout, we give up
 			//any semaphore state leaved, this is job of next client
 						throw TimeoutException(THISLOCATION);
-- 
2.43.0


From 271512f612c44cbcbca4c1a5f5b90e403691c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 59/62] fix: waiting for termination of an instance took two
 times longer than its time limit

---
 src/lightspeed/base/linux/proginstance.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lightspeed/base/linux/proginstance.cpp b/src/lightspeed/base/linux/proginstance.cpp
index 23c3016..6591812 100644
--- a/src/lightspeed/base/linux/proginstance.cpp
+++ b/src/lightspeed/base/linux/proginstance.cpp
@@ -457,7 +457,6 @@ void ProgInstance::waitForTerminate(natural timeout) {
 
 static void waitForTerminateSt(natural timeout, pid_t pid) {
 	natural waits = 0;
-	timeout *=2;
 	while (waits < timeout) {
 		if (kill(pid,0) != 0) return;
 		usleep(500000);
-- 
2.43.0


From e1c9d550eb935b25fd8b1345f36716322b9126c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 60/62] fix: locking of a file with a time limit waited without
 any limit

---
 src/lightspeed/base/linux/fileio.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 7bccfd8..d745da4 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -21,6 +21,7 @@
 #include "fileio.h"
 #include "../exceptions/invalidParamException.h"
 #include "../../mt/linux/systime.h"
+#include "../../mt/timeout.h"
 #include <sys/mman.h>
 
 #include "../interface.tcc"
@@ -591,12 +592,15 @@ namespace LightSpeed {
 	}
 
 	bool FileDescriptorSeq::lock(int flags, natural timeout) {
-		if (timeout == 0) flags |= LOCK_NB;
+		//flock has no time limit, so ask repeatedly
+		Timeout tm(timeout);
+		if (timeout != naturalNull) flags |= LOCK_NB;
 		while (flock(this->fd,flags)) {
 			int err = errno;
 			if (err == EINTR) continue;
-			if (err == EWOULDBLOCK) return false;
-			else throw ErrNoException(THISLOCATION, err);
+			if (err != EWOULDBLOCK) throw ErrNoException(THISLOCATION, err);
+			if (timeout == 0 || tm.expired()) return false;
+			usleep(1000);
 		}
 		return true;
 	}
-- 
2.43.0


From 34e112deb4d16b93146048832cf710006cb50bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 61/62] fix: close both ends of a pipe when wrapping them fails
 (PollSelect, createPipe)

---
 src/lightspeed/base/linux/fileio.cpp     | 20 +++++++++++++++++---
 src/lightspeed/base/linux/pollSelect.cpp |  8 +++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index d745da4..1ec894b 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -537,9 +537,23 @@ namespace LightSpeed {
         char desc[100];
         
         sprintf(desc,"#pipe(%d:%d):read_end",fds[0],fds[1]);
-        readEnd = new PipeDescriptor(fds[0],desc,false,true);
-        sprintf(desc,"#pipe(%d:%d):write_end",fds[0],fds[1]);
-        writeEnd = new PipeDescriptor(fds[1],desc,true,false);
+        PipeDescriptor *rd;
+        try {
+            rd = new PipeDescriptor(fds[0],desc,false,true);
+        } catch (...) {
+            ::close(fds[0]);
+            ::close(fds[1]);
+            throw;
+        }
+        try {
+            readEnd = rd;
+            sprintf(desc,"#pipe(%d:%d):write_end",fds[0],fds[1]);
+            rd = new PipeDescriptor(fds[1],desc,true,false);
+        } catch (...) {
+            ::close(fds[1]);
+            throw;
+        }
+        writeEnd = rd;
     }
 
 	FileDescriptor::FileOffset FileDescriptor::getPosition() const {
diff --git a/src/lightspeed/base/linux/pollSelect.cpp b/src/lightspeed/base/linux/pollSelect.cpp
index fe17e23..8c64072 100644
--- a/src/lightspeed/base/linux/pollSelect.cpp
+++ b/src/lightspeed/base/linux/pollSelect.cpp
@@ -36,7 +36,13 @@ PollSelect::PollSelect():timeoutHeap(timeoutMap),reason(0) {
 	pfd.events = POLL_IN;
 	pfd.fd = wakeOut;
 	pfd.revents = 0;
-	curpool.add(pfd);
+	try {
+		curpool.add(pfd);
+	} catch (...) {
+		close(pipe[0]);
+		close(pipe[1]);
+		throw;
+	}
 
 
 }
-- 
2.43.0


From 98018d506a3fe48ecc976f15c544c72318b95f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:08 +0000
Subject: [PATCH 62/62] fix: close the connected socket when its stream cannot
 be created

---
 src/lightspeed/base/linux/netStreamSource.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index 07b8601..be903c8 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -308,7 +308,12 @@ PNetworkStream LinuxNetConnect::makeConnect() {
 	u_long nonblk =1;
 	ioctl(s,FIONBIO, &nonblk);
 
-	return new LinuxNetStream(s,streamDefTimeout);
+	try {
+		return new LinuxNetStream(s,streamDefTimeout);
+	} catch (...) {
+		close(s);
+		throw;
+	}
 
 }
 
-- 
2.43.0

