// Explicit instantiations: gives the analyser the bodies of header-only templates.
#include "lightspeed/mt/fastlock.h"
#include "lightspeed/mt/rwlock.h"
#include "lightspeed/mt/spinlock.h"
#include "lightspeed/mt/semaphore.h"
#include "lightspeed/mt/mutex.h"
#include "lightspeed/mt/microlock.h"
#include "lightspeed/mt/syncPt.h"
#include "lightspeed/mt/slist.h"
#include "lightspeed/mt/notifier.h"
#include "lightspeed/mt/syncptr.h"
#include "lightspeed/mt/timeout.h"
#include "lightspeed/mt/atomic.h"
#include "lightspeed/mt/linux/llmutex.h"
#include "lightspeed/mt/linux/llevent.h"
#include "lightspeed/base/sync/synchronize.h"
#include "lightspeed/base/sync/trysynchronized.h"
#include "lightspeed/base/sync/lockPair.h"
#include "lightspeed/base/sync/proxylock.h"
#include "lightspeed/base/sync/syncobj.h"
#include "lightspeed/base/sync/threadVar.h"
#include "lightspeed/base/memory/sharedResource.h"
#include "lightspeed/base/memory/weakref.h"
#include "lightspeed/base/memory/refCntPtr.h"
#include "lightspeed/base/memory/sharedPtr.h"
#include "lightspeed/base/memory/singleton.h"
using namespace LightSpeed;
namespace {
struct Obj: public RefCntObj { int x; virtual ~Obj() {} };
struct Tgt: public WeakRefTarget<Tgt> { int x; Tgt():WeakRefTarget<Tgt>(this) {} };
}

template class LightSpeed::Synchronized<FastLockR>;
template class LightSpeed::SyncReleased<FastLockR>;
template class LightSpeed::SyncReleased<FastLock>;
template class LightSpeed::TrySynchronized<FastLock>;
template class LightSpeed::WeakRef<Obj>;
template class LightSpeed::TLSTable<StdAlloc>;
template class LightSpeed::ThreadVar<Obj>;
template class LightSpeed::ThreadVarInit<Obj>;
template class LightSpeed::ThreadVarInitDefault<Obj>;
typedef RefCntPtr<Obj> PObj;
void use_refcnt(PObj a, PObj b, Obj *raw) {
	PObj c(raw); c = a; c = b; a = nil; c.clear(); PObj d(b); c.getMT();
	if (a.isShared()) { b.detach(); }
	c.manualAddRef(); c.manualRelease(); c.attach(raw); c.create();
	PObj e(static_cast<PObj &&>(d)); e = static_cast<PObj &&>(c);
}
void use_weak(WeakRef<Tgt> w, Tgt &t) {
	WeakRefPtr<Tgt> p = w.lock(); WeakRefPtr<Tgt> q(p); q = p; t.setNull();
}
void use_shared(SharedPtr<Obj> a, SharedPtr<Obj> b, Mutex *lk) {
	SharedPtr<Obj> c(a); c = b; SharedResource r; SharedResource s(r); s = r; SharedResource t(r,lk); t.unshare(lk); if (s.isShared() || r.count() == 2) a = c;
}
void use_rw(LevelLock &ll, LevelLock::Slot &s) { ll.cancelAsync(s); }
void use_rw1(LevelLock &ll) { ll.lock(1); ll.unlock(); }
bool use_rw2(LevelLock &ll) { if (!ll.tryLock(1)) return false; ll.unlock(); return true; }
void use_rw3(RWLock &rw) { Synchronized<RWLock::ReadLock> r(rw); }
void use_rw4(RWLock &rw) { Synchronized<RWLock::WriteLock> r(rw); }
void use_sync(FastLock &l, FastLockR &r, Mutex &m, Semaphore &sem, SpinLock &sp, MicroLock &ml) {
	Synchronized<FastLock> _1(l);
	Synchronized<FastLockR> _2(r);
	Synchronized<Mutex> _3(m);
	Synchronized<Semaphore> _4(sem);
	Synchronized<SpinLock> _5(sp);
	Synchronized<MicroLock> _6(ml);
}
