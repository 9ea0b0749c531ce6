// Interposes the synchronisation primitives of Qt that the code under test may use: (a) delays scripted per thread at
// every entry and exit widen the windows between them, (b) under ThreadSanitizer they are announced as acquire/release,
// because libQt5Core itself is not instrumented.
#pragma once
#include <dlfcn.h>
#include <time.h>
#include <QMutex>
#include <QReadWriteLock>
#include <QSemaphore>
#include <QWaitCondition>
#if defined(__SANITIZE_THREAD__)
extern "C" void __tsan_acquire(void *);
extern "C" void __tsan_release(void *);
#define VP_ACQ(p) __tsan_acquire(const_cast<void *>(static_cast<const void *>(p)))
#define VP_REL(p) __tsan_release(const_cast<void *>(static_cast<const void *>(p)))
#else
#define VP_ACQ(p) (void)(p)
#define VP_REL(p) (void)(p)
#endif
struct VpScript { const int *delay; int n; int at; };
static thread_local VpScript vpScript = {nullptr, 0, 0};
inline void vpPoint()
{
    VpScript &s = vpScript;
    if (!s.delay || s.at >= s.n) return;
    int us = s.delay[s.at++];
    if (us > 0) { timespec t = {0, us * 1000}; nanosleep(&t, nullptr); }
}
template <typename F> static F vpReal(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
// the declarations differ in noexcept between Qt versions, hence symbols instead of member definitions
extern "C" {
#define VP0(sym, id, T, before, after) void id(T *p) __asm__(sym); __attribute__((visibility("default"))) void id(T *p) { static auto f = vpReal<void (*)(T *)>(sym); vpPoint(); before; f(p); after; vpPoint(); }
#define VPI(sym, id, T, before, after) void id(T *p, int n) __asm__(sym); __attribute__((visibility("default"))) void id(T *p, int n) { static auto f = vpReal<void (*)(T *, int)>(sym); vpPoint(); before; f(p, n); after; vpPoint(); }
#define VPBI(sym, id, T) bool id(T *p, int n) __asm__(sym); __attribute__((visibility("default"))) bool id(T *p, int n) { static auto f = vpReal<bool (*)(T *, int)>(sym); vpPoint(); bool r = f(p, n); if (r) VP_ACQ(p); vpPoint(); return r; }
#define VPB0(sym, id, T) bool id(T *p) __asm__(sym); __attribute__((visibility("default"))) bool id(T *p) { static auto f = vpReal<bool (*)(T *)>(sym); vpPoint(); bool r = f(p); if (r) VP_ACQ(p); vpPoint(); return r; }
#define VPBII(sym, id, T) bool id(T *p, int n, int m) __asm__(sym); __attribute__((visibility("default"))) bool id(T *p, int n, int m) { static auto f = vpReal<bool (*)(T *, int, int)>(sym); vpPoint(); bool r = f(p, n, m); if (r) VP_ACQ(p); vpPoint(); return r; }
VP0("_ZN6QMutex4lockEv", vp_mutex_lock, QMutex, , VP_ACQ(p))
VP0("_ZN6QMutex6unlockEv", vp_mutex_unlock, QMutex, VP_REL(p), )
VPBI("_ZN6QMutex7tryLockEi", vp_mutex_trylock, QMutex)
VPI("_ZN10QSemaphore7acquireEi", vp_sem_acquire, QSemaphore, , VP_ACQ(p))
VPI("_ZN10QSemaphore7releaseEi", vp_sem_release, QSemaphore, VP_REL(p), )
VPBI("_ZN10QSemaphore10tryAcquireEi", vp_sem_try, QSemaphore)
VPBII("_ZN10QSemaphore10tryAcquireEii", vp_sem_try2, QSemaphore)
VP0("_ZN14QReadWriteLock11lockForReadEv", vp_rw_read, QReadWriteLock, , VP_ACQ(p))
VP0("_ZN14QReadWriteLock12lockForWriteEv", vp_rw_write, QReadWriteLock, , VP_ACQ(p))
VP0("_ZN14QReadWriteLock6unlockEv", vp_rw_unlock, QReadWriteLock, VP_REL(p), )
VPB0("_ZN14QReadWriteLock14tryLockForReadEv", vp_rw_tryr, QReadWriteLock)
VPBI("_ZN14QReadWriteLock14tryLockForReadEi", vp_rw_tryri, QReadWriteLock)
VPB0("_ZN14QReadWriteLock15tryLockForWriteEv", vp_rw_tryw, QReadWriteLock)
VPBI("_ZN14QReadWriteLock15tryLockForWriteEi", vp_rw_trywi, QReadWriteLock)
}
