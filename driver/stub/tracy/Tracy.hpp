#pragma once
#include <cstdint>
namespace tracy {
struct SourceLocationData { const char *name, *function, *file; uint32_t line, color; };
struct ScopedZone { ScopedZone(const SourceLocationData *, bool) {} ScopedZone(const SourceLocationData *, int, bool) {} };
struct LockableCtx { LockableCtx(const SourceLocationData *) {} bool BeforeLock() { return true; } void AfterLock() {} void AfterUnlock() {} void AfterTryLock(bool) {} };
struct SharedLockableCtx { SharedLockableCtx(const SourceLocationData *) {} bool BeforeLock() { return true; } void AfterLock() {} void AfterUnlock() {} void AfterTryLock(bool) {} bool BeforeLockShared() { return true; } void AfterLockShared() {} void AfterUnlockShared() {} void AfterTryLockShared(bool) {} };
}
#define ZoneNamedN(a, b, c) int a = 0; (void)a
#define ZoneTextV(a, b, c) (void)(a), (void)(b), (void)(c)
