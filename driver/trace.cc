// C29: performance traces (only in configurations that build tracing in). Interpreted by checks/trace.py, never run.
#include "common.hh"

namespace vf {
    void tr_record(TraceInfo &t, TraceEvent::Type e) {
        t.Trace(e);
        mark("stop");
    }
    void tr_start(TraceInfo &t) {
        t.StartTrace();
        mark("stop");
    }
    void tr_stop(TraceInfo &t) {
        auto s = t.StopTrace();
        observe("span", s);
        mark("stop");
    }
    void tr_new() {
        TraceInfo t;
        observe("new", t);
        mark("stop");
    }
    void tr_ecs_start(W &w) {
        w.StartTrace();
        mark("stop");
    }
    void tr_ecs_stop(W &w) {
        PerformanceTrace p = w.StopTrace();
        observe("trace", p);
        mark("stop");
    }
#define NAME(x)                              \
    void tr_name_##x(std::ostream &out) {    \
        out << TraceEvent::Type::x;          \
        mark("stop");                        \
    }
    NAME(Invalid)
    NAME(TransactionStart)
    NAME(TransactionEnd)
    NAME(ReadLockWait)
    NAME(ReadLock)
    NAME(ReadUnlock)
    NAME(WriteLockWait)
    NAME(WriteLock)
    NAME(CommitLockWait)
    NAME(CommitLock)
    NAME(CommitUnlock)
    NAME(WriteUnlock)
    void tr_kinds() {
        observe("kinds", TraceEvent::Type::TransactionStart, TraceEvent::Type::TransactionEnd, TraceEvent::Type::ReadLockWait,
            TraceEvent::Type::ReadLock, TraceEvent::Type::ReadUnlock, TraceEvent::Type::WriteLockWait, TraceEvent::Type::WriteLock,
            TraceEvent::Type::CommitLockWait, TraceEvent::Type::CommitLock, TraceEvent::Type::CommitUnlock, TraceEvent::Type::WriteUnlock);
        mark("stop");
    }
    void tr_csv(PerformanceTrace &p, std::ostream &out) {
        p.SaveToCSV(out);
        mark("stop");
    }
} // namespace vf
