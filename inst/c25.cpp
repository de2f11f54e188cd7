// Clients of the metrics: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <utility>

#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/metrics.h"
#include "paimon/result.h"

namespace paimon::client25 {
using M = std::shared_ptr<MetricsImpl>;
using All = std::map<std::string, uint64_t>;
// the operation of this thread lies between the two
void Begin(const M& m);
void End();

M Make(bool a, uint64_t va, bool b, uint64_t vb, bool c, uint64_t vc) {
    M m = std::make_shared<MetricsImpl>();
    if (b) {
        m->SetCounter("b", vb);
    }
    if (a) {
        m->SetCounter("a", va);
    }
    if (c) {
        m->SetCounter("c", vc);
    }
    return m;
}
All Built(bool a, uint64_t va, bool b, uint64_t vb, bool c, uint64_t vc) {
    return Make(a, va, b, vb, c, vc)->GetAllCounters();
}
All Set(bool a, uint64_t va, bool b, uint64_t vb, bool c, uint64_t vc, const std::string& name, uint64_t v) {
    M m = Make(a, va, b, vb, c, vc);
    Begin(m);
    m->SetCounter(name, v);
    End();
    return m->GetAllCounters();
}
Result<uint64_t> Get(bool a, uint64_t va, bool b, uint64_t vb, bool c, uint64_t vc, const std::string& name) {
    M m = Make(a, va, b, vb, c, vc);
    return m->GetCounter(name);
}
std::pair<All, All> AllKeeps(bool a, uint64_t va, bool b, uint64_t vb, bool c, uint64_t vc) {
    M m = Make(a, va, b, vb, c, vc);
    Begin(m);
    All r = m->GetAllCounters();
    End();
    return {r, m->GetAllCounters()};
}
// the counters of the target and of the source afterwards
std::pair<All, All> Merge(bool a, uint64_t va, bool b, uint64_t vb, bool c, uint64_t vc, bool oa, uint64_t xa, bool ob,
                          uint64_t xb, bool oc, uint64_t xc) {
    M m = Make(a, va, b, vb, c, vc);
    M o = Make(oa, xa, ob, xb, oc, xc);
    Begin(m);
    m->Merge(o);
    End();
    return {m->GetAllCounters(), o->GetAllCounters()};
}
std::pair<All, All> MergeTwice(bool a, uint64_t va, bool b, uint64_t vb, bool oa, uint64_t xa, bool ob, uint64_t xb) {
    M m = Make(a, va, b, vb, false, 0);
    M o = Make(oa, xa, ob, xb, false, 0);
    m->Merge(o);
    m->Merge(o);
    return {m->GetAllCounters(), o->GetAllCounters()};
}
All MergeSelf(bool a, uint64_t va, bool b, uint64_t vb) {
    M m = Make(a, va, b, vb, false, 0);
    m->Merge(m);
    return m->GetAllCounters();
}
All MergeNull(bool a, uint64_t va, bool b, uint64_t vb) {
    M m = Make(a, va, b, vb, false, 0);
    m->Merge(nullptr);
    return m->GetAllCounters();
}
std::pair<All, All> Overwrite(bool a, uint64_t va, bool b, uint64_t vb, bool c, uint64_t vc, bool oa, uint64_t xa,
                              bool ob, uint64_t xb, bool oc, uint64_t xc) {
    M m = Make(a, va, b, vb, c, vc);
    M o = Make(oa, xa, ob, xb, oc, xc);
    Begin(m);
    m->Overwrite(o);
    End();
    return {m->GetAllCounters(), o->GetAllCounters()};
}
All OverwriteSelf(bool a, uint64_t va, bool b, uint64_t vb) {
    M m = Make(a, va, b, vb, false, 0);
    m->Overwrite(m);
    return m->GetAllCounters();
}
All OverwriteNull(bool a, uint64_t va, bool b, uint64_t vb) {
    M m = Make(a, va, b, vb, false, 0);
    m->Overwrite(nullptr);
    return m->GetAllCounters();
}
// later changes of the source do not reach the target
std::pair<All, All> Apart(bool over, uint64_t va, uint64_t xa, uint64_t later) {
    M m = Make(true, va, false, 0, false, 0);
    M o = Make(true, xa, false, 0, false, 0);
    if (over) {
        m->Overwrite(o);
    } else {
        m->Merge(o);
    }
    o->SetCounter("a", later);
    o->SetCounter("c", later);
    return {m->GetAllCounters(), o->GetAllCounters()};
}

// what another thread may do meanwhile
void OtherSet(const M& m, const std::string& name, uint64_t v) {
    m->SetCounter(name, v);
}
void OtherMerge(const M& m, bool a, uint64_t va, bool b, uint64_t vb, bool c, uint64_t vc) {
    M o = Make(a, va, b, vb, c, vc);
    m->Merge(o);
}
void OtherOverwrite(const M& m, bool a, uint64_t va, bool b, uint64_t vb, bool c, uint64_t vc) {
    M o = Make(a, va, b, vb, c, vc);
    m->Overwrite(o);
}
// both directions
void Cross(uint64_t x, uint64_t y, bool over) {
    M m = Make(true, x, true, x, false, 0);
    M o = Make(true, y, false, y, true, y);
    if (over) {
        m->Overwrite(o);
        o->Overwrite(m);
    } else {
        m->Merge(o);
        o->Merge(m);
    }
}
}  // namespace paimon::client25
