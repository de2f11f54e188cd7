// Clients of small value types: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "paimon/catalog/identifier.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/utils/long_counter.h"
#include "paimon/common/utils/math.h"
#include "paimon/common/utils/scope_guard.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/core/table/source/plan_impl.h"
#include "paimon/data/timestamp.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/result.h"

namespace paimon::client07 {
void Ran();

// ---- timestamps
int64_t Millisecond(int64_t ms, int32_t ns) {
    return Timestamp(ms, ns).GetMillisecond();
}
int32_t Nano(int64_t ms, int32_t ns) {
    return Timestamp(ms, ns).GetNanoOfMillisecond();
}
int64_t FromMillis(int64_t ms) {
    Timestamp t = Timestamp::FromEpochMillis(ms);
    return t.GetMillisecond();
}
int32_t FromMillisNano(int64_t ms) {
    Timestamp t = Timestamp::FromEpochMillis(ms);
    return t.GetNanoOfMillisecond();
}
int64_t FromBoth(int64_t ms, int32_t ns) {
    Timestamp t = Timestamp::FromEpochMillis(ms, ns);
    return t.GetMillisecond();
}
int32_t FromBothNano(int64_t ms, int32_t ns) {
    Timestamp t = Timestamp::FromEpochMillis(ms, ns);
    return t.GetNanoOfMillisecond();
}
int64_t Cut(int64_t ms, int32_t ns) {
    Timestamp t = Timestamp(ms, ns).ToMillisTimestamp();
    return t.GetMillisecond();
}
int32_t CutNano(int64_t ms, int32_t ns) {
    Timestamp t = Timestamp(ms, ns).ToMillisTimestamp();
    return t.GetNanoOfMillisecond();
}
int64_t Micros(int64_t ms, int32_t ns) {
    return Timestamp(ms, ns).ToMicrosecond();
}
int64_t Nanos(int64_t ms, int32_t ns) {
    return Timestamp(ms, ns).ToNanosecond();
}
std::string Text(int64_t ms, int32_t ns) {
    return Timestamp(ms, ns).ToString();
}
bool Compact(int32_t precision) {
    return Timestamp::IsCompact(precision);
}
bool SameTime(int64_t ms, int32_t ns, int64_t ms2, int32_t ns2) {
    Timestamp a(ms, ns);
    Timestamp b(ms2, ns2);
    return a == b;
}
bool EarlierTime(int64_t ms, int32_t ns, int64_t ms2, int32_t ns2) {
    Timestamp a(ms, ns);
    Timestamp b(ms2, ns2);
    return a < b;
}
bool SelfTime(int64_t ms, int32_t ns) {
    Timestamp a(ms, ns);
    return a == a && !(a < a);
}
// ---- table names
bool SameName(const std::string& d, const std::string& t, const std::string& d2, const std::string& t2) {
    Identifier a(d, t);
    Identifier b(d2, t2);
    return a == b;
}
std::string Database(const std::string& d, const std::string& t) {
    Identifier a(d, t);
    return a.GetDatabaseName();
}
std::string Table(const std::string& d, const std::string& t) {
    Identifier a(d, t);
    return a.GetTableName();
}
// ---- counters
int64_t Count(int64_t a, int64_t b, int64_t x) {
    LongCounter one(a);
    LongCounter two(b);
    two.Add(x);
    one.Merge(two);
    return one.GetValue();
}
int64_t CountOther(int64_t a, int64_t b, int64_t x) {
    LongCounter one(a);
    LongCounter two(b);
    two.Add(x);
    one.Merge(two);
    return two.GetValue();
}
int64_t CountStart(int64_t x) {
    LongCounter one;
    one.Add(x);
    return one.GetValue();
}
int64_t CountReset(int64_t a, int64_t x) {
    LongCounter one(a);
    one.Reset();
    one.Add(x);
    return one.GetValue();
}
// ---- byte order
char SwapChar(char v) {
    return EndianSwapValue<char>(v);
}
int16_t SwapShort(int16_t v) {
    return EndianSwapValue<int16_t>(v);
}
int32_t SwapInt(int32_t v) {
    return EndianSwapValue<int32_t>(v);
}
int64_t SwapLong(int64_t v) {
    return EndianSwapValue<int64_t>(v);
}
uint16_t SwapUShort(uint16_t v) {
    return EndianSwapValue<uint16_t>(v);
}
uint32_t SwapUInt(uint32_t v) {
    return EndianSwapValue<uint32_t>(v);
}
uint64_t SwapULong(uint64_t v) {
    return EndianSwapValue<uint64_t>(v);
}
// ---- guards
void Guard() {
    ScopeGuard guard([]() { Ran(); });
    guard.~ScopeGuard();
}
void GuardReleased() {
    ScopeGuard guard([]() { Ran(); });
    guard.Release();
    guard.~ScopeGuard();
}
void GuardEarly() {
    ScopeGuard guard([]() { Ran(); });
}
// ---- plans
std::optional<int64_t> PlanSnapshot(std::optional<int64_t> id, const std::vector<std::shared_ptr<Split>>& splits) {
    PlanImpl plan(id, splits);
    return plan.SnapshotId();
}
std::vector<std::shared_ptr<Split>> PlanSplits(std::optional<int64_t> id, const std::vector<std::shared_ptr<Split>>& splits) {
    PlanImpl plan(id, splits);
    return plan.Splits();
}
bool PlanNothing() {
    std::shared_ptr<Plan> p = PlanImpl::EmptyPlan();
    return p.get() != nullptr && !p->SnapshotId().has_value() && p->Splits().empty();
}
// ---- deletion files
using Files = std::vector<std::optional<DeletionFile>>;
bool SameFile(const std::string& p, int64_t o, int64_t l, std::optional<int64_t> n, const std::string& p2, int64_t o2, int64_t l2, std::optional<int64_t> n2) {
    DeletionFile a(p, o, l, n);
    DeletionFile b(p2, o2, l2, n2);
    return a == b;
}
std::vector<char> Content(const MemorySegmentOutputStream& out, int32_t segment_size) {
    std::vector<char> data;
    for (int64_t i = 0; i < out.CurrentSize(); i++) {
        data.push_back(out.Segments()[i / segment_size].Get(i % segment_size));
    }
    return data;
}
// kind: 0 nothing, 1 with cardinality, 2 without
void Put(Files* files, int32_t kind, const std::string& p, int64_t o, int64_t l, int64_t n) {
    if (kind == 0) {
        files->push_back(std::nullopt);
    } else if (kind == 1) {
        files->push_back(DeletionFile(p, o, l, n));
    } else {
        files->push_back(DeletionFile(p, o, l, std::nullopt));
    }
}
std::vector<char> Store(int32_t count, int32_t k1, const std::string& p1, int64_t o1, int64_t l1, int64_t n1, int32_t k2, const std::string& p2, int64_t o2,
                        int64_t l2, int64_t n2, const std::shared_ptr<MemoryPool>& pool) {
    Files files;
    if (count > 0) {
        Put(&files, k1, p1, o1, l1, n1);
    }
    if (count > 1) {
        Put(&files, k2, p2, o2, l2, n2);
    }
    MemorySegmentOutputStream out(64, pool);
    DeletionFile::SerializeList(files, &out);
    return Content(out, 64);
}
Result<Files> Load(const char* data, uint64_t size, int32_t version, const std::shared_ptr<MemoryPool>& pool) {
    auto in = std::make_shared<ByteArrayInputStream>(data, size);
    DataInputStream stream(in);
    return DeletionFile::DeserializeList(&stream, version);
}
Result<int64_t> Size(const char* data, uint64_t size, int32_t version, const std::shared_ptr<MemoryPool>& pool) {
    PAIMON_ASSIGN_OR_RAISE(Files files, Load(data, size, version, pool));
    return static_cast<int64_t>(files.size());
}
Result<bool> Has(const char* data, uint64_t size, int32_t version, int64_t i, const std::shared_ptr<MemoryPool>& pool) {
    PAIMON_ASSIGN_OR_RAISE(Files files, Load(data, size, version, pool));
    return files[i].has_value();
}
Result<std::string> Path(const char* data, uint64_t size, int32_t version, int64_t i, const std::shared_ptr<MemoryPool>& pool) {
    PAIMON_ASSIGN_OR_RAISE(Files files, Load(data, size, version, pool));
    return files[i].value().path;
}
Result<int64_t> Offset(const char* data, uint64_t size, int32_t version, int64_t i, const std::shared_ptr<MemoryPool>& pool) {
    PAIMON_ASSIGN_OR_RAISE(Files files, Load(data, size, version, pool));
    return files[i].value().offset;
}
Result<int64_t> Length(const char* data, uint64_t size, int32_t version, int64_t i, const std::shared_ptr<MemoryPool>& pool) {
    PAIMON_ASSIGN_OR_RAISE(Files files, Load(data, size, version, pool));
    return files[i].value().length;
}
Result<bool> HasCardinality(const char* data, uint64_t size, int32_t version, int64_t i, const std::shared_ptr<MemoryPool>& pool) {
    PAIMON_ASSIGN_OR_RAISE(Files files, Load(data, size, version, pool));
    return files[i].value().cardinality.has_value();
}
Result<int64_t> Cardinality(const char* data, uint64_t size, int32_t version, int64_t i, const std::shared_ptr<MemoryPool>& pool) {
    PAIMON_ASSIGN_OR_RAISE(Files files, Load(data, size, version, pool));
    return files[i].value().cardinality.value();
}
}  // namespace paimon::client07
