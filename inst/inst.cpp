// Instantiates header-only templates of the repository so that the extractor
// sees their bodies with resolved types.  Never compiled or run; only parsed.
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

#include "paimon/common/utils/bin_packing.h"
#include "paimon/common/utils/concurrent_hash_map.h"
#include "paimon/common/utils/linked_hash_map.h"
#include "paimon/common/utils/long_counter.h"
#include "paimon/common/utils/math.h"
#include "paimon/common/utils/murmurhash_utils.h"
#include "paimon/common/utils/object_utils.h"
#include "paimon/common/utils/range_helper.h"
#include "paimon/common/utils/scope_guard.h"
#include "paimon/common/utils/threadsafe_queue.h"
#include "paimon/common/utils/uuid.h"
#include "paimon/common/executor/future.h"
#include "paimon/core/operation/metrics/commit_metrics.h"
#include "paimon/core/table/source/deletion_file.h"

namespace paimon {
struct InstItem {
    int64_t weight;
    bool operator==(const InstItem& other) const {
        return weight == other.weight;
    }
};
template class ThreadsafeQueue<int64_t>;
template class LinkedHashMap<int64_t, int64_t>;
template class ConcurrentHashMap<int64_t, int64_t>;
template class RangeHelper<InstItem>;
template std::vector<std::vector<InstItem>> BinPacking::PackForOrdered<InstItem>(
    std::vector<InstItem>&& items, const std::function<int64_t(const InstItem&)>& weight_func,
    int64_t target_weight);
template int16_t EndianSwapValue<int16_t>(int16_t v);
template int32_t EndianSwapValue<int32_t>(int32_t v);
template int64_t EndianSwapValue<int64_t>(int64_t v);
template int8_t EndianSwapValue<int8_t>(int8_t v);
template float EndianSwapValue<float>(float v);
template double EndianSwapValue<double>(double v);

void InstUse() {
    LongCounter counter;
    counter.Add(1);
    ScopeGuard guard([]() {});
    guard.Release();
}

struct InstBase {
    virtual ~InstBase() = default;
};
struct InstDerived : public InstBase {};
template class Result<int64_t>;
template class Result<std::string>;
template class Result<std::shared_ptr<InstBase>>;
template class Result<std::shared_ptr<InstDerived>>;
template Result<std::shared_ptr<InstBase>>::Result(Result<std::shared_ptr<InstDerived>>&& other) noexcept;
template Result<std::shared_ptr<InstBase>>::Result(std::shared_ptr<InstDerived>&& data);
template Status Status::OutOfMemory<const std::string&>(const std::string& msg);
template Status Status::KeyError<const std::string&>(const std::string& msg);
template Status Status::TypeError<const std::string&>(const std::string& msg);
template Status Status::UnknownError<const std::string&>(const std::string& msg);
template Status Status::NotImplemented<const std::string&>(const std::string& msg);
template Status Status::Invalid<const std::string&>(const std::string& msg);
template Status Status::IndexError<const std::string&>(const std::string& msg);
template Status Status::CapacityError<const std::string&>(const std::string& msg);
template Status Status::IOError<const std::string&>(const std::string& msg);
template Status Status::SerializationError<const std::string&>(const std::string& msg);
template Status Status::NotExist<const std::string&>(const std::string& msg);
template Status Status::Exist<const std::string&>(const std::string& msg);
template Status Status::WithMessage<const std::string&>(const std::string& msg) const;
}  // namespace paimon
