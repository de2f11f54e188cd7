// Clients of the serialized formats: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "paimon/common/data/blob_descriptor.h"
#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/global_index/global_index_result.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/result.h"
#include "paimon/status.h"

namespace paimon::client05 {
using Pool = std::shared_ptr<MemoryPool>;

Result<std::shared_ptr<Bytes>> BlobWrite(const std::string& uri, int64_t offset, int64_t length,
                                         const Pool& pool) {
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<BlobDescriptor> blob,
                           BlobDescriptor::Create(uri, offset, length));
    std::shared_ptr<Bytes> bytes = blob->Serialize(pool);
    return bytes;
}
Result<std::string> BlobUri(const char* data, uint64_t n, const Pool& pool) {
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<BlobDescriptor> blob,
                           BlobDescriptor::Deserialize(data, n));
    return blob->Uri();
}
Result<int64_t> BlobOffset(const char* data, uint64_t n, const Pool& pool) {
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<BlobDescriptor> blob,
                           BlobDescriptor::Deserialize(data, n));
    return blob->Offset();
}
Result<int64_t> BlobLength(const char* data, uint64_t n, const Pool& pool) {
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<BlobDescriptor> blob,
                           BlobDescriptor::Deserialize(data, n));
    return blob->Length();
}

Result<std::shared_ptr<BitSliceIndexRoaringBitmap::Appender>> Fill(
    int64_t min, int64_t max, const std::vector<int64_t>& values) {
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<BitSliceIndexRoaringBitmap::Appender> appender,
                           BitSliceIndexRoaringBitmap::Appender::Create(min, max));
    int32_t row = 0;
    for (const auto& value : values) {
        PAIMON_RETURN_NOT_OK(appender->Append(row++, value));
    }
    return appender;
}
Result<std::shared_ptr<Bytes>> BsiWrite(int64_t min, int64_t max,
                                        const std::vector<int64_t>& values, const Pool& pool) {
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<BitSliceIndexRoaringBitmap::Appender> appender,
                           Fill(min, max, values));
    std::shared_ptr<Bytes> bytes = appender->Serialize(pool);
    return bytes;
}
Result<bool> BsiRead(int64_t min, int64_t max, const std::vector<int64_t>& values,
                     const char* data, uint64_t n, const Pool& pool) {
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<BitSliceIndexRoaringBitmap::Appender> appender,
                           Fill(min, max, values));
    auto stream = std::make_shared<ByteArrayInputStream>(data, n);
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<BitSliceIndexRoaringBitmap> index,
                           BitSliceIndexRoaringBitmap::Create(stream));
    return *index == *appender->Build();
}

std::shared_ptr<GlobalIndexResult> MakeBitmap(const std::vector<int64_t>& ids) {
    return std::make_shared<BitmapGlobalIndexResult>([ids]() -> Result<RoaringBitmap64> {
        RoaringBitmap64 bitmap;
        for (const auto& id : ids) {
            bitmap.Add(id);
        }
        return bitmap;
    });
}
std::shared_ptr<GlobalIndexResult> MakeScored(const std::vector<int64_t>& ids,
                                              const std::vector<float>& scores) {
    RoaringBitmap64 bitmap;
    for (const auto& id : ids) {
        bitmap.Add(id);
    }
    std::vector<float> copy = scores;
    return std::make_shared<BitmapVectorSearchGlobalIndexResult>(std::move(bitmap),
                                                                 std::move(copy));
}
Result<std::shared_ptr<Bytes>> ResWrite(const std::vector<int64_t>& ids, const Pool& pool) {
    std::shared_ptr<GlobalIndexResult> result = MakeBitmap(ids);
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<Bytes> bytes,
                           GlobalIndexResult::Serialize(result, pool));
    return bytes;
}
Result<std::shared_ptr<Bytes>> FailWrite(const Pool& pool) {
    std::shared_ptr<GlobalIndexResult> result = std::make_shared<BitmapGlobalIndexResult>(
        []() -> Result<RoaringBitmap64> { return Status::IOError("failed"); });
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<Bytes> bytes,
                           GlobalIndexResult::Serialize(result, pool));
    return bytes;
}
Result<std::shared_ptr<Bytes>> ScoredWrite(const std::vector<int64_t>& ids,
                                           const std::vector<float>& scores, const Pool& pool) {
    std::shared_ptr<GlobalIndexResult> result = MakeScored(ids, scores);
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<Bytes> bytes,
                           GlobalIndexResult::Serialize(result, pool));
    return bytes;
}
Result<std::vector<int64_t>> ResRead(const char* data, uint64_t n, const Pool& pool) {
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<GlobalIndexResult> result,
                           GlobalIndexResult::Deserialize(data, n, pool));
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<GlobalIndexResult::Iterator> it,
                           result->CreateIterator());
    std::vector<int64_t> ids;
    while (it->HasNext()) {
        ids.push_back(it->Next());
    }
    return ids;
}
Result<std::vector<float>> ResScores(const char* data, uint64_t n, const Pool& pool) {
    PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<GlobalIndexResult> result,
                           GlobalIndexResult::Deserialize(data, n, pool));
    std::vector<float> scores;
    auto scored = std::dynamic_pointer_cast<BitmapVectorSearchGlobalIndexResult>(result);
    if (scored) {
        scores = scored->GetScores();
    }
    return scores;
}
}  // namespace paimon::client05
