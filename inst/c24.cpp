// Clients of the hash functions: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <vector>

#include "paimon/common/data/binary_section.h"
#include "paimon/common/data/binary_string.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/murmurhash_utils.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

namespace paimon::client24 {
using Segments = std::vector<MemorySegment>;
using Pool = std::shared_ptr<MemoryPool>;

Segments Make(int32_t size, int32_t count, const std::shared_ptr<MemoryPool>& pool) {
    Segments segments;
    for (int32_t i = 0; i < count; i++) {
        segments.push_back(MemorySegment::AllocateHeapMemory(size, pool.get()));
    }
    return segments;
}
char* Where(const Segments& segments, int32_t i) {
    return segments[i].GetArray()->data();
}

int32_t Array(const Segments& data, const Pool& pool) {
    return MurmurHashUtils::HashBytes(data[0].GetHeapMemory());
}
int32_t ArrayPositive(const Segments& data, const Pool& pool) {
    return MurmurHashUtils::HashBytesPositive(data[0].GetHeapMemory());
}
int32_t Raw(const Segments& data, int64_t offset, int32_t n, const Pool& pool) {
    return MurmurHashUtils::HashUnsafeBytes(data[0].GetArray()->data(), offset, n);
}
int32_t RawSeed(const Segments& data, int64_t offset, int32_t n, int32_t seed, const Pool& pool) {
    return MurmurHashUtils::HashUnsafeBytes(data[0].GetArray()->data(), offset, n, seed);
}
int32_t RawWords(const Segments& data, int64_t offset, int32_t n, const Pool& pool) {
    return MurmurHashUtils::HashUnsafeBytesByWords(data[0].GetArray()->data(), offset, n);
}
int32_t Segment(const Segments& data, int32_t offset, int32_t n, const Pool& pool) {
    return MurmurHashUtils::HashBytes(data[0], offset, n);
}
int32_t SegmentWords(const Segments& data, int32_t offset, int32_t n, const Pool& pool) {
    return MurmurHashUtils::HashBytesByWords(data[0], offset, n);
}
int32_t Spread(const Segments& data, int32_t offset, int32_t n, const Pool& pool) {
    return MemorySegmentUtils::Hash(data, offset, n, pool.get());
}
int32_t SpreadWords(const Segments& data, int32_t offset, int32_t n, const Pool& pool) {
    return MemorySegmentUtils::HashByWords(data, offset, n, pool.get());
}
int32_t Text(const Segments& data, int32_t offset, int32_t n, const Pool& pool) {
    return BinaryString::FromAddress(data, offset, n).HashCode();
}
int32_t Final(uint32_t h, const Pool& pool) {
    return MurmurHashUtils::Fmix(h);
}
}  // namespace paimon::client24
