// Clients of the bloom filter: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <utility>
#include <vector>

#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/utils/bloom_filter64.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

namespace paimon::client26 {
using Segments = std::vector<MemorySegment>;
using Pool = std::shared_ptr<MemoryPool>;
using BitSet = BloomFilter64::BitSet;

Segments Make(int32_t size, int32_t count, const std::shared_ptr<MemoryPool>& pool) {
    Segments segments;
    for (int32_t i = 0; i < count; i++) {
        segments.push_back(MemorySegment::AllocateHeapMemory(size, pool.get()));
    }
    return segments;
}
char* Where(const Segments& segments, int32_t i) {
    return segments[i].GetArray()->data();
}

void SetBit(const Segments& data, int32_t offset, int32_t i, const Pool& pool) {
    BitSet bits(data[0].GetHeapMemory(), offset);
    bits.Set(i);
}
bool GetBit(const Segments& data, int32_t offset, int32_t i, const Pool& pool) {
    BitSet bits(data[0].GetHeapMemory(), offset);
    return bits.Get(i);
}
int32_t Bits(const Segments& data, int32_t offset, const Pool& pool) {
    BitSet bits(data[0].GetHeapMemory(), offset);
    return bits.BitSize();
}
void Add(const Segments& data, int32_t offset, int32_t k, int64_t hash, const Pool& pool) {
    BloomFilter64 filter(k, std::make_unique<BitSet>(data[0].GetHeapMemory(), offset));
    filter.AddHash(hash);
}
bool Test(const Segments& data, int32_t offset, int32_t k, int64_t hash, const Pool& pool) {
    BloomFilter64 filter(k, std::make_unique<BitSet>(data[0].GetHeapMemory(), offset));
    return filter.TestHash(hash);
}
bool AddTest(const Segments& data, int32_t offset, int32_t k, int64_t hash, int64_t other,
             const Pool& pool) {
    BloomFilter64 filter(k, std::make_unique<BitSet>(data[0].GetHeapMemory(), offset));
    filter.AddHash(hash);
    filter.AddHash(other);
    return filter.TestHash(hash);
}
int32_t Count(const Segments& data, int32_t offset, int32_t k, const Pool& pool) {
    BloomFilter64 filter(k, std::make_unique<BitSet>(data[0].GetHeapMemory(), offset));
    return filter.GetNumHashFunctions();
}
int32_t NewBits(int64_t items, double fpp, const Pool& pool) {
    BloomFilter64 filter(items, fpp, pool);
    return filter.GetBitSet().BitSize();
}
int32_t NewCount(int64_t items, double fpp, const Pool& pool) {
    BloomFilter64 filter(items, fpp, pool);
    return filter.GetNumHashFunctions();
}
bool NewTest(int64_t items, double fpp, int64_t hash, int64_t other, const Pool& pool) {
    BloomFilter64 filter(items, fpp, pool);
    filter.AddHash(hash);
    return filter.TestHash(other);
}
}  // namespace paimon::client26
