// Clients of segmented memory: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

#include "paimon/common/data/binary_section.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/result.h"

namespace paimon::client23 {
using Segments = std::vector<MemorySegment>;

Segments Make(int32_t size, int32_t count, const std::shared_ptr<MemoryPool>& pool) {
    Segments segments;
    for (int32_t i = 0; i < count; i++) {
        segments.push_back(MemorySegment::AllocateHeapMemory(size, pool.get()));
    }
    return segments;
}
char* Where(const Segments& segments, int32_t i) { return segments[i].GetArray()->data(); }
#define CLIENT_VALUE(T, NAME)                                                                    \
    T Get##NAME(const Segments& data, int32_t offset, const std::shared_ptr<MemoryPool>& pool) { \
        Segments segments = data;                                                                \
        return MemorySegmentUtils::GetValue<T>(segments, offset);                                \
    }                                                                                            \
    void Set##NAME(const Segments& data, int32_t offset, T value,                                \
                   const std::shared_ptr<MemoryPool>& pool) {                                    \
        Segments segments = data;                                                                \
        MemorySegmentUtils::SetValue<T>(&segments, offset, value);                               \
    }                                                                                            \
    T One##NAME(const Segments& data, int32_t offset, const std::shared_ptr<MemoryPool>& pool) { \
        return data[0].GetValue<T>(offset);                                                      \
    }                                                                                            \
    void Put##NAME(const Segments& data, int32_t offset, T value,                                \
                   const std::shared_ptr<MemoryPool>& pool) {                                    \
        Segments segments = data;                                                                \
        segments[0].PutValue<T>(offset, value);                                                  \
    }
CLIENT_VALUE(bool, Bool)
CLIENT_VALUE(char, Char)
CLIENT_VALUE(int16_t, Short)
CLIENT_VALUE(int32_t, Int)
CLIENT_VALUE(int64_t, Long)
CLIENT_VALUE(float, Float)
CLIENT_VALUE(double, Double)

std::shared_ptr<Bytes> CopyOut(const Segments& data, int32_t offset, int32_t n,
                               const std::shared_ptr<MemoryPool>& pool) {
    auto bytes = MemorySegmentUtils::CopyToBytes(data, offset, n, pool.get());
    return bytes;
}
void CopyInto(const Segments& data, int32_t offset, const Segments& target, int32_t at, int32_t n,
              const std::shared_ptr<MemoryPool>& pool) {
    Segments one = target;
    std::shared_ptr<Bytes> bytes = one[0].GetHeapMemory();
    MemorySegmentUtils::CopyToBytes(data, offset, bytes.get(), at, n);
}
std::string CopyIntoString(const Segments& data, int32_t offset, const std::string& target,
                           int32_t at, int32_t n, const std::shared_ptr<MemoryPool>& pool) {
    std::string text = target;
    MemorySegmentUtils::CopyToBytes(data, offset, &text, at, n);
    return text;
}
void CopyRaw(const Segments& data, int32_t offset, char* target, int32_t n,
             const std::shared_ptr<MemoryPool>& pool) {
    MemorySegmentUtils::CopyToUnsafe(data, offset, target, n);
}
void CopyIn(const Segments& data, int32_t offset, const Segments& source, int32_t from, int32_t n,
            const std::shared_ptr<MemoryPool>& pool) {
    Segments segments = data;
    Segments one = source;
    MemorySegmentUtils::CopyFromBytes(&segments, offset, *one[0].GetArray(), from, n);
}
std::shared_ptr<Bytes> Fetch(const Segments& data, int32_t offset, int32_t n,
                             const std::shared_ptr<MemoryPool>& pool) {
    auto bytes = MemorySegmentUtils::GetBytes(data, offset, n, pool.get());
    return bytes;
}
Result<std::vector<char>> Stream(const Segments& data, int32_t offset, int32_t n, int32_t other,
                                 const std::shared_ptr<MemoryPool>& pool) {
    MemorySegmentOutputStream out(other, pool);
    PAIMON_RETURN_NOT_OK(MemorySegmentUtils::CopyToStream(data, offset, n, &out));
    std::vector<char> result;
    for (int64_t i = 0; i < out.CurrentSize(); i++) {
        result.push_back(out.Segments()[i / other].Get(i % other));
    }
    return result;
}

bool TestBit(const Segments& data, int32_t base, int32_t index,
             const std::shared_ptr<MemoryPool>& pool) {
    return MemorySegmentUtils::BitGet(data, base, index);
}
void RaiseBit(const Segments& data, int32_t base, int32_t index,
              const std::shared_ptr<MemoryPool>& pool) {
    Segments segments = data;
    MemorySegmentUtils::BitSet(&segments, base, index);
}
void ClearBit(const Segments& data, int32_t base, int32_t index,
              const std::shared_ptr<MemoryPool>& pool) {
    Segments segments = data;
    MemorySegmentUtils::BitUnSet(&segments, base, index);
}
bool TestBitOne(const Segments& data, int32_t base, int32_t index,
                const std::shared_ptr<MemoryPool>& pool) {
    return MemorySegmentUtils::BitGet(data[0], base, index);
}
void RaiseBitOne(const Segments& data, int32_t base, int32_t index,
                 const std::shared_ptr<MemoryPool>& pool) {
    Segments segments = data;
    MemorySegmentUtils::BitSet(&segments[0], base, index);
}
void ClearBitOne(const Segments& data, int32_t base, int32_t index,
                 const std::shared_ptr<MemoryPool>& pool) {
    Segments segments = data;
    MemorySegmentUtils::BitUnSet(&segments[0], base, index);
}

bool Same(const Segments& data1, int32_t offset1, const Segments& data2, int32_t offset2, int32_t n,
          const std::shared_ptr<MemoryPool>& pool) {
    return MemorySegmentUtils::Equals(data1, offset1, data2, offset2, n);
}
int32_t Search(const Segments& data1, int32_t offset1, int32_t n1, const Segments& data2,
               int32_t offset2, int32_t n2, const std::shared_ptr<MemoryPool>& pool) {
    return MemorySegmentUtils::Find(data1, offset1, n1, data2, offset2, n2);
}
bool SameOne(const Segments& data1, int32_t offset1, const Segments& data2, int32_t offset2,
             int32_t n, const std::shared_ptr<MemoryPool>& pool) {
    return data1[0].EqualTo(data2[0], offset1, offset2, n);
}
int32_t Order(const Segments& data1, int32_t offset1, const Segments& data2, int32_t offset2,
              int32_t n1, int32_t n2, const std::shared_ptr<MemoryPool>& pool) {
    return data1[0].Compare(data2[0], offset1, offset2, n1, n2);
}
int32_t OrderSame(const Segments& data1, int32_t offset1, const Segments& data2, int32_t offset2,
                  int32_t n, const std::shared_ptr<MemoryPool>& pool) {
    return data1[0].Compare(data2[0], offset1, offset2, n);
}
bool SameSection(const Segments& data1, int32_t offset1, int32_t n1, const Segments& data2,
                 int32_t offset2, int32_t n2, const std::shared_ptr<MemoryPool>& pool) {
    BinarySection first(data1, offset1, n1);
    BinarySection second(data2, offset2, n2);
    return first == second;
}
std::shared_ptr<Bytes> SectionBytes(const Segments& data, int32_t offset, int32_t n,
                                    const std::shared_ptr<MemoryPool>& pool) {
    BinarySection section;
    section.PointTo(data, offset, n);
    return section.ToBytes(pool.get());
}
std::shared_ptr<Bytes> SectionOne(const Segments& data, int32_t offset, int32_t n,
                                  const std::shared_ptr<MemoryPool>& pool) {
    BinarySection section;
    section.PointTo(data[0], offset, n);
    return section.ToBytes(pool.get());
}
std::shared_ptr<Bytes> Field(const Segments& data, int32_t base, int32_t field,
                             const std::shared_ptr<MemoryPool>& pool) {
    Segments segments = data;
    auto word = MemorySegmentUtils::GetValue<int64_t>(segments, field);
    return BinarySection::ReadBinary(segments, base, field, word, pool.get());
}

void Swap(const Segments& data1, int32_t offset1, const Segments& data2, int32_t offset2, int32_t n,
          const std::shared_ptr<MemoryPool>& pool) {
    Segments one = data1;
    Segments two = data2;
    std::shared_ptr<Bytes> temp = Bytes::AllocateBytes(n, pool.get());
    one[0].SwapBytes(temp.get(), &two[0], offset1, offset2, n);
}
void CopySegment(const Segments& data1, int32_t offset1, const Segments& data2, int32_t offset2,
                 int32_t n, const std::shared_ptr<MemoryPool>& pool) {
    Segments one = data1;
    Segments two = data2;
    one[0].CopyTo(offset1, &two[0], offset2, n);
}
void PutRange(const Segments& data1, int32_t offset1, const Segments& data2, int32_t offset2,
              int32_t n, const std::shared_ptr<MemoryPool>& pool) {
    Segments one = data1;
    Segments two = data2;
    two[0].Put(offset2, *one[0].GetArray(), offset1, n);
}
void GetRange(const Segments& data1, int32_t offset1, const Segments& data2, int32_t offset2,
              int32_t n, const std::shared_ptr<MemoryPool>& pool) {
    Segments one = data1;
    Segments two = data2;
    one[0].Get(offset1, two[0].GetArray(), offset2, n);
}
void PutAll(const Segments& data1, const Segments& data2, int32_t offset2,
            const std::shared_ptr<MemoryPool>& pool) {
    Segments one = data1;
    Segments two = data2;
    two[0].Put(offset2, *one[0].GetArray());
}
void GetAll(const Segments& data1, int32_t offset1, const Segments& data2,
            const std::shared_ptr<MemoryPool>& pool) {
    Segments one = data1;
    Segments two = data2;
    one[0].Get(offset1, two[0].GetArray());
}
// a copy of a segment shares its memory
void Shared(const Segments& data, int32_t offset, char value,
            const std::shared_ptr<MemoryPool>& pool) {
    Segments one = data;
    MemorySegment other(one[0]);
    MemorySegment third;
    third = other;
    third.Put(offset, value);
}
}  // namespace paimon::client23
