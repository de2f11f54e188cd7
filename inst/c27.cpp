// Clients of binary strings: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

#include "paimon/common/data/binary_string.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

namespace paimon::client27 {
using Segments = std::vector<MemorySegment>;

Segments Make(int32_t size, int32_t count, const std::shared_ptr<MemoryPool>& pool) {
    Segments segments;
    for (int32_t i = 0; i < count; i++) {
        segments.push_back(MemorySegment::AllocateHeapMemory(size, pool.get()));
    }
    return segments;
}
char* Where(const Segments& segments, int32_t i) {
    return segments[i].GetArray()->data();
}

std::string Text(const Segments& data, int32_t offset, int32_t n,
                 const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromAddress(data, offset, n).ToString();
}
std::string CopyText(const Segments& data, int32_t offset, int32_t n,
                     const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromAddress(data, offset, n).Copy(pool.get()).ToString();
}
std::string RoundText(const std::string& text, const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromString(text, pool.get()).ToString();
}
std::string BytesText(const Segments& data, const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromBytes(data[0].GetHeapMemory()).ToString();
}
std::string BytesPart(const Segments& data, int32_t offset, int32_t n,
                      const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromBytes(data[0].GetHeapMemory(), offset, n).ToString();
}
std::string BlankText(int32_t n, const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::BlankString(n, pool.get()).ToString();
}
std::string EmptyText(const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::EmptyUtf8().ToString();
}
std::string PartText(const Segments& data, int32_t offset, int32_t n, int32_t start, int32_t end,
                     const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromAddress(data, offset, n)
        .CopyBinaryString(start, end, pool.get())
        .ToString();
}
std::string PartOneText(const Segments& data, int32_t offset, int32_t n, int32_t start, int32_t len,
                        const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromAddress(data, offset, n)
        .CopyBinaryStringInOneSeg(start, len, pool.get())
        .ToString();
}
std::string SubText(const Segments& data, int32_t offset, int32_t n, int32_t begin, int32_t end,
                    const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromAddress(data, offset, n).Substring(begin, end, pool.get()).ToString();
}
std::string Upper(const Segments& data, int32_t offset, int32_t n,
                  const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromAddress(data, offset, n).ToUpperCase(pool.get()).ToString();
}
std::string Lower(const Segments& data, int32_t offset, int32_t n,
                  const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromAddress(data, offset, n).ToLowerCase(pool.get()).ToString();
}
int32_t Count(const Segments& data, int32_t offset, int32_t n,
              const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromAddress(data, offset, n).NumChars();
}
char At(const Segments& data, int32_t offset, int32_t n, int32_t i,
        const std::shared_ptr<MemoryPool>& pool) {
    return BinaryString::FromAddress(data, offset, n).ByteAt(i);
}
int32_t Order(const Segments& data1, int32_t offset1, int32_t n1, const Segments& data2,
              int32_t offset2, int32_t n2, const std::shared_ptr<MemoryPool>& pool) {
    BinaryString one = BinaryString::FromAddress(data1, offset1, n1);
    BinaryString two = BinaryString::FromAddress(data2, offset2, n2);
    return one.CompareTo(two);
}
bool Same(const Segments& data1, int32_t offset1, int32_t n1, const Segments& data2,
          int32_t offset2, int32_t n2, const std::shared_ptr<MemoryPool>& pool) {
    BinaryString one = BinaryString::FromAddress(data1, offset1, n1);
    BinaryString two = BinaryString::FromAddress(data2, offset2, n2);
    return one == two;
}
bool Less(const Segments& data1, int32_t offset1, int32_t n1, const Segments& data2,
          int32_t offset2, int32_t n2, const std::shared_ptr<MemoryPool>& pool) {
    BinaryString one = BinaryString::FromAddress(data1, offset1, n1);
    BinaryString two = BinaryString::FromAddress(data2, offset2, n2);
    return one < two;
}
bool Has(const Segments& data1, int32_t offset1, int32_t n1, const Segments& data2, int32_t offset2,
         int32_t n2, const std::shared_ptr<MemoryPool>& pool) {
    BinaryString one = BinaryString::FromAddress(data1, offset1, n1);
    return one.Contains(BinaryString::FromAddress(data2, offset2, n2));
}
bool Starts(const Segments& data1, int32_t offset1, int32_t n1, const Segments& data2,
            int32_t offset2, int32_t n2, const std::shared_ptr<MemoryPool>& pool) {
    BinaryString one = BinaryString::FromAddress(data1, offset1, n1);
    return one.StartsWith(BinaryString::FromAddress(data2, offset2, n2));
}
bool Ends(const Segments& data1, int32_t offset1, int32_t n1, const Segments& data2,
          int32_t offset2, int32_t n2, const std::shared_ptr<MemoryPool>& pool) {
    BinaryString one = BinaryString::FromAddress(data1, offset1, n1);
    return one.EndsWith(BinaryString::FromAddress(data2, offset2, n2));
}
int32_t Index(const Segments& data1, int32_t offset1, int32_t n1, const Segments& data2,
              int32_t offset2, int32_t n2, int32_t from, const std::shared_ptr<MemoryPool>& pool) {
    BinaryString one = BinaryString::FromAddress(data1, offset1, n1);
    return one.IndexOf(BinaryString::FromAddress(data2, offset2, n2), from);
}
}  // namespace paimon::client27
