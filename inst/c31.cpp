// Clients of binary rows and arrays: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/data/binary_string.h"
#include "paimon/common/data/serializer/binary_row_serializer.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/serialization_utils.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

namespace paimon::client31 {
// kinds: 0 boolean, 1 byte, 2 short, 3 int, 4 long, 5 string, 6 binary, 7 view, 8 timestamp(3), 9 timestamp(9), 10 decimal(18), 12 row, 13 array,
// 14 null, 15 null timestamp(9), 16 string in segments, 17 row in segments, 18 row kind, 20 to 23 nulls
std::vector<MemorySegment> Split(const std::string& image, int32_t size, int32_t offset,
                                 MemoryPool* pool) {
    std::vector<MemorySegment> segments;
    std::string all = std::string(offset, 'x') + image;
    for (size_t i = 0; i == 0 || i < all.size(); i += size) {
        std::string part = all.substr(i, size);
        part.resize(size, 'y');
        std::shared_ptr<Bytes> bytes = Bytes::AllocateBytes(part, pool);
        segments.push_back(MemorySegment::Wrap(bytes));
    }
    return segments;
}
BinaryRow At(int32_t arity, const std::string& image, int32_t size, int32_t offset,
             MemoryPool* pool) {
    std::vector<MemorySegment> segments = Split(image, size, offset, pool);
    BinaryRow row(arity);
    row.PointTo(segments, offset, image.size());
    return row;
}
BinaryArray AtArray(const std::string& image, int32_t size, int32_t offset, MemoryPool* pool) {
    std::vector<MemorySegment> segments = Split(image, size, offset, pool);
    BinaryArray array;
    array.PointTo(segments, offset, image.size());
    return array;
}
BinaryRow Inner(int64_t value, MemoryPool* pool) {
    BinaryRow row(2);
    BinaryRowWriter writer(&row, 0, pool);
    writer.Reset();
    writer.WriteLong(0, value);
    writer.SetNullAt(1);
    writer.Complete();
    return row;
}
void PutRow(BinaryRowWriter* writer, int32_t pos, int32_t kind, int64_t value, int32_t extra,
            const std::string& text, MemoryPool* pool) {
    if (kind == 0) {
        writer->WriteBoolean(pos, value != 0);
    } else if (kind == 1) {
        writer->WriteByte(pos, static_cast<int8_t>(value));
    } else if (kind == 2) {
        writer->WriteShort(pos, static_cast<int16_t>(value));
    } else if (kind == 3) {
        writer->WriteInt(pos, static_cast<int32_t>(value));
    } else if (kind == 4) {
        writer->WriteLong(pos, value);
    } else if (kind == 5) {
        writer->WriteString(pos, BinaryString::FromString(text, pool));
    } else if (kind == 6) {
        Bytes bytes(text, pool);
        writer->WriteBinary(pos, bytes);
    } else if (kind == 7) {
        std::string_view view(text);
        writer->WriteStringView(pos, view);
    } else if (kind == 8) {
        writer->WriteTimestamp(pos, Timestamp(value, 0), 3);
    } else if (kind == 9) {
        writer->WriteTimestamp(pos, Timestamp(value, extra), 9);
    } else if (kind == 10) {
        writer->WriteDecimal(pos, Decimal(18, 2, value), 18);
    } else if (kind == 21) {
        writer->WriteDecimal(pos, std::nullopt, 30);
    } else if (kind == 12) {
        BinaryRow inner = Inner(value, pool);
        writer->WriteRow(pos, inner);
    } else if (kind == 13) {
        std::vector<int64_t> values = {value, extra};
        BinaryArray inner = BinaryArray::FromLongArray(values, pool);
        writer->WriteArray(pos, inner);
    } else if (kind == 16) {
        std::vector<MemorySegment> segments = Split(text, 8, extra, pool);
        writer->WriteString(pos, BinaryString::FromAddress(segments, extra, text.size()));
    } else if (kind == 17) {
        BinaryRow inner = At(1, text, 8, extra, pool);
        writer->WriteRow(pos, inner);
    } else if (kind == 14) {
        writer->SetNullAt(pos);
    } else if (kind == 15) {
        writer->WriteTimestamp(pos, std::nullopt, 9);
    } else if (kind == 18) {
        writer->WriteRowKind(RowKind::FromByteValue(static_cast<int8_t>(value)).value());
    }
}
void PutArray(BinaryArrayWriter* writer, int32_t pos, int32_t kind, int64_t value, int32_t extra,
              const std::string& text, MemoryPool* pool) {
    if (kind == 0) {
        writer->WriteBoolean(pos, value != 0);
    } else if (kind == 1) {
        writer->WriteByte(pos, static_cast<int8_t>(value));
    } else if (kind == 2) {
        writer->WriteShort(pos, static_cast<int16_t>(value));
    } else if (kind == 3) {
        writer->WriteInt(pos, static_cast<int32_t>(value));
    } else if (kind == 4) {
        writer->WriteLong(pos, value);
    } else if (kind == 5) {
        writer->WriteString(pos, BinaryString::FromString(text, pool));
    } else if (kind == 6) {
        Bytes bytes(text, pool);
        writer->WriteBinary(pos, bytes);
    } else if (kind == 8) {
        writer->WriteTimestamp(pos, Timestamp(value, 0), 3);
    } else if (kind == 9) {
        writer->WriteTimestamp(pos, Timestamp(value, extra), 9);
    } else if (kind == 10) {
        writer->WriteDecimal(pos, Decimal(18, 2, value), 18);
    } else if (kind == 21) {
        writer->WriteDecimal(pos, std::nullopt, 30);
    } else if (kind == 12) {
        BinaryRow inner = Inner(value, pool);
        writer->WriteRow(pos, inner);
    } else if (kind == 16) {
        std::vector<MemorySegment> segments = Split(text, 8, extra, pool);
        writer->WriteString(pos, BinaryString::FromAddress(segments, extra, text.size()));
    } else if (kind == 17) {
        BinaryRow inner = At(1, text, 8, extra, pool);
        writer->WriteRow(pos, inner);
    } else if (kind == 14) {
        writer->SetNullAt(pos);
    } else if (kind == 15) {
        writer->WriteTimestamp(pos, std::nullopt, 9);
    } else if (kind == 13) {
        std::vector<int64_t> values = {value, extra};
        BinaryArray inner = BinaryArray::FromLongArray(values, pool);
        writer->WriteArray(pos, inner);
    } else if (kind == 20) {
        writer->SetNullValue<bool>(pos);
    } else if (kind == 22) {
        writer->SetNullValue<int16_t>(pos);
    } else if (kind == 23) {
        writer->SetNullValue<int32_t>(pos);
    }
}
std::string Data(const std::shared_ptr<Bytes>& bytes) {
    return std::string(bytes->data(), bytes->size());
}
BinaryRow Build(int32_t arity, int32_t initial, const std::vector<int32_t>& where,
                const std::vector<int32_t>& kinds, const std::vector<int64_t>& values,
                const std::vector<int32_t>& extras, const std::vector<std::string>& texts,
                int32_t split, MemoryPool* pool) {
    BinaryRow row(arity);
    BinaryRowWriter writer(&row, initial, pool);
    writer.Reset();
    for (int32_t i = 0; i < static_cast<int32_t>(where.size()); i++) {
        if (i > 0 && i == split) {
            writer.Complete();
            writer.Reset();
        }
        PutRow(&writer, where[i], kinds[i], values[i], extras[i], texts[i], pool);
    }
    writer.Complete();
    return row;
}
BinaryArray BuildArray(int32_t count, int32_t width, const std::vector<int32_t>& where,
                       const std::vector<int32_t>& kinds, const std::vector<int64_t>& values,
                       const std::vector<int32_t>& extras, const std::vector<std::string>& texts,
                       int32_t split, MemoryPool* pool) {
    BinaryArray array;
    BinaryArrayWriter writer(&array, count, width, pool);
    for (int32_t i = 0; i < static_cast<int32_t>(where.size()); i++) {
        if (i > 0 && i == split) {
            writer.Complete();
            writer.Reset();
        }
        PutArray(&writer, where[i], kinds[i], values[i], extras[i], texts[i], pool);
    }
    writer.Complete();
    return array;
}
std::string Image(const BinaryRow& row, MemoryPool* pool) {
    std::shared_ptr<Bytes> bytes = MemorySegmentUtils::CopyToBytes(
        row.GetSegments(), row.GetOffset(), row.GetSizeInBytes(), pool);
    return Data(bytes);
}
std::string ImageArray(const BinaryArray& array, MemoryPool* pool) {
    std::shared_ptr<Bytes> bytes = MemorySegmentUtils::CopyToBytes(
        array.GetSegments(), array.GetOffset(), array.GetSizeInBytes(), pool);
    return Data(bytes);
}
int64_t Long(const BinaryRow& row, int32_t pos, int32_t kind) {
    if (kind == 0) {
        return row.GetBoolean(pos) ? 1 : 0;
    } else if (kind == 1) {
        return row.GetByte(pos);
    } else if (kind == 2) {
        return row.GetShort(pos);
    } else if (kind == 3) {
        return row.GetInt(pos);
    } else if (kind == 4) {
        return row.GetLong(pos);
    } else if (kind == 10) {
        return row.GetDecimal(pos, 18, 2).ToUnscaledLong();
    } else if (kind == 23) {
        return row.GetDate(pos);
    } else if (kind == 8) {
        return row.GetTimestamp(pos, 3).GetMillisecond();
    } else if (kind == 9) {
        return row.GetTimestamp(pos, 9).GetMillisecond();
    } else if (kind == 19) {
        return row.GetTimestamp(pos, 9).GetNanoOfMillisecond();
    } else if (kind == 12) {
        return row.GetRow(pos, 2)->GetLong(0);
    } else if (kind == 32) {
        return row.GetRow(pos, 2)->IsNullAt(1) && !row.GetRow(pos, 2)->IsNullAt(0);
    } else if (kind == 13) {
        return row.GetArray(pos)->GetLong(0);
    } else if (kind == 33) {
        return row.GetArray(pos)->GetLong(1);
    } else if (kind == 43) {
        return row.GetArray(pos)->Size();
    } else if (kind == 50) {
        return row.IsNullAt(pos);
    } else if (kind == 51) {
        return row.AnyNull();
    } else if (kind == 52) {
        return row.GetRowKind().value()->ToByteValue();
    }
    return row.GetSizeInBytes();
}
int64_t LongArray(const BinaryArray& array, int32_t pos, int32_t kind) {
    if (kind == 0) {
        return array.GetBoolean(pos) ? 1 : 0;
    } else if (kind == 1) {
        return array.GetByte(pos);
    } else if (kind == 2) {
        return array.GetShort(pos);
    } else if (kind == 3) {
        return array.GetInt(pos);
    } else if (kind == 4) {
        return array.GetLong(pos);
    } else if (kind == 10) {
        return array.GetDecimal(pos, 18, 2).ToUnscaledLong();
    } else if (kind == 23) {
        return array.GetDate(pos);
    } else if (kind == 8) {
        return array.GetTimestamp(pos, 3).GetMillisecond();
    } else if (kind == 9) {
        return array.GetTimestamp(pos, 9).GetMillisecond();
    } else if (kind == 19) {
        return array.GetTimestamp(pos, 9).GetNanoOfMillisecond();
    } else if (kind == 12) {
        return array.GetRow(pos, 2)->GetLong(0);
    } else if (kind == 13) {
        return array.GetArray(pos)->GetLong(0);
    } else if (kind == 33) {
        return array.GetArray(pos)->GetLong(1);
    } else if (kind == 43) {
        return array.GetArray(pos)->Size();
    } else if (kind == 50) {
        return array.IsNullAt(pos);
    } else if (kind == 51) {
        return array.AnyNull();
    }
    return array.Size();
}
std::string Text(const BinaryRow& row, int32_t pos, int32_t kind) {
    if (kind == 6) {
        return Data(row.GetBinary(pos));
    }
    return row.GetString(pos).ToString();
}
std::string TextArray(const BinaryArray& array, int32_t pos, int32_t kind) {
    if (kind == 6) {
        return Data(array.GetBinary(pos));
    }
    return array.GetString(pos).ToString();
}
bool AnyOf(const BinaryRow& row, const std::vector<int32_t>& fields) {
    return row.AnyNull(fields);
}
void Change(BinaryRow* row, int32_t pos, int32_t kind, int64_t value) {
    if (kind == 0) {
        row->SetBoolean(pos, value != 0);
    } else if (kind == 1) {
        row->SetByte(pos, static_cast<char>(value));
    } else if (kind == 2) {
        row->SetShort(pos, static_cast<int16_t>(value));
    } else if (kind == 3) {
        row->SetInt(pos, static_cast<int32_t>(value));
    } else if (kind == 4) {
        row->SetLong(pos, value);
    } else if (kind == 60) {
        row->SetRowKind(RowKind::FromByteValue(static_cast<int8_t>(value)).value());
    } else {
        row->SetNullAt(pos);
    }
}
std::string Changed(int32_t arity, const std::string& image, int32_t size, int32_t offset,
                    int32_t pos, int32_t kind, int64_t value, MemoryPool* pool) {
    BinaryRow row = At(arity, image, size, offset, pool);
    Change(&row, pos, kind, value);
    return Image(row, pool);
}
std::string Copied(int32_t arity, const std::string& image, int32_t size, int32_t offset,
                   MemoryPool* pool) {
    BinaryRow row = At(arity, image, size, offset, pool);
    BinaryRow copy = row.Copy(pool);
    row.SetNullAt(0);
    return Image(copy, pool);
}
bool Same(int32_t arity, const std::string& a, int32_t sa, int32_t oa, const std::string& b,
          int32_t sb, int32_t ob, MemoryPool* pool) {
    return At(arity, a, sa, oa, pool) == At(arity, b, sb, ob, pool);
}
int32_t Hash(int32_t arity, const std::string& image, int32_t size, int32_t offset,
             MemoryPool* pool) {
    return At(arity, image, size, offset, pool).HashCode();
}
Result<std::vector<int32_t>> Ints(const BinaryArray& array) {
    return array.ToIntArray();
}
Result<std::vector<int64_t>> Longs(const BinaryArray& array) {
    return array.ToLongArray();
}
Result<std::vector<int16_t>> Shorts(const BinaryArray& array) {
    return array.ToShortArray();
}
std::string CopiedArray(const std::string& image, int32_t size, int32_t offset, MemoryPool* pool) {
    BinaryArray array = AtArray(image, size, offset, pool);
    BinaryArray copy = array.Copy(pool);
    return ImageArray(copy, pool);
}
std::string FromOther(const std::string& image, int32_t size, int32_t offset, MemoryPool* pool) {
    BinaryArray array = AtArray(image, size, offset, pool);
    const InternalArray* other = &array;
    BinaryArray copy = BinaryArray::FromLongArray(other, pool);
    return ImageArray(copy, pool);
}
int32_t Fixed(int32_t arity) {
    return BinaryRow::CalculateFixPartSizeInBytes(arity);
}
Result<std::vector<char>> Booleans(const BinaryArray& array) {
    return array.ToBooleanArray();
}
Result<std::vector<char>> Chars(const BinaryArray& array) {
    return array.ToByteArray();
}
std::string FromInts(const std::vector<int32_t>& values, MemoryPool* pool) {
    return ImageArray(BinaryArray::FromIntArray(values, pool), pool);
}
std::string FromLongs(const std::vector<int64_t>& values, MemoryPool* pool) {
    return ImageArray(BinaryArray::FromLongArray(values, pool), pool);
}
std::string FloatRow(float value, double wide, int32_t size, int32_t offset, bool set,
                     MemoryPool* pool) {
    BinaryRow row(3);
    BinaryRowWriter writer(&row, 0, pool);
    writer.Reset();
    writer.WriteDouble(2, wide);
    writer.SetNullAt(0);
    writer.WriteFloat(1, value);
    writer.Complete();
    if (!set) {
        return Image(row, pool);
    }
    BinaryRow other = At(3, std::string(32, 0), size, offset, pool);
    other.SetNullAt(0);
    other.SetFloat(1, value);
    other.SetDouble(2, wide);
    return Image(other, pool);
}
std::string FloatArray(float value, MemoryPool* pool) {
    BinaryArray array;
    BinaryArrayWriter writer(&array, 3, 4, pool);
    writer.WriteFloat(2, value);
    writer.SetNullValue<float>(0);
    writer.WriteFloat(1, value);
    writer.Complete();
    return ImageArray(array, pool);
}
std::string DoubleArray(double value, MemoryPool* pool) {
    BinaryArray array;
    BinaryArrayWriter writer(&array, 3, 8, pool);
    writer.WriteDouble(2, value);
    writer.SetNullValue<double>(0);
    writer.WriteDouble(1, value);
    writer.Complete();
    return ImageArray(array, pool);
}
float FloatAt(const BinaryRow& row, int32_t pos) {
    return row.GetFloat(pos);
}
double DoubleAt(const BinaryRow& row, int32_t pos) {
    return row.GetDouble(pos);
}
float FloatIn(const BinaryArray& array, int32_t pos) {
    return array.GetFloat(pos);
}
double DoubleIn(const BinaryArray& array, int32_t pos) {
    return array.GetDouble(pos);
}
Result<std::vector<float>> Floats(const BinaryArray& array) {
    return array.ToFloatArray();
}
Result<std::vector<double>> Doubles(const BinaryArray& array) {
    return array.ToDoubleArray();
}
Result<std::string> Content(const MemorySegmentOutputStream& out, MemoryPool* pool) {
    std::shared_ptr<Bytes> bytes =
        MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), pool);
    return Data(bytes);
}
Result<std::string> Serial(int32_t kind, int32_t chunk, int32_t arity, const std::string& image,
                           int32_t size, int32_t offset, const std::shared_ptr<MemoryPool>& pool) {
    BinaryRow row = At(arity, image, size, offset, pool.get());
    MemorySegmentOutputStream out(chunk, pool);
    if (kind == 0) {
        BinaryRowSerializer serializer(arity, pool);
        PAIMON_RETURN_NOT_OK(serializer.Serialize(row, &out));
        return Content(out, pool.get());
    } else if (kind == 1) {
        PAIMON_RETURN_NOT_OK(SerializationUtils::SerializeBinaryRow(row, &out));
        return Content(out, pool.get());
    }
    std::shared_ptr<Bytes> bytes = SerializationUtils::SerializeBinaryRow(row, pool.get());
    return Data(bytes);
}
Result<std::string> Parsed(const BinaryRow& row, int32_t arity, MemoryPool* pool) {
    if (row.GetFieldCount() != arity) {
        return Status::Invalid("arity");
    }
    return Image(row, pool);
}
Result<std::string> Parse(int32_t kind, int32_t arity, const std::string& text,
                          const std::shared_ptr<MemoryPool>& pool) {
    if (kind == 2) {
        std::shared_ptr<Bytes> bytes = Bytes::AllocateBytes(text, pool.get());
        PAIMON_ASSIGN_OR_RAISE(BinaryRow row, SerializationUtils::DeserializeBinaryRow(bytes));
        return Parsed(row, arity, pool.get());
    }
    auto in = std::make_shared<ByteArrayInputStream>(text.data(), text.size());
    DataInputStream source(in);
    if (kind == 0) {
        BinaryRowSerializer serializer(arity, pool);
        PAIMON_ASSIGN_OR_RAISE(BinaryRow row, serializer.Deserialize(&source));
        return Parsed(row, arity, pool.get());
    }
    PAIMON_ASSIGN_OR_RAISE(BinaryRow row,
                           SerializationUtils::DeserializeBinaryRow(&source, pool.get()));
    return Parsed(row, arity, pool.get());
}
}  // namespace paimon::client31
