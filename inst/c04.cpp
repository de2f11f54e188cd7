// Clients of the data streams: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

#include "paimon/common/io/data_output_stream.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/fs/file_system.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

namespace paimon::client04 {
// an output stream into memory; accepts at most `limit` bytes per call
class Sink : public OutputStream {
 public:
    Sink(int32_t limit, bool fail) : limit_(limit), fail_(fail) {}
    Result<int64_t> GetPos() const override {
        return static_cast<int64_t>(data_.size());
    }
    Result<int32_t> Write(const char* buffer, uint32_t size) override {
        if (fail_) {
            return Status::IOError("sink");
        }
        int32_t i = 0;
        for (; i < static_cast<int32_t>(size) && i < limit_; i++) {
            data_.push_back(buffer[i]);
        }
        return i;
    }
    Status Flush() override {
        return Status::OK();
    }
    Status Close() override {
        return Status::OK();
    }
    Result<std::string> GetUri() const override {
        return std::string("");
    }
    std::vector<char> data_;
    int32_t limit_;
    bool fail_;
};

template <typename T>
Result<std::vector<char>> Put(const T& value, bool set, ByteOrder order, int32_t limit, bool fail) {
    auto sink = std::make_shared<Sink>(limit, fail);
    DataOutputStream out(sink);
    if (set) {
        out.SetOrder(order);
    }
    PAIMON_RETURN_NOT_OK(out.WriteValue<T>(value));
    return sink->data_;
}
#define CLIENT_PUT(T, NAME)                                                                        \
    Result<std::vector<char>> Put##NAME(T value, bool set, ByteOrder order, int32_t limit,         \
                                        bool fail) {                                               \
        return Put<T>(value, set, order, limit, fail);                                             \
    }
CLIENT_PUT(bool, Bool)
CLIENT_PUT(char, Char)
CLIENT_PUT(int16_t, Short)
CLIENT_PUT(uint16_t, UShort)
CLIENT_PUT(int32_t, Int)
CLIENT_PUT(int64_t, Long)
Result<std::vector<char>> PutBytes(const std::shared_ptr<Bytes>& bytes, int32_t limit, bool fail) {
    auto sink = std::make_shared<Sink>(limit, fail);
    DataOutputStream out(sink);
    PAIMON_RETURN_NOT_OK(out.WriteBytes(bytes));
    return sink->data_;
}
Result<std::vector<char>> PutString(const std::string& text, int32_t limit, bool fail) {
    auto sink = std::make_shared<Sink>(limit, fail);
    DataOutputStream out(sink);
    PAIMON_RETURN_NOT_OK(out.WriteString(text));
    return sink->data_;
}

// keeps only the first two bytes
class Head : public Sink {
 public:
    Head() : Sink(2, false) {}
    Result<int32_t> Write(const char* buffer, uint32_t size) override {
        if (data_.empty()) {
            return Sink::Write(buffer, size);
        }
        return static_cast<int32_t>(size);
    }
};
Result<std::vector<char>> PutStringHead(const std::string& text) {
    auto sink = std::make_shared<Head>();
    DataOutputStream out(sink);
    PAIMON_RETURN_NOT_OK(out.WriteString(text));
    return sink->data_;
}

// an input stream that claims `length` bytes and delivers at most `limit` per call
class Source : public InputStream {
 public:
    Source(int64_t length, int32_t limit, bool fail) : length_(length), limit_(limit), fail_(fail) {}
    Status Seek(int64_t offset, SeekOrigin origin) override {
        pos_ = offset;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override {
        return pos_;
    }
    Result<int32_t> Read(char* buffer, uint32_t size) override {
        if (fail_) {
            return Status::IOError("source");
        }
        int32_t i = 0;
        for (; i < static_cast<int32_t>(size) && i < limit_; i++) {
            buffer[i] = 1;
        }
        pos_ += i;
        return i;
    }
    Result<int32_t> Read(char* buffer, uint32_t size, uint64_t offset) override {
        return Status::NotImplemented("");
    }
    void ReadAsync(char* buffer, uint32_t size, uint64_t offset,
                   std::function<void(Status)>&& callback) override {}
    Result<std::string> GetUri() const override {
        return std::string("");
    }
    Result<uint64_t> Length() const override {
        return static_cast<uint64_t>(length_);
    }
    Status Close() override {
        return Status::OK();
    }

 private:
    int64_t pos_ = 0;
    int64_t length_;
    int32_t limit_;
    bool fail_;
};
#define CLIENT_SHORT(T, NAME)                                                        \
    Result<T> Short##NAME(int64_t length, int32_t limit, bool fail) {                \
        DataInputStream din(std::make_shared<Source>(length, limit, fail));          \
        return din.ReadValue<T>();                                                   \
    }
CLIENT_SHORT(bool, Bool)
CLIENT_SHORT(char, Char)
CLIENT_SHORT(int8_t, Byte)
CLIENT_SHORT(int16_t, Short)
CLIENT_SHORT(uint16_t, UShort)
CLIENT_SHORT(int32_t, Int)
CLIENT_SHORT(int64_t, Long)
CLIENT_SHORT(float, Float)
class Two : public Source {
 public:
    Two(int64_t length, int32_t limit) : Source(length, limit, false) {}
    Result<int32_t> Read(char* buffer, uint32_t size) override {
        if (first_) {
            first_ = false;
            buffer[0] = 0;
            buffer[1] = 3;
            return 2;
        }
        return Source::Read(buffer, size);
    }

 private:
    bool first_ = true;
};
Result<std::string> ShortString(const char* data, uint64_t size, int64_t length, int32_t limit) {
    DataInputStream din(std::make_shared<Two>(length, limit));
    return din.ReadString();
}
Status ShortBytes(int64_t length, int32_t limit, bool fail, Bytes* bytes) {
    DataInputStream din(std::make_shared<Source>(length, limit, fail));
    return din.ReadBytes(bytes);
}
Status ShortRaw(int64_t length, int32_t limit, bool fail, char* to, uint32_t size) {
    DataInputStream din(std::make_shared<Source>(length, limit, fail));
    return din.Read(to, size);
}

// delivers whatever it is asked for without touching the buffer
class Count : public Source {
 public:
    explicit Count(int64_t length) : Source(length, 0, false) {}
    Result<int32_t> Read(char* buffer, uint32_t size) override {
        asked_ = size;
        return static_cast<int32_t>(size);
    }
    int64_t asked_ = -1;
};
Result<int64_t> AskRaw(int64_t length, int64_t pos, char* to, uint32_t size) {
    auto source = std::make_shared<Count>(length);
    DataInputStream din(source);
    PAIMON_RETURN_NOT_OK(din.Seek(pos));
    PAIMON_RETURN_NOT_OK(din.Read(to, size));
    return source->asked_;
}

template <typename T>
Result<T> Take(const char* data, uint64_t size, int64_t pos, bool set, ByteOrder order,
               int64_t* after) {
    auto in = std::make_shared<ByteArrayInputStream>(data, size);
    DataInputStream din(in);
    if (set) {
        din.SetOrder(order);
    }
    PAIMON_RETURN_NOT_OK(din.Seek(pos));
    PAIMON_ASSIGN_OR_RAISE(T value, din.ReadValue<T>());
    PAIMON_ASSIGN_OR_RAISE(*after, din.GetPos());
    return value;
}
#define CLIENT_TAKE(T, NAME)                                                               \
    Result<T> Take##NAME(const char* data, uint64_t size, int64_t pos, bool set,           \
                         ByteOrder order, int64_t* after) {                                \
        return Take<T>(data, size, pos, set, order, after);                                \
    }
CLIENT_TAKE(bool, Bool)
CLIENT_TAKE(char, Char)
CLIENT_TAKE(int8_t, Byte)
CLIENT_TAKE(int16_t, Short)
CLIENT_TAKE(uint16_t, UShort)
CLIENT_TAKE(int32_t, Int)
CLIENT_TAKE(int64_t, Long)
CLIENT_TAKE(float, Float)
Result<std::string> TakeString(const char* data, uint64_t size, int64_t pos, int64_t* after) {
    auto in = std::make_shared<ByteArrayInputStream>(data, size);
    DataInputStream din(in);
    PAIMON_RETURN_NOT_OK(din.Seek(pos));
    PAIMON_ASSIGN_OR_RAISE(std::string value, din.ReadString());
    PAIMON_ASSIGN_OR_RAISE(*after, din.GetPos());
    return value;
}
Status TakeBytes(const char* data, uint64_t size, int64_t pos, Bytes* bytes, int64_t* after) {
    auto in = std::make_shared<ByteArrayInputStream>(data, size);
    DataInputStream din(in);
    PAIMON_RETURN_NOT_OK(din.Seek(pos));
    PAIMON_RETURN_NOT_OK(din.ReadBytes(bytes));
    PAIMON_ASSIGN_OR_RAISE(*after, din.GetPos());
    return Status::OK();
}
Status TakeRaw(const char* data, uint64_t size, int64_t pos, char* to, uint32_t n, int64_t* after) {
    auto in = std::make_shared<ByteArrayInputStream>(data, size);
    DataInputStream din(in);
    PAIMON_RETURN_NOT_OK(din.Seek(pos));
    PAIMON_RETURN_NOT_OK(din.Read(to, n));
    PAIMON_ASSIGN_OR_RAISE(*after, din.GetPos());
    return Status::OK();
}

// writes lead bytes, then the value, then one byte more
class Segments {
 public:
    static std::vector<char> Content(const MemorySegmentOutputStream& out, int32_t segment_size) {
        std::vector<char> data;
        for (int64_t i = 0; i < out.CurrentSize(); i++) {
            data.push_back(out.Segments()[i / segment_size].Get(i % segment_size));
        }
        return data;
    }
};
#define CLIENT_SEG(T, NAME)                                                                       \
    std::vector<char> Seg##NAME(int32_t segment_size, const std::vector<char>& lead, T value,     \
                                bool set, ByteOrder order, char last,                             \
                                const std::shared_ptr<MemoryPool>& pool) {                        \
        MemorySegmentOutputStream out(segment_size, pool);                                        \
        if (set) {                                                                                \
            out.SetOrder(order);                                                                  \
        }                                                                                         \
        for (const auto& b : lead) {                                                              \
            out.WriteValue<char>(b);                                                              \
        }                                                                                         \
        out.WriteValue<T>(value);                                                                 \
        out.WriteValue<char>(last);                                                               \
        return Segments::Content(out, segment_size);                                              \
    }
CLIENT_SEG(bool, Bool)
CLIENT_SEG(char, Char)
CLIENT_SEG(int16_t, Short)
CLIENT_SEG(int32_t, Int)
CLIENT_SEG(int64_t, Long)
CLIENT_SEG(float, Float)
CLIENT_SEG(double, Double)
std::vector<char> SegString(int32_t segment_size, const std::vector<char>& lead,
                            const std::string& text, char last,
                            const std::shared_ptr<MemoryPool>& pool) {
    MemorySegmentOutputStream out(segment_size, pool);
    for (const auto& b : lead) {
        out.WriteValue<char>(b);
    }
    out.WriteString(text);
    out.WriteValue<char>(last);
    return Segments::Content(out, segment_size);
}
std::vector<char> SegBytes(int32_t segment_size, const std::vector<char>& lead,
                           const std::shared_ptr<Bytes>& bytes, char last,
                           const std::shared_ptr<MemoryPool>& pool) {
    MemorySegmentOutputStream out(segment_size, pool);
    for (const auto& b : lead) {
        out.WriteValue<char>(b);
    }
    out.WriteBytes(bytes);
    out.WriteValue<char>(last);
    return Segments::Content(out, segment_size);
}
std::vector<char> SegRaw(int32_t segment_size, const std::vector<char>& lead, const char* data,
                         uint32_t size, char last, const std::shared_ptr<MemoryPool>& pool) {
    MemorySegmentOutputStream out(segment_size, pool);
    for (const auto& b : lead) {
        out.WriteValue<char>(b);
    }
    out.Write(data, size);
    out.WriteValue<char>(last);
    return Segments::Content(out, segment_size);
}
std::vector<char> SegPart(int32_t segment_size, const std::vector<char>& lead,
                          const std::shared_ptr<Bytes>& bytes, int32_t offset, int32_t len,
                          char last, const std::shared_ptr<MemoryPool>& pool) {
    MemorySegmentOutputStream out(segment_size, pool);
    for (const auto& b : lead) {
        out.WriteValue<char>(b);
    }
    MemorySegment segment = MemorySegment::Wrap(bytes);
    out.Write(segment, offset, len);
    out.WriteValue<char>(last);
    return Segments::Content(out, segment_size);
}
}  // namespace paimon::client04
