// Declarations-only stand-in for the parts of Apache Arrow that paimon-cpp
// names.  Arrow itself is not installed in this environment; clang only needs
// declarations to resolve the repository's own code.  Nothing here is linked
// or run.
#pragma once
#include <array>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

struct ArrowSchema {
    const char* format;
    const char* name;
    const char* metadata;
    int64_t flags;
    int64_t n_children;
    struct ArrowSchema** children;
    struct ArrowSchema* dictionary;
    void (*release)(struct ArrowSchema*);
    void* private_data;
};
struct ArrowArray {
    int64_t length;
    int64_t null_count;
    int64_t offset;
    int64_t n_buffers;
    int64_t n_children;
    const void** buffers;
    struct ArrowArray** children;
    struct ArrowArray* dictionary;
    void (*release)(struct ArrowArray*);
    void* private_data;
};
#define ARROW_FLAG_NULLABLE 2
inline int ArrowSchemaIsReleased(const struct ArrowSchema* s) { return s->release == nullptr; }
inline void ArrowSchemaMarkReleased(struct ArrowSchema* s) { s->release = nullptr; }
void ArrowSchemaMove(struct ArrowSchema* src, struct ArrowSchema* dest);
void ArrowSchemaRelease(struct ArrowSchema* s);
inline int ArrowArrayIsReleased(const struct ArrowArray* a) { return a->release == nullptr; }
inline void ArrowArrayMarkReleased(struct ArrowArray* a) { a->release = nullptr; }
void ArrowArrayMove(struct ArrowArray* src, struct ArrowArray* dest);
void ArrowArrayRelease(struct ArrowArray* a);

namespace arrow {
enum class StatusCode : char {
    OK = 0, OutOfMemory = 1, KeyError = 2, TypeError = 3, Invalid = 4, IOError = 5,
    CapacityError = 6, IndexError = 7, Cancelled = 8, UnknownError = 9, NotImplemented = 10,
    SerializationError = 11, RError = 13, CodeGenError = 40, ExpressionValidationError = 41,
    ExecutionError = 42, AlreadyExists = 45
};
class Status {
 public:
    Status();
    Status(StatusCode, std::string);
    static Status OK();
    template <typename... A> static Status Invalid(A&&...);
    template <typename... A> static Status IOError(A&&...);
    template <typename... A> static Status NotImplemented(A&&...);
    template <typename... A> static Status UnknownError(A&&...);
    template <typename... A> static Status TypeError(A&&...);
    template <typename... A> static Status SerializationError(A&&...);
    template <typename... A> static Status OutOfMemory(A&&...);
    template <typename... A> static Status KeyError(A&&...);
    template <typename... A> static Status IndexError(A&&...);
    template <typename... A> static Status CapacityError(A&&...);
    bool ok() const;
    StatusCode code() const;
    const std::string& message() const;
    std::string ToString() const;
    std::string ToStringWithoutContextLines() const;
    bool IsOutOfMemory() const; bool IsKeyError() const; bool IsInvalid() const; bool IsIOError() const;
    bool IsCapacityError() const; bool IsIndexError() const; bool IsTypeError() const;
    bool IsUnknownError() const; bool IsNotImplemented() const; bool IsSerializationError() const;
};
template <typename T>
class Result {
 public:
    using ValueType = T;
    Result(const Status&);
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U, T> && !std::is_same_v<std::decay_t<U>, Status>>>
    Result(U&&);
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U, T>>> Result(const Result<U>&);
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U, T>>> Result(Result<U>&&);
    Result(const Result&); Result(Result&&);
    Result& operator=(const Result&); Result& operator=(Result&&);
    bool ok() const;
    const Status& status() const&;
    T& ValueOrDie() &; const T& ValueOrDie() const&; T&& ValueOrDie() &&;
    T ValueUnsafe() &&; const T& ValueUnsafe() const&; T& ValueUnsafe() &;
    T MoveValueUnsafe();
    T& operator*() &; const T& operator*() const&; T* operator->();
    T ValueOr(T) &&;
};
#define ARROW_RETURN_NOT_OK(s) do { ::arrow::Status _st = (s); if (!_st.ok()) return _st; } while (false)
#define ARROW_CONCAT_(a, b) a##b
#define ARROW_CONCAT(a, b) ARROW_CONCAT_(a, b)
#define ARROW_ASSIGN_OR_RAISE_IMPL(r, lhs, expr) auto&& r = (expr); if (!r.ok()) return r.status(); lhs = std::move(r).ValueUnsafe()
#define ARROW_ASSIGN_OR_RAISE(lhs, expr) ARROW_ASSIGN_OR_RAISE_IMPL(ARROW_CONCAT(_error_or_value, __COUNTER__), lhs, expr)
#define ARROW_PREDICT_FALSE(x) (x)
#define ARROW_PREDICT_TRUE(x) (x)

template <typename T> class Future {
 public:
    static Future MakeFinished(Result<T>);
    static Future Make();
    void MarkFinished(Result<T>);
    const Result<T>& result() const;
    void Wait() const;
    const Status& status() const;
};
class MemoryPool {
 public:
    virtual ~MemoryPool();
    static std::unique_ptr<MemoryPool> CreateDefault();
    Status Allocate(int64_t size, uint8_t** out);
    virtual Status Allocate(int64_t size, int64_t alignment, uint8_t** out) = 0;
    virtual Status Reallocate(int64_t old_size, int64_t new_size, int64_t alignment, uint8_t** ptr) = 0;
    Status Reallocate(int64_t old_size, int64_t new_size, uint8_t** ptr);
    virtual void Free(uint8_t* buffer, int64_t size, int64_t alignment) = 0;
    void Free(uint8_t* buffer, int64_t size);
    virtual void ReleaseUnused();
    virtual int64_t bytes_allocated() const = 0;
    virtual int64_t max_memory() const;
    virtual int64_t total_bytes_allocated() const = 0;
    virtual int64_t num_allocations() const = 0;
    virtual std::string backend_name() const = 0;
};
MemoryPool* default_memory_pool();
namespace internal {
class MemoryPoolStats {
 public:
    int64_t max_memory() const; int64_t bytes_allocated() const; int64_t total_bytes_allocated() const; int64_t num_allocations() const;
    void DidAllocateBytes(int64_t); void DidReallocateBytes(int64_t, int64_t); void DidFreeBytes(int64_t);
    void UpdateAllocatedBytes(int64_t diff, bool is_free = false);
};
uint32_t crc32(uint32_t prev, const void* data, size_t length);
template <typename To, typename From> inline To checked_cast(From&& v) { return dynamic_cast<To>(v); }
template <typename T, typename U> std::shared_ptr<T> checked_pointer_cast(std::shared_ptr<U> r) { return std::dynamic_pointer_cast<T>(std::move(r)); }
template <typename T, typename U> std::unique_ptr<T> checked_pointer_cast(std::unique_ptr<U> r);
std::string ToString(int);
template <typename T> std::vector<T> Iota(T n);
template <typename T> std::vector<T> Iota(T a, T b);
class Executor; class ThreadPool;
}  // namespace internal
using internal::checked_cast; using internal::checked_pointer_cast;

class Buffer {
 public:
    Buffer(const uint8_t*, int64_t);
    virtual ~Buffer();
    const uint8_t* data() const; uint8_t* mutable_data(); int64_t size() const; int64_t capacity() const;
    template <typename T> const T* data_as() const; template <typename T> T* mutable_data_as();
    bool is_mutable() const; std::string ToString() const;
    static std::shared_ptr<Buffer> FromString(std::string);
    template <typename T> static std::shared_ptr<Buffer> Wrap(const T*, size_t);
    template <typename T> static std::shared_ptr<Buffer> Wrap(const std::vector<T>&);
    template <typename T> static std::shared_ptr<Buffer> FromVector(std::vector<T>);
    operator std::string_view() const;
 protected:
    bool is_mutable_; const uint8_t* data_; int64_t size_; int64_t capacity_;
};
class MutableBuffer : public Buffer { public: using Buffer::Buffer; };
class ResizableBuffer : public MutableBuffer {
 public:
    using MutableBuffer::MutableBuffer;
    Status Resize(int64_t, bool shrink = true); Status Reserve(int64_t);
};
Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t, MemoryPool* = nullptr);
Result<std::unique_ptr<ResizableBuffer>> AllocateResizableBuffer(int64_t, MemoryPool* = nullptr);
Result<std::shared_ptr<Buffer>> AllocateBitmap(int64_t, MemoryPool* = nullptr);
template <typename T> class TypedBufferBuilder {
 public:
    explicit TypedBufferBuilder(MemoryPool* = nullptr);
    Status Append(T); Status Append(int64_t, T); Status Append(const T*, int64_t); void UnsafeAppend(T); void UnsafeAppend(int64_t, T); Status Reserve(int64_t); Status Resize(int64_t);
    Status Finish(std::shared_ptr<Buffer>*, bool = true); Result<std::shared_ptr<Buffer>> Finish(bool = true);
    int64_t length() const; int64_t false_count() const; const T* data() const; T* mutable_data(); void Reset();
};
namespace bit_util {
void SetBit(uint8_t*, int64_t); bool GetBit(const uint8_t*, uint64_t); void ClearBit(uint8_t*, int64_t);
void SetBitTo(uint8_t*, int64_t, bool); int64_t BytesForBits(int64_t);
}
namespace internal { void BitmapAnd(const uint8_t*, int64_t, const uint8_t*, int64_t, int64_t, int64_t, uint8_t*);
Result<std::shared_ptr<Buffer>> BitmapAnd(MemoryPool*, const uint8_t*, int64_t, const uint8_t*, int64_t, int64_t, int64_t);
template <typename F> struct LazyRange { struct It { auto operator*() const -> decltype(std::declval<F>()(int64_t{})); It& operator++(); bool operator!=(const It&) const; }; It begin() const; It end() const; };
template <typename F> LazyRange<F> MakeLazyRange(F&&, int64_t);
class StringToFloatConverter; bool StringToFloat(const char*, size_t, char, float*); bool StringToFloat(const char*, size_t, char, double*);
template <typename T> bool ParseValue(const char*, size_t, typename T::c_type*);
}

struct Type { enum type { NA = 0, BOOL, UINT8, INT8, UINT16, INT16, UINT32, INT32, UINT64, INT64, HALF_FLOAT, FLOAT, DOUBLE, STRING, BINARY, FIXED_SIZE_BINARY, DATE32, DATE64, TIMESTAMP, TIME32, TIME64, INTERVAL_MONTHS, INTERVAL_DAY_TIME, DECIMAL128, DECIMAL = DECIMAL128, DECIMAL256, LIST, STRUCT, SPARSE_UNION, DENSE_UNION, DICTIONARY, MAP, EXTENSION, FIXED_SIZE_LIST, DURATION, LARGE_STRING, LARGE_BINARY, LARGE_LIST, MAX_ID }; };
struct TimeUnit { enum type { SECOND = 0, MILLI = 1, MICRO = 2, NANO = 3 }; static const std::vector<type>& values(); };
std::ostream& operator<<(std::ostream&, TimeUnit::type);
class KeyValueMetadata {
 public:
    KeyValueMetadata(); KeyValueMetadata(std::vector<std::string>, std::vector<std::string>);
    explicit KeyValueMetadata(const std::unordered_map<std::string, std::string>&);
    static std::shared_ptr<KeyValueMetadata> Make(std::vector<std::string>, std::vector<std::string>);
    Result<std::string> Get(std::string_view) const; bool Contains(std::string_view) const; Status Set(std::string, std::string);
    void ToUnorderedMap(std::unordered_map<std::string, std::string>*) const; int FindKey(std::string_view) const;
    const std::string& key(int64_t) const; const std::string& value(int64_t) const; int64_t size() const; bool Equals(const KeyValueMetadata&) const;
    std::shared_ptr<KeyValueMetadata> Copy() const; std::string ToString() const; void Append(std::string, std::string);
    const std::vector<std::string>& keys() const; const std::vector<std::string>& values() const;
    std::shared_ptr<KeyValueMetadata> Merge(const KeyValueMetadata&) const;
};
std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string>, std::vector<std::string>);
std::shared_ptr<KeyValueMetadata> key_value_metadata(const std::unordered_map<std::string, std::string>&);
class Field; class DataType; class Schema; class Array; class ArrayBuilder; struct Scalar;
using FieldVector = std::vector<std::shared_ptr<Field>>; using DataTypeVector = std::vector<std::shared_ptr<DataType>>; using ArrayVector = std::vector<std::shared_ptr<Array>>; using BufferVector = std::vector<std::shared_ptr<Buffer>>;
class DataType {
 public:
    virtual ~DataType();
    Type::type id() const; virtual std::string ToString(bool = false) const; virtual std::string name() const; bool Equals(const DataType&, bool = false) const; bool Equals(const std::shared_ptr<DataType>&, bool = false) const;
    int num_fields() const; const std::shared_ptr<Field>& field(int) const; const FieldVector& fields() const; virtual int bit_width() const; virtual int byte_width() const;
};
class Field {
 public:
    Field(std::string, std::shared_ptr<DataType>, bool = true, std::shared_ptr<const KeyValueMetadata> = nullptr);
    const std::string& name() const; const std::shared_ptr<DataType>& type() const; bool nullable() const; const std::shared_ptr<const KeyValueMetadata>& metadata() const; bool HasMetadata() const;
    std::shared_ptr<Field> WithMetadata(const std::shared_ptr<const KeyValueMetadata>&) const; std::shared_ptr<Field> WithMergedMetadata(const std::shared_ptr<const KeyValueMetadata>&) const; std::shared_ptr<Field> WithType(const std::shared_ptr<DataType>&) const; std::shared_ptr<Field> WithName(const std::string&) const; std::shared_ptr<Field> WithNullable(bool) const; std::shared_ptr<Field> RemoveMetadata() const;
    bool Equals(const Field&, bool = false) const; bool Equals(const std::shared_ptr<Field>&, bool = false) const; std::string ToString(bool = false) const; std::shared_ptr<Field> Copy() const;
};
class Schema {
 public:
    explicit Schema(FieldVector, std::shared_ptr<const KeyValueMetadata> = nullptr);
    int num_fields() const; const std::shared_ptr<Field>& field(int) const; const FieldVector& fields() const; std::vector<std::string> field_names() const; std::shared_ptr<Field> GetFieldByName(std::string_view) const; int GetFieldIndex(std::string_view) const; std::vector<int> GetAllFieldIndices(std::string_view) const; FieldVector GetAllFieldsByName(std::string_view) const;
    bool Equals(const Schema&, bool = false) const; bool Equals(const std::shared_ptr<Schema>&, bool = false) const; std::string ToString(bool = false) const; const std::shared_ptr<const KeyValueMetadata>& metadata() const; bool HasMetadata() const; std::shared_ptr<Schema> WithMetadata(const std::shared_ptr<const KeyValueMetadata>&) const; std::shared_ptr<Schema> RemoveMetadata() const;
    Result<std::shared_ptr<Schema>> AddField(int, const std::shared_ptr<Field>&) const; Result<std::shared_ptr<Schema>> RemoveField(int) const; Result<std::shared_ptr<Schema>> SetField(int, const std::shared_ptr<Field>&) const; Status CanReferenceFieldsByNames(const std::vector<std::string>&) const;
};
class NestedType : public DataType {}; class FixedWidthType : public DataType {}; class PrimitiveCType : public FixedWidthType {};
#define PSTUB_NUM(N, C) class N##Type : public PrimitiveCType { public: using c_type = C; static constexpr Type::type type_id = Type::NA; };
PSTUB_NUM(UInt8, uint8_t) PSTUB_NUM(Int8, int8_t) PSTUB_NUM(UInt16, uint16_t) PSTUB_NUM(Int16, int16_t) PSTUB_NUM(UInt32, uint32_t) PSTUB_NUM(Int32, int32_t) PSTUB_NUM(UInt64, uint64_t) PSTUB_NUM(Int64, int64_t) PSTUB_NUM(Float, float) PSTUB_NUM(Double, double) PSTUB_NUM(Boolean, bool) PSTUB_NUM(Date32, int32_t) PSTUB_NUM(Date64, int64_t)
class NullType : public DataType {};
class BinaryType : public DataType { public: using offset_type = int32_t; using c_type = char; }; class StringType : public BinaryType {}; class LargeBinaryType : public DataType { public: using offset_type = int64_t; }; class LargeStringType : public LargeBinaryType {}; class FixedSizeBinaryType : public FixedWidthType { public: int32_t byte_width() const override; };
class TimestampType : public PrimitiveCType { public: using c_type = int64_t; TimestampType(TimeUnit::type, const std::string& = ""); TimeUnit::type unit() const; const std::string& timezone() const; };
class Time32Type : public DataType { public: using c_type = int32_t; TimeUnit::type unit() const; };
class DecimalType : public FixedSizeBinaryType { public: int32_t precision() const; int32_t scale() const; static int32_t DecimalSize(int32_t); }; class Decimal128Type : public DecimalType { public: Decimal128Type(int32_t, int32_t); };
class BaseListType : public NestedType { public: const std::shared_ptr<DataType>& value_type() const; const std::shared_ptr<Field>& value_field() const; }; class ListType : public BaseListType { public: using offset_type = int32_t; explicit ListType(const std::shared_ptr<Field>&); explicit ListType(const std::shared_ptr<DataType>&); };
class MapType : public ListType { public: MapType(std::shared_ptr<Field>, std::shared_ptr<Field>, bool = false); MapType(std::shared_ptr<DataType>, std::shared_ptr<Field>, bool = false); MapType(std::shared_ptr<DataType>, std::shared_ptr<DataType>, bool = false); const std::shared_ptr<Field>& key_field() const; const std::shared_ptr<DataType>& key_type() const; const std::shared_ptr<Field>& item_field() const; const std::shared_ptr<DataType>& item_type() const; bool keys_sorted() const; };
class StructType : public NestedType { public: Result<std::shared_ptr<StructType>> AddField(int, const std::shared_ptr<Field>&) const; explicit StructType(const FieldVector&); std::shared_ptr<Field> GetFieldByName(const std::string&) const; int GetFieldIndex(const std::string&) const; FieldVector GetAllFieldsByName(const std::string&) const; };
class DictionaryType : public FixedWidthType { public: const std::shared_ptr<DataType>& index_type() const; const std::shared_ptr<DataType>& value_type() const; };
const std::shared_ptr<DataType>& null(); const std::shared_ptr<DataType>& boolean(); const std::shared_ptr<DataType>& int8(); const std::shared_ptr<DataType>& int16(); const std::shared_ptr<DataType>& int32(); const std::shared_ptr<DataType>& int64(); const std::shared_ptr<DataType>& uint8(); const std::shared_ptr<DataType>& uint16(); const std::shared_ptr<DataType>& uint32(); const std::shared_ptr<DataType>& uint64(); const std::shared_ptr<DataType>& float32(); const std::shared_ptr<DataType>& float64(); const std::shared_ptr<DataType>& utf8(); const std::shared_ptr<DataType>& binary(); const std::shared_ptr<DataType>& large_binary(); const std::shared_ptr<DataType>& large_utf8(); const std::shared_ptr<DataType>& date32(); const std::shared_ptr<DataType>& date64();
std::shared_ptr<DataType> decimal128(int32_t, int32_t); std::shared_ptr<DataType> decimal(int32_t, int32_t); std::shared_ptr<DataType> timestamp(TimeUnit::type, const std::string& = ""); std::shared_ptr<DataType> time32(TimeUnit::type); std::shared_ptr<DataType> list(const std::shared_ptr<Field>&); std::shared_ptr<DataType> list(const std::shared_ptr<DataType>&); std::shared_ptr<DataType> map(std::shared_ptr<DataType>, std::shared_ptr<Field>, bool = false); std::shared_ptr<DataType> map(std::shared_ptr<DataType>, std::shared_ptr<DataType>, bool = false); std::shared_ptr<DataType> struct_(const FieldVector&); std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>&, const std::shared_ptr<DataType>&, bool = false); std::shared_ptr<DataType> fixed_size_binary(int32_t);
std::shared_ptr<Field> field(std::string, std::shared_ptr<DataType>, bool = true, std::shared_ptr<const KeyValueMetadata> = nullptr); std::shared_ptr<Field> field(std::string, std::shared_ptr<DataType>, std::shared_ptr<const KeyValueMetadata>);
std::shared_ptr<Schema> schema(FieldVector, std::shared_ptr<const KeyValueMetadata> = nullptr);
bool is_primitive(Type::type); bool is_binary_like(Type::type); bool is_nested(Type::type);
struct ArraySpan { int64_t length; };
constexpr int64_t kUnknownNullCount = -1;
struct ArrayData {
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType>, int64_t, BufferVector, int64_t = kUnknownNullCount, int64_t = 0);
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType>, int64_t, BufferVector, std::vector<std::shared_ptr<ArrayData>>, int64_t = kUnknownNullCount, int64_t = 0);
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType>, int64_t, int64_t = kUnknownNullCount, int64_t = 0);
    std::shared_ptr<ArrayData> Copy() const; std::shared_ptr<ArrayData> Slice(int64_t, int64_t) const; int64_t GetNullCount() const; void SetNullCount(int64_t);
    template <typename T> const T* GetValues(int) const; template <typename T> T* GetMutableValues(int);
    std::shared_ptr<DataType> type; int64_t length; int64_t null_count; int64_t offset; BufferVector buffers; std::vector<std::shared_ptr<ArrayData>> child_data; std::shared_ptr<ArrayData> dictionary;
};
struct EqualOptions { static EqualOptions Defaults(); EqualOptions nans_equal(bool) const; EqualOptions diff_sink(std::ostream*) const; };
class Array {
 public:
    virtual ~Array();
    bool IsNull(int64_t) const; bool IsValid(int64_t) const; Result<std::shared_ptr<Scalar>> GetScalar(int64_t) const; int64_t length() const; int64_t offset() const; int64_t null_count() const; const std::shared_ptr<DataType>& type() const; Type::type type_id() const; const std::shared_ptr<ArrayData>& data() const; const std::shared_ptr<Buffer>& null_bitmap() const; const uint8_t* null_bitmap_data() const;
    bool Equals(const Array&, const EqualOptions& = EqualOptions::Defaults()) const; bool Equals(const std::shared_ptr<Array>&, const EqualOptions& = EqualOptions::Defaults()) const; std::string Diff(const Array&) const; std::shared_ptr<Array> Slice(int64_t, int64_t) const; std::shared_ptr<Array> Slice(int64_t) const; std::string ToString() const; Status Validate() const; Status ValidateFull() const; Result<std::shared_ptr<Array>> View(const std::shared_ptr<DataType>&) const; int num_fields() const; bool RangeEquals(int64_t, int64_t, int64_t, const Array&) const;
};
class FlatArray : public Array {}; class PrimitiveArray : public FlatArray { public: const std::shared_ptr<Buffer>& values() const; }; class NullArray : public FlatArray {};
template <typename TYPE> class NumericArray : public PrimitiveArray { public: using TypeClass = TYPE; using value_type = typename TYPE::c_type; NumericArray(int64_t, const std::shared_ptr<Buffer>&, const std::shared_ptr<Buffer>& = nullptr, int64_t = -1, int64_t = 0); NumericArray(const std::shared_ptr<DataType>&, int64_t, const std::shared_ptr<Buffer>&, const std::shared_ptr<Buffer>& = nullptr, int64_t = -1, int64_t = 0); explicit NumericArray(const std::shared_ptr<ArrayData>&); value_type Value(int64_t) const; value_type GetView(int64_t) const; const value_type* raw_values() const; std::optional<value_type> operator[](int64_t) const; };
using Int8Array = NumericArray<Int8Type>; using Int16Array = NumericArray<Int16Type>; using Int32Array = NumericArray<Int32Type>; using Int64Array = NumericArray<Int64Type>; using UInt8Array = NumericArray<UInt8Type>; using UInt16Array = NumericArray<UInt16Type>; using UInt32Array = NumericArray<UInt32Type>; using UInt64Array = NumericArray<UInt64Type>; using FloatArray = NumericArray<FloatType>; using DoubleArray = NumericArray<DoubleType>; using Date32Array = NumericArray<Date32Type>; using TimestampArray = NumericArray<TimestampType>;
class BooleanArray : public PrimitiveArray { public: using TypeClass = BooleanType; explicit BooleanArray(const std::shared_ptr<ArrayData>&); BooleanArray(int64_t, const std::shared_ptr<Buffer>&, const std::shared_ptr<Buffer>& = nullptr, int64_t = -1, int64_t = 0); bool Value(int64_t) const; bool GetView(int64_t) const; int64_t true_count() const; };
class BinaryArray : public FlatArray { public: int64_t total_values_length() const; using TypeClass = BinaryType; using offset_type = int32_t; explicit BinaryArray(const std::shared_ptr<ArrayData>&); std::string_view GetView(int64_t) const; std::string_view Value(int64_t) const; std::string GetString(int64_t) const; const uint8_t* GetValue(int64_t, int32_t*) const; int32_t value_offset(int64_t) const; int32_t value_length(int64_t) const; std::shared_ptr<Buffer> value_data() const; std::shared_ptr<Buffer> value_offsets() const; const uint8_t* raw_data() const; };
class StringArray : public BinaryArray { public: using BinaryArray::BinaryArray; StringArray(int64_t, const std::shared_ptr<Buffer>&, const std::shared_ptr<Buffer>&, const std::shared_ptr<Buffer>& = nullptr, int64_t = -1, int64_t = 0); };
class LargeBinaryArray : public FlatArray { public: LargeBinaryArray(int64_t, const std::shared_ptr<Buffer>&, const std::shared_ptr<Buffer>&, const std::shared_ptr<Buffer>& = nullptr, int64_t = -1, int64_t = 0); explicit LargeBinaryArray(const std::shared_ptr<ArrayData>&); const uint8_t* GetValue(int64_t, int64_t*) const; std::string_view GetView(int64_t) const; std::string_view Value(int64_t) const; std::string GetString(int64_t) const; int64_t value_length(int64_t) const; int64_t value_offset(int64_t) const; std::shared_ptr<Buffer> value_data() const; }; class LargeStringArray : public LargeBinaryArray {};
class FixedSizeBinaryArray : public PrimitiveArray { public: const uint8_t* GetValue(int64_t) const; std::string_view GetView(int64_t) const; int32_t byte_width() const; }; class Decimal128Array : public FixedSizeBinaryArray { public: std::string FormatValue(int64_t) const; };
class ListArray : public Array { public: using offset_type = int32_t; ListArray(std::shared_ptr<DataType>, int64_t, std::shared_ptr<Buffer>, std::shared_ptr<Array>, std::shared_ptr<Buffer> = nullptr, int64_t = -1, int64_t = 0); explicit ListArray(std::shared_ptr<ArrayData>); static Result<std::shared_ptr<ListArray>> FromArrays(const Array&, const Array&, MemoryPool* = nullptr); static Result<std::shared_ptr<ListArray>> FromArrays(std::shared_ptr<DataType>, const Array&, const Array&, MemoryPool* = nullptr); const std::shared_ptr<Array>& values() const; std::shared_ptr<DataType> value_type() const; int32_t value_offset(int64_t) const; int32_t value_length(int64_t) const; std::shared_ptr<Array> value_slice(int64_t) const; std::shared_ptr<Array> offsets() const; std::shared_ptr<Buffer> value_offsets() const; const int32_t* raw_value_offsets() const; };
class MapArray : public ListArray { public: MapArray(const std::shared_ptr<DataType>&, int64_t, const std::shared_ptr<Buffer>&, const std::shared_ptr<Array>&, const std::shared_ptr<Array>&, const std::shared_ptr<Buffer>& = nullptr, int64_t = -1, int64_t = 0); MapArray(const std::shared_ptr<DataType>&, int64_t, const std::shared_ptr<Buffer>&, const std::shared_ptr<Array>&, const std::shared_ptr<Buffer>& = nullptr, int64_t = -1, int64_t = 0); explicit MapArray(const std::shared_ptr<ArrayData>&); const std::shared_ptr<Array>& keys() const; const std::shared_ptr<Array>& items() const; const MapType* map_type() const; };
class StructArray : public Array { public: StructArray(const std::shared_ptr<DataType>&, int64_t, const ArrayVector&, std::shared_ptr<Buffer> = nullptr, int64_t = -1, int64_t = 0); explicit StructArray(const std::shared_ptr<ArrayData>&); static Result<std::shared_ptr<StructArray>> Make(const ArrayVector&, const std::vector<std::string>&, std::shared_ptr<Buffer> = nullptr, int64_t = -1, int64_t = 0); static Result<std::shared_ptr<StructArray>> Make(const ArrayVector&, const FieldVector&, std::shared_ptr<Buffer> = nullptr, int64_t = -1, int64_t = 0); const StructType* struct_type() const; const std::shared_ptr<Array>& field(int) const; const ArrayVector& fields() const; std::shared_ptr<Array> GetFieldByName(const std::string&) const; Result<ArrayVector> Flatten(MemoryPool* = nullptr) const; };
class DictionaryArray : public Array { public: DictionaryArray(const std::shared_ptr<DataType>&, const std::shared_ptr<Array>&, const std::shared_ptr<Array>&); const std::shared_ptr<Array>& dictionary() const; const std::shared_ptr<Array>& indices() const; int64_t GetValueIndex(int64_t) const; const DictionaryType* dict_type() const; };
class ChunkedArray { public: explicit ChunkedArray(ArrayVector, std::shared_ptr<DataType> = nullptr); explicit ChunkedArray(std::shared_ptr<Array>); static Result<std::shared_ptr<ChunkedArray>> Make(ArrayVector, std::shared_ptr<DataType> = nullptr); int64_t length() const; int num_chunks() const; const std::shared_ptr<Array>& chunk(int) const; const ArrayVector& chunks() const; const std::shared_ptr<DataType>& type() const; bool Equals(const ChunkedArray&) const; bool Equals(const std::shared_ptr<ChunkedArray>&) const; std::string ToString() const; std::shared_ptr<ChunkedArray> Slice(int64_t, int64_t) const; };
class RecordBatch { public: static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema>, int64_t, ArrayVector); int64_t num_rows() const; int num_columns() const; const std::shared_ptr<Array>& column(int) const; const ArrayVector& columns() const; const std::shared_ptr<Schema>& schema() const; Result<std::shared_ptr<StructArray>> ToStructArray() const; static Result<std::shared_ptr<RecordBatch>> FromStructArray(const std::shared_ptr<Array>&); std::shared_ptr<Array> GetColumnByName(const std::string&) const; };
class RecordBatchReader { public: virtual ~RecordBatchReader(); virtual std::shared_ptr<Schema> schema() const = 0; virtual Status ReadNext(std::shared_ptr<RecordBatch>*) = 0; Result<std::shared_ptr<RecordBatch>> Next(); virtual Status Close(); };
struct Scalar { virtual ~Scalar(); std::shared_ptr<DataType> type; bool is_valid; std::string ToString() const; bool Equals(const Scalar&) const; Result<std::shared_ptr<Scalar>> CastTo(std::shared_ptr<DataType>) const; };
template <typename T> struct NumericScalar : Scalar { const void* data() const; typename T::c_type value; NumericScalar(typename T::c_type); };
using Int8Scalar = NumericScalar<Int8Type>; using Int16Scalar = NumericScalar<Int16Type>; using Int32Scalar = NumericScalar<Int32Type>; using Int64Scalar = NumericScalar<Int64Type>; using FloatScalar = NumericScalar<FloatType>; using DoubleScalar = NumericScalar<DoubleType>;
struct BooleanScalar : Scalar { const void* data() const; bool value; BooleanScalar(bool); }; struct Date32Scalar : Scalar { const void* data() const; int32_t value; Date32Scalar(int32_t); }; struct TimestampScalar : Scalar { int64_t value; const void* data() const; TimestampScalar(int64_t, std::shared_ptr<DataType>); TimestampScalar(int64_t, TimeUnit::type, std::string = ""); };
struct BinaryScalar : Scalar { std::shared_ptr<Buffer> value; std::string_view view() const; BinaryScalar(std::shared_ptr<Buffer>); BinaryScalar(std::string); }; struct StringScalar : BinaryScalar { using BinaryScalar::BinaryScalar; };
std::shared_ptr<Scalar> MakeNullScalar(std::shared_ptr<DataType>);
template <typename V> std::shared_ptr<Scalar> MakeScalar(V);
class BasicDecimal128 { public: BasicDecimal128(); BasicDecimal128(int64_t, uint64_t); template <typename I, typename = std::enable_if_t<std::is_integral_v<I>>> BasicDecimal128(I); int64_t high_bits() const; static BasicDecimal128 GetMaxSentinel(); static BasicDecimal128 GetMinSentinel(); static const BasicDecimal128& GetScaleMultiplier(int32_t); static const BasicDecimal128& GetMaxValue(); uint64_t low_bits() const; BasicDecimal128 IncreaseScaleBy(int32_t) const; BasicDecimal128 ReduceScaleBy(int32_t, bool = true) const; bool FitsInPrecision(int32_t) const; BasicDecimal128& operator+=(const BasicDecimal128&); BasicDecimal128& operator/=(const BasicDecimal128&); friend BasicDecimal128 operator+(const BasicDecimal128&, const BasicDecimal128&); friend BasicDecimal128 operator-(const BasicDecimal128&, const BasicDecimal128&); friend BasicDecimal128 operator*(const BasicDecimal128&, const BasicDecimal128&); friend bool operator==(const BasicDecimal128&, const BasicDecimal128&); friend bool operator!=(const BasicDecimal128&, const BasicDecimal128&); friend bool operator<(const BasicDecimal128&, const BasicDecimal128&); friend bool operator<=(const BasicDecimal128&, const BasicDecimal128&); friend bool operator>(const BasicDecimal128&, const BasicDecimal128&); friend bool operator>=(const BasicDecimal128&, const BasicDecimal128&); const uint8_t* native_endian_bytes() const; std::array<uint8_t, 16> ToBytes() const; };
class Decimal128 : public BasicDecimal128 { public: using BasicDecimal128::BasicDecimal128; Decimal128(); Decimal128(const BasicDecimal128&); explicit Decimal128(const uint8_t*); explicit Decimal128(const std::string&); std::string ToString(int32_t) const; std::string ToIntegerString() const; static Status FromString(std::string_view, Decimal128*, int32_t*, int32_t* = nullptr); static Result<Decimal128> FromString(std::string_view); static Result<Decimal128> FromReal(double, int32_t, int32_t); static Result<Decimal128> FromReal(float, int32_t, int32_t); static Result<Decimal128> FromBigEndian(const uint8_t*, int32_t); template <typename T> T ToReal(int32_t) const; float ToFloat(int32_t) const; double ToDouble(int32_t) const; Result<Decimal128> Rescale(int32_t, int32_t) const; template <typename T, typename = void> Result<T> ToInteger() const; template <typename T> Status ToInteger(T*) const; explicit operator int64_t() const; };
struct Decimal128Scalar : Scalar { Decimal128 value; Decimal128Scalar(Decimal128, std::shared_ptr<DataType>); };
class ArrayBuilder {
 public:
    explicit ArrayBuilder(MemoryPool* = nullptr, int64_t = 64); virtual ~ArrayBuilder();
    int64_t length() const; int64_t null_count() const; int64_t capacity() const; virtual Status AppendNull() ; virtual Status AppendNulls(int64_t); virtual Status AppendEmptyValue(); virtual Status AppendEmptyValues(int64_t); virtual Status Resize(int64_t); Status Reserve(int64_t); virtual void Reset(); virtual Status FinishInternal(std::shared_ptr<ArrayData>*); Status Finish(std::shared_ptr<Array>*); Result<std::shared_ptr<Array>> Finish(); virtual std::shared_ptr<DataType> type() const; int num_children() const; ArrayBuilder* child(int); const std::shared_ptr<ArrayBuilder>& child_builder(int) const; virtual Status AppendArraySlice(const ArraySpan&, int64_t, int64_t); Status AppendScalar(const Scalar&); Status AppendScalar(const Scalar&, int64_t); Status AppendScalars(const std::vector<std::shared_ptr<Scalar>>&);
 protected:
    Status AppendToBitmap(bool); Status AppendToBitmap(const uint8_t*, int64_t); Status AppendToBitmap(int64_t, bool); Status SetNotNull(int64_t); void UnsafeAppendToBitmap(bool); void UnsafeSetNotNull(int64_t); void UnsafeSetNull(int64_t); Status CheckCapacity(int64_t); template <typename T> Status TrimBuffer(int64_t, T*);
    MemoryPool* pool_; int64_t length_; int64_t capacity_; std::vector<std::shared_ptr<ArrayBuilder>> children_; TypedBufferBuilder<bool> null_bitmap_builder_;
};
template <typename T> class NumericBuilder : public ArrayBuilder { public: using TypeClass = T; using value_type = typename T::c_type; explicit NumericBuilder(MemoryPool* = nullptr); NumericBuilder(const std::shared_ptr<DataType>&, MemoryPool* = nullptr); Status Append(value_type); void UnsafeAppend(value_type); void UnsafeAppendNull(); Status AppendValues(const std::vector<value_type>&); Status AppendValues(const value_type*, int64_t, const uint8_t* = nullptr); value_type GetValue(int64_t) const; };
using Int8Builder = NumericBuilder<Int8Type>; using Int16Builder = NumericBuilder<Int16Type>; using Int32Builder = NumericBuilder<Int32Type>; using Int64Builder = NumericBuilder<Int64Type>; using UInt8Builder = NumericBuilder<UInt8Type>; using UInt16Builder = NumericBuilder<UInt16Type>; using UInt32Builder = NumericBuilder<UInt32Type>; using UInt64Builder = NumericBuilder<UInt64Type>; using FloatBuilder = NumericBuilder<FloatType>; using DoubleBuilder = NumericBuilder<DoubleType>; using Date32Builder = NumericBuilder<Date32Type>; using TimestampBuilder = NumericBuilder<TimestampType>;
class BooleanBuilder : public ArrayBuilder { public: explicit BooleanBuilder(MemoryPool* = nullptr); Status Append(bool); void UnsafeAppend(bool); Status AppendValues(const std::vector<bool>&); Status AppendValues(int64_t, bool); };
class BinaryBuilder : public ArrayBuilder { public: explicit BinaryBuilder(MemoryPool* = nullptr); Status Append(std::string_view); Status Append(const char*, int32_t); Status Append(const uint8_t*, int32_t); void UnsafeAppend(std::string_view); Status ReserveData(int64_t); std::string_view GetView(int64_t) const; }; class StringBuilder : public BinaryBuilder { public: using BinaryBuilder::BinaryBuilder; Status AppendValues(const std::vector<std::string>&); }; class LargeBinaryBuilder : public ArrayBuilder { public: explicit LargeBinaryBuilder(MemoryPool* = nullptr); Status Append(std::string_view); Status Append(const char*, int64_t); Status Append(const uint8_t*, int64_t); }; class LargeStringBuilder : public LargeBinaryBuilder { public: using LargeBinaryBuilder::LargeBinaryBuilder; };
class FixedSizeBinaryBuilder : public ArrayBuilder {}; class Decimal128Builder : public FixedSizeBinaryBuilder { public: explicit Decimal128Builder(const std::shared_ptr<DataType>&, MemoryPool* = nullptr); Status Append(Decimal128); Status Append(std::string_view); void UnsafeAppend(Decimal128); };
class ListBuilder : public ArrayBuilder { public: ListBuilder(MemoryPool*, std::shared_ptr<ArrayBuilder> const&, const std::shared_ptr<DataType>&); ListBuilder(MemoryPool*, std::shared_ptr<ArrayBuilder> const&); Status Append(bool = true, int64_t = 0); ArrayBuilder* value_builder() const; };
class MapBuilder : public ArrayBuilder { public: MapBuilder(MemoryPool*, const std::shared_ptr<ArrayBuilder>&, const std::shared_ptr<ArrayBuilder>&, const std::shared_ptr<DataType>&); MapBuilder(MemoryPool*, const std::shared_ptr<ArrayBuilder>&, const std::shared_ptr<ArrayBuilder>&, bool = false); Status Append(); ArrayBuilder* key_builder() const; ArrayBuilder* item_builder() const; ArrayBuilder* value_builder() const; };
class StructBuilder : public ArrayBuilder { public: Status AppendValues(int64_t, const uint8_t*); StructBuilder(const std::shared_ptr<DataType>&, MemoryPool*, std::vector<std::shared_ptr<ArrayBuilder>>); Status Append(bool = true); ArrayBuilder* field_builder(int) const; int num_fields() const; };
template <typename T> class DictionaryBuilder : public ArrayBuilder { public: explicit DictionaryBuilder(MemoryPool* = nullptr); Status Append(std::string_view); }; using StringDictionaryBuilder = DictionaryBuilder<StringType>; using StringDictionary32Builder = DictionaryBuilder<StringType>;
Status MakeBuilder(MemoryPool*, const std::shared_ptr<DataType>&, std::unique_ptr<ArrayBuilder>*); Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>&, MemoryPool* = nullptr);
std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>&); Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>&, int64_t, MemoryPool* = nullptr); Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar&, int64_t, MemoryPool* = nullptr); Result<std::shared_ptr<Array>> MakeEmptyArray(std::shared_ptr<DataType>, MemoryPool* = nullptr); Result<std::shared_ptr<Array>> Concatenate(const ArrayVector&, MemoryPool* = nullptr);
Status ExportSchema(const Schema&, ArrowSchema*); Status ExportType(const DataType&, ArrowSchema*); Status ExportField(const Field&, ArrowSchema*); Status ExportArray(const Array&, ArrowArray*, ArrowSchema* = nullptr); Status ExportRecordBatch(const RecordBatch&, ArrowArray*, ArrowSchema* = nullptr);
Result<std::shared_ptr<Schema>> ImportSchema(ArrowSchema*); Result<std::shared_ptr<DataType>> ImportType(ArrowSchema*); Result<std::shared_ptr<Field>> ImportField(ArrowSchema*); Result<std::shared_ptr<Array>> ImportArray(ArrowArray*, ArrowSchema*); Result<std::shared_ptr<Array>> ImportArray(ArrowArray*, std::shared_ptr<DataType>); Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(ArrowArray*, std::shared_ptr<Schema>); Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(ArrowArray*, ArrowSchema*);
struct TypeHolder { const DataType* type; TypeHolder(const DataType*); TypeHolder(std::shared_ptr<DataType>); };
struct Datum { Datum(); Datum(std::shared_ptr<Array>); Datum(const Array&); Datum(std::shared_ptr<Scalar>); Datum(std::shared_ptr<ChunkedArray>); template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>> Datum(T); Datum(std::string); std::shared_ptr<Array> make_array() const; const std::shared_ptr<ArrayData>& array() const; const std::shared_ptr<Scalar>& scalar() const; template <typename T> std::shared_ptr<T> array_as() const; template <typename T> const T& scalar_as() const; bool is_array() const; const std::shared_ptr<DataType>& type() const; int64_t length() const; };
template <typename T> struct TypeTraits {};
#define PSTUB_TRAIT(T, A, B, S) template <> struct TypeTraits<T> { using ArrayType = A; using BuilderType = B; using ScalarType = S; using CType = typename T::c_type; static std::shared_ptr<DataType> type_singleton(); static constexpr bool is_parameter_free = true; };
PSTUB_TRAIT(Int8Type, Int8Array, Int8Builder, Int8Scalar) PSTUB_TRAIT(Int16Type, Int16Array, Int16Builder, Int16Scalar) PSTUB_TRAIT(Int32Type, Int32Array, Int32Builder, Int32Scalar) PSTUB_TRAIT(Int64Type, Int64Array, Int64Builder, Int64Scalar) PSTUB_TRAIT(FloatType, FloatArray, FloatBuilder, FloatScalar) PSTUB_TRAIT(DoubleType, DoubleArray, DoubleBuilder, DoubleScalar) PSTUB_TRAIT(BooleanType, BooleanArray, BooleanBuilder, BooleanScalar) PSTUB_TRAIT(Date32Type, Date32Array, Date32Builder, Date32Scalar) PSTUB_TRAIT(TimestampType, TimestampArray, TimestampBuilder, TimestampScalar)
template <> struct TypeTraits<BinaryType> { using ArrayType = BinaryArray; using BuilderType = BinaryBuilder; using ScalarType = BinaryScalar; static std::shared_ptr<DataType> type_singleton(); }; template <> struct TypeTraits<StringType> { using ArrayType = StringArray; using BuilderType = StringBuilder; using ScalarType = StringScalar; static std::shared_ptr<DataType> type_singleton(); }; template <> struct TypeTraits<Decimal128Type> { using ArrayType = Decimal128Array; using BuilderType = Decimal128Builder; };
template <typename T> using is_number_type = std::is_arithmetic<typename T::c_type>; template <typename T> using is_boolean_type = std::is_same<T, BooleanType>;
template <bool B, typename T = void> using enable_if_t = std::enable_if_t<B, T>;
template <typename T> struct ArraySpanVisitor { template <typename V> static Status Visit(const ArraySpan&, V*); };
struct PrettyPrintOptions { static PrettyPrintOptions Defaults(); int indent; int window; bool skip_new_lines; }; Status PrettyPrint(const Array&, const PrettyPrintOptions&, std::string*); Status PrettyPrint(const Array&, int, std::ostream*);
int GetCpuThreadPoolCapacity(); Status SetCpuThreadPoolCapacity(int);
struct Compression { enum type { UNCOMPRESSED, SNAPPY, GZIP, BROTLI, ZSTD, LZ4, LZ4_FRAME, LZO, BZ2, LZ4_HADOOP }; };
namespace util { class Codec { public: static Result<Compression::type> GetCompressionType(const std::string&); static bool SupportsCompressionLevel(Compression::type); static int UseDefaultCompressionLevel(); }; }
namespace io {
struct IOContext { IOContext(); explicit IOContext(MemoryPool*); }; const IOContext& default_io_context();
struct CacheOptions { int64_t hole_size_limit; int64_t range_size_limit; bool lazy; int64_t prefetch_limit; static CacheOptions Defaults(); static CacheOptions LazyDefaults(); };
class FileInterface { public: virtual ~FileInterface(); virtual Status Close() = 0; virtual bool closed() const = 0; virtual Result<int64_t> Tell() const = 0; };
struct ReadRange { int64_t offset; int64_t length; };
class OutputStream : virtual public FileInterface { public: virtual Status Write(const void*, int64_t) = 0; virtual Status Write(const std::shared_ptr<Buffer>&); virtual Status Flush(); };
class InputStream : virtual public FileInterface { public: virtual Result<int64_t> Read(int64_t, void*) = 0; virtual Result<std::shared_ptr<Buffer>> Read(int64_t) = 0; };
class RandomAccessFile : public InputStream { public: virtual Result<int64_t> GetSize() = 0; virtual Status Seek(int64_t) = 0; virtual Result<int64_t> ReadAt(int64_t, int64_t, void*); virtual Result<std::shared_ptr<Buffer>> ReadAt(int64_t, int64_t); virtual Future<std::shared_ptr<Buffer>> ReadAsync(const IOContext&, int64_t, int64_t); Future<std::shared_ptr<Buffer>> ReadAsync(int64_t, int64_t); };
}
namespace compute {
struct FunctionOptions {}; struct CastOptions : FunctionOptions { static CastOptions Safe(TypeHolder = TypeHolder(static_cast<const DataType*>(nullptr))); static CastOptions Safe(std::shared_ptr<DataType>); static CastOptions Unsafe(std::shared_ptr<DataType>); bool allow_int_overflow; bool allow_time_truncate; bool allow_time_overflow; bool allow_decimal_truncate; bool allow_float_truncate; bool allow_invalid_utf8; std::shared_ptr<DataType> to_type; }; class ExecContext { public: explicit ExecContext(MemoryPool* = nullptr, internal::Executor* = nullptr); void set_use_threads(bool); }; ExecContext* default_exec_context();
Result<std::shared_ptr<Array>> Cast(const Array&, const TypeHolder&, const CastOptions& = CastOptions::Safe(), ExecContext* = nullptr); Result<Datum> Cast(const Datum&, const TypeHolder&, const CastOptions& = CastOptions::Safe(), ExecContext* = nullptr); Result<Datum> Cast(const Datum&, const CastOptions&, ExecContext* = nullptr); Result<std::shared_ptr<Array>> Cast(const Array&, std::shared_ptr<DataType>, const CastOptions& = CastOptions::Safe(), ExecContext* = nullptr); Result<Datum> Cast(const Datum&, std::shared_ptr<DataType>, const CastOptions& = CastOptions::Safe(), ExecContext* = nullptr); bool CanCast(const DataType&, const DataType&);
enum class SortOrder { Ascending, Descending }; enum class NullPlacement { AtStart, AtEnd }; struct SortKey { explicit SortKey(std::string, SortOrder = SortOrder::Ascending); SortKey(std::string, SortOrder, NullPlacement); }; class SortOptions : public FunctionOptions { public: explicit SortOptions(std::vector<SortKey> = {}, NullPlacement = NullPlacement::AtEnd); }; class ArraySortOptions : public FunctionOptions { public: explicit ArraySortOptions(SortOrder = SortOrder::Ascending, NullPlacement = NullPlacement::AtEnd); };
Result<std::shared_ptr<Array>> SortIndices(const Datum&, const SortOptions&, ExecContext* = nullptr); Result<std::shared_ptr<Array>> SortIndices(const Array&, SortOrder = SortOrder::Ascending, ExecContext* = nullptr); Result<std::shared_ptr<Array>> SortIndices(const Array&, const ArraySortOptions&, ExecContext* = nullptr); Result<Datum> Take(const Datum&, const Datum&, const FunctionOptions& = {}, ExecContext* = nullptr); Result<std::shared_ptr<Array>> Take(const Array&, const Array&, const FunctionOptions& = {}, ExecContext* = nullptr); Result<Datum> CallFunction(const std::string&, const std::vector<Datum>&, ExecContext* = nullptr); Result<Datum> CallFunction(const std::string&, const std::vector<Datum>&, const FunctionOptions*, ExecContext* = nullptr);
struct AssumeTimezoneOptions : FunctionOptions { explicit AssumeTimezoneOptions(std::string); }; Result<Datum> AssumeTimezone(const Datum&, AssumeTimezoneOptions, ExecContext* = nullptr); Result<Datum> LocalTimestamp(const Datum&, ExecContext* = nullptr);
class Expression { public: std::string ToString() const; bool Equals(const Expression&) const; }; Expression literal(Datum); template <typename A> Expression literal(A&&); Expression field_ref(std::string); Expression and_(Expression, Expression); Expression and_(const std::vector<Expression>&); Expression or_(Expression, Expression); Expression or_(const std::vector<Expression>&); Expression not_(Expression); Expression equal(Expression, Expression); Expression not_equal(Expression, Expression); Expression less(Expression, Expression); Expression less_equal(Expression, Expression); Expression greater(Expression, Expression); Expression greater_equal(Expression, Expression); Expression is_null(Expression, bool = false); Expression is_valid(Expression); Expression call(std::string, std::vector<Expression>);
}
namespace ipc { namespace internal { namespace json { Result<std::shared_ptr<Array>> ArrayFromJSON(const std::shared_ptr<DataType>&, std::string_view); Status ChunkedArrayFromJSON(const std::shared_ptr<DataType>&, const std::vector<std::string>&, std::shared_ptr<ChunkedArray>*); } } }
template <typename T> struct CTypeTraits {};
template <> struct CTypeTraits<int8_t> : TypeTraits<Int8Type> { using ArrowType = Int8Type; }; template <> struct CTypeTraits<int16_t> : TypeTraits<Int16Type> { using ArrowType = Int16Type; }; template <> struct CTypeTraits<int32_t> : TypeTraits<Int32Type> { using ArrowType = Int32Type; }; template <> struct CTypeTraits<int64_t> : TypeTraits<Int64Type> { using ArrowType = Int64Type; }; template <> struct CTypeTraits<float> : TypeTraits<FloatType> { using ArrowType = FloatType; }; template <> struct CTypeTraits<double> : TypeTraits<DoubleType> { using ArrowType = DoubleType; }; template <> struct CTypeTraits<bool> : TypeTraits<BooleanType> { using ArrowType = BooleanType; };
}  // namespace arrow
namespace arrow_vendored { namespace date { struct local_t {}; struct sys_info_ { std::chrono::seconds offset; std::chrono::minutes save; std::string abbrev; }; class time_zone { public: template <typename T> sys_info_ get_info(T) const; template <typename T> auto to_sys(T t) const { return t; } template <typename T> auto to_local(T t) const { return t; } const std::string& name() const; }; const time_zone* locate_zone(std::string_view); const time_zone* current_zone(); template <typename CharT, typename Duration> std::string format(const CharT*, const Duration&); template <typename D> using sys_time = std::chrono::time_point<std::chrono::system_clock, D>; template <typename D> using local_time = std::chrono::time_point<local_t, D>; using days = std::chrono::duration<int, std::ratio<86400>>; using sys_days = sys_time<days>; struct year { explicit year(int); explicit operator int() const; }; struct month { explicit month(unsigned); explicit operator unsigned() const; }; struct day { explicit day(unsigned); explicit operator unsigned() const; }; struct year_month_day { year_month_day(sys_days); year_month_day(year, month, day); date::year year() const; date::month month() const; date::day day() const; bool ok() const; operator sys_days() const; }; template <typename D> D floor(std::chrono::duration<int64_t>); template <typename To, typename C, typename D> std::chrono::time_point<C, To> floor(const std::chrono::time_point<C, D>&); template <typename D> struct zoned_time; template <typename D> struct hh_mm_ss { explicit hh_mm_ss(D); std::chrono::hours hours() const; std::chrono::minutes minutes() const; std::chrono::seconds seconds() const; D subseconds() const; }; } }
