// Clients of the file index results and readers: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <utility>
#include <vector>

#include "paimon/common/file_index/empty/empty_file_index_reader.h"
#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_reader.h"
#include "paimon/file_index/file_index_result.h"
#include "paimon/predicate/literal.h"

namespace paimon::client11 {
// a result of another kind
class OtherResult : public FileIndexResult {
 public:
    OtherResult(bool remain, bool fail) : remain_(remain), fail_(fail) {}
    Result<bool> IsRemain() const override {
        if (fail_) {
            return Status::IOError("other");
        }
        return remain_;
    }
    std::string ToString() const override {
        return "";
    }

 private:
    bool remain_;
    bool fail_;
};

// a reader that answers equality with given results
class ListReader : public FileIndexReader {
 public:
    ListReader(const std::vector<std::shared_ptr<FileIndexResult>>& equal,
               const std::vector<std::shared_ptr<FileIndexResult>>& not_equal)
        : equal_(equal), not_equal_(not_equal) {}
    Result<std::shared_ptr<FileIndexResult>> VisitEqual(const Literal& literal) override {
        return equal_[next_++];
    }
    Result<std::shared_ptr<FileIndexResult>> VisitNotEqual(const Literal& literal) override {
        return not_equal_[next_++];
    }

 private:
    std::vector<std::shared_ptr<FileIndexResult>> equal_;
    std::vector<std::shared_ptr<FileIndexResult>> not_equal_;
    size_t next_ = 0;
};
class DefaultReader : public FileIndexReader {};
class FailingReader : public FileIndexReader {
 public:
    Result<std::shared_ptr<FileIndexResult>> VisitEqual(const Literal& literal) override {
        if (next_++ == 0) {
            return FileIndexResult::Skip();
        }
        return Status::IOError("reader");
    }
    Result<std::shared_ptr<FileIndexResult>> VisitNotEqual(const Literal& literal) override {
        if (next_++ == 0) {
            return FileIndexResult::Remain();
        }
        return Status::IOError("reader");
    }

 private:
    size_t next_ = 0;
};

std::shared_ptr<FileIndexResult> MakeRemain() {
    return FileIndexResult::Remain();
}
std::shared_ptr<FileIndexResult> MakeSkip() {
    return FileIndexResult::Skip();
}
std::shared_ptr<FileIndexResult> MakeOther(bool remain) {
    return std::make_shared<OtherResult>(remain, false);
}
std::shared_ptr<FileIndexResult> MakeOtherFailing() {
    return std::make_shared<OtherResult>(false, true);
}
std::shared_ptr<FileIndexResult> MakeBitmap(const std::vector<int32_t>& rows) {
    return std::make_shared<BitmapIndexResult>([rows]() -> Result<RoaringBitmap32> {
        RoaringBitmap32 bitmap;
        for (const auto& row : rows) {
            bitmap.Add(row);
        }
        return bitmap;
    });
}
std::shared_ptr<FileIndexResult> MakeFailing() {
    return std::make_shared<BitmapIndexResult>(
        []() -> Result<RoaringBitmap32> { return Status::IOError("supplier"); });
}
std::shared_ptr<FileIndexResult> MakeCounted(const std::vector<int32_t>& rows, int64_t* count) {
    return std::make_shared<BitmapIndexResult>([rows, count]() -> Result<RoaringBitmap32> {
        *count = *count + 1;
        RoaringBitmap32 bitmap;
        for (const auto& row : rows) {
            bitmap.Add(row);
        }
        return bitmap;
    });
}
Result<std::shared_ptr<FileIndexResult>> And(const std::shared_ptr<FileIndexResult>& a,
                                             const std::shared_ptr<FileIndexResult>& b) {
    return a->And(b);
}
Result<std::shared_ptr<FileIndexResult>> Or(const std::shared_ptr<FileIndexResult>& a,
                                            const std::shared_ptr<FileIndexResult>& b) {
    return a->Or(b);
}
Result<bool> IsRemain(const std::shared_ptr<FileIndexResult>& a) {
    return a->IsRemain();
}
// 0: no rows known, all rows of the file; 1: rows of a bitmap
bool HasRows(const std::shared_ptr<FileIndexResult>& a) {
    return std::dynamic_pointer_cast<BitmapIndexResult>(a) != nullptr;
}
Result<std::vector<int32_t>> Rows(const std::shared_ptr<FileIndexResult>& a) {
    std::vector<int32_t> out;
    auto typed = std::dynamic_pointer_cast<BitmapIndexResult>(a);
    PAIMON_ASSIGN_OR_RAISE(const RoaringBitmap32* bitmap, typed->GetBitmap());
    for (auto iter = bitmap->Begin(); iter != bitmap->End(); ++iter) {
        out.push_back(*iter);
    }
    return out;
}
Result<std::shared_ptr<FileIndexResult>> In(
    const std::vector<std::shared_ptr<FileIndexResult>>& results,
    const std::vector<Literal>& literals) {
    ListReader reader(results, {});
    FileIndexReader& base = reader;
    return base.VisitIn(literals);
}
Result<std::shared_ptr<FileIndexResult>> NotIn(
    const std::vector<std::shared_ptr<FileIndexResult>>& results,
    const std::vector<Literal>& literals) {
    ListReader reader({}, results);
    FileIndexReader& base = reader;
    return base.VisitNotIn(literals);
}
Result<std::shared_ptr<FileIndexResult>> InFailing(const std::vector<Literal>& literals) {
    FailingReader reader;
    return reader.VisitIn(literals);
}
Result<std::shared_ptr<FileIndexResult>> NotInFailing(const std::vector<Literal>& literals) {
    FailingReader reader;
    return reader.VisitNotIn(literals);
}
#define CLIENT_VISIT(READER, PREFIX)                                                             \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##IsNull(const Literal& literal) {            \
        READER reader;                                                                           \
        return reader.VisitIsNull();                                                             \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##IsNotNull(const Literal& literal) {         \
        READER reader;                                                                           \
        return reader.VisitIsNotNull();                                                          \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##Equal(const Literal& literal) {             \
        READER reader;                                                                           \
        return reader.VisitEqual(literal);                                                       \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##NotEqual(const Literal& literal) {          \
        READER reader;                                                                           \
        return reader.VisitNotEqual(literal);                                                    \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##LessThan(const Literal& literal) {          \
        READER reader;                                                                           \
        return reader.VisitLessThan(literal);                                                    \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##LessOrEqual(const Literal& literal) {       \
        READER reader;                                                                           \
        return reader.VisitLessOrEqual(literal);                                                 \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##GreaterThan(const Literal& literal) {       \
        READER reader;                                                                           \
        return reader.VisitGreaterThan(literal);                                                 \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##GreaterOrEqual(const Literal& literal) {    \
        READER reader;                                                                           \
        return reader.VisitGreaterOrEqual(literal);                                              \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##StartsWith(const Literal& literal) {        \
        READER reader;                                                                           \
        return reader.VisitStartsWith(literal);                                                  \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##EndsWith(const Literal& literal) {          \
        READER reader;                                                                           \
        return reader.VisitEndsWith(literal);                                                    \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##Contains(const Literal& literal) {          \
        READER reader;                                                                           \
        return reader.VisitContains(literal);                                                    \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##In(const std::vector<Literal>& literals) {  \
        READER reader;                                                                           \
        return reader.VisitIn(literals);                                                         \
    }                                                                                            \
    Result<std::shared_ptr<FileIndexResult>> PREFIX##NotIn(                                      \
        const std::vector<Literal>& literals) {                                                  \
        READER reader;                                                                           \
        return reader.VisitNotIn(literals);                                                      \
    }
CLIENT_VISIT(DefaultReader, Default)
CLIENT_VISIT(EmptyFileIndexReader, Empty)
}  // namespace paimon::client11
