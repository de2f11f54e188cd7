// Clients of the global index results: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <utility>
#include <vector>

#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/global_index/global_index_result.h"

namespace paimon::client13 {
// a result of neither bitmap kind
class PlainResult : public GlobalIndexResult {
 public:
    explicit PlainResult(const std::vector<int64_t>& ids) : ids_(ids) {}
    class Iterator : public GlobalIndexResult::Iterator {
     public:
        explicit Iterator(const std::vector<int64_t>& ids) : ids_(ids) {}
        bool HasNext() const override {
            return pos_ < ids_.size();
        }
        int64_t Next() override {
            return ids_[pos_++];
        }

     private:
        std::vector<int64_t> ids_;
        size_t pos_ = 0;
    };
    Result<bool> IsEmpty() const override {
        return ids_.empty();
    }
    Result<std::unique_ptr<GlobalIndexResult::Iterator>> CreateIterator() const override {
        return std::make_unique<PlainResult::Iterator>(ids_);
    }
    Result<std::shared_ptr<GlobalIndexResult>> AddOffset(int64_t offset) override {
        return Status::Invalid("");
    }
    std::string ToString() const override {
        return "";
    }

 private:
    std::vector<int64_t> ids_;
};

std::shared_ptr<GlobalIndexResult> MakePlain(const std::vector<int64_t>& ids) {
    return std::make_shared<PlainResult>(ids);
}
std::shared_ptr<GlobalIndexResult> MakeBitmap(const std::vector<int64_t>& ids) {
    return std::make_shared<BitmapGlobalIndexResult>([ids]() -> Result<RoaringBitmap64> {
        RoaringBitmap64 bitmap;
        for (const auto& id : ids) {
            bitmap.Add(id);
        }
        return bitmap;
    });
}
std::shared_ptr<GlobalIndexResult> MakeScored(const std::vector<int64_t>& ids,
                                              const std::vector<float>& scores) {
    RoaringBitmap64 bitmap;
    for (const auto& id : ids) {
        bitmap.Add(id);
    }
    std::vector<float> copy = scores;
    return std::make_shared<BitmapVectorSearchGlobalIndexResult>(std::move(bitmap),
                                                                 std::move(copy));
}
std::shared_ptr<GlobalIndexResult> MakeFailing() {
    return std::make_shared<BitmapGlobalIndexResult>(
        []() -> Result<RoaringBitmap64> { return Status::IOError("supplier"); });
}
std::shared_ptr<GlobalIndexResult> MakeCounted(const std::vector<int64_t>& ids, int64_t* count) {
    return std::make_shared<BitmapGlobalIndexResult>([ids, count]() -> Result<RoaringBitmap64> {
        *count = *count + 1;
        RoaringBitmap64 bitmap;
        for (const auto& id : ids) {
            bitmap.Add(id);
        }
        return bitmap;
    });
}
std::shared_ptr<GlobalIndexResult> MakeRanges(const std::vector<Range>& ranges) {
    return BitmapGlobalIndexResult::FromRanges(ranges);
}

Result<std::shared_ptr<GlobalIndexResult>> And(const std::shared_ptr<GlobalIndexResult>& a,
                                               const std::shared_ptr<GlobalIndexResult>& b) {
    return a->And(b);
}
Result<std::shared_ptr<GlobalIndexResult>> Or(const std::shared_ptr<GlobalIndexResult>& a,
                                              const std::shared_ptr<GlobalIndexResult>& b) {
    return a->Or(b);
}
Result<std::shared_ptr<GlobalIndexResult>> AddOffset(const std::shared_ptr<GlobalIndexResult>& a,
                                                     int64_t offset) {
    return a->AddOffset(offset);
}
Result<std::vector<int64_t>> Ids(const std::shared_ptr<GlobalIndexResult>& a) {
    std::vector<int64_t> out;
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<GlobalIndexResult::Iterator> iter, a->CreateIterator());
    while (iter->HasNext()) {
        out.push_back(iter->Next());
    }
    return out;
}
Result<const RoaringBitmap64*> Bitmap(const std::shared_ptr<GlobalIndexResult>& a) {
    return std::dynamic_pointer_cast<BitmapGlobalIndexResult>(a)->GetBitmap();
}
Result<bool> IsEmpty(const std::shared_ptr<GlobalIndexResult>& a) {
    return a->IsEmpty();
}
Result<std::vector<Range>> ToRanges(const std::shared_ptr<GlobalIndexResult>& a) {
    return a->ToRanges();
}
bool IsScored(const std::shared_ptr<GlobalIndexResult>& a) {
    return std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(a) != nullptr;
}
Result<std::vector<int64_t>> BitmapIds(const std::shared_ptr<GlobalIndexResult>& a) {
    std::vector<int64_t> out;
    if (auto plain = std::dynamic_pointer_cast<BitmapGlobalIndexResult>(a)) {
        PAIMON_ASSIGN_OR_RAISE(const RoaringBitmap64* bitmap, plain->GetBitmap());
        for (auto iter = bitmap->Begin(); iter != bitmap->End(); ++iter) {
            out.push_back(*iter);
        }
    } else if (auto scored = std::dynamic_pointer_cast<BitmapVectorSearchGlobalIndexResult>(a)) {
        PAIMON_ASSIGN_OR_RAISE(const RoaringBitmap64* bitmap, scored->GetBitmap());
        for (auto iter = bitmap->Begin(); iter != bitmap->End(); ++iter) {
            out.push_back(*iter);
        }
    }
    return out;
}
std::vector<float> Scores(const std::shared_ptr<GlobalIndexResult>& a) {
    auto scored = std::dynamic_pointer_cast<BitmapVectorSearchGlobalIndexResult>(a);
    return scored->GetScores();
}
Result<std::vector<int64_t>> ScoredIds(const std::shared_ptr<GlobalIndexResult>& a) {
    auto scored = std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(a);
    std::vector<int64_t> out;
    PAIMON_ASSIGN_OR_RAISE(
        std::unique_ptr<VectorSearchGlobalIndexResult::VectorSearchIterator> iter,
        scored->CreateVectorSearchIterator());
    while (iter->HasNext()) {
        std::pair<int64_t, float> p = iter->NextWithScore();
        out.push_back(p.first);
    }
    return out;
}
Result<std::vector<float>> ScoredScores(const std::shared_ptr<GlobalIndexResult>& a) {
    auto scored = std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(a);
    std::vector<float> out;
    PAIMON_ASSIGN_OR_RAISE(
        std::unique_ptr<VectorSearchGlobalIndexResult::VectorSearchIterator> iter,
        scored->CreateVectorSearchIterator());
    while (iter->HasNext()) {
        std::pair<int64_t, float> p = iter->NextWithScore();
        out.push_back(p.second);
    }
    return out;
}
}  // namespace paimon::client13
