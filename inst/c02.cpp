// Clients of the shared queue: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <optional>
#include <utility>
#include <vector>

#include "paimon/common/utils/threadsafe_queue.h"

namespace paimon::client02 {
using Q = std::shared_ptr<ThreadsafeQueue<int64_t>>;
// the operation of this thread lies between the two
void Begin(const Q& q);
void End();

Q Make(int64_t n, int64_t x, int64_t y, int64_t z) {
    Q q = std::make_shared<ThreadsafeQueue<int64_t>>();
    if (n > 0) {
        q->push(x);
    }
    if (n > 1) {
        q->push(y);
    }
    if (n > 2) {
        int64_t copy = z;
        q->push(std::move(copy));
    }
    return q;
}
// what is left, in the order it comes out
std::vector<int64_t> Drain(const Q& q) {
    std::vector<int64_t> out;
    for (int64_t i = 0; i < 8; i++) {
        std::optional<int64_t> v = q->try_pop();
        if (!v.has_value()) {
            break;
        }
        out.push_back(v.value());
    }
    return out;
}
std::pair<int64_t, std::vector<int64_t>> Push(int64_t n, int64_t x, int64_t y, int64_t z, int64_t v) {
    Q q = Make(n, x, y, z);
    Begin(q);
    q->push(v);
    End();
    return {-1, Drain(q)};
}
std::pair<int64_t, std::vector<int64_t>> PushMove(int64_t n, int64_t x, int64_t y, int64_t z, int64_t v) {
    Q q = Make(n, x, y, z);
    Begin(q);
    q->push(std::move(v));
    End();
    return {-1, Drain(q)};
}
std::pair<int64_t, std::vector<int64_t>> Pop(int64_t n, int64_t x, int64_t y, int64_t z) {
    Q q = Make(n, x, y, z);
    Begin(q);
    std::optional<int64_t> v = q->try_pop();
    End();
    int64_t r = -1;
    if (v.has_value()) {
        r = v.value();
    }
    return {r, Drain(q)};
}
std::pair<int64_t, std::vector<int64_t>> Front(int64_t n, int64_t x, int64_t y, int64_t z) {
    Q q = Make(n, x, y, z);
    Begin(q);
    const int64_t* v = q->try_front();
    End();
    int64_t r = -1;
    if (v != nullptr) {
        r = *v;
    }
    return {r, Drain(q)};
}
std::pair<int64_t, std::vector<int64_t>> Size(int64_t n, int64_t x, int64_t y, int64_t z) {
    Q q = Make(n, x, y, z);
    Begin(q);
    int64_t r = static_cast<int64_t>(q->size());
    End();
    return {r, Drain(q)};
}
std::pair<int64_t, std::vector<int64_t>> Empty(int64_t n, int64_t x, int64_t y, int64_t z) {
    Q q = Make(n, x, y, z);
    Begin(q);
    bool b = q->empty();
    End();
    return {b ? 1 : 0, Drain(q)};
}
void OtherPush(const Q& q, int64_t v) {
    q->push(v);
}
void OtherPop(const Q& q) {
    std::optional<int64_t> v = q->try_pop();
}
}  // namespace paimon::client02
