// Clients of the executor: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <functional>
#include <memory>

#include "paimon/executor.h"

namespace paimon::client10 {
// a task tells that it ran
void Ran(int64_t id);

std::unique_ptr<Executor> Make(uint32_t n) {
    return CreateDefaultExecutor(n);
}
std::unique_ptr<Executor> MakeDefault() {
    return CreateDefaultExecutor();
}
bool Shared() {
    std::shared_ptr<Executor> a = GetGlobalDefaultExecutor();
    std::shared_ptr<Executor> b = GetGlobalDefaultExecutor();
    return a.get() != nullptr && a.get() == b.get();
}
void Add(Executor* e, int64_t id) {
    e->Add([id]() { Ran(id); });
}
void AddNull(Executor* e) {
    e->Add(nullptr);
}
// a task that submits another one
void AddNested(Executor* e, int64_t id, int64_t inner) {
    e->Add([e, id, inner]() {
        Ran(id);
        e->Add([inner]() { Ran(inner); });
    });
}
void Destroy(Executor* e) {
    delete e;
}
}  // namespace paimon::client10
