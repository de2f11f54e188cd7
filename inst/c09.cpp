// Clients of memory pools and byte buffers: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <new>
#include <string>
#include <utility>

#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"

namespace paimon::client09 {
using P = std::shared_ptr<MemoryPool>;
// the operation of this thread lies between the two
void Begin(const P& p);
void End();
// what a pool says about itself, and the block that was just handed out
void Note(void* block, uint64_t usage, uint64_t peak);
// the state of buffers
void Look(const Bytes& a, const Bytes& b);
void Same(bool x);
void Number(int64_t x);

P Make() {
    std::unique_ptr<MemoryPool> p = GetMemoryPool();
    return P(p.release());
}
// a pool that has a block of n1 bytes and had n1 + n2 bytes at once
void Malloc(uint64_t n1, uint64_t n2, uint64_t n, uint64_t align) {
    P pool = Make();
    Note(nullptr, pool->CurrentUsage(), pool->MaxMemoryUsage());
    void* p = pool->Malloc(n1, 0);
    Note(p, pool->CurrentUsage(), pool->MaxMemoryUsage());
    void* q = pool->Malloc(n2, 0);
    Note(q, pool->CurrentUsage(), pool->MaxMemoryUsage());
    pool->Free(q, n2);
    Note(q, pool->CurrentUsage(), pool->MaxMemoryUsage());
    void* r = pool->Malloc(n, align);
    Note(r, pool->CurrentUsage(), pool->MaxMemoryUsage());
    pool->Free(p, n1);
    Note(p, pool->CurrentUsage(), pool->MaxMemoryUsage());
    pool->Free(r, n);
    Note(r, pool->CurrentUsage(), pool->MaxMemoryUsage());
}
void Realloc(uint64_t n1, uint64_t n2, uint64_t n, uint64_t align) {
    P pool = Make();
    void* p = pool->Malloc(n1, align);
    void* q = pool->Malloc(n2, 0);
    pool->Free(q, n2);
    Note(p, pool->CurrentUsage(), pool->MaxMemoryUsage());
    void* r = pool->Realloc(p, n1, n, align);
    Note(r, pool->CurrentUsage(), pool->MaxMemoryUsage());
}
// the system has no memory for the last request
void MallocFails(uint64_t n1, uint64_t n, uint64_t align) {
    P pool = Make();
    void* p = pool->Malloc(n1, 0);
    Note(p, pool->CurrentUsage(), pool->MaxMemoryUsage());
    try {
        void* r = pool->Malloc(n, align);
        Note(r, pool->CurrentUsage(), pool->MaxMemoryUsage());
    } catch (const std::bad_alloc&) {
        Note(nullptr, pool->CurrentUsage(), pool->MaxMemoryUsage());
    }
}
void ReallocFails(uint64_t n1, uint64_t n, uint64_t align) {
    P pool = Make();
    void* p = pool->Malloc(n1, align);
    Note(p, pool->CurrentUsage(), pool->MaxMemoryUsage());
    try {
        void* r = pool->Realloc(p, n1, n, align);
        Note(r, pool->CurrentUsage(), pool->MaxMemoryUsage());
    } catch (const std::bad_alloc&) {
        Note(nullptr, pool->CurrentUsage(), pool->MaxMemoryUsage());
    }
}
void ReallocNothing(uint64_t n1, uint64_t n, uint64_t align) {
    P pool = Make();
    void* p = pool->Malloc(n1, 0);
    Note(p, pool->CurrentUsage(), pool->MaxMemoryUsage());
    void* r = pool->Realloc(nullptr, 0, n, align);
    Note(r, pool->CurrentUsage(), pool->MaxMemoryUsage());
}
// one pool for everybody, separate pools on request
bool OnePool() {
    P a = GetDefaultPool();
    P b = GetDefaultPool();
    return a.get() != nullptr && a.get() == b.get();
}
void TwoPools(uint64_t n) {
    P a = Make();
    P b = Make();
    void* p = a->Malloc(n, 0);
    Note(p, a->CurrentUsage(), a->MaxMemoryUsage());
    Note(nullptr, b->CurrentUsage(), b->MaxMemoryUsage());
}
void ThreadMalloc(uint64_t n1, uint64_t n) {
    P pool = Make();
    void* p = pool->Malloc(n1, 0);
    Begin(pool);
    void* r = pool->Malloc(n, 0);
    End();
    Note(r, pool->CurrentUsage(), pool->MaxMemoryUsage());
}
void ThreadFree(uint64_t n1, uint64_t n) {
    P pool = Make();
    void* p = pool->Malloc(n1, 0);
    void* r = pool->Malloc(n, 0);
    Begin(pool);
    pool->Free(r, n);
    End();
    Note(nullptr, pool->CurrentUsage(), pool->MaxMemoryUsage());
}
void ThreadRealloc(uint64_t n1, uint64_t n, uint64_t align) {
    P pool = Make();
    void* p = pool->Malloc(n1, align);
    Begin(pool);
    void* r = pool->Realloc(p, n1, n, align);
    End();
    Note(r, pool->CurrentUsage(), pool->MaxMemoryUsage());
}
void OtherMalloc(const P& pool, uint64_t n) {
    void* p = pool->Malloc(n, 0);
}
void OtherMallocFree(const P& pool, uint64_t n) {
    void* p = pool->Malloc(n, 0);
    pool->Free(p, n);
}

// ---- buffers
void Sized(size_t n, MemoryPool* pool) {
    Bytes none;
    Bytes b(n, pool);
    Look(b, none);
    b.~Bytes();
}
void FromString(const std::string& s, MemoryPool* pool) {
    Bytes none;
    Bytes b(s, pool);
    Look(b, none);
    b.~Bytes();
}
void MoveConstruct(const std::string& s, MemoryPool* pool) {
    Bytes a(s, pool);
    Bytes b(std::move(a));
    Look(b, a);
    b.~Bytes();
    a.~Bytes();
}
void MoveAssign(const std::string& s, MemoryPool* pool, const std::string& t, MemoryPool* other) {
    Bytes a(s, pool);
    Bytes b(t, other);
    b = std::move(a);
    Look(b, a);
    b.~Bytes();
    a.~Bytes();
}
void MoveSelf(const std::string& s, MemoryPool* pool) {
    Bytes a(s, pool);
    Bytes none;
    Bytes& same = a;
    a = std::move(same);
    Look(a, none);
    a.~Bytes();
}
// a moved-from buffer is filled again
void MoveBack(const std::string& s, MemoryPool* pool) {
    Bytes a(s, pool);
    Bytes b(std::move(a));
    a = std::move(b);
    Look(a, b);
    b.~Bytes();
    a.~Bytes();
}
void Equal(const std::string& s, const std::string& t, MemoryPool* pool) {
    Bytes a(s, pool);
    Bytes b(t, pool);
    Same(a == b);
    Same(a == a);
}
void Less(const std::string& s, const std::string& t, MemoryPool* pool) {
    Bytes a(s, pool);
    Bytes b(t, pool);
    Same(a < b);
}
void Compare(const std::string& s, const std::string& t, MemoryPool* pool) {
    Bytes a(s, pool);
    Bytes b(t, pool);
    Number(a.compare(b));
}
void Element(const std::string& s, size_t i, char v, MemoryPool* pool) {
    Bytes a(s, pool);
    Bytes none;
    Number(a[i]);
    a[i] = v;
    Look(a, none);
}
void CopyOf(const std::string& s, size_t n, MemoryPool* pool, MemoryPool* other) {
    Bytes a(s, pool);
    PAIMON_UNIQUE_PTR<Bytes> b = Bytes::CopyOf(a, n, other);
    Look(*b, a);
}
void Allocate(int32_t n, MemoryPool* pool) {
    Bytes none;
    PAIMON_UNIQUE_PTR<Bytes> b = Bytes::AllocateBytes(n, pool);
    Look(*b, none);
}
void AllocateString(const std::string& s, MemoryPool* pool) {
    Bytes none;
    PAIMON_UNIQUE_PTR<Bytes> b = Bytes::AllocateBytes(s, pool);
    Look(*b, none);
}
// the deleter of pooled objects
void Release(const std::string& s, MemoryPool* pool, MemoryPool* other, size_t n) {
    Bytes a(s, pool);
    MemoryPool::AllocatorDelete<Bytes> d(*other, n);
    d(&a);
}
void ReleaseNothing(MemoryPool* other, size_t n) {
    MemoryPool::AllocatorDelete<Bytes> d(*other, n);
    d(nullptr);
}
void ReleaseCopied(const std::string& s, MemoryPool* pool, MemoryPool* other, size_t n) {
    Bytes a(s, pool);
    MemoryPool::AllocatorDelete<Bytes> d(*other, n);
    MemoryPool::AllocatorDelete<Bytes> e(*pool, n + 1);
    e = d;
    MemoryPool::AllocatorDelete<Bytes> f(e);
    f(&a);
}
void ReleaseMoved(const std::string& s, MemoryPool* pool, MemoryPool* other, size_t n) {
    Bytes a(s, pool);
    MemoryPool::AllocatorDelete<Bytes> d(*other, n);
    MemoryPool::AllocatorDelete<Bytes> e(*pool, n + 1);
    e = std::move(d);
    e(&a);
}
void ReleaseConverted(const std::string& s, MemoryPool* pool, MemoryPool* other, size_t n) {
    Bytes a(s, pool);
    MemoryPool::AllocatorDelete<char> d(*other, n);
    MemoryPool::AllocatorDelete<Bytes> e(d);
    e(&a);
}
void ReleaseOtherType(const std::string& s, MemoryPool* pool, MemoryPool* other, size_t n) {
    Bytes a(s, pool);
    MemoryPool::AllocatorDelete<char> d(*other, n);
    MemoryPool::AllocatorDelete<Bytes> e(*pool, n + 1);
    e = d;
    e(&a);
}
}  // namespace paimon::client09
