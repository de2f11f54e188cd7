// Clients of the factory registry and the io hook: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "paimon/common/factories/io_hook.h"
#include "paimon/factories/factory.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/file_index/file_indexer_factory.h"
#include "paimon/file_index/file_indexer.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"
#include "paimon/global_index/global_indexer.h"
#include "paimon/global_index/global_indexer_factory.h"
#include "paimon/result.h"

namespace paimon::client21 {
using Options = std::map<std::string, std::string>;
using R = std::unique_ptr<FactoryCreator>;
// the operation of this thread lies between the two
void Begin(const R& r);
void End();
// what the factories below make; a negative mark is an error
Result<std::unique_ptr<FileFormat>> MadeFormat(int64_t mark, const Options& options);
Result<std::unique_ptr<FileSystem>> MadeFileSystem(int64_t mark, const std::string& path, const Options& options);
Result<std::unique_ptr<FileIndexer>> MadeIndexer(int64_t mark, const Options& options);
Result<std::unique_ptr<GlobalIndexer>> MadeGlobalIndexer(int64_t mark, const Options& options);

class Plain : public Factory {
 public:
    explicit Plain(int64_t m) : plain_(m) {}
    const char* Identifier() const override {
        return "plain";
    }
    int64_t plain_;
};
class Format : public FileFormatFactory {
 public:
    explicit Format(int64_t m) : format_(m) {}
    const char* Identifier() const override {
        return "format";
    }
    Result<std::unique_ptr<FileFormat>> Create(const Options& options) const override {
        return MadeFormat(format_, options);
    }
    int64_t format_;
};
class Fs : public FileSystemFactory {
 public:
    explicit Fs(int64_t m) : fs_(m) {}
    const char* Identifier() const override {
        return "fs";
    }
    Result<std::unique_ptr<FileSystem>> Create(const std::string& path, const Options& options) const override {
        return MadeFileSystem(fs_, path, options);
    }
    int64_t fs_;
};
class Indexer : public FileIndexerFactory {
 public:
    explicit Indexer(int64_t m) : indexer_(m) {}
    const char* Identifier() const override {
        return "indexer";
    }
    Result<std::unique_ptr<FileIndexer>> Create(const Options& options) const override {
        return MadeIndexer(indexer_, options);
    }
    int64_t indexer_;
};
class Global : public GlobalIndexerFactory {
 public:
    explicit Global(int64_t m) : global_(m) {}
    const char* Identifier() const override {
        return "global";
    }
    Result<std::unique_ptr<GlobalIndexer>> Create(const Options& options) const override {
        return MadeGlobalIndexer(global_, options);
    }
    int64_t global_;
};

R Make(bool a, bool b, bool c) {
    R r = std::make_unique<FactoryCreator>();
    if (b) {
        r->Register("b", new Plain(2));
    }
    if (a) {
        r->Register("a", new Plain(1));
    }
    if (c) {
        r->Register("c", new Plain(3));
    }
    return r;
}
// -1 for no factory
int64_t Mark(Factory* f) {
    if (f == nullptr) {
        return -1;
    }
    return static_cast<Plain*>(f)->plain_;
}
int64_t Find(bool a, bool b, bool c, const std::string& name) {
    R r = Make(a, b, c);
    return Mark(r->Create(name));
}
std::vector<std::string> Types(bool a, bool b, bool c) {
    return Make(a, b, c)->GetRegisteredType();
}
std::pair<int64_t, int64_t> FindTwice(bool a, bool b, bool c, const std::string& name) {
    R r = Make(a, b, c);
    int64_t x = Mark(r->Create(name));
    return {x, Mark(r->Create(name))};
}
// all names and what is found under each of them after one more registration
std::pair<std::vector<std::string>, std::vector<int64_t>> Add(bool a, bool b, bool c, const std::string& name) {
    R r = Make(a, b, c);
    Begin(r);
    r->Register(name, new Plain(9));
    End();
    std::vector<int64_t> marks;
    marks.push_back(Mark(r->Create("a")));
    marks.push_back(Mark(r->Create("b")));
    marks.push_back(Mark(r->Create("c")));
    marks.push_back(Mark(r->Create("d")));
    return {r->GetRegisteredType(), marks};
}
int64_t FindMeanwhile(bool a, bool b, bool c, const std::string& name) {
    R r = Make(a, b, c);
    Begin(r);
    int64_t x = Mark(r->Create(name));
    End();
    return x;
}
std::vector<std::string> TypesMeanwhile(bool a, bool b, bool c) {
    R r = Make(a, b, c);
    Begin(r);
    std::vector<std::string> x = r->GetRegisteredType();
    End();
    return x;
}
void OtherAdd(const R& r, const std::string& name) {
    r->Register(name, new Plain(8));
}
// one registry for everybody, made once
bool SameRegistry() {
    FactoryCreator* x = FactoryCreator::GetInstance();
    FactoryCreator* y = FactoryCreator::GetInstance();
    return x != nullptr && x == y;
}
bool SameHook() {
    IOHook* x = IOHook::GetInstance();
    IOHook* y = IOHook::GetInstance();
    return x != nullptr && x == y;
}
FactoryCreator* other_instance = nullptr;
bool RegistryMeanwhile() {
    R r;
    Begin(r);
    FactoryCreator* x = FactoryCreator::GetInstance();
    End();
    return x == other_instance && x == FactoryCreator::GetInstance();
}
void OtherInstance(const R& r) {
    other_instance = FactoryCreator::GetInstance();
}

void Fill() {
    auto* r = FactoryCreator::GetInstance();
    r->Register("format", new Format(11));
    r->Register("badformat", new Format(-1));
    r->Register("fs", new Fs(12));
    r->Register("badfs", new Fs(-1));
    r->Register("indexer", new Indexer(13));
    r->Register("badindexer", new Indexer(-1));
    r->Register("global-global", new Global(14));
    r->Register("badglobal-global", new Global(-1));
    r->Register("global", new Global(15));
    r->Register("plain", new Plain(16));
    r->Register("plain-global", new Plain(17));
}
Result<std::unique_ptr<FileFormat>> GetFormat(const std::string& name, const Options& options) {
    Fill();
    return FileFormatFactory::Get(name, options);
}
Result<std::unique_ptr<FileSystem>> GetFileSystem(const std::string& name, const std::string& path, const Options& options) {
    Fill();
    return FileSystemFactory::Get(name, path, options);
}
Result<std::unique_ptr<FileIndexer>> GetIndexer(const std::string& name, const Options& options) {
    Fill();
    return FileIndexerFactory::Get(name, options);
}
Result<std::unique_ptr<GlobalIndexer>> GetGlobalIndexer(const std::string& name, const Options& options) {
    Fill();
    return GlobalIndexerFactory::Get(name, options);
}

// the last of n attempts
Status Attempt(int64_t pos, IOHook::Mode mode, int64_t n) {
    IOHook hook;
    hook.Reset(pos, mode);
    for (int64_t i = 1; i < n; i++) {
        Status s = hook.Try("p");
    }
    return hook.Try("p");
}
int64_t Attempts(int64_t pos, IOHook::Mode mode, int64_t n) {
    IOHook hook;
    hook.Reset(pos, mode);
    for (int64_t i = 0; i < n; i++) {
        Status s = hook.Try("p");
    }
    return hook.IOCount();
}
Status Fresh() {
    IOHook hook;
    return hook.Try("p");
}
int64_t FreshCount() {
    IOHook hook;
    return hook.IOCount();
}
Status AttemptCleared(int64_t pos, IOHook::Mode mode, int64_t n) {
    IOHook hook;
    hook.Reset(pos, mode);
    for (int64_t i = 0; i < n; i++) {
        Status s = hook.Try("p");
    }
    hook.Clear();
    Status first = hook.Try("p");
    if (!first.ok()) {
        return first;
    }
    return hook.Try("p");
}
int64_t AttemptsCleared(int64_t pos, IOHook::Mode mode, int64_t n) {
    IOHook hook;
    hook.Reset(pos, mode);
    for (int64_t i = 0; i < n; i++) {
        Status s = hook.Try("p");
    }
    hook.Clear();
    return hook.IOCount();
}
Status AttemptReset(int64_t n, int64_t pos, IOHook::Mode mode, int64_t m) {
    IOHook hook;
    hook.Reset(1, IOHook::Mode::SILENT);
    for (int64_t i = 0; i < n; i++) {
        Status s = hook.Try("p");
    }
    hook.Reset(pos, mode);
    for (int64_t i = 1; i < m; i++) {
        Status s = hook.Try("p");
    }
    return hook.Try("p");
}
}  // namespace paimon::client21
