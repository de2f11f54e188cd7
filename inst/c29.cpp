// Clients of the file system that picks another one by path: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "paimon/common/fs/resolving_file_system.h"
#include "paimon/fs/file_system.h"
#include "paimon/result.h"
#include "paimon/status.h"

namespace paimon::client29 {
using M = std::shared_ptr<ResolvingFileSystem>;
// the operation of this thread lies between the two
void Begin(const M& m);
void End();
// separates the operations in the record of calls
void Mark(int n);

M Make(bool file, bool oss, bool hdfs, bool other) {
    std::map<std::string, std::string> ids;
    if (file) {
        ids["file"] = "id-file";
    }
    if (oss) {
        ids["oss"] = "id-oss";
    }
    if (hdfs) {
        ids["hdfs"] = "id-hdfs";
    }
    std::map<std::string, std::string> options;
    options["k"] = "v";
    options["l"] = "w";
    return std::make_shared<ResolvingFileSystem>(ids, other ? "id-other" : "id-default", options);
}
Result<bool> One(bool file, bool oss, bool hdfs, bool other, const std::string& a) {
    M m = Make(file, oss, hdfs, other);
    return m->Exists(a);
}
Result<bool> Two(bool file, bool oss, bool hdfs, bool other, const std::string& a, const std::string& b) {
    M m = Make(file, oss, hdfs, other);
    Result<bool> x = m->Exists(a);
    Mark(1);
    return m->Exists(b);
}
Result<bool> Three(bool file, bool oss, bool hdfs, bool other, const std::string& a, const std::string& b, const std::string& c) {
    M m = Make(file, oss, hdfs, other);
    Result<bool> x = m->Exists(a);
    Mark(1);
    Result<bool> y = m->Exists(b);
    Mark(2);
    return m->Exists(c);
}
Result<bool> Shared(bool file, bool oss, bool hdfs, bool other, const std::string& a, const std::string& b) {
    M m = Make(file, oss, hdfs, other);
    Begin(m);
    Result<bool> x = m->Exists(a);
    End();
    Mark(1);
    return m->Exists(b);
}
void Other(const M& m, const std::string& a) {
    Result<bool> x = m->Exists(a);
}

Result<std::unique_ptr<InputStream>> Open(const std::string& a) {
    return Make(true, true, true, false)->Open(a);
}
Result<std::unique_ptr<OutputStream>> Create(const std::string& a, bool flag) {
    return Make(true, true, true, false)->Create(a, flag);
}
Status Mkdirs(const std::string& a) {
    return Make(true, true, true, false)->Mkdirs(a);
}
Status Rename(const std::string& a, const std::string& b) {
    return Make(true, true, true, false)->Rename(a, b);
}
Status Delete(const std::string& a, bool flag) {
    return Make(true, true, true, false)->Delete(a, flag);
}
Status DeleteDefault(const std::string& a) {
    return Make(true, true, true, false)->Delete(a);
}
Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string& a) {
    return Make(true, true, true, false)->GetFileStatus(a);
}
Status ListDir(const std::string& a, std::vector<std::unique_ptr<BasicFileStatus>>* out) {
    return Make(true, true, true, false)->ListDir(a, out);
}
Status ListFileStatus(const std::string& a, std::vector<std::unique_ptr<FileStatus>>* out) {
    return Make(true, true, true, false)->ListFileStatus(a, out);
}
Result<bool> Exists(const std::string& a) {
    return Make(true, true, true, false)->Exists(a);
}
}  // namespace paimon::client29
