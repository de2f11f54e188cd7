// Clients of the local file system: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "paimon/fs/local/local_file_system.h"
#include "paimon/result.h"
#include "paimon/status.h"

namespace paimon::client30 {
Status Store(const std::string& path, const std::string& content) {
    LocalFileSystem fs;
    return fs.AtomicStore(path, content);
}
Status Write(const std::string& path, const std::string& content, bool overwrite) {
    LocalFileSystem fs;
    return fs.WriteFile(path, content, overwrite);
}
Status Read(const std::string& path, std::string* content) {
    LocalFileSystem fs;
    return fs.ReadFile(path, content);
}
Status Rename(const std::string& src, const std::string& dst) {
    LocalFileSystem fs;
    return fs.Rename(src, dst);
}
Status Delete(const std::string& path, bool recursive) {
    LocalFileSystem fs;
    return fs.Delete(path, recursive);
}
Status Mkdirs(const std::string& path) {
    LocalFileSystem fs;
    return fs.Mkdirs(path);
}
Result<bool> Exists(const std::string& path) {
    LocalFileSystem fs;
    return fs.Exists(path);
}
Status Stat(const std::string& path, std::string* name, bool* is_dir, uint64_t* length,
            int64_t* time) {
    LocalFileSystem fs;
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<FileStatus> status, fs.GetFileStatus(path));
    *name = status->GetPath();
    *is_dir = status->IsDir();
    *length = status->GetLen();
    *time = status->GetModificationTime();
    return Status::OK();
}
Status ListBasic(const std::string& path, std::vector<std::string>* names,
                 std::vector<bool>* dirs) {
    LocalFileSystem fs;
    std::vector<std::unique_ptr<BasicFileStatus>> list;
    PAIMON_RETURN_NOT_OK(fs.ListDir(path, &list));
    for (const auto& one : list) {
        names->push_back(one->GetPath());
        dirs->push_back(one->IsDir());
    }
    return Status::OK();
}
Status ListFull(const std::string& path, std::vector<std::string>* names, std::vector<bool>* dirs,
                std::vector<uint64_t>* lengths) {
    LocalFileSystem fs;
    std::vector<std::unique_ptr<FileStatus>> list;
    PAIMON_RETURN_NOT_OK(fs.ListFileStatus(path, &list));
    for (const auto& one : list) {
        names->push_back(one->GetPath());
        dirs->push_back(one->IsDir());
        lengths->push_back(one->GetLen());
    }
    return Status::OK();
}
Status Opens(const std::string& path) {
    LocalFileSystem fs;
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<InputStream> in, fs.Open(path));
    return in->Close();
}
Status Creates(const std::string& path, bool overwrite) {
    LocalFileSystem fs;
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<OutputStream> out, fs.Create(path, overwrite));
    return out->Close();
}
Result<bool> Remote(const std::string& path) {
    return FileSystem::IsObjectStore(path);
}
Status Tail(const std::string& path, int64_t offset, SeekOrigin origin, char* buffer,
            uint32_t size, int64_t* pos, uint64_t* length) {
    LocalFileSystem fs;
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<InputStream> in, fs.Open(path));
    PAIMON_RETURN_NOT_OK(in->Seek(offset, origin));
    PAIMON_ASSIGN_OR_RAISE(int32_t n, in->Read(buffer, size));
    (void)n;
    PAIMON_ASSIGN_OR_RAISE(*pos, in->GetPos());
    PAIMON_ASSIGN_OR_RAISE(*length, in->Length());
    return in->Close();
}
Status At(const std::string& path, char* buffer, uint32_t size, uint64_t offset) {
    LocalFileSystem fs;
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<InputStream> in, fs.Open(path));
    PAIMON_ASSIGN_OR_RAISE(int32_t n, in->Read(buffer, size, offset));
    (void)n;
    return in->Close();
}
Status Async(const std::string& path, char* buffer, uint32_t size, uint64_t offset) {
    LocalFileSystem fs;
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<InputStream> in, fs.Open(path));
    Status result = Status::Invalid("not called");
    in->ReadAsync(buffer, size, offset, [&result](Status status) { result = status; });
    return result;
}
}  // namespace paimon::client30
