// Clients of local files: they only call the public interface.
// Never compiled or run; parsed so that the analysis can follow the calls.
#include <cstdint>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "paimon/fs/local/local_file.h"
#include "paimon/fs/local/local_file_status.h"
#include "paimon/result.h"
#include "paimon/status.h"

namespace paimon::client16 {
Result<bool> Exists(const std::string& path) {
    LocalFile file(path);
    return file.Exists();
}
Result<bool> IsFile(const std::string& path) {
    LocalFile file(path);
    return file.IsFile();
}
Result<bool> IsDir(const std::string& path) {
    LocalFile file(path);
    return file.IsDir();
}
Result<bool> Mkdir(const std::string& path) {
    LocalFile file(path);
    return file.Mkdir();
}
Status Delete(const std::string& path) {
    LocalFile file(path);
    return file.Delete();
}
Result<uint64_t> Length(const std::string& path) {
    LocalFile file(path);
    return file.Length();
}
Result<int64_t> Modified(const std::string& path) {
    LocalFile file(path);
    return file.LastModifiedTimeMs();
}
Status Stat(const std::string& path, uint64_t* length, int64_t* time, bool* is_dir,
            std::string* name) {
    LocalFile file(path);
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<LocalFileStatus> status, file.GetFileStatus());
    *length = status->GetLen();
    *time = status->GetModificationTime();
    *is_dir = status->IsDir();
    *name = status->GetPath();
    return Status::OK();
}
Status List(const std::string& path, std::vector<std::string>* names) {
    LocalFile file(path);
    return file.List(names);
}
std::string Parent(const std::string& path) {
    LocalFile file(path);
    LocalFile parent = file.GetParentFile();
    return parent.GetAbsolutePath();
}

Status Open(const std::string& path, bool read) {
    LocalFile file(path);
    return file.OpenFile(read);
}
Result<int32_t> Read(const std::string& path, char* buffer, uint32_t length) {
    LocalFile file(path);
    PAIMON_RETURN_NOT_OK(file.OpenFile(true));
    return file.Read(buffer, length);
}
Result<int32_t> ReadTwice(const std::string& path, char* buffer, uint32_t first, uint32_t second) {
    LocalFile file(path);
    PAIMON_RETURN_NOT_OK(file.OpenFile(true));
    PAIMON_ASSIGN_OR_RAISE(int32_t n, file.Read(buffer, first));
    return file.Read(buffer + n, second);
}
Result<int32_t> ReadAt(const std::string& path, char* buffer, uint32_t length, uint64_t offset) {
    LocalFile file(path);
    PAIMON_RETURN_NOT_OK(file.OpenFile(true));
    return file.Read(buffer, length, offset);
}
Result<int32_t> SeekRead(const std::string& path, char* buffer, uint32_t skip, int64_t offset,
                         int32_t origin, uint32_t length) {
    LocalFile file(path);
    PAIMON_RETURN_NOT_OK(file.OpenFile(true));
    PAIMON_RETURN_NOT_OK(file.Read(buffer, skip));
    PAIMON_RETURN_NOT_OK(file.Seek(offset, origin));
    return file.Read(buffer, length);
}
Result<int64_t> Tell(const std::string& path, char* buffer, uint32_t skip) {
    LocalFile file(path);
    PAIMON_RETURN_NOT_OK(file.OpenFile(true));
    PAIMON_RETURN_NOT_OK(file.Read(buffer, skip));
    return file.Tell();
}
Result<int32_t> Write(const std::string& path, const char* buffer, uint32_t length) {
    LocalFile file(path);
    PAIMON_RETURN_NOT_OK(file.OpenFile(false));
    return file.Write(buffer, length);
}
Status WriteFlush(const std::string& path, const char* buffer, uint32_t first, uint32_t second) {
    LocalFile file(path);
    PAIMON_RETURN_NOT_OK(file.OpenFile(false));
    PAIMON_RETURN_NOT_OK(file.Write(buffer, first));
    PAIMON_RETURN_NOT_OK(file.Write(buffer + first, second));
    return file.Flush();
}
Status WriteClose(const std::string& path, const char* buffer, uint32_t length) {
    LocalFile file(path);
    PAIMON_RETURN_NOT_OK(file.OpenFile(false));
    PAIMON_RETURN_NOT_OK(file.Write(buffer, length));
    return file.Close();
}
Status CloseTwice(const std::string& path) {
    LocalFile file(path);
    PAIMON_RETURN_NOT_OK(file.OpenFile(true));
    Status first = file.Close();
    Status second = file.Close();
    return second;
}
int32_t Closed(const std::string& path, char* buffer, bool open) {
    LocalFile file(path);
    if (open) {
        Status opened = file.OpenFile(true);
        Status closed = file.Close();
    }
    int32_t accepted = 0;
    accepted += file.Read(buffer, 1).ok() ? 1 : 0;
    accepted += file.Read(buffer, 1, 0).ok() ? 2 : 0;
    accepted += file.Write(buffer, 1).ok() ? 4 : 0;
    accepted += file.Flush().ok() ? 8 : 0;
    accepted += file.Seek(0, 0).ok() ? 16 : 0;
    accepted += file.Tell().ok() ? 32 : 0;
    accepted += file.Close().ok() ? 64 : 0;
    return accepted;
}
}  // namespace paimon::client16
