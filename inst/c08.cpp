// Makes the arguments of the builders; parsed only, never compiled or run.
#include <map>
#include <string>
#include <vector>

#include "paimon/commit_context.h"
#include "paimon/read_context.h"
#include "paimon/scan_context.h"
#include "paimon/write_context.h"

namespace paimon::client08 {
std::map<std::string, std::string> Map(const std::string& k, const std::string& v, const std::string& k2, const std::string& v2) {
    std::map<std::string, std::string> m;
    m[k] = v;
    m[k2] = v2;
    return m;
}
std::vector<std::string> Names(const std::string& a, const std::string& b) {
    std::vector<std::string> v;
    v.push_back(a);
    v.push_back(b);
    return v;
}
std::vector<std::map<std::string, std::string>> Partitions(const std::string& k, const std::string& v, const std::string& v2) {
    std::vector<std::map<std::string, std::string>> all;
    all.push_back(Map(k, v, "p", "q"));
    all.push_back(Map(k, v2, "p", "r"));
    return all;
}
}  // namespace paimon::client08
