// In-memory leveldb for controlled schedules: defines leveldb::DB::Open, so
// that it replaces the library's. Batches are atomic, snapshots immutable;
// every call is a scheduling point.
#ifndef VERIF_MEMDB_HPP
#define VERIF_MEMDB_HPP
#include <map>
#include <string>
namespace memdb {
    void reset(); // forget all databases (a fresh machine)
    std::map<std::string, std::string> contents(const std::string& name);
    size_t open_snapshots();
}
#endif
