#include "memdb.hpp"

#include "sched.hpp"

#include <leveldb/db.h>
#include <leveldb/iterator.h>
#include <leveldb/write_batch.h>
#include <memory>
namespace {
    using table = std::map<std::string, std::string>;
    using tptr = std::shared_ptr<const table>;
    std::map<std::string, tptr>& stores() {
        static std::map<std::string, tptr> m;
        return m;
    }
    size_t snaps = 0;
    struct snap : leveldb::Snapshot {
        tptr t;
    };
    struct iter : leveldb::Iterator {
        tptr t;
        table::const_iterator i;
        bool v{false};
        [[nodiscard]] bool Valid() const override {
            return v && i != t->end();
        }
        void SeekToFirst() override {
            i = t->begin();
            v = true;
        }
        void SeekToLast() override {
            v = !t->empty();
            if(v) {
                i = std::prev(t->end());
            }
        }
        void Seek(const leveldb::Slice& k) override {
            i = t->lower_bound(k.ToString());
            v = true;
        }
        void Next() override {
            ++i;
        }
        void Prev() override {
            v = i != t->begin();
            if(v) {
                --i;
            }
        }
        [[nodiscard]] leveldb::Slice key() const override {
            return i->first;
        }
        [[nodiscard]] leveldb::Slice value() const override {
            return i->second;
        }
        [[nodiscard]] leveldb::Status status() const override {
            return leveldb::Status::OK();
        }
    };
    struct handler : leveldb::WriteBatch::Handler {
        table* t{};
        void Put(const leveldb::Slice& k, const leveldb::Slice& v) override {
            (*t)[k.ToString()] = v.ToString();
        }
        void Delete(const leveldb::Slice& k) override {
            t->erase(k.ToString());
        }
    };
    struct db : leveldb::DB {
        std::string name;
        tptr& cur() {
            return stores()[name];
        }
        void step(const char* w) {
            if(sched::active()) {
                sched::point(w);
            }
        }
        leveldb::Status Put(const leveldb::WriteOptions& o,
                            const leveldb::Slice& k,
                            const leveldb::Slice& v) override {
            leveldb::WriteBatch b;
            b.Put(k, v);
            return Write(o, &b);
        }
        leveldb::Status Delete(const leveldb::WriteOptions& o,
                               const leveldb::Slice& k) override {
            leveldb::WriteBatch b;
            b.Delete(k);
            return Write(o, &b);
        }
        leveldb::Status Write(const leveldb::WriteOptions&,
                              leveldb::WriteBatch* b) override {
            step("db write");
            sched::rt_guard g;
            auto n = std::make_shared<table>(*cur());
            handler h;
            h.t = n.get();
            b->Iterate(&h);
            cur() = n;
            return leveldb::Status::OK();
        }
        leveldb::Status Get(const leveldb::ReadOptions& o,
                            const leveldb::Slice& k,
                            std::string* v) override {
            step("db read");
            sched::rt_guard g;
            auto t = o.snapshot != nullptr
                       ? static_cast<const snap*>(o.snapshot)->t
                       : cur();
            auto it = t->find(k.ToString());
            if(it == t->end()) {
                return leveldb::Status::NotFound("no such key");
            }
            *v = it->second;
            return leveldb::Status::OK();
        }
        leveldb::Iterator* NewIterator(const leveldb::ReadOptions& o) override {
            step("db iterator");
            sched::rt_guard g;
            auto* i = new iter;
            i->t = o.snapshot != nullptr
                     ? static_cast<const snap*>(o.snapshot)->t
                     : cur();
            return i;
        }
        const leveldb::Snapshot* GetSnapshot() override {
            step("db snapshot");
            sched::rt_guard g;
            auto* s = new snap;
            s->t = cur();
            snaps++;
            return s;
        }
        void ReleaseSnapshot(const leveldb::Snapshot* s) override {
            sched::rt_guard g;
            snaps--;
            delete static_cast<const snap*>(s);
        }
        bool GetProperty(const leveldb::Slice&, std::string*) override {
            return false;
        }
        void GetApproximateSizes(const leveldb::Range*, int n,
                                 uint64_t* s) override {
            for(int i = 0; i < n; i++) {
                s[i] = 0;
            }
        }
        void CompactRange(const leveldb::Slice*,
                          const leveldb::Slice*) override {}
    };
}
namespace memdb {
    void reset() {
        sched::rt_guard g;
        stores().clear();
        snaps = 0;
    }
    std::map<std::string, std::string> contents(const std::string& n) {
        sched::rt_guard g;
        auto it = stores().find(n);
        return it == stores().end() ? table{} : *it->second;
    }
    size_t open_snapshots() {
        return snaps;
    }
}
leveldb::Status leveldb::DB::Open(const leveldb::Options&,
                                  const std::string& name,
                                  leveldb::DB** p) {
    sched::rt_guard g;
    auto* d = new db;
    d->name = name;
    if(!d->cur()) {
        d->cur() = std::make_shared<table>();
    }
    *p = d;
    return leveldb::Status::OK();
}
