// Opening, growing, shrinking and sharing single memory-mapped files (C08).
//   create|openc SIZE | ro | rw | cow | fresh SIZE        (fresh: destroy and create)
//   put v k       append v, with k free bytes left (k < 0: as is), growing until it fits
//   get | grow [BYTES] | dropgrow | shrink 0|1 | close | crash | destroy | plain SIZE (a file of something else)
//   other version|compiler MODE [SIZE]     a build that differs tries MODE (and puts 77 when it could write)
#include "mm2v.hpp"
#include <filesystem>
#include "io/memory_mapped/types.hpp"
#include "io/memory_mapped/concepts.hpp"
#include "io/memory_mapped/storage/base_storage.hpp"
using namespace mm2v;
using namespace map_matching_2::io::memory_mapped;
using namespace map_matching_2::io::memory_mapped::storage;
namespace bi = boost::interprocess;
namespace fs = std::filesystem;
using Types = file_types;
using C = mmap_container<Types>;
using A = typename Types::template allocator_type<long>;
using V = typename Types::template vector_type<long, A>;

static std::string self;
static std::string dir() { return (fs::current_path() / "files.d").string(); }
static std::string file() { return dir() + "/x.bin"; }

static std::vector<long> get(C &c) {
    const auto *v = c.storage().template find<V>("data").first;
    return v ? std::vector<long>(v->begin(), v->end()) : std::vector<long>{};
}
static void put(C &c, long x, long k, bool grow = true) {
    auto *sm = c.storage().get_segment_manager();
    if (k >= 0) {
        void *keep = k > 0 ? sm->allocate(k, std::nothrow) : nullptr;
        for (std::size_t n = 1u << 24; n >= 8; n /= 2) while (sm->allocate(n, std::nothrow)) {}
        if (keep) sm->deallocate(keep);
    }
    retry_alloc([&]() {
        auto *v = c.storage().template find<V>("data").first;
        if (!v) v = c.storage().template construct<V>("data")(A{c.storage().get_segment_manager()});
        v->push_back(x);
    }, [&](auto &a) { if (!grow) throw a; c.grow(); }, 8);
}
static std::uint64_t digest() {
    std::ifstream f(file(), std::ios::binary);
    std::uint64_t h = f.is_open() ? 1469598103934665603ull : 5;
    char b[65536];
    while (f.read(b, sizeof b), f.gcount() > 0) for (long i = 0; i < f.gcount(); ++i) h = (h ^ (unsigned char) b[i]) * 1099511628211ull;
    return h;
}
static std::string attempt(const std::string &mode, std::size_t size, std::unique_ptr<C> &c) {
    c.reset();
    try {
        auto n = std::make_unique<C>(fs::path{file()});
        if (mode == "create") n->create_only(size);
        else if (mode == "openc") n->open_or_create(size);
        else if (mode == "ro") n->open_read_only();
        else if (mode == "rw") n->open();
        else if (mode == "cow") n->open_copy_on_write();
        else n->destroy_and_create(size);
        c = std::move(n);
        return "ok";
    } catch (bi::interprocess_exception &) { return "missing"; }
    catch (std::runtime_error &) { return "refused"; }
}
struct H : Handler {
    std::unique_ptr<C> c;
    std::vector<C *> lost;
    std::string mode;
    void begin() override { end(); fs::create_directories(dir()); emit(J::obj().kv("op", "begin")); }
    void end() override { c.reset(); lost.clear(); fs::remove_all(dir()); }
    void line(const std::string &op, std::istringstream &in) override {
        J j = J::obj().kv("op", op);
        auto before = digest();
        if (op == "other") {
            std::string what, m; std::size_t size = 0; in >> what >> m >> size;
            std::fflush(stdout);
            std::string cmd = self + "-" + what + " --try " + m + " " + std::to_string(size), out;
            FILE *p = popen(cmd.c_str(), "r");
            char b[4096]; std::size_t r;
            while ((r = fread(b, 1, sizeof b, p)) > 0) out.append(b, r);
            int rc = pclose(p);
            while (!out.empty() && out.back() == '\n') out.pop_back();
            emit(j.kv("mode", m).kv("what", what).kv("res", rc == 0 ? out : "crash").kv("same", before == digest()));
            return;
        }
        if (op == "create" || op == "openc" || op == "ro" || op == "rw" || op == "cow" || op == "fresh") {
            std::size_t size = 0; in >> size;
            auto r = attempt(op, size, c);
            mode = op;
            emit(J::obj().kv("op", "open").kv("mode", op).kv("res", r).kv("same", before == digest())
                 .kv("vals", c ? get(*c) : std::vector<long>{}));
            return;
        }
        if (op == "destroy") {
            c.reset();
            C x{fs::path{file()}}; x.destroy();
            emit(j.kv("exists", digest() != 5));
            return;
        }
        if (op == "plain") {
            std::size_t size; in >> size;
            c.reset();
            bi::file_mapping::remove(file().c_str());
            { Types::mmap_type x{bi::create_only, file().c_str(), size}; }
            emit(j);
            return;
        }
        if (op == "put") { long v, k; in >> v >> k; 
            if (mode == "cow") { try { put(*c, v, k, false); } catch (bi::bad_alloc &) { j = J::obj().kv("op", "full"); } }
            else put(*c, v, k);
            j.kv("v", v);
        }
        else if (op == "get") {}
        else if (op == "grow") { long k = 0; if (in >> k) c->grow(c->size() + k); else c->grow(); }
        else if (op == "dropgrow") c->drop_grow();
        else if (op == "shrink") { int k; in >> k; c->shrink_to_fit(k); j.kv("reopen", k == 1); if (!k) c.reset(); }
        else if (op == "close") { c.reset(); }
        else if (op == "crash") { lost.push_back(c.release()); }     // the process is gone, nothing closes the file
        else std::abort();
        j.kv("same", before == digest());
        j.kv("vals", c ? get(*c) : std::vector<long>{});
        emit(j);
    }
};
int main(int argc, char **argv) {
    self = fs::read_symlink("/proc/self/exe").string();
    if (argc == 4 && std::string(argv[1]) == "--try") {
        std::unique_ptr<C> c;
        auto r = attempt(argv[2], std::stoul(argv[3]), c);
        try { if (c && std::string(argv[2]) != "ro") put(*c, 77, -1, std::string(argv[2]) != "cow"); } catch (bi::bad_alloc &) {}
        std::puts(r.c_str());
        return 0;
    }
    H h; return mm2v::run(argc, argv, h);
}
