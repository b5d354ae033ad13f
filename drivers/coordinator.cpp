// Drives util::coordinator with tasks that wait for their release (C15).
// script: cfg w q [simple] ; B k (the producer starts queueing k) ; P k (.. has queued it) ; S k (k has started) ; F k 0|1 (k ends, 1: throws) ;
//         X (stop) ; J (join) ; free n speed pause breaks (n tasks without waiting, then stop and join)
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>
#include "mm2v.hpp"
#include "pausing_queue.hpp"
using namespace mm2v;
namespace mm = map_matching_2;
static std::mutex m;
static std::condition_variable cv;
static std::set<long> released, failing, started, done;
static bool gated = true;
static unsigned speed = 0;
static void note(const char *op, long k) { emit(J::obj().kv("op", op).kv("k", k)); std::fflush(stdout); }
struct task { long k = 0; std::shared_ptr<std::string> load; };
struct co : mm::util::coordinator<task> {
    using base = mm::util::coordinator<task>;
    co(unsigned w, unsigned q) : base{w, q} {}
    explicit co(unsigned w) : base{w} {}
    ~co() override = default;
protected:
    void execute(task &&t) override {
        const long k = t.k;
        bool fail;
        {
            std::unique_lock<std::mutex> l(m);
            note(t.load && *t.load == std::to_string(k) ? "start" : "spoiled", k);
            started.insert(k);
            cv.notify_all();
            if (gated) cv.wait(l, [k] { return released.count(k) > 0; });
            fail = failing.count(k) > 0;
        }
        if (!gated) for (unsigned i = 0; i < (k * 7919u) % 5 * speed; ++i) std::this_thread::yield();
        {
            std::unique_lock<std::mutex> l(m);
            note("done", k);
            done.insert(k);
            cv.notify_all();
        }
        if (fail) throw std::runtime_error{"task failed"};
    }
};
struct H : Handler {
    std::unique_ptr<co> c;
    // the producer
    std::thread prod;
    long want = 0, has = 0; bool quit = false;
    void begin() override {
        emit(J::obj().kv("op", "begin"));
        pauses = 0; released.clear(); failing.clear(); started.clear(); done.clear(); gated = true;
        want = has = 0; quit = false;
    }
    void produce(long k) {
        task t{k, std::make_shared<std::string>(std::to_string(k))};
        if (k % 2) c->queue(t); else c->queue(std::move(t));
    }
    void line(const std::string &op, std::istringstream &in) override {
        long k = 0;
        if (op == "cfg") {
            unsigned w, q; int plain = 0; in >> w >> q >> plain;
            if (plain) { q = w == 1 ? w : 2 * w; c = std::make_unique<co>(w); } else c = std::make_unique<co>(w, q);
            emit(J::obj().kv("op", "cfg").kv("w", w).kv("q", q));
            c->start();
            prod = std::thread([this] {
                std::unique_lock<std::mutex> l(m);
                for (;;) {
                    cv.wait(l, [this] { return quit || want > has; });
                    if (quit) return;
                    const long k = has + 1;
                    l.unlock();
                    produce(k);
                    l.lock();
                    note("queued", k);
                    has = k;
                    cv.notify_all();
                }
            });
        } else if (op == "B") {
            in >> k;
            std::unique_lock<std::mutex> l(m);
            note("in", k);
            want = k;
            cv.notify_all();
        } else if (op == "P") {
            in >> k;
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [this, k] { return has >= k; });
        } else if (op == "S") {
            in >> k;
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [k] { return started.count(k) > 0; });
        } else if (op == "F") {
            int f; in >> k >> f;
            std::unique_lock<std::mutex> l(m);
            if (f) failing.insert(k);
            released.insert(k);
            cv.notify_all();
            cv.wait(l, [k] { return done.count(k) > 0; });
        } else if (op == "X") {
            { std::unique_lock<std::mutex> l(m); note("stop", 0); }
            c->stop();
        } else if (op == "J") {
            c->join();
            std::unique_lock<std::mutex> l(m);
            note("joined", 0);
        } else if (op == "free") {
            long n; unsigned s, pause, breaks; in >> n >> s >> pause >> breaks;
            speed = s; gated = false; pauses = breaks;
            for (k = 1; k <= n; ++k) {
                { std::unique_lock<std::mutex> l(m); note("in", k); if (k % 3 == 0) failing.insert(k); }
                produce(k);
                { std::unique_lock<std::mutex> l(m); note("queued", k); }
                for (unsigned i = 0; i < pause * (k % 3); ++i) std::this_thread::yield();
            }
            { std::unique_lock<std::mutex> l(m); note("stop", 0); }
            c->stop();
            c->join();
            std::unique_lock<std::mutex> l(m);
            note("joined", 0);
        } else std::abort();
    }
    void end() override {
        { std::unique_lock<std::mutex> l(m); quit = true; cv.notify_all(); }
        if (prod.joinable()) prod.join();
        c.reset();
    }
};
int main(int argc, char **argv) { H h; return run(argc, argv, h, 10); }
