// A bounded queue that takes a break now and then before and after what the coordinator does with it, so that rare orders of
// its steps become frequent (C15). Included before util/coordinator.hpp, nothing in the repository is changed for it.
#ifndef MM2V_PAUSING_QUEUE_HPP
#define MM2V_PAUSING_QUEUE_HPP
#include <atomic>
#include <thread>
#include <chrono>
#include <boost/thread.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
namespace mm2v {
    inline std::atomic<unsigned> pauses{0}, pause_count{0};         // 0: never
    inline void pause() {
        const unsigned p = pauses.load(std::memory_order_relaxed);
        if (p == 0) return;
        unsigned x = (pause_count.fetch_add(1, std::memory_order_relaxed) + p) * 2654435761u; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13;
        if (x % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds{x / 4 % 200});
        else if (x % 4 == 1) std::this_thread::yield();
    }
}
namespace boost {
    template<typename T>
    struct mm2v_queue : sync_bounded_queue<T> {
        using base = sync_bounded_queue<T>;
        using base::base;
        bool empty() const { mm2v::pause(); const bool r = base::empty(); mm2v::pause(); return r; }
        bool closed() const { mm2v::pause(); const bool r = base::closed(); mm2v::pause(); return r; }
        void close() { mm2v::pause(); base::close(); mm2v::pause(); }
        queue_op_status wait_pull_front(T &t) { mm2v::pause(); const auto r = base::wait_pull_front(t); mm2v::pause(); return r; }
    };
}
#define sync_bounded_queue mm2v_queue
#include "util/coordinator.hpp"
#undef sync_bounded_queue
#endif
