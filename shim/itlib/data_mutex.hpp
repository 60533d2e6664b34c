// stand-in for iboB/itlib data_mutex.hpp
#pragma once
#include <mutex>
#include <shared_mutex>
#include <utility>
namespace itlib {
// a harness may take over the waiting of a thread: acquire returns when the lock can be taken without waiting
struct dm_state { int readers = 0; bool writer = false; };
struct dm_hook {
    virtual void acquire(dm_state& st, bool unique) = 0;
    virtual void released(dm_state& st, bool unique) noexcept = 0;
protected:
    ~dm_hook() = default;
};
inline thread_local dm_hook* dm_cur_hook = nullptr;

template <typename Mutex>
class dm_mutex {
    Mutex m;
    dm_state st;
public:
    void lock() { if (auto h = dm_cur_hook) h->acquire(st, true); m.lock(); }
    void unlock() { m.unlock(); if (auto h = dm_cur_hook) h->released(st, true); }
    void lock_shared() { if (auto h = dm_cur_hook) h->acquire(st, false); m.lock_shared(); }
    void unlock_shared() { m.unlock_shared(); if (auto h = dm_cur_hook) h->released(st, false); }
    // a hook sees these as calls which wait
    bool try_lock() { if (dm_cur_hook) { lock(); return true; } return m.try_lock(); }
    bool try_lock_shared() { if (dm_cur_hook) { lock_shared(); return true; } return m.try_lock_shared(); }
};

template <typename Data, typename Lock>
class data_lock {
    Data* m_data; // held before the lock so that it is never dangling while locked
    Lock m_lock;
public:
    template <typename M>
    data_lock(Data& d, M& m) : m_data(&d), m_lock(m) {}
    template <typename M, typename Tag>
    data_lock(Data& d, M& m, Tag t) : m_data(&d), m_lock(m, t) {}
    data_lock(data_lock&&) noexcept = default;
    data_lock& operator=(data_lock&&) noexcept = default;
    explicit operator bool() const noexcept { return m_lock.owns_lock(); }
    Data* operator->() const noexcept { return m_data; }
    Data& operator*() const noexcept { return *m_data; }
    Data* get() const noexcept { return m_data; }
    void unlock() { m_lock.unlock(); }
};
template <typename T, typename Mutex = std::mutex>
class data_mutex {
    T m_data;
    mutable dm_mutex<Mutex> m_mutex;
public:
    using unique_lock_t = data_lock<T, std::unique_lock<dm_mutex<Mutex>>>;
    using shared_lock_t = data_lock<const T, std::shared_lock<dm_mutex<Mutex>>>;
    template <typename... Args>
    explicit data_mutex(Args&&... args) : m_data(std::forward<Args>(args)...) {}
    data_mutex(const data_mutex&) = delete;
    data_mutex& operator=(const data_mutex&) = delete;
    unique_lock_t unique_lock() { return unique_lock_t(m_data, m_mutex); }
    unique_lock_t try_unique_lock() { return unique_lock_t(m_data, m_mutex, std::try_to_lock); }
    shared_lock_t shared_lock() const { return shared_lock_t(m_data, m_mutex); }
    shared_lock_t try_shared_lock() const { return shared_lock_t(m_data, m_mutex, std::try_to_lock); }
    T& unsafe_data() noexcept { return m_data; }
    const T& unsafe_data() const noexcept { return m_data; }
};
}
