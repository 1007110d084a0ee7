// compare_exchange_weak may fail for no reason.  The compiler forgets which ones are weak, so they are marked here.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>

extern "C" void vrt_weak_cas();
extern "C" bool vrt_weak_failed();
namespace vrt {
// After a failure for no reason, the expected value is what it was.
template<typename T> struct WeakArg
{
    T &e; const T old;
    explicit WeakArg(T &x) : e(x), old(x) { vrt_weak_cas(); }
    ~WeakArg() { if (vrt_weak_failed()) e = old; }
    operator T &() { return e; }
};
}
#define compare_exchange_weak(E, ...) compare_exchange_strong(vrt::WeakArg<std::remove_reference_t<decltype(E)>>(E), __VA_ARGS__)
