// Shared helpers of the property harnesses
#pragma once
#include "pbt.hpp"
#include <condition_variable>
#include <functional>
#include <jnivm.h>
#include <jnivm/internal/findclass.h>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using jnivm::ENV;
using jnivm::VM;

// A name made of few letters, so that names collide and are prefixes of each other often
inline std::string gen_ident(pbt::Src& s, const char* pool = "abcAB") {
    std::string r;
    size_t n = 1 + s.below(3);
    for (size_t i = 0; i < n; i++) r += pool[s.below((uint32_t)strlen(pool))];
    return r;
}

inline ENV* jenv(JNIEnv* env) { return ENV::FromJNIEnv(env); }

// A local reference to a native object
template <class T> jobject local(JNIEnv* env, const std::shared_ptr<T>& o) {
    return (jobject)jnivm::JNITypes<std::shared_ptr<T>>::ToJNIType(jenv(env), o);
}
// The native object behind any reference (throws on a wrong type)
template <class T> std::shared_ptr<T> native(JNIEnv* env, jobject o) {
    return jnivm::JNITypes<std::shared_ptr<T>>::JNICast(jenv(env), o);
}

// A reference of a random kind to the object behind o; the ones which must be deleted are collected
struct Refs {
    JNIEnv* env;
    std::vector<jobject> globals;
    std::vector<jweak> weaks;
    explicit Refs(JNIEnv* env) : env(env) {}
    ~Refs() {
        for (auto g : globals) env->DeleteGlobalRef(g);
        for (auto w : weaks) env->DeleteWeakGlobalRef(w);
    }
    static const char* kind_name(int k) {
        static const char* n[] = {"itself", "local", "global", "weak", "global of weak", "weak of global"};
        return n[k];
    }
    jobject make(jobject o, int kind) {
        if (!o) return nullptr;
        switch (kind) {
            case 0: return o;
            case 1: return env->NewLocalRef(o);
            case 2: return global(o);
            case 3: return weak(o);
            case 4: return global(weak(o));
            default: return weak(global(o));
        }
    }
    jobject any(pbt::Src& s, jobject o) { return make(o, s.below(6)); }
    jobject global(jobject o) {
        jobject g = env->NewGlobalRef(o);
        if (g) globals.push_back(g);
        return g;
    }
    jobject weak(jobject o) {
        jweak w = env->NewWeakGlobalRef(o);
        if (w) weaks.push_back(w);
        return w;
    }
};

// A thread which runs what it is given, one thing at a time; the caller waits
class Worker {
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool busy = false, stop = false;
    std::exception_ptr err;
    std::thread t;

public:
    Worker() : t([this] { loop(); }) {}
    ~Worker() {
        {
            std::lock_guard<std::mutex> l(m);
            stop = true;
        }
        cv.notify_all();
        t.join();
    }
    void run(std::function<void()> f) {
        start(std::move(f));
        finish();
    }
    void start(std::function<void()> f) {
        std::unique_lock<std::mutex> l(m);
        job = std::move(f);
        busy = true;
        cv.notify_all();
    }
    void finish() {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [this] { return !busy; });
        job = nullptr;
        if (err) {
            auto e = err;
            err = nullptr;
            std::rethrow_exception(e);
        }
    }

private:
    void loop() {
        std::unique_lock<std::mutex> l(m);
        for (;;) {
            cv.wait(l, [this] { return busy || stop; });
            if (!busy) return;
            try {
                job();
            } catch (...) {
                err = std::current_exception();
            }
            busy = false;
            cv.notify_all();
        }
    }
};
