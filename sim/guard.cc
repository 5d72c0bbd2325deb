// Entry points of the C++ ABI for function-local statics (no headers: their
// declarations differ between versions).
extern "C" int sim_guard_acquire(void *);
extern "C" void sim_guard_release(void *);
extern "C" void sim_guard_abort(void *);
extern "C" int __cxa_guard_acquire(long long *g) { return sim_guard_acquire(g); }
extern "C" void __cxa_guard_release(long long *g) noexcept { sim_guard_release(g); }
extern "C" void __cxa_guard_abort(long long *g) noexcept { sim_guard_abort(g); }
