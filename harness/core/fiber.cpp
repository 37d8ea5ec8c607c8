#include "core/fiber.hpp"
#include "core/seams.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <pthread.h>
extern "C" {
void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size);
void __sanitizer_finish_switch_fiber(void* fake, const void** bottom, size_t* size);
}
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
// What belongs to one thread of control: exception bookkeeping, allocation and disk plans.
struct Own { void* caught = nullptr; unsigned uncaught = 0; MemSeam mem; DiskSeam disk; };
struct Eh { void* caught; unsigned uncaught; };
static void swapOwn(Own& o) {
    Eh* e = reinterpret_cast<Eh*>(__cxxabiv1::__cxa_get_globals());
    std::swap(e->caught, o.caught); std::swap(e->uncaught, o.uncaught);
    std::swap(mem, o.mem); std::swap(disk, o.disk);
}
struct FiberImpl {
    Own own;
    ucontext_t ctx, back;
    void* stack; size_t size;
    std::function<void()> fn;
    bool finished = false, started = false;
    std::exception_ptr err;
    void* fake = nullptr; void* back_fake = nullptr;
    const void* back_bottom = nullptr; size_t back_size = 0;
    int index;
};
static FiberImpl* cur = nullptr;
static void entry() {
    FiberImpl* f = cur;
    __sanitizer_finish_switch_fiber(nullptr, &f->back_bottom, &f->back_size);
    try { f->fn(); } catch (...) { f->err = std::current_exception(); }
    f->finished = true;
    cur = nullptr;
    __sanitizer_start_switch_fiber(nullptr, f->back_bottom, f->back_size);
    swapcontext(&f->ctx, &f->back);
}
Fibers::Fibers() {}
Fibers::~Fibers() { for (auto* f : f_) { munmap(f->stack, f->size); delete f; } }
int Fibers::spawn(std::function<void()> fn) {
    NoFault nf;
    FiberImpl* f = new FiberImpl;
    f->size = 4 << 20;
    f->stack = mmap(nullptr, f->size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    f->fn = std::move(fn);
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = f->size; f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, (void(*)())entry, 0);
    f->index = (int)f_.size();
    f_.push_back(f);
    return f->index;
}
void Fibers::resume(int i) {
    FiberImpl* f = f_[i];
    cur = f;
    swapOwn(f->own);
    __sanitizer_start_switch_fiber(&f->back_fake, f->stack, f->size);
    swapcontext(&f->back, &f->ctx);
    __sanitizer_finish_switch_fiber(f->back_fake, nullptr, nullptr);
    swapOwn(f->own);
}
void Fibers::yield() {
    FiberImpl* f = cur;
    if (!f) return;
    cur = nullptr;
    __sanitizer_start_switch_fiber(&f->fake, f->back_bottom, f->back_size);
    swapcontext(&f->ctx, &f->back);
    __sanitizer_finish_switch_fiber(f->fake, &f->back_bottom, &f->back_size);
}
bool Fibers::done(int i) const { return f_[i]->finished; }
int Fibers::current() { return cur ? cur->index : -1; }
void Fibers::rethrow(int i) { if (f_[i]->err) std::rethrow_exception(f_[i]->err); }
