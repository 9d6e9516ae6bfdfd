// Runtime monitor, preloaded into the process under test.
//
// It sits between NNTile and StarPU (and CBLAS) by symbol interposition and needs no change in
// /repo.  Every codelet that is submitted (or attached to a handle as a reduction method) gets its
// CPU implementation replaced by a trampoline that
//   * hashes the buffers declared as read-only before and after the task body,
//   * fills the buffers declared as write-only or scratch with a poison pattern (all bits set:
//     NaN, -1, 0xff) before the task body,
//   * records an event (job id, logical start/end time, accessed handles and their modes),
//   * inserts pseudo-random delays,
//   * in the race-detector build announces exactly the ordering implied by the declared accesses.
// Registration and release of data handles is counted, and buffers handed to CBLAS are checked
// against the address sanitizer's shadow memory.
#include <starpu.h>
#include <cblas.h>
#include <dlfcn.h>
#include <unistd.h>
#include <time.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <atomic>
#include <algorithm>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

#undef starpu_task_insert
#undef starpu_task_build
#undef starpu_task_submit

extern "C" {
void *__asan_region_is_poisoned(void *beg, size_t size) __attribute__((weak));
void __tsan_acquire(void *addr) __attribute__((weak));
void __tsan_release(void *addr) __attribute__((weak));
void __tsan_read_range(void *addr, unsigned long size) __attribute__((weak));
void __tsan_write_range(void *addr, unsigned long size) __attribute__((weak));
}

namespace
{
enum Flags : unsigned
{
    F_HASH = 1, F_POISON_W = 2, F_POISON_SCRATCH = 4, F_DELAY = 8, F_LOG = 16, F_TSAN = 32
};

struct Acc { uint64_t uid; int mode; };
struct Event
{
    uint64_t job, start, end; int worker; int internal; const char *name;
    std::vector<Acc> acc;
};
struct HInfo { uint64_t uid; size_t size; int redux; char *tsan_w; char *tsan_r; int held = 0; };

std::mutex &mtx() { static std::mutex *m = new std::mutex; return *m; }
// One trampoline per wrapped CPU implementation: StarPU calls the initialisation codelet of a
// reduction directly, from inside another task, so a trampoline must know whom it stands for.
const int NSLOT = 768;
struct Slot { starpu_codelet *cl; starpu_cpu_func_t fn; };
Slot slots[NSLOT];
int nslots = 0;
std::set<starpu_codelet *> &redux_cl() { static auto *m = new std::set<starpu_codelet *>; return *m; }
std::unordered_map<void *, HInfo> &handles() { static auto *m = new std::unordered_map<void *, HInfo>; return *m; }
std::vector<Event> &evlog() { static auto *m = new std::vector<Event>; return *m; }
std::vector<std::string> &viol() { static auto *m = new std::vector<std::string>; return *m; }
std::map<std::string, uint64_t> &codelet_runs() { static auto *m = new std::map<std::string, uint64_t>; return *m; }

std::atomic<unsigned> flags{0};
std::atomic<uint64_t> seed{1}, clk{0}, next_uid{1};
std::atomic<unsigned> delay_us{0}, delay_p{0};
std::atomic<uint64_t> n_sub{0}, n_exec{0}, n_reg{0}, n_unreg{0}, n_hash{0}, n_poison{0}, n_blas{0},
    n_delay{0}, n_running{0}, max_running{0}, n_acq{0}, n_cpy{0}, n_init{0};
char sched_name[64] = "";

template<typename F> F real(const char *name)
{
    void *p = dlsym(RTLD_NEXT, name);
    // the BLAS library is loaded as a dependency of NNTile in a local scope
    for(const char *l : {"libcblas.so.3", "libblas.so.3", "libopenblas.so.0"})
        if(!p)
            if(void *h = dlopen(l, RTLD_NOW | RTLD_NOLOAD)) p = dlsym(h, name);
    if(!p) { fprintf(stderr, "vmon: no symbol %s\n", name); _exit(97); }
    return reinterpret_cast<F>(p);
}

void violation(const std::string &s)
{
    std::lock_guard<std::mutex> g(mtx());
    if(viol().size() < 200) viol().push_back(s);
}

__attribute__((no_sanitize("address", "thread", "undefined")))
uint64_t hash_mem(const void *p, size_t n)
{
    const unsigned char *c = (const unsigned char *)p;
    uint64_t h = 0x9e3779b97f4a7c15ull ^ n;
    size_t i = 0;
    for(; i + 8 <= n; i += 8)
    {
        uint64_t w; __builtin_memcpy(&w, c + i, 8);
        h = (h ^ w) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    }
    for(; i < n; ++i) { h = (h ^ c[i]) * 0x100000001b3ull; }
    return h;
}

uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}

void nap(unsigned us)
{
    struct timespec ts = {0, (long)us * 1000};
    nanosleep(&ts, nullptr);
}

const char *mode_name(int m)
{
    if(m & STARPU_REDUX) return "REDUX";
    if(m & STARPU_SCRATCH) return "SCRATCH";
    switch(m & STARPU_RW) { case STARPU_R: return "R"; case STARPU_W: return "W"; case STARPU_RW: return "RW"; }
    return "?";
}

char tsan_done;
// Copies private to a worker: the runtime hands them on between tasks by itself.
void private_copy(void *buf, bool acquire)
{
    auto *vi = (starpu_variable_interface *)buf;
    if(vi->id != STARPU_VARIABLE_INTERFACE_ID || !vi->ptr) return;
    if(acquire) __tsan_acquire((void *)vi->ptr); else __tsan_release((void *)vi->ptr);
}

void tramp_slot(int slot, void *buffers[], void *cl_arg)
{
    starpu_task *task = starpu_task_get_current();
    starpu_codelet *cl = slots[slot].cl;
    starpu_cpu_func_t fn = slots[slot].fn;
    unsigned fl = flags.load(std::memory_order_relaxed);
    if(!task || task->cl != cl)
    {
        // direct call: initialisation of a private copy for a reduction
        n_init++;
        auto *vi = (starpu_variable_interface *)buffers[0];
        if((fl & F_POISON_W) && vi->id == STARPU_VARIABLE_INTERFACE_ID)
            memset((void *)vi->ptr, 0xff, vi->elemsize);
        fn(buffers, cl_arg);
        return;
    }
    int nb = (int)STARPU_TASK_GET_NBUFFERS(task);
    uint64_t job = starpu_task_get_job_id(task);
    Event ev;
    std::vector<HInfo> hi(nb, HInfo{0, 0, 0, nullptr, nullptr});
    std::vector<int> mode(nb);
    {
        std::lock_guard<std::mutex> g(mtx());
        for(int i = 0; i < nb; ++i)
        {
            auto h = handles().find(STARPU_TASK_GET_HANDLE(task, i));
            if(h != handles().end()) hi[i] = h->second;
            mode[i] = STARPU_TASK_GET_MODE(task, i);
        }
        codelet_runs()[cl->name ? cl->name : "?"]++;
        ev.internal = redux_cl().count(cl) ? 1 : 0;
    }
    n_exec++;
    uint64_t r = n_running.fetch_add(1) + 1, mx = max_running.load();
    while(r > mx && !max_running.compare_exchange_weak(mx, r)) {}
    if(fl & F_LOG)
    {
        ev.job = job; ev.name = cl->name; ev.worker = starpu_worker_get_id();
        for(int i = 0; i < nb; ++i) ev.acc.push_back(Acc{hi[i].uid, mode[i]});
        ev.start = clk.fetch_add(1);
    }
    uint64_t rnd = mix(seed.load() * 1000003u + job);
    unsigned dus = delay_us.load();
    if((fl & F_DELAY) && dus && (rnd & 0xff) < delay_p.load())
    { n_delay++; nap((unsigned)((rnd >> 8) % dus)); }
    if((fl & F_TSAN) && __tsan_acquire)
    {
        if(cl_arg) __tsan_acquire(cl_arg);
        for(int i = 0; i < nb; ++i)
        {
            if(hi[i].tsan_w && !(mode[i] & STARPU_SCRATCH))
            {
                __tsan_acquire(hi[i].tsan_w);
                if(mode[i] & (STARPU_W | STARPU_REDUX)) __tsan_acquire(hi[i].tsan_r);
            }
            if((mode[i] & (STARPU_REDUX | STARPU_SCRATCH)) || ev.internal) private_copy(buffers[i], true);
        }
    }
    std::vector<uint64_t> h0(nb, 0);
    std::vector<size_t> sz(nb, 0);
    std::vector<void *> ptr(nb, nullptr);
    for(int i = 0; i < nb; ++i)
    {
        auto *vi = (starpu_variable_interface *)buffers[i];
        if(vi->id != STARPU_VARIABLE_INTERFACE_ID) continue;
        ptr[i] = (void *)vi->ptr; sz[i] = vi->elemsize;
        if(!ev.internal && hi[i].size && hi[i].size != sz[i])
            violation(std::string("buffer-size codelet=") + cl->name);
        int m = mode[i];
        if((m & STARPU_SCRATCH))
        {
            if(fl & F_POISON_SCRATCH) { memset(ptr[i], 0xff, sz[i]); n_poison++; }
        }
        else if(m & STARPU_REDUX) {}
        else if((m & STARPU_RW) == STARPU_R)
        {
            if(fl & F_HASH) { h0[i] = hash_mem(ptr[i], sz[i]); n_hash++; }
        }
        else if((m & STARPU_RW) == STARPU_W)
        {
            if(fl & F_POISON_W) { memset(ptr[i], 0xff, sz[i]); n_poison++; }
        }
    }
    fn(buffers, cl_arg);
    if(fl & F_HASH)
        for(int i = 0; i < nb; ++i)
            if(ptr[i] && !(mode[i] & (STARPU_SCRATCH | STARPU_REDUX)) && (mode[i] & STARPU_RW) == STARPU_R)
                if(hash_mem(ptr[i], sz[i]) != h0[i])
                {
                    char b[200];
                    snprintf(b, sizeof b, "undeclared-write codelet=%s buffer=%d of %d mode=R", cl->name, i, nb);
                    violation(b);
                }
    if((fl & F_DELAY) && dus && ((rnd >> 40) & 0xff) < delay_p.load() / 2)
    { n_delay++; nap((unsigned)((rnd >> 48) % dus)); }
    if((fl & F_TSAN) && __tsan_release)
    {
        for(int i = 0; i < nb; ++i)
        {
            if(hi[i].tsan_w && !(mode[i] & STARPU_SCRATCH))
            {
                if(mode[i] & STARPU_REDUX) __tsan_release(hi[i].tsan_r);
                else
                {
                    if(mode[i] & STARPU_W) __tsan_release(hi[i].tsan_w);
                    __tsan_release(hi[i].tsan_r);
                }
            }
            if((mode[i] & (STARPU_REDUX | STARPU_SCRATCH)) || ev.internal) private_copy(buffers[i], false);
        }
        __tsan_release(&tsan_done);
    }
    n_running--;
    if(fl & F_LOG)
    {
        ev.end = clk.fetch_add(1);
        std::lock_guard<std::mutex> g(mtx());
        if(evlog().size() < 4000000) evlog().push_back(std::move(ev));
    }
}

template<int K> void tramp(void *buffers[], void *cl_arg) { tramp_slot(K, buffers, cl_arg); }
template<int... K> void fill_table(starpu_cpu_func_t *t, std::integer_sequence<int, K...>)
{ starpu_cpu_func_t a[] = {tramp<K>...}; memcpy(t, a, sizeof a); }
starpu_cpu_func_t *table()
{
    static starpu_cpu_func_t *t = []() {
        auto *x = new starpu_cpu_func_t[NSLOT];
        fill_table(x, std::make_integer_sequence<int, NSLOT>());
        return x; }();
    return t;
}

void wrap(starpu_codelet *cl, bool redux)
{
    if(!cl) return;
    std::lock_guard<std::mutex> g(mtx());
    if(redux) redux_cl().insert(cl);
    auto *t = table();
    for(int i = 0; i < 2 && i < STARPU_MAXIMPLEMENTATIONS; ++i)
    {
        starpu_cpu_func_t f = cl->cpu_funcs[i];
        if(!f) continue;
        bool mine = false;
        for(int k = 0; k < nslots; ++k) if(f == t[k]) mine = true;
        if(mine) continue;
        int k = 0;
        for(; k < nslots; ++k) if(slots[k].cl == cl && slots[k].fn == f) break;
        if(k == NSLOT) { fprintf(stderr, "vmon: too many codelets\n"); _exit(98); }
        if(k == nslots) { slots[k] = Slot{cl, f}; nslots++; }
        cl->cpu_funcs[i] = t[k];
    }
}

void tsan_all(void *h, bool write, bool acquire)
{
    if(!(flags.load() & F_TSAN) || !__tsan_acquire) return;
    HInfo i;
    {
        std::lock_guard<std::mutex> g(mtx());
        auto it = handles().find(h);
        if(it == handles().end()) return;
        i = it->second;
    }
    if(acquire) { __tsan_acquire(i.tsan_w); if(write) __tsan_acquire(i.tsan_r); }
    else { if(write) __tsan_release(i.tsan_w); __tsan_release(i.tsan_r); }
}
// What the submitting thread wrote into a task's argument is visible to that task (and only to it):
// walk the variadic arguments as StarPU does.
void announce_args(const uint64_t *frame)
{
    // frame points at the saved %rbp; saved registers lie below, stack arguments above
    static const int off[5] = {-2, -3, -4, -5, -6}; // rsi rdx rcx r8 r9
    int k = 0;
    auto next = [&]() -> uint64_t { uint64_t v = k < 5 ? frame[off[k]] : frame[2 + (k - 5)]; ++k; return v; };
    for(int guard = 0; guard < 200; ++guard)
    {
        int t = (int)next();
        if(!t) break;
        if(t == STARPU_CL_ARGS || t == STARPU_CL_ARGS_NFREE) { void *p = (void *)next(); next(); if(p) __tsan_release(p); }
        else if(t == STARPU_VALUE || t == STARPU_DATA_ARRAY || t == STARPU_DATA_MODE_ARRAY) { next(); next(); }
        else if(t == STARPU_FLOPS) {}
        else next();
    }
}
} // namespace

extern "C"
{
void *vmon_real_insert, *vmon_real_build;

// called from the assembly below with the codelet in rdi
__attribute__((used, visibility("hidden"))) void *vmon_on_insert(starpu_codelet *cl, const uint64_t *frame)
{
    if((flags.load() & F_TSAN) && __tsan_release) announce_args(frame);
    if(!vmon_real_insert) vmon_real_insert = real<void *>("starpu_task_insert");
    n_sub++; wrap(cl, false);
    return vmon_real_insert;
}
__attribute__((used, visibility("hidden"))) void *vmon_on_build(starpu_codelet *cl)
{
    if(!vmon_real_build) vmon_real_build = real<void *>("starpu_task_build");
    wrap(cl, false);
    return vmon_real_build;
}

#define FORWARD(sym, helper) \
    asm(".text\n.globl " #sym "\n.type " #sym ",@function\n" #sym ":\n" \
        "endbr64\n" \
        "push %rbp\nmov %rsp,%rbp\nsub $192,%rsp\n" \
        "mov %rdi,-8(%rbp)\nmov %rsi,-16(%rbp)\nmov %rdx,-24(%rbp)\nmov %rcx,-32(%rbp)\n" \
        "mov %r8,-40(%rbp)\nmov %r9,-48(%rbp)\nmov %rax,-56(%rbp)\n" \
        "movups %xmm0,-80(%rbp)\nmovups %xmm1,-96(%rbp)\nmovups %xmm2,-112(%rbp)\n" \
        "movups %xmm3,-128(%rbp)\nmovups %xmm4,-144(%rbp)\nmovups %xmm5,-160(%rbp)\n" \
        "movups %xmm6,-176(%rbp)\nmovups %xmm7,-192(%rbp)\n" \
        "mov %rbp,%rsi\n" \
        "call " #helper "\n" \
        "mov %rax,%r11\n" \
        "mov -8(%rbp),%rdi\nmov -16(%rbp),%rsi\nmov -24(%rbp),%rdx\nmov -32(%rbp),%rcx\n" \
        "mov -40(%rbp),%r8\nmov -48(%rbp),%r9\nmov -56(%rbp),%rax\n" \
        "movups -80(%rbp),%xmm0\nmovups -96(%rbp),%xmm1\nmovups -112(%rbp),%xmm2\n" \
        "movups -128(%rbp),%xmm3\nmovups -144(%rbp),%xmm4\nmovups -160(%rbp),%xmm5\n" \
        "movups -176(%rbp),%xmm6\nmovups -192(%rbp),%xmm7\n" \
        "leave\njmp *%r11\n.size " #sym ",.-" #sym "\n");
FORWARD(starpu_task_insert, vmon_on_insert)
FORWARD(starpu_task_build, vmon_on_build)

int starpu_task_submit(struct starpu_task *task)
{
    static auto f = real<int (*)(struct starpu_task *)>("starpu_task_submit");
    n_sub++;
    if(task) wrap(task->cl, false);
    return f(task);
}

int starpu_data_cpy(starpu_data_handle_t dst, starpu_data_handle_t src, int async,
        void (*cb)(void *), void *arg)
{
    static auto f = real<int (*)(starpu_data_handle_t, starpu_data_handle_t, int, void (*)(void *), void *)>("starpu_data_cpy");
    n_cpy++;
    return f(dst, src, async, cb, arg);
}

int starpu_init(struct starpu_conf *conf)
{
    static auto f = real<int (*)(struct starpu_conf *)>("starpu_init");
    const char *e = getenv("VMON_SCHED");
    if(conf && sched_name[0]) conf->sched_policy_name = sched_name;
    else if(conf && e && *e) conf->sched_policy_name = e;
    return f(conf);
}

void starpu_variable_data_register(starpu_data_handle_t *h, int node, uintptr_t ptr, size_t size)
{
    static auto f = real<void (*)(starpu_data_handle_t *, int, uintptr_t, size_t)>("starpu_variable_data_register");
    f(h, node, ptr, size);
    n_reg++;
    std::lock_guard<std::mutex> g(mtx());
    HInfo i{next_uid++, size, 0, nullptr, nullptr};
    if(__tsan_acquire)
    {
        i.tsan_w = (char *)malloc(16); i.tsan_r = i.tsan_w + 8;
        // what the owner did with its memory until now
        if(flags.load() & F_TSAN) { __tsan_release(i.tsan_w); }
    }
    handles()[(void *)*h] = i;
}
int starpu_task_wait_for_all(void)
{
    static auto f = real<int (*)(void)>("starpu_task_wait_for_all");
    int r = f();
    if((flags.load() & F_TSAN) && __tsan_acquire) __tsan_acquire(&tsan_done);
    return r;
}

static void on_unreg(starpu_data_handle_t h)
{
    n_unreg++;
    std::lock_guard<std::mutex> g(mtx());
    auto it = handles().find((void *)h);
    if(it == handles().end())
    {
        if(viol().size() < 200) viol().push_back("double-release of a data handle");
    }
}
static void after_unreg(starpu_data_handle_t h, uint64_t uid)
{
    std::lock_guard<std::mutex> g(mtx());
    auto it = handles().find((void *)h);
    // the address may already have been reused by a new registration
    if(it != handles().end() && it->second.uid == uid) handles().erase(it);
}
static uint64_t uid_of(starpu_data_handle_t h)
{
    std::lock_guard<std::mutex> g(mtx());
    auto it = handles().find((void *)h);
    return it == handles().end() ? 0 : it->second.uid;
}
#define UNREG(sym) \
void sym(starpu_data_handle_t h) \
{ \
    static auto f = real<void (*)(starpu_data_handle_t)>(#sym); \
    on_unreg(h); uint64_t u = uid_of(h); f(h); tsan_all(h, true, true); after_unreg(h, u); \
}
UNREG(starpu_data_unregister)
UNREG(starpu_data_unregister_no_coherency)
void starpu_data_unregister_submit(starpu_data_handle_t h)
{
    // lazily released: tasks in flight still use it, so keep what is known about it
    static auto f = real<void (*)(starpu_data_handle_t)>("starpu_data_unregister_submit");
    on_unreg(h); f(h);
}

void starpu_data_set_reduction_methods(starpu_data_handle_t h, struct starpu_codelet *r, struct starpu_codelet *i)
{
    static auto f = real<void (*)(starpu_data_handle_t, struct starpu_codelet *, struct starpu_codelet *)>("starpu_data_set_reduction_methods");
    wrap(r, true); wrap(i, true);
    {
        std::lock_guard<std::mutex> g(mtx());
        auto it = handles().find((void *)h);
        if(it != handles().end()) it->second.redux = 1;
    }
    f(h, r, i);
}

int starpu_data_acquire(starpu_data_handle_t h, enum starpu_data_access_mode m)
{
    static auto f = real<int (*)(starpu_data_handle_t, enum starpu_data_access_mode)>("starpu_data_acquire");
    n_acq++;
    int r = f(h, m);
    {
        std::lock_guard<std::mutex> g(mtx());
        auto it = handles().find((void *)h);
        if(it != handles().end()) it->second.held = m & STARPU_W ? 2 : 1;
    }
    tsan_all(h, m & STARPU_W, true);
    if((flags.load() & F_POISON_W) && (m & STARPU_RW) == STARPU_W && !(m & STARPU_REDUX))
    {
        void *p = starpu_data_get_local_ptr(h);
        size_t s = starpu_data_get_size(h);
        if(p) memset(p, 0xff, s);
    }
    return r;
}
void starpu_data_release(starpu_data_handle_t h)
{
    static auto f = real<void (*)(starpu_data_handle_t)>("starpu_data_release");
    bool w = true;
    {
        std::lock_guard<std::mutex> g(mtx());
        auto it = handles().find((void *)h);
        if(it != handles().end()) w = it->second.held != 1;
    }
    tsan_all(h, w, false);
    f(h);
}

// ---- CBLAS extents -----------------------------------------------------------------------------
static void ext(const char *fn, const char *arg, const void *p, size_t n, size_t sz)
{
    n_blas++;
    if(!n || !__asan_region_is_poisoned) return;
    void *bad = __asan_region_is_poisoned((void *)p, n * sz);
    if(bad)
    {
        char b[256];
        snprintf(b, sizeof b, "blas-extent %s argument %s: %zu bytes at offset %zd not accessible",
                fn, arg, n * sz, (char *)bad - (char *)p);
        fprintf(stderr, "VMON %s\n", b);
        violation(b);
    }
}
static size_t span(CBLAS_ORDER o, bool tr, int rows, int cols, int ld)
{
    // op(X) is rows x cols
    size_t r = tr ? cols : rows, c = tr ? rows : cols;
    if(o == CblasRowMajor) std::swap(r, c);
    return r && c ? (c - 1) * (size_t)ld + r : 0;
}
// the race detector does not see inside the BLAS library
static void touch(CBLAS_ORDER o, bool tr, int rows, int cols, int ld, const void *p, size_t sz, bool write)
{
    if(!(flags.load() & F_TSAN) || !__tsan_read_range) return;
    size_t r = tr ? cols : rows, c = tr ? rows : cols;
    if(o == CblasRowMajor) std::swap(r, c);
    for(size_t j = 0; r && j < c; ++j)
        (write ? __tsan_write_range : __tsan_read_range)((char *)p + j * ld * sz, r * sz);
}
static void vtouch(int n, int inc, const void *p, size_t sz, bool write)
{
    if(!(flags.load() & F_TSAN) || !__tsan_read_range) return;
    for(int j = 0; j < n; ++j)
        (write ? __tsan_write_range : __tsan_read_range)((char *)p + (size_t)j * (inc < 0 ? -inc : inc) * sz, sz);
}
#define GEMM(name, T) \
void name(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, T alpha, \
        const T *A, int lda, const T *B, int ldb, T beta, T *C, int ldc) \
{ \
    static auto f = real<void (*)(CBLAS_ORDER, CBLAS_TRANSPOSE, CBLAS_TRANSPOSE, int, int, int, T, \
            const T *, int, const T *, int, T, T *, int)>(#name); \
    ext(#name, "A", A, span(o, ta != CblasNoTrans, m, k, lda), sizeof(T)); \
    ext(#name, "B", B, span(o, tb != CblasNoTrans, k, n, ldb), sizeof(T)); \
    ext(#name, "C", C, span(o, false, m, n, ldc), sizeof(T)); \
    touch(o, ta != CblasNoTrans, m, k, lda, A, sizeof(T), false); \
    touch(o, tb != CblasNoTrans, k, n, ldb, B, sizeof(T), false); \
    touch(o, false, m, n, ldc, C, sizeof(T), true); \
    f(o, ta, tb, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc); \
}
GEMM(cblas_dgemm, double)
GEMM(cblas_sgemm, float)
static size_t vspan(int n, int inc) { return n > 0 ? (size_t)(n - 1) * (inc < 0 ? -inc : inc) + 1 : 0; }
#define VEC(axpyn, scaln, nrmn, T) \
void axpyn(int n, T a, const T *x, int ix, T *y, int iy) \
{ static auto f = real<void (*)(int, T, const T *, int, T *, int)>(#axpyn); \
  ext(#axpyn, "X", x, vspan(n, ix), sizeof(T)); ext(#axpyn, "Y", y, vspan(n, iy), sizeof(T)); \
  vtouch(n, ix, x, sizeof(T), false); vtouch(n, iy, y, sizeof(T), true); f(n, a, x, ix, y, iy); } \
void scaln(int n, T a, T *x, int ix) \
{ static auto f = real<void (*)(int, T, T *, int)>(#scaln); ext(#scaln, "X", x, vspan(n, ix), sizeof(T)); vtouch(n, ix, x, sizeof(T), true); f(n, a, x, ix); } \
T nrmn(int n, const T *x, int ix) \
{ static auto f = real<T (*)(int, const T *, int)>(#nrmn); ext(#nrmn, "X", x, vspan(n, ix), sizeof(T)); vtouch(n, ix, x, sizeof(T), false); return f(n, x, ix); }
VEC(cblas_daxpy, cblas_dscal, cblas_dnrm2, double)
VEC(cblas_saxpy, cblas_sscal, cblas_snrm2, float)

// ---- control ------------------------------------------------------------------------------------
void vmon_set(unsigned fl, uint64_t sd, unsigned dus, unsigned p)
{ flags = fl; seed = sd; delay_us = dus; delay_p = p; }
void vmon_sched(const char *s) { snprintf(sched_name, sizeof sched_name, "%s", s ? s : ""); }
// 0 submitted 1 executed 2 registered 3 released 4 hashed 5 poisoned 6 blas extents 7 delays
// 8 max concurrently running 9 acquires 10 logged events
void vmon_stats(uint64_t *o)
{
    o[0] = n_sub; o[1] = n_exec; o[2] = n_reg; o[3] = n_unreg; o[4] = n_hash; o[5] = n_poison;
    o[6] = n_blas; o[7] = n_delay; o[8] = max_running; o[9] = n_acq;
    std::lock_guard<std::mutex> g(mtx());
    o[10] = evlog().size(); o[11] = n_cpy; o[12] = n_init;
}
void vmon_reset_log() { std::lock_guard<std::mutex> g(mtx()); evlog().clear(); max_running = 0; }
int vmon_take_violations(char *buf, int len)
{
    std::lock_guard<std::mutex> g(mtx());
    std::string s;
    int n = (int)viol().size();
    for(auto &v : viol()) { s += v; s += '\n'; }
    viol().clear();
    snprintf(buf, len, "%s", s.c_str());
    return n;
}
int vmon_codelets(char *buf, int len)
{
    std::lock_guard<std::mutex> g(mtx());
    std::string s;
    for(auto &v : codelet_runs()) { s += v.first + " " + std::to_string(v.second) + "\n"; }
    snprintf(buf, len, "%s", s.c_str());
    return (int)codelet_runs().size();
}
// Offline check of the recorded history: every pair of conflicting accesses to one handle must have
// executed in submission order (job ids grow in submission order, one thread submits).
// out[0] events, out[1] ordered conflicting pairs (adjacent ones), out[2] overlapping event pairs,
// out[3] digest of the execution order.
int vmon_check_order(uint64_t *out, char *buf, int len)
{
    std::lock_guard<std::mutex> g(mtx());
    auto &ev = evlog();
    std::vector<size_t> ord(ev.size());
    for(size_t i = 0; i < ord.size(); ++i) ord[i] = i;
    std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return ev[a].job < ev[b].job; });
    struct St { uint64_t wend = 0, wjob = 0, rend = 0, rjob = 0; bool w = false, r = false, redux = false; uint64_t xend = 0, xjob = 0; };
    std::unordered_map<uint64_t, St> st;
    std::string s; int bad = 0; uint64_t pairs = 0;
    for(size_t q : ord)
    {
        Event &e = ev[q];
        for(auto &a : e.acc)
        {
            if(!a.uid || (a.mode & STARPU_SCRATCH)) continue;
            if(e.internal && e.acc.size()) continue;
            St &t = st[a.uid];
            bool redux = a.mode & STARPU_REDUX, wr = redux || (a.mode & STARPU_W);
            auto conflict = [&](const char *what, uint64_t end, uint64_t job)
            {
                pairs++;
                if(end >= e.start || job >= e.job)
                {
                    if(job == e.job) return; // same task, several arguments
                    if(bad++ < 20)
                    {
                        char b[256];
                        snprintf(b, sizeof b, "order: job %lu (%s, %s) started before earlier %s job %lu on the same data ended\n",
                                (unsigned long)e.job, e.name, mode_name(a.mode), what, (unsigned long)job);
                        s += b;
                    }
                }
            };
            if(t.w) conflict("writing", t.wend, t.wjob);
            if(wr && t.r) conflict("reading", t.rend, t.rjob);
            if(!redux && t.redux) conflict("reducing", t.xend, t.xjob);
            if(redux) { t.redux = true; if(e.end > t.xend) { t.xend = e.end; t.xjob = e.job; } }
            else if(wr) { t.w = true; t.wend = e.end; t.wjob = e.job; t.r = false; t.rend = 0; t.redux = false; t.xend = 0; }
            else { t.r = true; if(e.end > t.rend) { t.rend = e.end; t.rjob = e.job; } }
        }
    }
    // interleaving: execution order by start time, in terms of submission ranks
    std::vector<std::pair<uint64_t, size_t>> byt;
    std::vector<size_t> rank(ev.size());
    for(size_t i = 0; i < ord.size(); ++i) rank[ord[i]] = i;
    for(size_t i = 0; i < ev.size(); ++i) byt.push_back({ev[i].start, i});
    std::sort(byt.begin(), byt.end());
    uint64_t dig = 1469598103934665603ull, overlap = 0, maxend = 0;
    for(auto &p : byt)
    {
        dig = (dig ^ rank[p.second]) * 1099511628211ull;
        if(maxend > p.first) overlap++;
        maxend = std::max(maxend, ev[p.second].end);
    }
    out[0] = ev.size(); out[1] = pairs; out[2] = overlap; out[3] = dig;
    snprintf(buf, len, "%s", s.c_str());
    return bad;
}
} // extern "C"
