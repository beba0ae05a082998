// Job queue, worker, counters and dispatcher, with the threading primitives replaced by recording stand-ins:
// a mutex knows whether it is held, a condition variable counts its notifications and, while a thread waits,
// lets the other threads of the law act.
#include <memory>
#include <vector>
#include <new>
#include <cstring>
#include <pthread.h>
#include "law.hpp"
#include "rbtree.hpp"
#include <map>
#include <mutex>
#include <thread>
#include <atomic>
#include <condition_variable>
// Answered by the analysis (lib/models.py), like the pthread calls: which bytes a mutex guards, and counters.
extern "C" { void law_guard(void *, size_t) noexcept; void law_unguard() noexcept; unsigned law_ghost(int) noexcept; unsigned law_tick(int) noexcept; unsigned law_peek(int) noexcept; }
enum { held, bad, outside, notified, locks, unlocks, faults, loose }; enum { waits, jobs, rescued, threads };
static void Other(unsigned n);
struct Run { virtual ~Run(); virtual void go() = 0; };     // laid out like std::thread::_State
static Run *started[4]; static unsigned per[4], cur;
void std::thread::_M_start_thread(_State_ptr s, void (*)()) { auto n = law_tick(threads); started[n & 3] = reinterpret_cast<Run *>(s.release()); _M_id = id(n + 1); }
void std::thread::join() { auto n = reinterpret_cast<unsigned long &>(_M_id) - 1; auto *s = started[n & 3]; cur = n & 3; s->go(); delete s; _M_id = id(); }
std::thread::_State::~_State() = default;
void std::condition_variable::wait(std::unique_lock<std::mutex> &l) { auto n = law_tick(waits); l.unlock(); if (n >= 16) __builtin_trap(); Other(n); l.lock(); }
#define private public
#include "edyn/parallel/job.hpp"
#include "edyn/parallel/job_queue.hpp"
#include "edyn/parallel/worker.hpp"
#include "edyn/parallel/atomic_counter_sync.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
#undef private
#include "/repo/src/edyn/parallel/job_queue.cpp"
#include "/repo/src/edyn/parallel/job_dispatcher.cpp"
using namespace edyn;
using namespace law;
#define QUIET out.eqi(law_ghost(bad), 0); out.eqi(law_ghost(locks), law_ghost(unlocks)); out.eqi(law_ghost(outside), 0);

static scalar ran[8];
static void Note(job::data_type &d) { scalar x; std::memcpy(&x, d.data(), 8); ran[law_tick(jobs) & 7] = x; ++per[cur]; }
static job_queue *shared; static scalar given; static unsigned late;
// While a thread waits, another one may do nothing (a spurious wake-up) and then hand over a job.
static void Other(unsigned n);
static inline job Make(scalar x) { job j; std::memcpy(j.data.data(), &x, 8); j.func = &Note; return j; }
static inline scalar Id(const job &j) { scalar x; std::memcpy(&x, j.data.data(), 8); return x; }

static worker *busy; static unsigned halt = 99; static atomic_counter_sync *counter; static unsigned first;
static void Other(unsigned m) { auto n = m - first; if (n == late && shared) shared->push(Make(given)); if (n == late && counter) counter->decrement(); if (n == halt && busy) busy->stop(); if (n >= 4) { law_tick(rescued); if (shared) shared->push(Make(given)); if (counter) counter->decrement(); if (busy) busy->stop(); } }
#define AWAKE out.eqi(law_peek(rescued), 0);
LAW(job_size, "job", "a job is 64 bytes and runs its function on its own data; a no-op does nothing") { out.eqi(sizeof(job), 64); out.eqi(sizeof(job::data_type), job::data_size); auto j = Make(I.s); j(); out.eqi(law_peek(jobs), 1); out.eq(ran[0], I.s); auto k = job::noop(); k(); out.eqi(law_peek(jobs), 1); }
LAW(q_fifo, "job_queue::push pop try_pop size", "jobs come out once, in the order they went in") {
    job_queue q; out.eqi(q.size(), 0); job j; out.eqb(q.try_pop(j), false); for (int i = 0; i < 5; ++i) { q.push(Make(I.s + i)); out.eqi(q.size(), i + 1); } out.eqb(q.try_pop(j), true); out.eq(Id(j), I.s); out.eq(Id(q.pop()), I.s + 1); out.eqi(q.size(), 3); q.push(Make(I.t)); for (int i = 2; i < 5; ++i) { out.eqb(q.try_pop(j), true); out.eq(Id(j), I.s + i); } out.eq(Id(q.pop()), I.t); out.eqi(q.size(), 0); auto k = Make(I.u); out.eqb(q.try_pop(k), false); out.eq(Id(k), I.u); QUIET out.eqi(law_peek(waits), 0); }
LAW(q_notify, "job_queue::push", "every push wakes a waiting thread, whatever is in the queue already") { job_queue q; for (int i = 0; i < 4; ++i) { auto n = law_ghost(notified); q.push(Make(I.s)); out.eqb(law_ghost(notified) > n, true); } QUIET }
LAW(q_wait, "job_queue::pop", "waits until there is a job, through wake-ups without one, and takes it") { for (late = 0; late < 3; ++late) { job_queue q; shared = &q; given = I.s + late; first = law_peek(waits); auto j = q.pop(); out.eq(Id(j), I.s + late); out.eqi(q.size(), 0); } AWAKE QUIET }
LAW(q_lock, "job_queue::push pop try_pop size", "the queue is only touched while its mutex is held") { job_queue q; law_guard(&q, sizeof q); q.push(Make(I.s)); q.push(Make(I.t)); job j; out.eqi(q.size(), 2); out.eqb(q.try_pop(j), true); out.eq(Id(j), I.s); j = q.pop(); out.eq(Id(j), I.t); out.eqb(q.try_pop(j), false); out.eqi(q.size(), 0); out.eqi(law_ghost(outside), 0); law_unguard(); QUIET }

LAW(w_once, "worker::push_job once size", "runs every queued job once, in order; the size counts what is queued") { worker w; out.eqi(w.size(), 0); w.once(); for (int i = 0; i < 4; ++i) { w.push_job(Make(I.s + i)); out.eqi(w.size(), i + 1); } out.eqi(w.get_queue().size(), 4); w.once(); out.eqi(law_peek(jobs), 4); for (int i = 0; i < 4; ++i) out.eq(ran[i], I.s + i); out.eqi(w.size(), 0); out.eqi(w.get_queue().size(), 0); w.once(); out.eqi(law_peek(jobs), 4); QUIET }
LAW(w_run, "worker::run stop", "runs what is queued, waits for more, and returns once stopped") { worker w; busy = &w; late = 99; halt = 1; w.push_job(Make(I.s)); w.push_job(Make(I.t)); w.run(); out.eqi(law_peek(jobs), 2); out.eq(ran[0], I.s); out.eq(ran[1], I.t); out.eqi(w.size(), 0); AWAKE QUIET }
LAW(w_run_late, "worker::run stop", "a job that arrives while it waits is run") { worker w; busy = &w; shared = nullptr; late = 99; halt = 0; w.push_job(Make(I.s)); w.run(); out.eqi(law_peek(jobs), 1); out.eq(ran[0], I.s); AWAKE QUIET }
LAW(w_stop_first, "worker::stop run", "a stop before the start is not lost") { worker w; busy = &w; late = halt = 99; w.stop(); w.run(); AWAKE QUIET }
LAW(w_taken, "worker::run", "a job taken from the queue is run even when a stop came in between") { worker w; busy = &w; late = halt = 99; w.push_job(Make(I.s)); w.stop(); w.run(); out.eqi(law_peek(jobs), 1); out.eq(ran[0], I.s); AWAKE QUIET }
LAW(c_wait, "atomic_counter_sync::wait decrement", "wait returns when the count reaches zero and not before, through wake-ups without reason") {
    { atomic_counter_sync c(1); c.decrement(); out.eqi(law_ghost(notified), 1); c.wait(); out.eqi(law_peek(waits), 0); } { atomic_counter_sync c(2); counter = &c; late = 2; first = law_peek(waits); c.decrement(); c.wait(); out.eqi(law_peek(waits) - first, 3); counter = nullptr; }
    { atomic_counter_sync c(1); counter = &c; late = 1; first = law_peek(waits); c.wait(); out.eqi(law_peek(waits) - first, 2); counter = nullptr; } AWAKE QUIET }
LAW(c_notify, "atomic_counter_sync::decrement", "the last decrement wakes the waiting thread") { atomic_counter_sync c(3); law_guard(&c, sizeof c); c.decrement(); c.decrement(); auto n = law_ghost(notified); c.decrement(); out.eqb(law_ghost(notified) > n, true); c.wait(); out.eqi(law_peek(waits), 0); law_unguard(); out.eqi(law_ghost(outside), 0); QUIET }
LAW(c_last, "atomic_counter_sync::decrement", "the last decrement wakes the waiting thread before it releases the mutex: the waiting thread may destroy the counter right after") { atomic_counter_sync c(2); law_guard(&c, sizeof c); c.decrement(); c.decrement(); law_unguard(); out.eqi(law_ghost(loose), 0); QUIET }
LAW(d_one, "job_dispatcher::start async stop running num_workers", "with one worker every job goes to it and is run; stopping joins the thread") { { job_dispatcher d; out.eqb(d.running(), false); out.eqi(d.num_workers(), 0); d.start(1); out.eqb(d.running(), true); out.eqi(d.num_workers(), 1); d.async(Make(I.s)); d.stop(); out.eqb(d.running(), false); out.eqi(d.num_workers(), 0); out.eqi(law_peek(jobs), 1); out.eq(ran[0], I.s); } out.eqi(law_peek(threads), 1); AWAKE QUIET }
LAW(d_many, "job_dispatcher::async", "every job goes to one worker, to an idle one while there is one, and is run once") { { job_dispatcher d; d.start(3); out.eqi(d.num_workers(), 3); for (int i = 0; i < 3; ++i) d.async(Make(I.s + i)); d.stop(); out.eqi(law_peek(jobs), 3); out.eq(ran[0] + ran[1] + ran[2], 3 * I.s + 3); for (int i = 0; i < 3; ++i) out.eqi(per[i], 1); } out.eqi(law_peek(threads), 3); AWAKE QUIET }
// Lets every worker run what is queued (nothing is observed where the workers are kept differently).
template<class D> static auto Drain(D &d, int) -> decltype(d.m_workers.begin()->second->once(), true) { unsigned n = 0; for (auto &p : d.m_workers) { cur = n++ & 3; p.second->once(); } return true; }
template<class D> static bool Drain(D &, long) { return false; }
LAW(d_busy, "job_dispatcher::async", "with every worker busy, a job goes to a least busy one and none is lost") { { job_dispatcher d; d.start(2); for (int i = 0; i < 4; ++i) d.async(Make(I.s + i)); if (Drain(d, 0)) { out.eqi(law_peek(jobs), 4); out.eq(ran[0] + ran[1] + ran[2] + ran[3], 4 * I.s + 6); out.eqi(per[0], 2); out.eqi(per[1], 2); } d.stop(); } out.eqi(law_peek(threads), 2); AWAKE QUIET }
LAW(d_dtor, "job_dispatcher::~job_dispatcher", "a dispatcher that goes away stops its workers and joins their threads") { { job_dispatcher d; d.start(2); d.async(Make(I.s)); } out.eqi(law_peek(jobs), 1); out.eq(ran[0], I.s); out.eqi(law_peek(threads), 2); AWAKE QUIET }
LAW(d_restart, "job_dispatcher::start stop", "it can be started again after it was stopped") { { job_dispatcher d; d.start(1); d.stop(); d.start(2); out.eqi(d.num_workers(), 2); d.async(Make(I.s)); d.async(Make(I.t)); d.stop(); out.eqb(d.running(), false); d.stop(); } out.eqi(law_peek(jobs), 2); out.eq(ran[0] + ran[1], I.s + I.t); out.eqi(law_peek(threads), 3); AWAKE QUIET }
