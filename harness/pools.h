// the library's schedulers under one roof, for the scheduling harnesses
#pragma once
#include "common.h"
#include <boost/asynchronous/scheduler/single_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
typedef ba::guarded_deque<> gd; typedef ba::default_find_position<ba::sequential_push_policy> seqpos; typedef ba::no_cpu_load_saving nosave;
// a small non-blocking queue: with it an interleaving has few scheduling points
inline pool_t mk_single() { return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<gd, nosave>>(); }
inline pool_t mk_tp(int n) { return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<gd, nosave>>(n); }
inline pool_t mk_mq(int n) { return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<gd, seqpos, nosave>>(n); }
inline pool_t mk_mt(int n, int clients) { return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<gd, nosave>>(n, clients); }
inline pool_t mk_io(int lo, int hi) { return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<gd, nosave>>(lo, hi); }
inline pool_t mk_st(int n) { return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<gd, nosave, true>>(n); }
inline pool_t mk_smq(int n) { return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<gd, seqpos, nosave, true>>(n); }
// parts of a composite: their threads start when the composite tells them what to steal from
inline pool_t mk_st_sub(int n) { return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<gd, nosave>>(n); }
inline pool_t mk_smq_sub(int n) { return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<gd, seqpos, nosave>>(n); }
inline pool_t mk_comp(pool_t a, pool_t b) { return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(a, b); }
