/*
	FIBRE.H
	-------
	A deterministic scheduler for code written with std::atomic and std::mutex.  This header is force-included (-include) into
	every file of a "sched" build: it renames std::atomic and std::mutex to look-alikes that hand control to the scheduler
	before each operation.  The "threads" are fibers of one OS thread and every scheduling decision is a choice drawn from the
	property-based testing engine, so an interleaving is part of the generated case: it replays exactly and it shrinks.
	(Sequentially consistent interleavings only; the same programs also run on real threads under ThreadSanitizer.)
*/
#pragma once
#ifdef __cplusplus
#include <bits/stdc++.h>
#include <ucontext.h>

namespace sched
	{
	struct engine
		{
		std::function<uint64_t(uint64_t)> draw;				/* a choice in [0, n) */
		struct fiber { ucontext_t context; std::function<void()> body; std::exception_ptr error; bool done = false; void *waiting = nullptr; std::unique_ptr<char[]> stack; };
		std::vector<std::unique_ptr<fiber>> fibers;
		ucontext_t home;
		size_t current = 0;
		bool running = false;
		uint64_t points = 0, switches = 0;
		unsigned den = 4;											/* switch with probability 1/den at each point */
		};
	inline engine &the() { static engine e; return e; }

	inline void pass_to(size_t next)
		{
		engine &e = the();
		size_t from = e.current;
		if (next == from) return;
		e.switches++;
		e.current = next;
		swapcontext(&e.fibers[from]->context, &e.fibers[next]->context);
		}
	inline void point(void)
		{
		engine &e = the();
		if (!e.running) return;
		if (++e.points > 200000) throw std::runtime_error("no progress after 200000 steps of a small program");
		if (e.draw(e.den) + 1 < e.den) return;
		std::vector<size_t> able;
		for (size_t i = 0; i < e.fibers.size(); i++)
			if (i != e.current && !e.fibers[i]->done && e.fibers[i]->waiting == nullptr) able.push_back(i);
		if (able.empty()) return;
		pass_to(able[e.draw(able.size())]);
		}
	inline void wait_for(void *what)								/* the current fiber cannot go on until wake(what) */
		{
		engine &e = the();
		e.fibers[e.current]->waiting = what;
		std::vector<size_t> able;
		for (size_t i = 0; i < e.fibers.size(); i++) if (!e.fibers[i]->done && e.fibers[i]->waiting == nullptr) able.push_back(i);
		if (able.empty()) { e.fibers[e.current]->waiting = nullptr; throw std::runtime_error("deadlock"); }
		pass_to(able[e.draw(able.size())]);
		}
	inline void wake(void *what) { for (auto &f : the().fibers) if (f->waiting == what) f->waiting = nullptr; }

	inline void enter(void)
		{
		engine &e = the();
		engine::fiber &me = *e.fibers[e.current];
		try { me.body(); } catch (...) { me.error = std::current_exception(); }
		me.done = true;
		std::vector<size_t> able;
		for (size_t i = 0; i < e.fibers.size(); i++) if (!e.fibers[i]->done && e.fibers[i]->waiting == nullptr) able.push_back(i);
		if (able.empty()) setcontext(&e.home);
		e.current = able[e.draw(able.size())];
		setcontext(&e.fibers[e.current]->context);
		}

	/* run the bodies to completion under a generated interleaving */
	inline void run(std::vector<std::function<void()>> bodies, std::function<uint64_t(uint64_t)> draw, unsigned den)
		{
		engine &e = the();
		e.draw = draw; e.den = den; e.points = e.switches = 0; e.fibers.clear();
		for (auto &b : bodies)
			{
			e.fibers.emplace_back(new engine::fiber);
			auto &f = *e.fibers.back();
			f.body = b; f.stack.reset(new char[256 * 1024]);
			getcontext(&f.context);
			f.context.uc_stack.ss_sp = f.stack.get(); f.context.uc_stack.ss_size = 256 * 1024; f.context.uc_link = nullptr;
			makecontext(&f.context, enter, 0);
			}
		e.current = draw(bodies.size()); e.running = true;
		swapcontext(&e.home, &e.fibers[e.current]->context);
		e.running = false;
		for (auto &f : e.fibers)
			if (f->error) std::rethrow_exception(f->error);
		for (auto &f : e.fibers)
			if (!f->done) throw std::runtime_error("a thread never finished");
		}
	}

namespace std
	{
	template <typename T> class sched_atomic
		{
		T v;
		using D = typename std::conditional<std::is_pointer<T>::value, ptrdiff_t, T>::type;
		public:
			typedef T value_type;
			static constexpr bool is_always_lock_free = true;
			sched_atomic() noexcept : v() {}
			constexpr sched_atomic(T x) noexcept : v(x) {}
			sched_atomic(const sched_atomic &) = delete;
			sched_atomic &operator=(const sched_atomic &) = delete;
			T operator=(T x) { store(x); return x; }
			operator T() const { return load(); }
			bool is_lock_free() const { return true; }
			T load(memory_order = memory_order_seq_cst) const { sched::point(); return v; }
			void store(T x, memory_order = memory_order_seq_cst) { sched::point(); v = x; }
			T exchange(T x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v = x; return o; }
			bool compare_exchange_strong(T &want, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst)
				{ sched::point(); if (v == want) { v = x; return true; } want = v; return false; }
			bool compare_exchange_weak(T &want, T x, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst)
				{ if (sched::the().running && sched::the().draw(8) == 7) { sched::point(); want = v; return false; } return compare_exchange_strong(want, x, a, b); }
			T fetch_add(D x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v += x; return o; }
			T fetch_sub(D x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v -= x; return o; }
			T fetch_or(D x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v |= x; return o; }
			T fetch_and(D x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v &= x; return o; }
			T fetch_xor(D x, memory_order = memory_order_seq_cst) { sched::point(); T o = v; v ^= x; return o; }
			T operator++() { return fetch_add(1) + 1; }
			T operator++(int) { return fetch_add(1); }
			T operator--() { return fetch_sub(1) - 1; }
			T operator--(int) { return fetch_sub(1); }
			T operator+=(D x) { return fetch_add(x) + x; }
			T operator-=(D x) { return fetch_sub(x) - x; }
			T operator|=(D x) { return fetch_or(x) | x; }
			T operator&=(D x) { return fetch_and(x) & x; }
		};
	class sched_mutex
		{
		bool held = false;
		public:
			void lock()
				{
				sched::point();
				while (held) { if (!sched::the().running) throw std::runtime_error("deadlock"); sched::wait_for(this); }
				held = true;
				}
			bool try_lock() { sched::point(); if (held) return false; held = true; return true; }
			void unlock() { held = false; sched::wake(this); sched::point(); }
		};
	}
#define atomic sched_atomic
#define mutex sched_mutex
#endif
