// Included before everything else (-include): std::atomic becomes a type whose every
// access is a scheduling point of the harness in thr.cpp.
#pragma once
#include <bits/stdc++.h>
namespace vf
{
	void sched_point();
	template<typename T> struct sched_atomic
	{
		T v;
		sched_atomic() noexcept :v() {}
		sched_atomic(T x) noexcept :v(x) {}
		sched_atomic(const sched_atomic&) = delete;
		sched_atomic& operator=(const sched_atomic&) = delete;
		static constexpr bool is_always_lock_free = true;
		bool is_lock_free() const { return true; }
		T load(std::memory_order = std::memory_order_seq_cst) const { sched_point(); return v; }
		void store(T x, std::memory_order = std::memory_order_seq_cst) { sched_point(); v = x; }
		T exchange(T x, std::memory_order = std::memory_order_seq_cst) { sched_point(); T o = v; v = x; return o; }
		T fetch_add(T x, std::memory_order = std::memory_order_seq_cst) { sched_point(); T o = v; v = o + x; return o; }
		T fetch_sub(T x, std::memory_order = std::memory_order_seq_cst) { sched_point(); T o = v; v = o - x; return o; }
		bool cas(T& e, T x) { sched_point(); if (v == e) { v = x; return true; } e = v; return false; }
		bool compare_exchange_strong(T& e, T x, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) { return cas(e, x); }
		bool compare_exchange_weak(T& e, T x, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) { return cas(e, x); }
		operator T() const { return load(); }
		T operator=(T x) { store(x); return x; }
		T operator++() { return fetch_add(1) + 1; }
		T operator++(int) { return fetch_add(1); }
		T operator--() { return fetch_sub(1) - 1; }
		T operator--(int) { return fetch_sub(1); }
		T operator+=(T x) { return fetch_add(x) + x; }
		T operator-=(T x) { return fetch_sub(x) - x; }
	};
}
namespace std
{
	template<typename T> using vf_sched_atomic = vf::sched_atomic<T>;
	template<typename T> T atomic_fetch_add(vf::sched_atomic<T>* a, T x) { return a->fetch_add(x); }
	template<typename T> T atomic_fetch_sub(vf::sched_atomic<T>* a, T x) { return a->fetch_sub(x); }
	template<typename T> T atomic_load(const vf::sched_atomic<T>* a) { return a->load(); }
	template<typename T> void atomic_store(vf::sched_atomic<T>* a, T x) { a->store(x); }
}
#define atomic vf_sched_atomic
