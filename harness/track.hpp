// Instrumented key / mapped / functor / allocator types used by the conformance harness.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace trk
{
	struct Injected {};
	struct Block { int id; std::size_t n, sz; };
	struct World
	{
		std::unordered_set<const void *> keys, vals;
		std::map<const void *, Block> blocks;
		long errs = 0;
		std::string first_err;
		long countdown = 0; // 0: disarmed
		bool fired = false;
		long copies = 0;    // element copies performed (keys + values)
		long allocs = 0;
		std::uint64_t hash[2][1000] = {};
	};
	inline World &w() { static World *x = new World; return *x; }
	inline void err(const char *m) { if (!w().errs++) w().first_err = m; }
	inline void point() // a place where user code may throw
	{
		if (w().countdown > 0 && --w().countdown == 0) { w().fired = true; throw Injected{}; }
	}
#ifdef NXMOVE // moves that are not declared noexcept (but never throw)
#define MOVE_NX
#else
#define MOVE_NX noexcept
#endif
	struct View { int v; }; // heterogeneous key

#ifdef TRIV
	// Element types without a destructor: object lifetimes are not tracked, memory and values are.
	template<int Kind>
	struct Obj { void born() {} void use() const {} };
#else
	template<int Kind>
	struct Obj
	{
		static std::unordered_set<const void *> &reg() { return Kind == 0 ? w().keys : w().vals; }
		void born() { if (!reg().insert(this).second) err("constructed over a live object"); }
		void use() const { if (!reg().count(this)) err("use of a dead object"); }
	};
#endif

	struct Key : Obj<0>
	{
		int v;
		bool moved = false;
		explicit Key(int x) : v(x) { point(); born(); }
		explicit Key(View x) : v(x.v) { point(); born(); }
		Key(const Key &o) : v(o.v), moved(o.moved) { o.use(); if (o.moved) err("copy of a moved-from key"); ++w().copies; point(); born(); }
		Key(Key &&o) MOVE_NX : v(o.v), moved(o.moved) { o.use(); if (o.moved) err("move of a moved-from key"); o.moved = true; o.v = -77; born(); }
		Key &operator=(const Key &o) { use(); o.use(); ++w().copies; point(); v = o.v; moved = o.moved; return *this; }
		Key &operator=(Key &&o) MOVE_NX { use(); o.use(); v = o.v; moved = o.moved; if (this != &o) { o.moved = true; o.v = -77; } return *this; }
#ifndef TRIV
		~Key() { if (!reg().erase(this)) err("destruction of a dead key"); }
#endif
		friend bool operator==(const Key &a, const Key &b) { a.use(); b.use(); return a.v == b.v; }
		friend bool operator!=(const Key &a, const Key &b) { return !(a == b); }
	};
	struct Val : Obj<1>
	{
		int v;
		bool moved = false;
		Val() : v(0) { point(); born(); }
		explicit Val(int x) : v(x) { point(); born(); }
		Val(int a, int b) : v(a + b) { point(); born(); }
		Val(const Val &o) : v(o.v), moved(o.moved) { o.use(); if (o.moved) err("copy of a moved-from value"); ++w().copies; point(); born(); }
		Val(Val &&o) MOVE_NX : v(o.v), moved(o.moved) { o.use(); if (o.moved) err("move of a moved-from value"); o.moved = true; o.v = -78; born(); }
		Val &operator=(const Val &o) { use(); o.use(); ++w().copies; point(); v = o.v; moved = o.moved; return *this; }
		Val &operator=(Val &&o) MOVE_NX { use(); o.use(); v = o.v; moved = o.moved; if (this != &o) { o.moved = true; o.v = -78; } return *this; }
#ifndef TRIV
		~Val() { if (!reg().erase(this)) err("destruction of a dead value"); }
#endif
		friend bool operator==(const Val &a, const Val &b) { a.use(); b.use(); return a.v == b.v; }
		friend bool operator!=(const Val &a, const Val &b) { return !(a == b); }
	};

	inline std::size_t hash_of(int m, int k) { point(); return static_cast<std::size_t>(w().hash[m & 1][((k % 1000) + 1000) % 1000]); }

	struct HashS // stateful, transparent
	{
		using is_transparent = std::true_type;
		int m = 0;
		HashS() = default;
		explicit HashS(int x) : m(x) {}
		std::size_t operator()(const Key &k) const { k.use(); if (k.moved) err("hash of a moved-from key"); return hash_of(m, k.v); }
		std::size_t operator()(const View &k) const { return hash_of(m, k.v); }
	};
	struct EqS // stateful, transparent; mode 1: equal modulo 1000
	{
		using is_transparent = std::true_type;
		int m = 0;
		EqS() = default;
		explicit EqS(int x) : m(x) {}
		bool same(int a, int b) const { point(); return m ? a % 1000 == b % 1000 : a == b; }
		bool operator()(const Key &a, const Key &b) const { a.use(); b.use(); return same(a.v, b.v); }
		bool operator()(const View &a, const Key &b) const { b.use(); return same(a.v, b.v); }
		bool operator()(const Key &a, const View &b) const { a.use(); return same(a.v, b.v); }
	};
	struct HashE // empty, not transparent
	{
		std::size_t operator()(const Key &k) const { k.use(); if (k.moved) err("hash of a moved-from key"); return hash_of(0, k.v); }
	};
	struct EqE { bool operator()(const Key &a, const Key &b) const { a.use(); b.use(); point(); return a.v == b.v; } };

	inline void *blk_alloc(int id, std::size_t n, std::size_t sz, std::size_t al)
	{
		point();
		++w().allocs;
		void *p = ::operator new(n * sz + (n * sz == 0), std::align_val_t(al));
		std::memset(p, 0x5A, n * sz); // never hand out accidentally zeroed memory
		w().blocks[p] = Block{id, n, sz};
		return p;
	}
	inline void blk_free(void *p, int id, std::size_t n, std::size_t sz, std::size_t al)
	{
		auto it = w().blocks.find(p);
		if (it == w().blocks.end()) { err(p ? "deallocation of an unknown block" : "deallocation of a null pointer"); return; }
		if (it->second.id != id) err("block returned to an unequal allocator");
		if (it->second.n != n || it->second.sz != sz) err("block returned with the wrong size");
		std::memset(p, 0xA5, it->second.n * it->second.sz);
		w().blocks.erase(it);
		::operator delete(p, std::align_val_t(al));
	}
	template<typename T>
	struct AllocE // stateless
	{
		using value_type = T;
		static constexpr int id = 0;
		AllocE() = default;
		explicit AllocE(int) {}
		template<typename U> AllocE(const AllocE<U> &) noexcept {}
		T *allocate(std::size_t n) { return static_cast<T *>(blk_alloc(0, n, sizeof(T), alignof(T))); }
		void deallocate(T *p, std::size_t n) { blk_free(p, 0, n, sizeof(T), alignof(T)); }
		friend bool operator==(const AllocE &, const AllocE &) noexcept { return true; }
		friend bool operator!=(const AllocE &, const AllocE &) noexcept { return false; }
	};
	// Policy bits: 1 POCCA, 2 POCMA, 4 POCS, 8 select_on_container_copy_construction yields id 9
	template<typename T, int P>
	struct AllocS
	{
		using value_type = T;
		using is_always_equal = std::false_type;
		using propagate_on_container_copy_assignment = std::bool_constant<(P & 1) != 0>;
		using propagate_on_container_move_assignment = std::bool_constant<(P & 2) != 0>;
		using propagate_on_container_swap = std::bool_constant<(P & 4) != 0>;
		template<typename U> struct rebind { using other = AllocS<U, P>; };
		int id = 0;
		AllocS() = default;
		explicit AllocS(int x) : id(x) {}
		template<typename U> AllocS(const AllocS<U, P> &o) noexcept : id(o.id) {}
		AllocS select_on_container_copy_construction() const { return AllocS{(P & 8) ? 9 : id}; }
		T *allocate(std::size_t n) { return static_cast<T *>(blk_alloc(id, n, sizeof(T), alignof(T))); }
		void deallocate(T *p, std::size_t n) { blk_free(p, id, n, sizeof(T), alignof(T)); }
		friend bool operator==(const AllocS &a, const AllocS &b) noexcept { return a.id == b.id; }
		friend bool operator!=(const AllocS &a, const AllocS &b) noexcept { return a.id != b.id; }
	};
}
