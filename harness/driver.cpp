// Script interpreter over one container type. Build with
//   -DCONT=<name> -DKIND_MAP=0/1 -DKIND_ORD=0/1 -DKIND_STABLE=0/1 -DKIND_DENSE=0/1 -DNK=1..3 -DMULTI=0/1 -DPOL=-1|0..15
// POL=-1: empty functors + stateless allocator; otherwise stateful functors + AllocS<.,POL>.
// Reads a script (stdin), executes every operation on the real container and appends one JSON event per operation,
// carrying the resolved arguments, the results and the complete observable state, to stdout.
#include "track.hpp"
#include <algorithm>
#include <forward_list>
#include <iostream>
#include <iterator>
#include <list>
#include <optional>
#include <sstream>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>

#if KIND_DENSE
#if MULTI
#if KIND_MAP
#include <tpp/dense_multimap.hpp>
#else
#include <tpp/dense_multiset.hpp>
#endif
#elif KIND_MAP
#include <tpp/dense_map.hpp>
#else
#include <tpp/dense_set.hpp>
#endif
#elif KIND_STABLE
#if KIND_MAP
#include <tpp/stable_map.hpp>
#else
#include <tpp/stable_set.hpp>
#endif
#else
#if KIND_MAP
#include <tpp/sparse_map.hpp>
#else
#include <tpp/sparse_set.hpp>
#endif
#endif

using namespace trk;
template<class T> using vec = std::vector<T>;
using std::size_t;

#if POL < 0
using H = HashE; using E = EqE; template<class T> using A = AllocE<T>;
constexpr bool stateful = false;
#else
using H = HashS; using E = EqS; template<class T> using A = AllocS<T, POL>;
constexpr bool stateful = true;
#endif
constexpr bool is_map = KIND_MAP, ordered = KIND_ORD, stable = KIND_STABLE, dense = KIND_DENSE, multi = MULTI;
constexpr int nk = NK;

#if MULTI
#if NK == 2
using Keys = std::tuple<Key, Key>; using MK = tpp::multikey<Key, Key>;
#elif NK == 3
using Keys = std::tuple<Key, Key, Key>; using MK = tpp::multikey<Key, Key, Key>;
#endif
#if KIND_MAP
using C = tpp::CONT<MK, Val, H, E, A<std::pair<Keys, Val>>>;
#else
using C = tpp::CONT<MK, H, E, A<Keys>>;
#endif
using KT = Keys;
#else
using KT = Key;
#if KIND_MAP
#if KIND_STABLE
using C = tpp::CONT<Key, Val, H, E, A<std::pair<const Key, Val>>>;
#else
using C = tpp::CONT<Key, Val, H, E, A<std::pair<Key, Val>>>;
#endif
#else
using C = tpp::CONT<Key, H, E, A<Key>>;
#endif
#endif
using AL = typename C::allocator_type;
using IT = typename C::iterator;
using CIT = typename C::const_iterator;
using INS = typename C::insert_type;
using VT = typename C::value_type;

// ---------------------------------------------------------------- element access
struct El { int k[3] = {0, 0, 0}; int v = 0; };
inline const Key &key_at(const Key &k, int) { return k; }
#if MULTI
template<size_t I = 0> const Key &key_at(const Keys &k, int j)
{
	if constexpr (I + 1 < std::tuple_size_v<Keys>) { if (j != int(I)) return key_at<I + 1>(k, j); }
	return std::get<I>(k);
}
#endif
template<class It> decltype(auto) keyof(It it) { if constexpr (is_map) return (it->first); else return (*it); }
template<class It> El read(It it)
{
	El e;
	for (int j = 0; j < nk; ++j) { const Key &k = key_at(keyof(it), j); k.use(); if (k.moved) err("moved-from key stored"); e.k[j] = k.v; }
	if constexpr (is_map) { const Val &v = it->second; v.use(); if (v.moved) err("moved-from value stored"); e.v = v.v; }
	return e;
}
template<class It> const void *addr(It it) { return &key_at(keyof(it), 0); }
KT mk(const El &e)
{
#if MULTI
#if NK == 2
	return KT(Key(e.k[0]), Key(e.k[1]));
#else
	return KT(Key(e.k[0]), Key(e.k[1]), Key(e.k[2]));
#endif
#else
	return Key(e.k[0]);
#endif
}
#if KIND_MAP
INS mkins(const El &e) { return INS(mk(e), Val(e.v)); }
VT mkval(const El &e) { return VT(mk(e), Val(e.v)); }
#else
INS mkins(const El &e) { return mk(e); }
VT mkval(const El &e) { return mk(e); }
#endif

// ---------------------------------------------------------------- JSON
struct Out
{
	std::string s;
	void raw(const char *p) { s += p; }
	void num(long x) { s += std::to_string(x); }
	template<class V> void arr(const V &v) { s += '['; bool f = true; for (auto x: v) { if (!f) s += ','; f = false; num(long(x)); } s += ']'; }
	void el(const El &e, long p) { s += '['; for (int j = 0; j < nk; ++j) { num(e.k[j]); s += ','; } num(e.v); s += ','; num(p); s += ']'; }
};
std::map<const void *, int> g_addr;
int addr_id(const void *p) { return g_addr.emplace(p, int(g_addr.size()) + 1).first->second; }

// ---------------------------------------------------------------- world
constexpr int NS = 3, NH = 2;
std::unique_ptr<C> S[NS];
#if KIND_STABLE
using NT = typename C::node_type;
std::optional<NT> N[NH];
#endif
int U = 8, EQV = 0, LIGHT = 0;
vec<long> R;          // results of the current operation
vec<El> XE;           // elements given to the operation
vec<long> X;          // scalar arguments, resolved
long base_copies = 0;

AL al(int i) { return AL(i); }
#if POL >= 0
H hf(int m) { return H(m); }
E ef(int m) { return E(m); }
int hm(const H &h) { return h.m; }
int em(const E &e) { return e.m; }
#else
H hf(int) { return H(); }
E ef(int) { return E(); }
int hm(const H &) { return 0; }
int em(const E &) { return 0; }
#endif
int aid(const AL &a) { return a.id; }
struct Skip {}; // the operation is not applicable in the current state
C &at(int c) { if (!S[c]) throw Skip{}; return *S[c]; }

// number of steps from begin to it: 1-based, 0 for end, -1 when unreachable
template<class CC, class It> long index_of(CC &c, It it)
{
	const size_t n = c.size();
	auto i = c.begin();
	for (size_t k = 0; k <= n; ++k, ++i)
	{
		if (i == c.end()) return CIT(it) == CIT(c.end()) ? 0 : -1;
		if (CIT(i) == CIT(it)) return long(k) + 1;
	}
	return -2;
}
template<class CC> auto nth(CC &c, size_t i) { auto it = c.begin(); while (i--) ++it; return it; }

template<int J, class CC, class K> auto fnd(CC &c, const K &k) { if constexpr (multi) return c.template find<J>(k); else return c.find(k); }
template<int J, class CC, class K> bool cnt(CC &c, const K &k) { if constexpr (multi) return c.template contains<J>(k); else return c.contains(k); }
template<int J, class K> long lookup(C &c, int k, const std::map<const void *, long> &pos)
{
	const C &cc = c;
	K key(K{k});
	auto a = fnd<J>(c, key);
	auto b = fnd<J>(cc, key);
	const bool ct = cnt<J>(cc, key);
	if (CIT(a) != CIT(b)) return -9;
	if (ct != (CIT(a) != c.cend())) return -8;
	if (!ct) return 0;
	auto p = pos.find(addr(a));
	if (p == pos.end()) return -7;
	return p->second;
}
template<int J> void lookups(C &c, Out &o, const std::map<const void *, long> &pos)
{
	vec<long> f;
	for (int rep = 0; rep <= EQV; ++rep)
		for (int k = 0; k < U; ++k)
		{
			const int kk = k + 1000 * rep;
			long x = lookup<J, Key>(c, kk, pos);
			if constexpr (stateful)
				if (long y = lookup<J, View>(c, kk, pos); y != x) x = -6; // heterogeneous lookup disagrees
			f.push_back(x);
		}
	o.arr(f);
}
template<class C> void observe(Out &o, int s)
{
	C &c = *S[s];
	const C &cc = c;
	const auto cd = std::exchange(w().countdown, 0);
	const size_t n = c.size();
	std::map<const void *, long> pos;
	vec<const void *> fw;
	long it_ok = 1;
	o.raw("{\"s\":"); o.num(s); o.raw(",\"es\":[");
	size_t k = 0;
	for (auto i = c.begin(); i != c.end() && k <= n + 1; ++i, ++k)
	{
		if (k) o.raw(",");
		o.el(read(i), stable ? addr_id(addr(i)) : 0);
		fw.push_back(addr(i));
		if (!pos.emplace(addr(i), long(k) + 1).second) it_ok = 0; // visited twice
	}
	o.raw("]");
	// const traversal and post-increment agree with the non-const one
	size_t q = 0;
	for (auto i = cc.begin(); i != cc.end() && q <= n + 1; ++q) if (auto j = i++; q >= fw.size() || addr(j) != fw[q]) it_ok = 0;
	if (q != fw.size()) it_ok = 0;
	if (CIT(c.cbegin()) != CIT(cc.begin()) || CIT(c.cend()) != CIT(cc.end())) it_ok = 0;
	vec<long> rv;
	if constexpr (ordered || dense)
	{
		auto i = cc.end();
		for (size_t g = 0; i != cc.begin() && g <= n + 1; ++g) { --i; auto p = pos.find(addr(i)); rv.push_back(p == pos.end() ? -1 : p->second); }
	}
	if constexpr (ordered)
		if (n && !fw.empty())
		{
			auto ad = [](auto &&r) { if constexpr (is_map) return static_cast<const void *>(&r.first); else return static_cast<const void *>(&r); };
			if (ad(c.front()) != fw.front() || ad(cc.front()) != fw.front() || ad(c.back()) != fw.back() || ad(cc.back()) != fw.back()) it_ok = -1;
		}
	if constexpr (dense)
	{
		size_t g = 0;
		for (auto i = cc.rbegin(); i != cc.rend() && g <= n + 1; ++i, ++g)
		{
			auto b = i.base(); --b;
			if (g >= rv.size() || rv[g] < 1 || addr(b) != fw[size_t(rv[g]) - 1]) it_ok = 0;
		}
		if (g != rv.size()) it_ok = 0;
		g = 0;
		for (auto i = c.rbegin(); i != c.rend() && g <= n + 1; ++i) ++g;
		if (g != rv.size()) it_ok = 0;
		if (n && (addr(std::prev(c.crbegin().base())) != addr(std::prev(cc.rbegin().base())) || c.crend() != cc.rend())) it_ok = 0;
#ifndef NO_RANDOM_ACCESS
		if constexpr (!ordered)
		{
			auto adr = [](auto &&r) { if constexpr (is_map) return static_cast<const void *>(&key_at(r.first, 0)); else return static_cast<const void *>(&key_at(r, 0)); };
			// iterator arithmetic over the random-access containers
			for (size_t a = 0; a < fw.size(); ++a)
			{
				auto i = cc.begin() + long(a);
				if (addr(cc.begin() + long(a)) != fw[a] || adr(cc.begin()[long(a)]) != fw[a]) it_ok = 0;
				if (addr(i) != fw[a] || i - cc.begin() != long(a) || cc.end() - i != long(n - a)) it_ok = 0;
				auto j = c.begin(); j += long(a);
				if (addr(j) != fw[a]) it_ok = 0;
				auto e = c.end(); e -= long(n - a);
				if (CIT(e) != CIT(j) || CIT(c.end() - long(n - a)) != CIT(j)) it_ok = 0;
				for (size_t b = 0; b < fw.size(); b += 1 + fw.size() / 5)
				{
					auto x = c.begin() + long(a); auto y = cc.begin() + long(b);
					if ((x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b) || (x == y) != (a == b) || (x != y) != (a != b)) it_ok = 0;
					if (x - y != long(a) - long(b) || y - x != long(b) - long(a) || addr(y) != fw[b]) it_ok = 0;
				}
				if (auto x = c.begin() + long(a); adr(c.begin()[long(a)]) != fw[a] || addr(x) != fw[a] || adr(*(c.rbegin() + long(n - 1 - a))) != fw[a]) it_ok = 0;
			}
		}
#endif
	}
	{	// conversions and comparisons between iterator types; post-increment and post-decrement
		size_t g = 0;
		for (auto i = c.begin(); i != c.end() && g < n; ++g)
		{
			const CIT k = i; CIT k2; k2 = i;
			if (!(k == i) || k != i || k2 != k || k == CIT(c.end()) || addr(k) != fw[g]) it_ok = 0;
			auto j = i++;
			if (CIT(j) != k || CIT(i) == k) it_ok = 0;
			if constexpr (ordered || dense)
			{
				auto back = [&](auto &it) // generic: not instantiated for forward iterators
				{
					using J = std::decay_t<decltype(it)>;
					J b = it; J b2 = b--;
					if (CIT(b2) != CIT(i) || CIT(b) != k) it_ok = 0;
					std::conditional_t<(sizeof(J) > 0), CIT, J> cb = it; auto cb2 = cb--;
					if (cb2 != CIT(i) || cb != k) it_ok = 0;
					J pb = it; if (CIT(--pb) != k || CIT(pb) != k) it_ok = 0;
				};
				back(i);
			}
		}
		if (g != n) it_ok = 0;
	}
	if (c.max_size() < n || c.max_bucket_count() < c.bucket_count()) it_ok = 0;
	o.raw(",\"rv\":"); o.arr(rv);
	o.raw(",\"f\":[");
	lookups<0>(c, o, pos);
#if NK >= 2
	o.raw(","); lookups<1>(c, o, pos);
#endif
#if NK >= 3
	o.raw(","); lookups<2>(c, o, pos);
#endif
	o.raw("]");
	long cap_ok = c.size() <= c.capacity() && c.capacity() <= c.bucket_count() + 0 * n;
	if (dense && c.max_load_factor() > 1.0f) cap_ok = c.size() <= c.capacity();
	long lf_ok = !dense ? 1 : c.bucket_count() == 0 ? c.size() == 0 : c.load_factor() <= c.max_load_factor() + 1e-4f;
	if (c.bucket_count() && c.load_factor() != static_cast<float>(c.size()) / static_cast<float>(c.bucket_count())) lf_ok = 0;
	o.raw(",\"z\":"); o.arr(vec<long>{long(n), c.empty(), it_ok, cap_ok, lf_ok, long(c.max_load_factor() * 1000.0f + 0.5f), c.capacity() > 1000000 ? 1000000 : long(c.capacity())});
	o.raw(",\"q\":"); o.arr(vec<long>{hm(c.hash_function()), em(c.key_eq()), aid(c.get_allocator())});
	o.raw("}");
	w().countdown = cd;
}
long blocks_of(int id) { long r = 0; for (auto &b: w().blocks) r += b.second.id == id; return r; }

void emit(const std::string &op, int c, int d, int thrown)
{
	Out o;
	o.raw("{\"op\":\""); o.raw(op.c_str()); o.raw("\",\"c\":"); o.num(c); o.raw(",\"d\":"); o.num(d);
	o.raw(",\"x\":"); o.arr(X);
	o.raw(",\"e\":["); for (size_t i = 0; i < XE.size(); ++i) { if (i) o.raw(","); o.el(XE[i], 0); } o.raw("]");
	o.raw(",\"r\":"); o.arr(R);
	o.raw(",\"t\":"); o.num(thrown);
	const long copies = w().copies - base_copies;
	long live_k = long(w().keys.size()), live_v = long(w().vals.size());
	const long blocks = long(w().blocks.size());
#ifdef TRIV
	live_k = live_v = 0;
	for (auto &s: S) if (s) { live_k += nk * long(s->size()); live_v += is_map * long(s->size()); }
#if KIND_STABLE
	for (auto &n: N) if (n && !n->empty()) { live_k += nk; live_v += is_map; }
#endif
#endif
	vec<long> bid; for (int i = 0; i <= 9; ++i) bid.push_back(blocks_of(i));
	o.raw(",\"o\":[");
	bool f = true;
	for (int s = 0; s < NS; ++s) if (S[s]) { if (!f) o.raw(","); f = false; observe<C>(o, s); }
	o.raw("],\"n\":[");
#if KIND_STABLE
	f = true;
	for (int h = 0; h < NH; ++h)
	{
		if (!f) o.raw(","); f = false;
		if (N[h] && !N[h]->empty())
		{
			El e; 
			const Key *kp;
#if KIND_MAP
			kp = &N[h]->key(); e.v = N[h]->mapped().v; N[h]->mapped().use();
#else
			kp = &N[h]->value();
#endif
			e.k[0] = kp->v;
			kp->use();
			if (!bool(*N[h])) err("non-empty node handle converts to false");
			o.raw("{\"a\":"); o.num(aid(N[h]->get_allocator())); o.raw(",\"e\":"); o.el(e, addr_id(kp)); o.raw("}");
		}
		else { if (N[h] && bool(*N[h])) err("empty node handle converts to true"); o.raw("{\"a\":-1,\"e\":["); o.raw(is_map ? "0,0,0" : "0,0,0"); o.raw("]}"); }
	}
#endif
	// live objects held by the harness itself are excluded: emit is called after all temporaries are gone
	o.raw("],\"g\":"); o.arr(vec<long>{live_k, live_v, w().errs, blocks, copies});
	o.raw(",\"b\":"); o.arr(bid);
	long ec = 0; // class of the first error: 1 arguments, 2 node handles, 3 allocators
	auto has = [&](const char *p) { return w().first_err.find(p) != std::string::npos; };
	if (w().errs) ec = has("argument modified") ? 1 : has("handle") ? 2 : has("allocator") ? 3 : 0;
	o.raw(",\"ec\":"); o.num(ec);
	if (w().errs) { o.raw(",\"msg\":\""); o.raw(w().first_err.c_str()); o.raw("\""); }
	o.raw("}\n");
	fwrite(o.s.data(), 1, o.s.size(), stdout);
	fflush(stdout);
	w().errs = 0; w().first_err.clear();
}
void note(const std::string &op, int c)
{
	printf("{\"op\":\"note\",\"at\":\"%s\",\"c\":%d}\n", op.c_str(), c); // what is about to run; removed by the collector
	fflush(stdout);
}

// ---------------------------------------------------------------- input iterators
// A convertible element type: initializer lists and ranges of it, converting insertions.
#if MULTI
#if NK == 2
using IK = std::tuple<int, int>; inline IK ikey(const El &e) { return {e.k[0], e.k[1]}; }
#else
using IK = std::tuple<int, int, int>; inline IK ikey(const El &e) { return {e.k[0], e.k[1], e.k[2]}; }
#endif
#else
using IK = int; inline IK ikey(const El &e) { return e.k[0]; }
#endif
#if KIND_MAP
using CT = std::pair<IK, int>; inline CT mkct(const El &e) { return {ikey(e), e.v}; }
#else
using CT = IK; inline CT mkct(const El &e) { return ikey(e); }
#endif
struct InIt
{
	using value_type = INS; using reference = INS; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
	const vec<El> *v; size_t i;
	INS operator*() const { return mkins((*v)[i]); }
	InIt &operator++() { ++i; return *this; }
	InIt operator++(int) { auto t = *this; ++i; return t; }
	bool operator==(const InIt &o) const { return i == o.i; }
	bool operator!=(const InIt &o) const { return i != o.i; }
};
template<bool CV, class F, size_t... Is> void il_n(const vec<El> &v, F &&f, std::index_sequence<Is...>)
{
	if constexpr (CV) { std::initializer_list<CT> il = {mkct(v[Is])...}; f(il); }
	else { std::initializer_list<VT> il = {mkval(v[Is])...}; f(il); }
}
template<bool CV = false, class F> void with_il(const vec<El> &v, F &&f)
{
	switch (v.size())
	{
#define IL(n) case n: il_n<CV>(v, f, std::make_index_sequence<n>{}); break;
		IL(0) IL(1) IL(2) IL(3) IL(4) IL(5) IL(6) IL(7) IL(8) IL(9) IL(10) IL(15) IL(16) IL(17) IL(20)
#undef IL
		default: fprintf(stderr, "script error: initializer list of %zu\n", v.size()); exit(99);
	}
}

// ---------------------------------------------------------------- operations
struct Line
{
	std::istringstream in;
	explicit Line(const std::string &s) : in(s) {}
	int i() { int x; if (!(in >> x)) { fprintf(stderr, "script error: missing argument\n"); exit(99); } return x; }
	std::string s() { std::string x; in >> x; return x; }
	El el() { El e; for (int j = 0; j < nk; ++j) e.k[j] = i(); e.v = i(); if (!is_map) e.v = 0; return e; }
	vec<El> els() { vec<El> r(static_cast<size_t>(i())); for (auto &e: r) e = el(); return r; }
};

// Position of the element meant by a script: i >= 0 modulo the size, i < 0 the element whose first key is -i - 1.
template<class CC> size_t pos_of(CC &c, int i)
{
	if (c.size() == 0) throw Skip{};
	if (i >= 0) return size_t(i) % c.size();
	size_t p = 0;
	const auto cd = std::exchange(w().countdown, 0);
	for (auto it = c.begin(); it != c.end(); ++it, ++p) if (read(it).k[0] == -i - 1) { w().countdown = cd; return p; }
	throw Skip{};
}
template<class F> void pick_hint(C &c, int hk, int hi, F &&f) // resolves the hint and logs its position (0 none, size+1 end)
{
	const size_t n = c.size();
	if (hk == 0) { X.push_back(0); f(std::optional<CIT>{}, std::optional<IT>{}); return; }
	size_t p = hk == 1 || n == 0 ? n : pos_of(c, hi);
	auto it = nth(c, p);
	X.push_back(long(p) + 1);
	f(std::optional<CIT>{CIT(it)}, std::optional<IT>{it});
}
// Inserts e using insertion form `var`; records [inserted(0/1/-1 unknown), iterator index, key argument moved, value argument moved]
template<class C, class INS> void do_ins(C &c, int var, int hk, int hi, const El &e)
{
	std::pair<IT, bool> r{c.end(), false};
	bool known = true;
	long km = 0, vm = 0;
	const size_t before = c.size();
	X.push_back(var);
	{
		const auto cd = std::exchange(w().countdown, 0); // building the arguments is not part of the operation
		KT k = mk(e);
		INS iv = mkins(e);
		const KT ck = mk(e);
		const INS civ = mkins(e);
		[[maybe_unused]] Val v(e.v);
		const Val cv(e.v);
		std::optional<CIT> ch;
		std::optional<IT> ih;
		pick_hint(c, hk, hi, [&](auto a, auto b) { ch = a; ih = b; });
		w().countdown = cd;
		auto R1 = [&](IT i) { r.first = i; known = false; };
		switch (var)
		{
			case 0: if (ch) R1(c.insert(*ch, civ)); else r = c.insert(civ); break;
			case 1: if (ch) R1(c.insert(*ch, std::move(iv))); else r = c.insert(std::move(iv)); break;
			case 2:
				if constexpr (is_map) { if (ch) R1(c.emplace_hint(*ch, ck, cv)); else r = c.emplace(ck, cv); }
				else { if (ch) R1(c.emplace_hint(*ch, ck)); else r = c.emplace(ck); }
				break;
			case 3:
				if constexpr (is_map) { if (ch) R1(c.emplace_hint(*ch, std::move(k), std::move(v))); else r = c.emplace(std::move(k), std::move(v)); }
				else { if (ch) R1(c.emplace_hint(*ch, std::move(k))); else r = c.emplace(std::move(k)); }
				break;
			case 4: // lvalue, non-const
				if (ch) R1(c.insert(*ch, iv)); else r = c.insert(iv);
				break;
			case 5: // convertible argument
				if constexpr (is_map && !multi)
				{
					const std::pair<int, int> p(e.k[0], e.v);
					if (ch) R1(c.insert(*ch, p)); else r = c.insert(p);
				}
				else if constexpr (!is_map && !multi) { if (ch) R1(c.insert(*ch, e.k[0])); else r = c.insert(e.k[0]); }
				else { if (ch) R1(c.insert(*ch, civ)); else r = c.insert(civ); }
				break;
			case 6: // piecewise
				if constexpr (is_map && !multi)
				{
					if (ch) R1(c.emplace_hint(*ch, std::piecewise_construct, std::forward_as_tuple(e.k[0]), std::forward_as_tuple(e.v - 1, 1)));
					else r = c.emplace(std::piecewise_construct, std::forward_as_tuple(e.k[0]), std::forward_as_tuple(e.v - 1, 1));
				}
				else if constexpr (!multi) { if (ch) R1(c.emplace_hint(*ch, e.k[0])); else r = c.emplace(e.k[0]); }
				else { if (ch) R1(c.insert(*ch, civ)); else r = c.insert(civ); }
				break;
			case 7: // convertible rvalue
				if (ch) R1(c.insert(*ch, mkct(e))); else r = c.insert(mkct(e));
				break;
			case 8: // converting construction in place
				if constexpr (is_map) { if (ch) R1(c.emplace_hint(*ch, ikey(e), e.v)); else r = c.emplace(ikey(e), e.v); }
				else if constexpr (!multi) { if (ch) R1(c.emplace_hint(*ch, View{e.k[0]})); else r = c.emplace(View{e.k[0]}); }
				else { if (ch) R1(c.emplace_hint(*ch, ikey(e))); else r = c.emplace(ikey(e)); }
				break;
			case 9: // convertible lvalue
			{
				const CT ct = mkct(e);
				if (ch) R1(c.insert(*ch, ct)); else r = c.insert(ct);
				break;
			}
#if KIND_MAP
			case 10: if (ch) R1(hi & 1 ? c.try_emplace(*ih, ck, cv) : c.try_emplace(*ch, ck, cv)); else r = c.try_emplace(ck, cv); break;
			case 11: if (ch) R1(hi & 1 ? c.try_emplace(*ih, std::move(k), std::move(v)) : c.try_emplace(*ch, std::move(k), std::move(v))); else r = c.try_emplace(std::move(k), std::move(v)); break;
			case 12: if (ch) R1(c.try_emplace(*ch, ck, e.v - 2, 2)); else r = c.try_emplace(ck, e.v - 2, 2); break;
			case 13: // lvalue, non-const
				if (ch) R1(c.try_emplace(*ch, k, v)); else r = c.try_emplace(k, v);
				break;
#if !MULTI
			case 20: if (ch) R1(c.insert_or_assign(*ch, ck, cv)); else r = c.insert_or_assign(ck, cv); break;
			case 21: if (ch) R1(c.insert_or_assign(*ch, std::move(k), std::move(v))); else r = c.insert_or_assign(std::move(k), std::move(v)); break;
			case 22: if (ch) R1(c.insert_or_assign(*ch, k, v)); else r = c.insert_or_assign(k, v); break;
			case 23: if (ch) R1(hi & 1 ? c.emplace_or_replace(*ih, ck, cv) : c.emplace_or_replace(*ch, ck, cv)); else r = c.emplace_or_replace(ck, cv); break;
			case 24: if (ch) R1(hi & 1 ? c.emplace_or_replace(*ih, std::move(k), std::move(v)) : c.emplace_or_replace(*ch, std::move(k), std::move(v))); else r = c.emplace_or_replace(std::move(k), std::move(v)); break;
			case 25: if (ch) R1(c.emplace_or_replace(*ch, k, e.v - 3, 3)); else r = c.emplace_or_replace(k, e.v - 3, 3); break;
			case 30: { auto &m = c[ck]; R.push_back(m.v); m = cv; r.first = c.find(ck); known = false; break; }
			case 31: { auto &m = c[k]; R.push_back(m.v); m = cv; r.first = c.find(ck); known = false; break; }
			case 32: { auto &m = c[std::move(k)]; R.push_back(m.v); m = cv; r.first = c.find(ck); known = false; break; }
#endif
#endif
#if POL >= 0 && !MULTI
			// heterogeneous key argument
#if KIND_MAP
			case 40: { const View vw{e.k[0]}; if (ch) R1(hi & 1 ? c.try_emplace(*ih, vw, cv) : c.try_emplace(*ch, vw, cv)); else r = c.try_emplace(vw, cv); break; }
			case 41: { const View vw{e.k[0]}; if (ch) R1(c.insert_or_assign(*ch, vw, cv)); else r = c.insert_or_assign(vw, cv); break; }
			case 43: if (ch) R1(hi & 1 ? c.try_emplace(*ih, View{e.k[0]}, cv) : c.try_emplace(*ch, View{e.k[0]}, cv)); else r = c.try_emplace(View{e.k[0]}, cv); break;
			case 44: if (ch) R1(c.insert_or_assign(*ch, View{e.k[0]}, std::move(v))); else r = c.insert_or_assign(View{e.k[0]}, std::move(v)); break;
			case 45: { const View vw{e.k[0]}; if (ch) R1(hi & 1 ? c.emplace_or_replace(*ih, vw, cv) : c.emplace_or_replace(*ch, vw, cv)); else r = c.emplace_or_replace(vw, cv); break; }
			case 46: if (ch) R1(hi & 1 ? c.emplace_or_replace(*ih, View{e.k[0]}, e.v - 3, 3) : c.emplace_or_replace(*ch, View{e.k[0]}, e.v - 3, 3)); else r = c.emplace_or_replace(View{e.k[0]}, e.v - 3, 3); break;
			case 47: { auto &m = c[View{e.k[0]}]; R.push_back(m.v); m = cv; r.first = c.find(View{e.k[0]}); known = false; break; }
			case 42: { const View vw{e.k[0]}; auto &m = c[vw]; R.push_back(m.v); m = cv; r.first = c.find(vw); known = false; break; }
#endif
#endif
			default: fprintf(stderr, "script error: insertion form %d\n", var); exit(99);
		}
		const auto cd2 = std::exchange(w().countdown, 0);
		// arguments handed over as lvalues must be intact; rvalues are reported
		auto mvd = [](const auto &x) { bool b = false; for (int j = 0; j < nk; ++j) b |= key_at(x, j).moved; return b; };
		if (mvd(ck) || cv.moved) err("const argument modified");
		km = mvd(k); vm = v.moved;
		for (int j = 0; j < nk; ++j) if (!mvd(k) && key_at(k, j).v != e.k[j]) err("key argument modified");
		if (!v.moved && v.v != e.v) err("value argument modified");
		const bool ivm = [&](const auto &x) { if constexpr (is_map) return mvd(x.first) || x.second.moved; else return mvd(x); }(iv);
		if (var != 1 && ivm) err("lvalue element argument modified");
		w().countdown = cd2;
	}
	if (R.empty()) R.push_back(0);
	R.insert(R.begin(), {known ? long(r.second) : long(c.size() > before), index_of(c, r.first), km, vm, known});
}

void begin_script(Line &l)
{
	// begin U EQV then hash lines follow
	for (auto &s: S) s.reset();
#if KIND_STABLE
	for (auto &n: N) n.reset();
#endif
	g_addr.clear();
	U = l.i(); EQV = l.i();
	w().errs = 0; w().first_err.clear();
	for (auto &t: w().hash) for (int k = 0; k < 1000; ++k) t[k] = std::uint64_t(k) * 0x9E3779B97F4A7C15ull;
	printf("{\"op\":\"begin\",\"cfg\":[%d,%d,%d,%d,%d,%d,%d,%d]}\n", nk, int(is_map), int(ordered), int(stable), int(dense), U, EQV, POL);
	fflush(stdout);
}

template<class C> bool exec(const std::string &op, Line &l, int &c, int &d)
{
	auto make = [&](int s, auto &&f) { S[s].reset(); S[s].reset(f()); };
	if (op == "new")
	{
		c = l.i(); int h = l.i(), e = l.i(), a = l.i(); X = {h, e, a};
		if (!stateful) make(c, [&] { return new C(); });
		else if (h == 0 && e == 0) make(c, [&] { return new C(al(a)); });
		else make(c, [&] { return new C(0, hf(h), ef(e), al(a)); });
	}
	else if (op == "cap")
	{
		c = l.i(); int n = l.i(), h = l.i(), e = l.i(), a = l.i(), form = l.i(); X = {n, h, e, a, form};
		const auto sn = static_cast<size_t>(n);
		if (form == 0) make(c, [&] { return new C(sn, hf(h), ef(e), al(a)); });
		else if (form == 1) { X[2] = 0; make(c, [&] { return new C(sn, hf(h), al(a)); }); }
		else { X[1] = X[2] = 0; make(c, [&] { return new C(sn, al(a)); }); }
	}
	else if (op == "rng")
	{
		c = l.i(); int form = l.i(), n = l.i(), h = l.i(), e = l.i(), a = l.i(); auto es = l.els(); X = {form, n, h, e, a}; XE = es;
		if (form % 10 == 5 && !std::is_constructible_v<C, std::initializer_list<CT>, size_t, H, E, AL>) return false;
		S[c].reset();
		const auto sn = static_cast<size_t>(n);
		const auto cd = std::exchange(w().countdown, 0);
		const int shape = form / 10; form %= 10;
		if (shape) X[3] = 0;
		if (shape == 2) X[2] = 0;
		auto build = [&](auto... fl) // the three argument lists every range constructor accepts
		{
			w().countdown = cd;
			if (shape == 0) make(c, [&] { return new C(fl..., sn, hf(h), ef(e), al(a)); });
			else if (shape == 1) make(c, [&] { return new C(fl..., sn, hf(h), al(a)); });
			else make(c, [&] { return new C(fl..., sn, al(a)); });
		};
		if (form == 0) { vec<INS> v; for (auto &x: es) v.push_back(mkins(x)); build(v.begin(), v.end()); w().countdown = 0; }
		else if (form == 1) { std::list<INS> v; for (auto &x: es) v.push_back(mkins(x)); build(v.begin(), v.end()); }
		else if (form == 2) with_il(es, [&](auto il) { build(il); });
		else if (form == 3) build(InIt{&es, 0}, InIt{&es, es.size()});
		else if (form == 5)
		{
			if constexpr (std::is_constructible_v<C, std::initializer_list<CT>, size_t, H, E, AL>) with_il<true>(es, [&](auto il) { build(il); });
		}
		else if (form == 6) { vec<INS> v; for (auto &x: es) v.push_back(mkins(x)); const INS *q = v.data(); build(q, q + v.size()); }
		else { std::forward_list<INS> v; auto p = v.before_begin(); for (auto &x: es) p = v.insert_after(p, mkins(x)); build(v.begin(), v.end()); }
		X[0] = form + 10 * shape;
	}
	else if (op == "cc") { c = l.i(); d = l.i(); if (c == d) return false; const C &src = at(d); make(c, [&] { return new C(src); }); }
	else if (op == "cca") { c = l.i(); d = l.i(); int a = l.i(); if (c == d) return false; X = {a}; const C &src = at(d); make(c, [&] { return new C(src, al(a)); }); }
	else if (op == "mc") { c = l.i(); d = l.i(); if (c == d) return false; at(d); make(c, [&] { return new C(std::move(at(d))); }); }
	else if (op == "mca") { c = l.i(); d = l.i(); int a = l.i(); if (c == d) return false; at(d); X = {a}; make(c, [&] { return new C(std::move(at(d)), al(a)); }); }
	else if (op == "ca") { c = l.i(); d = l.i(); const C &src = at(d); at(c) = src; }
	else if (op == "ma") { c = l.i(); d = l.i(); at(c) = std::move(at(d)); }
	else if (op == "asg")
	{
		c = l.i(); int form = l.i(); auto es = l.els(); X = {form}; XE = es;
		C &cc = at(c);
		const auto cd = std::exchange(w().countdown, 0);
		if (form)
		{
			if constexpr (!is_map) with_il<true>(es, [&](auto il) { w().countdown = cd; cc = il; });
			else return false;
		}
		else with_il(es, [&](auto il) { w().countdown = cd; cc = il; });
	}
	else if (op == "sw")
	{
		c = l.i(); d = l.i(); int form = l.i();
		if (stateful && !(POL & 4) && aid(at(c).get_allocator()) != aid(at(d).get_allocator())) return false; // precondition of swap
		X = {form};
		if (form == 0) at(c).swap(at(d)); else { using std::swap; swap(at(c), at(d)); }
	}
	else if (op == "del") { c = l.i(); S[c].reset(); }
	else if (op == "clr") { c = l.i(); at(c).clear(); }
	else if (op == "ins") { c = l.i(); int var = l.i(), hk = l.i(), hi = l.i(); El e = l.el(); XE = {e}; do_ins<C, INS>(at(c), var, hk, hi, e); }
	else if (op == "insr")
	{
		c = l.i(); int form = l.i(); auto es = l.els(); X = {form}; XE = es;
		const auto cd = std::exchange(w().countdown, 0);
		if (form == 0) { vec<INS> v; for (auto &x: es) v.push_back(mkins(x)); w().countdown = cd; at(c).insert(v.begin(), v.end()); }
		else if (form == 1) { std::list<INS> v; for (auto &x: es) v.push_back(mkins(x)); w().countdown = cd; at(c).insert(v.begin(), v.end()); }
		else if (form == 2) with_il(es, [&](auto il) { w().countdown = cd; at(c).insert(il); });
		else if (form == 4) with_il<true>(es, [&](auto il) { w().countdown = cd; at(c).insert(il); });
		else if (form == 5) { vec<INS> v; for (auto &x: es) v.push_back(mkins(x)); const INS *q = v.data(); w().countdown = cd; at(c).insert(q, q + v.size()); }
		else if (form == 6)
		{
			vec<INS> v; for (auto &x: es) v.push_back(mkins(x));
			w().countdown = cd; at(c).insert(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
		}
		else { w().countdown = cd; at(c).insert(InIt{&es, 0}, InIt{&es, es.size()}); }
	}
	else if (op == "er")
	{
		c = l.i(); int k = l.i(), j = l.i(), tv = l.i(); X = {k, j, tv};
		C &cc = at(c);
		auto go = [&](const auto &key)
		{
			if constexpr (multi)
			{
				if (j == 0) return cc.template erase<0>(key);
				if (nk == 2 || j == 1) return cc.template erase<1>(key);
				return cc.template erase<nk - 1>(key);
			}
			else return cc.erase(key);
		};
		const auto cd = std::exchange(w().countdown, 0);
		const Key key(k);
		w().countdown = cd;
		IT r = cc.end();
#if POL >= 0
		if (tv) r = go(View{k}); else
#endif
		r = go(key);
		R = {index_of(cc, r)};
	}
	else if (op == "eri")
	{
		c = l.i(); int i = l.i(), cst = l.i(); C &cc = at(c);
		const size_t p = pos_of(cc, i);
		X = {long(p) + 1, cst};
		auto it = nth(cc, p);
		auto r = cst ? cc.erase(CIT(it)) : cc.erase(it);
		R = {index_of(cc, r)};
	}
	else if (op == "err")
	{
		c = l.i(); int i = l.i(), j = l.i(); C &cc = at(c);
		const size_t n = cc.size();
		size_t a = size_t(i) % (n + 1), b = size_t(j) % (n + 1);
		if (a > b) std::swap(a, b);
		X = {long(a) + 1, long(b) + 1}; // [a+1, b+1) one-based
		auto r = cc.erase(CIT(nth(cc, a)), CIT(nth(cc, b)));
		R = {index_of(cc, r)};
	}
	else if (op == "erf" || op == "erw")
	{
		c = l.i(); int m = l.i(), r = l.i(); C &cc = at(c); X = {m, r};
		auto dead = [&](const auto &x) { int k; if constexpr (is_map) k = key_at(x.first, 0).v; else k = key_at(x, 0).v; return (k % 1000) % m == r; };
		if (op == "erf") R = {long(tpp::erase_if(cc, dead)), 0};
		else
		{
			// the documented idiom: continue from the returned iterator; every element must be looked at exactly once
			long removed = 0, seen = 0;
			const long lim = long(cc.size()) + 2;
			for (auto it = cc.begin(); it != cc.end() && seen < lim; ++seen) if (dead(*it)) { it = cc.erase(it); ++removed; } else ++it;
			R = {removed, seen};
		}
	}
#if KIND_MAP
	else if (op == "at")
	{
		c = l.i(); int k = l.i(), j = l.i(), cst = l.i(); X = {k, j, cst}; C &cc = at(c); const C &kc = cc;
		const auto cd = std::exchange(w().countdown, 0);
		const Key key(k);
		w().countdown = cd;
		auto go = [&](auto &q) -> long
		{
			if constexpr (multi) { if (j == 0) return q.template at<0>(key).v; if (nk == 2 || j == 1) return q.template at<1>(key).v; return q.template at<nk - 1>(key).v; }
			else return q.at(key).v;
		};
		try { R = {1, cst ? go(kc) : go(cc)}; } catch (const std::out_of_range &) { R = {0, 0}; }
	}
	else if (op == "mut")
	{
		c = l.i(); int i = l.i(), v = l.i(); C &cc = at(c);
		const size_t p = pos_of(cc, i); X = {long(p) + 1, v};
		nth(cc, p)->second = Val(v);
	}
	else if (op == "mua")
	{
		c = l.i(); int k = l.i(), v = l.i(); C &cc = at(c); X = {k, v};
		const auto cd = std::exchange(w().countdown, 0);
		const Key key(k); Val val(v);
		w().countdown = cd;
		auto set = [&](Val &dst) { dst = std::move(val); };
		try { if constexpr (multi) set(cc.template at<0>(key)); else set(cc.at(key)); R = {1}; } catch (const std::out_of_range &) { R = {0}; }
	}
#endif
	else if (op == "rsv") { c = l.i(); int n = l.i(); X = {n}; C &cc = at(c); cc.reserve(size_t(n)); R = {cc.capacity() >= size_t(n)}; }
	else if (op == "fil") // reserve(n), then insert absent keys until n elements are held: no growth may happen
	{	// n < 0: relative to the current state (-1 capacity, -2 capacity + 1, -3 size + 1, -4 half the capacity)
		c = l.i(); int n = l.i(), lo = l.i(); C &cc = at(c);
		if (n < 0) n = int(n == -1 ? cc.capacity() : n == -2 ? cc.capacity() + 1 : n == -3 ? cc.size() + 1 : (cc.size() + cc.capacity()) / 2);
		if (n > 2 * U) n = 2 * U;
		X = {n};
		const auto cd = std::exchange(w().countdown, 0);
		vec<KT> keys; // prepared beforehand
		for (int k = 0; k < U; ++k) { El e; for (int j = 0; j < nk; ++j) e.k[j] = (lo + k) % U; keys.push_back(mk(e)); }
		w().countdown = cd;
		cc.reserve(size_t(n));
		const auto bc = cc.bucket_count();
		vec<const void *> ad; for (auto i = cc.begin(); i != cc.end(); ++i) ad.push_back(addr(i));
		std::sort(ad.begin(), ad.end());
		bool growth = false;
		for (int k = 0; long(cc.size()) < n && k < U; ++k)
		{
			El e; for (int j = 0; j < nk; ++j) e.k[j] = (lo + k) % U; e.v = is_map ? e.k[0] + 1 : 0;
			const auto cd2 = std::exchange(w().countdown, 0);
			auto val = mkins(e);
			w().countdown = cd2;
			const auto a0 = w().allocs;
			XE.push_back(e);
			if (!cc.insert(std::move(val)).second) XE.pop_back();
			if (w().allocs - a0 > (stable ? 1 : 0)) growth = true;
		}
		vec<const void *> ad2; for (auto i = cc.begin(); i != cc.end(); ++i) ad2.push_back(addr(i));
		std::sort(ad2.begin(), ad2.end());
		R = {cc.capacity() >= size_t(n), !growth && cc.bucket_count() == bc, std::includes(ad2.begin(), ad2.end(), ad.begin(), ad.end())};
	}
	else if (op == "rh") { c = l.i(); int n = l.i(); X = {n}; C &cc = at(c); cc.rehash(size_t(n)); R = {cc.bucket_count() >= size_t(n)}; }
	else if (op == "mlf") { c = l.i(); int n = l.i(); X = {n};
#if KIND_DENSE
		at(c).max_load_factor(static_cast<float>(n) / 1000.0f);
#else
		return false;
#endif
	}
	else if (op == "eqq") { c = l.i(); d = l.i(); const C &a = at(c), &b = at(d); R = {a == b, a != b, b == a, b != a}; }
#if KIND_STABLE
	else if (op == "ext")
	{
		c = l.i(); int k = l.i(), h = l.i(), tv = l.i(); d = h; X = {k, tv};
		const auto cd = std::exchange(w().countdown, 0);
		const Key key(k);
		N[h].reset();
		w().countdown = cd;
#if POL >= 0
		if (tv) N[h].emplace(at(c).extract(View{k})); else
#endif
		N[h].emplace(at(c).extract(key));
		R = {!N[h]->empty()};
	}
	else if (op == "exi")
	{
		c = l.i(); int i = l.i(), h = l.i(); d = h; C &cc = at(c);
		const size_t p = pos_of(cc, i); X = {long(p) + 1};
		N[h].reset();
		if (i & 1) N[h].emplace(cc.extract(CIT(nth(cc, p)))); else N[h].emplace(cc.extract(nth(cc, p)));
		R = {!N[h]->empty()};
	}
	else if (op == "nin" || op == "nia")
	{
		c = l.i(); int h = l.i(), hk = l.i(), hi = l.i(); d = h; C &cc = at(c);
		if (op == "nia" && !is_map) return false;
		if (!N[h]) N[h].emplace();
		const size_t before = cc.size();
		std::optional<CIT> ch;
		pick_hint(cc, hk, hi, [&](auto a, auto) { ch = a; });
		if (op == "nin")
		{
			if (ch) { auto it = cc.insert(*ch, std::move(*N[h])); R = {cc.size() > before, index_of(cc, it)}; }
			else
			{
				const bool owned = !N[h]->empty();
				auto r = cc.insert(std::move(*N[h]));
				R = {r.inserted, index_of(cc, r.position)};
				if (before == cc.size() && owned && r.node.empty()) err("the returned handle does not own the rejected node");
				if (r.inserted && !r.node.empty()) err("the returned handle owns a node after an insertion");
				if (!N[h]->empty() && !r.inserted && !r.node.empty()) err("both the argument and the returned handle own a node");
				if (N[h]->empty()) { N[h].reset(); N[h].emplace(std::move(r.node)); }
			}
		}
#if KIND_MAP
		else
		{
			if (ch) { auto it = cc.insert_or_assign(*ch, std::move(*N[h])); R = {cc.size() > before, index_of(cc, it)}; }
			else { auto r = cc.insert_or_assign(std::move(*N[h])); R = {r.second, index_of(cc, r.first)}; }
		}
#endif
	}
	else if (op == "ndr") { d = l.i(); N[d].reset(); }
	else if (op == "nmv") { int h = l.i(), g = l.i(); X = {h, g}; if (!N[g]) N[g].emplace(); if (!N[h]) N[h].emplace();
		if (h == g) return false;
		if (stateful && !(POL & 2) && !N[g]->empty() && aid(N[h]->get_allocator()) != aid(N[g]->get_allocator())) return false;
		NT t(std::move(*N[h])); N[h].reset(); *N[g] = std::move(t); }
	else if (op == "nsw") { if (!N[0]) N[0].emplace(); if (!N[1]) N[1].emplace();
		if (stateful && !(POL & 4) && !N[0]->empty() && !N[1]->empty() && aid(N[0]->get_allocator()) != aid(N[1]->get_allocator())) return false;
		int f = l.i(); if (f) N[0]->swap(*N[1]); else { using std::swap; swap(*N[0], *N[1]); } }
	else if (op == "mrg")
	{
		c = l.i(); d = l.i(); int var = l.i(); if (c == d) return false;
		if (stateful && aid(at(c).get_allocator()) != aid(at(d).get_allocator())) return false;
		X = {var};
		if (var == 0) at(c).merge(at(d)); else at(c).merge(std::move(at(d)));
	}
#endif
#if KIND_DENSE && !MULTI && !defined(NO_BUCKETS)
	else if (op == "bkt")
	{
		c = l.i(); C &cc = at(c); const C &kc = cc;
		long total = 0, bad = 0; std::map<const void *, long> where;
		for (size_t b = 0; b < cc.bucket_count(); ++b)
		{
			long n = 0;
			for (auto i = kc.begin(b); i != kc.end(b) && n <= long(cc.size()); ++i) { ++n; if (!where.emplace(addr(i), long(b)).second) ++bad; }
			long m = 0;
			for (auto i = cc.begin(b); i != cc.end(b) && m <= long(cc.size()); i++) ++m;
			long q = 0;
			for (auto i = cc.begin(b); i != cc.end(b) && q <= long(cc.size()); ++i)
			{
				const typename C::const_local_iterator ci = i; // conversion
				++q;
				long rest = 0; // the rest of the bucket from the converted iterator
				for (auto j = ci; j != kc.cend(b) && rest <= long(cc.size()); ++j) ++rest;
				if (rest != n - q + 1 || addr(ci) != addr(i)) ++bad;
			}
			if (n != m || n != q || n != long(cc.bucket_size(b)) || kc.cbegin(b) != kc.begin(b) || kc.cend(b) != kc.end(b)) ++bad;
			total += n;
		}
		for (auto i = cc.begin(); i != cc.end(); ++i)
		{
			auto bk = cc.bucket(keyof(i));
			if (bk >= cc.bucket_count()) ++bad;
			auto p = where.find(addr(i));
			if (p == where.end() || p->second != long(bk)) ++bad;
#if POL >= 0
			if (cc.bucket(View{key_at(keyof(i), 0).v}) != bk) ++bad;
#endif
		}
		R = {total, bad};
	}
#endif
	else if (op == "ali") // arguments that refer to the container's own elements
	{
		c = l.i(); int var = l.i(), i = l.i(), k = l.i(); C &cc = at(c);
		const size_t p = pos_of(cc, i); X = {var, long(p) + 1, k};
		auto it = nth(cc, p);
		El e = read(it);
		const auto cd = std::exchange(w().countdown, 0);
		const size_t before = cc.size();
		long idx = -5;
#if !MULTI
		{
			const Key nkey(k);
			w().countdown = cd;
#if KIND_MAP
			Val &ref = it->second;
			const Key &kref = it->first;
			switch (var)
			{
				case 0: idx = index_of(cc, cc.try_emplace(nkey, ref).first); break;
				case 1: idx = index_of(cc, cc.emplace(nkey, ref).first); break;
				case 2: idx = index_of(cc, cc.insert_or_assign(nkey, ref).first); break;
				case 3: idx = index_of(cc, cc.emplace_or_replace(nkey, ref).first); break;
				case 4: idx = index_of(cc, cc.insert_or_assign(kref, ref).first); break; // self-assignment of a value
				case 5: idx = index_of(cc, cc.emplace_or_replace(kref, ref).first); break;
				case 6: idx = index_of(cc, cc.try_emplace(kref, ref).first); break;
				default: fprintf(stderr, "script error: ali\n"); exit(99);
			}
#else
			const Key &kref = *it;
			switch (var)
			{
				case 0: idx = index_of(cc, cc.insert(kref).first); break;
				case 1: idx = index_of(cc, cc.emplace(kref).first); break;
				default: fprintf(stderr, "script error: ali\n"); exit(99);
			}
#endif
		}
#else
		{
			w().countdown = cd;
#if KIND_MAP
			Val &ref = it->second;
			El f; for (int j = 0; j < nk; ++j) f.k[j] = k;
			const KT nkeys = mk(f);
			if (var == 0) idx = index_of(cc, cc.try_emplace(nkeys, ref).first); else idx = index_of(cc, cc.emplace(nkeys, ref).first);
#else
			const Key &kref = key_at(*it, 0);
			// the tuple's first component aliases; the others are fresh
#if NK == 2
			const Key nkey(k);
			(void) var;
			idx = index_of(cc, cc.emplace(nkey, kref).first);
#else
			const Key nkey(k);
			idx = index_of(cc, cc.emplace(nkey, nkey, kref).first);
#endif
#endif
		}
#endif
		(void) e;
		R = {cc.size() > before, idx};
	}
	else if (op == "bulk") // insert keys lo..hi-1 (value = key + 1) without logging each; or erase them
	{
		c = l.i(); int lo = l.i(), hi = l.i(), step = l.i(), er = l.i(); C &cc = at(c); X = {lo, hi, step, er};
		long n = 0;
		for (int k = lo; k < hi; k += step)
		{
			El e; for (int j = 0; j < nk; ++j) e.k[j] = k; e.v = is_map ? k + 1 : 0;
			const size_t b = cc.size();
			if (!er) cc.insert(mkins(e));
			else { const Key key(k); if constexpr (multi) cc.template erase<nk - 1>(key); else cc.erase(key); }
			n += cc.size() != b;
		}
		R = {n};
	}
	else if (op == "seq") // v > 0: insert key v - 1 (single key, v > 100000: in front), v < 0: erase key -v - 1, 0: clear; reports the size after each
	{
		c = l.i(); int n = l.i(); C &cc = at(c); X.clear(); R.clear();
		for (int i = 0; i < n; ++i) X.push_back(l.i());
		for (const long v : X)
		{
			if (!v) cc.clear();
			else if (v < 0) // with several keys: key + 100 * component
			{
				if constexpr (multi)
				{
					const Key key(int((-v - 1) % 100));
					switch ((-v - 1) / 100) { case 0: cc.template erase<0>(key); break; case 1: cc.template erase<1>(key); break; default: cc.template erase<nk - 1>(key); }
				}
				else { const Key key(int(-v - 1)); cc.erase(key); }
			}
			else if constexpr (multi) // key0 + 100 * key1 + 10000 * key2
			{
				El e; int k = int(v - 1);
				for (int j = 0; j < nk; ++j, k /= 100) e.k[j] = k % 100;
				e.v = is_map ? e.k[0] % 90 + 1 : 0;
				cc.insert(mkins(e));
			}
			else
			{
				const int k = int((v - 1) % 100000);
				El e; for (int j = 0; j < nk; ++j) e.k[j] = k; e.v = is_map ? k % 90 + 1 : 0;
				if (v > 100000) cc.insert(cc.cend(), mkins(e)); else cc.insert(mkins(e));
			}
			R.push_back(long(cc.size()));
		}
	}
	else { fprintf(stderr, "script error: unknown operation %s\n", op.c_str()); exit(99); }
	return true;
}

extern "C" void on_alarm(int) { static const char m[] = "\nHANG\n"; (void) !write(2, m, sizeof m - 1); _exit(98); }
void arm_timer()
{
	itimerval t{}; t.it_value.tv_sec = 20; // CPU seconds per operation
	setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

int main(int argc, char **argv)
{
	long skip = argc > 1 ? atol(argv[1]) : 0; // number of scripts to skip (resume after a crash)
	signal(SIGVTALRM, on_alarm);
	std::string ln;
	bool active = false;
	long seen = 0;
	while (std::getline(std::cin, ln))
	{
		if (ln.empty() || ln[0] == '#') continue;
		Line l(ln);
		std::string op = l.s();
		if (op == "begin") { active = ++seen > skip; if (active) { arm_timer(); begin_script(l); } continue; }
		if (!active) continue;
		if (op == "hash") { int m = l.i(), k = l.i(); w().hash[m][k] = std::stoull(l.s(), nullptr, 0); continue; }
		if (op == "end")
		{
			arm_timer();
			note("end", 0);
			X.clear(); XE.clear(); R.clear();
#if KIND_STABLE
			for (auto &n: N) n.reset();
#endif
			for (auto &s: S) s.reset();
			base_copies = w().copies;
			emit("end", 0, 0, 0);
			active = false;
			continue;
		}
		int thr = 0;
		if (op == "thr") { thr = l.i(); op = l.s(); }
		const auto rest = ln.substr(ln.find(op) + op.size());
		for (int n = 1;; ++n)
		{
			arm_timer();
			int c = -1, d = -1;
			X.clear(); XE.clear(); R.clear();
			note(op, 0);
			Line l2(rest);
			base_copies = w().copies;
			int thrown = 0;
			bool done = false;
			w().fired = false;
			w().countdown = thr ? (thr < 0 ? n : thr) : 0;
			try { done = exec<C>(op, l2, c, d); }
			catch (const Injected &) { thrown = 1; done = true; }
			catch (const Skip &) { w().countdown = 0; break; }
			w().countdown = 0;
			if (thrown == 0 && w().fired) thrown = 2; // the exception was swallowed
			if (done) emit(op, c, d, thrown);
			if (thr >= 0 || thrown != 1 || n >= 400) break;
		}
	}
	return 0;
}
