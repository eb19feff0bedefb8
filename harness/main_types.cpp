// Plain workloads with element types of many sizes, alignments and value categories and the standard functors and allocators, for the sanitizers;
// the model is a flat table. Header-only dependencies, so that it can run under MemorySanitizer as well (-DPLAIN: no strings).
// -DOWNALLOC=traits: with allocators that keep record of their blocks and objects instead.
//   PART   0 sparse, 1 ordered sparse, 2 stable, 3 ordered stable, 4 dense, 5 ordered dense, 6 multi-key
#include "common.hpp"
#include <string>
#include <cstddef>
#include <tpp/sparse_set.hpp>
#include <tpp/sparse_map.hpp>
#include <tpp/stable_set.hpp>
#include <tpp/stable_map.hpp>
#include <tpp/dense_set.hpp>
#include <tpp/dense_map.hpp>
#include <tpp/dense_multiset.hpp>
#include <tpp/dense_multimap.hpp>

// ---------------------------------------------------------------- element types
template<std::size_t Size, std::size_t Align>
struct alignas(Align) Blob
{
	unsigned char data[Size];
	Blob() : Blob(0) {}
	explicit Blob(int i)
	{
		check();
		for (std::size_t j = 0; j < Size; ++j) data[j] = static_cast<unsigned char>(j < 2 ? i >> (8 * j) : (unsigned(i) * 31 + j));
	}
	Blob(const Blob &o) { check(); o.check(); std::memcpy(data, o.data, Size); }
	Blob &operator=(const Blob &o) { check(); o.check(); std::memmove(data, o.data, Size); return *this; }
	void check() const { REQ("alignment", reinterpret_cast<std::uintptr_t>(this) % Align == 0, "object of alignment %zu at %p", Align, (const void *) this); }
	int id() const
	{
		check();
		const int i = Size >= 2 ? data[0] | data[1 % Size] << 8 : data[0];
		for (std::size_t j = 2; j < Size; ++j) REQ("memory", data[j] == static_cast<unsigned char>(unsigned(i) * 31 + j), "object %d is corrupted at byte %zu", i, j);
		return i;
	}
	bool operator==(const Blob &o) const { return id() == o.id(); }
};
struct Boxed // owns heap memory, cannot be copied
{
	std::unique_ptr<int> p;
	Boxed() : p(new int(0)) {}
	explicit Boxed(int i) : p(new int(i)) {}
	Boxed(Boxed &&) = default;
	Boxed &operator=(Boxed &&) = default;
	int id() const { REQ("lifetime", p != nullptr, "moved-from object is used"); return *p; }
	bool operator==(const Boxed &o) const { return id() == o.id(); }
};
struct Sealed // cannot be assigned
{
	const int i, j;
	Sealed() : Sealed(0) {}
	explicit Sealed(int i) : i(i), j(~i) {}
	Sealed(const Sealed &) = default;
	int id() const { REQ("lifetime", j == ~i, "object is not alive"); return i; }
	bool operator==(const Sealed &o) const { return id() == o.id(); }
};
#ifndef PLAIN
static std::unordered_set<const void *> g_objects;
struct Counted // knows all of its objects
{
	int i;
	Counted() : Counted(0) {}
	explicit Counted(int i) : i(i) { born(); }
	Counted(const Counted &o) : i(o.id()) { born(); }
	Counted(Counted &&o) noexcept : i(o.id()) { o.i = -1; born(); }
	Counted &operator=(const Counted &o) { (void) here(), i = o.here().i; return *this; }
	Counted &operator=(Counted &&o) noexcept { const int n = o.here().i; o.i = -1; (void) here(), i = n; return *this; }
	~Counted() { REQ("lifetime", g_objects.erase(this) == 1, "object is destroyed twice or was never constructed"); }
	void born() { REQ("lifetime", g_objects.insert(this).second, "object is constructed over another one"); ++W.ctor; }
	const Counted &here() const { REQ("lifetime", g_objects.count(this) == 1, "object is used outside of its lifetime"); return *this; }
	int id() const { REQ("lifetime", here().i >= 0, "moved-from object is used"); return i; }
	bool operator==(const Counted &o) const { return id() == o.id(); }
};
struct Fixed : Counted // can be neither assigned nor moved
{
	using Counted::Counted;
	Fixed(const Fixed &) = delete;
	Fixed &operator=(const Fixed &) = delete;
};
template<> struct std::hash<Counted> { std::size_t operator()(const Counted &c) const { return mix64(u64(c.id())); } };
#endif
struct FinalHash final { u64 mask = 7; std::size_t operator()(const int &i) const { return mix64(u64(i) & ~mask); } };
struct FinalEqual final { bool operator()(const int &a, const int &b) const { return a == b; } };
struct Nothing { bool operator==(const Nothing &) const { return true; } };

template<typename T> struct Gen
{
	static T make(int i) { return T(i); }
	static int id(const T &t) { return t.id(); }
};
template<> struct Gen<Nothing> { static Nothing make(int) { return {}; } static int id(const Nothing &) { return 0; } };
template<> struct Gen<unsigned char> { static unsigned char make(int i) { return static_cast<unsigned char>(i); } static int id(unsigned char c) { return c; } };
template<> struct Gen<int> { static int make(int i) { return i * 7919 - 100; } static int id(int i) { return (i + 100) / 7919; } };
template<> struct Gen<long> { static long make(int i) { return long(i) << 33; } static int id(long i) { return int(i >> 33); } };
template<> struct Gen<double> { static double make(int i) { return i / 8.0; } static int id(double d) { return int(d * 8); } };
template<> struct Gen<const int *> { static inline const int base[1024] = {}; static const int *make(int i) { return base + i; } static int id(const int *p) { return int(p - base); } };
#ifndef PLAIN
template<> struct Gen<std::string>
{
	static std::string make(int i) { std::string s = std::to_string(i); return i % 2 ? s : std::string(40, 'x') + s; }
	static int id(const std::string &s) { return std::atoi(s.c_str() + (s.size() > 40 ? 40 : 0)); }
};
template<> struct Gen<std::shared_ptr<int>> { static std::shared_ptr<int> make(int i) { return std::make_shared<int>(i); } static int id(const std::shared_ptr<int> &p) { return *p; } };
template<> struct Gen<std::vector<int>> { static std::vector<int> make(int i) { return std::vector<int>(std::size_t(i % 5), i); } static int id(const std::vector<int> &v) { return v.empty() ? -1 : v[0]; } };
#endif
template<std::size_t S, std::size_t A> struct std::hash<Blob<S, A>> { std::size_t operator()(const Blob<S, A> &b) const { return std::hash<int>{}(b.id()); } };
template<> struct std::hash<Sealed> { std::size_t operator()(const Sealed &b) const { return mix64(u64(b.id())); } };
template<> struct std::hash<Boxed> { std::size_t operator()(const Boxed &b) const { return mix64(u64(b.id())); } };

template<typename T> struct gen_max { static constexpr int value = 600; };
template<> struct gen_max<unsigned char> { static constexpr int value = 256; };
template<> struct gen_max<Blob<1, 1>> { static constexpr int value = 256; };

template<typename C, typename = void> struct mapped_of { using type = void; };
template<typename C> struct mapped_of<C, std::void_t<typename C::mapped_type>> { using type = typename C::mapped_type; };
template<typename C, typename = void> struct has_nodes : std::false_type {};
template<typename C> struct has_nodes<C, std::void_t<typename C::node_type>> : std::true_type {};
template<typename C, typename = void> struct is_dense : std::false_type {};
template<typename C> struct is_dense<C, std::void_t<typename C::local_iterator>> : std::true_type {};
template<typename C, typename = void> struct is_ordered : std::false_type {};
template<typename C> struct is_ordered<C, std::void_t<decltype(std::declval<const C &>().front())>> : std::true_type {};

// Elements are created and destroyed by the allocators that do so themselves.
static void made_by_allocator([[maybe_unused]] const void *p)
{
#ifdef OWNALLOC
	REQ("alloc", !(OWNALLOC & A_CREATES) || W.built.count(p), "element was not created by the allocator");
#endif
}
static void made_by_allocator([[maybe_unused]] std::size_t n)
{
#ifdef OWNALLOC
	REQ("alloc", !(OWNALLOC & A_CREATES) || W.built.size() == n, "allocators have created %zu objects, and not destroyed them, for %zu elements", W.built.size(), n);
#endif
}
static void all_returned()
{
#ifdef OWNALLOC
	REQ("alloc", W.blocks.empty() && W.built.empty(), "%zu blocks and %zu objects are not returned to the allocator", W.blocks.size(), W.built.size());
#endif
}

template<typename C>
struct Types
{
	using K = typename C::key_type;
	using M = typename mapped_of<C>::type;
	static constexpr bool map = !std::is_void_v<M>;
	static constexpr bool stable = has_nodes<C>::value;
	static constexpr bool dense = is_dense<C>::value;
	static constexpr bool ordered = is_ordered<C>::value;
	using MM = std::conditional_t<map, M, Nothing>;
	static constexpr bool copyable = std::is_copy_constructible_v<K> && std::is_copy_constructible_v<MM>;
	using GK = Gen<K>;
	using GM = Gen<MM>;

	Rng r;
	C c, d;
	int range;
	std::vector<int> in, val; // membership and value (as produced by the generator) by key
	std::vector<const void *> at;  // address by key (stable containers), if known
	std::vector<u64> seq;          // position by key (ordered containers)
	std::vector<int> fresh;        // keys whose address is not known yet
	u64 next_seq = 1;
	std::size_t n = 0;
	explicit Types(u64 seed) : r(seed), range(1 + int(r.below(unsigned(r.chance(1, 2) ? 40 : gen_max<K>::value)))), in(std::size_t(range)), val(std::size_t(range)), at(std::size_t(range)), seq(std::size_t(range)) {}

	template<typename R> static const K &key(const R &x) { if constexpr (map) return x.first; else return x; }
	template<typename R> static int mapped(const R &x) { if constexpr (map) return GM::id(x.second); else return 0; }
	int gv() { return map ? int(r.below(250)) : 0; }
	static int norm(int v) { if constexpr (map) { const auto m = GM::make(v); return GM::id(m); } else return 0; }
	int pick() { return int(r.below(unsigned(range))); }
	int present()
	{
		if (!n) return -1;
		int i = pick();
		while (!in[std::size_t(i)]) i = (i + 1) % range;
		return i;
	}
	int absent()
	{
		if (n == std::size_t(range)) return -1;
		int i = pick();
		while (in[std::size_t(i)]) i = (i + 1) % range;
		return i;
	}
	void put(int i, int v) { if (!in[std::size_t(i)]) in[std::size_t(i)] = 1, ++n, val[std::size_t(i)] = v, at[std::size_t(i)] = nullptr, seq[std::size_t(i)] = next_seq++, fresh.push_back(i); }
	void drop(int i) { if (in[std::size_t(i)]) in[std::size_t(i)] = 0, --n; }
	void none() { std::fill(in.begin(), in.end(), 0); n = 0; }

	// Elements were replaced: learn their addresses and positions again.
	void renew()
	{
		for (const auto &x: std::as_const(c)) { const auto i = std::size_t(GK::id(key(x))); at[i] = &key(x); seq[i] = next_seq++; }
		fresh.clear();
	}
	void renew_order() { if constexpr (ordered) for (const auto &x: std::as_const(c)) seq[std::size_t(GK::id(key(x)))] = next_seq++; }
	void learn()
	{
		if constexpr (stable)
			for (int i: fresh) if (in[std::size_t(i)]) { const auto it = std::as_const(c).find(GK::make(i)); REQ("value", it != c.cend(), "%d is not found", i); at[std::size_t(i)] = &key(*it); }
		fresh.clear();
	}
	// Few elements at a time, many insertions and erasures: entries of erased elements have to be reclaimed.
	void churn()
	{
		std::vector<int> live;
		for (int j = 0; j < range; ++j) if (in[std::size_t(j)]) live.push_back(j);
		const std::size_t limit = std::min<std::size_t>(1 + r.below(r.chance(1, 2) ? 24u : 100u), std::size_t(range) - 1), steps = 50 + r.below(400);
		std::size_t oldest = 0;
		for (std::size_t j = 0; j < steps; ++j)
		{
			while (n > limit)
			{
				const int k = live[oldest++];
				(void) c.erase(GK::make(k));
				drop(k);
			}
			const int i = absent(), v = gv();
			if (i < 0) break;
			REQ("value", c.insert(value(i, v)).second, "insertion of %d fails", i);
			put(i, norm(v)), learn(), live.push_back(i);
			if (j % 64 == 63) check();
		}
		feature("churn");
	}

	void check()
	{
		++S.checks;
		const C &cc = c;
		u64 last = 0;
		learn();
		REQ("value", cc.size() == n && cc.empty() == !n, "size is %zu, expected %zu", std::size_t(cc.size()), n);
		std::size_t seen = 0;
		for (const auto &x: cc)
		{
			const int i = GK::id(key(x));
			REQ("value", i >= 0 && i < range && in[std::size_t(i)], "element %d is not expected", i);
			REQ("value", mapped(x) == val[std::size_t(i)], "value of %d is %d, expected %d", i, mapped(x), val[std::size_t(i)]);
			made_by_allocator(&key(x));
			if constexpr (stable) REQ("stability", at[std::size_t(i)] == &key(x), "element %d has moved from %p to %p", i, at[std::size_t(i)], (const void *) &key(x));
			if constexpr (ordered) { REQ("order", seq[std::size_t(i)] > last, "element %d is out of order", i); last = seq[std::size_t(i)]; }
			++seen;
		}
		REQ("value", seen == n, "traversal visits %zu of %zu elements", seen, n);
		S.elements += long(n);
		for (int i = 0; i < range; i += 1 + int(r.below(4)))
		{
			const auto k = GK::make(i);
			const bool has = in[std::size_t(i)];
			REQ("value", cc.contains(k) == has && (cc.find(k) != cc.end()) == has && (c.find(k) != c.end()) == has, "membership of %d", i);
			if (has) REQ("value", GK::id(key(*cc.find(k))) == i && mapped(*c.find(k)) == val[std::size_t(i)], "find of %d", i);
			if constexpr (map)
			{
				if (has) REQ("value", GM::id(cc.at(k)) == val[std::size_t(i)] && GM::id(c.at(k)) == val[std::size_t(i)], "at(%d)", i);
				else { bool t = false; try { (void) cc.at(k); } catch (const std::out_of_range &) { t = true; } REQ("value", t, "at(%d) does not throw", i); }
			}
			if constexpr (dense) if (cc.bucket_count()) { bool f = false; const auto b = cc.bucket(k); for (auto j = cc.begin(b); j != cc.end(b); ++j) f |= GK::id(key(*j)) == i; REQ("value", f == has, "bucket of %d", i); }
		}
		if constexpr (ordered && !dense)
		{
			std::size_t back = 0;
			for (auto i = cc.end(); i != cc.begin();) ++back, (void) GK::id(key(*--i));
			REQ("value", back == n, "backward traversal visits %zu of %zu elements", back, n);
		}
		if constexpr (dense)
		{
			std::size_t back = 0;
			for (auto i = cc.rbegin(); i != cc.rend(); ++i) ++back, (void) GK::id(key(*i));
			REQ("value", back == n, "reverse traversal visits %zu of %zu elements", back, n);
		}
		if constexpr (ordered) if (n) REQ("value", GK::id(key(cc.front())) == GK::id(key(*cc.begin())) && GK::id(key(cc.back())) == GK::id(key(*--cc.end())), "front or back");
	}
	auto value(int i, int v) { if constexpr (map) return std::pair<K, M>(GK::make(i), GM::make(v)); else return (void) v, GK::make(i); }
	void fill_up()
	{
		while (c.size() < c.capacity() && c.capacity() - c.size() < 300 && n < std::size_t(range)) { const int i = absent(), v = gv(); c.insert(value(i, v)); put(i, norm(v)); }
	}
	void step()
	{
		const int i = r.chance(1, 3) && n ? present() : pick();
		const int v = gv(), nv = norm(v);
		const auto op = r.below(44);
		g_log.add("op", op, i, v);
		++S.ops;
		const bool was = in[std::size_t(i)];
		bool did = !was;
		switch (op)
		{
			case 0: case 1: case 2: did = c.insert(value(i, v)).second; put(i, nv); break;
			case 3: c.insert(n ? c.cbegin() : c.cend(), value(i, v)); put(i, nv); renew_order(); break;
			case 4: if constexpr (copyable) { const auto x = value(i, v); did = c.insert(x).second; put(i, nv); } break;
			case 5: case 6: if constexpr (map) did = c.emplace(GK::make(i), GM::make(v)).second; else did = c.emplace(GK::make(i)).second; put(i, nv); break;
			case 7: if constexpr (map) c.emplace_hint(c.cend(), GK::make(i), GM::make(v)); else c.emplace_hint(c.cend(), GK::make(i)); put(i, nv); renew_order(); break;
			case 8: if constexpr (map) { did = c.try_emplace(GK::make(i), GM::make(v)).second; put(i, nv); } break;
			case 9: if constexpr (map) { did = c.insert_or_assign(GK::make(i), GM::make(v)).second; put(i, nv); val[std::size_t(i)] = nv; } break;
			case 10: if constexpr (map) { did = c.emplace_or_replace(GK::make(i), GM::make(v)).second; put(i, nv); val[std::size_t(i)] = nv; } break;
			case 11: case 12: if constexpr (map && std::is_move_assignable_v<MM>) { c[GK::make(i)] = GM::make(v); put(i, nv); val[std::size_t(i)] = nv; } break;
			case 13: case 14: { (void) c.erase(GK::make(i)); drop(i); break; }
			case 15: if (n) { const int p = present(); c.erase(c.find(GK::make(p))); drop(p); } break;
			case 16:
			{
				const auto a = r.below(unsigned(n) + 1), b = a + r.below(unsigned(n) - a + 1);
				const auto first = std::next(c.cbegin(), a), last = std::next(first, b - a);
				for (auto j = first; j != last; ++j) drop(GK::id(key(*j)));
				c.erase(first, last);
				break;
			}
			case 17: { const auto m = 2 + r.below(4); erase_if(c, [&](const auto &x) { const int k = GK::id(key(x)); if (unsigned(k) % m == 0) { drop(k); return true; } return false; }); break; }
			case 18: for (auto j = c.begin(); j != c.end();) if (r.chance(1, 3)) drop(GK::id(key(*j))), j = c.erase(j); else ++j; break;
			case 19: if (r.chance(1, 3)) { c.clear(); none(); } break;
			case 20: c.reserve(r.below(unsigned(range) * 2)); break;
			case 21: c.rehash(r.below(unsigned(range) * 2)); break;
			case 22: c.rehash(0); break;
			case 23: if constexpr (copyable) { C e(c); REQ("value", e == c, "copy differs"); c = std::move(e); renew(); } break;
			case 24: if constexpr (copyable) { d = c; REQ("value", d == c, "copy differs"); using std::swap; swap(c, d); renew(); } break;
			case 25: { C e(std::move(c)); c = std::move(e); break; }
			case 26: { C e; e.swap(c); c = std::move(e); break; }
			case 27: if constexpr (copyable) { C e; e = c; d = std::move(e); REQ("value", d == c && !(d != c), "copy differs"); } break;
			case 28: fill_up(); break;
			case 29: case 30: // own elements as arguments, at the point of growth
				if constexpr (copyable)
				{
					fill_up();
					const int p = present(), q = absent();
					if (p < 0 || q < 0) break;
					auto it = c.find(GK::make(p));
					if constexpr (map)
					{
						const int pv = val[std::size_t(p)];
						switch (r.below(5))
						{
							case 0: c.try_emplace(GK::make(q), it->second); break;
							case 1: c.insert_or_assign(GK::make(q), it->second); break;
							case 2: c.emplace(GK::make(q), it->second); break;
							case 3: c.emplace_or_replace(GK::make(q), it->second); break;
							default: c.insert(c.cbegin(), std::pair<K, M>(GK::make(q), it->second)); break;
						}
						put(q, pv);
						renew_order();
						it = c.find(GK::make(p));
						c.insert_or_assign(it->first, it->second);
						c.emplace_or_replace(it->first, it->second);
						c.try_emplace(it->first, it->second);
					} else
					{
						REQ("value", !c.insert(*it).second && !c.emplace(*it).second, "own element is inserted again");
					}
				}
				break;
			case 31: if (n) { const int p = present(); const auto it = c.find(GK::make(p)); (void) c.erase(key(*it)); drop(p); } break;
			case 32:
				if constexpr (stable)
				{
					if (!n) break;
					const int p = present();
					auto h = c.extract(GK::make(p));
					REQ("value", bool(h) && !c.contains(GK::make(p)), "extract fails");
					if (r.chance(1, 2)) { auto res = c.insert(std::move(h)); REQ("value", res.inserted, "node insertion fails"); seq[std::size_t(p)] = next_seq++; }
					else drop(p);
				}
				break;
			case 33:
				if constexpr (stable)
				{
					const bool alone = d.empty();
					d.merge(c); // and back
					const auto left = c.size();
					REQ("value", left + d.size() >= n, "merge loses elements");
					if (!alone) c.clear(), none();
					if (!alone) for (auto &x: d) put(GK::id(key(x)), mapped(x));
					c.merge(d);
					REQ("value", d.empty(), "merge into an empty container leaves elements");
					if (alone) renew_order(); else renew();
				}
				break;
			case 34:
			{
				std::vector<decltype(value(0, 0))> items;
				const auto m = r.below(30);
				for (unsigned j = 0; j < m; ++j) { const int p = pick(), w = gv(); items.push_back(value(p, w)); put(p, norm(w)); }
				c.insert(std::make_move_iterator(items.begin()), std::make_move_iterator(items.end()));
				break;
			}
			case 35: if constexpr (copyable && !map) { c.insert({GK::make(i), GK::make(0), GK::make(i)}); put(i, 0); put(0, 0); } break;
			case 36: if constexpr (dense) { static const float f[] = {.3f, .875f, 1.f, 4.f}; c.max_load_factor(f[r.below(4)]); } break;
			case 37: if constexpr (ordered) { if (!n) break; const int p = GK::id(key(c.front())), q = GK::id(key(c.back())); (void) c.erase(c.begin()); drop(p); if (p != q) { c.erase(--c.end()); drop(q); } } break;
			case 38: { C e(r.below(100)); e = std::move(c); c.swap(e); break; }
			case 39: if (r.chance(1, 6)) churn(); break;
			default: check();
		}
		learn();
		if (op < 9 && op != 3 && op != 7 && (op != 4 || copyable) && (op != 8 || map)) REQ("value", did == !was, "insertion %u of %d reports %d", op, i, int(did));
		REQ("value", c.size() == n, "size is %zu, expected %zu", std::size_t(c.size()), n);
	}
	static void run(const char *name, u64 seed)
	{
		g_kind = name;
		{
		Types t(seed);
		const int ops = 60 + int(t.r.below(160));
		for (int i = 0; i < ops; ++i) t.step(), made_by_allocator(t.c.size() + t.d.size());
		t.check();
#ifndef PLAIN
		const std::size_t per = std::is_same_v<K, Counted> + std::is_same_v<MM, Counted>;
		REQ("lifetime", g_objects.size() == per * (t.c.size() + t.d.size()), "%zu objects are alive for %zu elements", g_objects.size(), std::size_t(t.c.size() + t.d.size()));
		t.c.clear(), t.d.clear();
		REQ("lifetime", g_objects.empty(), "%zu objects are alive in empty containers", g_objects.size());
#endif
		}
		all_returned();
		++S.cases;
		S.digests.insert(mix64(seed));
		feature(name);
	}
};
#if !defined(OWNALLOC)
#define ALWAYS_EQUAL true
#else
#define ALWAYS_EQUAL ((OWNALLOC & A_EQUAL) != 0)
#endif
#if !defined(PLAIN) && (PART == 2 || PART == 3)
// Objects that stay where they are created: created in place, erased, replaced by ones that are created in place, and moved with their nodes.
template<typename C>
struct FixedObjects
{
	static void run(const char *name, u64 seed)
	{
		g_kind = name;
		Rng r(seed);
		{
			C c, d;
			std::map<int, std::pair<const Fixed *, int>> m;
			const int range = 1 + int(r.below(80)), ops = 60 + int(r.below(160));
			for (int n = 0; n < ops; ++n)
			{
				const int i = int(r.below(unsigned(range))), v = int(r.below(1000));
				const auto op = r.below(18);
				g_log.add("op", op, i, v);
				++S.ops;
				const bool was = m.count(i);
				const auto added = [&](const std::pair<typename C::iterator, bool> &res, bool replace)
				{
					REQ("value", res.second == !was && res.first->first == i, "insertion %u of %d reports %d", op, i, int(res.second));
					if (was) REQ("stability", &res.first->second == m[i].first, "object of %d is moved", i);
					if (!was || replace) m[i] = {&res.first->second, v};
					REQ("value", res.first->second.id() == m[i].second, "object of %d is %d, expected %d", i, res.first->second.id(), m[i].second);
				};
				switch (op)
				{
					case 0: case 1: case 2: added(c.try_emplace(i, v), false); break;
					case 3: case 4: added(c.emplace_or_replace(i, v), true); break;
					case 5: case 6: added(c.insert_or_assign(i, v), true); break;
					case 7: added(c.emplace(std::piecewise_construct, std::forward_as_tuple(i), std::forward_as_tuple(v)), false); break;
					case 8: { auto &x = c[i]; if (!was) m[i] = {&x, 0}; break; }
					case 9: case 10: (void) c.erase(i); m.erase(i); break;
					case 11: if (auto h = c.extract(i)) { REQ("stability", &h.mapped() == m[i].first, "object of %d is moved by its extraction", i); if (r.chance(1, 2)) c.insert(std::move(h)); else m.erase(i); } break;
					case 12: c.rehash(r.below(100)); break;
					case 13: { C e(std::move(c)); d = std::move(e); using std::swap; swap(c, d); break; }
					case 14: d.clear(); d.merge(c); c.merge(d); break;
					case 15: if (r.chance(1, 4)) c.clear(), m.clear(); break;
					case 16: c.reserve(r.below(100)); break;
					default: erase_if(c, [&](const auto &x) { return x.first % 5 == 1 && m.erase(x.first); });
				}
				REQ("value", c.size() == m.size() && g_objects.size() == m.size() + d.size(), "size is %zu, expected %zu; %zu objects", std::size_t(c.size()), m.size(), g_objects.size());
				if (n % 8 == 0 || n == ops - 1)
				{
					++S.checks;
					for (auto &x: std::as_const(c))
					{
						made_by_allocator(&x);
						REQ("stability", m.count(x.first) && &x.second == m[x.first].first && x.second.id() == m[x.first].second, "object of %d", x.first);
					}
					for (auto &x: m) REQ("value", c.contains(x.first) && &c.at(x.first) == x.second.first, "find of %d", x.first);
				}
			}
		}
		REQ("lifetime", g_objects.empty(), "%zu objects are alive", g_objects.size());
		all_returned();
		++S.cases;
		S.digests.insert(mix64(seed));
		feature(name);
	}
};
#endif
#define RUN(...) if (pick++ == which) Types<__VA_ARGS__>::run(#__VA_ARGS__, seed)

#if PART == 6
template<typename C, typename K0, typename K1, typename M>
struct Multi
{
	static void run(const char *name, u64 seed)
	{
		g_kind = name;
		{
		Rng r(seed);
		C c;
		const int range = 2 + int(r.below(60));
		std::vector<int> a(std::size_t(range), -1), b(std::size_t(range), -1); // by first key: the second; by second: the first
		std::size_t n = 0;
		const auto check = [&]
		{
			++S.checks;
			REQ("value", c.size() == n, "size is %zu, expected %zu", std::size_t(c.size()), n);
			std::size_t seen = 0;
			for (const auto &x: std::as_const(c))
			{
				int i, j;
				if constexpr (!std::is_void_v<M>) { i = Gen<K0>::id(std::get<0>(x.first)), j = Gen<K1>::id(std::get<1>(x.first)); REQ("value", Gen<M>::id(x.second) == i % 250, "mapped value is wrong"); }
				else i = Gen<K0>::id(std::get<0>(x)), j = Gen<K1>::id(std::get<1>(x));
				if constexpr (std::is_void_v<M>) made_by_allocator(&x); else made_by_allocator(&x.first);
				REQ("value", a[std::size_t(i)] == j && b[std::size_t(j)] == i, "entry %d/%d is not expected", i, j);
				++seen;
			}
			REQ("value", seen == n, "traversal visits %zu of %zu entries", seen, n);
			for (int i = 0; i < range; ++i)
			{
				REQ("value", c.template contains<0>(Gen<K0>::make(i)) == (a[std::size_t(i)] >= 0), "first key %d", i);
				REQ("value", (c.template find<1>(Gen<K1>::make(i)) != c.end()) == (b[std::size_t(i)] >= 0), "second key %d", i);
			}
		};
		const int ops = 60 + int(r.below(160));
		for (int o = 0; o < ops; ++o)
		{
			const int i = int(r.below(unsigned(range))), j = int(r.below(unsigned(range)));
			++S.ops;
			const auto op = r.below(12);
			g_log.add("op", op, i, j);
			const bool fresh = a[std::size_t(i)] < 0 && b[std::size_t(j)] < 0;
			switch (op)
			{
				case 0: case 1: case 2: case 3:
				{
					bool did;
					std::tuple<K0, K1> k(Gen<K0>::make(i), Gen<K1>::make(j));
					if constexpr (std::is_void_v<M>) { if (op % 2) did = c.insert(std::move(k)).second; else did = c.emplace(Gen<K0>::make(i), Gen<K1>::make(j)).second; }
					else if (op == 0) did = c.try_emplace(std::move(k), Gen<M>::make(i % 250)).second;
					else did = c.emplace(std::move(k), Gen<M>::make(i % 250)).second;
					REQ("value", did == fresh, "insertion of %d/%d reports %d", i, j, int(did));
					if (fresh) a[std::size_t(i)] = j, b[std::size_t(j)] = i, ++n;
					break;
				}
				case 4: (void) c.template erase<0>(Gen<K0>::make(i)); if (a[std::size_t(i)] >= 0) b[std::size_t(a[std::size_t(i)])] = -1, a[std::size_t(i)] = -1, --n; break;
				case 5: (void) c.template erase<1>(Gen<K1>::make(j)); if (b[std::size_t(j)] >= 0) a[std::size_t(b[std::size_t(j)])] = -1, b[std::size_t(j)] = -1, --n; break;
				case 6: { auto it = c.template find<1>(Gen<K1>::make(j)); if (it != c.end()) { c.erase(it); a[std::size_t(b[std::size_t(j)])] = -1, b[std::size_t(j)] = -1, --n; } break; }
				case 7: c.rehash(r.below(100)); break;
				case 8: { C e(std::move(c)); C f; f = std::move(e); c.swap(f); break; }
				case 9: if constexpr (std::is_copy_constructible_v<K0> && std::is_copy_constructible_v<K1> && (std::is_void_v<M> || std::is_copy_constructible_v<M>)) { C e(c); REQ("value", e == c, "copy differs"); C f; f = e; c = std::move(f); } break;
				case 10: c.reserve(r.below(100)); break;
				default: check();
			}
		}
		check();
#ifndef PLAIN
		const std::size_t per = std::is_same_v<K0, Counted> + std::is_same_v<K1, Counted> + std::is_same_v<M, Counted>;
		REQ("lifetime", g_objects.size() == per * n, "%zu objects are alive for %zu elements", g_objects.size(), n);
		c.clear();
		REQ("lifetime", g_objects.empty(), "%zu objects are alive in an empty container", g_objects.size());
#endif
		made_by_allocator(std::size_t(c.size()));
		}
		all_returned();
		++S.cases;
		S.digests.insert(mix64(seed));
		feature(name);
	}
};
#ifdef OWNALLOC
#define MULTIMAP(M, ...) tpp::dense_multimap<__VA_ARGS__, M, tpp::_detail::multikey_hash<__VA_ARGS__>, tpp::_detail::multikey_eq<__VA_ARGS__>, TA<typename tpp::_detail::multikey_alloc<__VA_ARGS__, M>::type::value_type, OWNALLOC>>
#define MULTISET(...) tpp::dense_multiset<__VA_ARGS__, tpp::_detail::multikey_hash<__VA_ARGS__>, tpp::_detail::multikey_eq<__VA_ARGS__>, TA<typename tpp::_detail::multikey_alloc<__VA_ARGS__, void>::type::value_type, OWNALLOC>>
#else
#define MULTIMAP(M, ...) tpp::dense_multimap<__VA_ARGS__, M>
#define MULTISET(...) tpp::dense_multiset<__VA_ARGS__>
#endif
#define RUNM(K0, K1, M) if (pick++ == which) Multi<MULTIMAP(M, tpp::multikey<K0, K1>), K0, K1, M>::run("dense_multimap<" #K0 "," #K1 ">," #M, seed)
#define RUNS(K0, K1) if (pick++ == which) Multi<MULTISET(tpp::multikey<K0, K1>), K0, K1, void>::run("dense_multiset<" #K0 "," #K1 ">", seed)
#endif

#if PART == 0
#define SET tpp::sparse_set
#define MAP tpp::sparse_map
#elif PART == 1
#define SET tpp::ordered_sparse_set
#define MAP tpp::ordered_sparse_map
#elif PART == 2
#define SET tpp::stable_set
#define MAP tpp::stable_map
#elif PART == 3
#define SET tpp::ordered_stable_set
#define MAP tpp::ordered_stable_map
#elif PART == 4
#define SET tpp::dense_set
#define MAP tpp::dense_map
#elif PART == 5
#define SET tpp::ordered_dense_set
#define MAP tpp::ordered_dense_map
#endif
#if defined(OWNALLOC) && PART < 6
template<typename K, typename H = std::hash<K>, typename E = std::equal_to<K>>
using set_type = SET<K, H, E, TA<K, OWNALLOC>>;
template<typename K, typename M, typename H = std::hash<K>, typename E = std::equal_to<K>>
using map_type = MAP<K, M, H, E, TA<std::pair<std::conditional_t<PART == 2 || PART == 3, const K, K>, M>, OWNALLOC>>;
#undef SET
#undef MAP
#define SET set_type
#define MAP map_type
#endif
using Byte = Blob<1, 1>;
using Odd = Blob<3, 1>;
using Wide = Blob<64, 64>;
using Mid = Blob<32, 32>;
using Large = Blob<500, 4>;
#if !defined(PLAIN) && (PART == 2 || PART == 3)
template<bool B>
static void fixed_objects(std::bool_constant<B>, u64 seed)
{
	if constexpr (B) FixedObjects<MAP<int, Fixed, std::conditional_t<B, std::hash<int>, void>>>::run("objects that cannot be moved", seed);
	else Types<MAP<int, Counted>>::run("MAP<int, Counted>", seed);
}
#endif
static int run_one(int which, u64 seed)
{
	int pick = 0;
#if PART < 6
	RUN(SET<unsigned char>);
	RUN(SET<int>);
	RUN(SET<Odd>);
	RUN(SET<Wide>);
	RUN(SET<Boxed>);
	RUN(MAP<int, Large>);
	RUN(MAP<int, long, FinalHash, FinalEqual>);
	RUN(SET<int, FinalHash, FinalEqual>);
	RUN(MAP<Byte, Wide>);
	RUN(MAP<Mid, unsigned char>);
	RUN(MAP<long, Boxed>);
	RUN(MAP<Boxed, Odd>);
	RUN(MAP<double, Nothing>);
#if PART == 2 || PART == 3
	RUN(MAP<int, Sealed>);
	RUN(MAP<Sealed, Sealed>);
	RUN(SET<Sealed>);
#endif
	RUN(MAP<const int *, Mid>);
#ifndef PLAIN
#if PART == 2 || PART == 3
	// (elements of unequal allocators would have to be moved)
	if (pick++ == which) fixed_objects(std::bool_constant<ALWAYS_EQUAL>{}, seed);
#endif
	RUN(SET<Counted>);
	RUN(MAP<int, Counted>);
	RUN(MAP<Counted, long>);
	RUN(MAP<Counted, Counted>);
	RUN(SET<std::string>);
	RUN(MAP<std::string, std::string>);
	RUN(MAP<int, std::shared_ptr<int>>);
	RUN(MAP<Large, std::vector<int>>);
#endif
#else
	RUNS(int, long);
	RUNS(int, int);
	RUNS(Wide, unsigned char);
	RUNS(Boxed, Odd);
	RUNM(int, int, Large);
	RUNM(Byte, Mid, Wide);
	RUNM(long, Boxed, Boxed);
	RUNM(double, const int *, unsigned char);
#ifndef PLAIN
	RUNS(std::string, int);
	RUNS(int, Counted);
	RUNM(int, long, Counted);
	RUNM(Counted, int, Odd);
	RUNM(std::string, std::string, std::string);
#endif
#endif
	return pick;
}
int main(int argc, char **argv)
{
	if (argc < 5) return 3;
	g_profile = argv[1];
	g_seed = std::strtoull(argv[2], nullptr, 10);
	const long first = std::atol(argv[3]), count = std::atol(argv[4]);
	g_outfile = argc > 5 ? argv[5] : nullptr;
	install_death_callback();
	const int kinds = run_one(-1, 0);
	for (long i = first; i < first + count; ++i)
	{
		begin_case(i);
		run_one(int(i % kinds), mix64(g_seed * 1000003 + mix64(u64(i) * 16 + PART)));
	}
#ifndef PLAIN
	S.samples.push_back("last case: " + std::string(g_kind));
#endif
	write_stats();
	std::fflush(stdout);
	return 0;
}
