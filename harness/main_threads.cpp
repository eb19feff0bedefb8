// Concurrent use under ThreadSanitizer: several threads call the const operations of the same container and every result is compared with the model.
// Meanwhile each thread also works on a container of its own (often a copy it has just made), so that state shared behind the scenes shows up as well.
//   PART   0 sparse, 1 ordered sparse, 2 stable, 3 ordered stable, 4 dense, 5 ordered dense, 6 multi-key
#include "common.hpp"
#include <atomic>
#include <thread>
#include <string_view>
#include <tpp/sparse_set.hpp>
#include <tpp/sparse_map.hpp>
#include <tpp/stable_set.hpp>
#include <tpp/stable_map.hpp>
#include <tpp/dense_set.hpp>
#include <tpp/dense_map.hpp>
#include <tpp/dense_multiset.hpp>
#include <tpp/dense_multimap.hpp>

// All synchronisation of the harness is relaxed, so that it does not order the accesses of the threads.
static std::atomic<long> g_total{0};
static std::atomic<int> g_ready{0};
static std::atomic<int> g_reported{0};
#define TREQ(cond, ...) do { if (!(cond)) { if (!g_reported.exchange(1)) fail("value", __VA_ARGS__); for (;;) pause(); } } while (0)

struct SH // transparent functors of strings, weak on request
{
	using is_transparent = std::true_type;
	u64 mask = ~u64(0);
	std::size_t operator()(std::string_view s) const { return std::size_t(std::hash<std::string_view>{}(s) & mask); }
};
struct SE
{
	using is_transparent = std::true_type;
	bool operator()(std::string_view a, std::string_view b) const { return a == b; }
};
template<typename K> struct KeyOf;
template<> struct KeyOf<int>
{
	using hash = std::hash<int>;
	using eq = std::equal_to<int>;
	static int make(int i) { return i * 5 - 40; }
	static int id(int k) { return (k + 40) / 5; }
	static hash hasher(Rng &) { return {}; }
};
template<> struct KeyOf<std::string>
{
	using hash = SH;
	using eq = SE;
	static std::string make(int i) { return (i % 3 ? "" : "a rather long key that is allocated ") + std::to_string(i); }
	static int id(const std::string &s) { const auto p = s.rfind(' '); return std::atoi(s.c_str() + (p == s.npos ? 0 : p + 1)); }
	static SH hasher(Rng &r) { return SH{r.chance(1, 4) ? u64(0x80000000000000ff) : ~u64(0)}; }
};
static constexpr int RANGE = 300;

template<typename C, typename = void> struct mapped_of { using type = void; };
template<typename C> struct mapped_of<C, std::void_t<typename C::mapped_type>> { using type = typename C::mapped_type; };
template<typename C, typename = void> struct is_dense : std::false_type {};
template<typename C> struct is_dense<C, std::void_t<typename C::local_iterator>> : std::true_type {};
template<typename C, typename = void> struct is_ordered : std::false_type {};
template<typename C> struct is_ordered<C, std::void_t<decltype(std::declval<const C &>().front())>> : std::true_type {};

template<typename C>
struct Single
{
	using K = typename C::key_type;
	static constexpr bool map = !std::is_void_v<typename mapped_of<C>::type>;
	static constexpr bool dense = is_dense<C>::value, ordered = is_ordered<C>::value;
	using KO = KeyOf<K>;
	struct Model { std::vector<int> val = std::vector<int>(RANGE, -1); std::size_t n = 0; };
	template<typename R> static const K &key(const R &x) { if constexpr (map) return x.first; else return x; }
	template<typename R> static int mapped(const R &x) { if constexpr (map) return x.second; else return 0; }
	static void put(C &c, Model &m, int i, int v)
	{
		bool did;
		if constexpr (map) did = c.try_emplace(KO::make(i), v).second; else did = c.insert(KO::make(i)).second;
		TREQ(did == (m.val[std::size_t(i)] < 0), "insertion of %d reports %d", i, int(did));
		if (did) m.val[std::size_t(i)] = map ? v : 0, ++m.n;
	}
	static void drop(C &c, Model &m, int i)
	{
		const auto it = c.find(KO::make(i));
		TREQ((it != c.end()) == (m.val[std::size_t(i)] >= 0), "lookup of %d before erasing it", i);
		if (it != c.end()) c.erase(it), m.val[std::size_t(i)] = -1, --m.n;
	}
	static void mutate(C &c, Model &m, Rng &r, int ops)
	{
		while (ops--)
		{
			const int i = int(r.below(RANGE));
			switch (r.below(16))
			{
				case 0: c.reserve(r.below(400)); break;
				case 1: c.rehash(r.below(400)); break;
				case 2: if (r.chance(1, 10)) c.clear(), m = Model(); break;
				case 3: case 4: case 5: case 6: drop(c, m, i); break;
				case 7: for (int j = 0; j < 60; ++j) drop(c, m, int(r.below(RANGE))); break;
				case 8: for (int j = 0; j < 60; ++j) put(c, m, int(r.below(RANGE)), j); break;
				default: put(c, m, i, int(r.below(1000)));
			}
		}
	}
	static int at(const C &c, const K &k)
	{
		if constexpr (map) { try { return c.at(k); } catch (const std::out_of_range &) { return -1; } }
		else return c.contains(k) ? 0 : -1;
	}
	// one const operation
	static void look(const C &c, const C &other, bool same, const Model &m, Rng &r)
	{
		const int i = int(r.below(RANGE)), v = m.val[std::size_t(i)];
		const K k = KO::make(i);
		switch (r.below(18))
		{
			case 0: case 1: TREQ(c.contains(k) == (v >= 0), "contains(%d)", i); break;
			case 2: case 3: { const auto it = c.find(k); TREQ((it != c.end()) == (v >= 0), "find(%d)", i); if (v >= 0) TREQ(KO::id(key(*it)) == i && mapped(*it) == v, "find(%d) gives another element", i); break; }
			case 4: TREQ(at(c, k) == v, "at(%d)", i); break;
			case 5: TREQ(c.size() == m.n && c.empty() == !m.n && c.capacity() >= m.n && c.max_size() >= m.n, "size %zu, expected %zu", std::size_t(c.size()), m.n); break;
			case 6:
			{
				std::size_t n = 0;
				for (const auto &x: c) { const int j = KO::id(key(x)); TREQ(m.val[std::size_t(j)] == mapped(x), "element %d", j); ++n; }
				TREQ(n == m.n, "traversal visits %zu of %zu elements", n, m.n);
				break;
			}
			case 7: { std::size_t n = 0; for (auto it = c.cbegin(); it != c.cend(); ++it) ++n; TREQ(n == m.n, "traversal visits %zu of %zu elements", n, m.n); break; }
			case 8: case 9:
			{
				C d = r.chance(1, 2) ? C(c) : C(c, c.get_allocator());
				Model n = m;
				if (r.chance(1, 3)) mutate(d, n, r, 6);
				if (r.chance(1, 2)) look(d, c, false, n, r); else { C e; e = c; e.swap(d); look(d, c, true, m, r); }
				break;
			}
			case 10: { C d; d = c; TREQ(d == c, "copy differs"); break; }
			case 11: TREQ(!same || (c == other && !(c != other)), "equal containers differ"); break;
			case 12: (void) (c != other); break;
			case 13: { const auto h = c.hash_function(); const auto e = c.key_eq(); TREQ(h(k) == c.hash_function()(k) && e(k, k), "functors"); (void) c.get_allocator(); break; }
			case 14: TREQ(c.load_factor() >= 0 && c.max_load_factor() > 0 && c.bucket_count() <= c.max_bucket_count(), "load factor"); break;
			case 15:
				if constexpr (dense)
				{
					if (!c.bucket_count()) break;
					const auto b = c.bucket(k);
					std::size_t n = 0;
					bool f = false;
					for (auto it = c.begin(b); it != c.end(b); ++it) ++n, f |= KO::id(key(*it)) == i;
					TREQ(n == c.bucket_size(b) && f == (v >= 0), "bucket of %d", i);
				}
				break;
			case 16:
				if constexpr (ordered)
				{
					if (!m.n) break;
					TREQ(KO::id(key(c.front())) == KO::id(key(*c.begin())) && KO::id(key(c.back())) == KO::id(key(*--c.end())), "front and back");
				}
				break;
			case 17:
				if constexpr (std::is_same_v<K, std::string>)
				{
					const std::string_view s = k;
					TREQ(c.contains(s) == (v >= 0) && (c.find(s) != c.end()) == (v >= 0), "lookup of %d by a view", i);
					if constexpr (map) { if (v >= 0) TREQ(c.at(s) == v, "at(%d) by a view", i); }
				}
				break;
		}
	}
	static void run(const char *name, u64 seed)
	{
		g_kind = name;
		Rng r(seed);
		const auto h = KO::hasher(r);
		C c(0, h);
		Model m;
		const int state = int(r.below(6));
		if (state) mutate(c, m, r, 1 << r.below(7));
		C twin(c);
		const int threads = 2 + int(r.below(5)), ops = 60 + int(r.below(100));
		launch(threads, [&](int t)
		{
			Rng q(seed * 31 + u64(t) + 1);
			const C &shared = c;
			long overlap = 0;
			C own;
			Model om;
			for (int i = 0; i < ops; ++i)
			{
				const long before = g_total.load(std::memory_order_relaxed);
				look(shared, twin, true, m, q);
				if (q.chance(1, 8)) mutate(own, om, q, 4);
				overlap += g_total.fetch_add(1, std::memory_order_relaxed) != before;
			}
			look(own, shared, false, om, q);
			return overlap;
		});
		S.ops += long(threads) * ops;
		S.checks += long(threads) * ops;
		look(c, twin, true, m, r);
		++S.cases;
		S.digests.insert(mix64(seed));
		feature(name);
		feature(threads == 2 ? "threads.2" : threads == 3 ? "threads.3" : threads == 4 ? "threads.4" : threads == 5 ? "threads.5" : "threads.6");
		if (!m.n) feature("shared.empty");
	}
	template<typename F>
	static void launch(int n, F f)
	{
		g_ready = 0;
		std::vector<std::thread> pool;
		std::vector<long> overlap(std::size_t(n), 0);
		for (int t = 0; t < n; ++t)
			pool.emplace_back([&, t]
			{
				g_ready.fetch_add(1, std::memory_order_relaxed);
				while (g_ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
				overlap[std::size_t(t)] = f(t);
			});
		for (auto &t: pool) t.join();
		for (long o: overlap) feature("operations.overlapped", o);
	}
};

template<typename C>
struct Multi
{
	static constexpr bool map = !std::is_void_v<typename mapped_of<C>::type>;
	struct Model { std::vector<int> a = std::vector<int>(RANGE, -1), b = std::vector<int>(RANGE, -1); std::size_t n = 0; };
	template<typename R> static const auto &keys(const R &x) { if constexpr (map) return x.first; else return x; }
	static int k0(int i) { return KeyOf<int>::make(i); }
	static std::string k1(int i) { return KeyOf<std::string>::make(i); }
	static void mutate(C &c, Model &m, Rng &r, int ops)
	{
		while (ops--)
		{
			const int i = int(r.below(RANGE)), j = int(r.below(RANGE));
			switch (r.below(10))
			{
				case 0: c.rehash(r.below(400)); break;
				case 1: c.reserve(r.below(400)); break;
				case 2: case 3: (void) c.template erase<0>(k0(i)); if (m.a[std::size_t(i)] >= 0) m.b[std::size_t(m.a[std::size_t(i)])] = -1, m.a[std::size_t(i)] = -1, --m.n; break;
				case 4: (void) c.template erase<1>(k1(j)); if (m.b[std::size_t(j)] >= 0) m.a[std::size_t(m.b[std::size_t(j)])] = -1, m.b[std::size_t(j)] = -1, --m.n; break;
				default:
				{
					bool did;
					if constexpr (map) did = c.try_emplace(std::tuple<int, std::string>(k0(i), k1(j)), i).second; else did = c.emplace(k0(i), k1(j)).second;
					TREQ(did == (m.a[std::size_t(i)] < 0 && m.b[std::size_t(j)] < 0), "insertion of %d/%d reports %d", i, j, int(did));
					if (did) m.a[std::size_t(i)] = j, m.b[std::size_t(j)] = i, ++m.n;
				}
			}
		}
	}
	static void look(const C &c, const C &other, bool same, const Model &m, Rng &r)
	{
		const int i = int(r.below(RANGE)), a = m.a[std::size_t(i)], b = m.b[std::size_t(i)];
		switch (r.below(10))
		{
			case 0: TREQ(c.template contains<0>(k0(i)) == (a >= 0), "first key %d", i); break;
			case 1: TREQ(c.template contains<1>(k1(i)) == (b >= 0), "second key %d", i); break;
			case 2: { const auto it = c.template find<0>(k0(i)); TREQ((it != c.end()) == (a >= 0), "first key %d", i); if (a >= 0) TREQ(std::get<1>(keys(*it)) == k1(a), "entry of %d", i); break; }
			case 3: { const auto it = c.template find<1>(k1(i)); TREQ((it != c.end()) == (b >= 0), "second key %d", i); if (b >= 0) TREQ(std::get<0>(keys(*it)) == k0(b), "entry of %d", i); break; }
			case 4: { std::size_t n = 0; for (const auto &x: c) n += !std::get<1>(keys(x)).empty(); TREQ(n == m.n && c.size() == n && c.empty() == !n, "traversal visits %zu of %zu entries", n, m.n); break; }
			case 5: { C d(c); Model n = m; if (r.chance(1, 2)) mutate(d, n, r, 6); look(d, c, false, n, r); break; }
			case 6: { C d; d = c; TREQ(d == c, "copy differs"); break; }
			case 7: TREQ(!same || c == other, "equal containers differ"); break;
			case 8: TREQ(c.load_factor() >= 0 && c.max_load_factor() > 0 && c.capacity() >= m.n && c.max_size() >= m.n, "load factor"); (void) c.hash_function(); (void) c.key_eq(); (void) c.get_allocator(); break;
			case 9: if constexpr (map) { int v = -1; try { v = c.template at<0>(k0(i)); } catch (const std::out_of_range &) {} TREQ(v == (a >= 0 ? i : -1), "at(%d)", i); } break;
		}
	}
	static void run(const char *name, u64 seed)
	{
		g_kind = name;
		Rng r(seed);
		C c;
		Model m;
		if (r.chance(5, 6)) mutate(c, m, r, 1 << r.below(9));
		C twin(c);
		const int threads = 2 + int(r.below(5)), ops = 60 + int(r.below(100));
		Single<tpp::dense_set<int>>::launch(threads, [&](int t)
		{
			Rng q(seed * 31 + u64(t) + 1);
			const C &shared = c;
			long overlap = 0;
			C own;
			Model om;
			for (int i = 0; i < ops; ++i)
			{
				const long before = g_total.load(std::memory_order_relaxed);
				look(shared, twin, true, m, q);
				if (q.chance(1, 8)) mutate(own, om, q, 4);
				overlap += g_total.fetch_add(1, std::memory_order_relaxed) != before;
			}
			look(own, shared, false, om, q);
			return overlap;
		});
		S.ops += long(threads) * ops;
		S.checks += long(threads) * ops;
		++S.cases;
		S.digests.insert(mix64(seed));
		feature(name);
		if (!m.n) feature("shared.empty");
	}
};

#if PART == 0
#define SET tpp::sparse_set
#define MAP tpp::sparse_map
#elif PART == 1
#define SET tpp::ordered_sparse_set
#define MAP tpp::ordered_sparse_map
#elif PART == 2
#define SET tpp::stable_set
#define MAP tpp::stable_map
#elif PART == 3
#define SET tpp::ordered_stable_set
#define MAP tpp::ordered_stable_map
#elif PART == 4
#define SET tpp::dense_set
#define MAP tpp::dense_map
#elif PART == 5
#define SET tpp::ordered_dense_set
#define MAP tpp::ordered_dense_map
#endif
int main(int argc, char **argv)
{
	if (argc < 5) return 3;
	g_profile = argv[1];
	g_seed = std::strtoull(argv[2], nullptr, 10);
	const long first = std::atol(argv[3]), count = std::atol(argv[4]);
	g_outfile = argc > 5 ? argv[5] : nullptr;
	for (long i = first; i < first + count; ++i)
	{
		g_case = i;
		const u64 seed = mix64(g_seed * 7000003 + mix64(u64(i) * 16 + PART));
#if PART < 6
		switch (i % 4)
		{
			case 0: Single<SET<int>>::run("set<int>", seed); break;
			case 1: Single<SET<std::string, SH, SE>>::run("set<string>", seed); break;
			case 2: Single<MAP<int, int>>::run("map<int, int>", seed); break;
			default: Single<MAP<std::string, int, SH, SE>>::run("map<string, int>", seed); break;
		}
#else
		if (i % 2) Multi<tpp::dense_multiset<tpp::multikey<int, std::string>>>::run("multiset<int, string>", seed);
		else Multi<tpp::dense_multimap<tpp::multikey<int, std::string>, int>>::run("multimap<int, string>", seed);
#endif
	}
	S.samples.push_back("last case: " + std::string(g_kind));
	write_stats();
	std::fflush(stdout);
	return 0;
}
