// Cost and capacity monitors: the numbers of hash calls, comparisons, relocations and allocations, and the number of executed basic blocks
// (a deterministic measure of work: every block calls __sanitizer_cov_trace_pc) of long histories of one container.
//   KIND   0..11 as in main_engine.cpp, 12 dense_multiset<2>, 13 dense_multimap<2>
// Arguments: PROFILE(cost|bounded) SEED FIRST COUNT [OUT]; env REPORT=1 prints the measured values.
#include "common.hpp"
#include <tpp/sparse_set.hpp>
#include <tpp/sparse_map.hpp>
#include <tpp/stable_set.hpp>
#include <tpp/stable_map.hpp>
#include <tpp/dense_set.hpp>
#include <tpp/dense_map.hpp>
#include <tpp/dense_multiset.hpp>
#include <tpp/dense_multimap.hpp>

static volatile unsigned long g_blocks; // executed basic blocks
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { g_blocks = g_blocks + 1; }

static unsigned long g_hash, g_eq, g_moves, g_allocs;
struct K // counts its relocations
{
	u64 id;
	K(u64 i) : id(i) {}
	K(const K &o) : id(o.id) { ++g_moves; }
	K(K &&o) noexcept : id(o.id) { ++g_moves; }
	K &operator=(const K &o) { id = o.id; ++g_moves; return *this; }
	K &operator=(K &&o) noexcept { id = o.id; ++g_moves; return *this; }
	bool operator==(const K &o) const { return id == o.id; }
};
struct KH { std::size_t operator()(const K &k) const { ++g_hash; return mix64(k.id * 0x2545f4914f6cdd1dull + 99); } };
struct KE { bool operator()(const K &a, const K &b) const { ++g_eq; return a.id == b.id; } };
template<typename T>
struct CA
{
	using value_type = T;
	CA() = default;
	template<typename U> CA(const CA<U> &) {}
	T *allocate(std::size_t n) { ++g_allocs; return std::allocator<T>{}.allocate(n); }
	void deallocate(T *p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); }
	template<typename U> bool operator==(const CA<U> &) const { return true; }
	template<typename U> bool operator!=(const CA<U> &) const { return false; }
};
using PV = std::pair<K, int>;
using CPV = std::pair<const K, int>;
using KK = std::tuple<K, K>;
#if KIND == 0
using C = tpp::sparse_set<K, KH, KE, CA<K>>;
#elif KIND == 1
using C = tpp::sparse_map<K, int, KH, KE, CA<PV>>;
#elif KIND == 2
using C = tpp::ordered_sparse_set<K, KH, KE, CA<K>>;
#elif KIND == 3
using C = tpp::ordered_sparse_map<K, int, KH, KE, CA<PV>>;
#elif KIND == 4
using C = tpp::stable_set<K, KH, KE, CA<K>>;
#elif KIND == 5
using C = tpp::stable_map<K, int, KH, KE, CA<CPV>>;
#elif KIND == 6
using C = tpp::ordered_stable_set<K, KH, KE, CA<K>>;
#elif KIND == 7
using C = tpp::ordered_stable_map<K, int, KH, KE, CA<CPV>>;
#elif KIND == 8
using C = tpp::dense_set<K, KH, KE, CA<K>>;
#elif KIND == 9
using C = tpp::dense_map<K, int, KH, KE, CA<PV>>;
#elif KIND == 10
using C = tpp::ordered_dense_set<K, KH, KE, CA<K>>;
#elif KIND == 11
using C = tpp::ordered_dense_map<K, int, KH, KE, CA<PV>>;
#elif KIND == 12
using C = tpp::dense_multiset<tpp::multikey<K, K>, KH, KE, CA<KK>>;
#else
using C = tpp::dense_multimap<tpp::multikey<K, K>, int, KH, KE, CA<std::pair<KK, int>>>;
#endif
static const char *kinds[] = {"sparse_set", "sparse_map", "ordered_sparse_set", "ordered_sparse_map", "stable_set", "stable_map", "ordered_stable_set", "ordered_stable_map",
	"dense_set", "dense_map", "ordered_dense_set", "ordered_dense_map", "dense_multiset", "dense_multimap"};
constexpr bool is_map = KIND % 2;
constexpr bool is_multi = KIND >= 12;
constexpr bool is_stable = KIND >= 4 && KIND < 8;
constexpr bool is_dense = KIND >= 8;

template<typename C>
static bool ins(C &c, u64 id)
{
	if constexpr (is_multi)
	{
		if constexpr (is_map) return c.try_emplace(KK(K(id), K(id ^ 0x5555)), 1).second;
		else return c.insert(KK(K(id), K(id ^ 0x5555))).second;
	}
	else if constexpr (is_map) return c.try_emplace(K(id), 1).second;
	else return c.insert(K(id)).second;
}
template<typename C>
static void del(C &c, u64 id)
{
	if constexpr (is_multi) { if (id & 1) c.template erase<0>(K(id)); else c.template erase<1>(K(id ^ 0x5555)); }
	else c.erase(K(id));
}
// Insertion of a range of forward or random access iterators.
template<typename C>
static void ins_range(C &c, const u64 *first, std::size_t n)
{
	using T = std::conditional_t<is_multi, std::conditional_t<is_map, std::pair<KK, int>, KK>, std::conditional_t<is_map, PV, K>>;
	std::vector<T> v;
	v.reserve(n);
	for (std::size_t i = 0; i < n; ++i)
	{
		if constexpr (is_multi && is_map) v.emplace_back(KK(K(first[i]), K(first[i] ^ 0x5555)), 1);
		else if constexpr (is_multi) v.emplace_back(K(first[i]), K(first[i] ^ 0x5555));
		else if constexpr (is_map) v.emplace_back(K(first[i]), 1);
		else v.emplace_back(first[i]);
	}
	c.insert(v.begin(), v.end());
}
template<typename C>
static void do_merge(C &c, C &d)
{
	if constexpr (is_stable) c.merge(d);
}
template<typename C>
static bool has(const C &c, u64 id)
{
	if constexpr (is_multi) return (id & 1) ? c.template contains<0>(K(id)) : c.template contains<1>(K(id ^ 0x5555));
	else return c.contains(K(id));
}
struct Cost
{
	double hash, eq, moves, allocs, blocks;
	long ops;
};
template<typename F>
static Cost measure(long ops, F &&f)
{
	const auto h = g_hash, e = g_eq, m = g_moves, a = g_allocs, b = g_blocks;
	f();
	const double n = double(ops);
	S.ops += ops;
	return {double(g_hash - h) / n, double(g_eq - e) / n, double(g_moves - m) / n, double(g_allocs - a) / n, double(g_blocks - b) / n, ops};
}
static bool g_report;
static void show(const char *what, long n, const Cost &c)
{
	if (g_report) std::printf("%-20s %-28s n=%-8ld hash %.2f eq %.2f moves %.2f allocs %.4f blocks %.1f\n", kinds[KIND], what, n, c.hash, c.eq, c.moves, c.allocs, c.blocks);
}
struct Limit { double hash, eq, moves, allocs, blocks; };
static void limit(const char *what, long n, const Cost &c, const Limit &l)
{
	++S.checks;
	show(what, n, c);
	REQ("cost", c.hash <= l.hash, "%s (n=%ld): %.2f hash calls per operation, at most %.2f expected", what, n, c.hash, l.hash);
	REQ("cost", c.eq <= l.eq, "%s (n=%ld): %.2f comparisons per operation, at most %.2f expected", what, n, c.eq, l.eq);
	REQ("cost", c.moves <= l.moves, "%s (n=%ld): %.2f relocations per operation, at most %.2f expected", what, n, c.moves, l.moves);
	REQ("cost", c.allocs <= l.allocs, "%s (n=%ld): %.4f allocations per operation, at most %.4f expected", what, n, c.allocs, l.allocs);
	REQ("cost", c.blocks <= l.blocks, "%s (n=%ld): %.1f basic blocks executed per operation, at most %.1f expected", what, n, c.blocks, l.blocks);
}
// Bounds: several times what a sound implementation needs, far below what a linear one does.
constexpr double N_KEYS = is_multi ? 2 : 1;
static Limit lookup_limit() { return {1.01, 4, .01, .0001, 120}; }
static Limit insert_limit(long n) { return {12 * N_KEYS, 6 * N_KEYS, 16 * N_KEYS, (is_stable ? 1.0 : 0) + (8 * 12 + 8) / double(n), 600 * N_KEYS}; }
static Limit churn_limit(long n) { return {16 * N_KEYS, 8 * N_KEYS, 20 * N_KEYS, (is_stable ? 2 : .3) + 60 / double(n), 700 * N_KEYS}; }

static void lookups(const C &c, const std::vector<u64> &live, Rng &r, const char *what)
{
	const long n = 400;
	char buf[64];
	std::snprintf(buf, sizeof buf, "%s: hits", what);
	if (!live.empty())
		limit(buf, long(live.size()), measure(n, [&] { for (long i = 0; i < n; ++i) REQ("value", has(c, live[r.below(unsigned(live.size()))]), "stored key is not found"); }), lookup_limit());
	std::snprintf(buf, sizeof buf, "%s: misses", what);
	limit(buf, long(live.size()), measure(n, [&] { for (long i = 0; i < n; ++i) REQ("value", !has(c, (1ull << 40) + r.next() % 1000000), "missing key is found"); }), lookup_limit());
}
// The bucket count of a table that never held more than `peak` elements and was never asked for more than `asked` buckets.
static void bounded(const C &c, std::size_t peak, std::size_t asked, const char *what)
{
	const std::size_t max = std::max<std::size_t>({64, 8 * peak, 4 * asked});
	REQ("capacity", c.bucket_count() <= max, "%s: %zu buckets for at most %zu elements, at most %zu expected", what, std::size_t(c.bucket_count()), peak, max);
	++S.checks;
}

static void grow_case(Rng &r, long n)
{
	C c;
	std::vector<u64> live;
	const bool sequential = r.chance(1, 2);
	u64 next = r.next() % 1000;
	const auto cost = measure(n, [&] { for (long i = 0; i < n; ++i) { const u64 id = (sequential ? next++ : r.next() % (1ull << 38)) * 4 + (i & 1); if (ins(c, id)) live.push_back(id); } });
	limit("growth", n, cost, insert_limit(n));
	bounded(c, live.size(), 0, "growth");
	lookups(c, live, r, "growth");
	limit("rejected", n, measure(n, [&] { for (long i = 0; i < n; ++i) ins(c, live[r.below(unsigned(live.size()))]); }), {2 * N_KEYS, 6 * N_KEYS, 4, .0001 + (is_stable && is_multi ? 1 : 0), 200 * N_KEYS});
	// Copies & rehashes.
	limit("copy", long(live.size()), measure(long(live.size()), [&] { C d(c); REQ("value", d.size() == c.size(), "copy has another size"); }), {3 * N_KEYS, 2, 6 * N_KEYS, (is_stable ? 1 : 0) + 8 / double(n), 400 * N_KEYS});
	limit("rehash", long(live.size()), measure(long(live.size()), [&] { c.rehash(c.bucket_count() * 2 + 1); }), {3 * N_KEYS, 2, 6 * N_KEYS, 8 / double(n), 400 * N_KEYS});
	lookups(c, live, r, "rehash");
	// Erasure of all elements in random order, the table keeps its buckets: amortised over the elements.
	for (std::size_t i = live.size(); i > 1; --i) std::swap(live[i - 1], live[r.below(unsigned(i))]);
	const auto m = long(live.size());
	limit("erasure", m, measure(m, [&] { for (u64 id: live) del(c, id); }), {4 * N_KEYS, 8 * N_KEYS, 4 * N_KEYS, .001, 300 * N_KEYS});
	REQ("value", c.empty(), "elements are left after the erasure of all");
	live.clear();
	lookups(c, live, r, "erased");
	S.digests.insert(mix64(u64(n) * 31 + sequential));
}
// Insertions in batches: growth in small ranges, and ranges (or merged tables) that replace erased elements.
static void batch_case(Rng &r, std::size_t L)
{
	const std::size_t k = r.chance(1, 3) ? 1 : 1 + r.below(8);
	std::vector<u64> live;
	u64 next = r.next() % 1000;
	C c;
	std::size_t batches = 0;
	const auto cost = measure(long(L), [&]
	{
		while (live.size() < L)
		{
			const auto n = std::min(k, L - live.size());
			for (std::size_t i = 0; i < n; ++i) live.push_back(next++);
			ins_range(c, live.data() + live.size() - n, n);
			++batches;
		}
	});
	REQ("value", c.size() == L, "size is %zu after insertion of %zu elements in ranges", std::size_t(c.size()), L);
	auto l = insert_limit(long(L));
	l.moves += 6 * N_KEYS;
	limit("growth in ranges", long(L), cost, l);
	bounded(c, L, 0, "growth in ranges");
	std::size_t head = 0;
	const long rounds = std::max<long>(1000, std::min<long>(long(L) * 4, 20000));
	const bool merge = is_stable && r.chance(1, 2);
	l = churn_limit(rounds);
	l.moves += 6 * N_KEYS, l.hash += 4, l.allocs += (merge ? 8 : 0) + (L < 64 ? 1.5 : .2), l.blocks += merge ? 600 : 0; // the merged table is built by every round
	limit(merge ? "churn by merges" : "churn in ranges", long(L), measure(rounds * long(k), [&]
	{
		for (long i = 0; i < rounds; ++i)
		{
			for (std::size_t j = 0; j < k && head < live.size(); ++j) del(c, live[head++]);
			const auto at = live.size();
			while (live.size() - head < L) live.push_back(next++);
			if constexpr (is_stable)
			{
				if (merge)
				{
					C d;
					for (auto j = at; j < live.size(); ++j) ins(d, live[j]);
					do_merge(c, d);
					REQ("value", d.empty(), "merge of new keys leaves elements");
					continue;
				}
			}
			ins_range(c, live.data() + at, live.size() - at);
		}
	}), l);
	REQ("value", c.size() == L, "size is %zu after churn in ranges, expected %zu", std::size_t(c.size()), L);
	bounded(c, 2 * L, 0, "churn in ranges");
	live.erase(live.begin(), live.begin() + long(head));
	lookups(c, live, r, merge ? "churn by merges" : "churn in ranges");
	// Ranges of present keys.
	const long n = 500;
	l = insert_limit(n);
	limit("rejected ranges", long(L), measure(n, [&] { for (long i = 0; i < n; ++i) ins_range(c, live.data() + r.below(unsigned(L)), 1); }), {l.hash + double(L) * 8 / double(n), l.eq, l.moves + double(L) * 8 / double(n), l.allocs, l.blocks + double(L) * 600 / double(n)});
	bounded(c, 2 * L, 0, "rejected ranges");
	feature(merge ? "batch.merge" : "batch.range");
	S.digests.insert(mix64(L * 64 + 9 + merge));
}
static void churn_case(Rng &r, std::size_t L, int mode)
{
	// `L` elements are kept while others come and go.
	C c;
	if (r.chance(1, 4)) c.reserve(L);
	std::vector<u64> live;
	std::size_t head = 0; // for FIFO
	u64 next = r.next() % 1000;
	std::size_t peak = 0;
	const auto add = [&] { const u64 id = mode == 3 ? (r.next() % (L * 8 + 8)) : next++; if (ins(c, id)) live.push_back(id); peak = std::max(peak, live.size() - head); };
	while (live.size() - head < L) add();
	const auto buckets = c.bucket_count();
	const long rounds = std::max<long>(2000, std::min<long>(long(L) * 20, 40000));
	const auto one = [&]
	{
		if (mode == 0) { del(c, live[head++]); add(); }                                                                 // oldest out
		else if (mode == 1) { del(c, live.back()); live.pop_back(); add(); }                                          // newest out
		else                                                                                                          // any out
		{
			const auto i = head + r.below(unsigned(live.size() - head));
			del(c, live[i]);
			live[i] = live.back();
			live.pop_back();
			while (live.size() - head < L) add();
		}
	};
	const auto cost = measure(rounds, [&]
	{
		for (long i = 0; i < rounds; ++i)
		{
			one();
			if (mode == 4 && i % 257 == 0) // a burst
			{
				const auto k = std::min<std::size_t>(live.size() - head, 64);
				for (std::size_t j = 0; j < k; ++j) del(c, live.back()), live.pop_back();
				while (live.size() - head < L) add();
			}
			REQ("capacity", c.size() == live.size() - head, "size is %zu, expected %zu", std::size_t(c.size()), live.size() - head);
			if (c.bucket_count() > buckets) bounded(c, peak, L, "churn");
		}
	});
	char buf[64];
	std::snprintf(buf, sizeof buf, "churn mode %d", mode);
	limit(buf, long(L), cost, churn_limit(rounds));
	bounded(c, peak, L, "churn");
	live.erase(live.begin(), live.begin() + long(head));
	lookups(c, live, r, buf);
	feature(c.bucket_count() == buckets ? "churn.same-buckets" : "churn.more-buckets");
	S.digests.insert(mix64(L * 64 + unsigned(mode)));
}
// A large table that holds few elements.
static void sparse_case(Rng &r, std::size_t room)
{
	C c;
	c.reserve(room);
	const long n = 2000;
	std::vector<u64> live;
	u64 next = r.next() % 1000;
	for (int i = 0; i < 8; ++i) ins(c, next), live.push_back(next++);
	Limit l = churn_limit(n);
	if (KIND == 0 || KIND == 1 || KIND == 4 || KIND == 5) l.blocks = 1e9; // erasure skips the empty buckets that follow, to return the next position
	limit("few in a large table", long(room), measure(n, [&] { for (long i = 0; i < n; ++i) { const auto j = r.below(8); del(c, live[j]); ins(c, live[j] = next++); } }), l);
	lookups(c, live, r, "few in a large table");
	S.digests.insert(mix64(room * 64 + 7));
}
// Bounded contents under all kinds of operations: the bucket count remains bounded as well.
static void mixed_case(Rng &r)
{
	C c, d;
	std::set<u64> ms;
	const std::size_t L = 1 + r.below(r.chance(1, 2) ? 40 : 600);
	std::size_t asked = 0;
	for (int i = 0; i < 3000; ++i)
	{
		switch (const auto op = r.below(100))
		{
			default:
				if (ms.size() >= L || (op < 48 && !ms.empty()))
				{
					const u64 id = r.chance(1, 2) ? *ms.begin() : *ms.rbegin();
					ms.erase(id);
					del(c, id);
				} else
				{
					const u64 id = r.next() % (4 * L);
					REQ("value", ins(c, id) == ms.insert(id).second, "insertion of %llu reports a wrong result", (unsigned long long) id);
				}
				break;
			case 95: c.rehash(0); break;
			case 96: { C e(c); d = e; break; }
			case 97: { C e(std::move(c)); c = std::move(e); break; }
			case 98: { d = c; std::swap(c, d); break; }
			case 99: if (r.chance(1, 10)) { c.clear(); ms.clear(); } else { const auto n = r.below(unsigned(2 * L)); c.reserve(n); asked = std::max<std::size_t>(asked, n); } break;
		}
		REQ("value", c.size() == ms.size(), "size is %zu, expected %zu", std::size_t(c.size()), ms.size());
		bounded(c, L, asked, "mixed history");
	}
	S.ops += 3000;
	S.digests.insert(r.s);
}
// Reserved room: insertions up to the reserved size do not allocate or relocate, from any state.
static void reserve_case(Rng &r)
{
	C c;
	std::vector<u64> live;
	u64 next = 0;
	const auto pre = r.below(60);
	for (unsigned i = 0; i < pre; ++i) { ins(c, next); live.push_back(next++); }
	while (!live.empty() && r.chance(2, 3)) { del(c, live.back()); live.pop_back(); }
	if (r.chance(1, 4)) c.rehash(r.below(200));
	if (r.chance(1, 4)) { c.clear(); live.clear(); }
	const std::size_t n = r.chance(1, 10) ? 4000 + r.below(4000) : r.below(300);
	c.reserve(n);
	REQ("capacity", c.capacity() >= n, "capacity %zu after reserve(%zu)", std::size_t(c.capacity()), n);
	bounded(c, std::max<std::size_t>(n, pre), 200, "reserve");
	const auto buckets = c.bucket_count();
	const auto allocs = g_allocs;
	const auto before = live.size();
	while (live.size() < n)
	{
		const auto m = g_moves;
		ins(c, next);
		live.push_back(next++);
		REQ("capacity", g_moves - m <= 10, "%lu relocations by an insertion within the reserved capacity", g_moves - m);
	}
	const auto extra = is_stable ? live.size() - before : 0;
	REQ("capacity", c.bucket_count() == buckets && g_allocs - allocs <= (live.size() > before ? extra : 0), "growth within the reserved %zu elements (%zu to %zu buckets)", n, std::size_t(buckets), std::size_t(c.bucket_count()));
	const std::size_t b = r.below(3000);
	c.rehash(b);
	REQ("capacity", c.bucket_count() >= b && c.capacity() >= c.size() && c.size() == live.size(), "%zu buckets after rehash(%zu)", std::size_t(c.bucket_count()), b);
	for (u64 id: live) REQ("value", has(c, id), "element lost by rehash(%zu)", b);
	++S.checks;
	S.ops += long(n);
	S.digests.insert(r.s);
}

int main(int argc, char **argv)
{
	if (argc < 5) return 3;
	g_kind = kinds[KIND];
	g_profile = argv[1];
	g_seed = std::strtoull(argv[2], nullptr, 10);
	const long first = std::atol(argv[3]), count = std::atol(argv[4]);
	g_outfile = argc > 5 ? argv[5] : nullptr;
	g_report = std::getenv("REPORT") != nullptr;
	install_death_callback();
	static const std::size_t churn_sizes[] = {1, 2, 3, 5, 6, 7, 8, 12, 13, 14, 15, 24, 27, 28, 29, 55, 56, 57, 100, 111, 112, 113, 223, 224, 225, 447, 448, 500, 895, 896, 1000, 1791, 1792, 3583, 3584, 7168, 14336};
	static const long grow_sizes[] = {1, 10, 100, 1000, 3000, 10000, 30000, 100000, 250000};
	const bool cost = !std::strcmp(argv[1], "cost");
	for (long i = first; i < first + count; ++i)
	{
		begin_case(i);
		Rng r(mix64(g_seed * 1000003 + mix64(u64(i) * 16 + KIND)));
		if (cost)
		{
			constexpr long G = sizeof grow_sizes / sizeof *grow_sizes, Q = sizeof churn_sizes / sizeof *churn_sizes;
			const long x = i % (G + Q * 6 + 3);
			if (x < G) g_log.add("growth", grow_sizes[x]), grow_case(r, grow_sizes[x]);
			else if (x >= G + Q * 6) g_log.add("few"), sparse_case(r, x == G + Q * 6 ? 1000 : x == G + Q * 6 + 1 ? 10000 : 100000);
			else if ((x - G) % 6 == 5) g_log.add("batch", long(churn_sizes[(x - G) / 6])), batch_case(r, churn_sizes[(x - G) / 6]);
			else g_log.add("churn", long(churn_sizes[(x - G) / 6]), (x - G) % 6), churn_case(r, churn_sizes[(x - G) / 6], int((x - G) % 6));
		}
		else if (i % 2) g_log.add("mixed"), mixed_case(r);
		else g_log.add("reserve"), reserve_case(r);
		++S.cases;
	}
	if (cost) feature("blocks", long(g_blocks));
	W.hash_calls = long(g_hash), W.eq_calls = long(g_eq), W.moves = long(g_moves), W.allocs = long(g_allocs);
	S.samples.push_back(std::string(g_kind) + ": " + std::to_string(g_blocks) + " basic blocks, " + std::to_string(g_hash) + " hash calls, " + std::to_string(g_eq) + " comparisons");
	write_stats();
	std::fflush(stdout);
	return 0;
}
