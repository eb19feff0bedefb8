// References, pointers and iterators of all containers with one key: conversions, arithmetic, comparisons, also with mapped objects whose comparison throws.
//   profiles: positions (iterators, P02), references (comparisons of what they refer to and of whole maps, P15), throwing (P10)
#include "common.hpp"
#include <tpp/sparse_set.hpp>
#include <tpp/sparse_map.hpp>
#include <tpp/stable_set.hpp>
#include <tpp/stable_map.hpp>
#include <tpp/dense_set.hpp>
#include <tpp/dense_map.hpp>

struct Touchy // comparison throws
{
	static inline long countdown = 0;
	static inline bool thrown = false;
	struct error : std::exception { const char *what() const noexcept override { return "touchy"; } };
	int v;
	Touchy(int v = 0) : v(v) {}
	static void tick() { if (countdown && !--countdown) { thrown = true; throw error(); } }
	bool operator==(const Touchy &o) const { tick(); return v == o.v; }
	bool operator!=(const Touchy &o) const { tick(); return v != o.v; }
	bool operator<(const Touchy &o) const { tick(); return v < o.v; }
};
template<typename T> struct make_of { static T make(int i) { return T(i); } static int id(const T &t) { return int(t); } };
template<> struct make_of<Touchy> { static Touchy make(int i) { return Touchy(i); } static int id(const Touchy &t) { return t.v; } };
template<> struct make_of<std::string> { static std::string make(int i) { return std::string(i % 3 * 10, 'x') + char('a' + i % 20) + std::to_string(i); } static int id(const std::string &s) { return std::atoi(s.c_str() + s.find_last_not_of("0123456789") + 1); } };
struct Mix { template<typename T> std::size_t operator()(const T &k) const { return mix64(u64(make_of<T>::id(k)) & ~mask); } u64 mask = 3; };

#define DETECT(NAME, EXPR) template<typename T, typename = void> struct NAME : std::false_type {}; template<typename T> struct NAME<T, std::void_t<decltype(EXPR)>> : std::true_type {};
DETECT(has_local, std::declval<typename T::local_iterator>())
DETECT(has_rbegin, std::declval<T &>().rbegin())
DETECT(has_mapped, std::declval<typename T::mapped_type>())
template<typename I> constexpr bool is_random = std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<I>::iterator_category>;
template<typename I> constexpr bool is_bidi = std::is_base_of_v<std::bidirectional_iterator_tag, typename std::iterator_traits<I>::iterator_category>;

template<typename C, bool Ordered>
struct Refs
{
	using K = typename C::key_type;
	static constexpr bool map = has_mapped<C>::value;
	static constexpr bool local = has_local<C>::value;
	using It = typename C::iterator;
	using CIt = typename C::const_iterator;
	Rng &r;
	C c;
	std::vector<std::pair<int, int>> model;

	template<typename X> static const K &key(const X &x) { if constexpr (map) return x.first; else return x; }
	explicit Refs(Rng &r, int range) : r(r)
	{
		const int n = int(r.below(unsigned(range)));
		for (int i = 0; i < n; ++i)
		{
			const int k = int(r.below(unsigned(range))), v = int(r.below(5));
			if constexpr (map) c.try_emplace(make_of<K>::make(k), make_of<typename C::mapped_type>::make(v)); else c.insert(make_of<K>::make(k));
			(void) v;
			if (r.chance(1, 6)) (void) c.erase(make_of<K>::make(int(r.below(unsigned(range)))));
		}
		g_log.add("elements", n, long(c.size()));
	}

	template<typename I, typename X>
	void order(const I &a, const I &b, X x, X y, bool semantic) // x, y: what the result has to be like
	{
		REQ("iteration", (a == b) == (x == y) && (a != b) == (x != y), "equality of positions %ld and %ld", long(x), long(y));
		if constexpr (is_bidi<I>) // order of other iterators is declared, but cannot be instantiated
		{
			REQ("iteration", (a < b) + (a == b) + (a > b) == 1 && (a <= b) == !(a > b) && (a >= b) == !(a < b) && (a < b) == (b > a), "order of positions %ld and %ld is inconsistent", long(x), long(y));
			if (semantic) REQ("iteration", (a < b) == (x < y) && (a <= b) == (x <= y), "order of positions %ld and %ld", long(x), long(y));
		}
	}
	template<typename I> const void *at(const I &i) { return &key(*i); }

	template<typename I>
	void walk(I first, I last, const std::vector<const void *> &seq, const char *what)
	{
		const std::size_t n = seq.size();
		std::vector<I> p;
		for (I i = first; p.size() < n; ) { p.push_back(i); const I old = i++; REQ("iteration", old == p.back() && old != i, "%s: post-increment", what); }
		p.push_back(last);
		REQ("iteration", n == 0 ? first == last : std::next(p[n - 1]) == last, "%s: end", what);
		const I none{}, none2{};
		REQ("iteration", none == none2 && !(none != none2), "%s: default-constructed iterators differ", what);
		for (std::size_t i = 0; i < n; ++i)
		{
			REQ("iteration", at(p[i]) == seq[i] && static_cast<const void *>(&key(*p[i].operator->())) == seq[i], "%s: position %zu", what, i);
			I q = p[i];
			REQ("iteration", ++q == p[i + 1], "%s: pre-increment", what);
			if constexpr (is_bidi<I>)
			{
				REQ("iteration", --q == p[i], "%s: pre-decrement", what);
				q = p[i + 1];
				const I old = q--;
				REQ("iteration", old == p[i + 1] && q == p[i], "%s: post-decrement", what);
			}
			q = last; // assignment
			REQ("iteration", q == last && q != p[i], "%s: assignment", what);
		}
		for (std::size_t t = 0; t < 24; ++t)
		{
			const auto i = r.below(unsigned(n) + 1), j = r.below(unsigned(n) + 1);
			++S.checks;
			if (i < n && j < n) order(p[i], p[j], i, j, !Ordered);
			if constexpr (is_random<I>)
			{
				using D = typename std::iterator_traits<I>::difference_type;
				const D d = D(j) - D(i);
				REQ("iteration", p[j] - p[i] == d && p[i] + d == p[j] && p[j] - d == p[i] && std::distance(p[i], p[j]) == d && std::next(p[i], d) == p[j], "%s: arithmetic of %u and %u", what, i, j);
				I q = p[i];
				REQ("iteration", &(q += d) == &q && q == p[j] && &(q -= d) == &q && q == p[i], "%s: compound arithmetic of %u and %u", what, i, j);
				if (j < n) REQ("iteration", static_cast<const void *>(&key(p[i][d])) == seq[j], "%s: subscript of %u and %u", what, i, j);
				order(p[i], p[j], i, j, true);
			}
			else if (i <= j) REQ("iteration", std::size_t(std::distance(p[i], p[j])) == j - i, "%s: distance of %u and %u", what, i, j);
		}
	}
	void positions()
	{
		const C &cc = c;
		std::vector<const void *> seq;
		for (const auto &x: cc) { seq.push_back(&key(x)); REQ("iteration", seq.size() <= c.size(), "traversal does not end"); }
		REQ("iteration", seq.size() == c.size(), "traversal visits %zu of %zu elements", seq.size(), std::size_t(c.size()));
		walk<It>(c.begin(), c.end(), seq, "iterator");
		walk<CIt>(cc.begin(), cc.end(), seq, "const_iterator");
		walk<CIt>(c.cbegin(), c.cend(), seq, "cbegin");
		if constexpr (is_bidi<It>)
		{
			auto rev = seq;
			std::reverse(rev.begin(), rev.end());
			walk(std::make_reverse_iterator(cc.end()), std::make_reverse_iterator(cc.begin()), rev, "reverse iterator");
			if constexpr (has_rbegin<C>::value)
			{
				walk(c.rbegin(), c.rend(), rev, "rbegin");
				walk(cc.rbegin(), cc.rend(), rev, "const rbegin");
				walk(c.crbegin(), c.crend(), rev, "crbegin");
			}
		}
		std::size_t n = 0;
		CIt k = cc.begin();
		for (It i = c.begin(); i != c.end(); ++i, ++k, ++n)
		{
			const CIt j = i; // conversion
			CIt l{};
			l = i;
			REQ("iteration", at(j) == seq[n] && j == k && l == k && CIt(i) == k && !(j != k), "conversion of iterator %zu", n);
			REQ("iteration", c.find(key(*i)) == i && cc.find(key(*i)) == k, "find of the key at %zu", n);
			if constexpr (map)
			{
				auto &&ref = *i;
				auto &&cref = *k;
				REQ("iteration", &ref.second == &i->second && &cref.second == &i->second && &k->second == &i->second, "mapped object at %zu", n);
				auto &&[a, b] = *i.operator->();
				auto &&[ca, cb] = *k.operator->();
				REQ("iteration", &a == &i->first && &b == &i->second && &ca == &a && &cb == &b, "structured binding at %zu", n);
				using std::get;
				REQ("iteration", &get<0>(ref) == &a && &get<1>(ref) == &b && &get<1>(cref) == &b, "get at %zu", n);
				if constexpr (std::is_convertible_v<decltype(*i), std::pair<const K &, typename C::mapped_type &>>)
				{
					const std::pair<const K &, typename C::mapped_type &> pr = *i;
					REQ("iteration", &pr.first == &a && &pr.second == &b, "pair of references at %zu", n);
				}
				const std::pair<K, typename C::mapped_type> copy(ref.first, ref.second);
				i->second = make_of<typename C::mapped_type>::make(9);
				REQ("value", make_of<typename C::mapped_type>::id(cc.at(copy.first)) == 9 && make_of<typename C::mapped_type>::id(cref.second) == 9, "assignment through the iterator %zu", n);
				(*i).second = copy.second;
				REQ("value", make_of<typename C::mapped_type>::id(cc.find(copy.first)->second) == make_of<typename C::mapped_type>::id(copy.second), "assignment through the reference %zu", n);
			}
		}
		REQ("iteration", CIt(c.end()) == cc.end() && k == cc.end(), "conversion of the end");
		if constexpr (local) if (cc.bucket_count())
		{
			std::size_t in = 0;
			for (std::size_t b = 0; b < cc.bucket_count(); ++b)
			{
				std::vector<const void *> bs;
				for (auto i = cc.begin(b); i != cc.end(b); ++i) { bs.push_back(&key(*i)); REQ("iteration", bs.size() <= c.size(), "bucket does not end"); }
				REQ("iteration", bs.size() == cc.bucket_size(b), "bucket size");
				in += bs.size();
				if (bs.empty() || r.chance(1, 2)) continue;
				walk<typename C::local_iterator>(c.begin(b), c.end(b), bs, "local iterator");
				walk<typename C::const_local_iterator>(cc.begin(b), cc.end(b), bs, "const local iterator");
				walk<typename C::const_local_iterator>(c.cbegin(b), c.cend(b), bs, "cbegin of a bucket");
				typename C::const_local_iterator j = c.begin(b);
				REQ("iteration", j == cc.begin(b), "conversion of a local iterator");
			}
			REQ("iteration", in == c.size(), "buckets have %zu of %zu elements", in, std::size_t(c.size()));
		}
		feature("positions", long(c.size()));
	}
	// Comparisons of references are those of pairs.
	void references()
	{
		if constexpr (map)
		{
			C d(c);
			for (int i = 0; i < 3; ++i) { const int k = int(r.below(40)); d.insert_or_assign(make_of<K>::make(k), make_of<typename C::mapped_type>::make(int(r.below(5)))); }
			const C &cc = c;
			std::vector<It> a;
			std::vector<CIt> b;
			for (auto i = c.begin(); i != c.end(); ++i) a.push_back(i);
			for (auto i = std::as_const(d).begin(); i != std::as_const(d).end(); ++i) b.push_back(i);
			for (int t = 0; t < 60 && !a.empty(); ++t)
			{
				const auto i = a[r.below(unsigned(a.size()))];
				const auto j = r.chance(1, 3) ? CIt(std::as_const(d).find(i->first)) : b[r.below(unsigned(b.size()))];
				if (j == std::as_const(d).end()) continue;
				++S.checks;
				const std::pair<K, typename C::mapped_type> p(i->first, i->second), q(j->first, j->second);
				auto &&x = *i;
				auto &&y = *j;
				REQ("equality", (x == y) == (p == q) && (x != y) == (p != q) && (y == x) == (p == q), "equality of references");
				REQ("equality", (x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q), "order of references");
				REQ("equality", x == *cc.find(i->first) && !(x != *i) && x <= *i && x >= *i && !(x < *i), "a reference differs from itself");
			}
			feature("references", long(a.size()));
		}
		C e(c);
		REQ("equality", e == c && !(e != c), "a copy differs");
		if (!c.empty()) { e.erase(e.begin()); REQ("equality", e != c && !(e == c) && c != e, "a part equals the whole"); }
	}
	void throwing()
	{
		if constexpr (std::is_same_v<typename C::mapped_type, Touchy>)
		{
			C d(c);
			const int what = int(r.below(3));
			if (what == 1 && !d.empty()) d.erase(d.begin());
			if (what == 2 && !d.empty()) d.begin()->second.v += 100;
			const bool same = what == 0 || c.empty();
			for (long at = 1; at < 40; ++at)
			{
				Touchy::thrown = false, Touchy::countdown = at;
				const int form = int(r.below(4));
				bool got = false, caught = false;
				try
				{
					if (form == 0) got = c == d;
					else if (form == 1) got = !(c != d);
					else if (form == 2) got = std::as_const(d) == std::as_const(c);
					else { got = same; if (!c.empty() && !d.empty()) { (void) (*c.begin() == *d.begin()); (void) (*c.begin() != *d.find(c.begin()->first == d.begin()->first ? d.begin()->first : c.begin()->first == d.begin()->first ? c.begin()->first : d.begin()->first)); (void) (*c.begin() < *d.begin()); } }
				}
				catch (const Touchy::error &) { caught = true; }
				Touchy::countdown = 0;
				REQ("exception", caught == Touchy::thrown, "exception of a comparison is swallowed");
				if (!caught) { REQ("equality", got == same, "comparison gives %d", int(got)); break; }
				++W.faults;
			}
			C e(c);
			REQ("equality", e == c, "a copy differs after comparisons that threw");
			feature("throwing", 1);
		}
	}
	static void run(Rng &r, const char *name)
	{
		g_kind = name;
		Refs t(r, r.chance(1, 4) ? 4 : r.chance(1, 3) ? 300 : 40);
		++S.cases, ++S.ops;
		if (!std::strcmp(g_profile, "positions")) t.positions();
		else if (!std::strcmp(g_profile, "references")) t.references();
		else if constexpr (map) t.throwing();
		S.elements += long(t.c.size());
	}
};
#define RUN(ORDERED, ...) if (pick++ == which) Refs<__VA_ARGS__, ORDERED>::run(r, #__VA_ARGS__)
#define RUN_ALL(ORDERED, NAME) \
	RUN(ORDERED, tpp::NAME##_map<int, Touchy, Mix>); \
	RUN(ORDERED, tpp::NAME##_map<std::string, int, Mix>); \
	if (std::strcmp(g_profile, "throwing")) \
	{ \
		RUN(ORDERED, tpp::NAME##_set<int, Mix>); \
		RUN(ORDERED, tpp::NAME##_set<std::string, Mix>); \
	}
static int run_one(int which, Rng &r)
{
	int pick = 0;
	RUN_ALL(false, sparse)
	RUN_ALL(true, ordered_sparse)
	RUN_ALL(false, stable)
	RUN_ALL(true, ordered_stable)
	RUN_ALL(false, dense)
	RUN_ALL(true, ordered_dense)
	return pick;
}
int main(int argc, char **argv)
{
	if (argc < 5) return 3;
	g_profile = argv[1];
	g_seed = std::strtoull(argv[2], nullptr, 10);
	const long first = std::atol(argv[3]), count = std::atol(argv[4]);
	g_outfile = argc > 5 ? argv[5] : nullptr;
	install_death_callback();
	Rng none(0);
	const int kinds = run_one(-1, none);
	for (long i = first; i < first + count; ++i)
	{
		begin_case(i);
		const u64 seed = mix64(g_seed * 1000003 + u64(i));
		Rng r(seed);
		run_one(int(i % kinds), r);
		S.digests.insert(seed);
	}
	S.samples.push_back("last case: " + std::string(g_kind));
	write_stats();
	std::fflush(stdout);
	return 0;
}
