// Model-based driver for the multi-key dense containers.
//   KEYS         1..4 keys of an entry
//   MAP          0/1
//   ALLOC_PROPS, TRANSPARENT   as in main_engine.cpp
#include "common.hpp"
#include <numeric>
#include <tpp/dense_multiset.hpp>
#include <tpp/dense_multimap.hpp>
#include <array>

#ifndef KEYS
#define KEYS 2
#endif
#ifndef MAP
#define MAP 1
#endif
#ifndef ALLOC_PROPS
#define ALLOC_PROPS 0
#endif
#ifndef TRANSPARENT
#define TRANSPARENT 0
#endif
#if TRANSPARENT
using H = HashT;
using E = EqT;
#else
using H = Hash;
using E = Eq;
#endif
template<typename T>
using A = TA<T, ALLOC_PROPS>;
constexpr int N = KEYS;
constexpr bool map = MAP;
#if KEYS == 1
using Mk = tpp::multikey<Key>;
#elif KEYS == 2
using Mk = tpp::multikey<Key, Key>;
#elif KEYS == 3
using Mk = tpp::multikey<Key, Key, Key>;
#else
using Mk = tpp::multikey<Key, Key, Key, Key>;
#endif
#if MAP
template<typename T> struct tup;
template<typename... K> struct tup<tpp::multikey<K...>> { using type = std::tuple<K...>; };
using C = tpp::dense_multimap<Mk, Val, H, E, A<std::pair<tup<Mk>::type, Val>>>;
#else
template<typename T> struct tup;
template<typename... K> struct tup<tpp::multikey<K...>> { using type = std::tuple<K...>; };
using C = tpp::dense_multiset<Mk, H, E, A<tup<Mk>::type>>;
#endif
using KT = C::key_type;
using IT = C::insert_type;
using alloc_t = C::allocator_type;
using P_copy = std::allocator_traits<alloc_t>::propagate_on_container_copy_assignment;
using P_move = std::allocator_traits<alloc_t>::propagate_on_container_move_assignment;
using P_swap = std::allocator_traits<alloc_t>::propagate_on_container_swap;
constexpr bool always_equal = std::allocator_traits<alloc_t>::is_always_equal::value;
constexpr bool select_copy = (ALLOC_PROPS & A_SELECT) != 0;
using iterator = C::iterator;
using const_iterator = C::const_iterator;
using Ids = std::array<int, N>;

struct Ent { Ids id; int tag, val; };
struct Model
{
	std::map<int, Ent> by_tag; // tags are unique
	std::array<std::map<int, int>, N> idx;
	int huid = 0, hmode = 0, euid = 0, alloc = 0;
	float mlf = .875f;
	bool mlf_exceeded = false;

	std::size_t size() const { return by_tag.size(); }
	bool free(const Ids &k) const
	{
		for (int i = 0; i < N; ++i) if (idx[i].count(k[i])) return false;
		return true;
	}
	bool conflicts(const Ids &k, int tag) const
	{
		for (int i = 0; i < N; ++i) { auto f = idx[i].find(k[i]); if (f != idx[i].end() && f->second == tag) return true; }
		return false;
	}
	void add(const Ent &e)
	{
		by_tag[e.tag] = e;
		for (int i = 0; i < N; ++i) idx[i][e.id[i]] = e.tag;
	}
	void remove(int tag)
	{
		const Ent e = by_tag.at(tag);
		for (int i = 0; i < N; ++i) idx[i].erase(e.id[i]);
		by_tag.erase(tag);
	}
	void clear() { by_tag.clear(); for (auto &m: idx) m.clear(); }
};
template<std::size_t I, typename R>
static const Key &key_of(const R &ref)
{
	if constexpr (map) return std::get<I>(ref.first);
	else return std::get<I>(ref);
}
template<typename R>
static int val_of(const R &ref)
{
	if constexpr (map) { ref.second.use("access"); return ref.second.v; }
	else return 0;
}
template<typename F, std::size_t... I>
static void each_impl(F &&f, std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }
template<typename F>
static void each(F &&f) { each_impl(f, std::make_index_sequence<N>{}); }
template<typename F>
static void at_index(int i, F &&f) { each([&](auto I) { if (int(I.value) == i) f(I); }); }

template<std::size_t... I>
static KT make_key_impl(const Ids &id, int tag, std::index_sequence<I...>) { return KT(Key(id[I], tag)...); }
template<std::size_t... I>
static auto look_key(const Ids &id, int tag, std::index_sequence<I...>) { return std::make_tuple(Look{id[I], tag}...); }
static KT make_key(const Ids &id, int tag) { return make_key_impl(id, tag, std::make_index_sequence<N>{}); }
template<typename T = IT>
static T make(const Ent &e)
{
	if constexpr (map) return T(make_key(e.id, e.tag), Val(e.val));
	else return make_key(e.id, e.tag);
}
// Something an entry can be constructed from.
using LookTuple = decltype(look_key(std::declval<Ids>(), 0, std::make_index_sequence<N>{}));
using conv_t = std::conditional_t<map, std::pair<LookTuple, int>, LookTuple>;
template<typename T = conv_t>
static T make_conv(const Ent &e)
{
	if constexpr (map) return T(look_key(e.id, e.tag, std::make_index_sequence<N>{}), e.val);
	else return look_key(e.id, e.tag, std::make_index_sequence<N>{});
}
template<typename T>
static const KT &keys_of(const T &x) { if constexpr (map) return x.first; else return x; }

enum Op
{
	O_INSERT, O_INSERT_RV, O_INSERT_HINT, O_EMPLACE, O_EMPLACE_HINT, O_TRY, O_TRY_HINT, O_AT, O_FIND, O_ERASE_KEY, O_ERASE_IT, O_ERASE_RANGE, O_ERASE_IF, O_ERASE_LOOP, O_CLEAR,
	O_RESERVE, O_REHASH, O_MLF, O_COPY_CTOR, O_MOVE_CTOR, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SELF_ASSIGN, O_SWAP, O_REBUILD, O_RANGE_INSERT, O_IL, O_EQUAL, O_HETERO, O_SELF_ARG, O_MUTATE,
	O_NOINVALIDATE, O_FILL, O_DRAIN, O_CHURN, O_COUNT
};
static const char *op_names[] = {"insert", "insert&&", "insert(hint)", "emplace", "emplace_hint", "try_emplace", "try_emplace(hint)", "at", "find", "erase(key)", "erase(it)", "erase(range)", "erase_if",
	"erase-loop", "clear", "reserve", "rehash", "max_load_factor", "copy-ctor", "move-ctor", "copy-assign", "move-assign", "self-assign", "swap", "rebuild", "insert(range)", "insert(il)", "==",
	"heterogeneous", "self-arg", "mutate", "no-invalidate", "fill", "drain", "churn"};
struct Profile { int w[O_COUNT]; bool fault = false, portable = false; };

template<typename C>
struct Driver
{
	using IT = typename C::insert_type;
	using iterator = typename C::iterator;
	using const_iterator = typename C::const_iterator;
	struct Slot { std::unique_ptr<C> c; Model m; };
	static constexpr int SLOTS = 3;
	Slot slot[SLOTS];
	Rng r;
	const Profile &prof;
	int range = 16, next_tag = 1, next_uid = 1, mode_base = 0;
	u64 digest = 0;
	long adds = 0, dels = 0, extra = 0;

	Driver(u64 seed, const Profile &p) : r(seed), prof(p) {}
	void mix(u64 x) { digest = mix64(digest ^ x); }
	Slot &pick_slot() { return slot[r.below(SLOTS)]; }
	int pick_key() { return int(r.below(unsigned(range))); }
	const Ent *pick_ent(Model &m)
	{
		if (!m.size()) return nullptr;
		if (m.size() > 64) { auto i = m.by_tag.lower_bound(m.by_tag.begin()->first + int(r.below(unsigned(m.by_tag.rbegin()->first - m.by_tag.begin()->first + 1)))); return &i->second; }
		return &std::next(m.by_tag.begin(), r.below(unsigned(m.size())))->second;
	}
	// Keys of a candidate: all random, shared with one stored entry, or shared with different ones.
	Ids pick_ids(Model &m)
	{
		Ids k;
		const auto how = r.below(6);
		for (int i = 0; i < N; ++i) k[i] = pick_key();
		if (how == 0) { if (auto e = pick_ent(m)) k = e->id; }
		else if (how == 1) { if (auto e = pick_ent(m)) { const int p = int(r.below(N)); k[p] = e->id[p]; } }
		else if (how == 2) { for (int i = 0; i < N; ++i) if (auto e = pick_ent(m)) k[i] = e->id[i]; }
		else if (how == 3) { for (int i = 1; i < N; ++i) k[i] = k[0]; }
		else if (how == 4) { if (auto e = pick_ent(m)) for (int i = 0; i < N; ++i) k[i] = e->id[(i + 1) % N]; } // the same values in other positions
		return k;
	}
	Ids fresh_ids(Model &m)
	{
		Ids k;
		for (int i = 0; i < N; ++i)
		{
			k[i] = pick_key();
			for (int t = 0; m.idx[i].count(k[i]) && t < 8; ++t) k[i] = pick_key();
			while (m.idx[i].count(k[i])) k[i] = range + int(r.below(20000));
		}
		return k;
	}
	H new_hash() { return H(r.chance(3, 4) ? mode_base : int(r.below(HASH_MODES)), next_uid++); }
	E new_eq() { return E(next_uid++); }
	alloc_t new_alloc() { return alloc_t(int(r.below(3)) + 1); }
	void allow(const Model &a)
	{
		W.allow_n = W.eallow_n = 1;
		W.allow[0] = a.huid, W.eallow[0] = a.euid;
	}
	void allow(const Model &a, const Model &b)
	{
		W.allow_n = W.eallow_n = 2;
		W.allow[0] = a.huid, W.allow[1] = b.huid, W.eallow[0] = a.euid, W.eallow[1] = b.euid;
	}

	// ------------------------------------------------------------ faults
	template<typename F>
	void strong(Slot &s, F &&f)
	{
		allow(s.m);
		if (!prof.fault) { f(); return; }
		for (long k = 1;; ++k)
		{
			W.fault_at = k <= 60 ? k : 0;
			try { f(); break; }
			catch (const Fault &flt)
			{
				W.fault_at = 0, W.armed = false;
				static const char *names[] = {"fault.alloc", "fault.key-ctor", "fault.key-copy", "fault.value-ctor", "fault.value-copy", "fault.hash", "fault.eq"};
				feature(names[flt.point]);
				g_log.add("  fault", flt.point, k);
				verify(s, true);
				balance();
			}
		}
		W.fault_at = 0, W.armed = false;
	}
	template<typename F>
	bool weak(Slot &s, const Model &complete, F &&f)
	{
		allow(s.m, complete);
		if (!prof.fault) { f(); return true; }
		W.fault_at = 1 + long(r.below(r.chance(1, 2) ? 6 : 80));
		try { f(); W.fault_at = 0, W.armed = false; return true; }
		catch (const Fault &flt)
		{
			W.fault_at = 0, W.armed = false;
			feature("fault.bulk");
			g_log.add("  fault(bulk)", flt.point);
			resync(s, complete);
			return false;
		}
	}
	void resync(Slot &s, const Model &complete)
	{
		const C &c = *s.c;
		Model nm;
		nm.huid = c.hash_function().uid, nm.hmode = c.hash_function().mode, nm.euid = c.key_eq().uid, nm.alloc = c.get_allocator().id, nm.mlf = c.max_load_factor();
		nm.mlf_exceeded = s.m.mlf_exceeded || complete.mlf_exceeded;
		REQ("exception", (nm.huid == s.m.huid || nm.huid == complete.huid) && (nm.euid == s.m.euid || nm.euid == complete.euid) && (nm.alloc == s.m.alloc || nm.alloc == complete.alloc), "functors or allocator changed to unknown ones by a failed bulk operation");
		std::size_t n = 0;
		for (auto i = c.begin(); i != c.end(); ++i)
		{
			REQ("exception", ++n <= c.size(), "traversal does not end after a failed bulk operation");
			const int tag = key_of<0>(*i).tag;
			auto f = complete.by_tag.find(tag);
			REQ("exception", f != complete.by_tag.end() && (!map || f->second.val == val_of(*i)), "entry %d after a failed bulk operation is not part of the complete result", tag);
			nm.add(f->second);
		}
		s.m = nm;
		verify(s, true);
		balance();
	}

	// ------------------------------------------------------------ verification
	void balance()
	{
		long n = extra;
		for (auto &s: slot) n += long(s.m.size());
		REQ("lifetime", W.keys_live == n * N, "%ld keys are alive, the containers hold %ld", W.keys_live, n * N);
		if (map) REQ("lifetime", W.vals_live == n, "%ld values are alive, the containers hold %ld", W.vals_live, n);
	}
	template<typename It>
	void same(const C &c, It i, const Ent &e, const char *what)
	{
		REQ("value", const_iterator(i) != c.end(), "%s: position is the end, expected entry %d", what, e.tag);
		each([&](auto I)
		{
			const Key &k = key_of<I.value>(*i);
			k.use("access");
			REQ("multikey", k.id == e.id[I.value] && k.tag == e.tag, "%s: key %d of the entry is %d (entry %d), expected %d (entry %d)", what, int(I.value), k.id, k.tag, e.id[I.value], e.tag);
		});
		if (map) REQ("value", val_of(*i) == e.val, "%s: value of entry %d is %d, expected %d", what, e.tag, val_of(*i), e.val);
	}
	void verify(Slot &s, bool full = false)
	{
		C &c = *s.c;
		const C &cc = c;
		const auto n = s.m.size();
		REQ("value", cc.size() == n && cc.empty() == (n == 0), "size is %zu, expected %zu", std::size_t(cc.size()), n);
		REQ("capacity", cc.size() <= cc.capacity() || s.m.mlf_exceeded, "size %zu exceeds the capacity %zu", n, std::size_t(cc.capacity()));
		if (!full && n > 24 && !r.chance(24, unsigned(n))) return;
		++S.checks;
		S.elements += long(n);
		const bool armed = W.armed;
		W.armed = false;
		allow(s.m);
		REQ("functor", cc.hash_function().uid == s.m.huid && cc.key_eq().uid == s.m.euid, "functors are %d/%d, expected %d/%d", cc.hash_function().uid, cc.key_eq().uid, s.m.huid, s.m.euid);
		REQ("alloc", cc.get_allocator().id == s.m.alloc, "allocator is %d, expected %d", cc.get_allocator().id, s.m.alloc);
		REQ("capacity", cc.max_load_factor() == s.m.mlf, "maximum load factor is %f, expected %f", cc.max_load_factor(), s.m.mlf);
		const float lf = cc.bucket_count() ? float(n) / float(cc.bucket_count()) : 0.f;
		REQ("capacity", cc.load_factor() > lf - 1e-4f && cc.load_factor() < lf + 1e-4f, "load factor is %f, expected %f", cc.load_factor(), lf);
		if (!s.m.mlf_exceeded) REQ("capacity", lf <= s.m.mlf + 1e-5f, "load factor %f exceeds the maximum %f", lf, s.m.mlf);
		std::set<int> seen;
		std::vector<const void *> fwd, bwd;
		for (auto i = c.begin(); i != c.end(); ++i)
		{
			const int tag = key_of<0>(*i).tag;
			REQ("iteration", seen.size() < n && seen.insert(tag).second, "traversal visits entry %d twice", tag);
			auto f = s.m.by_tag.find(tag);
			REQ("iteration", f != s.m.by_tag.end(), "traversal visits entry %d, which is not stored", tag);
			same(cc, i, f->second, "traversal");
			fwd.push_back(&key_of<0>(*i));
		}
		REQ("iteration", seen.size() == n && std::size_t(cc.end() - cc.begin()) == n && std::size_t(std::distance(cc.cbegin(), cc.cend())) == n, "traversal visits %zu of %zu entries", seen.size(), n);
		std::size_t back = 0;
		for (auto i = c.rbegin(); i != c.rend(); ++i, ++back) REQ("iteration", back < n && &key_of<0>(*i) == fwd[n - 1 - back], "reverse traversal does not mirror the forward one");
		REQ("iteration", back == n, "reverse traversal visits %zu of %zu entries", back, n);
		for (auto i = cc.rbegin(); i != cc.rend(); ++i) { bwd.push_back(&key_of<0>(*i)); REQ("iteration", bwd.size() <= n, "reverse traversal does not end"); }
		std::reverse(bwd.begin(), bwd.end());
		REQ("iteration", fwd == bwd, "reverse traversal does not mirror the forward one");
		for (auto &[tag, e]: s.m.by_tag)
			each([&, &e = e](auto I)
			{
				const Key k(e.id[I.value], -7);
				same(cc, c.template find<I.value>(k), e, "find");
				same(cc, cc.template find<I.value>(k), e, "find const");
				REQ("multikey", cc.template contains<I.value>(k), "contains<%d>(%d) is false", int(I.value), k.id);
				if constexpr (map) REQ("value", c.template at<I.value>(k).v == e.val && cc.template at<I.value>(k).v == e.val, "at<%d>(%d) is wrong", int(I.value), k.id);
				if (cc.bucket_count()) REQ("value", cc.template bucket<I.value>(k) < cc.bucket_count(), "bucket<%d>(%d) is out of range", int(I.value), k.id);
			});
		if (cc.bucket_count() && cc.bucket_count() < 400)
		{
			// Every bucket has a chain for each of the keys.
			std::vector<std::array<std::size_t, N>> chains(cc.bucket_count());
			for (auto &[tag, e]: s.m.by_tag)
				each([&, &e = e](auto I) { ++chains[cc.template bucket<I.value>(Key(e.id[I.value], -7))][I.value]; });
			for (std::size_t b = 0; b < cc.bucket_count(); ++b)
			{
				const std::size_t size = cc.bucket_size(b), least = *std::max_element(chains[b].begin(), chains[b].end()), most = std::accumulate(chains[b].begin(), chains[b].end(), std::size_t(0));
				REQ("iteration", size >= least && size <= most, "bucket %zu has %zu entries, expected %zu to %zu", b, size, least, most);
				std::size_t steps = 0, csteps = 0, constant = 0;
				for (auto i = c.begin(b); i != c.end(b); ++i) REQ("iteration", ++steps <= most, "traversal of bucket %zu does not end", b);
				for (auto i = c.cbegin(b); !(i == c.cend(b)); i++) REQ("iteration", ++csteps <= most, "traversal of bucket %zu does not end", b);
				for (auto i = cc.begin(b); i != cc.end(b); ++i) REQ("iteration", ++constant <= most, "traversal of bucket %zu does not end", b);
				REQ("iteration", steps == size && csteps == size && constant == size, "bucket %zu has %zu entries, its traversals visit %zu, %zu and %zu", b, size, steps, csteps, constant);
				if (size > 1) feature("bucket.chain");
			}
		}
		for (int j = 0; j < 3; ++j)
			each([&](auto I)
			{
				const int id = r.chance(1, 2) ? pick_key() : range + int(r.below(1000));
				const Key k(id, -7);
				const bool has = s.m.idx[I.value].count(id) != 0;
				REQ("multikey", cc.template contains<I.value>(k) == has && (cc.template find<I.value>(k) != cc.end()) == has && (c.template find<I.value>(k) != c.end()) == has, "contains<%d>(%d), expected %d", int(I.value), id, int(has));
			});
		W.armed = armed;
	}
	const_iterator pick_hint(Slot &s)
	{
		allow(s.m);
		if (s.m.size() == 0 || r.chance(1, 3)) return s.c->cend();
		return std::next(s.c->cbegin(), r.below(unsigned(s.m.size())));
	}
	void inserted(Slot &s, bool did, iterator it, const Ent &e, const char *what)
	{
		const bool expect = s.m.free(e.id);
		REQ("multikey", did == expect, "%s of entry %d reports %d, expected %d", what, e.tag, int(did), int(expect));
		if (expect)
		{
			s.m.add(e);
			s.m.mlf_exceeded = false;
			++adds;
			same(*s.c, it, e, what);
		}
		else
		{
			REQ("multikey", const_iterator(it) != std::as_const(*s.c).end(), "%s: rejected insertion returns the end", what);
			const int tag = key_of<0>(*it).tag;
			REQ("multikey", s.m.conflicts(e.id, tag), "%s: rejected insertion returns entry %d, which is not a conflicting one", what, tag);
			same(*s.c, it, s.m.by_tag.at(tag), what);
			feature("insert.rejected");
		}
		mix(expect);
		verify(s);
	}
	void add_one(Slot &s, const Ids &id)
	{
		const Ent e{id, next_tag++, map ? int(r.below(1000)) : 0};
		auto x = make<IT>(e);
		allow(s.m);
		auto res = s.c->insert(std::move(x));
		REQ("multikey", res.second == s.m.free(id), "insert of entry %d reports %d", e.tag, int(res.second));
		if (res.second) s.m.add(e), ++adds, s.m.mlf_exceeded = false;
	}
	void require_intact(const IT &x, const char *what, bool value = true)
	{
		each([&](auto I) { REQ("lifetime", std::get<I.value>(keys_of(x)).magic == Key::LIVE, "%s consumes the key %d of an argument that it must leave alone", what, int(I.value)); });
		if constexpr (map) if (value) REQ("lifetime", x.second.magic == Val::LIVE, "%s consumes the value of an argument that it must leave alone", what);
	}
	void require_used(const IT &x, const char *what)
	{
		each([&](auto I) { REQ("lifetime", std::get<I.value>(keys_of(x)).magic == Key::MOVED, "%s copies the key %d that it was to move", what, int(I.value)); });
		if constexpr (map) REQ("lifetime", x.second.magic == Val::MOVED, "%s copies the value that it was to move", what);
	}
	std::vector<Ent> items(unsigned n, Model *into)
	{
		std::vector<Ent> v;
		for (unsigned i = 0; i < n; ++i)
		{
			Ent e{pick_ids(*into), next_tag++, map ? int(r.below(1000)) : 0};
			v.push_back(e);
			if (into->free(e.id)) into->add(e);
		}
		return v;
	}

	void build(Slot &s)
	{
		s.c.reset();
		s.m = Model{};
		W.allow_n = W.eallow_n = -1;
		const auto h = new_hash();
		const auto e = new_eq();
		const auto a = new_alloc();
		static const unsigned counts[] = {0, 1, 2, 3, 7, 8, 9, 16, 31, 64};
		const std::size_t n = counts[r.below(10)];
		const auto form = r.below(17);
		g_log.add("construct", long(form), long(n), a.id);
		Model nm;
		std::size_t pos = 0;
		const auto ents = items(r.below(20), &nm);
		std::vector<IT> v;
		for (auto &x: ents) v.push_back(make<IT>(x));
		Model lm;
		std::vector<Ent> listed;
		for (int i = 0; i < 3; ++i)
		{
			listed.push_back({i && r.chance(1, 2) ? pick_ids(lm) : fresh_ids(lm), next_tag++, map ? i * 7 : 0});
			if (lm.free(listed.back().id)) lm.add(listed.back());
		}
		const auto set = [&](int hu, int hm, int eu, int al) { s.m.huid = hu, s.m.hmode = hm, s.m.euid = eu, s.m.alloc = al; };
		const auto keys = W.keys_live, vals = W.vals_live;
		const auto blocks = W.blocks.size();
		for (long k = 1;; ++k)
		{
			W.fault_at = prof.fault && k <= 60 ? k : 0;
			try
			{
				Arm arm;
				switch (form)
				{
					case 0: s.c = std::make_unique<C>(); break;
					case 1: s.c = std::make_unique<C>(a); break;
					case 2: s.c = std::make_unique<C>(n, a); break;
					case 3: s.c = std::make_unique<C>(n, h, a); break;
					case 4: s.c = std::make_unique<C>(v.begin(), v.end(), n, h, e, a); break;
					case 5: s.c = std::make_unique<C>(v.begin(), v.end(), n, h, a); break;
					case 6: s.c = std::make_unique<C>(v.begin(), v.end(), n, a); break;
					case 8: s.c = std::make_unique<C>(v.begin(), v.end()); break;
					case 9: pos = 0; s.c = std::make_unique<C>(InputIt<IT>{&v, &pos, false}, InputIt<IT>{&v, &pos, true}, n, h, e, a); break;
					case 10: pos = 0; s.c = std::make_unique<C>(InputIt<IT>{&v, &pos, false}, InputIt<IT>{&v, &pos, true}); break;
					case 11: s.c = std::make_unique<C>(n, h); break;
					case 13: case 14: case 15: case 16:
					{
						const auto with = [&](auto il)
						{
							using L = std::initializer_list<decltype(il(0))>;
							switch (form)
							{
								case 13: s.c = std::make_unique<C>(L{il(0), il(1), il(2)}, n, h, e, a); break;
								case 14: s.c = std::make_unique<C>(L{il(0), il(1), il(2)}, n, h, a); break;
								case 15: s.c = std::make_unique<C>(L{il(0), il(1), il(2)}, n, a); break;
								default: s.c = std::make_unique<C>(L{il(0), il(1), il(2)}); break;
							}
						};
						switch (listed[0].tag % 3)
						{
							case 0: with([&](int i) { return make<typename C::value_type>(listed[i]); }); break;
							case 1: with([&](int i) { return make<IT>(listed[i]); }); break;
							default: with([&](int i) { return make_conv(listed[i]); }); break;
						}
						break;
					}
					default: s.c = std::make_unique<C>(n, h, e, a); break;
				}
				break;
			}
			catch (const Fault &)
			{
				feature("fault.constructor");
				REQ("exception", W.keys_live == keys && W.vals_live == vals && W.blocks.size() == blocks, "a failed construction leaks");
			}
		}
		W.fault_at = 0, W.armed = false;
		if ((form >= 4 && form <= 6) || (form >= 8 && form <= 10)) s.m = nm;
		if (form >= 13) s.m = lm, feature("ctor.il");
		switch (form)
		{
			case 0: case 8: case 10: case 16: set(0, 0, 0, 0); break;
			case 1: case 2: case 6: case 15: set(0, 0, 0, a.id); break;
			case 3: case 5: case 14: set(h.uid, h.mode, 0, a.id); break;
			case 11: set(h.uid, h.mode, 0, 0); break;
			default: set(h.uid, h.mode, e.uid, a.id);
		}
		feature(form == 9 || form == 10 ? "ctor.single-pass" : (form >= 4 && form <= 6) || form == 8 ? "ctor.range" : form < 2 ? "ctor.default" : "ctor.buckets");
		if (form == 2 || form == 11 || form == 12 || form == 3 || form == 7) REQ("capacity", s.c->bucket_count() >= n, "constructed with %zu buckets, has %zu", n, std::size_t(s.c->bucket_count()));
		verify(s, true);
	}
	void moved_from(Slot &o)
	{
		REQ("value", o.c->size() == 0 && o.c->empty() && o.c->begin() == o.c->end(), "moved-from container is not empty");
		o.m.clear();
		o.m.huid = o.c->hash_function().uid, o.m.hmode = o.c->hash_function().mode, o.m.euid = o.c->key_eq().uid;
		o.m.alloc = o.c->get_allocator().id, o.m.mlf = o.c->max_load_factor(), o.m.mlf_exceeded = false;
	}
	void put(Slot &o, std::unique_ptr<C> n, Model m)
	{
		o.c = std::move(n);
		o.m = std::move(m);
		verify(o, true);
	}

	void step(int op)
	{
		Slot &s = pick_slot();
		C &c = *s.c;
		g_log.add(op_names[op], long(&s - slot));
		++S.ops;
		allow(s.m);
		mix(u64(op));
		switch (op)
		{
			case O_INSERT: case O_INSERT_RV: case O_INSERT_HINT: case O_EMPLACE: case O_EMPLACE_HINT: case O_TRY: case O_TRY_HINT:
			{
				Ent e{pick_ids(s.m), next_tag++, map ? int(r.below(1000)) : 0};
				g_log.add("  keys", e.id[0], N > 1 ? e.id[N > 1 ? 1 : 0] : -1, e.tag);
				const bool hinted = op == O_INSERT_HINT || op == O_EMPLACE_HINT || op == O_TRY_HINT;
				const bool rv = r.chance(1, 2), present = !s.m.free(e.id);
				const auto hpos = hinted ? pick_hint(s) - c.cbegin() : 0; // dense positions of unordered containers are indices
				const auto before = c.size();
				const bool used = (op == O_EMPLACE || op == O_EMPLACE_HINT) && !(map && rv && op == O_EMPLACE) && e.tag % 3 == 0;
				std::pair<iterator, bool> res{};
				strong(s, [&]
				{
					auto x = make<IT>(e);
					bool value_used = false;
					++extra;
					struct Dec { long &l; ~Dec() { --l; } } dec{extra};
					const auto h = hinted ? c.cbegin() + hpos : c.cend();
					Arm arm;
					switch (op)
					{
						case O_INSERT:
							if (e.tag % 4 == 3) { const auto y = make_conv(e); res = c.insert(y); feature("insert.convert"); }
							else if (rv) res = c.insert(std::as_const(x));
							else res = c.insert(x);
							break;
						case O_INSERT_RV:
							if (e.tag % 4 == 3)
							{
								const auto looks = W.copied_looks;
								res = c.insert(make_conv(e));
								REQ("lifetime", W.copied_looks == looks, "insert(convertible&&) copies from an rvalue");
								feature("insert.convert");
								break;
							}
							res = c.insert(std::move(x)); if (present) require_intact(x, "insert(&&)"); break;
						case O_INSERT_HINT:
							if (e.tag % 4 == 2) { const auto y = make_conv(e); res.first = c.insert(h, y); }
							else if (e.tag % 4 == 3)
							{
								const auto looks = W.copied_looks;
								res.first = c.insert(h, make_conv(e));
								REQ("lifetime", W.copied_looks == looks, "insert(hint,convertible&&) copies from an rvalue");
							}
							else if (rv) { res.first = c.insert(h, std::move(x)); if (present) require_intact(x, "insert(hint,&&)"); }
							else if (e.tag / 4 % 2) res.first = c.insert(h, std::as_const(x));
							else res.first = c.insert(h, x);
							break;
						case O_EMPLACE:
							if constexpr (map)
							{
								if (rv) res = c.emplace(std::piecewise_construct, std::forward_as_tuple(x.first), std::forward_as_tuple(e.val));
								else if (used) res = c.emplace(std::move(x.first), std::move(x.second));
								else res = c.emplace(x.first, x.second);
							}
							else if (used) res = c.emplace(std::move(x));
							else res = c.emplace(x);
							break;
						case O_EMPLACE_HINT:
							if (used)
							{
								if constexpr (map) res.first = c.emplace_hint(h, std::move(x.first), std::move(x.second));
								else res.first = c.emplace_hint(h, std::move(x));
							}
							else if constexpr (map) res.first = c.emplace_hint(h, x.first, Val(e.val));
							else res.first = c.emplace_hint(h, x);
							break;
						default:
							if constexpr (map)
							{
								// Mapped objects that are constructed from something, copied, or moved.
								const auto with_mapped = [&](auto &&f)
								{
									switch (e.tag / 2 % 4)
									{
										case 0: return f(e.val);
										case 1: return f(x.second);
										case 2: return f(std::as_const(x.second));
										default: break;
									}
									auto i = f(std::move(x.second));
									REQ("lifetime", (x.second.magic == Val::MOVED) == (c.size() != before), "try_emplace %s", c.size() != before ? "copied an argument that it was to move" : "moved from its arguments although nothing was inserted");
									value_used = true;
									return i;
								};
								if (op == O_TRY)
								{
									if (rv) { res = c.try_emplace(std::move(x.first), std::move(x.second)); if (present) require_intact(x, "try_emplace(&&)"); }
									else res = with_mapped([&](auto &&...v) { return c.try_emplace(std::as_const(x.first), std::forward<decltype(v)>(v)...); });
								}
								else
								{
									if (rv)
									{
										if (e.tag % 2) res.first = c.try_emplace(h, std::move(x.first), std::move(x.second));
										else res.first = c.try_emplace(c.begin() + hpos, std::move(x.first), std::move(x.second));
									}
									if (rv) { if (present) require_intact(x, "try_emplace(hint,&&)"); }
									else if (e.tag % 2) res.first = with_mapped([&](auto &&...v) { return c.try_emplace(h, std::as_const(x.first), std::forward<decltype(v)>(v)...); });
									else res.first = with_mapped([&](auto &&...v) { return c.try_emplace(c.begin() + hpos, x.first, std::forward<decltype(v)>(v)...); });
								}
							}
							else res = c.insert(x);
					}
					const bool consumed = (op == O_INSERT_RV && e.tag % 4 != 3) || (op == O_INSERT_HINT && rv && e.tag % 4 < 2) || (map && rv && (op == O_TRY || op == O_TRY_HINT));
					if (used || consumed) { if (c.size() != before) require_used(x, op_names[op]); }
					else require_intact(x, op_names[op], !value_used);
				});
				if (hinted && (map || op != O_TRY_HINT)) res.second = c.size() != before;
				inserted(s, res.second, res.first, e, op_names[op]);
				break;
			}
			case O_AT:
				if constexpr (map)
				{
					const int p = int(r.below(N)), id = pick_key();
					at_index(p, [&](auto I)
					{
						Key k(id);
						const bool has = s.m.idx[p].count(id) != 0;
						bool thrown = false;
						try { auto &v = c.template at<I.value>(k); REQ("value", v.v == s.m.by_tag.at(s.m.idx[p].at(id)).val, "at<%d>(%d) is wrong", p, id); }
						catch (const std::out_of_range &) { thrown = true; }
						REQ("value", thrown == !has, "at<%d>(%d) %s", p, id, thrown ? "throws" : "does not throw");
						thrown = false;
						try { auto &v = std::as_const(c).template at<I.value>(k); REQ("value", v.v == s.m.by_tag.at(s.m.idx[p].at(id)).val, "at<%d>(%d) const is wrong", p, id); }
						catch (const std::out_of_range &) { thrown = true; }
						REQ("value", thrown == !has, "at<%d>(%d) const %s", p, id, thrown ? "throws" : "does not throw");
						mix(thrown);
					});
				}
				break;
			case O_FIND: verify(s, true); break;
			case O_ERASE_KEY:
			{
				const int p = int(r.below(N));
				int id = pick_key();
				if (r.chance(2, 3)) if (auto e = pick_ent(s.m)) id = e->id[p];
				at_index(p, [&](auto I)
				{
					const auto f = s.m.idx[p].find(id);
					const bool has = f != s.m.idx[p].end();
					iterator next{};
					std::set<int> rest;
					if (has) for (auto i = std::next(std::as_const(c).template find<I.value>(Key(id))); i != c.cend(); ++i) rest.insert(key_of<0>(*i).tag);
					strong(s, [&] { Key k(id); ++extra; --extra; Arm a; next = c.template erase<I.value>(k); });
					if (!has) REQ("multikey", next == c.end(), "erase<%d>(%d) of a missing key does not return the end", p, id);
					else
					{
						s.m.remove(f->second);
						++dels;
						std::set<int> after;
						for (const_iterator i = next; i != c.cend(); ++i) after.insert(key_of<0>(*i).tag);
						REQ("iteration", after == rest, "erase<%d>(%d) does not return the following position", p, id);
					}
					mix(has);
				});
				verify(s);
				break;
			}
			case O_ERASE_IT:
			{
				const auto e = pick_ent(s.m);
				if (!e) break;
				const int p = int(r.below(N));
				at_index(p, [&](auto I)
				{
					const auto it = std::as_const(c).template find<I.value>(Key(e->id[p]));
					std::set<int> rest, after;
					for (auto i = std::next(it); i != c.cend(); ++i) rest.insert(key_of<0>(*i).tag);
					iterator next{};
					if (r.chance(1, 2)) next = c.erase(it);
					else next = c.erase(c.template find<I.value>(Key(e->id[p])));
					for (const_iterator i = next; i != c.cend(); ++i) after.insert(key_of<0>(*i).tag);
					REQ("iteration", after == rest, "position returned by erase does not continue the traversal");
				});
				s.m.remove(e->tag);
				++dels;
				verify(s);
				break;
			}
			case O_ERASE_RANGE:
			{
				if (prof.portable) break;
				const auto n = s.m.size();
				unsigned a = r.below(unsigned(n) + 1), b = r.below(unsigned(n) + 1);
				if (a > b) std::swap(a, b);
				const auto first = std::next(c.cbegin(), a), last = std::next(c.cbegin(), b);
				std::set<int> gone, rest, after;
				for (auto i = first; i != last; ++i) gone.insert(key_of<0>(*i).tag);
				for (auto i = last; i != c.cend(); ++i) rest.insert(key_of<0>(*i).tag);
				allow(s.m);
				const_iterator res = c.erase(first, last);
				for (int t: gone) s.m.remove(t), ++dels;
				REQ("value", c.size() == s.m.size(), "erase(range) removes a wrong number of entries");
				for (; res != c.cend(); ++res) after.insert(key_of<0>(*res).tag);
				REQ("iteration", after == rest, "position returned by erase(range) does not continue the traversal");
				verify(s);
				break;
			}
			case O_ERASE_IF:
			case O_ERASE_LOOP:
			{
				allow(s.m);
				const u64 salt = r.next();
				const unsigned den = 1 + r.below(4);
				const auto pred = [&](const auto &x) { return mix64(salt ^ u64(key_of<0>(x).tag)) % den == 0; };
				std::set<int> visited;
				const auto before = s.m.size();
				std::size_t count = 0;
				if (op == O_ERASE_IF)
					count = erase_if(c, [&](const auto &x) { REQ("iteration", visited.insert(key_of<0>(x).tag).second, "erase_if visits entry %d twice", key_of<0>(x).tag); return pred(x); });
				else
					for (auto i = c.begin(); i != c.end();)
					{
						REQ("iteration", visited.insert(key_of<0>(*i).tag).second, "entry %d visited twice by an erasing loop", key_of<0>(*i).tag);
						if (pred(*i)) i = c.erase(i), ++count;
						else ++i;
					}
				REQ("iteration", visited.size() == before, "%s visits %zu of %zu entries", op_names[op], visited.size(), before);
				std::size_t expect = 0;
				for (auto i = s.m.by_tag.begin(); i != s.m.by_tag.end();)
				{
					const int t = (i++)->first;
					if (mix64(salt ^ u64(t)) % den == 0) s.m.remove(t), ++expect;
				}
				dels += long(expect);
				REQ("iteration", count == expect, "%s removes %zu entries, expected %zu", op_names[op], count, expect);
				verify(s);
				break;
			}
			case O_CLEAR: allow(s.m); c.clear(); s.m.clear(); verify(s, true); break;
			case O_RESERVE:
			{
				if (r.chance(1, 12)) { allow(s.m); impossible_request(c, r); verify(s, true); break; }
				const auto n = r.below(80);
				strong(s, [&] { Arm a; c.reserve(n); });
				REQ("capacity", c.capacity() >= n, "capacity %zu after reserve(%u)", std::size_t(c.capacity()), n);
				verify(s, true);
				if (n > s.m.size() && r.chance(1, 2))
				{
					const auto buckets = c.bucket_count();
					const void *front = s.m.size() ? &key_of<0>(*c.begin()) : nullptr;
					while (s.m.size() < n)
					{
						const auto allocs = W.allocs;
						add_one(s, fresh_ids(s.m));
						REQ("capacity", c.bucket_count() == buckets && W.allocs == allocs, "the table grows within the reserved %u entries", n);
					}
					REQ("stability", !front || front == &key_of<0>(*c.begin()), "entries relocated within the reserved capacity");
					feature("reserve.filled");
				}
				break;
			}
			case O_REHASH:
			{
				const auto n = r.below(160);
				strong(s, [&] { Arm a; c.rehash(n); });
				REQ("capacity", c.bucket_count() >= n, "%zu buckets after rehash(%u)", std::size_t(c.bucket_count()), n);
				s.m.mlf_exceeded = s.m.mlf_exceeded && c.load_factor() > s.m.mlf;
				verify(s, true);
				break;
			}
			case O_MLF:
			{
				static const float f[] = {.25f, .5f, .875f, 1.f, 1.5f, 3.f, 1e30f, std::numeric_limits<float>::infinity()};
				s.m.mlf = f[r.below(8)];
				c.max_load_factor(s.m.mlf);
				s.m.mlf_exceeded = c.load_factor() > s.m.mlf || c.size() > c.capacity();
				verify(s, true);
				break;
			}
			case O_COPY_CTOR: case O_MOVE_CTOR: case O_COPY_ASSIGN: case O_MOVE_ASSIGN: case O_SELF_ASSIGN: case O_SWAP: transfer(op, s); break;
			case O_REBUILD: build(s); break;
			case O_RANGE_INSERT: case O_IL:
			{
				Model m = s.m;
				const auto ents = items(r.below(24), &m);
				if (op == O_IL)
				{
					if (ents.size() < 3) break;
					// Initializer lists hold constants.
					Model m2 = s.m;
					const bool assign = r.chance(1, 2);
					if (assign) m2.clear(), m2.mlf_exceeded = false;
					for (int i = 0; i < 3; ++i) if (m2.free(ents[i].id)) m2.add(ents[i]);
					const auto with = [&](auto il)
					{
						using T = decltype(il(0));
						return weak(s, m2, [&]
						{
							std::initializer_list<T> l{il(0), il(1), il(2)};
							Arm a;
							if (!assign) c.insert(l);
							else if constexpr (!map || std::is_same_v<T, typename C::value_type>) c = l;
							else c.clear(), c.insert(l);
						});
					};
					bool done;
					switch (r.below(3))
					{
						case 0: done = with([&](int i) { return make<typename C::value_type>(ents[i]); }); break;
						case 1: done = with([&](int i) { return make<IT>(ents[i]); }); break;
						default: done = with([&](int i) { return make_conv(ents[i]); }); break;
					}
					if (done) { m2.mlf_exceeded = c.load_factor() > s.m.mlf; s.m = m2; }
					verify(s, true);
					break;
				}
				bool done;
				{
					std::list<IT> l;
					std::vector<IT> v;
					for (auto &e: ents) if (ents.size() % 2) l.push_back(make<IT>(e)); else v.push_back(make<IT>(e));
					extra += long(ents.size());
					const auto how = r.below(3);
					std::size_t pos = 0;
					done = weak(s, m, [&]
					{
						Arm a;
						if (ents.size() % 2) c.insert(l.begin(), l.end());
						else if (how) c.insert(v.begin(), v.end());
						else pos = 0, c.insert(InputIt<IT>{&v, &pos, false}, InputIt<IT>{&v, &pos, true});
					});
					extra -= long(ents.size());
				}
				if (done)
				{
					m.mlf_exceeded = s.m.mlf_exceeded && m.size() == s.m.size();
					adds += long(m.size() - s.m.size());
					s.m = m;
				}
				verify(s, true);
				break;
			}
			case O_EQUAL:
			{
				Slot &o = pick_slot();
				allow(s.m, o.m);
				W.allow_n = W.eallow_n = -1;
				const auto eq = [&](const Model &a, const Model &b)
				{
					if (a.size() != b.size()) return false;
					for (auto &[t, e]: a.by_tag)
					{
						auto f = b.idx[0].find(e.id[0]);
						if (f == b.idx[0].end()) return false;
						auto &x = b.by_tag.at(f->second);
						if (x.id != e.id || x.val != e.val) return false;
					}
					return true;
				};
				const bool ex = eq(s.m, o.m);
				REQ("equality", (c == *o.c) == ex && (*o.c == c) == ex && (c != *o.c) == !ex, "equality of the containers, expected %d", int(ex));
				REQ("equality", c == c && !(c != c), "a container is not equal to itself");
				// The same contents, inserted in another order into a table of another size.
				auto other = std::make_unique<C>(r.below(64), new_hash(), new_eq(), new_alloc());
				std::vector<Ent> ents;
				for (auto &x: s.m.by_tag) ents.push_back(x.second);
				for (std::size_t i = ents.size(); i > 1; --i) std::swap(ents[i - 1], ents[r.below(unsigned(i))]);
				for (auto &e: ents) { auto x = make<IT>(e); other->insert(std::move(x)); }
				REQ("equality", c == *other && *other == c && !(c != *other), "equal contents compare unequal");
				if (!ents.empty())
				{
					Ent e = ents[r.below(unsigned(ents.size()))];
					at_index(int(r.below(N)), [&](auto I)
					{
						other->template erase<I.value>(Key(e.id[I.value]));
						REQ("equality", c != *other && !(*other == c), "containers of different sizes compare equal");
						if (r.chance(1, 2) && map) e.val += 1;
						else e.id[I.value] = 1000000;
						auto x = make<IT>(e);
						other->insert(std::move(x));
						REQ("equality", c != *other && !(*other == c), "containers with different contents compare equal");
						feature("equality.differing");
					});
				}
				break;
			}
			case O_HETERO:
#if TRANSPARENT
				for (int j = 0; j < 4; ++j)
				{
					const int p = int(r.below(N));
					int id = pick_key();
					if (r.chance(1, 2)) if (auto e = pick_ent(s.m)) id = e->id[p];
					allow(s.m);
					at_index(p, [&](auto I)
					{
						const auto conv = W.conversions;
						const auto ctor = W.ctor;
						const bool has = s.m.idx[p].count(id) != 0;
						const C &cc = c;
						REQ("functor", cc.template contains<I.value>(Look{id}) == has && (cc.template find<I.value>(Look{id}) != cc.end()) == has && (c.template find<I.value>(Look2{short(id)}) != c.end()) == has, "lookup of %d by an equivalent key, expected %d", id, int(has));
						if (has) same(cc, c.template find<I.value>(Look{id}), s.m.by_tag.at(s.m.idx[p].at(id)), "find by an equivalent key");
						if constexpr (map)
						{
							bool thrown = false;
							try { REQ("functor", cc.template at<I.value>(Look{id}).v == s.m.by_tag.at(s.m.idx[p].at(id)).val && &c.template at<I.value>(Look{id}) == &cc.template at<I.value>(Look2{short(id)}), "access of %d by an equivalent key", id); }
							catch (const std::out_of_range &) { thrown = true; }
							REQ("functor", thrown == !has, "access of %d by an equivalent key %s", id, thrown ? "throws" : "does not throw");
						}
						if (cc.bucket_count()) REQ("functor", cc.template bucket<I.value>(Look{id}) < cc.bucket_count(), "bucket by an equivalent key");
						if (r.chance(1, 3))
						{
							auto next = c.template erase<I.value>(Look{id});
							if (!has) REQ("functor", next == c.end(), "erase of a missing equivalent key does not return the end");
							else s.m.remove(s.m.idx[p].at(id)), ++dels;
							feature("hetero.erase");
						}
						REQ("functor", W.conversions == conv && W.ctor - ctor <= (has ? N + 1 : 0), "an operation by an equivalent key creates a key");
						feature("hetero");
					});
					verify(s);
				}
				if constexpr (map)
				{
					const Ent e{pick_ids(s.m), next_tag++, int(r.below(1000))};
					const bool fresh = s.m.free(e.id);
					const auto conv = W.conversions, ctor = W.ctor;
					const auto before = c.size();
					auto look = look_key(e.id, e.tag, std::make_index_sequence<N>{});
					std::pair<iterator, bool> res{};
					const auto looks = W.copied_looks;
					const bool rv = e.tag % 3 == 0;
					if (rv && r.chance(1, 2)) res = c.try_emplace(std::move(look), e.val);
					else if (rv) res.first = c.try_emplace(pick_hint(s), std::move(look), e.val), res.second = c.size() != before;
					else if (r.chance(1, 2)) res = c.try_emplace(look, e.val);
					else if (r.chance(1, 2)) res.first = c.try_emplace(c.begin() + (pick_hint(s) - c.cbegin()), look, e.val), res.second = c.size() != before;
					else res.first = c.try_emplace(pick_hint(s), look, e.val), res.second = c.size() != before;
					if (!fresh) REQ("functor", W.conversions == conv && W.ctor == ctor, "a rejected try_emplace by equivalent keys creates a key or value");
					if (rv) REQ("lifetime", W.copied_looks == looks, "try_emplace by equivalent keys copies from an rvalue");
					inserted(s, res.second, res.first, e, "try_emplace by equivalent keys");
					feature("hetero.try_emplace");
				}
#endif
				break;
			case O_SELF_ARG:
			{
				// Arguments that belong to the container itself; fill up first, so that the insertion may grow the table.
				while (s.m.size() < c.capacity() && s.m.size() < 60) add_one(s, fresh_ids(s.m));
				if (s.m.size() == 0) break;
				allow(s.m);
				auto it = std::next(c.cbegin(), r.below(unsigned(s.m.size())));
				const Ent e = s.m.by_tag.at(key_of<0>(*it).tag);
				const auto which = r.below(4);
				if (which == 0)
				{
					at_index(int(r.below(N)), [&](auto I) { c.template erase<I.value>(key_of<I.value>(*it)); });
					s.m.remove(e.tag);
					++dels;
				}
				else if constexpr (!map)
				{
					auto res = c.insert(*it);
					REQ("value", !res.second, "insertion of an own entry reports success");
					same(c, res.first, e, "insertion of an own entry");
				}
				else
				{
					// A new entry with the mapped value of a stored one.
					const Ent n{fresh_ids(s.m), next_tag++, e.val};
					if (which == 1)
					{
						auto res = c.try_emplace(make_key(n.id, n.tag), it->second);
						REQ("value", res.second, "try_emplace of a new entry fails");
					}
					else if (which == 2)
					{
						auto res = c.emplace(make_key(n.id, n.tag), it->second);
						REQ("value", res.second, "emplace of a new entry fails");
					}
					else
					{
						auto res = c.try_emplace(it->first, 0);
						REQ("value", !res.second, "try_emplace with own keys reports success");
						same(c, res.first, e, "try_emplace with own keys");
						break;
					}
					s.m.add(n);
					s.m.mlf_exceeded = false;
					++adds;
				}
				feature("self-arg");
				verify(s, true);
				break;
			}
			case O_MUTATE:
				if constexpr (map)
				{
					allow(s.m);
					for (auto i = c.begin(); i != c.end(); ++i)
						if (r.chance(1, 3)) { const int v = int(r.below(1000)); i->second = Val(v); s.m.by_tag.at(key_of<0>(*i).tag).val = v; }
					verify(s, true);
				}
				break;
			case O_NOINVALIDATE:
			{
				allow(s.m);
				std::vector<std::pair<int, const void *>> addr;
				std::vector<const_iterator> its;
				for (auto i = c.cbegin(); i != c.cend(); ++i) { addr.emplace_back(key_of<0>(*i).tag, &key_of<0>(*i)); its.push_back(i); }
				const auto allocs = W.allocs;
				for (int j = 0; j < 6 && s.m.size(); ++j)
				{
					Ent e{pick_ids(s.m), next_tag++, 0};
					const auto p = pick_ent(s.m);
					e.id[r.below(N)] = p->id[0];
					if (s.m.free(e.id)) e.id = p->id;
					const auto x = make<IT>(e);
					c.insert(x);
					if constexpr (map) c.try_emplace(x.first, 1);
					c.emplace(x);
				}
				REQ("stability", W.allocs == allocs, "a rejected insertion allocates");
				std::size_t n = 0;
				for (auto i = c.cbegin(); i != c.cend(); ++i, ++n)
					REQ("stability", n < addr.size() && addr[n].second == &key_of<0>(*i) && addr[n].first == key_of<0>(*i).tag && its[n] == i, "rejected insertions relocate entries");
				verify(s, true);
				break;
			}
			case O_FILL:
			{
				std::size_t target = std::min<std::size_t>(std::max<std::size_t>(c.capacity(), 3), 1u << 30) + r.below(3);
				if (target > s.m.size() + 150) target = s.m.size() + 150;
				const auto before = c.bucket_count();
				while (s.m.size() < target) add_one(s, fresh_ids(s.m));
				if (c.bucket_count() != before) feature("growth");
				verify(s);
				break;
			}
			case O_DRAIN:
			{
				allow(s.m);
				const auto keep = r.chance(1, 2) ? 0 : r.below(unsigned(s.m.size()) + 1);
				while (s.m.size() > keep)
				{
					const Ent e = r.chance(1, 2) ? s.m.by_tag.begin()->second : s.m.by_tag.rbegin()->second;
					at_index(int(r.below(N)), [&](auto I) { c.template erase<I.value>(Key(e.id[I.value])); });
					s.m.remove(e.tag);
					++dels;
				}
				verify(s, true);
				break;
			}
			case O_CHURN:
			{
				const auto n = 8 + r.below(80);
				for (unsigned i = 0; i < n; ++i)
				{
					allow(s.m);
					if (s.m.size() && r.chance(1, 2))
					{
						const Ent e = *pick_ent(s.m);
						at_index(int(r.below(N)), [&](auto I) { c.template erase<I.value>(Key(e.id[I.value])); });
						s.m.remove(e.tag);
						++dels;
					}
					else add_one(s, r.chance(1, 2) ? fresh_ids(s.m) : pick_ids(s.m));
				}
				verify(s, true);
				break;
			}
			default: break;
		}
	}
	void transfer(int op, Slot &s)
	{
		Slot &o = pick_slot();
		g_log.add("  other", long(&o - slot));
		switch (op)
		{
			case O_COPY_CTOR:
			{
				const auto a = new_alloc();
				const bool ext = r.chance(1, 2);
				std::unique_ptr<C> n;
				strong(s, [&] { Arm arm; n = ext ? std::make_unique<C>(std::as_const(*s.c), a) : std::make_unique<C>(std::as_const(*s.c)); });
				Model m = s.m;
				if (ext) m.alloc = a.id;
				else if (select_copy) m.alloc += SELECTED;
				put(o, std::move(n), m);
				break;
			}
			case O_MOVE_CTOR:
			{
				const auto a = new_alloc();
				const bool ext = r.chance(1, 2) && !prof.fault;
				allow(s.m);
				const auto copies = W.copies;
				auto n = ext ? std::make_unique<C>(std::move(*s.c), a) : std::make_unique<C>(std::move(*s.c));
				REQ("lifetime", W.copies == copies, "a move copies entries");
				Model m = s.m;
				if (ext) m.alloc = a.id;
				moved_from(s);
				put(o, std::move(n), m);
				break;
			}
			case O_COPY_ASSIGN:
			{
				if (&s == &o) { allow(s.m); *s.c = std::as_const(*o.c); verify(s, true); break; }
				Model m = o.m;
				m.alloc = P_copy::value ? o.m.alloc : s.m.alloc;
				if (weak(s, m, [&] { Arm a; *s.c = std::as_const(*o.c); })) s.m = m;
				verify(s, true);
				verify(o, true);
				break;
			}
			case O_MOVE_ASSIGN:
			{
				if (&s == &o) break;
				Model m = o.m;
				m.alloc = P_move::value ? o.m.alloc : s.m.alloc;
				allow(s.m, o.m);
				const auto copies = W.copies;
				*s.c = std::move(*o.c);
				REQ("lifetime", W.copies == copies, "a move copies entries");
				s.m = m;
				moved_from(o);
				verify(s, true);
				verify(o, true);
				break;
			}
			case O_SELF_ASSIGN:
				allow(s.m);
				*s.c = std::as_const(*s.c);
				verify(s, true);
				break;
			default:
			{
				if (!P_swap::value && !always_equal && s.m.alloc != o.m.alloc) break;
				allow(s.m, o.m);
				const auto copies = W.copies, moves = W.moves;
				if (r.chance(1, 2)) s.c->swap(*o.c);
				else { using std::swap; swap(*s.c, *o.c); }
				REQ("lifetime", W.copies == copies && W.moves == moves, "swap moves or copies entries");
				if (&s != &o)
				{
					std::swap(s.m, o.m);
					if (!P_swap::value) std::swap(s.m.alloc, o.m.alloc);
				}
				verify(s, true);
				verify(o, true);
			}
		}
	}
	void run()
	{
		static const int ranges[] = {3, 6, 10, 16, 30, 80};
		range = ranges[r.below(prof.fault ? 4 : 6)];
		mode_base = r.chance(1, 3) ? 0 : int(r.below(HASH_MODES));
		for (auto &s: slot) build(s);
		const int ops = prof.fault ? 30 + int(r.below(50)) : 40 + int(r.below(120));
		int total = 0;
		for (int w: prof.w) total += w;
		for (int i = 0; i < ops; ++i)
		{
			int x = int(r.below(unsigned(total))), op = 0;
			while (x >= prof.w[op]) x -= prof.w[op++];
			step(op);
			if (i % 8 == 0) balance();
			for (auto &s: slot) if (s.m.size() > 300) { allow(s.m); s.c->clear(); s.m.clear(); }
		}
		for (auto &s: slot) verify(s, true);
		balance();
		for (auto &s: slot) { s.c.reset(); s.m.clear(); }
		balance();
		REQ("alloc", W.built.empty(), "%zu objects that an allocator created are not destroyed by it", W.built.size());
		REQ("alloc", W.blocks.empty(), "%zu blocks are never returned to the allocator", W.blocks.size());
		++S.cases;
		if (adds > 2 && dels > 2) S.digests.insert(digest);
		if (S.samples.size() < 2)
		{
			char buf[300];
			int n = std::snprintf(buf, sizeof buf, "case %ld: keys=%d range=%d hash=%d ops=%d adds=%ld dels=%ld; last:", g_case, N, range, mode_base, ops, adds, dels);
			const unsigned long from = g_log.n > 8 ? g_log.n - 8 : 0;
			for (auto i = from; i < g_log.n && n < 240; ++i) n += std::snprintf(buf + n, sizeof buf - n, " %s(%ld)", g_log.ops[i % Log::N].name, g_log.ops[i % Log::N].a);
			S.samples.push_back(buf);
		}
	}
};
static Profile make_profile(const char *name)
{
	Profile p{};
	const std::string n = name;
	auto &w = p.w;
	const auto set = [&](int x, std::initializer_list<int> ops) { for (int o: ops) w[o] = x; };
	for (int &x: w) x = 2;
	set(4, {O_INSERT, O_INSERT_RV, O_INSERT_HINT, O_EMPLACE, O_EMPLACE_HINT, O_TRY, O_TRY_HINT, O_ERASE_KEY});
	w[O_HETERO] = TRANSPARENT ? 6 : 0;
	w[O_CLEAR] = w[O_REBUILD] = 1;
	if (!map) w[O_TRY] = w[O_TRY_HINT] = w[O_AT] = w[O_MUTATE] = 0;
	if (n == "multikey") set(8, {O_ERASE_KEY, O_ERASE_IT, O_INSERT, O_EMPLACE});
	else if (n == "iteration") set(10, {O_ERASE_KEY, O_ERASE_IT, O_ERASE_RANGE, O_ERASE_IF, O_ERASE_LOOP});
	else if (n == "transfer") set(10, {O_COPY_CTOR, O_MOVE_CTOR, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SELF_ASSIGN, O_SWAP});
	else if (n == "memory") set(8, {O_COPY_CTOR, O_MOVE_CTOR, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SWAP, O_REBUILD, O_RESERVE, O_REHASH});
	else if (n == "lifetime") set(6, {O_INSERT_RV, O_ERASE_IT, O_ERASE_RANGE, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_CLEAR});
	else if (n == "stability") set(12, {O_NOINVALIDATE, O_RESERVE});
	else if (n == "fault")
	{
		p.fault = true;
		set(5, {O_RANGE_INSERT, O_COPY_CTOR, O_COPY_ASSIGN, O_RESERVE, O_REHASH});
		set(0, {O_SELF_ARG, O_EQUAL, O_NOINVALIDATE});
	}
	else if (n == "capacity") set(12, {O_RESERVE, O_REHASH, O_MLF, O_FILL, O_CHURN, O_DRAIN});
	else if (n == "equality") set(20, {O_EQUAL});
	else if (n == "functors") { if (TRANSPARENT) w[O_HETERO] = 40; set(6, {O_COPY_CTOR, O_MOVE_CTOR, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SWAP}); }
	else if (n == "bulk") set(14, {O_RANGE_INSERT, O_IL, O_REBUILD});
	else if (n == "selfarg") set(16, {O_SELF_ARG});
	else if (n == "portable") { p.portable = true; w[O_ERASE_IF] = 2; }
	else if (n != "mixed") { std::fprintf(stderr, "unknown profile %s\n", name); std::exit(3); }
	return p;
}
int main(int argc, char **argv)
{
	if (argc < 5) { std::fprintf(stderr, "usage: %s PROFILE SEED FIRST COUNT [OUT]\n", argv[0]); return 3; }
	static char kind[64];
	std::snprintf(kind, sizeof kind, "dense_multi%s<%d>", map ? "map" : "set", N);
	g_kind = kind;
	g_profile = argv[1];
	g_seed = std::strtoull(argv[2], nullptr, 10);
	const long first = std::atol(argv[3]), count = std::atol(argv[4]);
	g_outfile = argc > 5 ? argv[5] : nullptr;
	install_death_callback();
	const Profile prof = make_profile(argv[1]);
	for (long i = first; i < first + count; ++i)
	{
		begin_case(i);
		Driver<C> d(mix64(g_seed * 1000003 + mix64(u64(i) * 16 + N * 2 + map)), prof);
		d.run();
		if (prof.portable) std::printf("DIGEST %ld %016llx\n", i, (unsigned long long) d.digest);
	}
	write_stats();
	std::fflush(stdout);
	return 0;
}
