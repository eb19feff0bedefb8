// Model-based driver for the single-key containers: random histories on a pool of containers, every result compared with a
// reference model, with lifetime, allocator, functor, address and order monitors running underneath.
#pragma once
#include "common.hpp"

#include <tpp/sparse_set.hpp>
#include <tpp/sparse_map.hpp>
#include <tpp/stable_set.hpp>
#include <tpp/stable_map.hpp>
#include <tpp/dense_set.hpp>
#include <tpp/dense_map.hpp>

struct Entry
{
	int id, tag, val;
	const void *addr;   // address of the key, kept only where it is promised to be stable
	const void *vaddr;
};
struct Model
{
	std::list<Entry> order;
	std::unordered_map<int, std::list<Entry>::iterator> idx;
	int huid = 0, hmode = 0, euid = 0, alloc = 0;
	float mlf = .875f;
	bool mlf_exceeded = false; // the maximum was lowered below the current load

	Model() = default;
	Model(const Model &o) { *this = o; }
	Model(Model &&o) = default;
	Model &operator=(Model &&o) = default;
	Model &operator=(const Model &o)
	{
		if (this == &o) return *this;
		order = o.order;
		reindex();
		huid = o.huid, hmode = o.hmode, euid = o.euid, alloc = o.alloc, mlf = o.mlf, mlf_exceeded = o.mlf_exceeded;
		return *this;
	}
	void reindex()
	{
		idx.clear();
		for (auto i = order.begin(); i != order.end(); ++i) idx[i->id] = i;
	}
	std::size_t size() const { return order.size(); }
	bool has(int id) const { return idx.count(id) != 0; }
	Entry &get(int id) { return *idx.at(id); }
	void add(std::list<Entry>::iterator before, const Entry &e) { idx[e.id] = order.insert(before, e); }
	void push(const Entry &e) { add(order.end(), e); }
	void remove(int id)
	{
		auto i = idx.find(id);
		order.erase(i->second);
		idx.erase(i);
	}
	void clear() { order.clear(); idx.clear(); }
};

template<typename C, typename = void> struct mapped_of { using type = void; };
template<typename C> struct mapped_of<C, std::void_t<typename C::mapped_type>> { using type = typename C::mapped_type; };
template<typename C, typename = void> struct has_nodes : std::false_type {};
template<typename C> struct has_nodes<C, std::void_t<typename C::node_type>> : std::true_type {};
template<typename C, typename = void> struct is_dense : std::false_type {};
template<typename C> struct is_dense<C, std::void_t<typename C::local_iterator>> : std::true_type {};
template<typename C, typename = void> struct is_ordered : std::false_type {};
template<typename C> struct is_ordered<C, std::void_t<decltype(std::declval<const C &>().front())>> : std::true_type {};

template<typename A> struct alloc_props { static constexpr int value = 0; };
template<typename T, int P> struct alloc_props<TA<T, P>> { static constexpr int value = P; };

// Operations a history is made of.
enum Op
{
	O_INSERT, O_INSERT_RV, O_INSERT_HINT, O_EMPLACE, O_EMPLACE_HINT, O_TRY, O_TRY_HINT, O_IOA, O_IOA_HINT, O_EOR, O_EOR_HINT, O_INDEX, O_AT,
	O_FIND, O_ERASE_KEY, O_ERASE_IT, O_ERASE_RANGE, O_ERASE_IF, O_ERASE_LOOP, O_CLEAR, O_RESERVE, O_REHASH, O_MLF,
	O_COPY_CTOR, O_MOVE_CTOR, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SELF_ASSIGN, O_SWAP, O_REBUILD, O_RANGE_INSERT, O_ASSIGN_IL, O_INSERT_IL,
	O_EQUAL, O_EQUAL_BUILD, O_HETERO, O_SELF_ARG, O_MUTATE, O_NOINVALIDATE,
	O_EXTRACT, O_NODE_INSERT, O_NODE_HINT, O_NODE_ASSIGN, O_NODE_OPS, O_MERGE, O_MERGE2, O_FILL, O_DRAIN, O_CHURN, O_DESTROY,
	O_COUNT
};
inline const char *op_names[] = {"insert", "insert&&", "insert(hint)", "emplace", "emplace_hint", "try_emplace", "try_emplace(hint)", "insert_or_assign", "insert_or_assign(hint)",
	"emplace_or_replace", "emplace_or_replace(hint)", "operator[]", "at", "find", "erase(key)", "erase(it)", "erase(range)", "erase_if", "erase-loop", "clear", "reserve", "rehash",
	"max_load_factor", "copy-ctor", "move-ctor", "copy-assign", "move-assign", "self-assign", "swap", "rebuild", "insert(range)", "assign(il)", "insert(il)", "==", "==(rebuilt)",
	"heterogeneous", "self-arg", "mutate", "no-invalidate", "extract", "insert(node)", "insert(hint,node)", "insert_or_assign(node)", "node-ops", "merge", "merge(other functors)",
	"fill", "drain", "churn", "destroy"};
struct Profile
{
	const char *name;
	int w[O_COUNT];
	bool fault = false;        // inject a fault at every point of every operation
	bool portable = false;     // only operations whose outcome does not depend on the traversal order of unordered containers
	bool small_only = false;
};

template<typename C, typename C2 = void>
struct Driver
{
	static constexpr bool map = !std::is_void_v<typename mapped_of<C>::type>;
	static constexpr bool ordered = is_ordered<C>::value;
	static constexpr bool stable = has_nodes<C>::value;
	static constexpr bool dense = is_dense<C>::value;
	using hasher = typename C::hasher;
	using key_equal = typename C::key_equal;
	using alloc_t = typename C::allocator_type;
	using P_copy = typename std::allocator_traits<alloc_t>::propagate_on_container_copy_assignment;
	using P_move = typename std::allocator_traits<alloc_t>::propagate_on_container_move_assignment;
	using P_swap = typename std::allocator_traits<alloc_t>::propagate_on_container_swap;
	static constexpr bool always_equal = std::allocator_traits<alloc_t>::is_always_equal::value;
	static constexpr bool transparent = std::is_invocable_v<hasher, const Look &>;
	static constexpr bool select = (alloc_props<alloc_t>::value & A_SELECT) != 0;
	using iterator = typename C::iterator;
	using const_iterator = typename C::const_iterator;
	struct no_node {};
	template<typename X, typename = void> struct node_of { using type = no_node; };
	template<typename X> struct node_of<X, std::void_t<typename X::node_type>> { using type = typename X::node_type; };
	using node_type = typename node_of<C>::type;
	using insert_t = std::conditional_t<map, std::pair<Key, Val>, Key>;

	struct Slot
	{
		std::unique_ptr<C> c;
		Model m;
	};
	struct Held // an extracted element
	{
		std::unique_ptr<node_type> n;
		Entry e;
		bool full = false;
		int alloc = 0;
	};

	static constexpr int SLOTS = 4;
	Slot slot[SLOTS];
	std::vector<Held> held;
	Rng r;
	const Profile &prof;
	int key_range = 32, next_tag = 1, next_uid = 1;
	int mode_base = 0;
	u64 digest = 0;
	long adds = 0, dels = 0;

	Driver(u64 seed, const Profile &p) : r(seed), prof(p) {}

	// ------------------------------------------------------------ access helpers
	template<typename R>
	static const Key &key_of(const R &ref) { if constexpr (map) return ref.first; else return ref; }
	template<typename R>
	static int val_of(const R &ref)
	{
		if constexpr (map)
		{
			ref.second.use("access");
			return ref.second.v;
		} else
			return 0;
	}
	template<typename R>
	static const void *vaddr_of(const R &ref) { if constexpr (map) return &ref.second; else return nullptr; }

	// Something an element can be constructed from.
	using conv_t = std::conditional_t<map, std::pair<Look, int>, Look>;
	static conv_t make_conv(int id, int tag, int v)
	{
		if constexpr (map) return {Look{id, tag}, v};
		else return Look{id, tag};
	}
	insert_t make(int id, int tag, int v)
	{
		if constexpr (map) return insert_t(Key(id, tag), Val(v));
		else return (void) v, Key(id, tag);
	}
	void mix(u64 x) { digest = mix64(digest ^ x); }
	int pick_id() { return r.range(0, key_range - 1); }
	int pick_present(Model &m)
	{
		if (m.size() == 0) return pick_id();
		if (prof.portable || r.chance(1, 2))
		{
			for (int i = 0; i < 8; ++i) { int id = pick_id(); if (m.has(id)) return id; }
			return m.order.begin()->id;
		}
		auto n = r.below(unsigned(std::min<std::size_t>(m.size(), 24)));
		auto i = r.chance(1, 2) ? std::next(m.order.begin(), n) : std::prev(m.order.end(), n + 1);
		return i->id;
	}
	int pick_mixed(Model &m) { return r.chance(1, 2) ? pick_present(m) : pick_id(); }
	Slot &pick_slot() { return slot[r.below(SLOTS)]; }
	hasher new_hash()
	{
		const int mode = r.chance(3, 4) ? mode_base : int(r.below(HASH_MODES));
		return hasher(mode, next_uid++);
	}
	key_equal new_eq() { return key_equal(next_uid++); }
	alloc_t new_alloc() { return alloc_t(int(r.below(3)) + 1); }
	void allow(const Model &a)
	{
		W.allow_n = W.eallow_n = 1;
		W.allow[0] = a.huid;
		W.eallow[0] = a.euid;
	}
	void allow(const Model &a, const Model &b)
	{
		W.allow_n = W.eallow_n = 2;
		W.allow[0] = a.huid, W.allow[1] = b.huid;
		W.eallow[0] = a.euid, W.eallow[1] = b.euid;
	}
	// Capacities and bucket counts may depend on the build (the width of a group): the portable profile does not decide by them.
	std::size_t room(const Slot &s) const
	{
		if (!prof.portable) return s.c->capacity();
		std::size_t n = 1;
		while (n < s.m.size()) n = n * 2 + 1;
		return n;
	}

	// ------------------------------------------------------------ faults
	// Runs `f`. Under fault injection, runs it once per fault point, until it completes; after every fault `after` must find the expected state.
	template<typename F, typename G>
	bool attempt(F &&f, G &&after)
	{
		if (!prof.fault)
		{
			f();
			return true;
		}
		for (long k = 1;; ++k)
		{
			W.fault_at = k <= 40 ? k : 0;
			try
			{
				f();
				W.fault_at = 0;
				W.armed = false;
				feature("fault.completed");
				return true;
			}
			catch (const Fault &flt)
			{
				W.fault_at = 0;
				W.armed = false;
				static const char *names[] = {"fault.alloc", "fault.key-ctor", "fault.key-copy", "fault.value-ctor", "fault.value-copy", "fault.hash", "fault.eq"};
				feature(names[flt.point]);
				g_log.add("  fault", flt.point, k);
				if (!after()) return false;
			}
		}
	}
	template<typename F>
	void strong(Slot &s, F &&f)
	{
		allow(s.m);
		attempt(f, [&] { verify(s, true); check_balance(); return true; });
	}
	template<typename F>
	void strong2(Slot &a, Slot &b, F &&f)
	{
		allow(a.m, b.m);
		attempt(f, [&] { verify(a, true); verify(b, true); check_balance(); return true; });
	}
	// Bulk operations: may stop half-way, but only with elements of the complete result.
	template<typename F>
	bool weak(Slot &s, const Model &complete, F &&f)
	{
		allow(s.m, complete);
		if (!prof.fault)
		{
			f();
			return true;
		}
		const long at = 1 + long(r.below(r.chance(1, 2) ? 6 : 60));
		W.fault_at = at;
		try
		{
			f();
			W.fault_at = 0;
			W.armed = false;
			return true;
		}
		catch (const Fault &flt)
		{
			W.fault_at = 0;
			W.armed = false;
			feature("fault.bulk");
			g_log.add("  fault(bulk)", flt.point, at);
			resync(s, complete);
			return false;
		}
	}
	void resync(Slot &s, const Model &complete)
	{
		allow_any();
		Model nm;
		const C &c = *s.c;
		auto h = c.hash_function();
		auto e = c.key_eq();
		REQ("exception", (h.uid == s.m.huid || h.uid == complete.huid) && (e.uid == s.m.euid || e.uid == complete.euid), "functors changed to unknown ones by a failed bulk operation");
		nm.huid = h.uid, nm.hmode = h.mode, nm.euid = e.uid;
		nm.alloc = c.get_allocator().id;
		REQ("exception", nm.alloc == s.m.alloc || nm.alloc == complete.alloc, "allocator changed to an unknown one by a failed bulk operation");
		nm.mlf = c.max_load_factor();
		nm.mlf_exceeded = s.m.mlf_exceeded || complete.mlf_exceeded;
		auto last = complete.order.begin();
		for (auto i = c.begin(); i != c.end(); ++i)
		{
			const Key &k = key_of(*i);
			k.use("traversal");
			auto f = complete.idx.find(k.id);
			REQ("exception", f != complete.idx.end(), "element %d after a failed bulk operation is not part of the complete result", k.id);
			REQ("exception", f->second->tag == k.tag && (!map || f->second->val == val_of(*i)), "element %d has a different value after a failed bulk operation", k.id);
			nm.push({k.id, k.tag, val_of(*i), stable ? &k : nullptr, stable ? vaddr_of(*i) : nullptr});
			REQ("exception", nm.size() <= c.size(), "traversal visits more elements than the size after a failed bulk operation");
		}
		(void) last;
		if (ordered)
		{
			auto p = complete.order.begin();
			for (auto &en: nm.order)
			{
				while (p != complete.order.end() && p->id != en.id) ++p;
				REQ("exception", p != complete.order.end(), "order of elements broken by a failed bulk operation");
			}
		}
		s.m = std::move(nm);
		s.m.reindex();
		verify(s, true);
		check_balance();
	}

	// ------------------------------------------------------------ verification
	void check_balance()
	{
		long n = 0;
		for (auto &s: slot) n += long(s.m.size());
		for (auto &h: held) n += h.full;
		n += extra_live;
		REQ("lifetime", W.keys_live == n, "%ld keys are alive, the containers hold %ld", W.keys_live, n);
		if (map) REQ("lifetime", W.vals_live == n, "%ld values are alive, the containers hold %ld", W.vals_live, n);
	}
	long extra_live = 0;

	void verify_iter(Slot &s, const_iterator i, const Entry &e, const char *what)
	{
		REQ("value", i != std::as_const(*s.c).end(), "%s: position is the end, expected element %d", what, e.id);
		const Key &k = key_of(*i);
		k.use("access");
		REQ("value", k.id == e.id, "%s: position denotes element %d, expected %d", what, k.id, e.id);
		REQ("value", k.tag == e.tag, "%s: key object of %d was replaced (%d, expected %d)", what, e.id, k.tag, e.tag);
		if (map) REQ("value", val_of(*i) == e.val, "%s: value of %d is %d, expected %d", what, e.id, val_of(*i), e.val);
		if (stable && e.addr) REQ("stability", &k == e.addr && vaddr_of(*i) == e.vaddr, "%s: element %d changed its address", what, e.id);
	}
	void note_addr(Slot &s, int id)
	{
		if constexpr (stable)
		{
			auto i = s.c->find(Key(id));
			if (i == s.c->end()) return;
			auto &e = s.m.get(id);
			e.addr = &key_of(*i);
			e.vaddr = vaddr_of(*i);
		}
	}
	void light(Slot &s)
	{
		const C &c = *s.c;
		REQ("value", c.size() == s.m.size(), "size is %zu, expected %zu", std::size_t(c.size()), s.m.size());
		REQ("value", c.empty() == (s.m.size() == 0), "empty() disagrees with the size %zu", s.m.size());
		REQ("capacity", c.size() <= c.capacity() || s.m.mlf_exceeded, "size %zu exceeds the capacity %zu", std::size_t(c.size()), std::size_t(c.capacity()));
	}
	void verify(Slot &s, bool full = false)
	{
		light(s);
		const auto n = s.m.size();
		if (!full && n > 24 && !r.chance(24, unsigned(n))) return;
		++S.checks;
		S.elements += long(n);
		C &c = *s.c;
		const C &cc = c;
		Disarm disarm;

		// Functors, allocator, load factor.
		REQ("functor", cc.hash_function().uid == s.m.huid && cc.hash_function().mode == s.m.hmode, "hash function is %d, expected %d", cc.hash_function().uid, s.m.huid);
		REQ("functor", cc.key_eq().uid == s.m.euid, "key equality is %d, expected %d", cc.key_eq().uid, s.m.euid);
		REQ("alloc", cc.get_allocator().id == s.m.alloc, "allocator is %d, expected %d", cc.get_allocator().id, s.m.alloc);
		REQ("capacity", cc.max_load_factor() == s.m.mlf, "maximum load factor is %f, expected %f", cc.max_load_factor(), s.m.mlf);
		const float lf = cc.bucket_count() ? float(n) / float(cc.bucket_count()) : 0.f;
		REQ("capacity", cc.load_factor() > lf - 1e-4f && cc.load_factor() < lf + 1e-4f, "load factor is %f, expected %f", cc.load_factor(), lf);
		if (dense && !s.m.mlf_exceeded) REQ("capacity", lf <= s.m.mlf + 1e-5f, "load factor %f exceeds the maximum %f", lf, s.m.mlf);
		REQ("capacity", (s.m.mlf > 1.f || s.m.mlf_exceeded || cc.bucket_count() >= n) && cc.max_size() >= n && cc.max_bucket_count() >= cc.bucket_count(), "bucket count %zu / maximum size smaller than the size %zu", std::size_t(cc.bucket_count()), n);

		// Traversal.
		allow(s.m);
		std::size_t seen = 0;
		if (ordered)
		{
			auto e = s.m.order.begin();
			for (auto i = cc.begin(); i != cc.end(); ++i, ++e, ++seen)
			{
				REQ("order", e != s.m.order.end(), "traversal visits more than %zu elements", n);
				const Key &k = key_of(*i);
				k.use("traversal");
				REQ("order", k.id == e->id, "element %zu in order is %d, expected %d", seen, k.id, e->id);
				verify_iter(s, i, *e, "traversal");
			}
			REQ("order", seen == n, "traversal visits %zu of %zu elements", seen, n);
			if constexpr (ordered)
				if (n)
				{
					REQ("order", key_of(cc.front()).id == s.m.order.front().id && key_of(c.front()).id == s.m.order.front().id, "front() is not the first element");
					REQ("order", key_of(cc.back()).id == s.m.order.back().id && key_of(c.back()).id == s.m.order.back().id, "back() is not the last element");
				}
			// Backwards as well, ordered iterators are bidirectional.
			if constexpr (ordered)
			{
				auto i = cc.end();
				for (auto e2 = s.m.order.rbegin(); e2 != s.m.order.rend(); ++e2)
				{
					--i;
					REQ("order", key_of(*i).id == e2->id, "backward traversal finds %d, expected %d", key_of(*i).id, e2->id);
				}
				REQ("order", i == cc.begin(), "backward traversal does not end at the first element");
			}
		}
		else
		{
			std::unordered_set<int> ids;
			for (auto i = c.begin(); i != c.end(); ++i)
			{
				const Key &k = key_of(*i);
				k.use("traversal");
				if constexpr ((ALLOC_PROPS & A_CREATES) != 0) REQ("alloc", W.built.count(&k), "element %d was not created by the allocator", k.id);
				REQ("iteration", ++seen <= n, "traversal visits more than %zu elements", n);
				REQ("iteration", s.m.has(k.id), "traversal visits %d, which is not stored", k.id);
				REQ("iteration", ids.insert(k.id).second, "traversal visits %d twice", k.id);
				verify_iter(s, i, s.m.get(k.id), "traversal");
			}
			REQ("iteration", seen == n, "traversal visits %zu of %zu elements", seen, n);
		}
		REQ("iteration", std::size_t(std::distance(cc.begin(), cc.end())) == n && std::size_t(std::distance(c.cbegin(), c.cend())) == n, "distance between begin and end is not the size");

		// Lookups.
		for (auto &e: s.m.order)
		{
			const Key k(e.id, -7);
			verify_iter(s, c.find(k), e, "find");
			verify_iter(s, cc.find(k), e, "find const");
			REQ("value", cc.contains(k), "contains(%d) is false", e.id);
			if constexpr (map) REQ("value", cc.at(k).v == e.val && &c.at(k) == &cc.at(k), "at(%d) is wrong", e.id);
		}
		for (int j = 0; j < 3; ++j)
		{
			const int id = r.chance(1, 2) ? pick_id() : key_range + int(r.below(1000));
			const Key k(id, -7);
			REQ("value", cc.contains(k) == s.m.has(id), "contains(%d) is %d", id, int(cc.contains(k)));
			REQ("value", (cc.find(k) == cc.end()) == !s.m.has(id) && (c.find(k) == c.end()) == !s.m.has(id), "find(%d) is wrong", id);
		}
		if constexpr (dense) verify_dense(s);
	}
	void verify_dense(Slot &s)
	{
		if constexpr (dense)
		{
			C &c = *s.c;
			const C &cc = c;
			const auto n = s.m.size();
			// Reverse traversal mirrors the forward one.
			std::vector<const void *> fwd, bwd;
			for (auto i = cc.begin(); i != cc.end(); ++i) fwd.push_back(&key_of(*i));
			std::size_t back = 0;
			for (auto i = c.rbegin(); i != c.rend(); ++i, ++back) REQ("iteration", back < n && &key_of(*i) == fwd[n - 1 - back], "reverse traversal does not mirror the forward one");
			REQ("iteration", back == n, "reverse traversal visits %zu of %zu elements", back, n);
			for (auto i = cc.rbegin(); i != cc.rend(); ++i) { bwd.push_back(&key_of(*i)); REQ("iteration", bwd.size() <= n, "reverse traversal visits more than %zu elements", n); }
			std::reverse(bwd.begin(), bwd.end());
			REQ("iteration", fwd == bwd, "reverse traversal does not mirror the forward one");
			// Random access arithmetic of the unordered tables.
			using cat = typename std::iterator_traits<const_iterator>::iterator_category;
			if constexpr (std::is_base_of_v<std::random_access_iterator_tag, cat>)
				if (n)
				{
					const auto p = r.below(unsigned(n));
					auto i = cc.begin() + std::ptrdiff_t(p);
					REQ("iteration", &key_of(*i) == fwd[p] && i - cc.begin() == std::ptrdiff_t(p) && cc.end() - i == std::ptrdiff_t(n - p), "iterator arithmetic is wrong");
					REQ("iteration", &key_of(cc.begin()[std::ptrdiff_t(p)]) == fwd[p] && (cc.begin() <= i) && (i < cc.end()) && !(i < i) && (i >= i) && (cc.end() > i), "iterator comparison is wrong");
					auto j = cc.end();
					j -= std::ptrdiff_t(n - p);
					REQ("iteration", j == i, "iterator arithmetic is wrong");
					auto k = cc.begin();
					k += std::ptrdiff_t(p);
					REQ("iteration", k == i && !(k != i), "iterator arithmetic is wrong");
				}
			// Bucket traversal partitions the elements.
			std::size_t total = 0;
			const auto buckets = cc.bucket_count();
			if (buckets == 0 || buckets > 4096) return;
			std::unordered_set<int> ids;
			for (std::size_t b = 0; b < buckets; ++b)
			{
				std::size_t in_bucket = 0;
				for (auto i = cc.begin(b); i != cc.end(b); ++i)
				{
					const Key &k = key_of(*i);
					k.use("bucket traversal");
					REQ("iteration", ++in_bucket <= n, "bucket %zu does not end", b);
					REQ("iteration", ids.insert(k.id).second && s.m.has(k.id), "bucket traversal visits %d twice, or it is not stored", k.id);
					REQ("iteration", cc.bucket(k) == b, "bucket of %d is %zu, found in %zu", k.id, std::size_t(cc.bucket(k)), b);
				}
				std::size_t nc = 0, constant = 0;
				for (auto i = c.begin(b), k = i; i != c.end(b); ++i, ++nc)
				{
					REQ("iteration", nc < in_bucket && k == i && &key_of(*k) == &key_of(*i), "traversals of bucket %zu differ", b);
					(void) k++;
				}
				for (auto i = c.cbegin(b); !(i == c.cend(b)); i++)
				{
					REQ("iteration", ++constant <= in_bucket && cc.bucket(key_of(*i)) == b, "constant traversal of bucket %zu differs", b);
					if constexpr (map) REQ("iteration", &i->first == &key_of(*i), "operator-> of a bucket position");
					else REQ("iteration", &*i == i.operator->(), "operator-> of a bucket position");
				}
				REQ("iteration", constant == in_bucket, "constant traversal of bucket %zu visits %zu of %zu elements", b, constant, in_bucket);
				REQ("iteration", nc == in_bucket && cc.bucket_size(b) == in_bucket, "size of bucket %zu is %zu, visited %zu", b, std::size_t(cc.bucket_size(b)), in_bucket);
				total += in_bucket;
			}
			REQ("iteration", total == n, "buckets hold %zu of %zu elements", total, n);
		}
	}

	// ------------------------------------------------------------ model helpers
	std::list<Entry>::iterator hint_pos(Model &m, const_iterator hint, const C &c)
	{
		// A new element goes immediately after the hinted one, and to the front for the end position.
		if (!ordered) return m.order.end();
		if (hint == c.cend()) return m.order.begin();
		return std::next(m.idx.at(key_of(*hint).id));
	}
	const_iterator pick_hint(Slot &s)
	{
		C &c = *s.c;
		Disarm d;
		allow(s.m);
		const auto w = r.below(4);
		if (s.m.size() == 0 || w == 0) return c.cend();
		if (w == 1) return c.cbegin();
		return c.find(Key(pick_present(s.m)));
	}
	void inserted(Slot &s, bool did, iterator it, std::list<Entry>::iterator pos, int id, int tag, int val, const char *what)
	{
		Disarm d;
		const bool expect = !s.m.has(id);
		REQ("value", did == expect, "%s(%d) reports %d, expected %d", what, id, int(did), int(expect));
		if (expect)
		{
			s.m.add(pos, {id, tag, val, nullptr, nullptr});
			++adds;
			s.m.mlf_exceeded = false;
			note_addr(s, id);
		}
		else
			feature("insert.rejected");
		verify_iter(s, it, s.m.get(id), what);
		mix(u64(expect) * 77 + u64(id));
	}
	// The bool of the single insertion forms without one is taken from the size.
	template<typename F>
	void hinted(Slot &s, const char *what, int id, int tag, int val, F &&f)
	{
		C &c = *s.c;
		const auto hint = pick_hint(s);
		auto pos = hint_pos(s.m, hint, c);
		const auto before = c.size();
		iterator it{};
		// A failed insertion may have grown the table and invalidated the hint, thus it is found again by its key.
		const bool at_end = hint == c.cend();
		const int hid = at_end ? -1 : key_of(*hint).id;
		strong(s, [&]
		{
			iterator h;
			{
				Disarm d;
				h = at_end ? c.end() : c.find(Key(hid));
			}
			if (tag / 4 % 2) it = f(h);
			else it = f(const_iterator(h));
		});
		inserted(s, c.size() != before, it, pos, id, tag, val, what);
		feature(at_end ? "hint.end" : "hint.element");
	}

	// ------------------------------------------------------------ construction of containers
	void build(Slot &s)
	{
		// A fresh container through one of the constructors.
		s.c.reset();
		s.m = Model{};
		const auto h = new_hash();
		const auto e = new_eq();
		const auto a = new_alloc();
		static const unsigned counts[] = {0, 1, 2, 3, 5, 7, 8, 12, 15, 16, 17, 20, 31, 33, 64, 100};
		const std::size_t n = counts[r.below(16)];
		s.m.mlf = .875f;
		allow_any();
		const auto form = r.below(21);
		g_log.add("construct", long(form), long(n), a.id);
		Model nm;
		const auto set = [&](int hu, int hm, int eu, int al) { s.m.huid = hu, s.m.hmode = hm, s.m.euid = eu, s.m.alloc = al; };
		const auto fs = [&] { set(h.uid, h.mode, e.uid, a.id); };
		const auto items = range_items(r.below(24), &s.m);
		Model content = s.m;
		switch (form)
		{
			case 0: make_c(s, [&] { return std::make_unique<C>(); }); set(0, 0, 0, 0); break;
			case 1: make_c(s, [&] { return std::make_unique<C>(a); }); set(0, 0, 0, a.id); break;
			case 2: make_c(s, [&] { return std::make_unique<C>(n, a); }); set(0, 0, 0, a.id); break;
			case 3: make_c(s, [&] { return std::make_unique<C>(n, h, a); }); set(h.uid, h.mode, 0, a.id); break;
			case 4: make_c(s, [&] { return std::make_unique<C>(items.begin(), items.end(), n, h, e, a); }); s.m = content; fs(); break;
			case 5: make_c(s, [&] { return std::make_unique<C>(items.begin(), items.end(), n, h, a); }); s.m = content; set(h.uid, h.mode, 0, a.id); break;
			case 6: make_c(s, [&] { return std::make_unique<C>(items.begin(), items.end(), n, a); }); s.m = content; set(0, 0, 0, a.id); break;
			case 7: make_c(s, [&] { return std::make_unique<C>(n, h, e, a); }); fs(); break;
			case 8:
			{
				std::list<insert_t> l(items.begin(), items.end());
				make_c(s, [&] { return std::make_unique<C>(l.begin(), l.end(), n, h, e, a); });
				s.m = content;
				fs();
				break;
			}
			case 10: make_c(s, [&] { return std::make_unique<C>(items.begin(), items.end()); }); s.m = content; set(0, 0, 0, 0); break;
			case 11:
			case 12:
			{
				std::size_t pos = 0;
				using It = InputIt<insert_t>;
				if (form == 11) make_c(s, [&] { pos = 0; return std::make_unique<C>(It{&items, &pos, false}, It{&items, &pos, true}, n, h, e, a); });
				else make_c(s, [&] { pos = 0; return std::make_unique<C>(It{&items, &pos, false}, It{&items, &pos, true}); });
				s.m = content;
				if (form == 11) fs();
				else set(0, 0, 0, 0);
				break;
			}
			case 13:
			{
				std::forward_list<insert_t> l(items.begin(), items.end());
				make_c(s, [&] { return std::make_unique<C>(l.begin(), l.end(), n, h, a); });
				s.m = content;
				set(h.uid, h.mode, 0, a.id);
				break;
			}
			case 14: make_c(s, [&] { return std::make_unique<C>(n, h); }); set(h.uid, h.mode, 0, 0); break;
			case 15: make_c(s, [&] { return std::make_unique<C>(items.begin(), items.end(), n, h, e); }); s.m = content; set(h.uid, h.mode, e.uid, 0); break;
			case 16:
			case 17:
			case 18:
			case 19: build_il(s, form, n, h, e, a, content); break;
			default: make_c(s, [&] { return std::make_unique<C>(n, h, e, a); }); fs(); break;
		}
		const bool sized = form == 2 || form == 3 || form == 7 || form == 9 || form == 14 || form == 20;
		if (sized || form < 2) s.m.clear();
		REQ("capacity", s.c->bucket_count() >= (sized ? n : 0), "container constructed with %zu buckets has only %zu", n, std::size_t(s.c->bucket_count()));
		feature(form < 2 ? "ctor.default" : sized ? "ctor.buckets" : form == 11 || form == 12 ? "ctor.single-pass" : form >= 16 ? "ctor.il" : "ctor.range");
		allow(s.m);
		for (auto &en: s.m.order) note_addr(s, en.id);
		extra_live += long(items.size());
		verify(s, true);
		extra_live -= long(items.size());
	}
	template<typename H, typename E, typename A>
	void build_il(Slot &s, unsigned form, std::size_t n, const H &h, const E &e, const A &a, Model &content)
	{
		using V = typename C::value_type;
		content.clear();
		const int id[3] = {pick_id(), pick_id(), pick_id()}, tag = next_tag;
		next_tag += 3;
		for (int i = 0; i < 3; ++i)
			if (!content.has(id[i])) content.push({id[i], tag + i, map ? i * 7 : 0, nullptr, nullptr});
		const auto v = [&](int i) -> V
		{
			if constexpr (map) return V(Key(id[i], tag + i), Val(i * 7));
			else return Key(id[i], tag + i);
		};
		const auto with = [&](auto il)
		{
			using L = std::initializer_list<decltype(il(0))>;
			switch (form)
			{
				case 16: make_c(s, [&] { return std::make_unique<C>(L{il(0), il(1), il(2)}, n, h, e, a); }); break;
				case 17: make_c(s, [&] { return std::make_unique<C>(L{il(0), il(1), il(2)}, n, h, a); }); break;
				case 18: make_c(s, [&] { return std::make_unique<C>(L{il(0), il(1), il(2)}, n, a); }); break;
				default: make_c(s, [&] { return std::make_unique<C>(L{il(0), il(1), il(2)}); }); break;
			}
		};
		// The ordered maps are not constructible from lists of convertible elements.
		if constexpr (ordered && map) with(v);
		else switch (tag % 3)
		{
			case 0: with(v); break;
			case 1: with([&](int i) { return make(id[i], tag + i, i * 7); }); break;
			default: with([&](int i) { return make_conv(id[i], tag + i, i * 7); }); break;
		}
		s.m = content;
		s.m.huid = form >= 18 ? 0 : h.uid, s.m.hmode = form >= 18 ? 0 : h.mode, s.m.euid = form == 16 ? e.uid : 0, s.m.alloc = form == 19 ? 0 : a.id;
	}
	template<typename F>
	void make_c(Slot &s, F &&f)
	{
		if (!prof.fault)
		{
			s.c = f();
			return;
		}
		const long keys = W.keys_live, vals = W.vals_live;
		const auto blocks = W.blocks.size();
		for (long k = 1;; ++k)
		{
			W.fault_at = k <= 40 ? k : 0;
			try
			{
				Arm arm;
				s.c = f();
				break;
			}
			catch (const Fault &)
			{
				feature("fault.constructor");
				REQ("exception", W.keys_live == keys && W.vals_live == vals && W.blocks.size() == blocks, "a failed construction leaks %ld keys, %ld values, %ld blocks", W.keys_live - keys, W.vals_live - vals, long(W.blocks.size()) - long(blocks));
			}
		}
		W.fault_at = 0;
		W.armed = false;
	}
	// Random elements; `into` receives the effect of inserting them in order.
	std::vector<insert_t> range_items(unsigned n, Model *into)
	{
		std::vector<insert_t> v;
		v.reserve(n);
		for (unsigned i = 0; i < n; ++i)
		{
			const int id = r.chance(1, 4) && !v.empty() ? key_id(v[r.below(unsigned(v.size()))]) : pick_id(), tag = next_tag++, val = int(r.below(1000));
			v.push_back(make(id, tag, val));
			if (into && !into->has(id)) into->push({id, tag, map ? val : 0, nullptr, nullptr});
		}
		return v;
	}
	static int key_id(const insert_t &x) { if constexpr (map) return x.first.id; else return x.id; }

	// ------------------------------------------------------------ the operations
	void step(int op)
	{
		Slot &s = pick_slot();
		C &c = *s.c;
		const int si = int(&s - slot);
		const int id = pick_mixed(s.m), tag = next_tag++, val = int(r.below(1000));
		g_log.add(op_names[op], si, id, tag);
		++S.ops;
		mix(u64(op));
		const auto end = s.m.order.end();
		switch (op)
		{
			case O_INSERT:
			{
				std::pair<iterator, bool> res;
				if (tag % 4 == 3)
				{
					const auto x = make_conv(id, tag, val);
					strong(s, [&] { Arm a; res = c.insert(x); });
					feature("insert.convert");
				}
				else
				{
					auto x = make(id, tag, val);
					++extra_live;
					strong(s, [&] { Arm a; if (tag % 2) res = c.insert(x); else res = c.insert(std::as_const(x)); });
					require_intact(x, "insert(const &)");
					--extra_live;
				}
				inserted(s, res.second, res.first, end, id, tag, map ? val : 0, "insert");
				break;
			}
			case O_INSERT_RV:
			{
				std::pair<iterator, bool> res;
				if (tag % 4 == 3)
				{
					const auto looks = W.copied_looks;
					strong(s, [&] { auto x = make_conv(id, tag, val); Arm a; res = c.insert(std::move(x)); });
					REQ("lifetime", W.copied_looks == looks, "insert(convertible&&) copies from an rvalue");
					inserted(s, res.second, res.first, end, id, tag, map ? val : 0, "insert(convertible&&)");
					break;
				}
				auto x = make(id, tag, val);
				++extra_live;
				const bool present = s.m.has(id);
				strong(s, [&]
				{
					auto y = make(id, tag, val); // a failed insertion may have consumed it
					++extra_live;
					struct Dec { long &l; ~Dec() { --l; } } dec{extra_live};
					{ Arm a; res = c.insert(std::move(y)); }
					if (present) require_intact(y, "insert(&&)"); else require_used(y, "insert(&&)");
				});
				--extra_live;
				{ auto drop = std::move(x); }
				inserted(s, res.second, res.first, end, id, tag, map ? val : 0, "insert(&&)");
				break;
			}
			case O_INSERT_HINT:
				if (tag % 4 == 2)
					hinted(s, "insert(hint,convertible)", id, tag, map ? val : 0, [&](const_iterator h) { const auto x = make_conv(id, tag, val); Arm a; return c.insert(h, x); });
				else if (tag % 4 == 3)
				{
					const auto looks = W.copied_looks;
					hinted(s, "insert(hint,convertible&&)", id, tag, map ? val : 0, [&](const_iterator h) { auto x = make_conv(id, tag, val); Arm a; return c.insert(h, std::move(x)); });
					REQ("lifetime", W.copied_looks == looks, "insert(hint,convertible&&) copies from an rvalue");
				}
				else if (r.chance(1, 2))
					hinted(s, "insert(hint)", id, tag, map ? val : 0, [&](const_iterator h) { auto x = make(id, tag, val); Arm a; const auto i = tag % 2 ? c.insert(h, x) : c.insert(h, std::as_const(x)); require_intact(x, "insert(hint,const &)"); return i; });
				else
					hinted(s, "insert(hint,&&)", id, tag, map ? val : 0, [&](const_iterator h) { auto x = make(id, tag, val); const auto n = c.size(); Arm a; const auto i = c.insert(h, std::move(x)); if (c.size() == n) require_intact(x, "insert(hint,&&)"); else require_used(x, "insert(hint,&&)"); return i; });
				break;
			case O_EMPLACE:
			{
				std::pair<iterator, bool> res;
				strong(s, [&]
				{
					Arm a;
					if constexpr (map)
					{
						if (tag % 3 == 0) res = c.emplace(std::piecewise_construct, std::forward_as_tuple(id, tag), std::forward_as_tuple(val));
						else { Key k(id, tag); Val v(val); if (tag % 3 == 1) { res = c.emplace(k, v); require_unmoved("emplace", k, v); } else { res = c.emplace(std::move(k), std::move(v)); if (res.second) require_moved("emplace", k, v); } }
					} else
					{
						if (tag % 3 == 0) res = c.emplace(id, tag);
						else { Key k(id, tag); if (tag % 3 == 1) { res = c.emplace(std::move(k)); if (res.second) require_moved("emplace", k); } else { res = c.emplace(k); require_unmoved("emplace", k); } }
					}
				});
				inserted(s, res.second, res.first, end, id, tag, map ? val : 0, "emplace");
				break;
			}
			case O_EMPLACE_HINT:
				hinted(s, "emplace_hint", id, tag, map ? val : 0, [&](const_iterator h)
				{
					if (tag % 3 == 0)
					{
						Key k(id, tag);
						Val v(val);
						Arm a;
						const auto i = [&] { if constexpr (map) return c.emplace_hint(h, k, v); else return c.emplace_hint(h, k); }();
						require_unmoved("emplace_hint", k, v);
						return i;
					}
					if (tag % 3 == 1)
					{
						Key k(id, tag);
						Val v(val);
						const auto n = c.size();
						Arm a;
						const auto i = [&] { if constexpr (map) return c.emplace_hint(h, std::move(k), std::move(v)); else return c.emplace_hint(h, std::move(k)); }();
						if (c.size() != n) { require_moved("emplace_hint", k); if constexpr (map) require_moved("emplace_hint", v); }
						return i;
					}
					Arm a;
					if constexpr (map) return c.emplace_hint(h, std::piecewise_construct, std::forward_as_tuple(id, tag), std::forward_as_tuple(val));
					else return c.emplace_hint(h, id, tag);
				});
				break;
			case O_TRY:
			case O_TRY_HINT:
				if constexpr (map) op_try(s, op == O_TRY_HINT, id, tag, val);
				break;
			case O_IOA:
			case O_IOA_HINT:
			case O_EOR:
			case O_EOR_HINT:
				if constexpr (map) op_assign(s, op, id, tag, val);
				break;
			case O_INDEX:
				if constexpr (map)
				{
					const bool present = s.m.has(id);
					int old = 0;
					strong(s, [&]
					{
						Key k(id, tag);
						Val *v;
						{
							Arm a;
							if (tag % 2) { v = &c[k]; require_unmoved("operator[]", k); }
							else { v = &c[std::move(k)]; if (present) require_unmoved("operator[]", k); else require_moved("operator[]", k); }
						}
						v->use("access");
						old = v->v;
						v->v = val;
					});
					REQ("value", old == (present ? s.m.get(id).val : 0), "operator[](%d) yields %d", id, old);
					if (present) s.m.get(id).val = val;
					else
					{
						s.m.push({id, tag, val, nullptr, nullptr});
						s.m.mlf_exceeded = false;
						++adds;
						note_addr(s, id);
					}
					mix(u64(old));
				}
				break;
			case O_AT:
				if constexpr (map)
				{
					bool thrown = false;
					int got = 0;
					strong(s, [&]
					{
						Key k(id);
						thrown = false;
						Arm a;
						try { got = (tag % 2 ? c.at(k) : std::as_const(c).at(k)).v; } catch (const std::out_of_range &) { thrown = true; }
					});
					REQ("value", thrown == !s.m.has(id), "at(%d) %s", id, thrown ? "throws for a stored key" : "does not throw for a missing key");
					if (!thrown) REQ("value", got == s.m.get(id).val, "at(%d) is %d", id, got);
				}
				break;
			case O_FIND:
			{
				bool found = false, has = false;
				const_iterator it;
				strong(s, [&] { Key k(id); Arm a; it = tag % 2 ? const_iterator(c.find(k)) : std::as_const(c).find(k); has = c.contains(k); });
				found = it != c.cend();
				REQ("value", found == s.m.has(id) && has == found, "find(%d)/contains is %d/%d", id, int(found), int(has));
				if (found) verify_iter(s, it, s.m.get(id), "find");
				mix(found);
				break;
			}
			case O_ERASE_KEY: op_erase_key(s, id); break;
			case O_ERASE_IT: op_erase_it(s); break;
			case O_ERASE_RANGE: op_erase_range(s); break;
			case O_ERASE_IF: op_erase_if(s); break;
			case O_ERASE_LOOP: op_erase_loop(s); break;
			case O_CLEAR:
			{
				allow(s.m);
				c.clear();
				dels += long(s.m.size());
				s.m.clear();
				break;
			}
			case O_RESERVE:
			{
				if (r.chance(1, 12)) { allow(s.m); impossible_request(c, r); verify(s, true); check_balance(); break; }
				std::size_t n = 0;
				switch (r.below(4))
				{
					case 0: n = r.below(8); break;
					case 1: n = r.below(unsigned(key_range) * 2 + 2); break;
					case 2: n = s.m.size() + r.below(20); break;
					default: n = s.m.size(); break;
				}
				g_log.add(" n", long(n));
				strong(s, [&] { Arm a; c.reserve(n); });
				if (n) { if (!s.m.mlf_exceeded) {} REQ("capacity", c.capacity() >= n, "capacity after reserve(%zu) is %zu", n, std::size_t(c.capacity())); }
				// Up to n elements fit without growth.
				if (n > s.m.size()) fill_reserved(s, n);
				break;
			}
			case O_REHASH:
			{
				std::size_t n = 0;
				switch (r.below(4))
				{
					case 0: n = 0; break;
					case 1: n = r.below(unsigned(key_range) * 2 + 2); break;
					case 2: n = (prof.portable ? room(s) : std::size_t(c.bucket_count())) + r.below(5); break;
					default: n = s.m.size() ? r.below(unsigned(s.m.size())) : 1; break;
				}
				g_log.add(" n", long(n));
				strong(s, [&] { Arm a; c.rehash(n); });
				REQ("capacity", c.bucket_count() >= n, "bucket count after rehash(%zu) is %zu", n, std::size_t(c.bucket_count()));
				break;
			}
			case O_MLF:
				if constexpr (dense)
				{
					static const float f[] = {.875f, .5f, .25f, 1.f, 2.f, 4.f, .7f, .1f, 1e30f, std::numeric_limits<float>::infinity()};
					if (r.chance(1, 10)) { impossible_load_factor(s); break; }
					const float x = f[r.below(10)];
					c.max_load_factor(x);
					s.m.mlf = x;
					if (c.load_factor() > x || c.capacity() < c.size()) s.m.mlf_exceeded = true;
				}
				break;
			case O_FILL: op_fill(s); break;
			case O_DRAIN: op_drain(s); break;
			case O_CHURN: op_churn(s); break;
			case O_COPY_CTOR:
			case O_MOVE_CTOR:
			case O_COPY_ASSIGN:
			case O_MOVE_ASSIGN:
			case O_SELF_ASSIGN:
			case O_SWAP: op_transfer(op, s); break;
			case O_REBUILD: dels += long(s.m.size()); build(s); break;
			case O_DESTROY: dels += long(s.m.size()); s.c.reset(); s.m.clear(); check_balance(); build(s); break;
			case O_RANGE_INSERT: op_range_insert(s); break;
			case O_ASSIGN_IL:
			case O_INSERT_IL: op_il(s, op == O_ASSIGN_IL); break;
			case O_EQUAL: op_equal(s); break;
			case O_EQUAL_BUILD: op_equal_build(s); break;
			case O_HETERO: if constexpr (transparent) op_hetero(s, id, tag, val); break;
			case O_SELF_ARG: op_self_arg(s); break;
			case O_MUTATE:
				if constexpr (map)
				{
					allow(s.m);
					unsigned n = 0;
					for (auto i = c.begin(); i != c.end() && n < 8; ++i, ++n)
					{
						auto &e = s.m.get(key_of(*i).id);
						if (!prof.portable && r.chance(1, 2)) { i->second.v = e.val = val + int(n); }
					}
				}
				break;
			case O_NOINVALIDATE: op_noinvalidate(s); break;
			case O_EXTRACT:
			case O_NODE_INSERT:
			case O_NODE_HINT:
			case O_NODE_ASSIGN:
			case O_NODE_OPS: if constexpr (stable) op_node(op, s, id); break;
			case O_MERGE: if constexpr (stable) op_merge(s); break;
			case O_MERGE2: if constexpr (stable) op_merge2(s); break;
			default: break;
		}
		verify(s);
		check_balance();
		mix(s.m.size());
	}
	std::function<std::size_t()> s_size;
	template<typename... Ts>
	void require_unmoved(const char *what, const Ts &...x) { REQ("lifetime", ((x.magic == Ts::LIVE) && ...), "%s moved from an argument that it must leave alone", what); }
	void require_intact(const insert_t &x, const char *what)
	{
		bool ok;
		if constexpr (map) ok = x.first.magic == Key::LIVE && x.second.magic == Val::LIVE;
		else ok = x.magic == Key::LIVE;
		REQ("lifetime", ok, "%s moved from an argument that it must leave alone", what);
	}
	// What an insertion uses up has to be moved, not copied.
	template<typename... Ts>
	void require_moved(const char *what, const Ts &...x) { REQ("lifetime", ((x.magic == Ts::MOVED) && ...), "%s copied an argument that it was to move", what); }
	// Calls an operation with each category of key (form % 3) and mapped object (form / 3 % 5; none, or what one is constructed from).
	template<bool Construct, typename F>
	auto with_arguments(const char *what, int form, bool assigns, int id, int tag, int val, F &&f)
	{
		Key k(id, tag);
		Val x(val);
		const auto n = s_size();
		Arm a;
		const auto done = [&](auto res)
		{
			const bool inserted = s_size() != n;
			const int kf = form % 3, xf = form / 3 % 5;
			if (kf == 2 && inserted) require_moved(what, k); else require_unmoved(what, k);
			if (xf == 2 && (inserted || assigns)) require_moved(what, x); else require_unmoved(what, x);
			return res;
		};
		const auto mapped = [&](auto &&key)
		{
			using K = decltype(key);
			switch (form / 3 % 5)
			{
				case 0: return done(f(static_cast<K>(key), x));
				case 1: return done(f(static_cast<K>(key), std::as_const(x)));
				case 2: return done(f(static_cast<K>(key), std::move(x)));
				default: break;
			}
			if constexpr (Construct) return form / 3 % 5 == 3 ? done(f(static_cast<K>(key))) : done(f(static_cast<K>(key), val % 10, val / 10));
			else return done(f(static_cast<K>(key), x));
		};
		return form % 3 == 0 ? mapped(k) : form % 3 == 1 ? mapped(std::as_const(k)) : mapped(std::move(k));
	}
	void require_used(const insert_t &x, const char *what)
	{
		if constexpr (map) require_moved(what, x.first, x.second);
		else require_moved(what, x);
	}
	void op_try(Slot &s, bool hint, int id, int tag, int val)
	{
		if constexpr (map)
		{
			C &c = *s.c;
			const int form = tag % 15, xf = form / 3;
			const int v = xf == 3 ? 0 : xf == 4 ? (val % 10) * 1000 + val / 10 : val;
			s_size = [&c] { return c.size(); };
			const auto call = [&](auto &&...pos) { return with_arguments<true>("try_emplace", form, false, id, tag, val, [&](auto &&...x) { return c.try_emplace(pos..., std::forward<decltype(x)>(x)...); }); };
			if (hint) hinted(s, "try_emplace(hint)", id, tag, v, [&](auto h) { return call(h); });
			else
			{
				std::pair<iterator, bool> res;
				strong(s, [&] { res = call(); });
				inserted(s, res.second, res.first, s.m.order.end(), id, tag, v, "try_emplace");
			}
		}
	}
	void op_assign(Slot &s, int op, int id, int tag, int val)
	{
		if constexpr (map)
		{
			C &c = *s.c;
			const bool present = s.m.has(id), hint = op == O_IOA_HINT || op == O_EOR_HINT, ioa = op == O_IOA || op == O_IOA_HINT;
			const int form = tag % 15, xf = form / 3;
			const int v = !ioa && xf == 3 ? 0 : !ioa && xf == 4 ? (val % 10) * 1000 + val / 10 : val;
			s_size = [&c] { return c.size(); };
			const auto call = [&](auto &&...pos)
			{
				if (ioa) return with_arguments<false>("insert_or_assign", form, true, id, tag, val, [&](auto &&...x) { return c.insert_or_assign(pos..., std::forward<decltype(x)>(x)...); });
				else return with_arguments<true>("emplace_or_replace", form, true, id, tag, val, [&](auto &&...x) { return c.emplace_or_replace(pos..., std::forward<decltype(x)>(x)...); });
			};
			const auto update = [&] { if (present) { s.m.get(id).val = v; feature("assign.existing"); } };
			if (hint)
			{
				const auto pos = pick_hint(s);
				auto mp = hint_pos(s.m, pos, c);
				const bool at_end = pos == c.cend();
				const int hid = at_end ? -1 : key_of(*pos).id;
				const auto before = c.size();
				iterator it{};
				strong(s, [&]
				{
					iterator h;
					{ Disarm d; h = at_end ? c.end() : c.find(Key(hid)); }
					if (tag / 15 % 2) it = call(h);
					else it = call(const_iterator(h));
				});
				update();
				inserted(s, c.size() != before, it, mp, id, tag, v, ioa ? "insert_or_assign(hint)" : "emplace_or_replace(hint)");
			} else
			{
				std::pair<iterator, bool> res;
				strong(s, [&] { res = call(); });
				update();
				inserted(s, res.second, res.first, s.m.order.end(), id, tag, v, ioa ? "insert_or_assign" : "emplace_or_replace");
			}
		}
	}

	// Elements that follow a position, by id.
	std::vector<int> ids_from(const C &c, const_iterator i, std::size_t limit)
	{
		std::vector<int> v;
		for (; i != c.cend(); ++i)
		{
			const Key &k = key_of(*i);
			k.use("traversal");
			v.push_back(k.id);
			REQ("iteration", v.size() <= limit, "traversal after erasure does not end");
		}
		return v;
	}
	void op_erase_key(Slot &s, int id)
	{
		C &c = *s.c;
		const bool present = s.m.has(id);
		iterator next;
		int expected_next = -1;
		if (ordered && present)
		{
			auto p = std::next(s.m.idx.at(id));
			expected_next = p == s.m.order.end() ? -1 : p->id;
		}
		strong(s, [&] { Key k(id); Arm a; next = c.erase(k); });
		if (!present) REQ("iteration", next == c.end(), "erase of a missing key does not return the end");
		if (present) s.m.remove(id), ++dels;
		if (ordered && present)
			REQ("iteration", expected_next < 0 ? next == c.end() : next != c.end() && key_of(*next).id == expected_next, "erase does not return the following position");
		REQ("value", !c.contains(Key(id)), "erased key %d is still found", id);
		mix(present);
	}
	void op_erase_it(Slot &s)
	{
		C &c = *s.c;
		if (s.m.size() == 0) return;
		const int id = pick_present(s.m);
		allow(s.m);
		const_iterator it = c.find(Key(id));
		const bool check = s.m.size() <= 64 || r.chance(1, 8);
		std::vector<int> rest;
		if (check) rest = ids_from(c, std::next(it), s.m.size());
		W.allow_n = W.allow_n; // positions are erased without lookups, hash functors may or may not be called
		iterator next;
		const int how = int(r.below(2));
		if (how) next = c.erase(it);
		else next = c.erase(c.find(Key(id)));
		s.m.remove(id);
		++dels;
		light(s);
		if (check)
		{
			auto after = ids_from(c, next, s.m.size());
			if (!ordered) std::sort(after.begin(), after.end()), std::sort(rest.begin(), rest.end());
			REQ("iteration", after == rest, "position returned by erase(%d) does not continue the traversal", id);
		}
	}
	void op_erase_range(Slot &s)
	{
		if (prof.portable && !ordered) return;
		C &c = *s.c;
		allow(s.m);
		const auto n = s.m.size();
		unsigned a = r.below(unsigned(n) + 1), b = r.below(unsigned(n) + 1);
		if (a > b) std::swap(a, b);
		if (r.chance(1, 8)) a = 0;
		if (r.chance(1, 8)) b = unsigned(n);
		auto first = std::next(c.cbegin(), a), last = std::next(first, b - a);
		std::vector<int> gone;
		for (auto i = first; i != last; ++i) gone.push_back(key_of(*i).id);
		auto rest = ids_from(c, last, n);
		const auto res = c.erase(first, last);
		for (int id: gone) s.m.remove(id), ++dels;
		light(s);
		auto after = ids_from(c, res, n);
		if (!ordered) std::sort(after.begin(), after.end()), std::sort(rest.begin(), rest.end());
		REQ("iteration", after == rest, "position returned by erase(range) does not continue the traversal");
		feature(gone.empty() ? "erase.empty-range" : "erase.range");
	}
	void op_erase_if(Slot &s)
	{
		C &c = *s.c;
		allow(s.m);
		const u64 salt = r.next();
		const unsigned den = 1 + r.below(4);
		std::size_t expect = 0;
		std::unordered_map<int, int> calls;
		for (auto i = s.m.order.begin(); i != s.m.order.end();)
			if (mix64(salt ^ u64(i->id)) % den == 0)
			{
				s.m.idx.erase(i->id);
				i = s.m.order.erase(i);
				++expect;
			}
			else ++i;
		const auto before = c.size();
		const auto got = erase_if(c, [&](const auto &v)
		{
			const Key &k = key_of(v);
			k.use("predicate");
			++calls[k.id];
			return mix64(salt ^ u64(k.id)) % den == 0;
		});
		REQ("iteration", got == expect, "erase_if reports %zu elements, expected %zu", std::size_t(got), expect);
		REQ("iteration", calls.size() == before, "erase_if visits %zu of %zu elements", calls.size(), std::size_t(before));
		for (auto &x: calls) REQ("iteration", x.second == 1, "erase_if visits element %d %d times", x.first, x.second);
		dels += long(expect);
		mix(expect);
	}
	void op_erase_loop(Slot &s)
	{
		C &c = *s.c;
		allow(s.m);
		const unsigned den = 1 + r.below(3);
		const u64 salt = r.next();
		std::unordered_set<int> visited;
		const auto before = s.m.size();
		for (auto i = c.begin(); i != c.end();)
		{
			const int id = key_of(*i).id;
			REQ("iteration", visited.insert(id).second, "element %d visited twice by an erasing loop", id);
			REQ("iteration", s.m.has(id), "element %d visited by an erasing loop is not stored", id);
			verify_iter(s, i, s.m.get(id), "erasing loop");
			if (mix64(salt ^ u64(id)) % den == 0)
			{
				i = c.erase(i);
				s.m.remove(id);
				++dels;
			}
			else ++i;
		}
		REQ("iteration", visited.size() == before, "an erasing loop visits %zu of %zu elements", visited.size(), before);
	}
	int fresh_id(Slot &s)
	{
		for (int i = 0; i < 16; ++i) { int id = pick_id(); if (!s.m.has(id)) return id; }
		int id = key_range + int(r.below(1u << 20));
		while (s.m.has(id)) ++id;
		return id;
	}
	void add_one(Slot &s, int id)
	{
		const int tag = next_tag++, val = int(r.below(1000));
		std::pair<iterator, bool> res;
		auto x = make(id, tag, val);
		++extra_live;
		allow(s.m);
		res = s.c->insert(std::move(x));
		--extra_live;
		inserted(s, res.second, res.first, s.m.order.end(), id, tag, map ? val : 0, "insert");
	}
	void impossible_load_factor(Slot &s)
	{
		// The next element would need more buckets than there can be.
		if constexpr (dense)
		{
			// Not only powers of ten: most amounts of buckets are not representable as a float.
			s.c->max_load_factor(float((1 + r.below(900) / 100.) * std::pow(10., -15 - int(r.below(30)))));
			{
				auto x = make(fresh_id(s), next_tag++, 1);
				bool thrown = false;
				allow(s.m);
				++extra_live;
				W.impossible = true;
				try { s.c->insert(std::move(x)); } catch (const std::exception &) { thrown = true; }
				W.impossible = false;
				REQ("capacity", thrown, "an element is inserted beyond a maximum load factor of %g", s.c->max_load_factor());
				--extra_live;
			}
			s.c->max_load_factor(s.m.mlf);
			verify(s, true);
			check_balance();
			feature("impossible.load_factor");
		}
	}
	void fill_reserved(Slot &s, std::size_t n)
	{
		// Reserved room is used up without any growth or relocation.
		if (n - s.m.size() > 400) return;
		C &c = *s.c;
		const auto buckets = c.bucket_count();
		std::vector<std::pair<int, const void *>> addrs;
		for (auto i = c.begin(); i != c.end(); ++i) addrs.emplace_back(key_of(*i).id, &key_of(*i));
		const auto target = r.chance(1, 2) ? n : s.m.size() + r.below(unsigned(n - s.m.size()) + 1);
		while (s.m.size() < target)
		{
			const long allocs = W.allocs;
			add_one(s, fresh_id(s));
			REQ("capacity", c.bucket_count() == buckets, "the table grows from %zu to %zu buckets within the reserved %zu elements (size %zu)", std::size_t(buckets), std::size_t(c.bucket_count()), n, s.m.size());
			REQ("capacity", W.allocs - allocs <= (stable ? 1 : 0), "an insertion within the reserved capacity allocates");
			addrs.emplace_back(s.m.order.back().id, &key_of(*c.find(Key(s.m.order.back().id))));
		}
		allow(s.m);
		for (auto &a: addrs)
		{
			auto i = c.find(Key(a.first));
			REQ("stability", i != c.end() && &key_of(*i) == a.second, "element %d is relocated by an insertion within the reserved capacity", a.first);
		}
		feature("reserve.filled");
	}
	void op_fill(Slot &s)
	{
		// Grow up to, or just over, the point where the table is full.
		C &c = *s.c;
		std::size_t target = std::min<std::size_t>(std::max<std::size_t>(room(s), 3), 1u << 30) + r.below(3);
		if (target > s.m.size() + 300) target = s.m.size() + 300;
		if (r.chance(1, 3)) target = s.m.size() + r.below(30);
		const auto before = c.bucket_count();
		while (s.m.size() < target) add_one(s, fresh_id(s));
		feature("fill");
		if (c.bucket_count() != before) feature("growth");
	}
	void op_drain(Slot &s)
	{
		C &c = *s.c;
		allow(s.m);
		const auto keep = r.chance(1, 2) ? 0 : r.below(unsigned(s.m.size()) + 1);
		while (s.m.size() > keep)
		{
			const int id = r.chance(1, 2) ? s.m.order.front().id : s.m.order.back().id;
			c.erase(Key(id));
			s.m.remove(id);
			++dels;
		}
		feature("drain");
	}
	void op_churn(Slot &s)
	{
		// Keep the size while elements come and go, so that deleted entries accumulate.
		C &c = *s.c;
		allow(s.m);
		const auto n = 8 + r.below(120);
		const auto before = c.bucket_count();
		for (unsigned i = 0; i < n; ++i)
		{
			if (s.m.size() && r.chance(1, 2))
			{
				const int id = r.chance(1, 2) ? s.m.order.front().id : pick_present(s.m);
				c.erase(Key(id));
				s.m.remove(id);
				++dels;
			}
			else add_one(s, fresh_id(s));
			light(s);
		}
		feature("churn");
		if (c.bucket_count() == before) feature("churn.in-place");
	}

	void op_transfer(int op, Slot &s)
	{
		Slot &o = pick_slot();
		g_log.add("  other", long(&o - slot));
		switch (op)
		{
			case O_COPY_CTOR:
			{
				const auto a = new_alloc();
				const bool ext = r.chance(1, 2);
				std::unique_ptr<C> n;
				allow(s.m);
				const auto live = W.keys_live;
				attempt([&] { Arm arm; n = ext ? std::make_unique<C>(std::as_const(*s.c), a) : std::make_unique<C>(std::as_const(*s.c)); }, [&]
				{
					REQ("exception", W.keys_live == live, "a failed copy leaks");
					verify(s, true);
					return true;
				});
				Model m = s.m;
				if (ext) m.alloc = a.id;
				else if (select) m.alloc += SELECTED;
				if (dense) REQ("value", n->max_load_factor() == s.m.mlf, "copy has a different maximum load factor");
				put(o, std::move(n), std::move(m));
				feature("copy");
				break;
			}
			case O_MOVE_CTOR:
			{
				const auto a = new_alloc();
				const bool ext = r.chance(1, 2) && !prof.fault;
				std::unique_ptr<C> n;
				allow(s.m);
				const auto copies = W.copies;
				n = ext ? std::make_unique<C>(std::move(*s.c), a) : std::make_unique<C>(std::move(*s.c));
				// Elements are re-created for an unequal allocator, which copies the const keys of stable maps.
				if (!(stable && map && ext && !always_equal && a.id != s.m.alloc)) REQ("lifetime", W.copies == copies, "a move copies elements");
				Model m = s.m;
				if (ext) m.alloc = a.id;
				const bool keep = !ext || always_equal || a.id == s.m.alloc;
				if (!keep) forget_addr(m);
				moved_from(s);
				if (&o == &s)
				{
					s.c = std::move(n);
					s.m = std::move(m);
					renote(s);
				} else put(o, std::move(n), std::move(m), keep);
				feature("move");
				break;
			}
			case O_COPY_ASSIGN:
			{
				Model m = o.m;
				m.alloc = P_copy::value ? o.m.alloc : s.m.alloc;
				if (&s == &o) { allow(s.m); *s.c = std::as_const(*o.c); break; }
				forget_addr(m);
				if (!weak(s, m, [&] { Arm a; *s.c = std::as_const(*o.c); }))
				{
					verify(o, true);
					break;
				}
				s.m = std::move(m);
				renote(s);
				verify(o, true);
				verify(s, true);
				feature("copy-assign");
				break;
			}
			case O_MOVE_ASSIGN:
			{
				if (&s == &o) { self_move(s); break; }
				Model m = o.m;
				m.alloc = P_move::value ? o.m.alloc : s.m.alloc;
				const bool keep = P_move::value || always_equal || o.m.alloc == s.m.alloc;
				if (!keep) forget_addr(m);
				allow(s.m, o.m);
				const auto copies = W.copies;
				*s.c = std::move(*o.c);
				if (keep || !(stable && map)) REQ("lifetime", W.copies == copies, "a move copies elements");
				s.m = std::move(m);
				moved_from(o);
				if (!keep) renote(s);
				verify(s, true);
				verify(o, true);
				feature(keep ? "move-assign" : "move-assign.unequal");
				break;
			}
			case O_SELF_ASSIGN:
				allow(s.m);
				if (r.chance(1, 2)) *s.c = std::as_const(*s.c);
				else self_move(s);
				verify(s, true);
				break;
			default:
			{
				if (!P_swap::value && !always_equal && s.m.alloc != o.m.alloc) break; // not allowed
				allow(s.m, o.m);
				const auto copies = W.copies, moves = W.moves;
				if (r.chance(1, 2)) s.c->swap(*o.c);
				else { using std::swap; swap(*s.c, *o.c); }
				REQ("lifetime", W.copies == copies && W.moves == moves, "swap moves or copies elements");
				if (&s != &o)
				{
					std::swap(s.m, o.m);
					s.m.reindex();
					o.m.reindex();
					if (!P_swap::value) std::swap(s.m.alloc, o.m.alloc);
				}
				verify(s, true);
				verify(o, true);
				feature("swap");
				break;
			}
		}
	}
	void self_move(Slot &s)
	{
		allow(s.m);
		C &alias = *s.c;
		*s.c = std::move(alias);
	}
	void forget_addr(Model &m) { for (auto &e: m.order) e.addr = e.vaddr = nullptr; }
	void renote(Slot &s) { allow(s.m); for (auto &e: s.m.order) note_addr(s, e.id); }
	void moved_from(Slot &s)
	{
		// A moved-from container is valid and empty; its functors are unspecified.
		const C &c = *s.c;
		REQ("value", c.size() == 0 && c.empty() && c.begin() == c.end(), "a moved-from container is not empty");
		s.m.clear();
		s.m.huid = c.hash_function().uid, s.m.hmode = c.hash_function().mode;
		s.m.euid = c.key_eq().uid;
		s.m.mlf = c.max_load_factor();
		s.m.mlf_exceeded = false;
		verify(s, true);
	}
	void put(Slot &o, std::unique_ptr<C> n, Model m, bool keep_addr = false)
	{
		dels += long(o.m.size());
		o.c = std::move(n);
		o.m = std::move(m);
		o.m.reindex();
		if (!keep_addr)
		{
			forget_addr(o.m);
			renote(o);
		}
		verify(o, true);
	}

	void op_range_insert(Slot &s)
	{
		C &c = *s.c;
		Model m = s.m;
		const auto n = r.chance(1, 6) ? r.below(200) : r.below(20);
		const auto items = range_items(n, &m);
		extra_live += long(items.size());
		m.mlf_exceeded = m.mlf_exceeded && m.size() == s.m.size();
		const auto how = r.below(7);
		bool done;
		if (how == 6)
		{
			std::vector<conv_t> l;
			for (auto &x: items)
				if constexpr (map) l.push_back(make_conv(x.first.id, x.first.tag, x.second.v));
				else l.push_back(make_conv(x.id, x.tag, 0));
			done = weak(s, m, [&] { Arm a; c.insert(l.begin(), l.end()); });
			feature("insert.convert");
		}
		else
		if (how == 4)
		{
			std::forward_list<insert_t> l(items.begin(), items.end());
			extra_live += long(items.size());
			done = weak(s, m, [&] { Arm a; c.insert(l.begin(), l.end()); });
			extra_live -= long(items.size());
		}
		else if (how == 5)
		{
			std::deque<insert_t> l(items.begin(), items.end());
			extra_live += long(l.size());
			done = weak(s, m, [&] { Arm a; c.insert(l.cbegin(), l.cend()); });
			extra_live -= long(l.size());
		}
		else if (how == 0) done = weak(s, m, [&] { Arm a; c.insert(items.begin(), items.end()); });
		else if (how == 1)
		{
			std::list<insert_t> l(items.begin(), items.end());
			extra_live += long(l.size());
			done = weak(s, m, [&] { Arm a; c.insert(l.begin(), l.end()); });
			extra_live -= long(l.size());
		}
		else if (how == 2)
		{
			auto copy = items;
			extra_live += long(copy.size());
			done = weak(s, m, [&] { Arm a; c.insert(std::make_move_iterator(copy.begin()), std::make_move_iterator(copy.end())); });
			extra_live -= long(copy.size());
		}
		else
		{
			std::size_t pos = 0;
			done = weak(s, m, [&] { pos = 0; Arm a; c.insert(InputIt<insert_t>{&items, &pos, false}, InputIt<insert_t>{&items, &pos, true}); });
		}
		extra_live -= long(items.size());
		if (done)
		{
			adds += long(m.size() - s.m.size());
			s.m = std::move(m);
			s.m.reindex();
			renote(s);
		}
		feature("insert.range");
	}
	void op_il(Slot &s, bool assign)
	{
		C &c = *s.c;
		Model m = s.m;
		const Model before = s.m;
		if (assign) m.clear();
		const int n = int(r.below(5));
		std::vector<std::array<int, 3>> x;
		for (int i = 0; i < 4; ++i) x.push_back({i && r.chance(1, 4) ? x[0][0] : pick_mixed(s.m), next_tag++, int(r.below(1000))});
		for (int i = 0; i < n; ++i)
			if (!m.has(x[i][0])) m.push({x[i][0], x[i][1], map ? x[i][2] : 0, nullptr, nullptr});
		if (m.size() > before.size()) m.mlf_exceeded = false;
		using V = typename C::value_type;
		const auto mk = [&](int i) -> V
		{
			if constexpr (map) return V(Key(x[i][0], x[i][1]), Val(x[i][2]));
			else return Key(x[i][0], x[i][1]);
		};
		const auto apply = [&](std::initializer_list<V> il)
		{
			Arm a;
			if (assign) c = il;
			else c.insert(il);
		};
		const auto cv = [&](int i) { return make_conv(x[i][0], x[i][1], x[i][2]); };
		const auto apply_converting = [&](std::initializer_list<conv_t> il)
		{
			Arm a;
			if constexpr (!map) { if (assign) { c = il; return; } }
			c.insert(il);
		};
		bool done = weak(s, m, [&]
		{
			if ((!assign || (!map && n < 4)) && x[0][1] % 2)
				switch (n)
				{
					case 0: apply_converting({}); break;
					case 1: apply_converting({cv(0)}); break;
					case 2: apply_converting({cv(0), cv(1)}); break;
					default: apply_converting({cv(0), cv(1), cv(2)}); if (n == 4) apply_converting({cv(3), cv(0)}); break;
				}
			else switch (n)
			{
				case 0: apply({}); break;
				case 1: apply({mk(0)}); break;
				case 2: apply({mk(0), mk(1)}); break;
				case 3: apply({mk(0), mk(1), mk(2)}); break;
				default: apply({mk(0), mk(1), mk(2), mk(3)}); break;
			}
		});
		if (done)
		{
			s.m = std::move(m);
			s.m.reindex();
			renote(s);
		}
		feature(assign ? "assign.il" : "insert.il");
	}

	bool model_equal(Model &a, Model &b)
	{
		if (a.size() != b.size()) return false;
		for (auto &e: a.order)
			if (!b.has(e.id) || (map && b.get(e.id).val != e.val)) return false;
		return true;
	}
	void check_equal(Slot &s, Slot &o, bool expect)
	{
		allow(s.m, o.m);
		const C &a = *s.c, &b = *o.c;
		REQ("equality", (a == b) == expect, "comparison yields %d, expected %d (sizes %zu and %zu)", int(a == b), int(expect), s.m.size(), o.m.size());
		REQ("equality", (b == a) == expect, "comparison is not symmetric");
		REQ("equality", (a != b) == !expect && (b != a) == !expect, "inequality is not the negation of equality");
		REQ("equality", a == a && !(a != a), "comparison is not reflexive");
		feature(expect ? "equal.true" : "equal.false");
		mix(expect);
	}
	void op_equal(Slot &s)
	{
		Slot &o = pick_slot();
		g_log.add("  other", long(&o - slot));
		if (s.m.size() > 600 || o.m.size() > 600) return;
		check_equal(s, o, model_equal(s.m, o.m));
	}
	void op_equal_build(Slot &s)
	{
		// The same content in a different order, through a different history, capacity and hash; then slightly changed.
		if (s.m.size() > 300 || prof.fault) return;
		Slot t;
		t.m.hmode = int(r.below(HASH_MODES));
		t.m.huid = next_uid++, t.m.euid = next_uid++, t.m.alloc = 1;
		allow_any();
		t.c = std::make_unique<C>(r.below(100), hasher(t.m.hmode, t.m.huid), key_equal(t.m.euid), alloc_t(1));
		std::vector<Entry> v(s.m.order.begin(), s.m.order.end());
		for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(unsigned(i))]);
		const auto junk = r.below(20);
		for (unsigned i = 0; i < junk; ++i) t.c->insert(make(-5000 - int(i), 0, 0));
		for (auto &e: v) { t.c->insert(make(e.id, e.tag, e.val)); t.m.push(e); }
		for (unsigned i = 0; i < junk; ++i) t.c->erase(Key(-5000 - int(i)));
		check_equal(s, t, true);
		if (r.chance(1, 2)) { t.c->rehash(r.below(200)); check_equal(s, t, true); }
		// One element more, one less, one different, one value different.
		const int id = -7000;
		t.c->insert(make(id, 0, 0));
		t.m.push({id, 0, 0, nullptr, nullptr});
		check_equal(s, t, false);
		if (!v.empty())
		{
			const auto &e = v[r.below(unsigned(v.size()))];
			t.c->erase(Key(e.id));
			t.m.remove(e.id);
			check_equal(s, t, false); // same size, one element different
			t.c->erase(Key(id));
			t.m.remove(id);
			check_equal(s, t, false); // one less
			t.c->insert(make(e.id, e.tag, e.val + 1));
			t.m.push({e.id, e.tag, map ? e.val + 1 : 0, nullptr, nullptr});
			check_equal(s, t, !map);
			if constexpr (map)
			{
				t.c->find(Key(e.id))->second.v = e.val;
				check_equal(s, t, true);
			}
		}
		allow_any();
	}

	void op_hetero_insert(Slot &s, int id, int tag, int val)
	{
		C &c = *s.c;
		const bool present = s.m.has(id);
		const auto conv = W.conversions;
		const auto form = tag % 6, how = int(r.below(4));
		const Look l{id, tag};
		const auto looks = W.copied_looks;
		int v = 0;
		if constexpr (map)
		{
			v = form == 2 && present ? s.m.get(id).val : val;
			const auto call = [&](auto &&k, auto ...pos)
			{
				using K = decltype(k);
				Arm a;
				const auto n = c.size();
				// The mapped object is constructed from an integer, copied or moved.
				const auto with_mapped = [&](const char *what, bool assigns, auto &&f)
				{
					if (tag / 6 % 3 == 0 && form != 3) return f(val);
					if (tag / 6 % 3 == 1)
					{
						const Val x(val);
						auto res = f(x);
						require_unmoved(what, x);
						return res;
					}
					Val x(val);
					auto res = f(std::move(x));
					if (assigns || c.size() != n) require_moved(what, x); else require_unmoved(what, x);
					return res;
				};
				switch (form)
				{
					case 2: return with_mapped("try_emplace", false, [&](auto &&x) { return c.try_emplace(pos..., static_cast<K>(k), std::forward<decltype(x)>(x)); });
					case 3: return with_mapped("insert_or_assign", true, [&](auto &&x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int>) return c.insert_or_assign(pos..., static_cast<K>(k), Val(x)); else return c.insert_or_assign(pos..., static_cast<K>(k), std::forward<decltype(x)>(x)); });
					default: return with_mapped("emplace_or_replace", true, [&](auto &&x) { return c.emplace_or_replace(pos..., static_cast<K>(k), std::forward<decltype(x)>(x)); });
				}
			};
			if (form == 5)
			{
				Val *x = nullptr;
				strong(s, [&] { Arm a; if (how < 2) x = &c[l]; else x = &c[Look{id, tag}]; });
				v = present ? s.m.get(id).val : 0;
				inserted(s, !present, c.find(l), s.m.order.end(), id, tag, v, "heterogeneous operator[]");
				REQ("value", x == &c.find(l)->second, "heterogeneous operator[] yields a different element");
			}
			else if (how < 2)
			{
				std::pair<iterator, bool> res;
				strong(s, [&] { res = how ? call(l) : call(Look{id, tag}); });
				if (present) s.m.get(id).val = v;
				inserted(s, res.second, res.first, s.m.order.end(), id, tag, v, "heterogeneous insertion");
			}
			else
				hinted(s, "heterogeneous insertion (hint)", id, tag, v, [&](auto h)
				{
					const auto it = how == 2 ? call(l, h) : call(Look{id, tag}, h);
					if (present) s.m.get(id).val = v;
					return it;
				});
		}
		else
		{
			if (how < 2)
			{
				std::pair<iterator, bool> res;
				strong(s, [&] { Arm a; res = how ? c.insert(l) : c.insert(Look{id, tag}); });
				inserted(s, res.second, res.first, s.m.order.end(), id, tag, 0, "heterogeneous insert");
			}
			else
				hinted(s, "heterogeneous insert (hint)", id, tag, 0, [&](const_iterator h) { Arm a; return how == 2 ? c.insert(h, l) : c.insert(h, Look{id, tag}); });
		}
		if (form == 5 && map ? how >= 2 : how == 0 || how == 3) REQ("lifetime", W.copied_looks == looks, "a heterogeneous insertion copies from an rvalue");
		if (map && !prof.fault) REQ("functor", W.conversions - conv == (present ? 0 : 1), "a heterogeneous insertion converts the key %ld times (present: %d)", W.conversions - conv, int(present));
	}
	void op_hetero(Slot &s, int id, int tag, int val)
	{
		if constexpr (transparent)
		{
			C &c = *s.c;
			const C &cc = c;
			const bool present = s.m.has(id);
			const Look l{id, tag};
			const Look2 l2{short(id)};
			allow(s.m);
			const auto conv = W.conversions, ctor = W.ctor;
			{
				Arm a;
				REQ("value", cc.contains(l) == present && (id > 30000 || cc.contains(l2) == present), "heterogeneous contains(%d) is wrong", id);
				REQ("value", (c.find(l) != c.end()) == present && (cc.find(l) != cc.end()) == present, "heterogeneous find(%d) is wrong", id);
				if (present)
				{
					verify_iter(s, c.find(l), s.m.get(id), "heterogeneous find");
					if (id <= 30000) verify_iter(s, cc.find(l2), s.m.get(id), "heterogeneous find");
				}
				if constexpr (map)
				{
					bool thrown = false;
					try { REQ("value", c.at(l).v == s.m.get(id).val && cc.at(l).v == s.m.get(id).val, "heterogeneous at(%d) is wrong", id); }
					catch (const std::out_of_range &) { thrown = true; }
					REQ("value", thrown == !present, "heterogeneous at(%d) is wrong", id);
				}
				if constexpr (dense) if (cc.bucket_count()) REQ("value", cc.bucket(l) < cc.bucket_count(), "heterogeneous bucket is wrong");
			}
			REQ("functor", W.conversions == conv && W.ctor == ctor, "a heterogeneous lookup creates a key");
			if constexpr (dense) if (present && cc.bucket_count()) REQ("value", cc.bucket(l) == cc.bucket(Key(id)), "heterogeneous bucket is wrong");
			switch (tag % 6)
			{
				case 0: // erase
				{
					iterator res;
					strong(s, [&] { Arm a; res = c.erase(l); });
					REQ("functor", W.conversions == conv, "a heterogeneous erase creates a key");
					if (present) s.m.remove(id), ++dels;
					else REQ("iteration", res == c.end(), "heterogeneous erase of a missing key does not return the end");
					break;
				}
				case 1:
					if constexpr (stable)
					{
						node_type n = c.extract(l);
						REQ("node", n.empty() == !present, "heterogeneous extract is wrong");
						REQ("functor", W.conversions == conv, "a heterogeneous extract creates a key");
						if (present)
						{
							s.m.remove(id);
							++dels;
						}
					}
					break;
				default:
					op_hetero_insert(s, id, tag, val);
			}
			feature("hetero");
		}
	}
	void op_self_arg(Slot &s)
	{
		// Arguments that refer to elements of the container itself, right at the point of growth.
		C &c = *s.c;
		if (s.m.size() == 0) add_one(s, fresh_id(s));
		allow(s.m);
		const bool grow = r.chance(2, 3);
		if (grow && room(s) > s.m.size() && room(s) - s.m.size() < 200)
			while (s.m.size() < room(s)) add_one(s, fresh_id(s));
		allow(s.m);
		const int id = pick_present(s.m);
		auto it = c.find(Key(id));
		const Key &k = key_of(*it);
		const Entry e = s.m.get(id);
		const int nid = fresh_id(s), tag = next_tag++;
		feature("self-arg");
		switch (r.below(7))
		{
			case 0: // rejected insertion of a stored element
			{
				std::pair<iterator, bool> res;
				if constexpr (map) res = c.insert(insert_t(k, it->second));
				else res = c.insert(k);
				inserted(s, res.second, res.first, s.m.order.end(), id, tag, 0, "insert of a stored element");
				if constexpr (map)
				{
					// By reference to the stored key.
					auto r2 = c.try_emplace(key_of(*c.find(Key(id))), 5);
					inserted(s, r2.second, r2.first, s.m.order.end(), id, tag, 0, "try_emplace of a stored key");
				}
				break;
			}
			case 1: // erase by a stored key
			{
				c.erase(k);
				s.m.remove(id);
				++dels;
				break;
			}
			case 2: // new element from a stored value
				if constexpr (map)
				{
					auto res = c.insert_or_assign(Key(nid, tag), it->second);
					inserted(s, res.second, res.first, s.m.order.end(), nid, tag, e.val, "insert_or_assign of a stored value");
				}
				else
				{
					REQ("value", c.contains(k) && c.find(k) != c.end(), "lookup by a stored key fails");
				}
				break;
			case 3:
				if constexpr (map)
				{
					auto res = c.try_emplace(Key(nid, tag), it->second);
					inserted(s, res.second, res.first, s.m.order.end(), nid, tag, e.val, "try_emplace of a stored value");
				}
				break;
			case 4:
				if constexpr (map)
				{
					auto res = c.emplace(Key(nid, tag), it->second);
					inserted(s, res.second, res.first, s.m.order.end(), nid, tag, e.val, "emplace of a stored value");
				}
				break;
			case 5: // assign an element's own value
				if constexpr (map)
				{
					auto res = c.insert_or_assign(k, it->second);
					inserted(s, res.second, res.first, s.m.order.end(), id, tag, e.val, "insert_or_assign of an element's own value");
				}
				break;
			default:
				if constexpr (map)
				{
					auto res = c.emplace_or_replace(k, it->second);
					inserted(s, res.second, res.first, s.m.order.end(), id, tag, e.val, "emplace_or_replace with an element's own value");
				}
		}
	}
	void op_noinvalidate(Slot &s)
	{
		// Operations that must not invalidate any position or reference.
		C &c = *s.c;
		const C &cc = c;
		if (s.m.size() == 0) return;
		allow(s.m);
		if (r.chance(1, 2) && room(s) > s.m.size() && room(s) - s.m.size() < 200) // full tables are where growth would happen
			while (s.m.size() < room(s)) add_one(s, fresh_id(s));
		struct Ref { const_iterator it; const void *k; const void *v; Entry e; };
		std::vector<Ref> refs;
		allow(s.m);
		unsigned n = 0;
		for (auto i = cc.begin(); i != cc.end(); ++i, ++n)
			if (n < 16 || r.chance(1, 8)) refs.push_back({i, &key_of(*i), vaddr_of(*i), s.m.get(key_of(*i).id)});
		const int id = pick_present(s.m), tag = next_tag++;
		const auto buckets = c.bucket_count();
		for (int round = 0; round < 3; ++round)
			switch (r.below(8))
			{
				case 0: { auto x = make(id, tag, 1); ++extra_live; auto res = c.insert(x); --extra_live; REQ("value", !res.second, "duplicate inserted"); break; }
				case 1: if constexpr (map) { auto res = c.try_emplace(Key(id, tag), 1); REQ("value", !res.second, "duplicate inserted"); } break;
				case 2: if constexpr (map) { auto res = c.emplace(Key(id, tag), Val(1)); REQ("value", !res.second, "duplicate inserted"); } else REQ("value", !c.emplace(id, tag).second, "duplicate inserted"); break;
				case 3: if constexpr (map) { const int v = s.m.get(id).val; c.insert_or_assign(Key(id, tag), Val(v)); } break;
				case 4: if constexpr (map) { const int v = s.m.get(id).val; c[Key(id, tag)].v = v; } break;
				case 5: (void) c.contains(Key(-99)); (void) c.find(Key(id)); break;
				case 6: c.erase(Key(-123456)); break;
				default: { auto x = make(id, tag, 1); ++extra_live; c.insert(c.cend(), std::move(x)); --extra_live; break; }
			}
		REQ("capacity", c.bucket_count() == buckets, "an operation that adds nothing changes the bucket count");
		for (auto &f: refs)
		{
			REQ("stability", &key_of(*f.it) == f.k && vaddr_of(*f.it) == f.v, "element %d is relocated by an operation that adds nothing", f.e.id);
			verify_iter(s, f.it, f.e, "position kept");
			REQ("stability", cc.find(Key(f.e.id)) == f.it, "position kept does not equal the position found");
		}
		feature("refs.kept", long(refs.size()));
	}

	// ------------------------------------------------------------ nodes
	void check_node(Held &h, const char *what)
	{
		if constexpr (stable)
		{
			REQ("node", h.n->empty() == !h.full && bool(*h.n) == h.full, "%s: node handle is %s", what, h.full ? "empty" : "not empty");
			if (h.full)
			{
				const Key &k = node_key(*h.n);
				k.use("access through a node handle");
				REQ("node", k.id == h.e.id && k.tag == h.e.tag, "%s: node handle holds key %d, expected %d", what, k.id, h.e.id);
				if constexpr (map)
				{
					h.n->mapped().use("access through a node handle");
					REQ("node", h.n->mapped().v == h.e.val, "%s: node handle of %d holds value %d, expected %d", what, h.e.id, h.n->mapped().v, h.e.val);
				}
				if (h.e.addr) REQ("stability", &k == h.e.addr, "%s: extracted element %d changed its address", what, h.e.id);
				REQ("alloc", h.n->get_allocator().id == h.alloc, "%s: node handle has allocator %d, expected %d", what, h.n->get_allocator().id, h.alloc);
			}
		}
	}
	template<typename N>
	static const Key &node_key(const N &n) { if constexpr (map) return n.key(); else return n.value(); }
	void op_node(int op, Slot &s, int id)
	{
		if constexpr (stable)
		{
			C &c = *s.c;
			allow(s.m);
			const bool present = s.m.has(id);
			if (op == O_EXTRACT)
			{
				if (held.size() >= 6) held.erase(held.begin() + r.below(unsigned(held.size())));
				Held h;
				const auto moves = W.moves, copies = W.copies;
				if (present && r.chance(1, 2)) h.n = std::make_unique<node_type>(r.chance(1, 2) ? c.extract(const_iterator(c.find(Key(id)))) : c.extract(c.find(Key(id))));
				else strong(s, [&] { Key k(id); Arm a; h.n = std::make_unique<node_type>(c.extract(k)); });
				REQ("node", W.moves == moves && W.copies == copies, "extraction moves or copies the element");
				h.full = present;
				if (present)
				{
					h.e = s.m.get(id);
					h.alloc = s.m.alloc;
					s.m.remove(id);
				}
				check_node(h, "extract");
				held.push_back(std::move(h));
				REQ("value", !c.contains(Key(id)), "extracted key %d is still found", id);
				feature(present ? "node.extract" : "node.extract-missing");
				return;
			}
			if (held.empty()) return;
			auto &h = held[r.below(unsigned(held.size()))];
			if (op == O_NODE_OPS)
			{
				auto &g = held[r.below(unsigned(held.size()))];
				switch (r.below(6))
				{
					case 0: // move construction
					{
						auto n = std::make_unique<node_type>(std::move(*h.n));
						REQ("node", h.n->empty(), "a moved-from node handle is not empty");
						h.n = std::move(n);
						break;
					}
					case 1: // move assignment
						if (r.chance(1, 4)) g.n = std::make_unique<node_type>(), g.full = false, g.alloc = g.n->get_allocator().id; // empty handles can be assigned any other one
						if (&g != &h && (always_equal || !g.full || g.alloc == h.alloc || P_move::value))
						{
							if (!g.full && g.n->get_allocator() != h.n->get_allocator()) feature("node.adopt");
							*g.n = std::move(*h.n);
							g.full = h.full, g.e = h.e;
							g.alloc = always_equal ? g.n->get_allocator().id : h.alloc;
							h.full = false;
							REQ("node", h.n->empty(), "a moved-from node handle is not empty");
						}
						break;
					case 2: // swap
						if (r.chance(1, 4)) g.n = std::make_unique<node_type>(), g.full = false, g.alloc = g.n->get_allocator().id;
						if (&g != &h && (P_swap::value || !g.full || !h.full || g.n->get_allocator() == h.n->get_allocator()))
						{
							if (g.full != h.full && g.n->get_allocator() != h.n->get_allocator()) feature("node.adopt");
							if (r.chance(1, 2)) g.n->swap(*h.n);
							else { using std::swap; swap(*g.n, *h.n); }
							std::swap(g.full, h.full);
							std::swap(g.e, h.e);
							std::swap(g.alloc, h.alloc);
							if (always_equal) { g.alloc = g.n->get_allocator().id, h.alloc = h.n->get_allocator().id; }
						}
						break;
					case 3: // change the mapped value
						if constexpr (map) if (h.full) h.n->mapped().v = h.e.val = int(r.below(1000));
						break;
					case 4: // self-assignment & self-swap
					{
						auto &same = *h.n;
						if (r.chance(1, 2)) *h.n = std::move(same);
						else h.n->swap(same);
						feature("node.self");
						break;
					}
					default: // drop
					{
						const auto i = &h - held.data();
						held.erase(held.begin() + i);
						check_balance();
						return;
					}
				}
				check_node(h, "node operation");
				check_node(g, "node operation");
				return;
			}
			const int nid = h.full ? h.e.id : -1;
			const bool dup = h.full && s.m.has(nid);
			const bool eq_alloc = always_equal || !h.full || h.alloc == s.m.alloc;
			const auto moves = W.moves, copies = W.copies;
			const Entry put = eq_alloc ? h.e : Entry{h.e.id, h.e.tag, h.e.val, nullptr, nullptr}; // the element is moved to another node if the allocators differ
			if (!eq_alloc) feature("node.other-allocator");
			if (op == O_NODE_INSERT)
			{
				typename C::insert_return_type *res = nullptr;
				std::unique_ptr<typename C::insert_return_type> keep;
				attempt([&] { Arm a; keep.reset(new typename C::insert_return_type(c.insert(std::move(*h.n)))); }, [&]
				{
					check_node(h, "failed insert(node)");
					verify(s, true);
					return true;
				});
				res = keep.get();
				REQ("node", res->inserted == (h.full && !dup), "insert(node) reports %d", int(res->inserted));
				if (!h.full) REQ("node", res->position == c.end() && res->node.empty(), "insert of an empty node does not return the end");
				else if (dup)
				{
					REQ("node", !res->node.empty() && node_key(res->node).id == nid, "rejected node is not returned");
					verify_iter(s, res->position, s.m.get(nid), "insert(node)");
					h.n = std::make_unique<node_type>(std::move(res->node));
					check_node(h, "rejected node");
					feature("node.rejected");
				}
				else
				{
					REQ("node", res->node.empty(), "a node is returned although it was inserted");
					s.m.push(put);
					s.m.mlf_exceeded = false;
					verify_iter(s, res->position, put, "insert(node)");
					note_addr(s, nid);
					h.full = false;
					REQ("node", h.n->empty(), "the node handle still owns the inserted element");
					feature("node.inserted");
				}
				keep.reset();
			}
			else if (op == O_NODE_HINT)
			{
				const auto hint = pick_hint(s);
				auto pos = hint_pos(s.m, hint, c);
				const bool at_end = hint == c.cend();
				const int hid = at_end ? -1 : key_of(*hint).id;
				iterator it;
				allow(s.m);
				attempt([&]
				{
					const_iterator hh;
					{ Disarm d; hh = at_end ? c.cend() : const_iterator(c.find(Key(hid))); }
					Arm a;
					it = c.insert(hh, std::move(*h.n));
				}, [&] { check_node(h, "failed insert(hint, node)"); verify(s, true); return true; });
				if (!h.full) REQ("node", it == c.end(), "insert of an empty node does not return the end");
				else if (dup)
				{
					verify_iter(s, it, s.m.get(nid), "insert(hint,node)");
					check_node(h, "rejected node");
				}
				else
				{
					s.m.add(pos, put);
					verify_iter(s, it, put, "insert(hint,node)");
					note_addr(s, nid);
					h.full = false;
					REQ("node", h.n->empty(), "the node handle still owns the inserted element");
				}
				feature("node.hinted");
			}
			else // O_NODE_ASSIGN
			{
				if constexpr (map)
				{
					iterator it;
					bool did = false;
					const bool hinted_form = r.chance(1, 2);
					const auto hint = pick_hint(s);
					auto pos = hinted_form ? hint_pos(s.m, hint, c) : s.m.order.end();
					const auto before = c.size();
					allow(s.m);
					const int hid = hinted_form && hint != c.cend() ? key_of(*hint).id : -1;
					attempt([&]
					{
						if (hinted_form)
						{
							const_iterator hh;
							{ Disarm d; hh = hid < 0 ? c.cend() : const_iterator(c.find(Key(hid))); }
							Arm a;
							it = c.insert_or_assign(hh, std::move(*h.n));
							did = c.size() != before;
						}
						else
						{
							Arm a;
							auto res = c.insert_or_assign(std::move(*h.n));
							it = res.first;
							did = res.second;
						}
					}, [&] { check_node(h, "failed insert_or_assign(node)"); verify(s, true); return true; });
					REQ("node", did == (h.full && !dup), "insert_or_assign(node) reports %d", int(did));
					if (!h.full) REQ("node", it == c.end(), "insert_or_assign of an empty node does not return the end");
					else
					{
						if (dup)
						{
							s.m.get(nid) = put; // takes the place of the old element
							feature("node.assigned");
						}
						else s.m.add(pos, put);
						h.full = false;
						REQ("node", h.n->empty(), "the node handle still owns the assigned element");
						verify_iter(s, it, s.m.get(nid), "insert_or_assign(node)");
						note_addr(s, nid);
					}
				}
			}
			if (eq_alloc) REQ("node", W.copies == copies && W.moves == moves, "node insertion moves or copies the element");
		}
	}
	template<typename F>
	void merged(Slot &d, Slot &o, bool eq_alloc, F &&f)
	{
		Model dm = d.m, om = o.m;
		for (auto &e: o.m.order)
			if (!dm.has(e.id))
			{
				dm.push(eq_alloc ? e : Entry{e.id, e.tag, e.val, nullptr, nullptr});
				om.remove(e.id);
			}
		const auto moves = W.moves, copies = W.copies, ctor = W.ctor;
		allow(d.m, o.m);
		f();
		if (eq_alloc) REQ("node", W.moves == moves && W.copies == copies && W.ctor == ctor, "merge moves, copies or creates elements");
		dm.mlf_exceeded = false;
		if (!ordered)
		{
			// Any order of transfer will do.
		}
		d.m = std::move(dm);
		d.m.reindex();
		o.m = std::move(om);
		o.m.reindex();
	}
	void op_merge(Slot &s)
	{
		if constexpr (stable)
		{
			Slot &o = pick_slot();
		g_log.add("  other", long(&o - slot));
			if (&o == &s) return;
			const bool eq_alloc = always_equal || s.m.alloc == o.m.alloc;
			if (prof.fault)
			{
				if (eq_alloc) merge_fault(s, o);
				return;
			}
			const auto before = o.m.size();
			if (!eq_alloc) feature("merge.other-allocator");
			merged(s, o, eq_alloc, [&] { if (r.chance(1, 2)) s.c->merge(*o.c); else s.c->merge(std::move(*o.c)); });
			if (!eq_alloc) renote(s);
			verify(s, true);
			verify(o, true);
			feature(o.m.size() == 0 ? "merge.all" : o.m.size() == before ? "merge.none" : "merge.some");
		}
	}
	void merge_fault(Slot &s, Slot &o)
	{
		if constexpr (stable)
		{
			Model dm = s.m, om = o.m;
			for (auto &e: o.m.order)
				if (!dm.has(e.id)) { dm.push(e); om.remove(e.id); }
			const auto total = s.m.size() + o.m.size();
			allow(s.m, o.m);
			W.fault_at = 1 + long(r.below(30));
			bool ok = true;
			try { Arm a; s.c->merge(*o.c); } catch (const Fault &) { ok = false; }
			W.fault_at = 0;
			W.armed = false;
			if (ok)
			{
				s.m = std::move(dm), s.m.reindex();
				o.m = std::move(om), o.m.reindex();
			}
			else
			{
				feature("fault.merge");
				REQ("exception", s.c->size() + o.c->size() == total, "a failed merge loses or duplicates elements");
				Model all_d = dm, all_o = o.m;
				resync_quiet(s, all_d);
				resync_quiet(o, all_o);
			}
			verify(s, true);
			verify(o, true);
		}
	}
	void resync_quiet(Slot &s, const Model &complete)
	{
		Model nm;
		const C &c = *s.c;
		nm.huid = s.m.huid, nm.hmode = s.m.hmode, nm.euid = s.m.euid, nm.alloc = s.m.alloc, nm.mlf = s.m.mlf, nm.mlf_exceeded = s.m.mlf_exceeded || complete.mlf_exceeded;
		for (auto i = c.begin(); i != c.end(); ++i)
		{
			const Key &k = key_of(*i);
			k.use("traversal");
			auto f = complete.idx.find(k.id);
			REQ("exception", f != complete.idx.end() && f->second->tag == k.tag, "element %d after a failed merge is not part of the complete result", k.id);
			nm.push(*f->second);
			REQ("exception", nm.size() <= c.size(), "traversal does not end after a failed merge");
		}
		s.m = std::move(nm);
		s.m.reindex();
	}
	void op_merge2(Slot &s)
	{
		if constexpr (stable && !std::is_void_v<C2>)
		{
			// The other side has different functor types.
			C2 o(r.below(20), typename C2::hasher(int(r.below(HASH_MODES)), next_uid++), typename C2::key_equal(next_uid++), alloc_t(s.m.alloc));
			Model om;
			allow_any();
			const auto items = range_items(r.below(30), &om);
			o.insert(items.begin(), items.end());
			const auto euid = o.key_eq().uid, huid = o.hash_function().uid;
			for (auto &e: om.order)
			{
				auto i = o.find(Key(e.id));
				e.addr = &key_of(*i);
				e.vaddr = vaddr_of(*i);
			}
			Model left;
			Model dm = s.m;
			for (auto &e: om.order)
				if (!dm.has(e.id)) dm.push(e);
				else left.push(e);
			const auto moves = W.moves, copies = W.copies;
			if (r.chance(1, 2)) s.c->merge(o);
			else s.c->merge(std::move(o));
			REQ("node", W.moves == moves && W.copies == copies, "merge moves or copies elements");
			REQ("functor", o.hash_function().uid == huid && o.key_eq().uid == euid, "merge replaces the functors of its source");
			s.m = std::move(dm);
			s.m.reindex();
			s.m.mlf_exceeded = false;
			REQ("node", o.size() == left.size(), "merge leaves %zu elements in the source, expected %zu", std::size_t(o.size()), left.size());
			auto p = left.order.begin();
			for (auto i = o.begin(); i != o.end(); ++i)
			{
				const Key &k = key_of(*i);
				REQ("node", left.has(k.id) && left.get(k.id).tag == k.tag, "element %d left in the source by merge is wrong", k.id);
				if (ordered) { REQ("order", p->id == k.id, "order of the source broken by merge"); ++p; }
			}
			extra_live += long(left.size() + items.size());
			verify(s, true);
			extra_live -= long(left.size() + items.size());
			feature("merge.other-functors");
		}
	}

	// ------------------------------------------------------------ a case
	void run()
	{
		static const int ranges[] = {4, 8, 16, 24, 48, 100, 200, 600};
		key_range = ranges[r.below(prof.fault || prof.small_only ? 5 : 8)];
		mode_base = r.chance(1, 3) ? 0 : int(r.below(HASH_MODES));
		for (auto &s: slot) build(s);
		const int ops = prof.fault ? 30 + int(r.below(60)) : 40 + int(r.below(160));
		int total = 0;
		for (int w: prof.w) total += w;
		for (int i = 0; i < ops; ++i)
		{
			int x = int(r.below(unsigned(total))), op = 0;
			while (x >= prof.w[op]) x -= prof.w[op++];
			step(op);
			for (auto &s: slot)
				if (s.m.size() > 900) { allow(s.m); s.c->clear(); s.m.clear(); }
		}
		for (auto &s: slot) verify(s, true);
		for (auto &h: held) check_node(h, "end of the case");
		check_balance();
		for (auto &s: slot) { s.c.reset(); s.m.clear(); }
		check_balance(); // handles outlive the containers
		for (auto &h: held) check_node(h, "after the containers are gone");
		held.clear();
		check_balance();
		REQ("alloc", W.built.empty(), "%zu objects that an allocator created are not destroyed by it", W.built.size());
		REQ("alloc", W.blocks.empty(), "%zu blocks are never returned to the allocator", W.blocks.size());
		++S.cases;
		if (adds > 2 && dels > 2) S.digests.insert(digest);
		if (S.samples.size() < 2)
		{
			char buf[400];
			int n = std::snprintf(buf, sizeof buf, "case %ld: range=%d hash=%d ops=%d adds=%ld dels=%ld; last:", g_case, key_range, mode_base, ops, adds, dels);
			const unsigned long from = g_log.n > 8 ? g_log.n - 8 : 0;
			for (auto i = from; i < g_log.n && n < 340; ++i) n += std::snprintf(buf + n, sizeof buf - n, " %s(%ld,%ld)", g_log.ops[i % Log::N].name, g_log.ops[i % Log::N].a, g_log.ops[i % Log::N].b);
			S.samples.push_back(buf);
		}
	}
};
