// Shared monitors: instrumented keys, values, functors and allocators, an operation log and the failure path.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <list>
#include <forward_list>
#include <deque>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <utility>
#include <functional>
#include <type_traits>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <limits>
#include <new>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>

using u64 = std::uint64_t;
inline u64 mix64(u64 x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
struct Rng
{
	u64 s;
	explicit Rng(u64 seed) : s(seed) {}
	u64 next() { return s = s + 0x9e3779b97f4a7c15ull, mix64(s); }
	unsigned below(unsigned n) { return n ? unsigned((next() >> 11) % n) : 0; }
	int range(int a, int b) { return a + int(below(unsigned(b - a + 1))); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---------------------------------------------------------------- failure path
struct OpRec { const char *name; long a, b, c; };
struct Log
{
	static constexpr unsigned N = 80;
	OpRec ops[N];
	unsigned long n = 0;
	void add(const char *name, long a = 0, long b = 0, long c = 0) { ops[n++ % N] = {name, a, b, c}; }
};
inline Log g_log;
inline const char *g_kind = "?";
inline const char *g_profile = "?";
inline u64 g_seed = 0;
inline long g_case = -1;
inline const char *g_outfile = nullptr;

inline void dump_log()
{
	std::printf("case kind=%s profile=%s seed=%llu case=%ld ops=%lu\n", g_kind, g_profile, (unsigned long long) g_seed, g_case, g_log.n);
	const unsigned long from = g_log.n > Log::N ? g_log.n - Log::N : 0;
	for (unsigned long i = from; i < g_log.n; ++i)
	{
		const auto &o = g_log.ops[i % Log::N];
		std::printf("  op %lu: %s %ld %ld %ld\n", i, o.name, o.a, o.b, o.c);
	}
	std::fflush(stdout);
}
[[noreturn]] inline void fail(const char *cat, const char *fmt, ...)
{
	std::printf("MONITOR-FAIL category=%s ", cat);
	va_list ap;
	va_start(ap, fmt);
	std::vprintf(fmt, ap);
	va_end(ap);
	std::printf("\n");
	dump_log();
	std::_Exit(99);
}
#define REQ(cat, cond, ...) do { if (!(cond)) fail(cat, __VA_ARGS__); } while (0)
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#endif
#ifdef HAVE_ASAN
extern "C" void __asan_set_death_callback(void (*)(void));
#endif
// Crashes, traps of internal assertions and cases that do not end print the history as well.
inline void on_signal(int sig)
{
	if (sig == SIGPROF) std::printf("MONITOR-FAIL category=hang a case has used %d s of processor time\n", 40);
	else std::printf("MONITOR-FAIL category=crash signal %d\n", sig);
	dump_log();
	std::_Exit(98);
}
inline void install_death_callback()
{
#ifdef HAVE_ASAN
	__asan_set_death_callback([] { dump_log(); });
#else
	std::signal(SIGSEGV, on_signal);
	std::signal(SIGBUS, on_signal);
#endif
	for (int s: {SIGABRT, SIGTRAP, SIGILL, SIGFPE, SIGTERM, SIGPROF}) std::signal(s, on_signal);
}
inline void begin_case(long i) // cases take milliseconds
{
	g_case = i;
	g_log.n = 0;
	itimerval t{};
	t.it_value.tv_sec = 40;
	setitimer(ITIMER_PROF, &t, nullptr);
}

// ---------------------------------------------------------------- world state
struct Fault { int point; };
struct Block { std::size_t n, size; int id; };
struct World
{
	long keys_live = 0, vals_live = 0;
	long ctor = 0, copies = 0, moves = 0, dtor = 0, conversions = 0, copied_looks = 0;
	long hash_calls = 0, eq_calls = 0, allocs = 0, deallocs = 0, faults = 0;
	std::unordered_map<void *, Block> blocks;
	std::unordered_map<const void *, Block> built; // objects created by allocators that create objects

	bool armed = false;     // fault points count only while armed
	long fault_at = 0;      // 0 = no fault
	long fault_pos = 0;
	unsigned fault_kinds = ~0u;

	int allow_n = -1;       // -1 = anything allowed
	int allow[4];
	int eallow_n = -1;
	int eallow[4];
	unsigned char fill = 0xa5;
	bool impossible = false; // a request that no memory could satisfy is being made

	void tick(int kind)
	{
		if (armed && fault_at && (fault_kinds >> kind & 1) && ++fault_pos == fault_at)
		{
			armed = false;
			++faults;
			throw Fault{kind};
		}
	}
};
inline World W;
enum { F_ALLOC, F_KCTOR, F_KCOPY, F_VCTOR, F_VCOPY, F_HASH, F_EQ };
struct Arm
{
	Arm() { W.armed = true; W.fault_pos = 0; }
	~Arm() { W.armed = false; }
};
struct Disarm
{
	bool old = W.armed;
	Disarm() { W.armed = false; }
	~Disarm() { W.armed = old; }
};
inline void allow_any() { W.allow_n = W.eallow_n = -1; }

// ---------------------------------------------------------------- instrumented objects
template<int Which>
struct Life
{
	enum : unsigned { LIVE = 0x11feb0b0u, MOVED = 0x3070edu, DEAD = 0xdeadd00du };
	const void *self;
	unsigned magic;

	static long &live() { return Which ? W.vals_live : W.keys_live; }
	static const char *name() { return Which ? "value" : "key"; }
	void born(unsigned m = LIVE) { self = this; magic = m; ++live(); ++W.ctor; }
	void use(const char *what) const
	{
		REQ("lifetime", magic != DEAD, "%s: %s after destruction", name(), what);
		REQ("lifetime", magic != MOVED, "%s: %s after it was moved from", name(), what);
		REQ("lifetime", magic == LIVE, "%s: %s of an object that was never constructed", name(), what);
		REQ("lifetime", self == this, "%s: %s of an object that was relocated bitwise", name(), what);
	}
	void target(const char *what) const
	{
		REQ("lifetime", magic == LIVE || magic == MOVED, "%s: %s a dead object", name(), what);
		REQ("lifetime", self == this, "%s: %s an object that was relocated bitwise", name(), what);
	}
	void die()
	{
		REQ("lifetime", magic != DEAD, "%s: destroyed twice", name());
		target("destruction of");
		magic = DEAD;
		--live();
		++W.dtor;
		REQ("lifetime", live() >= 0, "%s: more destructions than constructions", name());
	}
};

struct Look { int id; int tag = 0; };  // equivalent of a key, for heterogeneous operations
struct Look2 { short id; };            // another one
struct Key : Life<0>
{
	int id, tag;
	explicit Key(int i, int t = 0) : id(i), tag(t) { W.tick(F_KCTOR); born(); }
	explicit Key(const Look &l) : id(l.id), tag(l.tag) { ++W.conversions; ++W.copied_looks; W.tick(F_KCTOR); born(); }
	explicit Key(Look &&l) : id(l.id), tag(l.tag) { ++W.conversions; W.tick(F_KCTOR); born(); } // rvalues have to arrive as such
	Key(const Key &o) : Life<0>(), id(o.id), tag(o.tag) { o.use("copy"); W.tick(F_KCOPY); ++W.copies; born(); }
	Key(Key &&o) noexcept : Life<0>(), id(o.id), tag(o.tag) { o.use("move"); ++W.moves; born(); o.magic = MOVED; o.id = -1; }
	Key &operator=(const Key &o)
	{
		o.use("copy");
		target("assignment to");
		W.tick(F_KCOPY);
		id = o.id, tag = o.tag, magic = LIVE;
		++W.copies;
		return *this;
	}
	Key &operator=(Key &&o) noexcept
	{
		o.use("move");
		target("assignment to");
		id = o.id, tag = o.tag;
		++W.moves;
		if (this != &o) { o.magic = MOVED; o.id = -1; }
		magic = LIVE;
		return *this;
	}
	~Key() { die(); }
	friend bool operator==(const Key &a, const Key &b) { a.use("comparison"); b.use("comparison"); return a.id == b.id; }
	friend bool operator!=(const Key &a, const Key &b) { return !(a == b); }
};
struct Val : Life<1>
{
	int v;
	Val() : v(0) { W.tick(F_VCTOR); born(); }
	explicit Val(int x) : v(x) { W.tick(F_VCTOR); born(); }
	Val(int a, int b) : v(a * 1000 + b) { W.tick(F_VCTOR); born(); }
	Val(const Val &o) : Life<1>(), v(o.v) { o.use("copy"); W.tick(F_VCOPY); ++W.copies; born(); }
	Val(Val &&o) noexcept : Life<1>(), v(o.v) { o.use("move"); ++W.moves; born(); o.magic = MOVED; o.v = -1; }
	Val &operator=(const Val &o)
	{
		o.use("copy");
		target("assignment to");
		W.tick(F_VCOPY);
		v = o.v, magic = LIVE;
		++W.copies;
		return *this;
	}
	Val &operator=(Val &&o) noexcept
	{
		o.use("move");
		target("assignment to");
		v = o.v;
		++W.moves;
		if (this != &o) { o.magic = MOVED; o.v = -1; }
		magic = LIVE;
		return *this;
	}
	~Val() { die(); }
	friend bool operator==(const Val &a, const Val &b) { a.use("comparison"); b.use("comparison"); return a.v == b.v; }
	friend bool operator!=(const Val &a, const Val &b) { return !(a == b); }
};

// ---------------------------------------------------------------- functors
constexpr int HASH_MODES = 10;
inline std::size_t hash_by_mode(int mode, long id)
{
	const auto x = static_cast<u64>(id);
	switch (mode)
	{
		case 0: return mix64(x);
		case 1: return x;                             // identity
		case 2: return 42;                            // everything collides
		case 3: return x & 3;                         // four values
		case 4: return x & 0x7f;                      // differs only in the partial hash bits
		case 5: return mix64(x) & ~u64(0x7f);         // differs only outside of the partial hash bits
		case 6: return x << 12;                       // strided
		case 7: return ~u64(0) - x;                   // from the top
		case 8: return (mix64(x) << 48) | (x & 1);    // differs in the top bits
		default: return mix64(x) % 61;                // few values
	}
}
struct HState { int mode = 0, uid = 0; };
struct HashBase : HState
{
	HashBase() = default;
	HashBase(int m, int u) { mode = m, uid = u; }
	std::size_t run(long id) const
	{
		++W.hash_calls;
		if (W.allow_n >= 0)
		{
			bool ok = false;
			for (int i = 0; i < W.allow_n; ++i) ok |= W.allow[i] == uid;
			REQ("functor", ok, "hash functor %d used, expected %d", uid, W.allow[0]);
		}
		W.tick(F_HASH);
		return hash_by_mode(mode, id);
	}
};
struct EqBase
{
	int uid = 0;
	EqBase() = default;
	explicit EqBase(int u) : uid(u) {}
	bool run(long a, long b) const
	{
		++W.eq_calls;
		if (W.eallow_n >= 0)
		{
			bool ok = false;
			for (int i = 0; i < W.eallow_n; ++i) ok |= W.eallow[i] == uid;
			REQ("functor", ok, "equality functor %d used, expected %d", uid, W.eallow[0]);
		}
		W.tick(F_EQ);
		return a == b;
	}
};
struct Hash : HashBase
{
	using HashBase::HashBase;
	std::size_t operator()(const Key &k) const { k.use("hashing"); return run(k.id); }
};
struct Eq : EqBase
{
	using EqBase::EqBase;
	bool operator()(const Key &a, const Key &b) const { a.use("comparison"); b.use("comparison"); return run(a.id, b.id); }
};
struct HashT : HashBase
{
	using is_transparent = std::true_type;
	using HashBase::HashBase;
	std::size_t operator()(const Key &k) const { k.use("hashing"); return run(k.id); }
	std::size_t operator()(const Look &k) const { return run(k.id); }
	std::size_t operator()(const Look2 &k) const { return run(k.id); }
};
struct EqT : EqBase
{
	using is_transparent = std::true_type;
	using EqBase::EqBase;
	static long id_of(const Key &k) { k.use("comparison"); return k.id; }
	static long id_of(const Look &k) { return k.id; }
	static long id_of(const Look2 &k) { return k.id; }
	template<typename A, typename B>
	bool operator()(const A &a, const B &b) const { return run(id_of(a), id_of(b)); }
};
// A distinct functor type, for merging containers of different functors.
struct Hash2 : Hash { using Hash::Hash; };
struct Eq2 : Eq { using Eq::Eq; };

// ---------------------------------------------------------------- allocators
enum { A_POCCA = 1, A_POCMA = 2, A_POCS = 4, A_EQUAL = 8, A_SELECT = 16, A_CREATES = 32 };
constexpr int SELECTED = 1000; // added to the id by select_on_container_copy_construction
template<typename T, int P>
struct TA
{
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<(P & A_POCCA) != 0>;
	using propagate_on_container_move_assignment = std::bool_constant<(P & A_POCMA) != 0>;
	using propagate_on_container_swap = std::bool_constant<(P & A_POCS) != 0>;
	using is_always_equal = std::bool_constant<(P & A_EQUAL) != 0>;
	template<typename U>
	struct rebind { using other = TA<U, P>; };

	int id = 0;
	TA() = default;
	explicit TA(int i) : id(i) {}
	TA(const TA &) = default;
	TA &operator=(const TA &) = default;
	template<typename U>
	TA(const TA<U, P> &o) noexcept : id(o.id) {}

	T *allocate(std::size_t n)
	{
		W.tick(F_ALLOC);
		REQ("alloc", n != 0, "allocation of %zu objects of size %zu", n, sizeof(T));
		if (n >= (std::size_t(1) << 34) / sizeof(T))
		{
			REQ("alloc", W.impossible, "allocation of %zu objects of size %zu", n, sizeof(T));
			throw std::bad_alloc();
		}
		void *p = alignof(T) > alignof(std::max_align_t) ? ::operator new(n * sizeof(T), std::align_val_t(alignof(T))) : ::operator new(n * sizeof(T));
		std::memset(p, W.fill, n * sizeof(T));
		W.fill = static_cast<unsigned char>(W.fill * 5 + 17);
		++W.allocs;
		W.blocks[p] = {n, sizeof(T), id};
		return static_cast<T *>(p);
	}
	void deallocate(T *p, std::size_t n) noexcept
	{
		auto it = W.blocks.find(p);
		REQ("alloc", p != nullptr, "null pointer returned to the allocator");
		REQ("alloc", it != W.blocks.end(), "block that is not allocated returned to the allocator");
		REQ("alloc", it->second.n == n && it->second.size == sizeof(T), "block of %zu objects of size %zu returned as %zu objects of size %zu", it->second.n, it->second.size, n, sizeof(T));
		REQ("alloc", (P & A_EQUAL) || it->second.id == id, "block of allocator %d returned to allocator %d", it->second.id, id);
		W.blocks.erase(it);
		++W.deallocs;
		if (alignof(T) > alignof(std::max_align_t)) ::operator delete(static_cast<void *>(p), std::align_val_t(alignof(T)));
		else ::operator delete(static_cast<void *>(p));
	}
	// Allocators that create and destroy the objects themselves.
	template<typename U, typename... Args, int Q = P, typename = std::enable_if_t<(Q & A_CREATES) != 0>>
	void construct(U *p, Args &&...args)
	{
		::new(static_cast<void *>(p)) U(std::forward<Args>(args)...);
		REQ("alloc", W.built.insert({p, {1, sizeof(U), id}}).second, "object is created by the allocator on top of another one");
	}
	template<typename U, int Q = P, typename = std::enable_if_t<(Q & A_CREATES) != 0>>
	void destroy(U *p)
	{
		auto it = W.built.find(p);
		REQ("alloc", it != W.built.end() && it->second.size == sizeof(U), "object that the allocator did not create is destroyed by it");
		REQ("alloc", (P & A_EQUAL) || it->second.id == id, "object of allocator %d is destroyed by allocator %d", it->second.id, id);
		W.built.erase(it);
		p->~U();
	}
	TA select_on_container_copy_construction() const { return TA((P & A_SELECT) ? id + SELECTED : id); }
	template<typename U>
	bool operator==(const TA<U, P> &o) const noexcept { return (P & A_EQUAL) || id == o.id; }
	template<typename U>
	bool operator!=(const TA<U, P> &o) const noexcept { return !(*this == o); }
};

// ---------------------------------------------------------------- statistics
// (only header code of the standard library: these are used under MemorySanitizer too, without an instrumented library)
struct IdSet
{
	mutable std::vector<u64> v;
	void insert(u64 x) { v.push_back(x); }
	std::size_t size() const { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v.size(); }
};
struct Stats
{
	long cases = 0, ops = 0, checks = 0, elements = 0;
	IdSet digests; // distinct non-trivial cases
	std::vector<std::pair<const char *, long>> feat;
	std::vector<std::string> samples;
};
inline Stats S;
inline void feature(const char *f, long n = 1)
{
	for (auto &x: S.feat) if (x.first == f || !std::strcmp(x.first, f)) { x.second += n; return; }
	S.feat.emplace_back(f, n);
}
inline void print_escaped(FILE *f, const char *s)
{
	for (; *s; ++s) { if (*s == '"' || *s == '\\') std::fputc('\\', f); std::fputc(*s, f); }
}
inline void write_stats()
{
	if (!g_outfile) return;
	FILE *f = std::fopen(g_outfile, "w");
	if (!f) { std::perror("outfile"); std::_Exit(3); }
	std::fprintf(f, "{\"kind\":\"%.60s\",\"profile\":\"%s\",\"cases\":%ld,\"ops\":%ld,\"checks\":%ld,\"elements\":%ld,\"distinct\":%zu,", g_kind, g_profile, S.cases, S.ops, S.checks, S.elements, S.digests.size());
	std::fprintf(f, "\"hash_calls\":%ld,\"eq_calls\":%ld,\"allocs\":%ld,\"constructed\":%ld,\"moves\":%ld,\"faults\":%ld,\"feat\":{", W.hash_calls, W.eq_calls, W.allocs, W.ctor, W.moves, W.faults);
	bool first = true;
	for (auto &[k, v]: S.feat) { std::fprintf(f, "%s\"", first ? "" : ","), print_escaped(f, k), std::fprintf(f, "\":%ld", v); first = false; }
	std::fprintf(f, "},\"samples\":[");
	first = true;
	for (auto &s: S.samples) { std::fprintf(f, "%s\"", first ? "" : ","), print_escaped(f, s.c_str()), std::fputc('"', f); first = false; }
	std::fprintf(f, "]}\n");
	std::fclose(f);
}
// A single-pass view of a vector: all copies of an iterator share their position.
template<typename T>
struct InputIt
{
	using value_type = T;
	using reference = const T &;
	using pointer = const T *;
	using difference_type = std::ptrdiff_t;
	using iterator_category = std::input_iterator_tag;
	const std::vector<T> *v;
	std::size_t *pos;
	bool is_end;
	reference operator*() const { return (*v)[*pos]; }
	pointer operator->() const { return &(*v)[*pos]; }
	InputIt &operator++() { ++*pos; return *this; }
	InputIt operator++(int) { auto t = *this; ++*pos; return t; }
	bool done() const { return is_end || *pos >= v->size(); }
	friend bool operator==(const InputIt &a, const InputIt &b) { return a.done() == b.done(); }
	friend bool operator!=(const InputIt &a, const InputIt &b) { return !(a == b); }
};

// Requests that no memory could satisfy have to fail with an exception (and then leave everything as it is).
template<typename C, typename R>
void impossible_request(C &c, R &r)
{
	static const std::size_t sizes[] = {1ull << 40, 1ull << 56, 1ull << 58, 1ull << 59, (1ull << 60) - 1, 1ull << 60, 1ull << 61, (1ull << 62) - 1, 1ull << 62, (1ull << 63) - 1, 1ull << 63, 0xf000000000000000ull, 0xfffffffffffff000ull, ~0ull};
	std::size_t n = sizes[r.below(14)];
	switch (r.below(3))
	{
		case 0: n -= r.below(64); break;
		case 1: if (n < ~0ull - 64) n += r.below(64); break;
		default:;
	}
	const auto kind = r.below(3);
	bool thrown = false;
	W.impossible = true;
	try
	{
		if (kind == 0) c.reserve(n);
		else if (kind == 1) c.rehash(n);
		else
		{
			C other(n, c.hash_function(), c.key_eq(), c.get_allocator());
			(void) other;
		}
	}
	catch (const std::exception &) { thrown = true; }
	W.impossible = false;
	REQ("capacity", thrown, "%s(%zu) succeeds", kind == 0 ? "reserve" : kind == 1 ? "rehash" : "constructor", n);
	feature("impossible.request");
}
