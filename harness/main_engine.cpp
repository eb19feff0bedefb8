// Entry point of the single-key driver.
//   KIND         0..11, the container
//   ALLOC_PROPS  propagation of the allocator
//   TRANSPARENT  transparent functors
#include "engine.hpp"

#ifndef ALLOC_PROPS
#define ALLOC_PROPS 0
#endif
#ifndef TRANSPARENT
#define TRANSPARENT 0
#endif

#if TRANSPARENT
using H = HashT;
using E = EqT;
#else
using H = Hash;
using E = Eq;
#endif
template<typename T>
using A = TA<T, ALLOC_PROPS>;
using PV = std::pair<Key, Val>;
using CPV = std::pair<const Key, Val>;

#if KIND == 0
using C = tpp::sparse_set<Key, H, E, A<Key>>;
using C2 = void;
#define KIND_NAME "sparse_set"
#elif KIND == 1
using C = tpp::sparse_map<Key, Val, H, E, A<PV>>;
using C2 = void;
#define KIND_NAME "sparse_map"
#elif KIND == 2
using C = tpp::ordered_sparse_set<Key, H, E, A<Key>>;
using C2 = void;
#define KIND_NAME "ordered_sparse_set"
#elif KIND == 3
using C = tpp::ordered_sparse_map<Key, Val, H, E, A<PV>>;
using C2 = void;
#define KIND_NAME "ordered_sparse_map"
#elif KIND == 4
using C = tpp::stable_set<Key, H, E, A<Key>>;
using C2 = tpp::stable_set<Key, Hash2, Eq2, A<Key>>;
#define KIND_NAME "stable_set"
#elif KIND == 5
using C = tpp::stable_map<Key, Val, H, E, A<CPV>>;
using C2 = tpp::stable_map<Key, Val, Hash2, Eq2, A<CPV>>;
#define KIND_NAME "stable_map"
#elif KIND == 6
using C = tpp::ordered_stable_set<Key, H, E, A<Key>>;
using C2 = tpp::ordered_stable_set<Key, Hash2, Eq2, A<Key>>;
#define KIND_NAME "ordered_stable_set"
#elif KIND == 7
using C = tpp::ordered_stable_map<Key, Val, H, E, A<CPV>>;
using C2 = tpp::ordered_stable_map<Key, Val, Hash2, Eq2, A<CPV>>;
#define KIND_NAME "ordered_stable_map"
#elif KIND == 8
using C = tpp::dense_set<Key, H, E, A<Key>>;
using C2 = void;
#define KIND_NAME "dense_set"
#elif KIND == 9
using C = tpp::dense_map<Key, Val, H, E, A<PV>>;
using C2 = void;
#define KIND_NAME "dense_map"
#elif KIND == 10
using C = tpp::ordered_dense_set<Key, H, E, A<Key>>;
using C2 = void;
#define KIND_NAME "ordered_dense_set"
#else
using C = tpp::ordered_dense_map<Key, Val, H, E, A<PV>>;
using C2 = void;
#define KIND_NAME "ordered_dense_map"
#endif

static Profile make_profile(const char *name)
{
	Profile p{};
	p.name = name;
	const std::string n = name;
	auto &w = p.w;
	const auto set = [&](int x, std::initializer_list<int> ops) { for (int o: ops) w[o] = x; };
	const auto inserts = {O_INSERT, O_INSERT_RV, O_INSERT_HINT, O_EMPLACE, O_EMPLACE_HINT, O_TRY, O_TRY_HINT, O_IOA, O_IOA_HINT, O_EOR, O_EOR_HINT, O_INDEX};
	const auto erases = {O_ERASE_KEY, O_ERASE_IT, O_ERASE_RANGE, O_ERASE_IF, O_ERASE_LOOP};
	const auto nodes = {O_EXTRACT, O_NODE_INSERT, O_NODE_HINT, O_NODE_ASSIGN, O_NODE_OPS, O_MERGE, O_MERGE2};
	const auto whole = {O_COPY_CTOR, O_MOVE_CTOR, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SELF_ASSIGN, O_SWAP};
	const auto shape = {O_FILL, O_DRAIN, O_CHURN, O_RESERVE, O_REHASH, O_CLEAR, O_MLF};
	const auto bulk = {O_RANGE_INSERT, O_ASSIGN_IL, O_INSERT_IL, O_REBUILD};
	const auto for_all = [&](int x, std::initializer_list<std::initializer_list<int>> groups) { for (auto &g: groups) for (int o: g) w[o] = x; };
	using IL = std::initializer_list<int>;
	const IL ins = {O_INSERT, O_INSERT_RV, O_INSERT_HINT, O_EMPLACE, O_EMPLACE_HINT, O_TRY, O_TRY_HINT, O_IOA, O_IOA_HINT, O_EOR, O_EOR_HINT, O_INDEX};
	(void) inserts, (void) erases, (void) nodes, (void) whole, (void) shape, (void) bulk, (void) for_all;
	// Everything a little.
	for (int &x: w) x = 2;
	set(4, ins);
	w[O_AT] = w[O_FIND] = 2;
	w[O_CLEAR] = w[O_DESTROY] = w[O_REBUILD] = 1;
	w[O_HETERO] = TRANSPARENT ? 8 : 0;
	w[O_EQUAL_BUILD] = 1;
	if (n == "semantics") // P01
	{
		set(9, ins);
		set(5, {O_AT, O_FIND, O_ERASE_KEY});
		set(4, {O_FILL, O_DRAIN, O_CHURN});
	}
	else if (n == "iteration") // P02
	{
		set(12, {O_ERASE_KEY, O_ERASE_IT, O_ERASE_RANGE, O_ERASE_IF, O_ERASE_LOOP});
		set(5, {O_FILL, O_CHURN, O_RANGE_INSERT});
		set(1, {O_EQUAL, O_EQUAL_BUILD, O_NOINVALIDATE, O_SELF_ARG});
	}
	else if (n == "order") // P03
	{
		set(8, {O_INSERT_HINT, O_EMPLACE_HINT, O_TRY_HINT, O_IOA_HINT, O_EOR_HINT, O_NODE_HINT});
		set(6, {O_ERASE_KEY, O_ERASE_IT, O_ERASE_RANGE, O_ERASE_IF});
		set(6, {O_MERGE, O_MERGE2, O_EXTRACT, O_NODE_INSERT, O_NODE_ASSIGN});
		set(4, {O_COPY_CTOR, O_MOVE_CTOR, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SELF_ASSIGN, O_SWAP});
	}
	else if (n == "transfer") // P05
	{
		set(14, {O_COPY_CTOR, O_MOVE_CTOR, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SELF_ASSIGN, O_SWAP});
		set(5, {O_REBUILD, O_CLEAR, O_DRAIN, O_RESERVE, O_REHASH, O_FILL, O_CHURN, O_ASSIGN_IL, O_MLF});
	}
	else if (n == "lifetime") // P06
	{
		set(6, {O_INSERT_RV, O_TRY, O_TRY_HINT, O_IOA, O_EOR, O_ERASE_IT, O_ERASE_RANGE, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_NODE_ASSIGN, O_NODE_OPS, O_DESTROY, O_CLEAR});
	}
	else if (n == "memory") // P07
	{
		set(10, {O_COPY_CTOR, O_MOVE_CTOR, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SWAP, O_DESTROY, O_REBUILD});
		set(5, {O_RESERVE, O_REHASH, O_FILL, O_EXTRACT, O_NODE_INSERT, O_NODE_OPS, O_MERGE, O_CLEAR});
	}
	else if (n == "stability") // P08
	{
		set(14, {O_NOINVALIDATE});
		set(8, {O_RESERVE, O_FILL, O_CHURN, O_MUTATE});
		set(5, {O_EXTRACT, O_NODE_INSERT, O_NODE_HINT, O_NODE_ASSIGN, O_MERGE, O_SWAP, O_MOVE_CTOR, O_MOVE_ASSIGN});
	}
	else if (n == "nodes") // P09
	{
		set(14, {O_EXTRACT, O_NODE_INSERT, O_NODE_HINT, O_NODE_ASSIGN, O_NODE_OPS, O_MERGE, O_MERGE2});
	}
	else if (n == "fault") // P10
	{
		p.fault = true;
		set(6, {O_RANGE_INSERT, O_COPY_CTOR, O_COPY_ASSIGN, O_RESERVE, O_REHASH, O_ASSIGN_IL, O_INSERT_IL, O_ERASE_KEY, O_REBUILD, O_FILL});
		set(3, {O_NODE_INSERT, O_NODE_HINT, O_EXTRACT, O_MERGE});
		w[O_SELF_ARG] = w[O_EQUAL_BUILD] = w[O_NOINVALIDATE] = 0;
	}
	else if (n == "capacity") // P11
	{
		set(14, {O_RESERVE, O_REHASH, O_MLF, O_FILL, O_CHURN, O_DRAIN});
	}
	else if (n == "equality") // P15
	{
		set(20, {O_EQUAL, O_EQUAL_BUILD});
		set(8, {O_COPY_CTOR, O_COPY_ASSIGN, O_MUTATE, O_REHASH});
	}
	else if (n == "functors") // P16
	{
		w[O_HETERO] = TRANSPARENT ? 50 : 0;
		set(6, {O_COPY_CTOR, O_MOVE_CTOR, O_COPY_ASSIGN, O_MOVE_ASSIGN, O_SWAP, O_MERGE, O_MERGE2, O_EXTRACT});
	}
	else if (n == "bulk") // P18
	{
		set(16, {O_RANGE_INSERT, O_ASSIGN_IL, O_INSERT_IL, O_REBUILD});
		set(5, {O_FILL, O_CLEAR, O_DRAIN, O_REHASH});
	}
	else if (n == "selfarg") // P14
	{
		set(20, {O_SELF_ARG});
		set(6, {O_FILL, O_CHURN, O_REHASH});
	}
	else if (n == "portable") // P12
	{
		p.portable = true;
		set(0, {O_EXTRACT, O_MERGE2});
		w[O_EXTRACT] = 2;
	}
	else if (n != "mixed")
	{
		std::fprintf(stderr, "unknown profile %s\n", name);
		std::exit(3);
	}
	return p;
}

int main(int argc, char **argv)
{
	if (argc < 5)
	{
		std::fprintf(stderr, "usage: %s PROFILE SEED FIRST COUNT [OUT]\n", argv[0]);
		return 3;
	}
	setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
	g_kind = KIND_NAME;
	g_profile = argv[1];
	g_seed = std::strtoull(argv[2], nullptr, 10);
	const long first = std::atol(argv[3]), count = std::atol(argv[4]);
	g_outfile = argc > 5 ? argv[5] : nullptr;
	install_death_callback();
	const Profile prof = make_profile(argv[1]);
	for (long i = first; i < first + count; ++i)
	{
		begin_case(i);
		const u64 s = mix64(g_seed * 1000003 + mix64(u64(i) * 16 + KIND));
		{
			Driver<C, C2> d(s, prof);
			d.run();
			if (prof.portable) std::printf("DIGEST %ld %016llx\n", i, (unsigned long long) d.digest);
		}
	}
	write_stats();
	std::fflush(stdout);
	return 0;
}
