// Compiled (not linked) for aarch64 with the real arm_neon.h when a program with emulated NEON instructions cannot be built.
#include <tpp/dense_map.hpp>
#include <tpp/dense_set.hpp>
#include <tpp/sparse_map.hpp>
#include <tpp/sparse_set.hpp>
#include <tpp/stable_map.hpp>
#include <tpp/stable_set.hpp>

template class tpp::sparse_set<int>;
template class tpp::ordered_sparse_set<int>;
template class tpp::stable_set<int>;
template class tpp::ordered_stable_set<int>;
template class tpp::dense_set<int>;
int main()
{
	tpp::sparse_map<int, int> m;
	for (int i = 0; i < 50; ++i) m.emplace(i, i);
	m.reserve(1000);
	m.erase(2);
	return m.contains(1) && m == m;
}
