/* Stand-in for the sparsepp submodule (not available offline): the subset of
 * its API that disco-dop uses, on top of the standard library. */
#ifndef VERIF_SPP_SHIM
#define VERIF_SPP_SHIM
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
namespace spp {
template <class T> struct spp_hash {
	size_t operator()(const T &k) const { return std::hash<T>()(k); }
};
template <class T> inline void hash_combine(std::size_t &seed, T const &v) {
	seed ^= spp_hash<T>()(v) + 0x9e3779b97f4a7c15ULL + (seed << 6)
			+ (seed >> 2);
}
template <class K, class V, class H = spp_hash<K>,
		class E = std::equal_to<K> >
class sparse_hash_map : public std::unordered_map<K, V, H, E> {
	typedef std::unordered_map<K, V, H, E> base;
public:
	sparse_hash_map() : base() {}
	sparse_hash_map(size_t n) : base(n) {}
	void resize(size_t n) { this->reserve(n); }
};
template <class K, class H = spp_hash<K>, class E = std::equal_to<K> >
class sparse_hash_set : public std::unordered_set<K, H, E> {
	typedef std::unordered_set<K, H, E> base;
public:
	sparse_hash_set() : base() {}
	sparse_hash_set(size_t n) : base(n) {}
	void resize(size_t n) { this->reserve(n); }
};
}
#endif
