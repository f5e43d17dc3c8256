// Force-included in every translation unit (library and harness).
// All pseudo-random engines of <random> are replaced by one whose every draw
// is delegated to the explorer, so that random draws become enumerated choices.
#pragma once
#include <random>
#include <cstdint>
#include <limits>
extern "C" uint64_t verif_rng_draw();
namespace std {
	struct verif_engine {
		using result_type = uint64_t;
		verif_engine() = default;
		template <typename... A>
		explicit verif_engine(A&&...) { }
		static constexpr result_type min() { return 0; }
		static constexpr result_type max() { return std::numeric_limits<uint64_t>::max(); }
		result_type operator()() { return verif_rng_draw(); }
		template <typename... A>
		void seed(A&&...) { }
		void discard(unsigned long long n)
		{
			while (n--)
				verif_rng_draw();
		}
	};
	struct verif_random_device {
		using result_type = unsigned int;
		verif_random_device() = default;
		template <typename A>
		explicit verif_random_device(const A&) { }
		static constexpr result_type min() { return 0; }
		static constexpr result_type max() { return std::numeric_limits<unsigned int>::max(); }
		result_type operator()() { return 12345u; }
		double entropy() const noexcept { return 0.0; }
	};
}
#define mt19937_64 verif_engine
#define mt19937 verif_engine
#define minstd_rand verif_engine
#define minstd_rand0 verif_engine
#define default_random_engine verif_engine
#define random_device verif_random_device
