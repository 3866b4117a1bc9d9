#pragma once
#include <complex>
#include <vector>
namespace dj { enum class fft_dir { DIR_FWD = +1, DIR_BWD = -1 };
template <typename T> std::vector<std::complex<T>> fft1d(const std::vector<std::complex<T>> &, const fft_dir &); }
