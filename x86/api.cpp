// calls of the kernels through the class the rest of the repository uses
#include <cstddef>
#include "ssz/hasher.hpp"

extern "C" {
void verif_api_sse(unsigned char* out, const unsigned char* in, std::size_t n) {
    ssz::Hasher(ssz::Hasher::IMPL::SSE).hash_64b_blocks(out, in, n);
}
void verif_api_avx(unsigned char* out, const unsigned char* in, std::size_t n) {
    ssz::Hasher(ssz::Hasher::IMPL::AVX).hash_64b_blocks(out, in, n);
}
void verif_api_avx2(unsigned char* out, const unsigned char* in, std::size_t n) {
    ssz::Hasher(ssz::Hasher::IMPL::AVX2).hash_64b_blocks(out, in, n);
}
void verif_api_shani(unsigned char* out, const unsigned char* in, std::size_t n) {
    ssz::Hasher(ssz::Hasher::IMPL::SHA).hash_64b_blocks(out, in, n);
}
}
