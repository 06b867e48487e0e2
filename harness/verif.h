// What harnesses get from the executor (or, when replayed, from replay.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
extern std::uint32_t verif_cpuid_table[3][6];           // answers of cpuid: leaf, subleaf, eax, ebx, ecx, edx
extern std::uint32_t verif_backends;                    // hashing functions that ran: 1 sse, 2 avx, 4 avx2, 8 sha
void verif_bytes(void* p, std::size_t n);               // unknown bytes
std::uint64_t verif_u64();                              // an unknown number
std::uint64_t verif_choose(std::uint64_t n);            // an unknown number below n, one path for each
void verif_assume(bool c);
void verif_assert(bool c, const char* msg);
void verif_assert_bytes(const void* a, const void* b, std::size_t n, const char* msg);
bool verif_bytes_eq(const void* a, const void* b, std::size_t n);
void verif_hash(void* out32, const void* in64);         // SHA-256 of 64 bytes
void verif_cover(const char* name);                     // marks that something was reached
std::uint64_t verif_param(const char* name);
bool verif_defined(const void* p, std::size_t n);       // no byte of it is uninitialised
std::uint64_t verif_isqrt_input(std::uint64_t* root);   // any number, with its integer square root
}
