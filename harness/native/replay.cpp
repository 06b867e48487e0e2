// Runs an entry natively on given inputs. usage: replay ENTRY HEX [name=value ...]
// exit 0: ran to its end; 81: an assertion failed; 82: an assumption does not hold; 83: out of input;
// 84: uncaught exception; 86: the address sanitizer; 88: valgrind
#include <dlfcn.h>
#include <valgrind/memcheck.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <vector>

#include "../verif.h"

static std::vector<unsigned char> in;
static std::size_t pos = 0;
static std::map<std::string, std::uint64_t> params;
static bool started = false;

[[noreturn]] static void leave(int code, const char* what, const char* msg = "") {
    std::printf("REPLAY %s%s\n", what, msg);
    std::fflush(stdout);
    _Exit(code);
}
static unsigned char next() { return pos < in.size() ? in[pos++] : (++pos, 0); }

extern "C" {
std::uint32_t verif_cpuid_table[3][6] = {{0, ~0u, 7, 0, 0, 0}, {1, ~0u, 0, 0, 0x18180201u, 0}, {7, 0, 0, 0x20u, 0, 0}};
std::uint32_t verif_backends = 0;
void verif_bytes(void* p, std::size_t n) {
    for (std::size_t k = 0; k < n; ++k) ((unsigned char*)p)[k] = next();
}
std::uint64_t verif_u64() {
    std::uint64_t x = 0;
    for (int k = 0; k < 8; ++k) x |= (std::uint64_t)next() << (8 * k);
    return x;
}
std::uint64_t verif_choose(std::uint64_t n) {
    if (n <= 1) return 0;
    std::uint64_t x = 0;
    for (int k = 0; k < 4; ++k) x |= (std::uint64_t)next() << (8 * k);
    if (x >= n) leave(82, "assumption");
    return x;
}
void verif_assume(bool c) {
    if (!c) leave(82, "assumption");
}
void verif_assert(bool c, const char* msg) {
    VALGRIND_CHECK_VALUE_IS_DEFINED(c);
    if (!c) leave(81, "ASSERTION ", msg);
}
void verif_assert_bytes(const void* a, const void* b, std::size_t n, const char* msg) {
    if (!n) return;
    if (VALGRIND_CHECK_MEM_IS_DEFINED(a, n) || VALGRIND_CHECK_MEM_IS_DEFINED(b, n)) leave(88, "UNINITIALISED ", msg);
    if (std::memcmp(a, b, n)) leave(81, "ASSERTION ", msg);
}
bool verif_bytes_eq(const void* a, const void* b, std::size_t n) { return !n || !std::memcmp(a, b, n); }
void verif_cover(const char*) {}
std::uint64_t verif_param(const char* name) {
    auto it = params.find(name);
    return it == params.end() ? 0 : it->second;
}
bool verif_defined(const void* p, std::size_t n) {
    return !n || !VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
}
std::uint64_t verif_isqrt_input(std::uint64_t* root) {
    bool narrow = verif_param("width") == 32;
    std::uint64_t k = 0, d = 0;
    for (int j = 0; j < (narrow ? 2 : 4); ++j) k |= (std::uint64_t)next() << (8 * j);
    for (int j = 0; j < (narrow ? 3 : 5); ++j) d |= (std::uint64_t)next() << (8 * j);
    if (d > 2 * k) leave(82, "assumption");
    *root = k;
    return k * k + d;
}

// SHA-256 of 64 bytes
static std::uint32_t rot(std::uint32_t x, int k) { return x >> k | x << (32 - k); }
static void compress(std::uint32_t* h, const unsigned char* p) {
    static const std::uint32_t K[64] = {
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74,
        0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d,
        0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e,
        0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5,
        0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
    std::uint32_t w[64], s[8];
    for (int k = 0; k < 16; ++k) w[k] = (std::uint32_t)p[4 * k] << 24 | p[4 * k + 1] << 16 | p[4 * k + 2] << 8 | p[4 * k + 3];
    for (int k = 16; k < 64; ++k)
        w[k] = w[k - 16] + w[k - 7] + (rot(w[k - 15], 7) ^ rot(w[k - 15], 18) ^ w[k - 15] >> 3) + (rot(w[k - 2], 17) ^ rot(w[k - 2], 19) ^ w[k - 2] >> 10);
    std::memcpy(s, h, 32);
    for (int k = 0; k < 64; ++k) {
        std::uint32_t t1 = s[7] + (rot(s[4], 6) ^ rot(s[4], 11) ^ rot(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K[k] + w[k];
        std::uint32_t t2 = (rot(s[0], 2) ^ rot(s[0], 13) ^ rot(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
        for (int j = 7; j > 0; --j) s[j] = s[j - 1];
        s[4] += t1;
        s[0] = t1 + t2;
    }
    for (int k = 0; k < 8; ++k) h[k] += s[k];
}
void verif_hash(void* out, const void* data) {
    std::uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    unsigned char pad[64] = {0x80};
    pad[62] = 2;
    compress(h, (const unsigned char*)data);
    compress(h, pad);
    for (int k = 0; k < 32; ++k) ((unsigned char*)out)[k] = (unsigned char)(h[k / 4] >> (24 - 8 * (k % 4)));
}
// the hashing kernels: what they compute is the subject of C01, here it matters which one runs and on what
static void blocks(unsigned bit, unsigned char* out, const unsigned char* data, std::size_t n) {
    verif_backends |= bit;
    for (std::size_t k = 0; k < n; ++k) {
        // a copy: the address sanitizer sees the accesses
        unsigned char b[64], d[32];
        for (int j = 0; j < 64; ++j) b[j] = data[64 * k + j];
        verif_hash(d, b);
        for (int j = 0; j < 32; ++j) out[32 * k + j] = d[j];
    }
}
void sha256_1_avx(unsigned char* o, const unsigned char* i) { blocks(1, o, i, 1); }
void sha256_4_avx(unsigned char* o, const unsigned char* i, std::size_t n) { blocks(2, o, i, n); }
void sha256_8_avx2(unsigned char* o, const unsigned char* i, std::size_t n) { blocks(4, o, i, n); }
void sha256_shani(unsigned char* o, const unsigned char* i, std::size_t n) { blocks(8, o, i, n); }

void verif_cpuid_raw(unsigned leaf, unsigned sub, unsigned* r) {
    r[0] = r[1] = r[2] = r[3] = 0;
    for (auto& row : verif_cpuid_table)
        if (row[0] == leaf && (row[1] == sub || row[1] == 0xffffffffu)) std::memcpy(r, row + 2, 16);
}
unsigned verif_cpuid_max(unsigned ext) { return ext ? 0 : verif_cpuid_table[0][2]; }
int verif_get_cpuid(unsigned leaf, unsigned sub, unsigned* a, unsigned* b, unsigned* c, unsigned* d) {
    if (verif_cpuid_max(leaf & 0x80000000u) == 0 || verif_cpuid_max(leaf & 0x80000000u) < leaf) return 0;
    unsigned r[4];
    verif_cpuid_raw(leaf, sub, r);
    *a = r[0], *b = r[1], *c = r[2], *d = r[3];
    return 1;
}
const char* __asan_default_options() { return "exitcode=86:detect_leaks=0:max_allocation_size_mb=256:abort_on_error=0"; }
}

static void fill_stack() {
    // what the stack held before is not zero
    volatile unsigned char b[65536];
    for (auto& x : b) x = 0xa5;
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::string h = argv[2];
    if (h == "-") h.clear();
    if (!h.empty() && h[0] == '@') {
        std::string r;
        FILE* f = std::fopen(h.c_str() + 1, "r");
        if (!f) return 2;
        for (int c; (c = std::fgetc(f)) > ' ';) r.push_back((char)c);
        std::fclose(f);
        h = r;
    }
    for (std::size_t k = 0; k + 1 < h.size(); k += 2) in.push_back((unsigned char)std::stoi(h.substr(k, 2), nullptr, 16));
    for (int k = 3; k < argc; ++k) {
        std::string p = argv[k];
        auto e = p.find('=');
        params[p.substr(0, e)] = std::stoull(p.substr(e + 1));
    }
    auto f = (void (*)())dlsym(nullptr, argv[1]);
    if (!f) return 2;
    std::set_terminate([] { leave(84, "EXCEPTION uncaught"); });
    if (!RUNNING_ON_VALGRIND) fill_stack();
    f();
    leave(0, "ok");
}
