// Runs one call of a kernel natively: guard pages around the buffers and the frame, sentinels in the preserved
// registers, a snapshot of static memory. usage: replay ENTRY N RSPMOD MODE PLACE INPUTFILE
//   MODE  plain | step (a signal at every instruction) | wrap (counts of 2^32 and more, one block repeated)
//   PLACE end | start: the side of the buffers next to inaccessible memory; odd: buffers at odd addresses
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

typedef void (*fn3)(unsigned char*, const unsigned char*, size_t);
extern void sha256_1_avx(unsigned char*, const unsigned char*);
extern void sha256_4_avx(unsigned char*, const unsigned char*, size_t);
extern void sha256_8_avx2(unsigned char*, const unsigned char*, size_t);
extern void sha256_shani(unsigned char*, const unsigned char*, size_t);
extern void verif_api_sse(unsigned char*, const unsigned char*, size_t);
extern void verif_api_avx(unsigned char*, const unsigned char*, size_t);
extern void verif_api_avx2(unsigned char*, const unsigned char*, size_t);
extern void verif_api_shani(unsigned char*, const unsigned char*, size_t);
struct { const char* name; void* f; } fns[] = {{"sha256_1_avx", sha256_1_avx}, {"sha256_4_avx", sha256_4_avx},
    {"sha256_8_avx2", sha256_8_avx2}, {"sha256_shani", sha256_shani}, {"verif_api_sse", verif_api_sse},
    {"verif_api_avx", verif_api_avx}, {"verif_api_avx2", verif_api_avx2}, {"verif_api_shani", verif_api_shani}};

uint64_t after[7], saved_rsp, g_fn, g_rsp, g_tf;
void call_it(void* out, const void* in, uint64_t n);
__asm__(".text\n.globl call_it\ncall_it:\n"
        "push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\n"
        "mov %rsp, saved_rsp\n"
        "movabs $0x1111111111111111, %rbx\nmovabs $0x2222222222222222, %rbp\nmovabs $0x3333333333333333, %r12\n"
        "movabs $0x4444444444444444, %r13\nmovabs $0x5555555555555555, %r14\nmovabs $0x6666666666666666, %r15\n"
        "mov g_rsp, %rsp\nmov g_fn, %rax\n"
        "mov g_tf, %rcx\nadd $-8, %rsp\nmov %rcx, (%rsp)\npopfq\n"
        "call *%rax\n"
        "mov %rsp, after+48\nmov saved_rsp, %rsp\npushq $0x202\npopfq\n"
        "mov %rbx, after\nmov %rbp, after+8\nmov %r12, after+16\nmov %r13, after+24\nmov %r14, after+32\nmov %r15, after+40\n"
        "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nvzeroupper\nret\n");

static void say(const char* s) { (void)!write(1, s, strlen(s)); }
static void onfault(int s, siginfo_t* i, void* u) {
    (void)i; (void)u;
    say(s == SIGALRM ? "STATUS timeout\n" : "STATUS fault\n");
    _exit(0);
}
static void ontrap(int s) { (void)s; }

extern char __data_start, _end;
static unsigned char* place(size_t n, int end, int odd, unsigned char** base, size_t* len) {
    size_t pages = (n + 4096) / 4096 + 1, g = 256;
    unsigned char* m = mmap(0, (pages + 2 * g) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    unsigned char* p = m + g * 4096;
    mprotect(p, pages * 4096, PROT_READ | PROT_WRITE);
    memset(p, 0xA5, pages * 4096);
    *base = p;
    *len = pages * 4096;
    return odd ? p + 1 : end ? p + pages * 4096 - n : p;
}

static void* repeat(size_t n, int prot) {  // n bytes of address space, every GiB the same memory
    size_t chunk = 1ul << 30;
    n = (n + chunk - 1) / chunk * chunk;
    unsigned char* m = mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int fd = memfd_create("x", 0);
    if (m == MAP_FAILED || fd < 0 || ftruncate(fd, chunk)) return 0;
    for (size_t o = 0; o < n; o += chunk)
        if (mmap(m + o, chunk, prot, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) return 0;
    return m;
}

int main(int argc, char** argv) {
    if (argc < 7) return 2;
    for (size_t k = 0; k < sizeof fns / sizeof *fns; k++)
        if (!strcmp(fns[k].name, argv[1])) g_fn = (uint64_t)fns[k].f;
    if (!g_fn) return 2;
    uint64_t n = strtoull(argv[2], 0, 0), mod = strtoull(argv[3], 0, 0);
    int step = !strcmp(argv[4], "step"), wrap = !strcmp(argv[4], "wrap"), end = !strcmp(argv[5], "end"), odd = !strcmp(argv[5], "odd");
    unsigned char *ib, *ob, *in, *out, *sb, *st;
    size_t il, ol, sl;
    if (wrap) {
        in = repeat(64 * n, PROT_READ);
        out = repeat(32 * n, PROT_READ | PROT_WRITE);
        if (!in || !out) { say("STATUS cannot\n"); return 0; }
        ib = ob = 0;
        il = ol = 0;
    } else {
        in = place(64 * n, end, odd, &ib, &il);
        out = place(32 * n, end, odd, &ob, &ol);
        int fd = open(argv[6], O_RDONLY);
        size_t got = 0;
        while (got < 64 * n) {
            ssize_t r = read(fd, in + got, 64 * n - got);
            if (r <= 0) return 2;
            got += r;
        }
        mprotect(ib, il, PROT_READ);
    }
    // the frame: return address in the last 8 bytes below the caller's stack
    st = place(1 << 16, 1, 0, &sb, &sl);
    memset(sb, 0x5C, sl);
    uint64_t top = (uint64_t)sb + sl, gap = 0;
    if (!end || step) gap = 256;                     // canary above the frame, or none: then the page ends there
    uint64_t rsp = top - gap;
    while ((rsp - 8) % 64 != mod % 64) rsp -= 8;      // rsp at entry is rsp - 8
    uint64_t slack = top - rsp;
    g_rsp = rsp;
    static unsigned char alt[1 << 16];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, 0);
    struct sigaction sa = {0};
    sa.sa_sigaction = onfault;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGSYS};
    for (int k = 0; k < 6; k++) sigaction(sigs[k], &sa, 0);
    if (!step) sigaction(SIGTRAP, &sa, 0);
    else {
        struct sigaction t = {0};
        t.sa_handler = ontrap;
        sigaction(SIGTRAP, &t, 0);
    }
    g_tf = step ? 0x302 : 0x202;
    alarm(wrap ? 4 : 20);
    size_t dl = &_end - &__data_start;
    unsigned char* snap = mmap(0, dl, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (size_t k = 0; k < dl; k++) snap[k] = (&__data_start)[k];
    call_it(out, in, n);
    int shared = 0;
    for (size_t k = 0; k < dl; k++)
        if (snap[k] != (unsigned char)(&__data_start)[k]) {
            char* a = &__data_start + k;
            if ((a >= (char*)after && a < (char*)(after + 7)) || (a >= (char*)&saved_rsp && a < (char*)(&saved_rsp + 1))) continue;
            if (a >= (char*)alt && a < (char*)alt + sizeof alt) continue;
            shared++;
        }
    alarm(0);
    if (wrap) {  // the call came back: every output must have been written
        unsigned char* last = out + 32 * (n - 1);
        int any = 0;
        for (int k = 0; k < 32; k++) any |= last[k];
        printf("STATUS returned last_block_written=%d\n", any != 0);
        return 0;
    }
    printf("STATUS ok\n");
    uint64_t want[6] = {0x1111111111111111, 0x2222222222222222, 0x3333333333333333, 0x4444444444444444, 0x5555555555555555, 0x6666666666666666};
    const char* nm[6] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
    for (int k = 0; k < 6; k++)
        if (after[k] != want[k]) printf("CLOBBERED %s\n", nm[k]);
    if (after[6] != g_rsp) printf("CLOBBERED rsp\n");
    if (shared) printf("STATIC %d bytes changed\n", shared);
    for (uint64_t k = 0; k < slack; k++)
        if (((unsigned char*)rsp)[k] != 0x5C) { printf("STACK caller's stack changed\n"); break; }
    for (size_t k = 0; k < ol; k++)
        if ((ob + k < out || ob + k >= out + 32 * n) && ob[k] != 0xA5) { printf("STRAY output buffer neighbour changed\n"); break; }
    for (uint64_t k = 0; k < n; k++) {
        printf("D ");
        for (int q = 0; q < 32; q++) printf("%02x", out[32 * k + q]);
        printf("\n");
    }
    return 0;
}
