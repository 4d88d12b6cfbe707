// Native runtime: runs one harness on recorded inputs.
//   prog <harness symbol> <input file> <log file>
// exit: 0 finished, 10 a check failed, 11 an assumption failed,
//       12 undefined behaviour flagged by the translated program
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <unistd.h>
#include <vector>

static std::vector<std::uint64_t> in;
static std::size_t pos;
static FILE *lg;

static std::uint64_t pop() { return pos < in.size() ? in[pos++] : (++pos, 0); }
static void done(int code) {
    std::fprintf(lg, "exit %d\n", code);
    std::fflush(lg);
    _exit(code);
}

extern "C" {
std::uint8_t vp_u8() { return (std::uint8_t)pop(); }
std::uint16_t vp_u16() { return (std::uint16_t)pop(); }
std::uint32_t vp_u32() { return (std::uint32_t)pop(); }
std::uint64_t vp_u64() { return pop(); }
bool vp_bool() { return (pop() & 1) != 0; }
void vp_assume(bool c) {
    std::fprintf(lg, "assume %d\n", (int)c);
    if (!c) {
        done(11);
    }
}
void vp_check(bool c, char const *s) {
    std::fprintf(lg, "check %d CHECK %s\n", (int)c, s);
    if (!c) {
        done(10);
    }
}
void vp_cover(bool c, char const *s) {
    std::fprintf(lg, "cover %d COVER %s\n", (int)c, s);
}
void vp_observe(std::uint64_t v) { std::fprintf(lg, "observe %" PRIu64 "\n", v); }
// used by the translated C program
void vp_rt_check(int c, char const *s) {
    std::fprintf(lg, "check %d %s\n", c != 0, s);
    if (!c) {
        done(10);
    }
}
void vp_rt_assume(int c) { vp_assume(c != 0); }
void vp_rt_ub(int c, char const *s) {
    if (!c) {
        std::fprintf(lg, "ub %s\n", s);
        done(12);
    }
}
void vp_rt_observe(std::uint64_t v) { vp_observe(v); }
void vp_rt_cover(int c, char const *s) {
    std::fprintf(lg, "cover %d %s\n", c != 0, s);
}
void vp_rt_stop() { done(12); }
}

int main(int argc, char **argv) {
    if (argc < 4) {
        return 2;
    }
    if (FILE *f = std::fopen(argv[2], "r")) {
        char buf[64];
        while (std::fscanf(f, "%63s", buf) == 1) {
            in.push_back(std::strtoull(buf, nullptr, 0));
        }
        std::fclose(f);
    }
    lg = std::fopen(argv[3], "w");
    auto *h = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
    if (h == nullptr) {
        std::fprintf(stderr, "no harness %s\n", argv[1]);
        return 2;
    }
    h();
    done(0);
}
