// Native counterpart of the harness intrinsics: replays a counterexample on the real code.
//   prog <harness> <file>     file: lines "name kind hexvalue" in program order
//   prog <harness> --fuzz SEED N   random inputs (used to look for a failing input when the prover has none)
#include "vf.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <random>
#include <vector>
#include <csetjmp>
#include <unistd.h>

namespace {
struct In { std::string name, kind; std::vector<unsigned char> data; };
std::vector<In> ins;
std::size_t pos;
bool fuzz;
std::mt19937_64 rng;
std::vector<In> rec;
std::vector<void*> blocks;
unsigned max_len = 24;
std::jmp_buf jb;
const char* fail_label;

const In* next(const char* kind)
{
    while (pos < ins.size()) {
        const In& i = ins[pos++];
        if (i.kind == kind) return &i;
        std::fprintf(stderr, "replay: input order mismatch (%s vs %s)\n", i.kind.c_str(), kind);
    }
    return nullptr;
}
unsigned long small_random()
{
    switch (rng() % 6) {
    case 0: return rng() % 4;
    case 1: return rng() % 200;
    case 2: return ~0ul - rng() % 4;
    case 3: return 1ul << (rng() % 64);
    case 4: return (1ul << (rng() % 64)) - 1;
    default: return rng();
    }
}
const char* charset()
{
    static const char* sets[] = { "09afAFxXbo_", "azAZ09_ \t\n", "/*/ \n\r\t*", "\"\\'<>&;a", "()[]{}<>=!&|^~+-*/%,.:;@\\",
                                  "let const while if else function return true false Bool Int Uint Void", "0123456789", "\\{}[]=, \n/*ab" };
    return sets[rng() % (sizeof(sets) / sizeof(*sets))];
}
}

extern "C" {
void vf_any_bytes(void* p, unsigned long n, const char* name) noexcept
{
    unsigned char* b = static_cast<unsigned char*>(p);
    if (fuzz) {
        for (unsigned long i = 0; i < n; i += 8) {
            unsigned long v = (i && rng() % 2) ? ((signed char)b[7] < 0 ? ~0ul : 0) : small_random();
            std::memcpy(b + i, &v, n - i < 8 ? n - i : 8);
        }
        rec.push_back({ name, "val", { b, b + n } });
        return;
    }
    std::memset(b, 0, n);
    if (const In* i = next("val")) std::memcpy(b, i->data.data(), std::min<std::size_t>(n, i->data.size()));
}
unsigned long vf_any_u64(const char* name) noexcept
{
    unsigned long v = 0;
    vf_any_bytes(&v, 8, name);
    return v;
}
unsigned long vf_any_len(const char* name) noexcept
{
    unsigned long v = 0;
    if (fuzz) {
        v = rng() % 3 == 0 ? rng() % 4 : rng() % max_len;
        rec.push_back({ name, "len", { (unsigned char*)&v, (unsigned char*)&v + 8 } });
        return v;
    }
    if (const In* i = next("len")) std::memcpy(&v, i->data.data(), std::min<std::size_t>(8, i->data.size()));
    return v;
}
unsigned vf_choose(const char* name, unsigned n) noexcept
{
    unsigned v = 0;
    if (fuzz) {
        v = rng() % n;
        rec.push_back({ name, "choose", { (unsigned char*)&v, (unsigned char*)&v + 4 } });
        return v;
    }
    if (const In* i = next("choose")) std::memcpy(&v, i->data.data(), std::min<std::size_t>(4, i->data.size()));
    if (v >= n) v = 0;
    return v;
}
const char* vf_any_data(const char* name, unsigned long len) noexcept
{
    char* b = static_cast<char*>(std::malloc(len ? len : 1));
    if (len) std::memset(b, 0, len);
    blocks.push_back(b);
    if (fuzz) {
        const char* cs = charset();
        std::size_t m = std::strlen(cs);
        bool many = rng() % 3 == 0;
        for (unsigned long i = 0; i < len; ++i) {
            if (many && rng() % 4 == 0) { cs = charset(); m = std::strlen(cs); }
            b[i] = rng() % 16 == 0 ? char(rng()) : cs[rng() % m];
        }
        rec.push_back({ name, "data", { (unsigned char*)b, (unsigned char*)b + len } });
        return b;
    }
    if (const In* i = next("data")) std::memcpy(b, i->data.data(), std::min<std::size_t>(len, i->data.size()));
    return b;
}
void* vf_any_array(const char* name, unsigned long elem, unsigned long count) noexcept
{
    unsigned long n = elem * count;
    unsigned char* b = static_cast<unsigned char*>(::operator new(n ? n : 1));
    std::memset(b, 0, n);
    if (fuzz) {
        for (unsigned long i = 0; i + 8 <= n; i += 8) {
            unsigned long v = small_random();
            std::memcpy(b + i, &v, 8);
        }
        rec.push_back({ name, "vec", { b, b + n } });
        return b;
    }
    if (const In* i = next("vec")) std::memcpy(b, i->data.data(), std::min<std::size_t>(n, i->data.size()));
    return b;
}
void vf_assume(bool c) noexcept
{
    if (!c) {
        if (fuzz) std::longjmp(jb, 1);
        std::printf("ASSUMPTION-NOT-MET\n");
        std::fflush(stdout);
        _exit(3);
    }
}
void vf_check(bool c, const char* label) noexcept
{
    if (!c) {
        if (fuzz) { fail_label = label; std::longjmp(jb, 2); }
        std::printf("CHECK-FAILED %s\n", label);
        std::fflush(stdout);
        _exit(1);
    }
}
void vf_cover(const char*) noexcept { }
void vf_hint(bool (*)(const char*, unsigned long), const char*) noexcept { }
void vf_hint_down(bool (*)(const char*, unsigned long, unsigned long), const char*, unsigned long) noexcept { }
void vf_hint_rel(bool (*)(const char*, unsigned long, unsigned long, unsigned long), const char*, unsigned long) noexcept { }
bool vf_within(const void* p, const void* base, unsigned long n) noexcept
{
    return n && p >= base && p <= static_cast<const char*>(base) + n;
}
void vf_hint_off(bool (*)(const char*, unsigned long), const char*, long) noexcept { }
unsigned long vf_concretize(unsigned long v) noexcept { return v; }
bool vf_is_symbolic() noexcept { return false; }
void vf_debug(const char*, unsigned long) noexcept { }
}

static void dump(FILE* f)
{
    for (const In& i : rec) {
        std::fprintf(f, "%s %s ", i.name.c_str(), i.kind.c_str());
        for (unsigned char c : i.data) std::fprintf(f, "%02x", c);
        std::fprintf(f, "\n");
    }
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    std::string h = std::string("vfh_") + argv[1];
    auto f = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, h.c_str()));
    if (!f) { std::fprintf(stderr, "no harness %s\n", h.c_str()); return 2; }
    if (std::string(argv[2]) == "--fuzz") {
        fuzz = true;
        const unsigned long seed = std::strtoul(argv[3], nullptr, 10);
        const unsigned long n = std::strtoul(argv[4], nullptr, 10);
        const char* out = argv[5];
        // the record of the current attempt is written on abnormal ends as well (see driver: one process per seed)
        for (unsigned long k = 0; k < n; ++k) {
            rng.seed(seed * 1000003 + k);
            rec.clear();
            for (void* b : blocks) std::free(b);
            blocks.clear();
            int r = setjmp(jb);
            bool bad = false;
            if (r == 0) {
                try { f(); }
                catch (const std::exception& e) { bad = true; fail_label = "exception"; }
                catch (...) { bad = true; fail_label = "exception"; }
            }
            else if (r == 2) bad = true;
            if (bad) {
                if (FILE* o = std::fopen(out, "w")) { dump(o); std::fclose(o); }
                std::printf("FUZZ-FAILED %s\n", fail_label);
                return 1;
            }
        }
        return 0;
    }
    FILE* in = std::fopen(argv[2], "r");
    if (!in) return 2;
    static char line[1 << 20];
    while (std::fgets(line, sizeof line, in)) {
        if (line[0] == '#') continue;
        char name[256], kind[32];
        int off = 0;
        if (std::sscanf(line, "%255s %31s %n", name, kind, &off) < 2) continue;
        In i { name, kind, {} };
        for (char* p = line + off; p[0] && p[1] && p[0] != '\n'; p += 2) {
            char t[3] = { p[0], p[1], 0 };
            i.data.push_back((unsigned char)std::strtoul(t, nullptr, 16));
        }
        ins.push_back(std::move(i));
    }
    std::fclose(in);
    try {
        f();
    } catch (const std::exception& e) {
        std::printf("EXCEPTION %s\n", e.what());
        return 1;
    } catch (...) {
        std::printf("EXCEPTION\n");
        return 1;
    }
    std::printf("HELD\n");
    return 0;
}
