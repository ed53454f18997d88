// Native side of the contract language: replays given inputs, or searches (random, boundary biased; or libFuzzer).
#define NVC_NATIVE
#include "nvc.hpp"
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
struct C { const char *p, *n; void (*f)(); };
static std::vector<C> &tab() { static std::vector<C> t; return t; }
NvcReg::NvcReg(const char *p, const char *n, void (*f)()) { tab().push_back({p, n, f}); }
enum Mode { REPLAY, RANDOM, FUZZ };
static Mode mode;
static std::map<std::string, std::string> given;      // replay: name -> text
static std::vector<std::pair<std::string, std::string>> drawn;
static uint64_t rs = 88172645463325252ull;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 3 ^ rs; }
static const uint8_t *fd_; static size_t fn_;
static std::string failed;
static const char *cur = "?";
static char logbuf[1 << 16];
static std::string esc(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) { snprintf(b, 8, "%02x", c); r += b; } return r; }
static std::string uniq(const char *n) { int k = 0; std::string b(n); for (auto &d : drawn) { size_t h = d.first.find('#'); if (d.first.substr(0, h) == b) k++; } return k ? b + "#" + std::to_string(k + 1) : b; }
static void note(const char *n, const std::string &v) { drawn.push_back({uniq(n), v}); }
static uint64_t fz(int k) { uint64_t v = 0; for (int i = 0; i < k && fn_; i++) { v |= (uint64_t)*fd_++ << (8 * i); fn_--; } return v; }
static std::vector<uint64_t> pool;
static uint64_t bnd(int w) {
    static const int64_t sp[] = {0, 1, -1, 2, -2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 36, 37, 47, 48, 57, 58, 63, 64, 65, 90, 91, 97, 99, 100, 102, 122, 123, 126, 127, 128, 129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
        2147483647, -2147483647 - 1, 2147483646, 2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 9223372036854775807ll, (-9223372036854775807ll - 1), 9223372036854775806ll, 46340, 46341, -46341, 3037000499ll, 3037000500ll};
    uint64_t v;
    switch (rnd() % 8) {
    case 0: case 1: v = sp[rnd() % (sizeof(sp) / 8)]; break;
    case 2: v = 1ull << (rnd() % w); if (rnd() & 1) v = ~v; break;
    case 3: v = rnd() % 20 - 4; break;
    case 4: v = (1ull << (rnd() % w)) + (rnd() % 5) - 2; break;
    case 5: if (!pool.empty()) { v = pool[rnd() % pool.size()] + rnd() % 3 - 1; break; } v = rnd() % 200; break;
    case 6: v = rnd() >> (rnd() % 64); break;
    default: v = rnd();
    }
    return v;
}
static long num(const char *n, int w) {
    uint64_t v;
    if (mode == REPLAY) { auto it = given.find(uniq(n)); v = it == given.end() ? 0 : strtoull(it->second.c_str(), 0, 0); if (it != given.end() && it->second[0] == '-') v = (uint64_t)strtoll(it->second.c_str(), 0, 0); }
    else if (mode == RANDOM) v = bnd(w);
    else v = fz(w / 8 ? w / 8 : 1);
    long r = w == 64 ? (long)v : (long)(v << (64 - w)) >> (64 - w);
    if (mode == RANDOM && pool.size() < 32) pool.push_back(r);
    note(n, std::to_string(r));
    return r;
}
extern "C" {
bool nvc_bool(const char *n) { return num(n, 8) & 1; }
signed char nvc_schar(const char *n) { return num(n, 8); }
char nvc_char(const char *n) { return num(n, 8); }
unsigned char nvc_byte(const char *n) { return num(n, 8); }
short nvc_short(const char *n) { return num(n, 16); }
int nvc_int(const char *n) { return num(n, 32); }
long nvc_long(const char *n) { return num(n, 64); }
static uint64_t fbits(const char *n, int w) {
    uint64_t v = num(n, w);
    return v;
}
float nvc_float(const char *n) { uint32_t v;
    if (mode == RANDOM && rnd() % 2) { float f = rnd() % 3 ? (float)(int64_t)bnd(64) : (float)((int64_t)(rnd() % 2000) - 1000) / 8; memcpy(&v, &f, 4); note(n, std::to_string((int)v)); return f; }
    v = fbits(n, 32); float f; memcpy(&f, &v, 4); return f; }
double nvc_double(const char *n) { uint64_t v;
    if (mode == RANDOM && rnd() % 2) { double f = rnd() % 3 ? (double)(int64_t)bnd(64) : (double)((int64_t)(rnd() % 2000) - 1000) / 8; memcpy(&v, &f, 8); note(n, std::to_string((long)v)); return f; }
    v = fbits(n, 64); double f; memcpy(&f, &v, 8); return f; }
static std::vector<std::string> spool;
static std::string str(const char *n, bool nz) {
    std::string s;
    if (mode == REPLAY) {
        auto it = given.find(uniq(n));
        if (it != given.end()) for (size_t i = 0; i + 1 < it->second.size(); i += 2) s += (char)strtol(it->second.substr(i, 2).c_str(), 0, 16);
    } else if (mode == RANDOM) {
        if (!spool.empty() && rnd() % 3 == 0) {
            s = spool[rnd() % spool.size()];
            switch (rnd() % 6) {
            case 0: if (!s.empty()) s = s.substr(rnd() % s.size()); break;
            case 1: if (!s.empty()) s = s.substr(0, rnd() % s.size()); break;
            case 2: if (!s.empty()) s[rnd() % s.size()] ^= 1 << rnd() % 8; break;
            case 3: s += (char)rnd(); break;
            case 4: if (!s.empty()) { size_t p = rnd() % s.size(); s = s.substr(p, 1 + rnd() % 3); } break;
            }
        } else {
            static const char *alph[] = {"ab", "aA", "abcxyzABCXYZ", "0123456789", "0123456789abcdefABCDEF-+xX#", " \t\na", "a b", "%+&=/?.,;:-_*~ a9Z", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_\r\n", "aaab", "\x00\x01\x7f\x80\xff", "-0123", "tTrRuUeE"};
            int k = rnd() % 15;
            size_t len = rnd() % 4 == 0 ? rnd() % 90 : rnd() % 9;
            for (size_t i = 0; i < len; i++) { if (k >= 13) s += (char)rnd(); else if (k == 10) s += "\x00\x01\x7f\x80\xff"[rnd() % 5]; else s += alph[k][rnd() % strlen(alph[k])]; }
            if (rnd() % 12 == 0) { static const char *w[] = {"-2147483648", "2147483647", "2147483648", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "4294967295", "32767", "-32769", "-0x10", "0X7f", "#ff", "010", "-0", "+5", "true", "TRUE", "%41", "%4", "%zz"}; s = w[rnd() % 20]; }
        }
    } else { size_t len = fz(1) % 80; for (size_t i = 0; i < len && fn_; i++) s += (char)fz(1); }
    if (nz) { std::string t; for (char c : s) if (c) t += c; s = t; }
    if (mode == RANDOM) { spool.push_back(s); if (spool.size() > 8) spool.erase(spool.begin()); }
    note(n, esc(s));
    return s;
}
void nvc_string(std::string *o, const char *n) { *o = str(n, false); }
void nvc_text(std::string *o, const char *n) { *o = str(n, true); }
static std::vector<long> vec(const char *n, int w) {
    std::vector<long> r; std::string t;
    if (mode == REPLAY) { auto it = given.find(uniq(n)); if (it != given.end()) { std::stringstream ss(it->second); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) r.push_back(strtoll(x.c_str(), 0, 0)); } }
    else if (mode == RANDOM) { size_t len = rnd() % 4 == 0 ? rnd() % 70 : rnd() % 8; int small = rnd() % 2; for (size_t i = 0; i < len; i++) { uint64_t v = small ? rnd() % 6 : bnd(w); r.push_back(w == 64 ? (long)v : (long)(v << (64 - w)) >> (64 - w)); } }
    else { size_t len = fz(1) % 64; for (size_t i = 0; i < len && fn_; i++) { uint64_t v = fz(w / 8); r.push_back(w == 64 ? (long)v : (long)(v << (64 - w)) >> (64 - w)); } }
    for (long v : r) t += std::to_string(v) + ",";
    note(n, t);
    return r;
}
void nvc_ints(std::vector<int> *o, const char *n) { auto r = vec(n, 32); o->assign(r.begin(), r.end()); }
void nvc_longs(std::vector<long> *o, const char *n) { auto r = vec(n, 64); o->assign(r.begin(), r.end()); }
void nvc_bytes(std::vector<unsigned char> *o, const char *n) { auto r = vec(n, 8); o->assign(r.begin(), r.end()); }
void nvc_chars(std::vector<char> *o, const char *n) { auto r = vec(n, 8); o->assign(r.begin(), r.end()); }
void nvc_assume(bool c) { if (!c) throw NvcReject(); }
static void report(const char *what, int sig) {
    std::string s = std::string("FAIL ") + what + "\n";
    for (auto &d : drawn) s += "IN " + d.first + " " + d.second + "\n";
    s += "END\n";
    (void)!write(1, s.data(), s.size());
}
void nvc_ensure(const char *n, bool c) { if (!c && failed.empty()) { failed = n; report(n, 0); if (mode == FUZZ) abort(); _exit(7); } }
long nvc_pick(long lo, long) { return lo; }
long nvc_cases(long v, long, long) { return v; }
bool nvc_eqrange(const char *a, const char *b, long n) { return n <= 0 || memcmp(a, b, n) == 0; }
static std::string demo;
static const char *knownsel;
void nvc_known(const char *id, bool c) { if (knownsel && !strcmp(knownsel, id)) { if (!c) throw NvcReject(); return; } if (c) throw NvcReject(); }
void nvc_reach(const char *) {}
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
}
static void on_death() { if (failed.empty()) { failed = "x"; report("memory error (AddressSanitizer)", 0); } }
static void on_sig(int s) { char b[64]; snprintf(b, 64, "signal %d (%s)", s, s == SIGFPE ? "arithmetic trap" : s == SIGALRM ? "no answer within the time limit" : s == SIGABRT ? "abort/terminate" : "crash"); if (failed.empty()) { failed = b; report(b, s); } _exit(8); }
static void once(void (*f)()) {
    drawn.clear(); pool.clear(); spool.clear();
    alarm(10);
    try { f(); } catch (NvcReject &) { }
    catch (...) { if (failed.empty()) { failed = "uncaught exception"; report("uncaught exception", 0); if (mode == FUZZ) abort(); _exit(7); } }
    alarm(0);
}
static void prep() {
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    else { signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGILL, on_sig); }
    signal(SIGFPE, on_sig); signal(SIGALRM, on_sig); signal(SIGABRT, on_sig);
}
#ifdef NVC_FUZZ
static void (*target)();
extern "C" int LLVMFuzzerInitialize(int *argc, char ***argv) { mode = FUZZ; const char *t = getenv("NVC_TARGET"); for (auto &c : tab()) if (!strcmp(c.n, t)) target = c.f; signal(SIGFPE, on_sig); signal(SIGABRT, on_sig); return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) { fd_ = d; fn_ = n; drawn.clear(); try { target(); } catch (NvcReject &) {} catch (...) { report("uncaught exception", 0); abort(); } return 0; }
#else
int main(int argc, char **argv) {
    // exe replay <contract> <file>  |  exe random <contract> <seed> <seconds>  | exe list  | exe known <contract> <id> <seed> <secs>
    prep();
    std::string cmd = argc > 1 ? argv[1] : "list";
    if (cmd == "list") { for (auto &c : tab()) printf("%s %s\n", c.p, c.n); return 0; }
    void (*f)() = 0;
    for (auto &c : tab()) if (!strcmp(c.n, argv[2])) f = c.f;
    if (!f) { printf("NOCONTRACT\n"); return 3; }
    if (cmd == "replay") {
        mode = REPLAY;
        FILE *fp = fopen(argv[3], "r"); static char line[1 << 20];
        while (fp && fgets(line, sizeof line, fp)) { char nm[256]; int off = 0; if (sscanf(line, "IN %255s %n", nm, &off) >= 1 && off) { std::string v(line + off); while (!v.empty() && (v.back() == '\n')) v.pop_back(); given[nm] = v; } }
        if (argc > 4) knownsel = argv[4];
        once(f);
        printf("PASS\n");
        return 0;
    }
    mode = RANDOM;
    uint64_t seed = strtoull(argv[3], 0, 0); double secs = atof(argv[4]);
    if (argc > 5) knownsel = argv[5];
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    unsigned long n = 0;
    for (;; n++) {
        rs = (seed + n) * 0x9E3779B97F4A7C15ull + 0x1234567; rnd(); rnd();
        once(f);
        if (n % 64 == 0) { clock_gettime(CLOCK_MONOTONIC, &t); if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; }
    }
    printf("NONE %lu\n", n);
    return 0;
}
#endif
