// C17: File against a byte-exact oracle; libc's stdio calls are wrapped to count handles, to inject failures and to catch use after close.
// Real files live in a scratch directory of this run, removed at the end.
#include "rt.hpp"
#include <cstdlib>
#include <cerrno>
#include <string>
#include <vector>
#include <memory>
#include <unistd.h>
#include <sys/wait.h>
#include "efp/io.hpp"
using namespace rt;
using namespace efp;
static std::vector<FILE*>& open_now() { static std::vector<FILE*>* v = new std::vector<FILE*>; return *v; }
static long opened, closed_, io;
static long fail_write = -1, put;      // the fail_write-th byte is refused
static bool fail_close, fail_flush, fail_seek, fail_open;
static bool known(FILE* f) { if (f == stdout || f == stderr) return true; for (FILE* x : open_now()) if (x == f) return true; return false; }
static void used(FILE* f, const char* what) { io++; if (!known(f)) { log("%s on a closed or foreign stream", what); fail("use after close"); } }
extern "C" {
FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*); int __real_fputc(int, FILE*); int __real_fgetc(FILE*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*); int __real_fflush(FILE*); int __real_fseek(FILE*, long, int); long __real_ftell(FILE*);
char* __real_fgets(char*, int, FILE*); size_t __real_fread(void*, size_t, size_t, FILE*); int __real_getc(FILE*); int __real_putc(int, FILE*); int __real_fputs(const char*, FILE*); int __real_ungetc(int, FILE*);
FILE* __wrap_fopen(const char* p, const char* m) { NoCount n; if (fail_open) return nullptr; FILE* f = __real_fopen(p, m); if (f) { opened++; open_now().push_back(f); } return f; }
int __wrap_fclose(FILE* f) {
    NoCount n; auto& v = open_now(); bool hit = false;
    for (size_t i = 0; i < v.size(); i++) if (v[i] == f) { v.erase(v.begin() + i); hit = true; break; }
    if (!hit) fail("fclose of a stream that is not open");
    closed_++; int r = __real_fclose(f); return fail_close ? EOF : r;
}
static bool refuse() { return fail_write >= 0 && put++ >= fail_write; }
int __wrap_fputc(int c, FILE* f) { NoCount n; used(f, "fputc"); return refuse() ? EOF : __real_fputc(c, f); }
int __wrap_putc(int c, FILE* f) { NoCount n; used(f, "putc"); return refuse() ? EOF : __real_fputc(c, f); }
int __wrap_fputs(const char* s, FILE* f) { NoCount n; used(f, "fputs"); for (; *s; s++) { if (refuse()) return EOF; __real_fputc((unsigned char)*s, f); } return 1; }
size_t __wrap_fwrite(const void* p, size_t s, size_t k, FILE* f) {
    NoCount n; used(f, "fwrite"); if (fail_write < 0) return __real_fwrite(p, s, k, f);
    for (size_t i = 0; i < k; i++) for (size_t j = 0; j < s; j++) { if (refuse()) return i; __real_fputc(((const unsigned char*)p)[i * s + j], f); }
    return k;
}
int __wrap_fgetc(FILE* f) { NoCount n; used(f, "fgetc"); return __real_fgetc(f); }
int __wrap_getc(FILE* f) { NoCount n; used(f, "getc"); return __real_fgetc(f); }
int __wrap_ungetc(int c, FILE* f) { NoCount n; used(f, "ungetc"); return __real_ungetc(c, f); }
char* __wrap_fgets(char* b, int k, FILE* f) { NoCount n; used(f, "fgets"); return __real_fgets(b, k, f); }
size_t __wrap_fread(void* b, size_t s, size_t k, FILE* f) { NoCount n; used(f, "fread"); return __real_fread(b, s, k, f); }
int __wrap_fflush(FILE* f) { NoCount n; if (f == stdout) return __real_fflush(f); used(f, "fflush"); int r = __real_fflush(f); return fail_flush ? EOF : r; }
int __wrap_fseek(FILE* f, long o, int w) { NoCount n; used(f, "fseek"); if (fail_seek) { errno = EINVAL; return -1; } return __real_fseek(f, o, w); }
long __wrap_ftell(FILE* f) { NoCount n; used(f, "ftell"); return __real_ftell(f); }
}
static std::string dir;
static std::string path(const char* n) { return dir + "/" + n; }
static std::string slurp(const std::string& p) { NoCount n; std::string r; FILE* f = __real_fopen(p.c_str(), "rb"); if (!f) return "<none>"; int c; while ((c = __real_fgetc(f)) != EOF) r.push_back((char)c); __real_fclose(f); return r; }
static void spill(const std::string& p, const std::string& s) { NoCount n; FILE* f = __real_fopen(p.c_str(), "wb"); if (!f) _exit(3); for (char c : s) __real_fputc((unsigned char)c, f); __real_fclose(f); }
static String str(const std::string& s) { String r; for (char c : s) r.push_back(c); return r; }
static bool same(const String& a, const std::string& s) { if (a.size() != s.size()) return false; for (size_t i = 0; i < s.size(); i++) if (a[i] != s[i]) return false; return true; }
static std::vector<std::string> lines_of(const std::string& s) { std::vector<std::string> r; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); r.push_back(s.substr(i, e - i)); i = e + 1; } return r; }
static std::string text(Rng& g, size_t max) {
    size_t n = g.next() % (max + 1); std::string s; int kind = (int)(g.next() % 5);
    for (size_t i = 0; i < n; i++) { unsigned r = (unsigned)(g.next() % 256); s.push_back((char)(kind == 0 ? r : kind == 1 ? "\n\r\0\xff" "a"[r % 5] : kind == 2 ? (r < 20 ? '\n' : 'a' + r % 26) : kind == 3 ? 'x' : "\t \\%s\"0\x1a"[r % 9])); }
    return s;
}
static void show(const std::string& s) { log("%zu bytes:", s.size()); for (size_t i = 0; i < s.size() && i < 24; i++) log(" %02x", (unsigned char)s[i]); log(" "); }
struct Case { long o, c; Case() { begin(); alarm(60); o = opened; c = closed_; fail_write = -1; put = 0; fail_close = fail_flush = fail_seek = fail_open = false; } void end() { if (!open_now().empty()) fail("a handle is not closed"); CHECK(opened - o == closed_ - c); } };
// ------------------------------------------------------------------ reading
static void reading(const std::string& s, const char* mode) {
    Case k; log("read mode=%s ", mode); show(s); std::string p = path("r"); spill(p, s); auto ls = lines_of(s);
    {
        auto m = File::open(p.c_str(), mode); CHECK(bool(m)); File f = m.move();
        for (size_t i = 0; i < ls.size(); i++) { auto l = f.read_line(); log("line %zu ", i); CHECK(bool(l)); CHECK(same(l.value(), ls[i])); }
        CHECK(!f.read_line()); CHECK(!f.read_line()); CHECK(f.read_lines().size() == 0);
        CHECK(f.seek(0)); CHECK(f.tell() == 0);
        auto v = f.read_lines(); CHECK(v.size() == ls.size()); for (size_t i = 0; i < ls.size(); i++) { log("lines[%zu] ", i); CHECK(same(v[i], ls[i])); }
        if (ls.size() > 1) { CHECK(f.seek((long)ls[0].size() + 1)); auto w = f.read_lines(); CHECK(w.size() == ls.size() - 1); for (size_t i = 0; i < w.size(); i++) CHECK(same(w[i], ls[i + 1])); }
        if (ls.size()) { CHECK(f.seek(0)); auto l = f.read_line(); CHECK(bool(l)); size_t e = ls[0].size(); CHECK(f.tell() == (long)(e < s.size() ? e + 1 : e)); auto w = f.read_lines(); CHECK(w.size() == ls.size() - 1); }
    }
    k.end(); CHECK(slurp(p) == s);
}
// ------------------------------------------------------------------ writing
static void writing(Rng& g, const std::vector<std::string>& parts, const char* mode, long fault) {
    Case k; log("write mode=%s fault=%ld parts=%zu ", mode, fault, parts.size()); std::string p = path("w"), want; bool app = mode[0] == 'a';
    if (app) { want = text(g, 5); spill(p, want); } else spill(p, "old contents");
    {
        auto m = File::open(str(p), mode); CHECK(bool(m)); File f = m.move(); if (g.next() % 2) { File t(efp::move(f)); f = efp::move(t); }
        fail_write = fault; long left = fault;
        for (auto& s : parts) {
            bool r, z = s.find('\0') == std::string::npos; int how = (int)(g.next() % 3); show(s);
            if (how == 0 || (how == 1 && !z)) { std::unique_ptr<char[]> b(new char[s.size() + 1]); for (size_t i = 0; i < s.size(); i++) b[i] = s[i]; log("buffer "); r = f.write(b.get(), s.size()); }
            else if (how == 1) { log("z "); r = f.write(s.c_str()); }
            else { log("string "); String t = str(s); r = f.write(t); CHECK(same(t, s)); }
            if (fault < 0) { CHECK(r); want += s; } else { if ((long)s.size() <= left) { CHECK(r); want += s; left -= (long)s.size(); } else { CHECK(!r); want += s.substr(0, (size_t)left); break; } }
        }
        fail_write = -1; int h = (int)(g.next() % 3);
        if (h == 0) { fail_flush = g.next() % 2; CHECK((f.flush() == 0) == !fail_flush); }
        if (h == 1) { fail_close = g.next() % 2; CHECK(f.close() == !fail_close); fail_close = false; long before = io; CHECK(!f.close()); CHECK(!f.write("x")); CHECK(!f.write("x", 1)); CHECK(!f.write(String("x"))); CHECK(!f.read_line()); CHECK(f.read_lines().size() == 0); CHECK(f.flush() == EOF); CHECK(!f.seek(0)); CHECK(f.tell() == -1); CHECK(io == before); }
    }
    k.end(); std::string got = slurp(p); if (got != want) { log("file has "); show(got); log("wanted "); show(want); fail("the file holds exactly the bytes written"); }
}
// ------------------------------------------------------------------ ownership
static void history(Rng& g) {
    Case k; int steps = 1 + (int)(g.next() % 14); std::string name[3] = {path("h0"), path("h1"), path("h2")}; std::string want[3]; for (auto& n : name) spill(n, "");
    {
        std::unique_ptr<File> v[3]; int own[3] = {-1, -1, -1}; bool bin[3] = {false, false, false}, taken[3] = {false, false, false};
        for (int s = 0; s < steps; s++) {
            int a = (int)(g.next() % 3), b = (int)(g.next() % 3), op = (int)(g.next() % 9);
            if (op <= 1 && !taken[b]) {
                const char* md[] = {"w", "wb", "w+", "w+b", "wb+", "a"}; int q = (int)(g.next() % 6); log("v%d=open(h%d,%s) ", a, b, md[q]);
                auto m = File::open(name[b].c_str(), md[q]); CHECK(bool(m));
                if (q != 5) want[b] = ""; bool bn = q == 1 || q == 3 || q == 4;
                if (v[a] && g.next() % 2) { if (own[a] >= 0) taken[own[a]] = false; *v[a] = m.move(); } else { if (own[a] >= 0) taken[own[a]] = false; v[a].reset(new File(m.move())); }
                own[a] = b; bin[a] = bn; taken[b] = true;
            } else if (op == 2 && v[b] && !v[a]) { log("v%d(move v%d) ", a, b); v[a].reset(new File(efp::move(*v[b]))); own[a] = own[b]; own[b] = -1; bin[a] = bin[b]; }
            else if (op == 3 && v[a] && v[b]) { log("v%d=move(v%d) ", a, b); if (a != b && own[a] >= 0) taken[own[a]] = false; *v[a] = efp::move(*v[b]); if (a != b) { own[a] = own[b]; own[b] = -1; } }
            else if (op == 4 && v[a]) { log("close v%d ", a); CHECK(v[a]->close() == (own[a] >= 0)); if (own[a] >= 0) { taken[own[a]] = false; own[a] = -1; } }
            else if (op == 5 && v[a]) { log("destroy v%d ", a); v[a].reset(); if (own[a] >= 0) { taken[own[a]] = false; own[a] = -1; } }
            else if (v[a]) { std::string t = text(g, 6); log("write v%d ", a); show(t); bool r = g.next() % 2 ? v[a]->write(str(t)) : v[a]->write(t.data(), t.size()); CHECK(r == (own[a] >= 0)); if (r) want[own[a]] += t; }
            size_t live = 0; for (int i = 0; i < 3; i++) live += own[i] >= 0;
            if (open_now().size() != live) fail("one open stream per File that owns one");
        }
    }
    k.end(); for (int i = 0; i < 3; i++) { log("h%d ", i); CHECK(slurp(name[i]) == want[i]); }
}
static void misc() {
    { Case k; log("open of a missing file "); CHECK(!File::open(path("missing").c_str(), "r")); CHECK(!File::open(str(path("missing")), "rb")); CHECK(slurp(path("missing")) == "<none>"); k.end(); }
    { Case k; log("failing open "); fail_open = true; CHECK(!File::open(path("x").c_str(), "w")); k.end(); }
    { Case k; log("a Maybe that is never unpacked "); { auto m = File::open(path("x").c_str(), "w"); CHECK(bool(m)); auto n = efp::move(m); CHECK(bool(n)); } k.end(); }
    { Case k; log("seek "); spill(path("s"), "abc"); { auto m = File::open(path("s").c_str(), "r"); CHECK(bool(m)); File f = m.move(); fail_seek = true; CHECK(!f.seek(1)); fail_seek = false; CHECK(f.seek(1)); CHECK(f.tell() == 1); CHECK(!f.seek(-1)); CHECK(f.tell() == 1); } k.end(); }
    for (const char* md : {"r", "rb"}) { Case k; log("write to a stream open for reading "); spill(path("s"), "abc"); { auto m = File::open(path("s").c_str(), md); CHECK(bool(m)); File f = m.move(); CHECK(!f.write("zz")); CHECK(!f.write("zz", 2)); CHECK(!f.write(String("zz"))); } k.end(); CHECK(slurp(path("s")) == "abc"); }
    for (const char* md : {"w", "wb"}) {
        Case k; log("full device "); auto m = File::open("/dev/full", md); if (!m) break;
        { File f = m.move(); f.write("zz"); CHECK(!f.close()); CHECK(!f.close()); }
        { auto q = File::open("/dev/full", md); File f = q.move(); f.write("zz"); CHECK(f.flush() == EOF); }
        { auto q = File::open("/dev/full", md); File f = q.move(); CHECK(!f.write(str(std::string(300000, 'q')))); }
        k.end();
    }
    { Case k; log("read-write "); { auto m = File::open(path("rw").c_str(), "w+"); CHECK(bool(m)); File f = m.move(); CHECK(f.write("ab\ncd", 5)); CHECK(f.tell() == 5); CHECK(f.seek(0)); auto l = f.read_lines(); CHECK(l.size() == 2 && same(l[0], "ab") && same(l[1], "cd")); CHECK(f.seek(1)); CHECK(f.write("X")); CHECK(f.flush() == 0); CHECK(slurp(path("rw")) == "aX\ncd"); } k.end(); }
}
static void body(uint64_t seed, int scale) {
    char tmpl[] = "/tmp/efp-file-XXXXXX"; if (!mkdtemp(tmpl)) _exit(3); dir = tmpl;
    fflush(stdout); pid_t pid = fork(); if (pid < 0) _exit(3);
    if (pid) {      // clean up whatever becomes of the child
        int status = 0; waitpid(pid, &status, 0); for (const char* n : {"r", "w", "h0", "h1", "h2", "s", "rw", "x", "missing"}) unlink(path(n).c_str());
        rmdir(dir.c_str()); _exit(WIFEXITED(status) ? WEXITSTATUS(status) : 1);
    }
    misc();
    Rng g(seed);
    const std::string NL = "\n";
    std::vector<std::string> fixed = {"", "\n", "\n\n", "a", "a\n", "\na", "a\n\nb", "ab\ncd\n", "\xff", "\xff\n\xff", std::string("\0", 1), std::string("\0\n\0", 3), std::string("a\0b\n", 4), "\r\n", "a\r\nb\r\n", "\x1a\n", "%s%n\n"};
    for (size_t n : {1, 2, 7, 8, 15, 16, 31, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 8192, 70000}) for (const char* t : {"", "\n", "\nb", "\n\n"}) fixed.push_back(std::string(n, 'x') + t);
    { std::string s; for (int i = 0; i < 300; i++) s += std::to_string(i) + "\n"; fixed.push_back(s); }
    for (auto& s : fixed) for (const char* m : {"r", "rb", "r+"}) reading(s, m);
    for (int i = 0; i < 300 * scale; i++) reading(text(g, i % 7 ? 40 : 3000), i % 2 ? "r" : "rb");
    for (auto& s : fixed) for (const char* m : {"w", "wb", "a", "ab", "w+", "w+b", "wb+", "a+b"}) writing(g, {s}, m, -1);
    for (int i = 0; i < 500 * scale; i++) { std::vector<std::string> ps; for (int j = (int)(g.next() % 4); j >= 0; j--) ps.push_back(text(g, i % 9 ? 12 : 600)); writing(g, ps, i % 2 ? "w" : "wb", i % 3 ? -1 : (long)(g.next() % 20)); }
    for (int i = 0; i < 1500 * scale; i++) history(g);
}
DRIVER_MAIN(body)
