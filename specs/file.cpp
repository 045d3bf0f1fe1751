// File: the stdio wrapper.
#include <new>
#include <cstddef>
#include "efp/io.hpp"
using namespace efp;
extern "C" {
void ty_str() { String x; }
size_t str_size(const String& v) { return v.size(); }
size_t str_capacity(const String& v) { return v.capacity(); }
const char* str_data(const String& v) { return v.data(); }
void ty_lines() { Vector<String> x; }
size_t lines_size(const Vector<String>& v) { return v.size(); }
void ty_file(File& o) { File x(efp::move(o)); }
void mk_line(Maybe<String>* o, String& s) { new (o) Maybe<String>(efp::move(s)); s.~String(); }
void mk_none(Maybe<String>* o) { new (o) Maybe<String>(nothing); }
bool f_open(File* o, const char* p, const char* m) { auto r = File::open(p, m); if (!r) return false; new (o) File(r.move()); return true; }
bool f_open_s(File* o, const String& p, const char* m) { auto r = File::open(p, m); if (!r) return false; new (o) File(r.move()); return true; }
void f_move(File* o, File& f) { new (o) File(efp::move(f)); }
void f_assign(File& a, File& b) { a = efp::move(b); }
void f_dtor(File& f) { f.~File(); }
bool f_close(File& f) { return f.close(); }
bool f_read_line(File& f, String* o) { auto r = f.read_line(); if (!r) return false; new (o) String(r.move()); return true; }
void f_read_lines(File& f, Vector<String>* o) { new (o) Vector<String>(f.read_lines()); }
bool f_write(File& f, const char* d, size_t n) { return f.write(d, n); }
bool f_write_z(File& f, const char* d) { return f.write(d); }
bool f_write_s(File& f, const String& s) { return f.write(s); }
int f_flush(File& f) { return f.flush(); }
bool f_seek(File& f, long o) { return f.seek(o); }
long f_tell(File& f) { return f.tell(); }
}
