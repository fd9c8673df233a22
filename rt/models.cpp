// Models of the parts of libstdc++/libc that exist only as binaries: written against the same headers,
// so that the code under test (which is compiled from /repo's sources, with every template of the
// standard library instantiated into it) can be executed symbolically without external calls.
// Compiled with -fno-access-control. Part of the trusted base; validated by native replay of samples.
#include "flysym.h"
#include "models.h"
#include <algorithm>
#include <any>
#include <atomic>
#include <cerrno>
#include <charconv>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <arpa/inet.h>
#include <ctime>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <unordered_map>
#include <variant>
#include <vector>

extern "C" {
uint64_t fs_futex_wait(const void *addr, uint32_t val, bool timed, uint64_t deadline_ns);
void fs_futex_wake(const void *addr);
void fs_hb(const void *addr, bool release); // happens-before edge through addr
int fs_strtofp(const char *p, size_t n, size_t width, void *out); // 0, or ERANGE
int fs_fmtld(char *buf, size_t n, char conv, int precision, long double v);
}

// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static const char *dupstr(const char *p) { size_t n = strlen(p); char *q = (char *)::operator new(n + 1); memcpy(q, p, n + 1); return q; }
static const char *dupstrn(const char *p, size_t n) { char *q = (char *)::operator new(n + 1); memcpy(q, p, n); q[n] = 0; return q; }
#define EXC(K)                                                                                                   \
  K::K(const string &s) : exception() { _M_msg._M_p = dupstrn(s.data(), s.size()); }                             \
  K::K(const char *s) : exception() { _M_msg._M_p = dupstr(s); }                                                 \
  K::K(const K &o) noexcept : exception(o) { _M_msg._M_p = dupstr(o._M_msg._M_p); }                              \
  K &K::operator=(const K &o) noexcept { if (this != &o) { ::operator delete((void *)_M_msg._M_p); _M_msg._M_p = dupstr(o._M_msg._M_p); } return *this; } \
  K::~K() noexcept { ::operator delete((void *)_M_msg._M_p); }                                                   \
  const char *K::what() const noexcept { return _M_msg._M_p; }
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string &) { _M_p = nullptr; }
__cow_string::__cow_string(const char *, size_t) { _M_p = nullptr; }
__cow_string::__cow_string(const __cow_string &) noexcept { _M_p = nullptr; }
__cow_string &__cow_string::operator=(const __cow_string &) noexcept { return *this; }
__cow_string::~__cow_string() {}
EXC(logic_error)
EXC(runtime_error)
#define SUB(K, B) K::K(const string &s) : B(s) {} K::K(const char *s) : B(s) {} K::~K() noexcept {}
SUB(domain_error, logic_error)
SUB(invalid_argument, logic_error)
SUB(length_error, logic_error)
SUB(out_of_range, logic_error)
SUB(range_error, runtime_error)
SUB(overflow_error, runtime_error)
SUB(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return logic_error::what(); }
ios_base::failure::failure(const string &s) : system_error(error_code(1, system_category()), s) {}
ios_base::failure::failure(const string &s, const error_code &e) : system_error(e, s) {}
ios_base::failure::failure(const char *s, const error_code &e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char *ios_base::failure::what() const noexcept { return runtime_error::what(); }

void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_future_error(int e) { throw future_error(error_code(e, future_category())); }
void __throw_ios_failure(const char *s) { throw ios_base::failure(s, error_code(1, system_category())); }
void __throw_ios_failure(const char *s, int) { throw ios_base::failure(s, error_code(1, system_category())); }

// ---------------------------------------------------------------- error codes
namespace {
struct Cat final : error_category {
  const char *n; constexpr explicit Cat(const char *s) : n(s) {}
  const char *name() const noexcept override { return n; }
  string message(int e) const override { return string(n) + ":" + to_string(e); }
};
Cat g_gen("generic"), g_sys("system"), g_fut("future");
}
namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
const error_category &generic_category() noexcept { return g_gen; }
const error_category &system_category() noexcept { return g_sys; }
}
const error_category &future_category() noexcept { return g_fut; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }

// --------------------------------------------------------------------- futures
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
__thread void *__once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { (*__once_call)(); }

// --------------------------------------------------------------------- containers
#include "tree_models.inc"
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
namespace __detail {
// a small fixed number of buckets; growing is not observable except through bucket interfaces
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = b * 2 + 1; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t want = ne + ni; if (want < 13) want = 13; if (want > nb) return {true, _M_next_bkt(max(want, nb * 2))}; _M_next_resize = nb; }
  return {false, 0}; }
}

// --------------------------------------------------------------------- locale, ctype, streams
} // namespace std
namespace std {
locale::facet::~facet() {}
static const locale::facet *g_facets[64]; static const locale::facet *g_caches[64];
alignas(16) static char g_implMem[sizeof(void *) * 16]; static size_t g_nextId;
size_t locale::id::_M_id() const noexcept { if (!_M_index) _M_index = ++g_nextId; return _M_index - 1; }
static locale::_Impl *classicImpl();
locale::locale() noexcept : _M_impl(classicImpl()) {}
locale::locale(const locale &o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &o) noexcept { _M_impl = o._M_impl; return *this; }
const locale &locale::classic() { alignas(8) static char m[sizeof(locale)]; *(locale::_Impl **)m = classicImpl(); return *(locale *)m; }
locale locale::global(const locale &) { return locale(); }
bool locale::operator==(const locale &o) const noexcept { return _M_impl == o._M_impl; }
void locale::_Impl::_M_install_cache(const facet *c, size_t i) { _M_caches[i] = c; }
// cloning for locale(const locale&, Facet*)
locale::_Impl::_Impl(const _Impl &o, size_t) { _M_refcount = 1; _M_facets_size = 64; _M_facets = new const facet *[64]; _M_caches = new const facet *[64]; for (int i = 0; i < 64; i++) { _M_facets[i] = o._M_facets[i]; _M_caches[i] = nullptr; } _M_names = nullptr; }
void locale::_Impl::_M_install_facet(const locale::id *id, const facet *f) { _M_facets[id->_M_id()] = f; }

locale::id ctype<char>::id, codecvt<char, char, mbstate_t>::id, ctype<wchar_t>::id, codecvt<wchar_t, char, mbstate_t>::id;
static ctype_base::mask g_ctab[256]; static int g_up[256], g_lo[256];
ctype<char>::ctype(const mask *, bool, size_t refs) : facet(refs) { _M_c_locale_ctype = nullptr; _M_del = false; _M_toupper = g_up; _M_tolower = g_lo; _M_table = g_ctab; _M_widen_ok = 0; _M_narrow_ok = 0; memset(_M_widen, 0, 256); memset(_M_narrow, 0, 256); }
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)_M_toupper[(unsigned char)c]; }
const char *ctype<char>::do_toupper(char *a, const char *b) const { for (; a < b; ++a) *a = do_toupper(*a); return b; }
char ctype<char>::do_tolower(char c) const { return (char)_M_tolower[(unsigned char)c]; }
const char *ctype<char>::do_tolower(char *a, const char *b) const { for (; a < b; ++a) *a = do_tolower(*a); return b; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; i++) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r) { _M_c_locale_codecvt = nullptr; }
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type &, const char *f, const char *, const char *&fn, char *t, char *, char *&tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type &, char *t, char *, char *&tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type &, const char *f, const char *, const char *&fn, char *t, char *, char *&tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const noexcept { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const noexcept { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type &, const char *a, const char *b, size_t m) const { return (int)min((size_t)(b - a), m); }
int codecvt<char, char, mbstate_t>::do_max_length() const noexcept { return 1; }
template <> numpunct<char>::~numpunct() {}
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
  if (!_M_data) _M_data = new __numpunct_cache<char>;
  _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false; _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
  for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
  for (size_t i = 0; i < __num_base::_S_iend; ++i) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
  _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5; }
const char *__num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
const char *__num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
template <> template <> ostreambuf_iterator<char> num_put<char>::_M_insert_float(ostreambuf_iterator<char> s, ios_base &io, char, char, double v) const {
  char b[64]; int n = fs_fmtld(b, 64, (io.flags() & ios_base::floatfield) == ios_base::fixed ? 'f' : (io.flags() & ios_base::floatfield) == ios_base::scientific ? 'e' : 'g', (int)io.precision(), v); for (int i = 0; i < n; i++) *s++ = b[i]; return s; }
template <> template <> ostreambuf_iterator<char> num_put<char>::_M_insert_float(ostreambuf_iterator<char> s, ios_base &io, char, char, long double v) const {
  char b[64]; int n = fs_fmtld(b, 64, (io.flags() & ios_base::floatfield) == ios_base::fixed ? 'f' : (io.flags() & ios_base::floatfield) == ios_base::scientific ? 'e' : 'g', (int)io.precision(), v); for (int i = 0; i < n; i++) *s++ = b[i]; return s; }
template <> istream &getline(istream &in, string &str, char delim) {
  ios_base::iostate err = ios_base::goodbit; istream::sentry ok(in, true); str.clear();
  if (ok) { size_t n = 0; auto *b = in.rdbuf(); while (true) { int c = b->sgetc(); if (c == EOF) { err |= ios_base::eofbit; break; } if ((char)c == delim) { b->sbumpc(); ++n; break; } str += (char)c; ++n; b->sbumpc(); } if (!n) err |= ios_base::failbit; }
  else err |= ios_base::failbit;
  if (err) in.setstate(err); return in; }
bool __verify_grouping(const char *, size_t, const string &) noexcept { return true; }
static locale::_Impl *classicImpl() {
  static bool done; auto *im = (locale::_Impl *)g_implMem;
  if (!done) {
    done = true; im->_M_refcount = 1; im->_M_facets = g_facets; im->_M_facets_size = 64; im->_M_caches = g_caches; im->_M_names = nullptr;
    for (int i = 0; i < 256; i++) {
      unsigned m = 0; bool up = i >= 'A' && i <= 'Z', lo = i >= 'a' && i <= 'z', dg = i >= '0' && i <= '9';
      if (up) m |= ctype_base::upper; if (lo) m |= ctype_base::lower; if (up || lo) m |= ctype_base::alpha; if (dg) m |= ctype_base::digit;
      if (dg || (i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F')) m |= ctype_base::xdigit; if (i == ' ' || (i >= 9 && i <= 13)) m |= ctype_base::space;
      if (i >= 32 && i < 127) m |= ctype_base::print; if (i < 32 || i == 127) m |= ctype_base::cntrl; if (i > 32 && i < 127 && !up && !lo && !dg) m |= ctype_base::punct; if (i == ' ' || i == 9) m |= ctype_base::blank;
      g_ctab[i] = (ctype_base::mask)m; int sc = i >= 128 ? i - 256 : i; g_up[i] = lo ? i - 32 : sc; g_lo[i] = up ? i + 32 : sc; }
    g_facets[ctype<char>::id._M_id()] = new ctype<char>(nullptr, false, 1);
    g_facets[codecvt<char, char, mbstate_t>::id._M_id()] = new codecvt<char, char, mbstate_t>(1);
    g_facets[numpunct<char>::id._M_id()] = new numpunct<char>(1);
    g_facets[num_put<char>::id._M_id()] = new num_put<char>(1);
    g_facets[num_get<char>::id._M_id()] = new num_get<char>(1);
  }
  return im; }
ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
locale ios_base::imbue(const locale &l) noexcept { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
void ios_base::_M_move(ios_base &r) noexcept { _M_precision = r._M_precision; _M_width = r._M_width; _M_flags = r._M_flags; _M_exception = r._M_exception; _M_streambuf_state = r._M_streambuf_state; }
void ios_base::_M_swap(ios_base &r) noexcept { std::swap(_M_precision, r._M_precision); std::swap(_M_width, r._M_width); std::swap(_M_flags, r._M_flags); std::swap(_M_exception, r._M_exception); std::swap(_M_streambuf_state, r._M_streambuf_state); }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ios_base_library_init() {}
// console streams swallow their output
namespace { struct NullBuf final : streambuf { int_type overflow(int_type c) override { return traits_type::not_eof(c); } streamsize xsputn(const char *, streamsize n) override { return n; } }; }
static NullBuf g_nb;
}
// std::cout/cerr are declared extern in <iostream>; give them storage under their mangled names
extern "C" { alignas(16) char fsm_cout[sizeof(std::ostream)] asm("_ZSt4cout"); alignas(16) char fsm_cerr[sizeof(std::ostream)] asm("_ZSt4cerr"); alignas(16) char fsm_clog[sizeof(std::ostream)] asm("_ZSt4clog"); }
namespace { struct ConsoleInit { ConsoleInit() { new (fsm_cout) std::ostream(&std::g_nb); new (fsm_cerr) std::ostream(&std::g_nb); new (fsm_clog) std::ostream(&std::g_nb); } }; __attribute__((init_priority(101))) ConsoleInit g_ci; }

// --------------------------------------------------------------------- virtual files
namespace {
struct VFile { std::string path; std::string data; bool exists; bool dir; };
constexpr int MAXF = 16; VFile *g_vf[MAXF]; int g_nvf;
VFile *vfind(const char *p, bool create) {
  for (int i = 0; i < g_nvf; i++) if (g_vf[i]->path == p) { if (!g_vf[i]->exists && !create) return nullptr; return g_vf[i]; }
  if (!create || g_nvf == MAXF) return nullptr; VFile *f = new VFile{p, {}, false, false}; g_vf[g_nvf++] = f; return f; }
int g_writeBudget = -1; // number of bytes that may still be written (-1: no limit)
unsigned g_openFail;    // next opens fail
}
extern "C" {
void vf_put(const char *path, const char *data, size_t n) { VFile *f = vfind(path, true); f->exists = true; f->dir = false; f->data.assign(data, n); }
void vf_mkdir(const char *path) { VFile *f = vfind(path, true); f->exists = true; f->dir = true; }
size_t vf_get(const char *path, char *out, size_t cap) { VFile *f = vfind(path, false); if (!f || f->dir) return (size_t)-1; size_t n = f->data.size() < cap ? f->data.size() : cap; if (n) memcpy(out, f->data.data(), n); return f->data.size(); }
bool vf_exists(const char *path) { VFile *f = vfind(path, false); return f && f->exists; }
void vf_remove(const char *path) { VFile *f = vfind(path, false); if (f) { f->exists = false; f->data.clear(); } }
size_t vf_count(void) { size_t n = 0; for (int i = 0; i < g_nvf; i++) n += g_vf[i]->exists && !g_vf[i]->dir; return n; }
const char *vf_name(size_t k) { for (int i = 0; i < g_nvf; i++) if (g_vf[i]->exists && !g_vf[i]->dir) { if (k-- == 0) return g_vf[i]->path.c_str(); } return ""; }
const char *vf_root(void) { return "/vfs"; }
void vf_limit_writes(int bytes) { g_writeBudget = bytes; }
}
namespace std {
struct OpenFile { VFile *f; size_t pos; bool w, r, app; };
__basic_file<char>::__basic_file(__c_lock *) noexcept : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char> *__basic_file<char>::open(const char *p, ios_base::openmode m, int) {
  if (_M_cfile) return nullptr;
  if (m & ios_base::out) { // the directory must exist
    string d(p); auto e = d.rfind('/'); d.resize(e == string::npos ? 0 : e); if (d != "/vfs") { VFile *q = vfind(d.c_str(), false); if (!q || !q->dir) return nullptr; } }
  VFile *f = vfind(p, (m & ios_base::out) != 0); if (!f || f->dir) return nullptr;
  if (!f->exists) { if ((m & ios_base::in) && !(m & (ios_base::trunc | ios_base::app))) return nullptr; f->exists = true; f->data.clear(); }
  if (m & ios_base::trunc || ((m & ios_base::out) && !(m & (ios_base::in | ios_base::app)))) f->data.clear();
  auto *o = new OpenFile{f, 0, (m & ios_base::out) != 0, (m & ios_base::in) != 0, (m & ios_base::app) != 0};
  _M_cfile = (__c_file *)o; _M_cfile_created = true; return this; }
__basic_file<char> *__basic_file<char>::close() { if (!_M_cfile) return nullptr; delete (OpenFile *)_M_cfile; _M_cfile = nullptr; _M_cfile_created = false; return this; }
bool __basic_file<char>::is_open() const noexcept { return _M_cfile != nullptr; }
int __basic_file<char>::fd() noexcept { return 3; }
__c_file *__basic_file<char>::file() noexcept { return _M_cfile; }
streamsize __basic_file<char>::xsputn(const char *s, streamsize n) {
  auto *o = (OpenFile *)_M_cfile; if (!o || !o->w) return 0;
  if (g_writeBudget >= 0) { if (n > g_writeBudget) n = g_writeBudget; g_writeBudget -= (int)n; }
  if (o->app) o->pos = o->f->data.size();
  if (o->pos + n > o->f->data.size()) o->f->data.resize(o->pos + n);
  if (n) memcpy(o->f->data.data() + o->pos, s, n); o->pos += n; return n; }
streamsize __basic_file<char>::xsputn_2(const char *a, streamsize n, const char *b, streamsize m) { streamsize k = xsputn(a, n); if (k == n) k += xsputn(b, m); return k; }
streamsize __basic_file<char>::xsgetn(char *s, streamsize n) { auto *o = (OpenFile *)_M_cfile; if (!o || !o->r) return -1; size_t av = o->pos < o->f->data.size() ? o->f->data.size() - o->pos : 0; if ((size_t)n > av) n = av; if (n) memcpy(s, o->f->data.data() + o->pos, n); o->pos += n; return n; }
streamoff __basic_file<char>::seekoff(streamoff off, ios_base::seekdir w) noexcept { auto *o = (OpenFile *)_M_cfile; if (!o) return -1; streamoff b = w == ios_base::beg ? 0 : w == ios_base::cur ? (streamoff)o->pos : (streamoff)o->f->data.size(); if (b + off < 0) return -1; o->pos = b + off; return o->pos; }
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { auto *o = (OpenFile *)_M_cfile; return o && o->pos < o->f->data.size() ? o->f->data.size() - o->pos : 0; }

// paths are kept as plain strings; only the operations in use here are provided
namespace filesystem {
struct path::_List::_Impl { _Cmpt last; }; // only the last component of a path is kept apart
path::_List::_List() : _M_impl(reinterpret_cast<_Impl *>(3)) {}
path::_List::_List(const _List &o) : _M_impl(o.type() == _Type::_Multi && o._M_impl ? new _Impl(*o._M_impl) : reinterpret_cast<_Impl *>(o._M_impl.get())) {}
path::_List &path::_List::operator=(const _List &o) { if (this != &o) { _List c(o); swap(c); } return *this; }
void path::_List::_Impl_deleter::operator()(_Impl *p) const noexcept { if (((uintptr_t)p & 3) == 0) delete p; }
void path::_List::type(_Type t) noexcept { _M_impl.reset(reinterpret_cast<_Impl *>((uintptr_t)t)); }
void path::_List::clear() { type(_Type::_Filename); }
path::_Cmpt::_Cmpt(basic_string_view<value_type> s, _Type t, size_t pos) : path(s, t), _M_pos(pos) {}
path::path(basic_string_view<value_type> s, _Type t) : _M_pathname(s) { _M_cmpts.type(t); }
void path::_M_split_cmpts() {
  auto p = _M_pathname.rfind('/');
  if (p == string::npos) _M_cmpts.type(_Type::_Filename);
  else if (_M_pathname.find_first_not_of('/') == string::npos) _M_cmpts.type(_Type::_Root_dir);
  else { auto *i = new _List::_Impl; i->last = _Cmpt(string_view(_M_pathname).substr(p + 1), _Type::_Filename, p + 1); _M_cmpts._M_impl.reset(i); } }
path::_List::const_iterator path::_List::begin() const noexcept { return type() == _Type::_Multi && _M_impl ? &_M_impl->last : nullptr; }
path::_List::const_iterator path::_List::end() const noexcept { return begin() ? begin() + 1 : nullptr; }
int path::compare(const path &o) const noexcept { return _M_pathname.compare(o._M_pathname); }
path &path::operator/=(const path &o) { if (!o._M_pathname.empty() && o._M_pathname[0] == '/') _M_pathname = o._M_pathname; else { if (!_M_pathname.empty() && _M_pathname.back() != '/') _M_pathname += '/'; _M_pathname += o._M_pathname; } _M_split_cmpts(); return *this; }
path path::parent_path() const { auto p = _M_pathname.rfind('/'); if (p == string::npos) return path(); if (p == 0) return path("/"); return path(_M_pathname.substr(0, p)); }
static std::string fileName(const std::string &s) { auto p = s.rfind('/'); return p == string::npos ? s : s.substr(p + 1); }
path &path::replace_extension(const path &x) { std::string f = fileName(_M_pathname); auto d = f.rfind('.'); if (d != string::npos && d != 0) _M_pathname.resize(_M_pathname.size() - (f.size() - d)); if (!x._M_pathname.empty() && x._M_pathname[0] != '.') _M_pathname += '.'; _M_pathname += x._M_pathname; _M_split_cmpts(); return *this; }
pair<const string *, size_t> path::_M_find_extension() const noexcept { return {nullptr, 0}; }
file_status status(const path &p, error_code &ec) noexcept { ec.clear(); VFile *f = vfind(p._M_pathname.c_str(), false); if (!f) return file_status(file_type::not_found); return file_status(f->dir ? file_type::directory : file_type::regular); }
file_status status(const path &p) { error_code e; return status(p, e); }
file_status symlink_status(const path &p, error_code &ec) noexcept { return status(p, ec); }
uintmax_t file_size(const path &p, error_code &ec) noexcept { VFile *f = vfind(p._M_pathname.c_str(), false); if (!f || f->dir) { ec.assign(2, generic_category()); return (uintmax_t)-1; } ec.clear(); return f->data.size(); }
uintmax_t file_size(const path &p) { error_code e; auto n = file_size(p, e); if (e) throw runtime_error("file_size"); return n; }
bool remove(const path &p, error_code &ec) noexcept { ec.clear(); VFile *f = vfind(p._M_pathname.c_str(), false); if (!f) return false; f->exists = false; f->data.clear(); return true; }
bool remove(const path &p) { error_code e; return remove(p, e); }
bool create_directories(const path &p, error_code &ec) { ec.clear(); vf_mkdir(p._M_pathname.c_str()); return true; }
path temp_directory_path() { return path("/vfs"); }
}

// --------------------------------------------------------------------- numbers
// Text to floating point, general format: the shape of the text is decided here on symbolic characters; the
// value is either computed exactly (the matched text is then enumerated) or, with parameter opaque_fp=1, left unconstrained.
static bool isdig(char c) { return c >= '0' && c <= '9'; }
static bool ieq(const char *b, const char *e, const char *w, size_t n) { if ((size_t)(e - b) < n) return false; for (size_t i = 0; i < n; i++) { char c = b[i]; if (c != w[i] && c != w[i] - 32) return false; } return true; }
template <typename T> static from_chars_result fpFrom(const char *b, const char *e, T &v, chars_format f) {
  const char *p = b; if (p != e && *p == '-') ++p;
  if (f == chars_format::hex) { fs_incomplete("hexadecimal from_chars"); return {b, errc::invalid_argument}; }
  if (p != e && !isdig(*p) && *p != '.') {
    if (ieq(p, e, "inf", 3)) { if (ieq(p, e, "infinity", 8)) p += 8; else p += 3; v = *b == '-' ? -(T)__builtin_inf() : (T)__builtin_inf(); return {p, errc()}; }
    if (ieq(p, e, "nan", 3)) { p += 3; if (p != e && *p == '(') { const char *q = p + 1; while (q != e && (isdig(*q) || (*q >= 'a' && *q <= 'z') || (*q >= 'A' && *q <= 'Z') || *q == '_')) ++q; if (q != e && *q == ')') p = q + 1; } v = *b == '-' ? -(T)__builtin_nan("") : (T)__builtin_nan(""); return {p, errc()}; }
    return {b, errc::invalid_argument}; }
  size_t nd = 0; while (p != e && isdig(*p)) ++p, ++nd;
  if (p != e && *p == '.') { const char *q = p + 1; size_t k = 0; while (q != e && isdig(*q)) ++q, ++k; if (nd + k) { p = q; nd += k; } }
  if (!nd) return {b, errc::invalid_argument};
  if (f != chars_format::fixed && p != e && (*p == 'e' || *p == 'E')) { const char *q = p + 1; if (q != e && (*q == '+' || *q == '-')) ++q; if (q != e && isdig(*q)) { while (q != e && isdig(*q)) ++q; p = q; } }
  if (fs_param("opaque_fp", 0)) { struct { uint64_t m; uint16_t x; } raw{fs_u64("fp_mantissa") | (sizeof(T) == 16 ? 1ull << 63 : 0), (uint16_t)(fs_u16("fp_exponent") & 0xbfff)}; if (sizeof(T) == 16) memcpy(&v, &raw, 10); else memcpy(&v, &raw.m, sizeof(T)); return {p, errc()}; }
  char buf[64]; size_t n = p - b; if (n > 63) { fs_incomplete("long floating point text"); n = 63; }
  memcpy(buf, b, n); int st = fs_strtofp(buf, n, sizeof(T), &v); if (st) return {p, errc::result_out_of_range};
  return {p, errc()}; }
from_chars_result from_chars(const char *b, const char *e, long double &v, chars_format f) noexcept { return fpFrom(b, e, v, f); }
from_chars_result from_chars(const char *b, const char *e, double &v, chars_format f) noexcept { return fpFrom(b, e, v, f); }
from_chars_result from_chars(const char *b, const char *e, float &v, chars_format f) noexcept { return fpFrom(b, e, v, f); }
static to_chars_result fpTo(char *b, char *e, long double v, chars_format f, int prec) {
  char c = f == chars_format::fixed ? 'f' : f == chars_format::scientific ? 'e' : f == chars_format::hex ? 'a' : 'g';
  char *buf = new char[6000]; int n = fs_fmtld(buf, 6000, c, prec, v); char *p = buf;
  char tmp[1]; (void)tmp;
  to_chars_result r{e, errc::value_too_large};
  if (c == 'a') { int neg = p[0] == '-'; if (p[neg] == '0' && p[neg + 1] == 'x') { if (neg) { p[2] = '-'; } p += 2; n -= 2; } }
  if (n <= e - b) { memcpy(b, p, n); r = {b + n, errc()}; }
  delete[] buf; return r; }
to_chars_result to_chars(char *b, char *e, double v, chars_format f, int p) noexcept { return fpTo(b, e, v, f, p); }
to_chars_result to_chars(char *b, char *e, float v, chars_format f, int p) noexcept { return fpTo(b, e, v, f, p); }
to_chars_result to_chars(char *b, char *e, long double v, chars_format f, int p) noexcept { return fpTo(b, e, v, f, p); }

// --------------------------------------------------------------------- threads
thread::_State::~_State() {}
#define EXPORT(n) n
#include "thread_models.inc"
random_device::result_type random_device::_M_getval() { return fs_u32("random"); }
void random_device::_M_init(const string &) {}
void random_device::_M_fini() {}
double random_device::_M_getentropy() const noexcept { return 32; }
} // namespace std

extern "C" {
char __libc_single_threaded = 0;
static int g_errno;
int *__errno_location() { return &g_errno; }
#include "pthread_models.inc"
char *getenv(const char *) { return nullptr; }
// sscanf for literals, white space and %lu
int fsm_sscanf(const char *s, const char *f, uint64_t *a, uint64_t *b, uint64_t *c, uint64_t *d) asm("__isoc23_sscanf");
static bool scanSpace(char c) { return c == ' ' || (c >= 9 && c <= 13); }
int fsm_sscanf(const char *s, const char *f, uint64_t *a, uint64_t *b, uint64_t *c, uint64_t *d) {
  uint64_t *out[4] = {a, b, c, d}; int n = 0; 
  while (*f) {
    if (scanSpace(*f)) { ++f; while (scanSpace(*s)) ++s; continue; }
    if (*f == '%') {
      if (f[1] != 'l' || f[2] != 'u' || n == 4) fs_incomplete("scanf conversion"); f += 3;
      while (scanSpace(*s)) ++s; if (!*s) return n ? n : -1;
      bool neg = *s == '-'; if (*s == '-' || *s == '+') ++s; if (*s < '0' || *s > '9') return n;
      uint64_t v = 0; bool big = false; for (; *s >= '0' && *s <= '9'; ++s) { uint64_t w; if (__builtin_mul_overflow(v, 10ull, &w) || __builtin_add_overflow(w, (uint64_t)(*s - '0'), &w)) big = true; else v = w; }
      *out[n++] = big ? ~0ull : neg ? 0 - v : v; continue; }
    if (!*s) return n ? n : -1; if (*s != *f) return n; ++s; ++f; }
  return n; }
struct tm *localtime_r(const time_t *, struct tm *r) { memset(r, 0, sizeof(*r)); return r; }
size_t strftime(char *s, size_t n, const char *, const struct tm *) { static const char text[] = "01-02-2020 03:04:05"; if (n < sizeof(text)) return 0; memcpy(s, text, sizeof(text)); return sizeof(text) - 1; }
time_t time(time_t *t) { time_t v = (time_t)(1600000000ull + fs_clock_advance(0) / 1000000000ull); if (t) *t = v; return v; }
}

// plain C functions (this file is compiled with -fno-builtin)
extern "C" {
wchar_t *wmemset(wchar_t *p, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) p[i] = c; return p; }
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
const wchar_t *fsm_wmemchr(const wchar_t *s, wchar_t c, size_t n) asm("wmemchr");
const wchar_t *fsm_wmemchr(const wchar_t *s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return s + i; return nullptr; }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
char *fsm_strchr(const char *s, int c) asm("strchr");
char *fsm_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *fsm_strrchr(const char *s, int c) asm("strrchr");
char *fsm_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
#define CT(name, cond) int name(int c) { return (cond) ? 1 : 0; }
CT(isdigit, c >= '0' && c <= '9')
CT(isupper, c >= 'A' && c <= 'Z')
CT(islower, c >= 'a' && c <= 'z')
CT(isalpha, (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))
CT(isalnum, (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))
CT(isxdigit, (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))
CT(isspace, c == ' ' || (c >= 9 && c <= 13))
CT(isprint, c >= 32 && c < 127)
CT(ispunct, c > 32 && c < 127 && !((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')))
CT(iscntrl, (c >= 0 && c < 32) || c == 127)
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
#undef htonl
#undef htons
#undef ntohl
#undef ntohs
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
uint16_t htons(uint16_t x) { return (uint16_t)((x << 8) | (x >> 8)); }
uint16_t ntohs(uint16_t x) { return (uint16_t)((x << 8) | (x >> 8)); }
}
