// positive and negative controls of the effects analysis: every bad_ function must be reported, no good_ function may be
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <unordered_map>
#include <vector>
static int calls; static int last[2]; static thread_local int hint; static std::atomic<int> hits; static volatile int seen;
struct row { int from, to, what; };
static row rows[] = {{1, 2, 3}, {5, 8, 9}, {11, 12, 13}};
static const row fixed[] = {{1, 2, 3}, {5, 8, 9}};
struct counted { mutable int n; int k; }; static const counted one = {0, 3};
static int* held = new int[10]; static std::string text; static std::vector<int> list; static std::map<int, int> memo; static std::unordered_map<int, int> memo2; static std::mutex lock; static std::once_flag once; static bool sorted_;
template <typename T> struct state { static T value; static thread_local T mine; }; template <typename T> T state<T>::value = 0; template <typename T> thread_local T state<T>::mine = 0;
__attribute__((noinline)) static void put(int* p, int v) { *p = v; }
static int cmp_row(const void* k, const void* e) { calls = *(const int*)k; return *(const int*)k - ((const row*)e)->from; }
static int cmp_pure(const void* k, const void* e) { return *(const int*)k - ((const row*)e)->from; }
static void via(int v) { last[1] = v; } static void (*const hook)(int) = via;
int bad_counter(int c) { calls++; return c; }
int bad_local_static(int c) { static int n; n += c; return n; }
int bad_local_init(int c) { static const std::string s = std::to_string(c); return s.size(); }
int bad_local_function_init(int c) { static const int k = std::rand(); return c + k; }
int bad_local_table(int c) { static const std::vector<int> v = {1, 2, 3}; return v[c]; }
int bad_thread_local(int c) { hint = c; return hint; }
int bad_atomic(int c) { hits.fetch_add(1, std::memory_order_relaxed); return c; }
int bad_atomic_store(int c) { hits.store(c, std::memory_order_relaxed); return c; }
int bad_exchange(int c) { int e = 0; hits.compare_exchange_strong(e, c); return e; }
int bad_volatile(int c) { seen = c; return c; }
int bad_helper(int c) { put(&last[0], c); return c; }
int bad_reference(int c) { int& r = last[1]; int* q = c ? &r : &calls; *q = 3; return c; }
int bad_copy(const int* p) { std::memcpy(last, p, sizeof last); return 0; }
int bad_fill(int) { std::memset(rows, 0, sizeof rows); return 0; }
int bad_table(int c) { rows[c].what = 3; return 0; }
int bad_sort(int c) { if (!sorted_) { std::sort(std::begin(rows), std::end(rows), [](const row& a, const row& b) { return a.from < b.from; }); } return rows[c].what; }
int bad_swap(int c) { std::swap(rows[0], rows[c]); return rows[0].what; }
int bad_mutable(int c) { one.n = c; return one.k; }
int bad_const_cast(int c) { const_cast<row&>(fixed[0]).what = c; return c; }
int bad_held(int c) { held[2] = c; return c; }
int bad_string(int c) { text.push_back(c); return text.size(); }
int bad_string_assign(const char* s) { text = s; return 0; }
int bad_vector(int c) { list.push_back(c); return 0; }
int bad_map(int c) { return memo[c] = 3; }
int bad_unordered(int c) { memo2.emplace(c, 3); return memo2.size(); }
int bad_mutex(int c) { std::lock_guard<std::mutex> g(lock); return c; }
int bad_once(int c) { std::call_once(once, [] {}); return c; }
int bad_template(int c) { state<int>::value = c; return c; }
int bad_template_thread(int c) { state<int>::mine = c; return c; }
int bad_callback(int c) { return std::bsearch(&c, rows, 3, sizeof(row), cmp_row) != nullptr; }
int bad_pointer(int c) { hook(c); return c; }
int bad_qsort(int c) { std::qsort(rows, 3, sizeof(row), cmp_pure); return c; }
int bad_rand(int c) { return c + std::rand(); }
int bad_locale(int c) { std::setlocale(LC_ALL, "C"); return c; }
int bad_env(int c) { return std::getenv("U5E") ? c : 0; }
int bad_print(int c) { std::printf("%d\n", c); return c; }
int bad_error(int c) { std::fprintf(stderr, "%d\n", c); return c; }
int bad_strtok(char* s) { return std::strtok(s, ",") != nullptr; }
int bad_errno(int c) { errno = c; return c; }
int bad_struct(int c) { struct holder { int* p; const row* t; } h = {&calls, rows}; *h.p = c; return h.t->to; }
int bad_unique(int c) { static std::unique_ptr<int> p; if (!p) p.reset(new int(c)); return *p; }
int bad_lambda(int c) { auto f = [](int v) { last[0] = v; }; f(c); return c; }
// innocent code
int good_read(int c) { return rows[c].what + calls + one.k; }
int good_lower_bound(int c) { auto it = std::lower_bound(std::begin(rows), std::end(rows), c, [](const row& r, int k) { return r.to < k; }); return it != std::end(rows) && it->from <= c ? it->what : 0; }
int good_bsearch(int c) { auto* r = (const row*)std::bsearch(&c, rows, 3, sizeof(row), cmp_pure); return r ? r->what : 0; }
int good_loop(int c) { int lo = 0, hi = 3; while (lo < hi) { int mid = (lo + hi) / 2; const row* r = &rows[mid]; if (c < r->from) hi = mid; else if (c > r->to) lo = mid + 1; else return r->what; } return 0; }
int good_local_constants(int c) { static const int t[] = {1, 2, 3}; static constexpr std::array<int, 2> u = {{4, 5}}; return t[c] + u[c]; }
int good_string(int c) { std::string s("some text that is longer than the small buffer"); s.push_back(c); std::string t = s; t += s; return t.size(); }
int good_vector(std::vector<int>& v, int c) { std::vector<int> w(v); w.push_back(c); std::sort(w.begin(), w.end()); v.insert(v.end(), w.begin(), w.end()); return w.size(); }
int good_map(int c) { std::map<int, int> m; m[c] = 3; return m.size(); }
int good_copy(int* p) { row r = rows[0]; r.what = 8; std::memcpy(p, rows, 3 * sizeof(row)); return r.what; }
int good_argument(int* p, std::string& s) { *p = 3; s.append("x"); return 0; }
int good_sort_copy(int c) { std::vector<row> v(std::begin(rows), std::end(rows)); std::sort(v.begin(), v.end(), [](const row& a, const row& b) { return a.to < b.to; }); return v[c].to; }
int good_table_of_functions(int c) { static int (*const f[])(int) = {good_read, good_bsearch}; return f[c & 1](c); }
int good_struct(int c) { struct holder { const row* t; int n; } h = {rows, 0}; h.n = c; h.t++; return h.t->to + h.n; }
int good_literal(int c) { const char* s = c ? "abc" : "defg"; return std::strlen(s) + std::string(s).find('e'); }
int good_throw(int c) { if (c > 100) throw std::string("out of range"); return c; }
int good_unique(int c) { std::unique_ptr<int[]> p(new int[10]); p[3] = c; return p[3]; }
