// controls of the start-up analysis: all of these need code to run before main, but the first group does not
#ifdef INNOCENT
#include <iostream>
#include <array>
#include <initializer_list>
static int zero; static int one = 1; static const int table[] = {1, 2, 3}; static const std::initializer_list<const std::initializer_list<const int>> rows = {{1, 2}, {3, 4}};
struct literal { constexpr literal(int v) : value(v) {} int value; }; static literal lit[] = {1, 2, 3}; constexpr int twice(int x) { return 2 * x; } static const int k = twice(4); static const std::array<int, 3> arr = {{1, 2, 3}};
static const int* const where = &table[1]; static int (*fp)(int) = twice;
int use(int i) { static const int local[] = {4, 5}; return zero + one + table[i] + rows.begin()[i].begin()[0] + lit[i].value + k + arr[i] + *where + fp(i) + local[i]; }
#else
#include <string>
#include <vector>
extern int other;
#if CASE == 1
static std::string s("some text"); int use() { return s.size(); }
#elif CASE == 2
int f(); static const int k = f(); int use() { return k; }
#elif CASE == 3
static int k; __attribute__((constructor)) static void fill() { k = 4; } int use() { return k; }
#elif CASE == 4
static const std::vector<int> v = {1, 2, 3}; int use() { return v[0]; }
#elif CASE == 5
static const int copy = other; int use() { return copy; }
#elif CASE == 6
template <typename T> struct holder { static T value; }; int f(); template <typename T> T holder<T>::value = f(); int use() { return holder<int>::value; }
#elif CASE == 7
struct starter { starter(); int k; }; starter::starter() : k(other) {} static starter s; int use() { return s.k; }
#elif CASE == 8
struct ender { constexpr ender() : k(3) {} ~ender(); int k; }; static ender e; int use() { return e.k; }
#endif
#endif
