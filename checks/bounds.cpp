// C17: histories of valid and rejected accesses and transfers, against a model of all objects' contents.
#include "fill.hpp"
#include <exception>
#include <typeinfo>
#include <iterator>
#include <list>
#include <cctype>

namespace sim {
const char* const workload_property = "C17";
const char* const workload_rule = "A case is one history of accesses, row, column and sub-matrix transfers, assignments and divisions, in range and out of range and some with a failing allocation; after each one all objects are compared with the model. It is non-trivial if at least one operation was rejected.";
using namespace conc;

// the text of every rejection, by operation: as it came in the program, and as it comes in another order on one thread
struct Texts { char plain[128][400]; char alone[128][400]; };
static Texts* texts;
static bool is_twin = false;
// rejections the caller keeps while it goes on
struct Kept {
    struct One { vmml::exception e; const char* p; std::string text; explicit One(const vmml::exception& x) : e(x), p(e.what()), text(p) {} };
    std::list<One> all;
    void keep(const vmml::exception& x) {
        if (all.size() < 6) all.push_back(One(x)), all.back().p = all.back().e.what();
        for (std::list<One>::iterator i = all.begin(); i != all.end(); ++i)
            if (i->text != i->p) violate("exception-changed", fmt("the text of an exception caught earlier now reads '%s' instead of '%s'", i->p, i->text.c_str()));
    }
};
// a range that notices when more is taken from it than it holds
template <class T> struct Checked {
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    const T* p; const T* e; bool* misuse;
    Checked(const T* p_, const T* e_, bool* m) : p(p_), e(e_), misuse(m) {}
    const T& operator*() const { if (p >= e) *misuse = true; return *p; }
    const T* operator->() const { return &**this; }
    Checked& operator++() { if (p >= e) *misuse = true; else ++p; return *this; }
    Checked operator++(int) { Checked k(*this); ++*this; return k; }
    bool operator==(const Checked& o) const { return p == o.p; }
    bool operator!=(const Checked& o) const { return p != o.p; }
};

template <class T> struct Sim {
    Kept* kept;
    Bank<T> b, model;
    int id; int64_t fail;
    // outcome of the operation
    enum { OK, REJECTED, NO_MEMORY } how;
    std::string what;
    template <class F> void attempt(F f) {
        how = OK;
        what.clear();
        fail_alloc(fail);
        OpScope s(id);
        try { f(); s.end(); }
        catch (const vmml::exception& e) {
            s.end();
            vmml::exception copy(e);
            how = REJECTED;
            what = e.what();
            kept->keep(copy);
            if (what != copy.what()) violate("exception-copy", fmt("operation %d: a copy of the exception has another text", id));
        }
        catch (const std::bad_alloc&) { s.end(); how = NO_MEMORY; }
        catch (const std::exception& e) { s.end(); violate("wrong-exception", fmt("operation %d threw %s: %s", id, typeid(e).name(), e.what())); }
        catch (...) { s.end(); violate("wrong-exception", fmt("operation %d threw something that is no exception class", id)); }
    }
    void verdict(const char* name, bool rejected) {
        const bool hit = alloc_failed();
        fail_alloc(-1);
        if (how == NO_MEMORY && !hit) violate("bad-alloc", fmt("operation %d (%s) threw bad_alloc although memory was available", id, name));
        if (rejected) {
            if (how == OK && !hit) violate("accepted", fmt("operation %d (%s) was accepted although it is out of bounds", id, name));
            if (how == OK) violate("accepted", fmt("operation %d (%s) was accepted although it is out of bounds, memory being short", id, name));
            if (how == REJECTED && !hit) {
                // a header's name, a line of it, and words beside them
                const size_t h = what.find(".hpp");
                size_t path = h, letters = 0;
                bool digit = false;
                while (h != std::string::npos && path > 0 && !isspace(uint8_t(what[path - 1]))) --path;
                for (size_t i = 0; h != std::string::npos && i < what.size(); ++i) {
                    if (i >= path && i < h + 4) continue;
                    digit = digit || (what[i] >= '1' && what[i] <= '9');
                    letters += isalpha(uint8_t(what[i])) != 0;
                }
                if (!digit || letters < 6)
                    violate("no-location", fmt("operation %d (%s) was rejected with the text '%s', which names no location", id, name, what.c_str()));
            }
            if (how == REJECTED && !hit && id >= 0 && id < 128) strncpy((is_twin ? texts->alone : texts->plain)[id], what.c_str(), 399);
            count(how == REJECTED ? "op.rejected" : "op.rejected_no_memory");
            nontrivial();
        } else {
            if (how == REJECTED) violate("rejected", fmt("operation %d (%s) is in range but threw: %s", id, name, what.c_str()));
            count(how == OK ? "op.accepted" : "op.no_memory");
        }
        if (memcmp(&b, &model, sizeof b)) {
            size_t k = 0;
            while (reinterpret_cast<char*>(&b)[k] == reinterpret_cast<char*>(&model)[k]) ++k;
            violate(rejected || how != OK ? "changed" : "wrong-effect", fmt("operation %d (%s) left byte %d of the objects different from the model%s", id, name, int(k), rejected ? " although it was rejected" : ""));
        }
        event("op", uint64_t(id), uint64_t(how));
        note(fmt("operation %d: %s %s %s", id, name, rejected ? "out of range" : "in range", what.c_str()));
    }
    // indices around the bounds n (and m, which may be mistaken for n)
    static size_t index(int64_t sel, size_t n, size_t m) {
        const int64_t k = wrap(sel, 24);
        if (k < 12) return size_t(k) % n;
        switch (k) {
            case 12: case 13: return n;
            case 14: return n + 1;
            case 15: return m;
            case 16: return m > n ? m - 1 : n + 2;
            case 17: return size_t(-1);
            case 18: return size_t(-2);
            case 19: return size_t(1) << 31;
            case 20: return size_t(1) << 32;
            case 21: return (size_t(1) << 62) + 1;
            case 22: return n * m;
            default: return n * m - 1;
        }
    }
    template <class X> X& in(Bank<T>& k, int64_t i) { return arr(k, (X*)0)[wrap(i, cnt(k, (X*)0))]; }
    T value(int64_t s) { Rng r{uint64_t(s)}; return T(r.range(-50, 50)); }

    // the range's elements through iterators of several kinds
    template <class A, class B, class C> void ranged(const std::vector<T>& s, size_t n, int64_t sel, A checked, B list, C pointers) {
        switch (wrap(sel, 3)) {
            case 0: {
                bool misuse = false;
                attempt([&] { checked(Checked<T>(&s[0], &s[0] + n, &misuse), Checked<T>(&s[0] + n, &s[0] + n, &misuse)); });
                if (misuse) violate("range", fmt("operation %d took more than the %zu elements its range holds", id, n));
                break;
            }
            case 1: { std::list<T> k(s.begin(), s.begin() + std::ptrdiff_t(n)); attempt([&] { list(k.begin(), k.end()); }); break; }
            default: attempt([&] { pointers(&s[0], &s[0] + n); });
        }
    }
    template <size_t M> void vector(const Line& l) {
        typedef Vector<M, T> V;
        V& v = in<V>(b, l.arg(4)); V& mv = in<V>(model, l.arg(4));
        const V& cv = v;
        const size_t i = index(l.arg(5), M, 4);
        const bool bad = i >= M;
        const T val = value(l.arg(7));
        T got = 0;
        switch (wrap(l.arg(3), 8)) {
#ifdef VMMLIB_NO_CONVERSION_OPERATORS
            case 5: attempt([&] { got = cv[i]; }); if (!bad && how == OK && got != mv.array[i]) violate("value", "Vector[]"); verdict("Vector[]", bad); break;
            case 6: attempt([&] { v[i] = val; }); if (!bad && how == OK) mv.array[i] = val; verdict("Vector[]=", bad); break;
#else
            case 5: attempt([&] { got = cv[bad ? 0 : i]; }); if (how == OK && got != mv.array[bad ? 0 : i]) violate("value", "Vector[]"); verdict("Vector[]", false); break;
            case 6: attempt([&] { v[bad ? 0 : i] = val; }); if (how == OK) mv.array[bad ? 0 : i] = val; verdict("Vector[]=", false); break;
#endif
            case 0: attempt([&] { got = cv.at(i); }); if (!bad && how == OK && got != mv.array[i]) violate("value", "Vector::at"); verdict("Vector::at", bad); break;
            case 1: attempt([&] { got = cv(i); }); if (!bad && how == OK && got != mv.array[i]) violate("value", "Vector()"); verdict("Vector::operator()", bad); break;
            case 2: attempt([&] { v.at(i) = val; }); if (!bad && how == OK) mv.array[i] = val; verdict("Vector::at=", bad); break;
            case 3: attempt([&] { v(i) = val; }); if (!bad && how == OK) mv.array[i] = val; verdict("Vector::operator()=", bad); break;
            default: {                                   // a range shorter, equal or longer than the vector
                const size_t n = size_t(wrap(l.arg(5), int64_t(2 * M)));
                std::vector<T> s(n + 8, T(123));
                for (size_t k = 0; k < n; ++k) s[k] = value(l.arg(7) + int64_t(k));
                ranged(s, n, l.arg(7), [&](const Checked<T>& f, const Checked<T>& e) { v.iter_set(f, e); }, [&](typename std::list<T>::iterator f, typename std::list<T>::iterator e) { v.iter_set(f, e); },
                       [&](const T* f, const T* e) { v.iter_set(f, e); });
                if (how == OK) for (size_t k = 0; k < n && k < M; ++k) mv.array[k] = s[k];
                verdict("Vector::iter_set", false);
            }
        }
    }
    template <size_t M, size_t N> struct Minor { static void go(Sim&, const Line&) {} };
    template <size_t M> struct Minor<M, M> {
        static void go(Sim& S, const Line& l) {
            typedef Matrix<M, M, T> X; typedef Matrix<M - 1, M - 1, T> Y;
            const X& x = S.in<X>(S.b, l.arg(4)); const X& mx = S.in<X>(S.model, l.arg(4));
            const size_t r = index(l.arg(5), M, M), c = index(l.arg(6), M, M);
            Y y, want;
            for (size_t k = 0; k < (M - 1) * (M - 1); ++k) y.array[k] = want.array[k] = T(99);
            const bool bad = r >= M || c >= M;
            S.attempt([&] { x.get_minor(y, r, c); });
            if (!bad && S.how == OK)
                for (size_t i = 0, k = 0; i < M; ++i) for (size_t j = 0; j < M; ++j) if (i != c && j != r) want.array[k++] = mx.array[i * M + j];
            if (memcmp(y.array, want.array, sizeof y.array)) violate(bad ? "changed" : "value", fmt("operation %d: get_minor(%zu, %zu) of a %zu x %zu matrix delivered something else", S.id, r, c, M, M));
            S.verdict("get_minor", bad);
        }
    };
#define EL(rr, cc) mx.array[(cc) * M + (rr)]
    // a part with P rows and Q columns, to and from a local matrix
    template <size_t P, size_t Q, size_t M, size_t N> void part(Matrix<M, N, T>& x, Matrix<M, N, T>& mx, size_t r, size_t c, int64_t v) {
        Matrix<P, Q, T> t, want;
        const Matrix<M, N, T>& cx = x;
        for (size_t k = 0; k < P * Q; ++k) t.array[k] = want.array[k] = value(v + int64_t(k));
        const bool far = r > M - P || c > N - Q;
        if (v % 3 == 0) {
            attempt([&] { x.set_sub_matrix(t, r, c); });
            if (!far && how == OK) for (size_t i = 0; i < P; ++i) for (size_t j = 0; j < Q; ++j) EL(r + i, c + j) = t.array[j * P + i];
            verdict("set_sub_matrix", far);
            return;
        }
        if (v % 3 == 1) attempt([&] { cx.get_sub_matrix(t, r, c); });
        else attempt([&] { t = cx.template get_sub_matrix<P, Q>(r, c); });
        if (!far && how == OK) for (size_t i = 0; i < P; ++i) for (size_t j = 0; j < Q; ++j) want.array[j * P + i] = EL(r + i, c + j);
        if (memcmp(t.array, want.array, sizeof t.array)) violate(far || how != OK ? "changed" : "value", fmt("operation %d: get_sub_matrix<%zu, %zu>(%zu, %zu) of a %zu x %zu matrix delivered something else", id, P, Q, r, c, M, N));
        verdict("get_sub_matrix", far);
    }
    template <size_t M, size_t N> void matrix(const Line& l) {
        typedef Matrix<M, N, T> X; typedef Vector<M, T> VM; typedef Vector<N, T> VN; typedef Matrix<M, 1, T> C1; typedef Matrix<1, N, T> R1; typedef Matrix<2, 2, T> M22;
        X& x = in<X>(b, l.arg(4)); X& mx = in<X>(model, l.arg(4));
        const X& cx = x;
        const size_t r = index(l.arg(5), M, N), c = index(l.arg(6), N, M);
        const bool bad = r >= M || c >= N;
        const T val = value(l.arg(7));
        T got = 0;
        VM& vm = in<VM>(b, l.arg(7)); VM& mvm = in<VM>(model, l.arg(7));
        VN& vn = in<VN>(b, l.arg(7)); VN& mvn = in<VN>(model, l.arg(7));
        switch (wrap(l.arg(3), 28)) {
            case 23: case 24: part<M - 1, N>(x, mx, r, c, l.arg(7)); break;
            case 25: part<M, N - 1>(x, mx, r, c, l.arg(7)); break;
            case 26: attempt([&] { const typename X::row_accessor row = x[r]; got = row[c]; }); if (!bad && how == OK && got != EL(r, c)) violate("value", "const Matrix[][]"); verdict("const Matrix[][]", bad); break;
            case 0: attempt([&] { got = cx.at(r, c); }); if (!bad && how == OK && got != EL(r, c)) violate("value", "Matrix::at"); verdict("Matrix::at", bad); break;
            case 1: attempt([&] { x.at(r, c) = val; }); if (!bad && how == OK) EL(r, c) = val; verdict("Matrix::at=", bad); break;
            case 2: attempt([&] { got = cx(r, c); }); if (!bad && how == OK && got != EL(r, c)) violate("value", "Matrix()"); verdict("Matrix::operator()", bad); break;
            case 3: attempt([&] { x(r, c) = val; }); if (!bad && how == OK) EL(r, c) = val; verdict("Matrix::operator()=", bad); break;
            case 4: attempt([&] { x[r][c] = val; }); if (!bad && how == OK) EL(r, c) = val; verdict("Matrix[][]=", bad); break;
            case 5: attempt([&] { got = x[r][c]; }); if (!bad && how == OK && got != EL(r, c)) violate("value", "Matrix[][]"); verdict("Matrix[][]", bad); break;
            case 6: { const int ri = r < M ? int(r) : r > 1000 ? -int(r % 7) - 1 : int(r);
                attempt([&] { x[ri][c] = val; }); if (!bad && how == OK) EL(r, c) = val; verdict("Matrix[int][]=", bad); break; }
            case 7: attempt([&] { cx.get_column(c, vm); }); if (c < N && how == OK) for (size_t k = 0; k < M; ++k) mvm.array[k] = EL(k, c); verdict("get_column", c >= N); break;
            case 8: { VM t; attempt([&] { t = cx.get_column(c); }); if (c < N && how == OK) for (size_t k = 0; k < M; ++k) if (t.array[k] != EL(k, c)) violate("value", "get_column"); verdict("get_column", c >= N); break; }
            case 9: attempt([&] { x.set_column(c, vm); }); if (c < N && how == OK) for (size_t k = 0; k < M; ++k) EL(k, c) = mvm.array[k]; verdict("set_column", c >= N); break;
            case 10: { C1 t; for (size_t k = 0; k < M; ++k) t.array[k] = T(77);
                attempt([&] { cx.get_column(c, t); }); for (size_t k = 0; k < M; ++k) if (t.array[k] != (c < N && how == OK ? EL(k, c) : T(77))) violate("changed", "get_column to a matrix");
                verdict("get_column to a matrix", c >= N); break; }
            case 11: { C1 t; for (size_t k = 0; k < M; ++k) t.array[k] = value(l.arg(7) + int64_t(k));
                attempt([&] { x.set_column(c, t); }); if (c < N && how == OK) for (size_t k = 0; k < M; ++k) EL(k, c) = t.array[k]; verdict("set_column from a matrix", c >= N); break; }
            case 12: attempt([&] { cx.get_row(r, vn); }); if (r < M && how == OK) for (size_t k = 0; k < N; ++k) mvn.array[k] = EL(r, k); verdict("get_row", r >= M); break;
            case 13: { VN t; attempt([&] { t = cx.get_row(r); }); if (r < M && how == OK) for (size_t k = 0; k < N; ++k) if (t.array[k] != EL(r, k)) violate("value", "get_row"); verdict("get_row", r >= M); break; }
            case 14: attempt([&] { x.set_row(r, vn); }); if (r < M && how == OK) for (size_t k = 0; k < N; ++k) EL(r, k) = mvn.array[k]; verdict("set_row", r >= M); break;
            case 15: { R1 t; for (size_t k = 0; k < N; ++k) t.array[k] = T(77);
                attempt([&] { cx.get_row(r, t); }); for (size_t k = 0; k < N; ++k) if (t.array[k] != (r < M && how == OK ? EL(r, k) : T(77))) violate("changed", "get_row to a matrix");
                verdict("get_row to a matrix", r >= M); break; }
            case 16: { R1 t; for (size_t k = 0; k < N; ++k) t.array[k] = value(l.arg(7) + int64_t(k));
                attempt([&] { x.set_row(r, t); }); if (r < M && how == OK) for (size_t k = 0; k < N; ++k) EL(r, k) = t.array[k]; verdict("set_row from a matrix", r >= M); break; }
            case 17: case 18: case 19: {                       // 2 x 2 parts; offsets near the end and beyond
                M22& s = in<M22>(b, l.arg(7)); M22& ms = in<M22>(model, l.arg(7));
                const bool far = r > M - 2 || c > N - 2;
                const int w = int(wrap(l.arg(3), 28));
                if (static_cast<void*>(&s) == static_cast<void*>(&x)) { attempt([&] {}); verdict("nothing", false); break; }
                if (w == 17) {
                    attempt([&] { cx.get_sub_matrix(s, r, c); });
                    if (!far && how == OK) for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) ms.array[j * 2 + i] = EL(r + i, c + j);
                    verdict("get_sub_matrix", far);
                } else if (w == 18) {
                    M22 t;
                    attempt([&] { t = cx.template get_sub_matrix<2, 2>(r, c); });
                    if (!far && how == OK) for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) if (t.array[j * 2 + i] != EL(r + i, c + j)) violate("value", "get_sub_matrix");
                    verdict("get_sub_matrix", far);
                } else {
                    attempt([&] { x.set_sub_matrix(s, r, c); });
                    if (!far && how == OK) for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) EL(r + i, c + j) = ms.array[j * 2 + i];
                    verdict("set_sub_matrix", far);
                }
                break;
            }
            case 20: {                                         // from a container, perhaps too small
                const size_t n = size_t(std::max<int64_t>(0, int64_t(M * N) + (l.arg(5) % 2 ? l.arg(6) % 5 : -(l.arg(6) % 7))));
                std::vector<T> s(n);
                for (size_t k = 0; k < n; ++k) s[k] = value(l.arg(7) + int64_t(k));
                attempt([&] { x = s; });
                if (n >= M * N && how == OK) for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) EL(i, j) = s[i * N + j];
                verdict("assignment from std::vector", n < M * N);
                break;
            }
            case 21: case 22: {                                // from a range, perhaps shorter or longer
                const size_t n = size_t(wrap(l.arg(6) * 7 + l.arg(5), int64_t(M * N + 4)));
                std::vector<T> s(M * N + 8, T(123));
                for (size_t k = 0; k < n; ++k) s[k] = value(l.arg(7) + int64_t(k));
                const bool row_major = wrap(l.arg(3), 28) == 21;
                ranged(s, n, l.arg(7), [&](const Checked<T>& f, const Checked<T>& e) { x.set(f, e, row_major); }, [&](typename std::list<T>::iterator f, typename std::list<T>::iterator e) { x.set(f, e, row_major); },
                       [&](const T* f, const T* e) { x.set(f, e, row_major); });
                if (how == OK) for (size_t k = 0; k < n && k < M * N; ++k) { if (row_major) EL(k / N, k % N) = s[k]; else mx.array[k] = s[k]; }
                verdict("set from a range", false);
                break;
            }
            default: Minor<M, N>::go(*this, l);
        }
    }
    void quaternion(const Line& l) {
        typedef Quaternion<T> Q;
        Q& q = in<Q>(b, l.arg(4)); Q& mq = in<Q>(model, l.arg(4));
        const Q& cq = q;
        const size_t i = index(l.arg(5), 4, 3);
        const bool bad = i >= 4;
        const T val = value(l.arg(7));
        static const double divisors[] = {0, 1, -0.0, 2, 0, -4, 0.5, 1e-30, 0, 8};
        const T d = T(divisors[wrap(l.arg(6), 10)]);
        const bool zero = d == T(0);
        T got = 0;
        switch (wrap(l.arg(3), 9)) {
            case 8: {
                const size_t n = size_t(wrap(l.arg(5), 8));
                std::vector<T> s(n + 8, T(123));
                for (size_t k = 0; k < n; ++k) s[k] = value(l.arg(7) + int64_t(k));
                ranged(s, n, l.arg(7), [&](const Checked<T>& f, const Checked<T>& e) { q.iter_set(f, e); }, [&](typename std::list<T>::iterator f, typename std::list<T>::iterator e) { q.iter_set(f, e); },
                       [&](const T* f, const T* e) { q.iter_set(f, e); });
                if (how == OK) for (size_t k = 0; k < n && k < 4; ++k) mq.array[k] = s[k];
                verdict("Quaternion::iter_set", false);
                break;
            }
            case 0: attempt([&] { got = cq.at(i); }); if (!bad && how == OK && got != mq.array[i]) violate("value", "Quaternion::at"); verdict("Quaternion::at", bad); break;
            case 1: attempt([&] { q.at(i) = val; }); if (!bad && how == OK) mq.array[i] = val; verdict("Quaternion::at=", bad); break;
            case 2: attempt([&] { q(i) = val; }); if (!bad && how == OK) mq.array[i] = val; verdict("Quaternion()=", bad); break;
            case 3: attempt([&] { got = cq(i); }); if (!bad && how == OK && got != mq.array[i]) violate("value", "Quaternion()"); verdict("Quaternion()", bad); break;
            case 4: case 5: {
                Q t(T(9), T(9), T(9), T(9));
                attempt([&] { t = cq / d; });
                if (zero && how != OK) for (int k = 0; k < 4; ++k) if (t.array[k] != T(9)) violate("changed", "quaternion / 0");
                verdict("Quaternion / scalar", zero);
                break;
            }
            default:
                attempt([&] { q /= d; });
                // the quotient itself is C24's; here it only has to be a division
                if (!zero && how == OK) {
                    for (int k = 0; k < 4; ++k) {
                        const double e = double(mq.array[k]) / double(d);
                        if (std::isfinite(double(T(e))) && !(std::fabs(double(q.array[k]) - e) <= 1e-5 * std::fabs(e) + 1e-30)) violate("value", fmt("quaternion /= %g gave %g instead of %g", double(d), double(q.array[k]), e));
                    }
                    mq = q;
                }
                verdict("Quaternion /= scalar", zero);
                if (!zero) for (int k = 0; k < 4; ++k) q.array[k] = mq.array[k] = value(l.arg(7) + k);
        }
    }
    template <class U> void quat(const Line& l, U*) { quaternion(l); }
    void quat(const Line& l, int*) { vector<4>(l); }
    void step(const Line& l) {
        id = int(l.arg(0));
        fail = l.arg(8, -1);
        switch (wrap(l.arg(2), 12)) {
            case 0: vector<2>(l); break;
            case 1: vector<3>(l); break;
            case 2: vector<4>(l); break;
            case 3: vector<7>(l); break;
            case 4: matrix<2, 2>(l); break;
            case 5: matrix<3, 3>(l); break;
            case 6: matrix<4, 4>(l); break;
            case 7: matrix<3, 4>(l); break;
            case 8: matrix<4, 3>(l); break;
            case 9: case 10: matrix<7, 3>(l); break;
            default: quat(l, (T*)0);
        }
    }
    void start(uint64_t seed) {
        Filler<T> f(seed, 0);
        f.bank(b);
        f.tame(b);
        memcpy(static_cast<void*>(&model), static_cast<void*>(&b), sizeof b);
    }
};
static const Plan* plan;
struct Sims {
    Kept kept; Sim<float> f; Sim<double> d; Sim<int> i;
    Sims() { f.kept = d.kept = i.kept = &kept; f.start(1); d.start(2); i.start(3); }
    void step(const Line& l) {
        op_alloc_reset();
        switch (l.arg(1)) { case 0: f.step(l); break; case 1: d.step(l); break; default: i.step(l); }
        if (threads == 1 && op_outstanding() != 0) violate("memory-kept", fmt("operation %d left %d allocations behind", int(l.arg(0)), int(op_outstanding())));
    }
    int threads;
};
static int threads;
static void body(int t, void*) {
    Sims* s = new Sims;
    s->threads = threads;
    for (size_t k = 0; k < plan->lines.size(); ++k) {
        const Line& l = plan->lines[k];
        if (l.k == "op" && wrap(l.arg(9), threads) == t) s->step(l);
    }
    delete s;
}
static void twin_thread(int, void*) {
    Sims* s = new Sims;
    s->threads = 1;
    for (size_t k = plan->lines.size(); k-- > 0;) if (plan->lines[k].k == "op") s->step(plan->lines[k]);
    delete s;
}
static void twin_body(void*) {
    is_twin = true;
    load_switches(Plan());
    run_threads(1, twin_thread, 0);
}
void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    const int64_t n = r.range(2, tier ? 60 : 25), type = r.below(3), shape = r.below(12);
    const int badp = int(r.pick({20, 50, 80})), failp = int(r.pick({0, 0, 30}));
    const int64_t nt = r.pick({1, 1, 1, 2, 3});
    p.set("threads", nt);
    SwitchGen sg(r);
    for (int64_t i = 1; i <= n; ++i) {
        const int64_t t = r.below(nt);
        p.add("op", {i, r.chance(80) ? type : r.below(3), r.chance(50) ? shape : r.below(12), r.below(72), r.below(8),
                     r.chance(badp) ? r.range(12, 23) : r.below(12), r.chance(badp) ? r.range(12, 23) : r.below(12), r.below(1000), r.chance(failp) ? r.below(4) : -1, t});
        if (nt > 1) sg.gen(r, p, int(i), int(nt), int(t));
    }
}
void workload_exec(const Plan& p) {
    plan = &p;
    threads = int(std::max<int64_t>(1, std::min<int64_t>(4, p.get("threads", 1))));
    set_poison(int(p.get("poison", 0xA5)));
    texts = static_cast<Texts*>(shared_memory(sizeof(Texts)));
    twin_start(twin_body, 0);
    run_threads(threads, body, 0);
    twin_run();
    for (int i = 0; i < 128; ++i)
        if (texts->plain[i][0] && texts->alone[i][0] && strcmp(texts->plain[i], texts->alone[i]))
            violate("wrong-text", fmt("operation %d was rejected with '%s', in another order with '%s'", i, texts->plain[i], texts->alone[i]));
}
} // namespace sim
