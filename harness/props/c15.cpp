// C15: sparse-matrix and array helpers visit and produce every element exactly once
#include "pbt.hpp"
#include "numeric/dense.hpp"
#include "numeric/sparse.hpp"
#include "numeric/ellmatrix.hpp"
#include "numeric/arrayref.hpp"
#include "detail/algorithm.hpp"
#include "compute/kernel_polynomial.hpp"
#include "kpm/Starter.hpp"

#include <set>
#include <tuple>

using cpb::idx_t;
using cpb::storage_idx_t;
using cpb::SparseMatrixX;
using cpb::VectorX;
using cpb::MatrixX;
using cpb::ArrayX;

namespace {

/// Small integers (real and imaginary part): every sum and product below is exact
template<class T> struct Num {
    static T draw(pbt::Src& s) { return T(s.sym(9)); }
    static T nonzero(pbt::Src& s) { auto const x = s.range(1, 9); return T(s.chance(1, 2) ? -x : x); }
};
template<class T> struct Num<std::complex<T>> {
    static std::complex<T> draw(pbt::Src& s) { auto const re = T(s.sym(9)); return {re, T(s.sym(9))}; }
    static std::complex<T> nonzero(pbt::Src& s) { auto const re = T(s.range(1, 9)); return {re, T(s.sym(9))}; }
};
template<class T> T conj_of(T x) { return x; }
template<class T> std::complex<T> conj_of(std::complex<T> x) { return std::conj(x); }
template<class T> T norm2(T x) { return x * x; }
template<class T> std::complex<T> norm2(std::complex<T> x) { return std::norm(x); }

template<class T> struct Entry { int row, col; T value; };

template<class T>
std::vector<Entry<T>> gen_entries(pbt::Src& s, int rows, int cols) {
    auto r = std::vector<Entry<T>>();
    if (cols == 0) { return r; }
    auto const full = s.range(0, 4); // expected fill
    for (auto i = 0; i < rows; ++i) {
        if (s.chance(1, 4)) { continue; } // empty row
        for (auto j = 0; j < cols; ++j) {
            if (s.chance(1 + full * 2, 12)) { r.push_back({i, j, Num<T>::nonzero(s)}); }
        }
    }
    return r;
}

template<class T>
SparseMatrixX<T> build(pbt::Src& s, std::vector<Entry<T>> const& es, int rows, int cols, bool inserter) {
    auto m = SparseMatrixX<T>(rows, cols);
    if (!inserter) {
        auto t = std::vector<Eigen::Triplet<T>>();
        for (auto const& e : es) { t.emplace_back(e.row, e.col, e.value); }
        m.setFromTriplets(t.begin(), t.end());
        m.makeCompressed();
        return m;
    }
    // row by row, the columns of a row in any order, sometimes with more space than needed
    auto ins = cpb::compressed_inserter(m, idx_t(es.size()) + s.range(0, 3));
    auto const skip = s.chance(1, 2);
    auto k = size_t{0};
    for (auto i = 0; i < rows; ++i) {
        auto row = std::vector<Entry<T>>();
        while (k < es.size() && es[k].row == i) { row.push_back(es[k++]); }
        if (!skip) { ins.start_row(); }
        else if (!row.empty()) { ins.start_row(i); }
        while (!row.empty()) {
            auto const n = s.draw(row.size());
            ins.insert(row[n].col, row[n].value);
            row.erase(row.begin() + long(n));
        }
    }
    ins.compress();
    return m;
}

template<class T>
void check_structure(SparseMatrixX<T> const& m, std::vector<Entry<T>> const& es, int rows, int cols) {
    PBT_CHECK(m.rows() == rows && m.cols() == cols, "shape");
    PBT_CHECK(m.isCompressed(), "not compressed");
    PBT_CHECK(m.nonZeros() == idx_t(es.size()), m.nonZeros(), " elements stored, expected ", es.size());
    auto k = size_t{0};
    PBT_CHECK(m.outerIndexPtr()[0] == 0, "first row starts at ", m.outerIndexPtr()[0]);
    for (auto i = 0; i < rows; ++i) {
        for (auto n = m.outerIndexPtr()[i]; n < m.outerIndexPtr()[i + 1]; ++n, ++k) {
            PBT_CHECK(k < es.size() && n == int(k), "row ", i, " starts at the wrong place");
            PBT_CHECK(es[k].row == i && m.innerIndexPtr()[n] == es[k].col && m.valuePtr()[n] == es[k].value,
                      "element ", n, " is (", i, ", ", m.innerIndexPtr()[n], ") ", m.valuePtr()[n], " expected (", es[k].row, ", ",
                      es[k].col, ") ", es[k].value);
        }
    }
    PBT_CHECK(k == es.size(), "elements are missing");
}

template<class T>
void check_loops(pbt::Src& s, SparseMatrixX<T> const& m, std::vector<Entry<T>> const& es, int rows) {
    auto const loop = cpb::sparse::make_loop(m);
    auto same = [&](size_t k, idx_t row, idx_t col, T value) {
        return k < es.size() && es[k].row == row && es[k].col == col && es[k].value == value;
    };

    auto k = size_t{0};
    loop.for_each([&](idx_t row, idx_t col, T value) {
        PBT_CHECK(same(k, row, col, value), "for_each visits (", row, ", ", col, ") as element ", k);
        ++k;
    });
    PBT_CHECK(k == es.size(), "for_each visits ", k, " of ", es.size());

    k = 0;
    for (auto i = 0; i < rows; ++i) {
        loop.for_each_in_row(i, [&](idx_t col, T value) {
            PBT_CHECK(same(k, i, col, value), "for_each_in_row(", i, ") visits ", col);
            ++k;
        });
        PBT_CHECK(k == es.size() || es[k].row > i, "for_each_in_row(", i, ") misses elements");
    }
    k = 0;
    auto max_nnz = idx_t{0};
    for (auto i = 0; i < rows; ++i) {
        auto in_row = idx_t{0};
        for (auto it = cpb::sparse_row(m, i); it; ++it) {
            PBT_CHECK(same(k, it.row(), it.col(), it.value()), "sparse_row(", i, ") visits ", it.col());
            ++k; ++in_row;
        }
        max_nnz = std::max(max_nnz, in_row);
    }
    PBT_CHECK(k == es.size(), "sparse_row visits ", k, " of ", es.size());
    PBT_CHECK(cpb::sparse::max_nnz_per_row(m) == max_nnz, "max_nnz_per_row ", cpb::sparse::max_nnz_per_row(m), " expected ", max_nnz);

    // in buffers of any size, each of which can be visited again from the position that is reported
    auto const buffer = s.chance(1, 4) ? idx_t(std::max<size_t>(1, es.size())) : idx_t(s.range(1, 7));
    k = 0;
    auto done = size_t{0};
    auto flushes = 0;
    loop.buffered_for_each(
        buffer,
        [&](idx_t row, idx_t col, T value, idx_t n) {
            PBT_CHECK(same(k, row, col, value), "buffered_for_each visits (", row, ", ", col, ") as element ", k);
            PBT_CHECK(n == idx_t(k - done) && n < buffer, "element ", k, " is at ", n, " in the buffer of ", buffer, " (", k - done, " filled)");
            ++k;
        },
        [&](idx_t outer, idx_t data, idx_t size) {
            ++flushes;
            PBT_CHECK(size == idx_t(k - done) && size <= buffer, "buffer of ", buffer, " holds ", k - done, ", reported ", size);
            PBT_CHECK(data == idx_t(done), "buffer starts at element ", done, ", reported ", data);
            PBT_CHECK(k == es.size() || size == buffer, "incomplete buffer of ", size);
            auto j = done;
            loop.slice_for_each(outer, data, size, [&](idx_t row, idx_t col, T value, idx_t n) {
                PBT_CHECK(same(j, row, col, value) && n == idx_t(j - done), "slice_for_each(", outer, ", ", data, ", ", size, ") visits (",
                          row, ", ", col, ") as iteration ", n, ", element ", j);
                ++j;
            });
            PBT_CHECK(j == k, "slice_for_each(", outer, ", ", data, ", ", size, ") visits ", j - done);
            done = k;
        });
    PBT_CHECK(done == es.size(), "buffers hold ", done, " of ", es.size());
    PBT_CHECK(flushes >= 1, "the buffer is never processed");

    // from any element on, for any length
    if (!es.empty()) {
        auto const from = s.draw(es.size());
        auto const count = idx_t(s.range(0, int(es.size()) + 2));
        auto j = size_t{from};
        loop.slice_for_each(es[from].row, idx_t(from), count, [&](idx_t row, idx_t col, T value, idx_t n) {
            PBT_CHECK(same(j, row, col, value) && n == idx_t(j - from), "slice_for_each from ", from, " visits (", row, ", ", col, ")");
            ++j;
        });
        PBT_CHECK(idx_t(j - from) == std::min(count, idx_t(es.size() - from)), "slice_for_each from ", from, " for ", count, " visits ", j - from);
    }
}

template<class T>
void check_formats(pbt::Src& s, SparseMatrixX<T> const& m, std::vector<Entry<T>> const& es, int rows, int cols) {
    auto dense = std::vector<std::vector<T>>(size_t(rows), std::vector<T>(size_t(cols), T{0}));
    auto nnz = std::vector<int>(size_t(rows), 0);
    for (auto const& e : es) { dense[size_t(e.row)][size_t(e.col)] = e.value; ++nnz[size_t(e.row)]; }

    auto const csr = cpb::csrref(m);
    PBT_CHECK(csr.rows == rows && csr.cols == cols && csr.nnz == int(es.size()) && csr.data() == m.valuePtr()
              && csr.indices == m.innerIndexPtr() && csr.indptr == m.outerIndexPtr(), "csrref does not describe the matrix");
    auto const any = cpb::num::AnyCsrConstRef(csr);
    PBT_CHECK(any.tag == cpb::num::detail::get_tag<T>() && any.data_ref().size() == idx_t(es.size())
              && any.indices_ref().size() == idx_t(es.size()) && any.indptr_ref().size() == rows + 1
              && any.data_ref().data == m.valuePtr() && any.indices_ref().data == m.innerIndexPtr()
              && any.indptr_ref().data == m.outerIndexPtr(), "tagged CSR reference");

    auto const ell = cpb::num::csr_to_ell(m);
    PBT_CHECK(ell.rows() == rows && ell.cols() == cols, "ELL shape");
    PBT_CHECK(ell.nnz_per_row >= cpb::sparse::max_nnz_per_row(m), "ELL width ", ell.nnz_per_row);
    PBT_CHECK(ell.nonZeros() == rows * ell.nnz_per_row, "ELL size ", ell.nonZeros());
    auto check_visit = [&](idx_t start, idx_t end, char const* name, std::vector<std::tuple<idx_t, idx_t, T>> const& seen) {
        auto got = std::vector<std::vector<T>>(size_t(rows), std::vector<T>(size_t(cols), T{0}));
        auto count = std::vector<int>(size_t(rows), 0), slots = count;
        for (auto const& x : seen) {
            auto const row = std::get<0>(x), col = std::get<1>(x);
            PBT_CHECK(row >= start && row < end, name, " visits row ", row, " of ", start, "-", end);
            PBT_CHECK(col >= 0 && col < cols, name, " visits column ", col, " of ", cols);
            got[size_t(row)][size_t(col)] += std::get<2>(x);
            if (std::get<2>(x) != T{0}) { ++count[size_t(row)]; }
            ++slots[size_t(row)];
        }
        for (auto i = start; i < end; ++i) {
            PBT_CHECK(got[size_t(i)] == dense[size_t(i)], name, ": row ", i, " has other values");
            PBT_CHECK(count[size_t(i)] == nnz[size_t(i)], name, ": row ", i, " has ", count[size_t(i)], " elements of ", nnz[size_t(i)]);
            PBT_CHECK(slots[size_t(i)] == ell.nnz_per_row, name, ": row ", i, " visited ", slots[size_t(i)], " times");
        }
    };
    auto seen = std::vector<std::tuple<idx_t, idx_t, T>>();
    if (cols > 0) {
        ell.for_each([&](idx_t row, idx_t col, T v) { seen.emplace_back(row, col, v); });
        check_visit(0, rows, "for_each", seen);
        auto const start = idx_t(s.range(0, rows)), end = start + idx_t(s.range(0, rows - int(start)));
        seen.clear();
        ell.for_slice(start, end, [&](idx_t row, idx_t col, T v) { seen.emplace_back(row, col, v); });
        check_visit(start, end, "for_slice", seen);
    }
    auto const ref = cpb::num::ellref(ell);
    PBT_CHECK(ref.rows == rows && ref.cols == cols && ref.nnz_per_row == ell.nnz_per_row && ref.data() == ell.data.data()
              && ref.indices == ell.indices.data() && ref.pitch >= rows && ref.pitch == ell.indices.rows(), "ellref");
    PBT_CHECK(ref.size() == ref.pitch * ref.nnz_per_row, "ellref size");
    for (auto n = 0; n < ref.nnz_per_row; ++n) {
        for (auto i = 0; i < rows; ++i) {
            PBT_CHECK(ref.data()[n * ref.pitch + i] == ell.data(i, n) && ref.indices[n * ref.pitch + i] == ell.indices(i, n),
                      "ellref: slot ", n, " of row ", i);
        }
    }
}

template<class T> bool in(idx_t i, idx_t start, idx_t end) { return i >= start && i < end; }

template<class T, class Matrix>
void check_vector_products(pbt::Src& s, Matrix const& m, std::vector<Entry<T>> const& es, int size, char const* format) {
    auto draw = [&] { auto v = VectorX<T>(size); for (auto i = 0; i < size; ++i) { v[i] = Num<T>::draw(s); } return v; };
    auto const x = draw(), y0 = draw();
    auto mx = std::vector<T>(size_t(size), T{0});
    for (auto const& e : es) { mx[size_t(e.row)] += e.value * x[e.col]; }

    auto const start = idx_t(s.chance(1, 2) ? 0 : s.range(0, size));
    auto const end = s.chance(1, 3) ? idx_t(size) : start + idx_t(s.range(0, size - int(start)));
    auto check_y = [&](VectorX<T> const& y, char const* name) {
        for (auto i = idx_t{0}; i < size; ++i) {
            auto const expected = in<T>(i, start, end) ? mx[size_t(i)] - y0[i] : y0[i];
            PBT_CHECK(y[i] == expected, format, " ", name, " rows ", start, "-", end, ": y[", i, "] is ", y[i], " expected ", expected);
        }
    };
    auto y = VectorX<T>(y0);
    cpb::compute::kpm_spmv(start, end, m, x, y);
    check_y(y, "product");

    y = y0;
    auto const m2_0 = T(s.range(0, 3)), m3_0 = Num<T>::draw(s);
    auto m2 = m2_0, m3 = m3_0;
    cpb::compute::kpm_spmv_diagonal(start, end, m, x, y, m2, m3);
    check_y(y, "product with sums");
    auto e2 = m2_0, e3 = m3_0;
    for (auto i = start; i < end; ++i) { e2 += norm2(x[i]); e3 += conj_of(mx[size_t(i)] - y0[i]) * x[i]; }
    PBT_CHECK(m2 == e2, format, " rows ", start, "-", end, ": <x|x> is ", m2, " expected ", e2);
    PBT_CHECK(m3 == e3, format, " rows ", start, "-", end, ": <y|x> is ", m3, " expected ", e3);

    auto const r1 = cpb::kpm::make_r1(m, x);
    PBT_CHECK(r1.size() == size, format, " make_r1: size ", r1.size());
    for (auto i = 0; i < size; ++i) {
        PBT_CHECK(r1[i] == mx[size_t(i)] * T(0.5), format, " make_r1[", i, "] is ", r1[i], " expected ", mx[size_t(i)] * T(0.5));
    }
}

template<class T, class Matrix>
void check_batch_products(pbt::Src& s, Matrix const& m, std::vector<Entry<T>> const& es, int size, char const* format) {
    constexpr auto cols = int(cpb::simd::traits<T>::size);
    auto draw = [&] {
        auto v = MatrixX<T>(size, cols);
        for (auto i = 0; i < size; ++i) { for (auto j = 0; j < cols; ++j) { v(i, j) = Num<T>::draw(s); } }
        return v;
    };
    auto const x = draw(), y0 = draw();
    auto mx = MatrixX<T>(MatrixX<T>::Zero(size, cols));
    for (auto const& e : es) { for (auto j = 0; j < cols; ++j) { mx(e.row, j) += e.value * x(e.col, j); } }

    auto const start = idx_t(s.chance(1, 2) ? 0 : s.range(0, size));
    auto const end = s.chance(1, 3) ? idx_t(size) : start + idx_t(s.range(0, size - int(start)));
    auto check_y = [&](MatrixX<T> const& y, char const* name) {
        for (auto i = idx_t{0}; i < size; ++i) {
            for (auto j = 0; j < cols; ++j) {
                auto const expected = in<T>(i, start, end) ? mx(i, j) - y0(i, j) : y0(i, j);
                PBT_CHECK(y(i, j) == expected, format, " batch ", name, " rows ", start, "-", end, ": y(", i, ", ", j, ") is ", y(i, j),
                          " expected ", expected);
            }
        }
    };
    auto y = MatrixX<T>(y0);
    cpb::compute::kpm_spmv(start, end, m, x, y);
    check_y(y, "product");

    y = y0;
    auto m2 = cpb::simd::array<T>(), m3 = m2, e2 = m2, e3 = m2;
    for (auto j = size_t{0}; j < size_t(cols); ++j) {
        m2[j] = e2[j] = T(s.range(0, 3));
        m3[j] = e3[j] = Num<T>::draw(s);
        for (auto i = start; i < end; ++i) {
            e2[j] += norm2(x(i, idx_t(j)));
            e3[j] += conj_of(mx(i, idx_t(j)) - y0(i, idx_t(j))) * x(i, idx_t(j));
        }
    }
    cpb::compute::kpm_spmv_diagonal(start, end, m, x, y, m2, m3);
    check_y(y, "product with sums");
    for (auto j = size_t{0}; j < size_t(cols); ++j) {
        PBT_CHECK(m2[j] == e2[j], format, " batch rows ", start, "-", end, ": <x|x> of column ", j, " is ", m2[j], " expected ", e2[j]);
        PBT_CHECK(m3[j] == e3[j], format, " batch rows ", start, "-", end, ": <y|x> of column ", j, " is ", m3[j], " expected ", e3[j]);
    }

    auto const r1 = cpb::kpm::make_r1(m, x);
    PBT_CHECK(r1.rows() == size && r1.cols() == cols, format, " make_r1: shape");
    for (auto i = 0; i < size; ++i) {
        for (auto j = 0; j < cols; ++j) {
            PBT_CHECK(r1(i, j) == mx(i, j) * T(0.5), format, " make_r1(", i, ", ", j, ") is ", r1(i, j), " expected ", mx(i, j) * T(0.5));
        }
    }
}

template<class T>
void sparse_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto const large = ctx.thorough && s.chance(1, 10);
    auto const rows = s.range(0, large ? 60 : 14);
    auto const square = s.chance(2, 3);
    auto const cols = square ? rows : s.range(0, large ? 60 : 14);
    auto const es = gen_entries<T>(s, rows, cols);
    auto const inserter = s.chance(1, 2);
    ctx.describe([&](std::ostream& os) {
        os << rows << "x" << cols << " " << cpb::num::scalar_name<T>() << (inserter ? " inserted" : " from triplets") << ":";
        for (auto const& e : es) { os << " (" << e.row << "," << e.col << ")=" << e.value; }
        os << "\n";
    });
    auto const m = build(s, es, rows, cols, inserter);
    check_structure(m, es, rows, cols);
    check_loops(s, m, es, rows);
    check_formats(s, m, es, rows, cols);
    if (square && rows > 0) {
        check_vector_products(s, m, es, rows, "CSR");
        check_batch_products(s, m, es, rows, "CSR");
        auto const ell = cpb::num::csr_to_ell(m);
        check_vector_products(s, ell, es, rows, "ELL");
        check_batch_products(s, ell, es, rows, "ELL");
    }

    // cast to every scalar type: precision and imaginary part may be lost, nothing else
    auto const wide = SparseMatrixX<std::complex<double>>(m.template cast<std::complex<double>>());
    auto check_cast = [&](auto tag) {
        using U = decltype(tag);
        auto const c = cpb::num::force_cast<U>(wide);
        PBT_CHECK(c.rows() == rows && c.cols() == cols && c.nonZeros() == idx_t(es.size()), "cast to ", cpb::num::scalar_name<U>(), ": shape");
        auto k = size_t{0};
        cpb::sparse::make_loop(SparseMatrixX<U>(c)).for_each([&](idx_t row, idx_t col, U v) {
            PBT_CHECK(k < es.size() && es[k].row == row && es[k].col == col
                      && v == cpb::num::force_cast<U>(std::complex<double>(es[k].value)), "cast to ", cpb::num::scalar_name<U>(), ": element ", k);
            ++k;
        });
    };
    check_cast(float{}); check_cast(double{}); check_cast(std::complex<float>{}); check_cast(std::complex<double>{});
    ctx.nontrivial = es.size() >= 2 && rows >= 2;
    ctx.label("sparse");
    ctx.label(es.empty(), "matrix without elements");
    ctx.label(rows == 0 || cols == 0, "matrix without rows or columns");
}

template<class T>
void array_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto gen = [&](int max) { auto v = std::vector<T>(size_t(s.range(0, max))); for (auto& x : v) { x = Num<T>::draw(s); } return v; };
    auto eig = [](std::vector<T> const& v) { auto a = ArrayX<T>(idx_t(v.size())); std::copy(v.begin(), v.end(), a.data()); return a; };
    auto back = [](ArrayX<T> const& a) { return std::vector<T>(a.data(), a.data() + a.size()); };
    auto const a = gen(9), b = gen(9);
    ctx.describe([&](std::ostream& os) {
        os << "arrays of " << cpb::num::scalar_name<T>() << ":";
        for (auto x : a) { os << " " << x; }
        os << " |";
        for (auto x : b) { os << " " << x; }
        os << "\n";
    });
    auto both = a;
    both.insert(both.end(), b.begin(), b.end());
    PBT_CHECK(back(cpb::concat(eig(a), eig(b))) == both, "concat");
    auto const mapped = cpb::eigen_cast<ArrayX>(a);
    PBT_CHECK(mapped.size() == idx_t(a.size()) && std::equal(a.begin(), a.end(), mapped.data()), "eigen_cast");

    auto keep = ArrayX<bool>(idx_t(a.size()));
    auto kept = std::vector<T>();
    for (auto i = size_t{0}; i < a.size(); ++i) { keep[idx_t(i)] = s.chance(1, 2); if (keep[idx_t(i)]) { kept.push_back(a[i]); } }
    PBT_CHECK(back(cpb::slice(eig(a), keep)) == kept, "slice");
    auto const vkeep = std::vector<bool>(keep.data(), keep.data() + keep.size());
    PBT_CHECK(cpb::slice(a, vkeep) == kept, "slice of a std::vector");

    auto const step = idx_t(s.range(1, 11));
    auto joined = std::vector<T>();
    auto pieces = idx_t{0};
    for (auto const& piece : cpb::sliced(a, step)) {
        auto n = idx_t{0};
        for (auto const& x : piece) { joined.push_back(x); ++n; }
        ++pieces;
        PBT_CHECK(n == step || (joined.size() == a.size() && n > 0), "piece ", pieces, " has ", n, " of ", step);
    }
    PBT_CHECK(joined == a, "pieces do not make up the whole");
    PBT_CHECK(pieces == (idx_t(a.size()) + step - 1) / step, pieces, " pieces of ", step, " from ", a.size());

    auto const twice = cpb::transform<ArrayX>(a, [](T x) { return x + x; });
    PBT_CHECK(twice.size() == idx_t(a.size()), "transform: size");
    for (auto i = size_t{0}; i < a.size(); ++i) { PBT_CHECK(twice[idx_t(i)] == a[i] + a[i], "transform: element ", i); }

    auto total = T{0};
    for (auto x : a) { total += x; }
    if (!a.empty()) { PBT_CHECK(cpb::sum(eig(a)) == total, "sum"); }

    auto const n = s.range(0, 40);
    auto const ns = cpb::make_integer_range<T>(n);
    PBT_CHECK(ns.size() == n, "make_integer_range(", n, "): size ", ns.size());
    for (auto i = 0; i < n; ++i) { PBT_CHECK(ns[i] == T(i), "make_integer_range[", i, "]"); }

    auto check_aligned = [&](int got, int bytes) {
        auto const per = bytes / int(sizeof(T));
        PBT_CHECK(got >= n && got % per == 0 && got - n < per, "aligned_size<", sizeof(T), " bytes, ", bytes, ">(", n, ") is ", got);
    };
    check_aligned(cpb::num::aligned_size<T, 16>(n), 16);
    check_aligned(cpb::num::aligned_size<T, 32>(n), 32);
    check_aligned(cpb::num::aligned_size<T, 64>(n), 64);

    // positions
    using cpb::CartesianArray;
    auto cart = [&](std::vector<T> const& v) {
        auto c = CartesianArray(idx_t(v.size()));
        for (auto i = size_t{0}; i < v.size(); ++i) { c[idx_t(i)] = cpb::Cartesian(float(std::real(v[i])), float(i), float(i * i)); }
        return c;
    };
    auto const ca = cart(a), cb = cart(b);
    auto same_at = [](CartesianArray const& l, idx_t i, CartesianArray const& r, idx_t j) { return cpb::Cartesian(l[i]) == cpb::Cartesian(r[j]); };
    auto const cc = cpb::concat(ca, cb);
    PBT_CHECK(cc.size() == ca.size() + cb.size(), "concat of positions: size");
    for (auto i = idx_t{0}; i < cc.size(); ++i) {
        PBT_CHECK(i < ca.size() ? same_at(cc, i, ca, i) : same_at(cc, i, cb, i - ca.size()), "concat of positions: element ", i);
    }
    auto seg = ca;
    auto const from = s.range(0, int(a.size())), len = s.range(0, int(a.size()) - from);
    auto r = seg.segment(from, len);
    PBT_CHECK(r.size() == len, "segment: size");
    for (auto i = 0; i < len; ++i) {
        PBT_CHECK(r.x()[i] == ca.x[from + i] && r.y()[i] == ca.y[from + i] && r.z()[i] == ca.z[from + i], "segment: element ", i);
        r.x()[i] = 100; r.y()[i] = 200; r.z()[i] = 300;
    }
    for (auto i = idx_t{0}; i < seg.size(); ++i) {
        auto const changed = i >= from && i < from + len;
        PBT_CHECK(changed ? (seg.x[i] == 100 && seg.y[i] == 200 && seg.z[i] == 300)
                          : same_at(seg, i, ca, i), "writing to a segment: element ", i);
    }
    auto const hd = cpb::CartesianArrayConstRef(ca.head(len));
    PBT_CHECK(hd.size() == len && (len == 0 || hd.z()[len - 1] == ca.z[len - 1]), "head");
    auto kc = ca;
    kc.conservativeResize(idx_t(len));
    PBT_CHECK(kc.size() == len, "conservativeResize: size");
    for (auto i = 0; i < len; ++i) { PBT_CHECK(same_at(kc, i, ca, i), "conservativeResize: element ", i); }

    ctx.nontrivial = a.size() >= 2 && b.size() >= 1;
    ctx.label("arrays");
}

/// Type-erased references
template<class T> using CMArray = cpb::ColMajorArrayXX<T>;
template<class T> using RMArray = cpb::ArrayXX<T>;

struct Rejected {};

template<class V> struct TagOf;
template<class Derived> int scalar_id(Derived const&) {
    using S = typename Derived::Scalar;
    return int(cpb::num::detail::get_tag<S>());
}

template<class T, class U>
void ref_case(pbt::Src& s, pbt::Ctx& ctx) {
    using namespace cpb;
    auto const n = s.range(0, 6), k = s.range(0, 5);
    auto v = ArrayX<T>(n);
    auto w = ArrayX<U>(k);
    for (auto i = 0; i < n; ++i) { v[i] = Num<T>::draw(s); }
    for (auto i = 0; i < k; ++i) { w[i] = Num<U>::draw(s); }
    auto const rows = s.range(0, 4), cols = s.range(0, 4);
    auto mat = MatrixX<T>(rows, cols);
    auto cm = CMArray<T>(rows, cols);
    for (auto i = 0; i < rows; ++i) { for (auto j = 0; j < cols; ++j) { cm(i, j) = mat(i, j) = Num<T>::draw(s); } }
    ctx.describe([&](std::ostream& os) {
        os << "references to " << n << " x " << num::scalar_name<T>() << ", " << k << " x " << num::scalar_name<U>() << ", "
           << rows << "x" << cols << "\n";
    });
    auto const tag_t = num::detail::get_tag<T>(), tag_u = num::detail::get_tag<U>();
    constexpr auto complex_t = num::is_complex<T>();

    // what the reference says about the array
    auto check_ref = [&](ArrayConstRef const& r, void const* data, int ndim, idx_t x, idx_t y, bool rm, char const* name) {
        PBT_CHECK(r.data == data && r.tag == tag_t && r.ndim == ndim && r.shape[0] == x && (ndim < 2 || r.shape[1] == y)
                  && (ndim < 2 || r.is_row_major == rm), name, ": dimensions ", int(r.ndim), " shape ", r.shape[0], " ", r.shape[1]);
        PBT_CHECK(r.size() == (ndim == 1 ? x : x * y), name, ": size ", r.size());
    };
    auto const& cv = v; auto const& cmat = mat; auto const& ccm = cm;
    check_ref(arrayref(cv), v.data(), 1, n, 0, true, "const array");
    check_ref(arrayref(v), v.data(), 1, n, 0, true, "array");
    check_ref(arrayref(v.data(), n), v.data(), 1, n, 0, true, "pointer");
    check_ref(arrayref(cmat), mat.data(), 2, rows, cols, true, "const matrix");
    check_ref(arrayref(mat), mat.data(), 2, rows, cols, true, "matrix");
    check_ref(arrayref(ccm), cm.data(), 2, rows, cols, false, "const column-major array");
    check_ref(arrayref(cm), cm.data(), 2, rows, cols, false, "column-major array");
    check_ref(arrayref(mat.data(), rows, cols), mat.data(), 2, rows, cols, true, "2D pointer");
    auto const cube = arrayref(v.data(), idx_t(2), idx_t(3), idx_t(4));
    PBT_CHECK(cube.ndim == 3 && cube.size() == 24 && cube.shape[0] == 2 && cube.shape[1] == 3 && cube.shape[2] == 4, "3D pointer");
    auto sv = std::vector<T>(v.data(), v.data() + n);
    check_ref(ArrayConstRef(arrayref(sv)), sv.data(), 1, n, 0, true, "std::vector");

    // limited references take the scalar types in their list and no other
    auto accepts = [](auto make) { try { make(); return true; } catch (std::runtime_error const&) { return false; } };
    PBT_CHECK(accepts([&] { RealArrayRef(arrayref(v)); }) == !complex_t, "real reference to ", num::scalar_name<T>());
    PBT_CHECK(accepts([&] { RealArrayConstRef(arrayref(cv)); }) == !complex_t, "real const reference to ", num::scalar_name<T>());
    PBT_CHECK(accepts([&] { ComplexArrayRef(arrayref(v)); }), "complex reference to ", num::scalar_name<T>());
    PBT_CHECK(accepts([&] { ComplexArrayConstRef(arrayref(cv)); }), "complex const reference to ", num::scalar_name<T>());
    auto ints = ArrayXi(ArrayXi::Zero(3));
    PBT_CHECK(!accepts([&] { ComplexArrayRef(arrayref(ints)); }), "complex reference to integers");
    PBT_CHECK(!accepts([&] { RealArrayConstRef(arrayref(ints)); }), "real const reference to integers");

    // dispatch to the type of the element
    auto calls = 0;
    auto check_match = [&](auto const& a, void const* data, idx_t size) {
        ++calls;
        PBT_CHECK(scalar_id(a) == int(tag_t), "dispatched to another type");
        PBT_CHECK(static_cast<void const*>(a.data()) == data && a.size() == size, "dispatched to another array");
    };
    num::match<ArrayX>(ComplexArrayConstRef(arrayref(cv)), [&](auto a) { check_match(a, v.data(), n); });
    num::match<VectorX>(ComplexArrayRef(arrayref(v)), [&](auto a) { check_match(a, v.data(), n); });
    num::match<MatrixX>(ComplexArrayConstRef(arrayref(cmat)), [&](auto a) {
        check_match(a, mat.data(), rows * cols);
        PBT_CHECK(a.rows() == rows && a.cols() == cols, "matrix shape");
    });
    PBT_CHECK(calls == 3, "match calls the function ", calls, " times");
    num::match<ArrayX>(ComplexArrayRef(arrayref(v)), [&](auto a) { a += typename decltype(a)::Scalar(1); });
    for (auto i = 0; i < n; ++i) { PBT_CHECK(v[i] == sv[size_t(i)] + T(1), "writing to element ", i, " through a reference"); }

    // two references
    calls = 0;
    auto check_pair = [&](auto const& a, auto const& b) {
        ++calls;
        PBT_CHECK(scalar_id(a) == int(tag_t) && scalar_id(b) == int(tag_u), "match2 dispatched to other types");
        PBT_CHECK(static_cast<void const*>(a.data()) == v.data() && a.size() == n && static_cast<void const*>(b.data()) == w.data()
                  && b.size() == k, "match2 dispatched to other arrays");
    };
    auto const& cw = w;
    num::match2<ArrayX, VectorX>(ComplexArrayRef(arrayref(v)), ComplexArrayConstRef(arrayref(cw)), [&](auto a, auto b) { check_pair(a, b); });
    PBT_CHECK(calls == 1, "match2 calls the function ", calls, " times");
    calls = 0;
    constexpr auto same_precision = std::is_same<num::get_real_t<T>, num::get_real_t<U>>::value;
    auto const matched = accepts([&] {
        num::match2sp<ArrayX, ArrayX>(ComplexArrayRef(arrayref(v)), ComplexArrayConstRef(arrayref(cw)), [&](auto a, auto b) { check_pair(a, b); });
    });
    PBT_CHECK(matched == same_precision && calls == int(same_precision), "match2sp of ", num::scalar_name<T>(), " and ", num::scalar_name<U>());

    // casts
    auto const z = std::complex<double>(s.sym(9), s.sym(9));
    auto const zm = MatrixX<std::complex<double>>(MatrixX<std::complex<double>>::Constant(rows, cols, z));
    auto const zv = VectorX<std::complex<double>>(VectorX<std::complex<double>>::Constant(n, z));
    auto const fz = num::force_cast<T>(z);
    PBT_CHECK(std::real(fz) == z.real() && std::imag(fz) == (complex_t ? z.imag() : 0), "cast of ", z, " to ", num::scalar_name<T>(), " is ", fz);
    PBT_CHECK(num::conjugate(fz) == conj_of(fz), "conjugate");
    auto const fm = num::force_cast<T>(zm);
    auto const fv = num::force_cast<T>(zv);
    PBT_CHECK(fm.rows() == rows && fm.cols() == cols && (fm.array() == fz).all() && fv.size() == n && (fv.array() == fz).all(), "cast of arrays");

    ctx.nontrivial = n >= 1 && k >= 1;
    ctx.label("references");
}

template<class R>
void equality_case(pbt::Src& s, pbt::Ctx& ctx) {
    auto const x = R(s.sym(1000)) / R(7) * std::pow(R(2), R(s.range(-20, 20)));
    auto const ulps = s.range(1, 8);
    auto const steps = s.range(0, 40);
    auto y = x;
    for (auto i = 0; i < steps; ++i) { y = std::nextafter(y, R(1e30)); }
    ctx.describe([&](std::ostream& os) { os.precision(18); os << "approx_equal(" << x << ", " << steps << " steps further, " << ulps << ")\n"; });
    auto const got = cpb::num::approx_equal(x, y, ulps);
    PBT_CHECK(got == cpb::num::approx_equal(y, x, ulps), "approx_equal is not symmetric");
    if (steps <= ulps) { PBT_CHECK(got, "equal up to ", steps, " ulp, not accepted with ", ulps); }
    // one unit in the last place is between eps/2 and eps of the value, and the sum is about twice the value
    if (steps > 4 * ulps + 1) { PBT_CHECK(x == 0 || !got, "different by ", steps, " ulp, accepted with ", ulps); }
    if (x != 0) { PBT_CHECK(!cpb::num::approx_equal(x, -x, ulps), "a number equals its opposite"); }
    ctx.nontrivial = steps > 0;
    ctx.label("approximate equality");
}

template<class T>
void run_type(pbt::Src& s, pbt::Ctx& ctx, int kind) {
    switch (kind) {
        case 0: return sparse_case<T>(s, ctx);
        case 1: return array_case<T>(s, ctx);
        default:
            switch (s.range(0, 3)) {
                case 0: return ref_case<T, float>(s, ctx);
                case 1: return ref_case<T, double>(s, ctx);
                case 2: return ref_case<T, std::complex<float>>(s, ctx);
                default: return ref_case<T, std::complex<double>>(s, ctx);
            }
    }
}

void run(pbt::Src& s, pbt::Ctx& ctx) {
    auto const kind = s.pick<int>({0, 0, 0, 0, 1, 2, 3});
    if (kind == 3) { return s.chance(1, 2) ? equality_case<double>(s, ctx) : equality_case<float>(s, ctx); }
    switch (s.range(0, 3)) {
        case 0: return run_type<float>(s, ctx, kind);
        case 1: return run_type<double>(s, ctx, kind);
        case 2: return run_type<std::complex<float>>(s, ctx, kind);
        default: return run_type<std::complex<double>>(s, ctx, kind);
    }
}

} // anonymous namespace

namespace pbt {
Property const property = {
    "C15",
    "a sparse matrix with at least two rows and two stored elements, arrays with at least two and one elements, references to non-empty "
    "arrays, or numbers that differ by at least one unit in the last place",
    400000, 8000000, run,
    {"Values are small integers, so that every sum is exact and results are compared for equality.",
     "The vectorised code runs on a stand-in for libsimdpp (harness/shim), compiled for no, SSE2, AVX and AVX2+FMA instructions."}
};
} // namespace pbt
