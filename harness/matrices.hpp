// Random sparse Hermitian matrices of all four scalar types
#pragma once
#include "pbt.hpp"
#include "hamiltonian/Hamiltonian.hpp"
#include <Eigen/Dense>
#include <algorithm>
#include <complex>

namespace herm {

using cpb::idx_t;
using cd = std::complex<double>;
using Dense = Eigen::MatrixXcd;

template<class T> struct make_value { static T from(cd v) { return static_cast<T>(v.real()); } };
template<class R> struct make_value<std::complex<R>> {
    static std::complex<R> from(cd v) { return {static_cast<R>(v.real()), static_cast<R>(v.imag())}; }
};

struct Matrix {
    Dense values;                       ///< exact in single precision
    Eigen::MatrixXi stored;             ///< 1 where the sparse matrix has an element (possibly zero)
    bool is_complex = false, is_double = false;
    std::string kind;
    int size() const { return static_cast<int>(values.rows()); }

    template<class T> cpb::SparseMatrixX<T> sparse() const {
        auto m = cpb::SparseMatrixX<T>(size(), size());
        auto triplets = std::vector<Eigen::Triplet<T>>();
        for (auto i = 0; i < size(); ++i) {
            for (auto j = 0; j < size(); ++j) {
                if (stored(i, j)) { triplets.emplace_back(i, j, make_value<T>::from(values(i, j))); }
            }
        }
        m.setFromTriplets(triplets.begin(), triplets.end());
        m.makeCompressed();
        return m;
    }
    template<class T> cpb::Hamiltonian make() const { return std::make_shared<cpb::SparseMatrixX<T>>(sparse<T>()); }
    cpb::Hamiltonian hamiltonian() const {
        return is_complex ? (is_double ? make<std::complex<double>>() : make<std::complex<float>>())
                          : (is_double ? make<double>() : make<float>());
    }
    long nnz() const { return stored.sum(); }
    double epsilon() const { return is_double ? 2.3e-16 : 1.2e-7; }

    friend std::ostream& operator<<(std::ostream& os, Matrix const& m) {
        os << m.kind << ", " << m.size() << " rows, " << (m.is_double ? "double" : "single") << (m.is_complex ? " complex" : " real") << ":\n";
        for (auto i = 0; i < m.size(); ++i) {
            for (auto j = 0; j < m.size(); ++j) {
                if (m.stored(i, j)) { os << " (" << i << "," << j << ")=" << m.values(i, j).real(); if (m.values(i, j).imag() != 0) { os << "+" << m.values(i, j).imag() << "i"; } }
            }
            os << "\n";
        }
        return os;
    }
};

struct Options { int max_size = 16; int min_size = 1; bool allow_shift = true; };

/// Chains, rings, ladders, stars, trees, random graphs and unions of them, with any diagonal
inline Matrix generate(pbt::Src& s, Options const& o = {}) {
    auto m = Matrix();
    m.is_complex = s.chance(1, 2);
    m.is_double = s.chance(1, 2);
    auto const n = s.range(o.min_size, o.max_size);
    m.values = Dense::Zero(n, n);
    m.stored = Eigen::MatrixXi::Zero(n, n);
    auto order = std::vector<int>();
    for (auto i = 0; i < n; ++i) { order.push_back(i); }
    if (s.chance(1, 2)) { for (auto i = n - 1; i > 0; --i) { std::swap(order[size_t(i)], order[size_t(s.range(0, i))]); } }

    auto const uniform = s.chance(1, 3); // all the same: many degenerate eigenvalues
    auto const scale = s.pick({1.0, 1.0, 1.0, 0.125, 64.0});
    auto value = [&]() -> cd {
        if (uniform) { return scale; }
        auto const re = s.sym(16) / 8.0, im = m.is_complex ? s.sym(16) / 8.0 : 0.0;
        if (re == 0 && im == 0) { return s.chance(1, 8) ? cd{0, 0} : cd{scale, 0}; }
        return cd{re, im} * scale;
    };
    auto connect = [&](int a, int b) {
        a = order[size_t(a)]; b = order[size_t(b)];
        if (a == b || m.stored(a, b)) { return; }
        auto const v = value();
        m.values(a, b) = v; m.values(b, a) = std::conj(v);
        m.stored(a, b) = m.stored(b, a) = 1;
    };
    // one or more pieces
    auto start = 0;
    auto pieces = 0;
    while (start < n) {
        auto const len = (s.chance(2, 3)) ? n - start : s.range(1, n - start);
        auto const end = start + len;
        auto const kind = s.range(0, 5);
        static char const* const names[] = {"chain", "ring", "ladder", "star", "tree", "random"};
        m.kind += (pieces ? "+" : "") + std::string(names[kind]);
        auto const width = kind == 2 ? s.range(2, 4) : 0;
        for (auto i = start; i < end; ++i) {
            switch (kind) {
                case 0: if (i + 1 < end) { connect(i, i + 1); } break;
                case 1: connect(i, i + 1 < end ? i + 1 : start); break;
                case 2:
                    if (i + width < end) { connect(i, i + width); }
                    if ((i - start) % width + 1 < width && i + 1 < end) { connect(i, i + 1); }
                    break;
                case 3: connect(start, i); break;
                case 4: if (i > start) { connect(i, start + (i - start - 1) / 2); } break;
                default: for (auto j = start; j < i; ++j) { if (s.chance(1, 3)) { connect(i, j); } } break;
            }
        }
        start = end;
        ++pieces;
    }
    // diagonal
    auto const diagonal = s.range(0, 3); // none, some, all, constant
    auto const shift = o.allow_shift && s.chance(1, 4) ? s.sym(16) / 2.0 * scale : 0.0;
    for (auto i = 0; i < n; ++i) {
        auto const has = diagonal == 1 ? s.chance(1, 2) : diagonal != 0;
        if (has) {
            m.stored(i, i) = 1;
            m.values(i, i) = diagonal == 3 ? shift : s.sym(16) / 8.0 * scale + shift;
        }
    }
    return m;
}

inline Eigen::VectorXd eigenvalues(Dense const& m) {
    return Eigen::SelfAdjointEigenSolver<Dense>(m, Eigen::EigenvaluesOnly).eigenvalues();
}

} // namespace herm
