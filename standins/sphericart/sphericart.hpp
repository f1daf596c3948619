// Stand-in for sphericart (not installed here): real spherical harmonics of the direction of each
// point, in sphericart's order (l*l+l+m) and sign convention (no Condon-Shortley phase), and their
// gradients with respect to the Cartesian coordinates, laid out [sample][3][(l_max+1)^2].
// Sizes are checked the way sphericart checks them.
#pragma once
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <stdexcept>
#include <string>
#include <vector>

namespace sphericart {

template <typename T> class SphericalHarmonics {
public:
    explicit SphericalHarmonics(size_t l_max) : l_max_(l_max) {
        const int n = (int)l_max + 1;
        norm_.assign(n * n, 0.0);
        for (int l = 0; l < n; ++l)
            for (int m = 0; m <= l; ++m) {
                double q = (2 * l + 1) / (4 * 3.14159265358979323846264338327950288);
                for (int k = l - m + 1; k <= l + m; ++k) q /= k;
                norm_[l * n + m] = std::sqrt(m ? 2 * q : q);
            }
    }
    void compute(const std::vector<T>& xyz, std::vector<T>& sph) {
        need(xyz.size() % 3 == 0, "xyz");
        sph.resize(xyz.size() / 3 * num());
        run(xyz.data(), xyz.size() / 3, sph.data(), (T*)nullptr);
    }
    void compute_with_gradients(const std::vector<T>& xyz, std::vector<T>& sph, std::vector<T>& dsph) {
        need(xyz.size() % 3 == 0, "xyz");
        sph.resize(xyz.size() / 3 * num());
        dsph.resize(xyz.size() * num());
        run(xyz.data(), xyz.size() / 3, sph.data(), dsph.data());
    }
    void compute_array(const T* xyz, size_t xyz_length, T* sph, size_t sph_length) {
        need(xyz_length % 3 == 0, "xyz");
        need(sph_length >= xyz_length / 3 * num(), "sph");
        run(xyz, xyz_length / 3, sph, (T*)nullptr);
    }
    void compute_array_with_gradients(const T* xyz, size_t xyz_length, T* sph, size_t sph_length,
                                      T* dsph, size_t dsph_length) {
        need(xyz_length % 3 == 0, "xyz");
        need(sph_length >= xyz_length / 3 * num(), "sph");
        need(dsph_length >= xyz_length * num(), "dsph");
        run(xyz, xyz_length / 3, sph, dsph);
    }

private:
    size_t l_max_;
    std::vector<double> norm_;

    size_t num() const { return (l_max_ + 1) * (l_max_ + 1); }
    static void need(bool ok, const char* what) {
        if (!ok) throw std::runtime_error(std::string("sphericart: wrong length of ") + what);
    }
    void run(const T* xyz, size_t n, T* sph, T* dsph) {
        const int L = (int)l_max_, w = L + 2;
        std::vector<double> q(w * w), c(w), s(w);
        for (size_t i = 0; i < n; ++i) {
            double x = xyz[3 * i], y = xyz[3 * i + 1], z = xyz[3 * i + 2];
            const double r = std::sqrt(x * x + y * y + z * z);
            x /= r; y /= r; z /= r;
            // q[l][m] = d^m P_l / dz^m
            std::fill(q.begin(), q.end(), 0.0);
            for (int m = 0; m <= L; ++m) {
                double d = 1;
                for (int k = 1; k <= m; ++k) d *= 2 * k - 1;
                q[m * w + m] = d;
                for (int l = m + 1; l <= L; ++l)
                    q[l * w + m] = ((2 * l - 1) * z * q[(l - 1) * w + m]
                                    - (l >= m + 2 ? (l + m - 1) * q[(l - 2) * w + m] : 0.0)) / (l - m);
            }
            c[0] = 1; s[0] = 0;
            for (int m = 1; m <= L; ++m) {
                c[m] = x * c[m - 1] - y * s[m - 1];
                s[m] = x * s[m - 1] + y * c[m - 1];
            }
            for (int l = 0; l <= L; ++l)
                for (int m = -l; m <= l; ++m) {
                    const int a = m < 0 ? -m : m, lm = l * l + l + m;
                    const double F = norm_[l * (L + 1) + a], g = m < 0 ? s[a] : c[a], Q = q[l * w + a];
                    sph[i * num() + lm] = (T)(F * Q * g);
                    if (!dsph) continue;
                    // gradient of F*Q(z)*g(x,y), projected on the tangent plane
                    double gx = 0, gy = 0;
                    if (a > 0) {
                        gx = a * (m < 0 ? s[a - 1] : c[a - 1]);
                        gy = a * (m < 0 ? c[a - 1] : -s[a - 1]);
                    }
                    const double Qz = a + 1 <= l ? q[l * w + a + 1] : 0.0;
                    const double px = F * Q * gx, py = F * Q * gy, pz = F * Qz * g;
                    const double dot = px * x + py * y + pz * z;
                    dsph[(3 * i + 0) * num() + lm] = (T)((px - dot * x) / r);
                    dsph[(3 * i + 1) * num() + lm] = (T)((py - dot * y) / r);
                    dsph[(3 * i + 2) * num() + lm] = (T)((pz - dot * z) / r);
                }
        }
    }
};

} // namespace sphericart
