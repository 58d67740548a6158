#ifndef VSTUB_NUMERIC_PLANEFITTING_HPP
#define VSTUB_NUMERIC_PLANEFITTING_HPP
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/Cholesky>
namespace numeric {
    /** least squares fit of z = c0*x + c1*y + c2 */
    template<class _Scalar = double>
    struct PlaneFitting {
        typedef _Scalar Scalar;
        typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
        typedef Eigen::Matrix<Scalar, 3, 3> Matrix3;
        Scalar x, y, z, xx, yy, xy, xz, yz, zz, n;
        PlaneFitting() { clear(); }
        template<class D> explicit PlaneFitting(Eigen::MatrixBase<D> const& p, Scalar w = 1) { clear(); update(p, w); }
        void clear() { x = y = z = xx = yy = xy = xz = yz = zz = n = 0; }
        struct Result {
            Matrix3 covariance; Vector3 coeffs; Scalar residuals;
            Vector3 getCoeffs() const { return coeffs; }
            Scalar getResiduals() const { return residuals; }
            Matrix3 getCovariance() const { return covariance; }
        };
        template<class D> void update(Eigen::MatrixBase<D> const& p, Scalar w = 1) {
            const Scalar px = p[0], py = p[1], pz = p[2];
            x += px*w; y += py*w; z += pz*w;
            xx += px*px*w; yy += py*py*w; xy += px*py*w;
            xz += px*pz*w; yz += py*pz*w; zz += pz*pz*w; n += w;
        }
        void update(PlaneFitting const& o) {
            x += o.x; y += o.y; z += o.z; xx += o.xx; yy += o.yy; xy += o.xy;
            xz += o.xz; yz += o.yz; zz += o.zz; n += o.n;
        }
        void scale(Scalar f) { x*=f; y*=f; z*=f; xx*=f; yy*=f; xy*=f; xz*=f; yz*=f; zz*=f; n*=f; }
        Result solve() const {
            Matrix3 A; A << xx, xy, x, xy, yy, y, x, y, n;
            Vector3 b; b << xz, yz, z;
            Result r;
            r.coeffs = A.ldlt().solve(b);
            r.residuals = zz - Scalar(2) * r.coeffs.dot(b) + r.coeffs.dot(A * r.coeffs);
            r.covariance = A;
            return r;
        }
        Vector3 getCoeffs() const { return solve().coeffs; }
        Scalar getResiduals() const { return solve().residuals; }
    };
}
#endif
