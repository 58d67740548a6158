#ifndef VSTUB_NUMERIC_STATS_HPP
#define VSTUB_NUMERIC_STATS_HPP
#include <Eigen/Core>
namespace numeric {
    template<class T> struct Stats {
        typedef Eigen::Matrix<double, T::RowsAtCompileTime, T::RowsAtCompileTime> Cov;
        double w; Eigen::Matrix<double, T::RowsAtCompileTime, 1> s; Cov ss;
        Stats() : w(0) { s.setZero(); ss.setZero(); }
        void update(T const& v, double weight = 1.0) { w += weight; s += weight * v; ss += weight * v * v.transpose(); }
        T mean() const { return s / w; }
        Cov var() const { Eigen::Matrix<double, T::RowsAtCompileTime, 1> m = s / w; return ss / w - m * m.transpose(); }
        double sumWeights() const { return w; }
    };
}
#endif
