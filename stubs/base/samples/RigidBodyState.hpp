#ifndef VSTUB_BASE_RBS_HPP
#define VSTUB_BASE_RBS_HPP
#include <base/Eigen.hpp>
#include <base/Pose.hpp>
#include <base/Time.hpp>
#include <string>
#include <vector>
namespace base { namespace samples {
    struct RigidBodyState {
        Time time;
        std::string sourceFrame, targetFrame;
        Position position;
        Matrix3d cov_position;
        Orientation orientation;
        Matrix3d cov_orientation;
        RigidBodyState() : position(Position::Zero()), cov_position(Matrix3d::Zero()),
            orientation(Orientation::Identity()), cov_orientation(Matrix3d::Zero()) {}
        template<int M, int O> operator Eigen::Transform<double,3,M,O>() const {
            Eigen::Transform<double,3,M,O> r; r.setIdentity();
            r.linear() = Eigen::Matrix3d(orientation.toRotationMatrix());
            r.translation() = position;
            return r;
        }
    };
}}
#endif
