#ifndef VSTUB_BASE_POSE_HPP
#define VSTUB_BASE_POSE_HPP
#include <base/Eigen.hpp>
namespace base {
    struct Pose2D;
    struct Pose {
        Position position;
        Orientation orientation;
        Pose() : position(Position::Zero()), orientation(Orientation::Identity()) {}
        Pose(Position const& p, Orientation const& o) : position(p), orientation(o) {}
        // vector layout as in base-types: scaled axis first, then translation
        explicit Pose(Vector6d const& v) { fromVector6d(v); }
        template<int M, int O> explicit Pose(Eigen::Transform<double,3,M,O> const& t) { fromTransform(t); }
        template<int M, int O> void fromTransform(Eigen::Transform<double,3,M,O> const& t) {
            Eigen::Matrix3d r = t.linear();
            orientation = Eigen::Quaterniond(r);
            position = t.translation();
        }
        Affine3d toTransform() const {
            Affine3d t; t.setIdentity();
            t.linear() = Eigen::Matrix3d(orientation.toRotationMatrix());
            t.translation() = position;
            return t;
        }
        Vector6d toVector6d() const {
            Eigen::AngleAxisd aa{Eigen::Quaterniond(orientation)};
            Vector6d r; r << aa.angle() * aa.axis(), position;
            return r;
        }
        void fromVector6d(Vector6d const& v) {
            Eigen::Vector3d sa = v.head<3>();
            position = v.tail<3>();
            if (sa.norm() > 1e-9)
                orientation = Eigen::Quaterniond(Eigen::AngleAxisd(sa.norm(), sa.normalized()));
            else
                orientation = Orientation::Identity();
        }
        double getYaw() const {
            Eigen::Matrix3d r = Eigen::Matrix3d(orientation.toRotationMatrix());
            return std::atan2(r(1,0), r(0,0));
        }
    };
    struct Pose2D {
        Position2D position;
        Orientation2D orientation;
        Pose2D() : position(Position2D::Zero()), orientation(0) {}
        Pose2D(Position2D const& p, double o) : position(p), orientation(o) {}
        explicit Pose2D(Pose const& p) : position(p.position.head<2>()), orientation(p.getYaw()) {}
    };
}
#endif
