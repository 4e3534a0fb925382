from _ros import Point, PointStamped, Pose, PoseStamped, PoseWithCovariance, Quaternion, QuaternionStamped, Transform, TransformStamped, Twist, TwistStamped, TwistWithCovariance, Vector3, Vector3Stamped
