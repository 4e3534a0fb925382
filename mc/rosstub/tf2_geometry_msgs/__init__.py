from _ros import do_transform_vector3, do_transform_point, do_transform_pose
